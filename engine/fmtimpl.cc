// The {fmt} implementation, compiled once (instrumented).  fmt::vformat -> std::string is only used by the
// library for diagnostics (error and log texts): it runs with tracking suspended, so texts are concrete.
#include <fmt/format-inl.h>
extern "C" void __sx_suspend(int on);
FMT_BEGIN_NAMESPACE
namespace detail {
template FMT_API auto dragonbox::to_decimal(float x) noexcept -> dragonbox::decimal_fp<float>;
template FMT_API auto dragonbox::to_decimal(double x) noexcept -> dragonbox::decimal_fp<double>;
template FMT_API auto thousands_sep_impl(locale_ref) -> thousands_sep_result<char>;
template FMT_API auto decimal_point_impl(locale_ref) -> char;
template FMT_API void buffer<char>::append(const char*, const char*);
template FMT_API void vformat_to(buffer<char>&, string_view, basic_format_args<FMT_BUFFER_CONTEXT(char)>, locale_ref);
}
FMT_END_NAMESPACE
