#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <string>
#include <string_view>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <deque>
#include <stack>
#include <queue>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <functional>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <charconv>
#include <chrono>
#include <mutex>
#include <variant>
#include <regex>
#include <array>
#include <limits>
#include <stdexcept>
#include <type_traits>
#include <fmt/format.h>
FMT_BEGIN_NAMESPACE
namespace detail { extern template void vformat_to<char>(buffer<char>&, basic_string_view<char>, basic_format_args<buffer_context<char>>, locale_ref); }
FMT_END_NAMESPACE
#include <pdfmm/private/PdfDeclarationsPrivate.h>
#include <pdfmm/pdfmm.h>
