// Exploration driver: one slot = one runner (forks a child per path) + one solver worker (z3).
#include "rt.h"
#include <z3.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <signal.h>
#include <time.h>
#include <elf.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <algorithm>
using namespace std;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Mod { const char* name; u8* cov; const char** names; u64 n; u32 base; };
extern Mod g_mods[512]; extern u32 g_nmods; extern u32 g_covTotal; extern u8* g_covShared;
// ---- shared state
struct Item { u8 input[MAXVARS]; u32 bound; u32 next; u64 hash; };
const u32 QMAX = 1u << 20;
struct Viol { u32 st; u32 nvars; u8 input[MAXVARS]; char name[MAXVARS][20]; char tag[256]; char where[256]; };
const u32 VMAX = 64, FNMAX = 1u << 14;
struct Shared {
    volatile int lock; volatile u32 qn; u32 freeHead, qtop, rr; u32 heads[64]; volatile int busy; volatile int stop; volatile u32 nviol;
    u64 paths, pruned, ok, decs, assertQ, qz3, qz3sat, qz3unsat, qunk, qmask, qmasksat, qmaskunsat, qcache, limits, hangs, engine, divergences, opaque, enumCut, xchk, xbad, prefixDecs, witnesses;
    u64 solver_ns, maxdec, maxnodes, maxvars;
    char engineMsg[256];
    char limitMsg[256];
    Viol viol[VMAX];
    const char* fns[FNMAX];
    char reach[64][48]; u32 nreach;
    char opq[64][64]; u32 nopq;
    u32 nsamples; struct { u32 nvars; u8 input[MAXVARS]; } samples[4];
    Item q[QMAX];
};
static Shared* H;
static MaskMemo* MM;
static void lock() { while (__sync_lock_test_and_set(&H->lock, 1)) { timespec t{ 0, 20000 }; for (int i = 0; i < 200 && H->lock; i++) __builtin_ia32_pause(); if (H->lock) nanosleep(&t, nullptr); } }
static void unlock() { __sync_lock_release(&H->lock); }
// one LIFO stack per value of the first input byte (the harness' case selector), served round-robin
static void pushItem(const Item& it)
{
    lock();
    u32 id = H->freeHead; if (id) H->freeHead = H->q[id].next; else if (H->qtop + 1 < QMAX) id = ++H->qtop;
    if (id) { H->q[id] = it; u32 h = it.input[0] & 63; H->q[id].next = H->heads[h]; H->heads[h] = id; H->qn++; }
    else { H->limits++; snprintf(H->limitMsg, 256, "work queue full"); }
    unlock();
}
static bool popLocked(Item& it)
{
    for (int k = 0; k < 64; k++) {
        u32 h = (H->rr + 1 + k) & 63;
        if (u32 id = H->heads[h]) { H->rr = h; it = H->q[id]; H->heads[h] = H->q[id].next; H->q[id].next = H->freeHead; H->freeHead = id; H->qn--; return true; }
    }
    return false;
}

// ---- options
static double o_time = 40; static int o_jobs = 8; static int o_secs = 5; static unsigned o_z3ms = 10000; static string o_out = "symx-out.json", o_replayDir; static int o_maxviol = 8; static u64 o_maxpaths = ~0ULL; static u64 o_xchk = 200; static string o_witness; static int o_verbose = 0; static unsigned o_seed = 1;

static set<string> g_pltNames; struct PltE { u64 a; string n; }; static vector<PltE> g_plt; static u64 g_pltLo = ~0ULL, g_pltHi = 0;
static void readElf()
{
    int fd = open("/proc/self/exe", O_RDONLY); off_t n = lseek(fd, 0, SEEK_END); u8* m = (u8*)mmap(nullptr, n, PROT_READ, MAP_PRIVATE, fd, 0); close(fd);
    auto* eh = (Elf64_Ehdr*)m; auto* sh = (Elf64_Shdr*)(m + eh->e_shoff); const char* sn = (const char*)m + sh[eh->e_shstrndx].sh_offset;
    for (int i = 0; i < eh->e_shnum; i++) {
        string nm = sn + sh[i].sh_name;
        if (nm.rfind(".plt", 0) == 0) { g_pltLo = min<u64>(g_pltLo, sh[i].sh_addr); g_pltHi = max<u64>(g_pltHi, sh[i].sh_addr + sh[i].sh_size); }
        if (sh[i].sh_type == SHT_DYNSYM) {
            auto* sy = (Elf64_Sym*)(m + sh[i].sh_offset); const char* st = (const char*)m + sh[sh[i].sh_link].sh_offset;
            for (u64 k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); k++) if (sy[k].st_shndx == SHN_UNDEF && sy[k].st_value) g_plt.push_back({ sy[k].st_value, st + sy[k].st_name });
        }
    }
}
bool sx_is_plt_impl(void* p) { u64 a = (u64)p; return a >= g_pltLo && a < g_pltHi; }
extern "C" bool sx_is_plt(void* p) { return sx_is_plt_impl(p); }
extern "C" const char* sx_symname(void* p)
{
    for (auto& e : g_plt) if (e.a == (u64)p) return e.n.c_str();
    Dl_info di; if (dladdr(p, &di) && di.dli_sname) return di.dli_sname;
    return "?";
}

// ---------------------------------------------------------------- solver side
struct Solver {
    Z3_context c = nullptr; Z3_solver s = nullptr;
    unordered_map<u64, Z3_ast> memo;
    unordered_map<u64, pair<int, vector<pair<u16, u8>>>> qcache;
    u64 queries = 0;
    static void err(Z3_context, Z3_error_code) {}
    void reset()
    {
        if (c) Z3_del_context(c);
        memo.clear(); dyMemo.clear();
        Z3_config cfg = Z3_mk_config();
        c = Z3_mk_context(cfg); Z3_del_config(cfg);
        Z3_set_error_handler(c, err);
        mkSolver(false);
    }
    bool fpMode = false;
    void mkSolver(bool fp)
    {
        if (s) Z3_solver_dec_ref(c, s);
        s = fp ? Z3_mk_solver(c) : Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV"));
        Z3_solver_inc_ref(c, s);
        Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p);
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), o_z3ms);
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "random_seed"), o_seed);
        Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p);
        fpMode = fp;
    }
    Z3_ast num(u64 v, unsigned w) { return Z3_mk_unsigned_int64(c, v, Z3_mk_bv_sort(c, w)); }
    static bool isBool(u8 op) { return (op >= O_EQ && op <= O_SLE) || op == O_NOT || (op >= O_OVF_UADD && op <= O_OVF_SMUL) || op == O_FCMP; }
    Node* N(u32 i) { return &G->nodes[i]; }
    bool usesFP = false;
    Z3_sort fs(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(c) : Z3_mk_fpa_sort_single(c); }
    Z3_ast fp(Node* n) { return Z3_mk_fpa_to_fp_bv(c, bv(n), fs(n->w)); }
    Z3_ast unfp(Z3_ast a) { return Z3_mk_fpa_to_ieee_bv(c, a); }
    Z3_ast bv(Node* n)
    {
        auto it = memo.find(n->hash ^ salt);
        if (it != memo.end()) return it->second;
        Z3_ast r = bv1(n);
        memo[n->hash ^ salt] = r;
        return r;
    }
    Z3_ast bo(Node* n)
    {
        u64 h = n->hash ^ salt ^ 0xB001B001B001ULL;
        auto it = memo.find(h);
        if (it != memo.end()) return it->second;
        Z3_ast r;
        Z3_ast a2[2];
        switch (n->op) {
        case O_EQ: r = N(n->k[0])->w == 1 ? Z3_mk_iff(c, bo(N(n->k[0])), bo(N(n->k[1]))) : Z3_mk_eq(c, bv(N(n->k[0])), bv(N(n->k[1]))); break;
        case O_ULT: r = Z3_mk_bvult(c, bv(N(n->k[0])), bv(N(n->k[1]))); break;
        case O_ULE: r = Z3_mk_bvule(c, bv(N(n->k[0])), bv(N(n->k[1]))); break;
        case O_SLT: r = Z3_mk_bvslt(c, bv(N(n->k[0])), bv(N(n->k[1]))); break;
        case O_SLE: r = Z3_mk_bvsle(c, bv(N(n->k[0])), bv(N(n->k[1]))); break;
        case O_NOT: r = Z3_mk_not(c, bo(N(n->k[0]))); break;
        case O_AND: a2[0] = bo(N(n->k[0])); a2[1] = bo(N(n->k[1])); r = Z3_mk_and(c, 2, a2); break;
        case O_OR: a2[0] = bo(N(n->k[0])); a2[1] = bo(N(n->k[1])); r = Z3_mk_or(c, 2, a2); break;
        case O_XOR: r = Z3_mk_xor(c, bo(N(n->k[0])), bo(N(n->k[1]))); break;
        case O_ITE: r = Z3_mk_ite(c, bo(N(n->k[0])), bo(N(n->k[1])), bo(N(n->k[2]))); break;
        case O_OVF_UADD: r = Z3_mk_not(c, Z3_mk_bvadd_no_overflow(c, bv(N(n->k[0])), bv(N(n->k[1])), false)); break;
        case O_OVF_SADD: a2[0] = Z3_mk_bvadd_no_overflow(c, bv(N(n->k[0])), bv(N(n->k[1])), true); a2[1] = Z3_mk_bvadd_no_underflow(c, bv(N(n->k[0])), bv(N(n->k[1]))); r = Z3_mk_not(c, Z3_mk_and(c, 2, a2)); break;
        case O_OVF_USUB: r = Z3_mk_bvult(c, bv(N(n->k[0])), bv(N(n->k[1]))); break;
        case O_OVF_SSUB: a2[0] = Z3_mk_bvsub_no_overflow(c, bv(N(n->k[0])), bv(N(n->k[1]))); a2[1] = Z3_mk_bvsub_no_underflow(c, bv(N(n->k[0])), bv(N(n->k[1])), true); r = Z3_mk_not(c, Z3_mk_and(c, 2, a2)); break;
        case O_OVF_UMUL: r = Z3_mk_not(c, Z3_mk_bvmul_no_overflow(c, bv(N(n->k[0])), bv(N(n->k[1])), false)); break;
        case O_OVF_SMUL: a2[0] = Z3_mk_bvmul_no_overflow(c, bv(N(n->k[0])), bv(N(n->k[1])), true); a2[1] = Z3_mk_bvmul_no_underflow(c, bv(N(n->k[0])), bv(N(n->k[1]))); r = Z3_mk_not(c, Z3_mk_and(c, 2, a2)); break;
        case O_FCMP: {
            Dy x = dy(N(n->k[0])), y = dy(N(n->k[1]));
            if (x.ok && y.ok) { int k = std::max(x.k, y.k); x = scaled(x, k - x.k); y = scaled(y, k - y.k); }
            if (x.ok && y.ok) {
                unsigned w = std::max(x.w, y.w); x.a = at(x, w); y.a = at(y, w);
                switch (n->k[2] & 7) { case 0: r = Z3_mk_false(c); break; case 1: r = Z3_mk_eq(c, x.a, y.a); break; case 2: r = Z3_mk_bvsgt(c, x.a, y.a); break; case 3: r = Z3_mk_bvsge(c, x.a, y.a); break;
                case 4: r = Z3_mk_bvslt(c, x.a, y.a); break; case 5: r = Z3_mk_bvsle(c, x.a, y.a); break; case 6: r = Z3_mk_not(c, Z3_mk_eq(c, x.a, y.a)); break; default: r = Z3_mk_true(c); }
                break;
            }
            Z3_ast a = fp(N(n->k[0])), b = fp(N(n->k[1]));
            Z3_ast u2[2] = { Z3_mk_fpa_is_nan(c, a), Z3_mk_fpa_is_nan(c, b) }; Z3_ast un = Z3_mk_or(c, 2, u2), ord = Z3_mk_not(c, un);
            Z3_ast base;
            switch (n->k[2] & 7) { case 0: base = Z3_mk_false(c); break; case 1: base = Z3_mk_fpa_eq(c, a, b); break; case 2: base = Z3_mk_fpa_gt(c, a, b); break; case 3: base = Z3_mk_fpa_geq(c, a, b); break; case 4: base = Z3_mk_fpa_lt(c, a, b); break; case 5: base = Z3_mk_fpa_leq(c, a, b); break; case 6: a2[0] = ord; a2[1] = Z3_mk_not(c, Z3_mk_fpa_eq(c, a, b)); base = Z3_mk_and(c, 2, a2); break; default: base = ord; }
            if (n->k[2] >= 8) { a2[0] = base; a2[1] = un; base = Z3_mk_or(c, 2, a2); }
            r = base; break;
        }
        case O_CONST: r = n->conc ? Z3_mk_true(c) : Z3_mk_false(c); break;
        default: r = Z3_mk_eq(c, bv(n), num(1, 1));
        }
        memo[h] = r;
        return r;
    }
    // ---- exact floating point: sums, differences and products of integers scaled by powers of two that stay below 2^53
    // are computed without rounding, so comparisons of them are comparisons of integers
    struct Dy { bool ok = false; Z3_ast a = nullptr; i64 lo = 0, hi = 0; int k = 0; unsigned w = 64; };
    // width that holds all values
    static unsigned need(const Dy& r) { if (r.lo >= -(1LL << 23) && r.hi < 1LL << 23) return 24; return 64; }
    Z3_ast at(const Dy& r, unsigned w) { return w == r.w ? r.a : w > r.w ? Z3_mk_sign_ext(c, w - r.w, r.a) : Z3_mk_extract(c, w - 1, 0, r.a); }
    Dy fin(Dy r, Z3_ast a, unsigned w) { r.a = a; r.w = w; unsigned n = need(r); if (n < w) { r.a = Z3_mk_extract(c, n - 1, 0, a); r.w = n; } return r; }
    unordered_map<u64, Dy> dyMemo;
    static bool urange(Node* n, u64& lo, u64& hi, int depth = 0)
    {
        u64 full = n->w >= 64 ? ~0ULL : (1ULL << n->w) - 1, a, b, c2, d;
        lo = 0; hi = full;
        if (depth > 40) return true;
        Node* x = sx_arity(n->op) > 0 ? &G->nodes[n->k[0]] : nullptr; Node* y = sx_arity(n->op) > 1 ? &G->nodes[n->k[1]] : nullptr;
        switch (n->op) {
        case O_CONST: lo = hi = n->conc; break;
        case O_VAR: { u64* m = G->t.vardom[n->k[0]]; int i = 0; while (i < 255 && !(m[i >> 6] >> (i & 63) & 1)) i++; lo = i; i = 255; while (i > 0 && !(m[i >> 6] >> (i & 63) & 1)) i--; hi = i; break; }
        case O_ZEXT: urange(x, lo, hi, depth + 1); break;
        case O_ADD: urange(x, a, b, depth + 1); urange(y, c2, d, depth + 1); if (b <= full / 2 && d <= full / 2) { lo = a + c2; hi = b + d; } break;
        case O_MUL: urange(x, a, b, depth + 1); urange(y, c2, d, depth + 1); if (!b || d <= full / b) { lo = a * c2; hi = b * d; } break;
        case O_EXTRACT: if (n->k[1] == 0) { urange(x, a, b, depth + 1); if (b <= full) { lo = a; hi = b; } } break;
        case O_CONCAT: urange(x, a, b, depth + 1); if (a == 0 && b == 0) { urange(y, lo, hi, depth + 1); } break;
        case O_AND: if (y->op == O_CONST) hi = y->conc; else if (x->op == O_CONST) hi = x->conc; break;
        default: break;
        }
        return true;
    }
    // range of a floating-point term whose operations are all within safe bounds
    static bool frange(Node* n, double& lo, double& hi, int depth)
    {
        if (depth > 40 || n->w != 64) return false;
        Node* x = sx_arity(n->op) > 0 ? &G->nodes[n->k[0]] : nullptr; Node* y = sx_arity(n->op) > 1 ? &G->nodes[n->k[1]] : nullptr;
        double a, b, c2, d;
        switch (n->op) {
        case O_CONST: memcpy(&lo, &n->conc, 8); hi = lo; return lo - lo == 0;
        case O_SITOFP: { i64 l, h; srange(x, l, h, depth + 1); lo = (double)l; hi = (double)h; return true; }
        case O_FNEG: if (!frange(x, a, b, depth + 1)) return false; lo = -b; hi = -a; return true;
        case O_FADD: if (!frange(x, a, b, depth + 1) || !frange(y, c2, d, depth + 1)) return false; lo = a + c2; hi = b + d; return true;
        case O_FSUB: if (!frange(x, a, b, depth + 1) || !frange(y, c2, d, depth + 1)) return false; lo = a - d; hi = b - c2; return true;
        case O_ITE: if (!frange(y, a, b, depth + 1) || !frange(&G->nodes[n->k[2]], c2, d, depth + 1)) return false; lo = std::min(a, c2); hi = std::max(b, d); return true;
        default: return false;
        }
    }
    static void srange(Node* n, i64& lo, i64& hi, int depth = 0)
    {
        i64 mx = n->w >= 64 ? INT64_MAX : (i64)((1ULL << (n->w - 1)) - 1), mn = -mx - 1;
        lo = mn; hi = mx;
        if (depth > 40) return;
        Node* x = sx_arity(n->op) > 0 ? &G->nodes[n->k[0]] : nullptr; Node* y = sx_arity(n->op) > 1 ? &G->nodes[n->k[1]] : nullptr;
        i64 a, b, c2, d;
        const i64 L = 1LL << 31;
        if (n->op == O_CONST) { i64 v = n->w >= 64 ? (i64)n->conc : (i64)(n->conc << (64 - n->w)) >> (64 - n->w); lo = hi = v; return; }
        if (n->op == O_SEXT) { srange(x, lo, hi, depth + 1); return; }
        if (n->op == O_ADD || n->op == O_SUB || n->op == O_MUL) {
            srange(x, a, b, depth + 1); srange(y, c2, d, depth + 1);
            if (a < -L || b > L || c2 < -L || d > L) return;
            i64 l, h;
            if (n->op == O_ADD) { l = a + c2; h = b + d; }
            else if (n->op == O_SUB) { l = a - d; h = b - c2; }
            else { i64 p[4] = { a * c2, a * d, b * c2, b * d }; l = *std::min_element(p, p + 4); h = *std::max_element(p, p + 4); }
            if (l >= mn && h <= mx) { lo = l; hi = h; }
            return;
        }
        if (n->op == O_ITE) { srange(y, a, b, depth + 1); srange(&G->nodes[n->k[2]], c2, d, depth + 1); lo = std::min(a, c2); hi = std::max(b, d); return; }
        if (n->op == O_FPTOSI) { double l, h; if (frange(x, l, h, depth + 1) && l > -4e15 && h < 4e15 && (n->w == 64 || (l > (double)mn && h < (double)mx))) { lo = (i64)l; hi = (i64)h; } return; }
        if (n->op == O_EXTRACT && n->k[1] == 0) { srange(x, a, b, depth + 1); if (a >= mn && b <= mx) { lo = a; hi = b; } return; }
        u64 ul, uh; urange(n, ul, uh, depth + 1);
        if (uh <= (u64)mx) { lo = (i64)ul; hi = (i64)uh; }
    }
    static Dy dyConst(u64 bits)
    {
        Dy r; double d; memcpy(&d, &bits, 8);
        if (!(d == d) || d - d != 0) return r;
        if (d == 0) { r.ok = true; return r; }
        int e; double m = frexp(d, &e);
        i64 v = (i64)ldexp(m, 53); e -= 53;
        while (!(v & 1)) { v /= 2; e++; }
        while (e > 0 && llabs(v) < (1LL << 50)) { v *= 2; e--; }
        if (e > 0 || e < -60 || llabs(v) >= (1LL << 52)) return r;
        r.ok = true; r.lo = r.hi = v; r.k = -e; return r;
    }
    static bool fit(Dy& r) { const i64 L = 1LL << 52; return r.ok = r.lo > -L && r.hi < L && r.k <= 60; }
    static bool shl(Dy& r, int by) { const i64 L = 1LL << 52; if (by > 50) return false; if (r.lo < -(L >> by) || r.hi > (L >> by)) return false; r.lo *= 1LL << by; r.hi *= 1LL << by; r.k += by; return true; }
    Dy dy(Node* n)
    {
        if (n->w != 64) return Dy();
        auto it = dyMemo.find(n->hash ^ salt);
        if (it != dyMemo.end()) return it->second;
        Dy r = dy1(n);
        dyMemo[n->hash ^ salt] = r;
        return r;
    }
    Dy scaled(Dy x, int by) { if (by == 0) return x; if (!shl(x, by)) { x.ok = false; return x; } unsigned w = need(x); return fin(x, Z3_mk_bvshl(c, at(x, std::max(w, x.w)), num((u64)by, std::max(w, x.w))), std::max(w, x.w)); }
    Dy dy1(Node* n)
    {
        Dy r;
        Node *p = sx_arity(n->op) > 0 ? N(n->k[0]) : nullptr, *q = sx_arity(n->op) > 1 ? N(n->k[1]) : nullptr;
        switch (n->op) {
        case O_CONST: r = dyConst(n->conc); if (r.ok) { unsigned w = need(r); r.a = num((u64)r.lo, w); r.w = w; } return r;
        case O_SITOFP: srange(p, r.lo, r.hi); if (!fit(r)) return r; { unsigned w = need(r); return w >= p->w ? fin(r, w == p->w ? bv(p) : Z3_mk_sign_ext(c, w - p->w, bv(p)), w) : fin(r, bv(p), p->w); }
        case O_UITOFP: { u64 l, h; urange(p, l, h); if (h >> 52) return r; r.lo = (i64)l; r.hi = (i64)h; if (!fit(r)) return r; unsigned w = std::max(need(r), (unsigned)(p->w + (p->w < 64))); return fin(r, w == p->w ? bv(p) : Z3_mk_zero_ext(c, w - p->w, bv(p)), w); }
        case O_FNEG: { Dy x = dy(p); if (!x.ok) return r; r = x; r.lo = -x.hi; r.hi = -x.lo; unsigned w = std::max(need(r), x.w); return fin(r, Z3_mk_bvneg(c, at(x, w)), w); }
        case O_ITE: {
            Dy x = dy(q), y = dy(N(n->k[2])); if (!x.ok || !y.ok) return r;
            int k = std::max(x.k, y.k); x = scaled(x, k - x.k); y = scaled(y, k - y.k); if (!x.ok || !y.ok) return r;
            r.ok = true; r.k = k; r.lo = std::min(x.lo, y.lo); r.hi = std::max(x.hi, y.hi); unsigned w = std::max(x.w, y.w); return fin(r, Z3_mk_ite(c, bo(p), at(x, w), at(y, w)), w); }
        case O_FADD: case O_FSUB: case O_FMIN: case O_FMAX: {
            Dy x = dy(p), y = dy(q); if (!x.ok || !y.ok) return r;
            int k = std::max(x.k, y.k); x = scaled(x, k - x.k); y = scaled(y, k - y.k); if (!x.ok || !y.ok) return r;
            r.k = k;
            if (n->op == O_FADD) { r.lo = x.lo + y.lo; r.hi = x.hi + y.hi; } else if (n->op == O_FSUB) { r.lo = x.lo - y.hi; r.hi = x.hi - y.lo; } else { r.lo = std::min(x.lo, y.lo); r.hi = std::max(x.hi, y.hi); }
            if (!fit(r)) return r;
            unsigned w = std::max(need(r), std::max(x.w, y.w)); Z3_ast a = at(x, w), b = at(y, w);
            return fin(r, n->op == O_FADD ? Z3_mk_bvadd(c, a, b) : n->op == O_FSUB ? Z3_mk_bvsub(c, a, b)
                : Z3_mk_ite(c, n->op == O_FMIN ? Z3_mk_bvslt(c, a, b) : Z3_mk_bvslt(c, b, a), a, b), w); }
        case O_FMUL: {
            Dy x = dy(p), y = dy(q); if (!x.ok || !y.ok) return r;
            long double pr[4] = { (long double)x.lo * y.lo, (long double)x.lo * y.hi, (long double)x.hi * y.lo, (long double)x.hi * y.hi };
            for (auto v : pr) if (v > 4e15L || v < -4e15L) return r;
            r.lo = (i64)*std::min_element(pr, pr + 4); r.hi = (i64)*std::max_element(pr, pr + 4); r.k = x.k + y.k;
            if (!fit(r)) return r;
            unsigned w = std::max(need(r), std::max(x.w, y.w)); return fin(r, Z3_mk_bvmul(c, at(x, w), at(y, w)), w); }
        case O_FDIV: {
            if (q->op != O_CONST) return r;
            Dy x = dy(p), y = dyConst(q->conc); if (!x.ok || !y.ok || y.lo <= 0 || (y.lo & (y.lo - 1))) return r;
            int e = __builtin_ctzll((u64)y.lo) - y.k;     // divisor 2^e
            if (e < 0) return scaled(x, -e).ok ? [&] { Dy z = scaled(x, -e); z.k += e; return z; }() : r;
            r = x; r.k += e; if (!fit(r)) r.ok = false; return r; }
        default: return r;
        }
    }
    Z3_ast tabAst(Node* sel, u64* t, unsigned w)
    {
        // ite over maximal runs of equal values
        Z3_ast x = bv(sel);
        Z3_ast r = num(t[255], w);
        for (int i = 254; i >= 0; i--) if (t[i] != t[i + 1]) r = Z3_mk_ite(c, Z3_mk_bvule(c, x, num((u64)i, 8)), num(t[i], w), r);
        return r;
    }
    Z3_ast bv1(Node* n)
    {
        unsigned w = n->w;
        Node *a = nullptr, *b = nullptr;
        int ar = sx_arity(n->op);
        if (ar > 0) a = N(n->k[0]);
        if (ar > 1) b = N(n->k[1]);
        if (w == 1 && (isBool(n->op) || n->op == O_AND || n->op == O_OR || n->op == O_XOR)) return Z3_mk_ite(c, bo(n), num(1, 1), num(0, 1));
        switch (n->op) {
        case O_VAR: return Z3_mk_const(c, Z3_mk_int_symbol(c, (int)n->k[0]), Z3_mk_bv_sort(c, 8));
        case O_CONST: return num(n->conc, w);
        case O_ADD: return Z3_mk_bvadd(c, bv(a), bv(b)); case O_SUB: return Z3_mk_bvsub(c, bv(a), bv(b)); case O_MUL: return Z3_mk_bvmul(c, bv(a), bv(b));
        case O_UDIV: return Z3_mk_bvudiv(c, bv(a), bv(b)); case O_SDIV: return Z3_mk_bvsdiv(c, bv(a), bv(b)); case O_UREM: return Z3_mk_bvurem(c, bv(a), bv(b)); case O_SREM: return Z3_mk_bvsrem(c, bv(a), bv(b));
        case O_SHL: return Z3_mk_bvshl(c, bv(a), bv(b)); case O_LSHR: return Z3_mk_bvlshr(c, bv(a), bv(b)); case O_ASHR: return Z3_mk_bvashr(c, bv(a), bv(b));
        case O_AND: return Z3_mk_bvand(c, bv(a), bv(b)); case O_OR: return Z3_mk_bvor(c, bv(a), bv(b)); case O_XOR: return Z3_mk_bvxor(c, bv(a), bv(b));
        case O_CONCAT: return Z3_mk_concat(c, bv(a), bv(b));
        case O_EXTRACT: return Z3_mk_extract(c, n->k[1] + w - 1, n->k[1], bv(a));
        case O_ZEXT: return Z3_mk_zero_ext(c, w - a->w, bv(a)); case O_SEXT: return Z3_mk_sign_ext(c, w - a->w, bv(a));
        case O_ITE: return Z3_mk_ite(c, bo(a), bv(b), bv(N(n->k[2])));
        case O_TAB: return tabAst(a, G->tabs[n->k[1]], w);
        case O_CTPOP: { Z3_ast r = num(0, w); for (unsigned i = 0; i < w; i++) { Z3_ast e = Z3_mk_extract(c, i, i, bv(a)); r = Z3_mk_bvadd(c, r, w > 1 ? Z3_mk_zero_ext(c, w - 1, e) : e); } return r; }
        case O_CTLZ: { Z3_ast r = num(w, w); for (unsigned i = 0; i < w; i++) r = Z3_mk_ite(c, Z3_mk_eq(c, Z3_mk_extract(c, i, i, bv(a)), num(1, 1)), num(w - 1 - i, w), r); return r; }
        case O_CTTZ: { Z3_ast r = num(w, w); for (unsigned i = w; i-- > 0;) r = Z3_mk_ite(c, Z3_mk_eq(c, Z3_mk_extract(c, i, i, bv(a)), num(1, 1)), num(i, w), r); return r; }
        default: break;
        }
        Z3_ast rm = Z3_mk_fpa_rne(c);
        switch (n->op) {
        case O_FADD: return unfp(Z3_mk_fpa_add(c, rm, fp(a), fp(b))); case O_FSUB: return unfp(Z3_mk_fpa_sub(c, rm, fp(a), fp(b)));
        case O_FMUL: return unfp(Z3_mk_fpa_mul(c, rm, fp(a), fp(b))); case O_FDIV: return unfp(Z3_mk_fpa_div(c, rm, fp(a), fp(b)));
        case O_FPTOSI: { // x86 semantics: out of range -> minimum
            Dy x = dy(a);
            if (x.ok) { Z3_ast v = x.k ? Z3_mk_bvsdiv(c, at(x, 64), num(1ULL << x.k, 64)) : at(x, 64); if ((w == 64 || (x.lo >> x.k > -(1LL << (w - 1)) && x.hi >> x.k < 1LL << (w - 1)))) return w == 64 ? v : Z3_mk_extract(c, w - 1, 0, v); }
            Z3_ast f = fp(a); return Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), f, w); }
        case O_FPTOUI: return Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), fp(a), w);
        case O_SITOFP: return unfp(Z3_mk_fpa_to_fp_signed(c, rm, bv(a), fs(w))); case O_UITOFP: return unfp(Z3_mk_fpa_to_fp_unsigned(c, rm, bv(a), fs(w)));
        case O_FPEXT: case O_FPTRUNC: return unfp(Z3_mk_fpa_to_fp_float(c, rm, fp(a), fs(w)));
        case O_FRND: { Z3_ast m = n->k[1] == 0 ? Z3_mk_fpa_rtn(c) : n->k[1] == 1 ? Z3_mk_fpa_rtp(c) : n->k[1] == 2 ? Z3_mk_fpa_rtz(c) : n->k[1] == 3 ? Z3_mk_fpa_rne(c) : Z3_mk_fpa_rna(c); return unfp(Z3_mk_fpa_round_to_integral(c, m, fp(a))); }
        case O_FSQRT: return unfp(Z3_mk_fpa_sqrt(c, rm, fp(a)));
        case O_FNEG: return Z3_mk_bvxor(c, bv(a), num(1ULL << (w - 1), w));
        case O_FMIN: return unfp(Z3_mk_fpa_min(c, fp(a), fp(b))); case O_FMAX: return unfp(Z3_mk_fpa_max(c, fp(a), fp(b)));
        case O_FREM: return unfp(Z3_mk_fpa_rem(c, fp(a), fp(b)));
        default: break;
        }
        return num(n->conc, w);
    }
    u64 salt = 0;
    static bool anyFP(Node* n, unordered_set<u32>& seen)
    {
        if (!seen.insert((u32)(n - G->nodes)).second) return false;
        if (n->op >= O_FADD && n->op <= O_FMAX) return true;
        int ar = sx_arity(n->op);
        for (int i = 0; i < ar; i++) if (anyFP(&G->nodes[n->k[i]], seen)) return true;
        return false;
    }
    // does the translation need floating-point terms?
    bool hasFP(Node* n, unordered_set<u32>& seen)
    {
        u32 id = (u32)(n - G->nodes);
        if (!seen.insert(id).second) return false;
        if (n->op == O_FCMP) {
            Dy x = dy(N(n->k[0])), y = dy(N(n->k[1]));
            if (x.ok && y.ok) { int k = std::max(x.k, y.k); x = scaled(x, k - x.k); y = scaled(y, k - y.k); }
            if (!x.ok || !y.ok) return true;
            return dyFP(N(n->k[0]), seen) || dyFP(N(n->k[1]), seen);
        }
        if (n->op == O_FPTOSI) {
            Dy x = dy(N(n->k[0]));
            if (!x.ok || !(n->w == 64 || (x.lo >> x.k > -(1LL << (n->w - 1)) && x.hi >> x.k < 1LL << (n->w - 1)))) return true;
            return dyFP(N(n->k[0]), seen);
        }
        if (n->op >= O_FADD && n->op <= O_FMAX) return true;
        int ar = sx_arity(n->op);
        for (int i = 0; i < ar; i++) if (hasFP(N(n->k[i]), seen)) return true;
        return false;
    }
    bool dyFP(Node* n, unordered_set<u32>& seen)
    {
        if (n->op == O_SITOFP || n->op == O_UITOFP) return hasFP(N(n->k[0]), seen);
        if (n->op == O_ITE) return hasFP(N(n->k[0]), seen) || dyFP(N(n->k[1]), seen) || dyFP(N(n->k[2]), seen);
        if (n->op < O_FADD || n->op > O_FMAX) return false;
        int ar = sx_arity(n->op);
        for (int i = 0; i < ar; i++) if (dyFP(N(n->k[i]), seen)) return true;
        return false;
    }
    // 1 sat (model filled), 0 unsat, -1 unknown
    int check(const vector<Node*>& cs, const u64* supp, u8* model)
    {
        vector<u64> hs; for (auto* n : cs) hs.push_back(n->hash);
        sort(hs.begin(), hs.end());
        u64 key = 0xabcdef; for (u64 h : hs) { key ^= h; key *= 0x9E3779B97F4A7C15ULL; key ^= key >> 29; }
        for (u32 v = 0; v < G->t.nvars; v++) if (supp[v >> 6] >> (v & 63) & 1) for (int i = 0; i < 4; i++) { key ^= G->t.vardom[v][i] + v; key *= 0xd6e8feb86659fd93ULL; key ^= key >> 31; }
        auto it = qcache.find(key);
        if (it != qcache.end()) {
            __sync_fetch_and_add(&H->qcache, 1);
            for (auto& p : it->second.second) model[p.first] = p.second;
            return it->second.first;
        }
        double t0 = now();
        if (!c || memo.size() > 400000) { s = nullptr; reset(); }
        bool fpq = false;
        // the integer form of floating-point terms depends on the ranges of the inputs
        salt = 0;
        { unordered_set<u32> sn; bool any = false; for (auto* n : cs) if (anyFP(n, sn)) { any = true; break; }
          if (any) { salt = 0x5bd1e995; for (u32 v = 0; v < G->t.nvars; v++) if (supp[v >> 6] >> (v & 63) & 1) for (int i = 0; i < 4; i++) { salt ^= G->t.vardom[v][i] + v; salt *= 0xd6e8feb86659fd93ULL; salt ^= salt >> 31; } } }
        if (salt) { unordered_set<u32> sn; for (auto* n : cs) if (hasFP(n, sn)) { fpq = true; break; } }
        if (fpq != fpMode) mkSolver(fpq);
        Z3_solver_push(c, s);
        for (auto* n : cs) Z3_solver_assert(c, s, bo(n));
        vector<u32> vars;
        for (u32 v = 0; v < G->t.nvars; v++) if (supp[v >> 6] >> (v & 63) & 1) {
            vars.push_back(v);
            u64* d = G->t.vardom[v];
            if ((d[0] & d[1] & d[2] & d[3]) == ~0ULL) continue;
            int mx = 255; while (mx > 0 && !(d[mx >> 6] >> (mx & 63) & 1)) mx--;
            Z3_ast x = Z3_mk_const(c, Z3_mk_int_symbol(c, (int)v), Z3_mk_bv_sort(c, 8));
            Z3_solver_assert(c, s, Z3_mk_bvule(c, x, num((u64)mx, 8)));
        }
        Z3_lbool r = Z3_solver_check(c, s);
        int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
        vector<pair<u16, u8>> mv;
        if (res == 1) {
            Z3_model m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m);
            for (u32 v : vars) {
                Z3_ast x = Z3_mk_const(c, Z3_mk_int_symbol(c, (int)v), Z3_mk_bv_sort(c, 8)), o; u64 val = 0;
                if (Z3_model_eval(c, m, x, true, &o)) { uint64_t vv = 0; Z3_get_numeral_uint64(c, o, &vv); val = vv; }
                model[v] = (u8)val; mv.push_back({ (u16)v, (u8)val });
            }
            Z3_model_dec_ref(c, m);
        }
        Z3_solver_pop(c, s, 1);
        u64 ns = (u64)((now() - t0) * 1e9);
        __sync_fetch_and_add(&H->solver_ns, ns); __sync_fetch_and_add(&H->qz3, 1);
        __sync_fetch_and_add(res == 1 ? &H->qz3sat : res == 0 ? &H->qz3unsat : &H->qunk, 1);
        if (res >= 0) { if (qcache.size() > 200000) qcache.clear(); qcache[key] = { res, mv }; }
        return res;
    }
};

static Solver SV;
static u64 vhash(const u8* p, u32 n) { u64 h = 1469598103934665603ULL; for (u32 i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ULL; return h; }

// constraints of the current path in order; per-variable masks for the single-variable ones
struct PathCtx {
    vector<Node*> multi;              // multi-variable constraints so far
    u64 dom[MAXVARS][4];
    vector<Node*> singles;            // single-variable constraints (for slices that need z3)
    bool varMulti[MAXVARS];
};
static void addConstraint(PathCtx& P, Node* n)
{
    if (n->op == O_CONST) return;
    if (n->op == O_AND && n->w == 1) { addConstraint(P, &G->nodes[n->k[0]]); addConstraint(P, &G->nodes[n->k[1]]); return; }
    if (n->op == O_NOT && G->nodes[n->k[0]].op == O_OR && G->nodes[n->k[0]].w == 1) { Node* o = &G->nodes[n->k[0]]; addConstraint(P, sx_not(&G->nodes[o->k[0]])); addConstraint(P, sx_not(&G->nodes[o->k[1]])); return; }
    u64 m[4];
    if (n->single >= 0 && sx_mask_of(n, m)) { for (int i = 0; i < 4; i++) P.dom[n->single][i] &= m[i]; P.singles.push_back(n); return; }
    P.multi.push_back(n);
    for (int v = 0; v < MAXVARS; v++) if (n->supp[v >> 6] >> (v & 63) & 1) P.varMulti[v] = true;
}
// is prefix && alt satisfiable?  fills model (starting from the parent's input)
static int feasible(PathCtx& P, Node* alt, u8* model, bool assertion = false)
{
    memcpy(model, G->input, MAXVARS);
    if (alt->op == O_CONST) return alt->conc != 0;
    u64 m[4];
    if (!assertion && alt->single >= 0 && sx_mask_of(alt, m)) {
        u64* d = P.dom[alt->single];
        int pick = -1;
        for (int i = 0; i < 256; i++) if ((d[i >> 6] & m[i >> 6]) >> (i & 63) & 1) { pick = i; break; }
        if (pick < 0 || !P.varMulti[alt->single]) {
            __sync_fetch_and_add(&H->qmask, 1);
            int res = pick >= 0;
            __sync_fetch_and_add(res ? &H->qmasksat : &H->qmaskunsat, 1);
            // a sample of byte-domain verdicts is re-decided by z3
            if (__sync_fetch_and_add(&H->xchk, 1) < o_xchk) {
                vector<Node*> cs; for (auto* s : P.singles) if (s->single == alt->single) cs.push_back(s);
                cs.push_back(alt);
                u8 mm[MAXVARS]; memcpy(mm, model, MAXVARS);
                int r = SV.check(cs, alt->supp, mm);
                if (r >= 0 && r != res) __sync_fetch_and_add(&H->xbad, 1);
            }
            if (res) model[alt->single] = (u8)pick;
            return res;
        }
    }
    // slice
    u64 sup[4]; memcpy(sup, alt->supp, 32);
    vector<Node*> cs{ alt };
    vector<bool> used(P.multi.size(), false);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < P.multi.size(); i++) {
            if (used[i]) continue;
            bool hit = false; for (int k = 0; k < 4; k++) hit |= (P.multi[i]->supp[k] & sup[k]) != 0;
            if (hit) { used[i] = true; ch = true; for (int k = 0; k < 4; k++) sup[k] |= P.multi[i]->supp[k]; cs.push_back(P.multi[i]); }
        }
    }
    for (auto* s : P.singles) { int v = s->single; if (sup[v >> 6] >> (v & 63) & 1) cs.push_back(s); }
    sort(cs.begin() + 1, cs.end()); cs.erase(unique(cs.begin() + 1, cs.end()), cs.end());
    return SV.check(cs, sup, model);
}
static void cutNote(const char* m) { lock(); H->limits++; if (!H->limitMsg[0]) snprintf(H->limitMsg, 256, "%s", m); unlock(); }

static u64 altPrefixHash(u32 idx, Node* t)
{
    // must equal the runtime's push(): mix(prefix ^ hash)
    u64 x = (idx ? G->decHash[idx - 1] : 0x1234567ULL) ^ t->hash;
    x ^= x >> 32; x *= 0xd6e8feb86659fd93ULL; x ^= x >> 32; x *= 0xd6e8feb86659fd93ULL; x ^= x >> 32; return x;
}
static void emit(u8* model, u32 bound, u64 h)
{
    Item it; memset(&it, 0, sizeof it); memcpy(it.input, model, MAXVARS); it.bound = bound; it.hash = h; pushItem(it);
}

static void processPath(Slot* s)
{
    static PathCtx P;
    P.multi.clear(); P.singles.clear(); memset(P.varMulti, 0, sizeof P.varMulti);
    for (u32 v = 0; v < MAXVARS; v++) memcpy(P.dom[v], s->t.vardom[v], 32);
    u64 conc = 0;
    for (u32 j = 0; j < s->t.ndec; j++) {
        Dec& d = s->dec[j];
        if (d.loc) { u32 h = (u32)(((u64)d.loc * 0x9E3779B97F4A7C15ULL) >> 40) & (FNMAX - 1); for (int k = 0; k < 32; k++) { auto& e = H->fns[(h + k) & (FNMAX - 1)]; if (e == d.loc) break; if (!e) { e = d.loc; break; } } }
        Node* n = &s->nodes[d.cond];
        bool expand = j >= s->bound;
        u8 model[MAXVARS];
        if (d.kind == D_BRANCH || d.kind == D_ASSUME || d.kind == D_CHECK) {
            if (expand && !d.noalt) {
                if (d.kind == D_CHECK) __sync_fetch_and_add(&H->assertQ, 1);
                Node* alt = sx_not(n);
                int r = feasible(P, alt, model, d.kind == D_CHECK);
                if (r == 1) emit(model, j + 1, altPrefixHash(j, alt));
                else if (r < 0) cutNote("solver gave up on a branch query");
            }
            addConstraint(P, n);
        } else if (d.kind == D_SWITCH) {
            Node* taken = nullptr;
            // condition per group
            vector<Node*> conds(d.ngroups, nullptr);
            Node* any = nullptr;
            for (u32 i = 0; i < d.n; i++) {
                Node* e = sx_bin_node(O_EQ, n, sx_const(d.vals[i], n->w));
                u32 g = d.groups[i];
                conds[g] = conds[g] ? sx_bin_node(O_OR, conds[g], e) : e;
            }
            // default group: none of the other groups' cases (must mirror the runtime's construction)
            for (u32 i = 0; i < d.n; i++) { Node* e = sx_bin_node(O_EQ, n, sx_const(d.vals[i], n->w)); any = any ? sx_bin_node(O_OR, any, e) : e; }
            Node* def = any ? sx_not(any) : nullptr;
            // cases mapped to the default block belong to group 0: never happens for canonical switches
            conds[0] = def;
            taken = conds[d.val];
            if (expand)
                for (u32 g = 0; g < d.ngroups; g++) {
                    if (g == d.val || !conds[g]) continue;
                    int r = feasible(P, conds[g], model);
                    if (r == 1) emit(model, j + 1, altPrefixHash(j, conds[g]));
                    else if (r < 0) cutNote("solver gave up on a switch query");
                }
            addConstraint(P, taken);
        } else if (d.kind == D_CONC) {
            Node* eq = sx_bin_node(O_EQ, n, sx_const(d.val, n->w));
            if (expand) {
                Node* ne = sx_not(eq);
                u64 cnt = 0, lim = d.limit ? d.limit : 65536;
                for (;;) {
                    if (H->stop) break;
                    int r = feasible(P, ne, model);
                    if (r <= 0) { if (r < 0) cutNote("solver gave up on an enumeration query"); break; }
                    if (++cnt >= lim) { __sync_fetch_and_add(&H->enumCut, 1); char b[200]; snprintf(b, 200, "enumeration of a pinned value cut at %llu values in %s", (unsigned long long)lim, d.loc ? d.loc : "?"); cutNote(b); break; }
                    // value of n under the model
                    u64 v;
                    if (n->single >= 0) { u64* t = sx_tab_of(n); v = t ? t[model[n->single]] : 0; }
                    else {
                        // evaluate the DAG
                        static unordered_map<u32, u64> ev; ev.clear();
                        struct R { static u64 go(Node* x, u8* md) {
                            u32 id = (u32)(x - G->nodes); if (x->op == O_CONST) return x->conc; if (x->op == O_VAR) return md[x->k[0]];
                            auto it = ev.find(id); if (it != ev.end()) return it->second;
                            int ar = sx_arity(x->op); u64 c[3] = { 0, 0, 0 }; for (int i = 0; i < ar; i++) c[i] = go(&G->nodes[x->k[i]], md);
                            u64 r; if (x->op == O_TAB) r = G->tabs[x->k[1]][c[0] & 255]; else { unsigned wk = x->op == O_CONCAT ? G->nodes[x->k[1]].w : G->nodes[x->k[0]].w; r = sx_eval_op(x->op, x->w, wk, c[0], c[1], c[2], x->k[1], x->k[2]); }
                            ev[id] = r; return r; } };
                        v = R::go(n, model);
                    }
                    Node* e2 = sx_bin_node(O_EQ, n, sx_const(v, n->w));
                    emit(model, j + 1, altPrefixHash(j, e2));
                    ne = sx_bin_node(O_AND, ne, sx_not(e2));
                    (void)conc;
                }
            }
            addConstraint(P, eq);
        }
    }
}

static void recordViolation(Slot* s)
{
    lock();
    for (u32 i = 0; i < H->nviol; i++) if (!strcmp(H->viol[i].tag, s->t.tag) && !strcmp(H->viol[i].where, s->t.where)) { unlock(); return; }
    if (H->nviol < VMAX) {
        Viol& v = H->viol[H->nviol];
        v.st = s->t.status; v.nvars = s->t.nvars; memcpy(v.input, s->input, MAXVARS); memcpy(v.name, s->t.varname, sizeof v.name); strcpy(v.tag, s->t.tag); strcpy(v.where, s->t.where);
        __sync_synchronize();
        H->nviol++;
        if ((int)H->nviol >= o_maxviol) H->stop = 1;
    }
    unlock();
}

static void runner(Slot* s, int rfd, int wfd)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    char c;
    while (read(rfd, &c, 1) == 1) {
        pid_t p = fork();
        if (p == 0) { close(rfd); close(wfd); sx_run_path(s, o_secs); _exit(0); }
        int st = 0;
        if (p < 0) { s->t.status = ST_ENGINE; strcpy(s->t.tag, "fork failed"); }
        else {
            waitpid(p, &st, 0);
            if (s->t.status == ST_NONE) { s->t.status = ST_CRASH; if (WIFSIGNALED(st)) snprintf(s->t.tag, 256, "crash: signal %d", WTERMSIG(st)); else snprintf(s->t.tag, 256, "process exited"); }
        }
        if (write(wfd, &c, 1) != 1) break;
    }
    _exit(0);
}
static double T0;
static void worker(Slot* s, int rfd, int wfd, int id)
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    sx_attach(s);
    FILE* wf = nullptr;
    if (!o_witness.empty()) { wf = fopen((o_witness + "." + to_string(id)).c_str(), "wb"); }
    for (;;) {
        if (H->stop) break;
        lock();
        if (H->qn == 0) {
            if (H->busy == 0) { unlock(); break; }
            unlock(); timespec t{ 0, 100000 }; nanosleep(&t, nullptr); continue;
        }
        Item it; popLocked(it);
        H->busy++;
        unlock();
        memcpy(s->input, it.input, MAXVARS); s->bound = it.bound; s->boundHash = it.hash;
        s->t.status = ST_NONE; char c = 1;
        if (getenv("SYMX_TRACE")) { fprintf(stderr, "RUN bound %u hash %llx in ", s->bound, (unsigned long long)s->boundHash); for (int i = 0; i < 16; i++) fprintf(stderr, "%02x", s->input[i]); fprintf(stderr, "\n"); }
        if (write(wfd, &c, 1) != 1 || read(rfd, &c, 1) != 1) { H->stop = 1; lock(); H->engine++; snprintf(H->engineMsg, 256, "runner died"); unlock(); break; }
        u32 st = s->t.status;
        __sync_fetch_and_add(&H->paths, 1);
        __sync_fetch_and_add(&H->decs, s->t.ndec);
        __sync_fetch_and_add(&H->divergences, s->t.divergences);
        __sync_fetch_and_add(&H->opaque, s->t.opaque);
        if (s->t.ndec > H->maxdec) H->maxdec = s->t.ndec;
        if (s->t.nnodes > H->maxnodes) H->maxnodes = s->t.nnodes;
        if (s->t.nvars > H->maxvars) H->maxvars = s->t.nvars;
        if (st == ST_ENGINE) { lock(); H->engine++; snprintf(H->engineMsg, 256, "%.120s @ %.120s", s->t.tag, s->t.where); unlock(); }
        else if (st == ST_VIOLATION || st == ST_CRASH || st == ST_HANG) recordViolation(s);
        else if (st == ST_LIMIT) { cutNote(s->t.tag); }
        if (st == ST_OK) __sync_fetch_and_add(&H->ok, 1);
        if (st == ST_PRUNED) __sync_fetch_and_add(&H->pruned, 1);
        if (s->t.reachN || s->t.opaque || H->nsamples < 4) {
            lock();
            for (u32 i = 0; i < s->t.reachN; i++) { bool f = false; for (u32 k = 0; k < H->nreach; k++) if (!strcmp(H->reach[k], s->t.reach[i])) f = true; if (!f && H->nreach < 64) strcpy(H->reach[H->nreach++], s->t.reach[i]); }
            for (int i = 0; i < 8 && s->t.opaqueName[i][0]; i++) { bool f = false; for (u32 k = 0; k < H->nopq; k++) if (!strcmp(H->opq[k], s->t.opaqueName[i])) f = true; if (!f && H->nopq < 64) strcpy(H->opq[H->nopq++], s->t.opaqueName[i]); }
            if (H->nsamples < 4 && st == ST_OK) { auto& sm = H->samples[H->nsamples++]; sm.nvars = s->t.nvars; memcpy(sm.input, s->input, MAXVARS); }
            unlock();
        }
        if (wf && st == ST_OK) { fwrite(&s->t.nvars, 4, 1, wf); fwrite(s->input, 1, MAXVARS, wf); __sync_fetch_and_add(&H->witnesses, 1); }
        if (st != ST_ENGINE) processPath(s);
        lock(); H->busy--; unlock();
        if (now() - T0 > o_time || H->paths >= o_maxpaths) { if (H->qn || H->busy) { if (!H->stop) cutNote("time budget"); H->stop = 2; } }
    }
    if (wf) fclose(wf);
    _exit(0);
}
static void jstr(FILE* f, const char* s) { fputc('"', f); for (; *s; s++) { unsigned char c = (unsigned char)*s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }
static void jhex(FILE* f, const u8* p, u32 n) { fputc('"', f); for (u32 i = 0; i < n; i++) fprintf(f, "%02x", p[i]); fputc('"', f); }

extern "C" __attribute__((weak)) void sx_setup(void);
extern "C" int sx_main(int argc, char** argv)
{
    int per = personality(0xffffffff);
    if (!(per & ADDR_NO_RANDOMIZE)) { if (personality(per | ADDR_NO_RANDOMIZE) >= 0) { execv("/proc/self/exe", argv); } }
    for (int i = 1; i < argc; i++) {
        string a = argv[i]; auto nx = [&] { return string(argv[++i]); };
        if (a == "-t") o_time = atof(nx().c_str()); else if (a == "-j") o_jobs = atoi(nx().c_str()); else if (a == "-s") o_secs = atoi(nx().c_str());
        else if (a == "-z") o_z3ms = (unsigned)atoi(nx().c_str()); else if (a == "-o") o_out = nx(); else if (a == "-v") o_maxviol = atoi(nx().c_str());
        else if (a == "-p") o_maxpaths = strtoull(nx().c_str(), 0, 10); else if (a == "-x") o_xchk = strtoull(nx().c_str(), 0, 10); else if (a == "-w") o_witness = nx(); else if (a == "-T") g_tier = atoi(nx().c_str()); else if (a == "-V") o_verbose = 1; else if (a == "-S") o_seed = (unsigned)atoi(nx().c_str());
    }
    readElf(); sx_globals_ready(); sx_scan_maps();
    H = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    MM = (MaskMemo*)mmap(nullptr, sizeof(MaskMemo) * MASKMEMO, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    sx_set_maskmemo(MM);
    T0 = now();
    Item it; memset(&it, 0, sizeof it); pushItem(it);
    g_covShared = (u8*)mmap(nullptr, g_covTotal + 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    vector<pid_t> ws, rs;
    for (int i = 0; i < o_jobs; i++) {
        Slot* s = (Slot*)mmap((void*)(0x100000000000ULL + (u64)i * 0x100000000ULL), sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (s == MAP_FAILED) { perror("slot"); return 3; }
        int a[2], b[2]; if (pipe(a) || pipe(b)) return 3;
        pid_t r = fork(); if (r == 0) { close(a[1]); close(b[0]); runner(s, a[0], b[1]); }
        pid_t w = fork(); if (w == 0) { close(a[0]); close(b[1]); worker(s, b[0], a[1], i); }
        close(a[0]); close(a[1]); close(b[0]); close(b[1]);
        ws.push_back(w); rs.push_back(r);
    }
    double lastp = now(); bool killed = false;
    set<pid_t> alive(ws.begin(), ws.end());
    while (!alive.empty()) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) { if (alive.erase(p) && (WIFSIGNALED(st) || WEXITSTATUS(st))) { H->engine++; snprintf(H->engineMsg, 256, "solver worker ended abnormally (%d)", st); H->stop = 1; } continue; }
        timespec t{ 0, 5000000 }; nanosleep(&t, nullptr);
        if (o_verbose && now() - lastp > 5) { lastp = now(); fprintf(stderr, "[symx] t=%.0f paths=%llu q=%u z3=%llu viol=%u\n", now() - T0, (unsigned long long)H->paths, H->qn, (unsigned long long)H->qz3, H->nviol); }
        if (now() - T0 > o_time + 15 && !killed) { killed = true; cutNote("time budget (workers ended)"); for (pid_t w : ws) kill(w, SIGKILL); for (pid_t r : rs) kill(r, SIGKILL); H->stop = 2; break; }
    }
    for (pid_t r : rs) kill(r, SIGKILL);
    for (pid_t r : rs) waitpid(r, nullptr, 0);
    bool complete = H->qn == 0 && !H->limits && !H->engine && !H->stop && !H->nviol;
    FILE* f = fopen(o_out.c_str(), "w");
    fprintf(f, "{\"complete\":%s,\"wall_s\":%.3f", complete ? "true" : "false", now() - T0);
#define P(x) fprintf(f, ",\"" #x "\":%llu", (unsigned long long)H->x)
    P(paths); P(ok); P(pruned); P(decs); P(assertQ); P(qz3); P(qz3sat); P(qz3unsat); P(qunk); P(qmask); P(qmasksat); P(qmaskunsat); P(qcache); P(limits); P(engine); P(divergences); P(opaque); P(enumCut); P(xbad); P(maxdec); P(maxnodes); P(maxvars); P(witnesses);
    fprintf(f, ",\"xchk\":%llu", (unsigned long long)min<u64>(H->xchk, o_xchk));
    fprintf(f, ",\"solver_s\":%.3f,\"queue_left\":%u,\"limitMsg\":", H->solver_ns * 1e-9, H->qn); jstr(f, H->limitMsg);
    fprintf(f, ",\"engineMsg\":"); jstr(f, H->engineMsg);
    fprintf(f, ",\"functions\":["); { set<string> fn; for (auto* p : H->fns) if (p) fn.insert(p); bool c = false; for (auto& x : fn) { if (c) fputc(',', f); c = true; jstr(f, x.c_str()); } }
    fprintf(f, "],\"covered\":{"); { bool cm = false; for (u32 m = 0; m < g_nmods; m++) { bool first = true; for (u64 i = 0; i < g_mods[m].n; i++) if (g_covShared[g_mods[m].base + i]) { if (first) { if (cm) fputc(',', f); cm = true; jstr(f, g_mods[m].name); fputs(":[", f); } else fputc(',', f); first = false; jstr(f, g_mods[m].names[i]); } if (!first) fputc(']', f); } }
    fprintf(f, "},\"static_init\":["); { bool cm = false; for (u32 m = 0; m < g_nmods; m++) { bool any = false; for (u64 i = 0; i < g_mods[m].n; i++) any |= g_mods[m].cov[i]; if (any) { if (cm) fputc(',', f); cm = true; jstr(f, g_mods[m].name); } } }
    fprintf(f, "],\"reach\":["); for (u32 i = 0; i < H->nreach; i++) { if (i) fputc(',', f); jstr(f, H->reach[i]); }
    fprintf(f, "],\"opaque_calls\":["); for (u32 i = 0; i < H->nopq; i++) { if (i) fputc(',', f); jstr(f, H->opq[i]); }
    fprintf(f, "],\"samples\":["); for (u32 i = 0; i < H->nsamples; i++) { if (i) fputc(',', f); jhex(f, H->samples[i].input, H->samples[i].nvars); }
    fprintf(f, "],\"violations\":["); for (u32 i = 0; i < H->nviol; i++) {
        Viol& v = H->viol[i]; if (i) fputc(',', f);
        fprintf(f, "{\"kind\":%u,\"tag\":", v.st); jstr(f, v.tag); fprintf(f, ",\"where\":"); jstr(f, v.where); fprintf(f, ",\"input\":"); jhex(f, v.input, v.nvars); fprintf(f, ",\"names\":["); for (u32 k = 0; k < v.nvars; k++) { if (k) fputc(',', f); jstr(f, v.name[k]); } fprintf(f, "]}"); }
    fprintf(f, "]}\n"); fclose(f);
    if (o_verbose) fprintf(stderr, "[symx] done %.1fs paths=%llu z3=%llu mask=%llu viol=%u complete=%d limits=%llu %s engine=%llu %s\n", now() - T0, (unsigned long long)H->paths, (unsigned long long)H->qz3, (unsigned long long)H->qmask, H->nviol, complete, (unsigned long long)H->limits, H->limitMsg, (unsigned long long)H->engine, H->engineMsg);
    return 0;
}
