// In-path runtime: expression construction, shadow memory, checked heap, decision recording, libc models.
#include "node.h"
#include "rt.h"
#include <sys/mman.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <new>
#include <initializer_list>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <charconv>
#include <cctype>

extern "C" {
// defined in sxdata.c (in the executable, so that instrumented code reaches them directly)
extern SX __sx_args[64]; extern SX __sx_ret[16]; extern void* __sx_tag; extern void* __sx_rettag; extern u8 __sx_pagemap[1 << 20];
extern char __executable_start, etext;
}
Slot* G = nullptr;          // the slot of this process (null: not inside a path)
static bool g_off = true;
static u64 g_dom[MAXVARS][4];
static u64 g_prefix = 0x1234567;
static u32 g_check = 0;
int g_tier = 0;
extern "C" int __sx_tier() { return g_tier; }
extern "C" int __sx_native() { return 0; }

static inline u64 mix(u64 x) { x ^= x >> 32; x *= 0xd6e8feb86659fd93ULL; x ^= x >> 32; x *= 0xd6e8feb86659fd93ULL; x ^= x >> 32; return x; }
static inline u64 maskw(u64 v, unsigned w) { return w >= 64 ? v : v & ((1ULL << w) - 1); }
static inline i64 sextw(u64 v, unsigned w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w))) >> (64 - w); }
static inline Node* N(u32 i) { return &G->nodes[i]; }
static inline u32 I(const Node* n) { return (u32)(n - G->nodes); }

static void flushCov();
void sx_stop(u32 st, const char* tag, const char* where)
{
    if (G) {
        flushCov();
        G->t.status = st;
        if (tag) snprintf(G->t.tag, sizeof G->t.tag, "%s", tag);
        if (where) snprintf(G->t.where, sizeof G->t.where, "%s", where);
    }
    _exit(0);
}

// ---------------------------------------------------------------- concrete evaluation
static double D(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static u64 U(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static float Fl(u64 v) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
static u64 Uf(float f) { u32 x; memcpy(&x, &f, 4); return x; }
template <class T> static bool fcmp(u32 p, T a, T b)
{
    bool un = a != a || b != b;
    switch (p) {
    case 0: return false; case 1: return a == b; case 2: return a > b; case 3: return a >= b; case 4: return a < b; case 5: return a <= b;
    case 6: return !un && a != b; case 7: return !un; case 8: return un; case 9: return un || a == b; case 10: return un || a > b; case 11: return un || a >= b;
    case 12: return un || a < b; case 13: return un || a <= b; case 14: return un || a != b; default: return true;
    }
}
template <class T> static T frnd(u32 k, T a)
{
    switch (k) { case 0: return std::floor(a); case 1: return std::ceil(a); case 2: return std::trunc(a); case 3: return std::nearbyint(a); default: return std::round(a); }
}
u64 sx_eval_op(u8 op, unsigned w, unsigned wk, u64 a, u64 b, u64 c, u32 k1, u32 k2)
{
    switch (op) {
    case O_ADD: return maskw(a + b, w); case O_SUB: return maskw(a - b, w); case O_MUL: return maskw(a * b, w);
    case O_UDIV: return b ? a / b : maskw(~0ULL, w); case O_UREM: return b ? a % b : a;
    case O_SDIV: { i64 x = sextw(a, w), y = sextw(b, w); if (y == 0) return maskw(x < 0 ? 1 : ~0ULL, w); if (y == -1) return maskw(-(u64)x, w); return maskw((u64)(x / y), w); }
    case O_SREM: { i64 x = sextw(a, w), y = sextw(b, w); if (y == 0) return a; if (y == -1) return 0; return maskw((u64)(x % y), w); }
    case O_SHL: return b >= w ? 0 : maskw(a << b, w); case O_LSHR: return b >= w ? 0 : a >> b;
    case O_ASHR: { i64 x = sextw(a, w); return maskw((u64)(b >= w ? (x < 0 ? -1 : 0) : x >> b), w); }
    case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
    case O_CONCAT: return maskw((a << wk) | b, w); // wk = width of low part
    case O_EXTRACT: return maskw(a >> k1, w);
    case O_ZEXT: return a; case O_SEXT: return maskw((u64)sextw(a, wk), w);
    case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
    case O_SLT: return sextw(a, wk) < sextw(b, wk); case O_SLE: return sextw(a, wk) <= sextw(b, wk);
    case O_ITE: return a ? b : c; case O_NOT: return !a;
    case O_OVF_UADD: return maskw(a + b, wk) < a; case O_OVF_USUB: return a < b;
    case O_OVF_SADD: { __int128 r = (__int128)sextw(a, wk) + sextw(b, wk); return r != (__int128)sextw((u64)r, wk); }
    case O_OVF_SSUB: { __int128 r = (__int128)sextw(a, wk) - sextw(b, wk); return r != (__int128)sextw((u64)r, wk); }
    case O_OVF_UMUL: { unsigned __int128 r = (unsigned __int128)a * b; return wk >= 64 ? (r >> 64) != 0 : (r >> wk) != 0; }
    case O_OVF_SMUL: { __int128 r = (__int128)sextw(a, wk) * sextw(b, wk); return r != (__int128)sextw((u64)r, wk); }
    case O_CTPOP: return (u64)__builtin_popcountll(a);
    case O_CTLZ: return a ? (u64)__builtin_clzll(a) - (64 - w) : w;
    case O_CTTZ: return a ? (u64)__builtin_ctzll(a) : w;
#define FB(OPR) (w == 64 ? U(D(a) OPR D(b)) : Uf(Fl(a) OPR Fl(b)))
    case O_FADD: return FB(+); case O_FSUB: return FB(-); case O_FMUL: return FB(*); case O_FDIV: return FB(/);
    case O_FREM: return w == 64 ? U(fmod(D(a), D(b))) : Uf(fmodf(Fl(a), Fl(b)));
    case O_FCMP: return wk == 64 ? fcmp(k2, D(a), D(b)) : fcmp(k2, Fl(a), Fl(b));
    case O_FPTOSI: { double d = wk == 64 ? D(a) : (double)Fl(a); if (!(d > -9.3e18 && d < 9.3e18)) return maskw(1ULL << 63, w); return maskw((u64)(i64)d, w); }
    case O_FPTOUI: { double d = wk == 64 ? D(a) : (double)Fl(a); if (!(d > -1 && d < 1.8446744073709552e19)) return maskw(1ULL << 63, w); return maskw((u64)d, w); }
    case O_SITOFP: return w == 64 ? U((double)sextw(a, wk)) : Uf((float)sextw(a, wk));
    case O_UITOFP: return w == 64 ? U((double)a) : Uf((float)a);
    case O_FPEXT: return U((double)Fl(a)); case O_FPTRUNC: return Uf((float)D(a));
    case O_FRND: return w == 64 ? U(frnd(k1, D(a))) : Uf(frnd(k1, Fl(a)));
    case O_FSQRT: return w == 64 ? U(sqrt(D(a))) : Uf(sqrtf(Fl(a)));
    case O_FNEG: return a ^ (1ULL << (w - 1));
    case O_FMIN: return w == 64 ? U(fmin(D(a), D(b))) : Uf(fminf(Fl(a), Fl(b)));
    case O_FMAX: return w == 64 ? U(fmax(D(a), D(b))) : Uf(fmaxf(Fl(a), Fl(b)));
    }
    return 0;
}
static u64 evalN(const Node* n, u64 a, u64 b, u64 c)
{
    unsigned wk = 0;
    if (n->op == O_CONCAT) wk = N(n->k[1])->w;
    else if (n->k[0]) wk = N(n->k[0])->w;
    return sx_eval_op(n->op, n->w, wk, a, b, c, n->k[1], n->k[2]);
}
static int arity(u8 op)
{
    switch (op) {
    case O_VAR: case O_CONST: case O_NONE: return 0;
    case O_EXTRACT: case O_ZEXT: case O_SEXT: case O_NOT: case O_CTPOP: case O_CTLZ: case O_CTTZ: case O_FPTOSI: case O_FPTOUI: case O_SITOFP: case O_UITOFP:
    case O_FPEXT: case O_FPTRUNC: case O_FRND: case O_FSQRT: case O_FNEG: case O_TAB: return 1;
    case O_ITE: return 3;
    default: return 2;
    }
}
int sx_arity(u8 op) { return arity(op); }

// ---------------------------------------------------------------- node construction
static u64* newTab(u32* id)
{
    if (G->t.ntabs + 1 >= MAXTABS) return nullptr;
    *id = ++G->t.ntabs;
    return G->tabs[*id];
}
static Node* mk(u8 op, unsigned w, u32 k0, u32 k1 = 0, u32 k2 = 0, u64 conc = 0)
{
    int ar = arity(op);
    u64 h = mix(op * 0x9E3779B97F4A7C15ULL + w);
    h = mix(h ^ (ar > 0 ? N(k0)->hash : k0));
    h = mix(h + 0x51ED27 + (ar > 1 ? N(k1)->hash : op == O_TAB ? mix(k1 ? [&] { u64 x = 7; for (int i = 0; i < 256; i++) x = mix(x ^ G->tabs[k1][i]); return x; }() : 0) : k1));
    h = mix(h + 0xA3C59 + (ar > 2 ? N(k2)->hash : k2));
    if (op == O_CONST) h = mix(h ^ conc);
    u32 p = (u32)(h & (HASHN - 1));
    for (;;) {
        auto& e = G->ht[p];
        if (e.gen != G->t.gen) break;
        Node* n = N(e.idx);
        if (n->hash == h && n->op == op && n->w == w) return n;
        p = (p + 1) & (HASHN - 1);
    }
    if (G->t.nnodes + 1 >= MAXNODES) sx_stop(ST_LIMIT, "expression arena exhausted", nullptr);
    u32 id = ++G->t.nnodes;
    G->ht[p].gen = G->t.gen; G->ht[p].idx = id;
    Node* n = N(id);
    n->op = op; n->w = w; n->k[0] = k0; n->k[1] = k1; n->k[2] = k2; n->hash = h; n->tab = 0;
    n->single = -1; n->depth = 0;
    memset(n->supp, 0, sizeof n->supp);
    if (op == O_VAR) { n->single = (short)k0; n->supp[k0 >> 6] |= 1ULL << (k0 & 63); n->conc = G->input[k0]; }
    else if (op == O_CONST) n->conc = conc;
    else {
        u64 c[3] = { 0, 0, 0 };
        bool first = true;
        for (int i = 0; i < ar; i++) {
            Node* q = N(n->k[i]);
            c[i] = q->conc;
            for (int j = 0; j < 4; j++) n->supp[j] |= q->supp[j];
            if (q->single != -1) { if (first) { n->single = q->single; first = false; } else if (n->single != q->single) n->single = -2; }
            if (q->depth + 1 > n->depth) n->depth = q->depth + 1;
        }
        if (op == O_TAB) n->conc = G->tabs[k1][N(k0)->conc & 255];
        else n->conc = evalN(n, c[0], c[1], c[2]);
    }
    return n;
}
static Node* K(u64 v, unsigned w) { return mk(O_CONST, w, 0, 0, 0, maskw(v, w)); }
static inline bool isK(const Node* n) { return n->op == O_CONST; }
static Node* fold(u8 op, unsigned w, Node* a, Node* b = nullptr, Node* c = nullptr, u32 k1 = 0, u32 k2 = 0)
{
    unsigned wk = op == O_CONCAT ? b->w : a->w;
    return K(sx_eval_op(op, w, wk, a->conc, b ? b->conc : 0, c ? c->conc : 0, k1, k2), w);
}
static Node* bin(u8 op, Node* a, Node* b);
static Node* mkNot(Node* a)
{
    if (isK(a)) return K(!a->conc, 1);
    if (a->op == O_NOT) return N(a->k[0]);
    if (a->op == O_ULT) return mk(O_ULE, 1, a->k[1], a->k[0]);
    if (a->op == O_ULE) return mk(O_ULT, 1, a->k[1], a->k[0]);
    if (a->op == O_SLT) return mk(O_SLE, 1, a->k[1], a->k[0]);
    if (a->op == O_SLE) return mk(O_SLT, 1, a->k[1], a->k[0]);
    return mk(O_NOT, 1, I(a));
}
Node* sx_not(Node* a) { return mkNot(a); }
static Node* extract(Node* a, unsigned lo, unsigned w);
static Node* zext(Node* a, unsigned w)
{
    if (a->w == w) return a;
    if (isK(a)) return K(a->conc, w);
    if (a->op == O_ZEXT) a = N(a->k[0]);
    return mk(O_ZEXT, w, I(a));
}
static Node* sext(Node* a, unsigned w)
{
    if (a->w == w) return a;
    if (isK(a)) return K((u64)sextw(a->conc, a->w), w);
    if (a->op == O_SEXT) a = N(a->k[0]);
    if (a->op == O_ZEXT) return zext(N(a->k[0]), w);
    return mk(O_SEXT, w, I(a));
}
static Node* concat(Node* hi, Node* lo)
{
    unsigned w = hi->w + lo->w;
    if (isK(hi) && isK(lo)) return fold(O_CONCAT, w, hi, lo);
    if (isK(hi) && hi->conc == 0) return zext(lo, w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->k[1] == lo->k[1] + lo->w) return extract(N(hi->k[0]), lo->k[1], w);
    if (hi->op == O_EXTRACT && I(lo) == hi->k[0] && 0) return nullptr;
    return mk(O_CONCAT, w, I(hi), I(lo));
}
static Node* extract(Node* a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->w) return a;
    if (isK(a)) return K(a->conc >> lo, w);
    switch (a->op) {
    case O_EXTRACT: return extract(N(a->k[0]), a->k[1] + lo, w);
    case O_CONCAT: {
        Node *h = N(a->k[0]), *l = N(a->k[1]);
        if (lo + w <= l->w) return extract(l, lo, w);
        if (lo >= l->w) return extract(h, lo - l->w, w);
        return concat(extract(h, 0, lo + w - l->w), extract(l, lo, l->w - lo));
    }
    case O_ZEXT: {
        Node* x = N(a->k[0]);
        if (lo >= x->w) return K(0, w);
        if (lo + w <= x->w) return extract(x, lo, w);
        return zext(extract(x, lo, x->w - lo), w);
    }
    case O_SEXT: {
        Node* x = N(a->k[0]);
        if (lo + w <= x->w) return extract(x, lo, w);
        if (lo == 0) return sext(x, w);
        break;
    }
    case O_AND: case O_OR: case O_XOR:
        if (a->w > 8) return bin(a->op, extract(N(a->k[0]), lo, w), extract(N(a->k[1]), lo, w));
        break;
    case O_ADD: case O_SUB: case O_MUL:
        if (lo == 0) return bin(a->op, extract(N(a->k[0]), 0, w), extract(N(a->k[1]), 0, w));
        break;
    case O_SHL:
        if (isK(N(a->k[1]))) {
            u64 s = N(a->k[1])->conc;
            if (lo >= s) return extract(N(a->k[0]), lo - s, w);
            if (lo + w <= s) return K(0, w);
        }
        break;
    case O_LSHR:
        if (isK(N(a->k[1]))) { u64 s = N(a->k[1])->conc; if (lo + w + s <= a->w) return extract(N(a->k[0]), lo + s, w); }
        break;
    case O_ITE: {
        Node *t = N(a->k[1]), *f = N(a->k[2]);
        if (isK(t) || isK(f)) { Node *x = extract(t, lo, w), *y = extract(f, lo, w); if (x == y) return x; return mk(O_ITE, w, a->k[0], I(x), I(y)); }
        break;
    }
    }
    return mk(O_EXTRACT, w, I(a), lo);
}
static Node* ite(Node* c, Node* a, Node* b)
{
    if (isK(c)) return c->conc ? a : b;
    if (a == b) return a;
    if (c->op == O_NOT) return ite(N(c->k[0]), b, a);
    if (a->w == 1) {
        if (isK(a) && isK(b)) return a->conc ? c : mkNot(c);
        if (isK(a)) return a->conc ? bin(O_OR, c, b) : bin(O_AND, mkNot(c), b);
        if (isK(b)) return b->conc ? bin(O_OR, mkNot(c), a) : bin(O_AND, c, a);
    }
    return mk(O_ITE, a->w, I(c), I(a), I(b));
}
static bool commut(u8 op) { return op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ; }
static Node* cmpFoldIte(u8 op, Node* a, Node* b)
{
    // comparison of a constant-leaf ite against a constant
    if (a->op == O_ITE && isK(b)) {
        Node *t = N(a->k[1]), *f = N(a->k[2]);
        if (isK(t) || isK(f)) return ite(N(a->k[0]), bin(op, t, b), bin(op, f, b));
    }
    if (b->op == O_ITE && isK(a)) {
        Node *t = N(b->k[1]), *f = N(b->k[2]);
        if (isK(t) || isK(f)) return ite(N(b->k[0]), bin(op, a, t), bin(op, a, f));
    }
    return nullptr;
}
static Node* bin(u8 op, Node* a, Node* b)
{
    unsigned w = a->w;
    if (isK(a) && isK(b)) return fold(op, (op >= O_EQ && op <= O_SLE) || (op >= O_OVF_UADD && op <= O_OVF_SMUL) ? 1 : w, a, b);
    if (commut(op) && isK(a)) { Node* t = a; a = b; b = t; }
    u64 ones = maskw(~0ULL, w);
    switch (op) {
    case O_ADD:
        if (isK(b)) {
            if (!b->conc) return a;
            if (a->op == O_ADD && isK(N(a->k[1]))) return bin(O_ADD, N(a->k[0]), K(N(a->k[1])->conc + b->conc, w));
            if (a->op == O_SUB && isK(N(a->k[0]))) return bin(O_SUB, K(N(a->k[0])->conc + b->conc, w), N(a->k[1]));
        }
        break;
    case O_SUB:
        if (a == b) return K(0, w);
        if (isK(b)) return bin(O_ADD, a, K(-b->conc, w));
        if (a->op == O_ADD && N(a->k[0]) == b && isK(N(a->k[1]))) return N(a->k[1]);
        if (a->op == O_ADD && b->op == O_ADD && a->k[0] == b->k[0] && isK(N(a->k[1])) && isK(N(b->k[1]))) return K(N(a->k[1])->conc - N(b->k[1])->conc, w);
        if (b->op == O_ADD && N(b->k[0]) == a && isK(N(b->k[1]))) return K(-N(b->k[1])->conc, w);
        break;
    case O_MUL:
        if (isK(b)) {
            if (b->conc == 0) return b;
            if (b->conc == 1) return a;
            if (!(b->conc & (b->conc - 1))) return bin(O_SHL, a, K((u64)__builtin_ctzll(b->conc), w));
        }
        break;
    case O_UDIV: if (isK(b) && b->conc && !(b->conc & (b->conc - 1))) return bin(O_LSHR, a, K((u64)__builtin_ctzll(b->conc), w)); break;
    case O_UREM: if (isK(b) && b->conc && !(b->conc & (b->conc - 1))) return bin(O_AND, a, K(b->conc - 1, w)); break;
    case O_AND:
        if (a == b) return a;
        if (isK(b)) {
            if (b->conc == 0) return b;
            if (b->conc == ones) return a;
            u64 m = b->conc;
            if (a->op == O_AND && isK(N(a->k[1]))) return bin(O_AND, N(a->k[0]), K(m & N(a->k[1])->conc, w));
            if (w > 1 && (m & (m + 1)) == 0) return zext(extract(a, 0, (unsigned)__builtin_popcountll(m)), w);
            if (w > 8) { // keep the byte structure visible
                unsigned lo = (unsigned)__builtin_ctzll(m), hi = 64 - (unsigned)__builtin_clzll(m);
                u64 run = m >> lo;
                if ((run & (run + 1)) == 0 && a->op != O_AND) {
                    Node* mid = extract(a, lo, hi - lo);
                    Node* low = lo ? K(0, lo) : nullptr;
                    Node* x = low ? concat(mid, low) : mid;
                    return zext(x, w);
                }
            }
        }
        if (w == 1) { if (a->op == O_NOT && N(a->k[0]) == b) return K(0, 1); if (b->op == O_NOT && N(b->k[0]) == a) return K(0, 1); }
        break;
    case O_OR:
        if (a == b) return a;
        if (isK(b)) { if (b->conc == 0) return a; if (b->conc == ones) return b; }
        if (w == 1) { if (a->op == O_NOT && N(a->k[0]) == b) return K(1, 1); if (b->op == O_NOT && N(b->k[0]) == a) return K(1, 1); }
        else {
            // (zext lo) | (hi << k): a concatenation
            for (int sw = 0; sw < 2; sw++) {
                Node *x = sw ? b : a, *y = sw ? a : b;
                if (x->op == O_ZEXT && y->op == O_CONCAT && isK(N(y->k[1])) && N(y->k[1])->conc == 0 && N(x->k[0])->w <= N(y->k[1])->w)
                    return concat(N(y->k[0]), zext(N(x->k[0]), N(y->k[1])->w));
                if (x->op == O_ZEXT && y->op == O_ZEXT) {
                    Node* yy = N(y->k[0]);
                    if (yy->op == O_CONCAT && isK(N(yy->k[1])) && N(yy->k[1])->conc == 0 && N(x->k[0])->w <= N(yy->k[1])->w)
                        return zext(concat(N(yy->k[0]), zext(N(x->k[0]), N(yy->k[1])->w)), w);
                }
            }
        }
        break;
    case O_XOR:
        if (a == b) return K(0, w);
        if (isK(b)) {
            if (b->conc == 0) return a;
            if (w == 1) return mkNot(a);
            if (a->op == O_XOR && isK(N(a->k[1]))) return bin(O_XOR, N(a->k[0]), K(b->conc ^ N(a->k[1])->conc, w));
        }
        if (a->op == O_XOR) { if (N(a->k[0]) == b) return N(a->k[1]); if (N(a->k[1]) == b) return N(a->k[0]); }
        if (b->op == O_XOR) { if (N(b->k[0]) == a) return N(b->k[1]); if (N(b->k[1]) == a) return N(b->k[0]); }
        break;
    case O_SHL:
        if (isK(b)) {
            if (b->conc == 0) return a;
            if (b->conc >= w) return K(0, w);
            unsigned s = (unsigned)b->conc;
            return concat(extract(a, 0, w - s), K(0, s));
        }
        break;
    case O_LSHR:
        if (isK(b)) { if (b->conc == 0) return a; if (b->conc >= w) return K(0, w); return zext(extract(a, (unsigned)b->conc, w - (unsigned)b->conc), w); }
        break;
    case O_ASHR:
        if (isK(b)) { if (b->conc == 0) return a; if (b->conc < w) return sext(extract(a, (unsigned)b->conc, w - (unsigned)b->conc), w); }
        break;
    case O_EQ:
        if (a == b) return K(1, 1);
        if (isK(b)) {
            if (w == 1) return b->conc ? a : mkNot(a);
            if (a->op == O_ZEXT) { Node* x = N(a->k[0]); if (maskw(b->conc, x->w) != b->conc) return K(0, 1); return bin(O_EQ, x, K(b->conc, x->w)); }
            if (a->op == O_SEXT) { Node* x = N(a->k[0]); if (maskw((u64)sextw(maskw(b->conc, x->w), x->w), w) != b->conc) return K(0, 1); return bin(O_EQ, x, K(b->conc, x->w)); }
            if (a->op == O_ADD && isK(N(a->k[1]))) return bin(O_EQ, N(a->k[0]), K(b->conc - N(a->k[1])->conc, w));
            if (a->op == O_SUB && isK(N(a->k[0]))) return bin(O_EQ, N(a->k[1]), K(N(a->k[0])->conc - b->conc, w));
            if (a->op == O_SUB && b->conc == 0) return bin(O_EQ, N(a->k[0]), N(a->k[1]));
            if (a->op == O_XOR && isK(N(a->k[1]))) return bin(O_EQ, N(a->k[0]), K(b->conc ^ N(a->k[1])->conc, w));
            if (a->op == O_XOR && b->conc == 0) return bin(O_EQ, N(a->k[0]), N(a->k[1]));
            if (a->op == O_CONCAT) { Node *h = N(a->k[0]), *l = N(a->k[1]); return bin(O_AND, bin(O_EQ, l, K(b->conc, l->w)), bin(O_EQ, h, K(b->conc >> l->w, h->w))); }
            if (a->op == O_OR && b->conc == 0) return bin(O_AND, bin(O_EQ, N(a->k[0]), b), bin(O_EQ, N(a->k[1]), b));
        } else {
            if (a->op == O_ZEXT && b->op == O_ZEXT && N(a->k[0])->w == N(b->k[0])->w) return bin(O_EQ, N(a->k[0]), N(b->k[0]));
            if (a->op == O_SEXT && b->op == O_SEXT && N(a->k[0])->w == N(b->k[0])->w) return bin(O_EQ, N(a->k[0]), N(b->k[0]));
            if (a->op == O_ADD && b->op == O_ADD && a->k[1] == b->k[1]) return bin(O_EQ, N(a->k[0]), N(b->k[0]));
            if (a->op == O_CONCAT && b->op == O_CONCAT && N(a->k[1])->w == N(b->k[1])->w)
                return bin(O_AND, bin(O_EQ, N(a->k[1]), N(b->k[1])), bin(O_EQ, N(a->k[0]), N(b->k[0])));
        }
        if (Node* r = cmpFoldIte(op, a, b)) return r;
        if (a->hash > b->hash && !isK(b)) { Node* t = a; a = b; b = t; }
        return mk(O_EQ, 1, I(a), I(b));
    case O_ULT: case O_ULE: case O_SLT: case O_SLE: {
        if (a == b) return K(op == O_ULE || op == O_SLE, 1);
        if ((op == O_SLT || op == O_SLE)) {
            bool az = a->op == O_ZEXT || (isK(a) && sextw(a->conc, w) >= 0), bz = b->op == O_ZEXT || (isK(b) && sextw(b->conc, w) >= 0);
            if (az && bz) return bin(op == O_SLT ? O_ULT : O_ULE, a, b);
            if (a->op == O_SEXT && isK(b)) {
                Node* x = N(a->k[0]);
                if ((i64)sextw(b->conc, w) == sextw(maskw(b->conc, x->w), x->w)) return bin(op, x, K(b->conc, x->w));
                return K(sextw(b->conc, w) > 0, 1);
            }
            if (b->op == O_SEXT && isK(a)) {
                Node* x = N(b->k[0]);
                if ((i64)sextw(a->conc, w) == sextw(maskw(a->conc, x->w), x->w)) return bin(op, K(a->conc, x->w), x);
                return K(sextw(a->conc, w) < 0, 1);
            }
        } else {
            if (a->op == O_ZEXT && isK(b)) { Node* x = N(a->k[0]); if (maskw(b->conc, x->w) != b->conc) return K(1, 1); return bin(op, x, K(b->conc, x->w)); }
            if (b->op == O_ZEXT && isK(a)) { Node* x = N(b->k[0]); if (maskw(a->conc, x->w) != a->conc) return K(0, 1); return bin(op, K(a->conc, x->w), x); }
            if (op == O_ULT && isK(b)) { if (b->conc == 0) return K(0, 1); if (b->conc == 1) return bin(O_EQ, a, K(0, w)); }
            if (op == O_ULE && isK(b) && b->conc == ones) return K(1, 1);
            if (op == O_ULE && isK(a) && a->conc == 0) return K(1, 1);
        }
        if (a->op == O_ZEXT && b->op == O_ZEXT && N(a->k[0])->w == N(b->k[0])->w) return bin(op, N(a->k[0]), N(b->k[0]));
        if (Node* r = cmpFoldIte(op, a, b)) return r;
        return mk(op, 1, I(a), I(b));
    }
    default: break;
    }
    if (op >= O_OVF_UADD && op <= O_OVF_SMUL) return mk(op, 1, I(a), I(b));
    // distribute over constant-leaf ite (keeps table-like values foldable)
    if (a->op == O_ITE && isK(b) && isK(N(a->k[1])) && isK(N(a->k[2])) && w > 1)
        return ite(N(a->k[0]), bin(op, N(a->k[1]), b), bin(op, N(a->k[2]), b));
    return mk(op, w, I(a), I(b));
}
Node* sx_bin_node(u8 op, Node* a, Node* b) { return bin(op, a, b); }
Node* sx_const(u64 v, unsigned w) { return K(v, w); }
static inline SX out(Node* n) { return n->op == O_CONST ? nullptr : n; }
static inline Node* in(SX s, u64 c, unsigned w) { return s ? (s->w == w ? s : s->w > w ? extract(s, 0, w) : zext(s, w)) : K(c, w); }

// 256-entry value table of a single-variable node
static u64* tabOf(Node* n)
{
    if (n->tab) return G->tabs[n->tab];
    u32 id; u64* t = newTab(&id);
    if (!t) return nullptr;
    n->tab = id;
    if (n->op == O_VAR) { for (int i = 0; i < 256; i++) t[i] = (u64)i; return t; }
    if (n->op == O_TAB) { u64* s = tabOf(N(n->k[0])); if (!s) { n->tab = 0; return nullptr; } for (int i = 0; i < 256; i++) t[i] = G->tabs[n->k[1]][s[i] & 255]; return t; }
    u64* ks[3] = { 0, 0, 0 }; u64 kc[3] = { 0, 0, 0 };
    int ar = arity(n->op);
    for (int i = 0; i < ar; i++) {
        Node* q = N(n->k[i]);
        if (isK(q)) kc[i] = q->conc;
        else if (!(ks[i] = tabOf(q))) { n->tab = 0; return nullptr; }
    }
    for (int i = 0; i < 256; i++)
        t[i] = evalN(n, ks[0] ? ks[0][i] : kc[0], ks[1] ? ks[1][i] : kc[1], ks[2] ? ks[2][i] : kc[2]);
    return t;
}
u64* sx_tab_of(Node* n) { return tabOf(n); }
static MaskMemo* g_mm;
void sx_set_maskmemo(MaskMemo* m) { g_mm = m; }
bool sx_mask_of(Node* n, u64 m[4])
{
    u32 p = (u32)(mix(n->hash) & (MASKMEMO - 1));
    MaskMemo* e = g_mm ? &g_mm[p] : nullptr;
    if (e && e->hash == n->hash) { memcpy(m, e->mask, 32); u64 chk = m[0] ^ mix(m[1]) ^ mix(m[2] + 1) ^ mix(m[3] + 2) ^ n->hash; if (e->chk == chk && e->hash == n->hash) return true; }
    u64* t = tabOf(n);
    if (!t) return false;
    m[0] = m[1] = m[2] = m[3] = 0;
    for (int i = 0; i < 256; i++) if (t[i] & 1) m[i >> 6] |= 1ULL << (i & 63);
    if (e) { e->hash = 0; memcpy(e->mask, m, 32); e->chk = m[0] ^ mix(m[1]) ^ mix(m[2] + 1) ^ mix(m[3] + 2) ^ n->hash; e->hash = n->hash; }
    return true;
}

// ---------------------------------------------------------------- decisions
static const u32 SEEN = 1u << 16;
static u64 g_seen[SEEN];
static bool seen(u64 h) { u32 p = (u32)(h & (SEEN - 1)); for (int i = 0; i < 64; i++) { u64 v = g_seen[(p + i) & (SEEN - 1)]; if (v == h) return true; if (!v) return false; } return false; }
static void addSeen(u64 h) { u32 p = (u32)(h & (SEEN - 1)); for (int i = 0; i < 64; i++) { u64& v = g_seen[(p + i) & (SEEN - 1)]; if (!v || v == h) { v = h; return; } } }
static void dumpNode(Node* n, int depth)
{
    char b[200]; int k = snprintf(b, 200, "%*sop %d w %d conc %llx single %d k %u %u %u hash %llx\n", depth * 2, "", n->op, n->w, (unsigned long long)n->conc, n->single, n->k[0], n->k[1], n->k[2], (unsigned long long)n->hash); (void)!write(2, b, k);
    if (n->op == O_TAB) { u64 p = ~0ULL; for (int i = 0; i < 256; i++) { u64 v = G->tabs[n->k[1]][i]; if (v != p) { k = snprintf(b, 200, " [%d]=%llx", i, (unsigned long long)v); (void)!write(2, b, k); p = v; } } (void)!write(2, "\n", 1); }
    if (depth > 6) return;
    int ar = sx_arity(n->op); for (int i = 0; i < ar; i++) dumpNode(N(n->k[i]), depth + 1);
}
static void push(const Dec& d, u64 h)
{
    if (G->t.ndec >= MAXDEC) sx_stop(ST_LIMIT, "decision limit", d.loc);
    u32 i = G->t.ndec;
    G->dec[i] = d;
    g_prefix = mix(g_prefix ^ h);
    G->decHash[i] = g_prefix;
    G->t.ndec = i + 1;
    static int tr = -1; if (tr < 0) tr = getenv("SYMX_TRACE") != nullptr;
    if (tr) { char b[400]; int n = snprintf(b, 400, "DEC %u kind %d cond %u conc %llx val %llx h %llx p %llx @ %.100s\n", i, d.kind, d.cond, (unsigned long long)G->nodes[d.cond].conc, (unsigned long long)d.val, (unsigned long long)h, (unsigned long long)g_prefix, d.loc ? d.loc : ""); (void)!write(2, b, n); dumpNode(N(d.cond), 1); }
    if (i + 1 == G->bound && G->boundHash && g_prefix != G->boundHash) { G->t.divergences++; sx_stop(ST_ENGINE, "replayed prefix diverged", d.loc); }
}
static void learn(Node* c)
{
    // c holds on this path: narrow byte domains where possible
    if (c->op == O_AND && c->w == 1) { learn(N(c->k[0])); learn(N(c->k[1])); return; }
    if (c->op == O_NOT && N(c->k[0])->op == O_OR && N(c->k[0])->w == 1) { Node* o = N(c->k[0]); learn(mkNot(N(o->k[0]))); learn(mkNot(N(o->k[1]))); return; }
    addSeen(c->hash);
    if (c->single >= 0) { u64 m[4]; if (sx_mask_of(c, m)) for (int i = 0; i < 4; i++) g_dom[c->single][i] &= m[i]; }
}
// 1: implied true, 0: implied false, -1: undetermined.  cond must be width 1.
static int implied(Node* c)
{
    if (c->single >= 0) {
        u64 m[4];
        if (!sx_mask_of(c, m)) return -1;
        u64* d = g_dom[c->single];
        bool any = false, all = true;
        for (int i = 0; i < 4; i++) { if (d[i] & m[i]) any = true; if (d[i] & ~m[i]) all = false; }
        return all ? 1 : any ? -1 : 0;
    }
    if (seen(c->hash)) return 1;
    if (seen(mkNot(c)->hash)) return 0;
    if (c->op == O_AND) { int a = implied(N(c->k[0])), b = implied(N(c->k[1])); if (a == 0 || b == 0) return 0; if (a == 1 && b == 1) return 1; }
    else if (c->op == O_OR) { int a = implied(N(c->k[0])), b = implied(N(c->k[1])); if (a == 1 || b == 1) return 1; if (a == 0 && b == 0) return 0; }
    else if (c->op == O_NOT) { int a = implied(N(c->k[0])); return a < 0 ? a : !a; }
    return -1;
}
static void decide(Node* c, bool taken, u8 kind, bool noalt, const char* loc)
{
    if (g_off) return;
    if ((c->conc != 0) != taken) { G->t.divergences++; sx_stop(ST_ENGINE, "symbolic value disagrees with execution", loc); }
    int im = implied(c);
    if (im >= 0) {
        if ((im == 1) != taken) { G->t.divergences++; sx_stop(ST_ENGINE, "implied value disagrees with execution", loc); }
        return;
    }
    Node* t = taken ? c : mkNot(c);
    Dec d; memset(&d, 0, sizeof d);
    d.kind = kind; d.noalt = noalt; d.cond = I(t); d.loc = loc;
    learn(t);
    push(d, t->hash);
}
static bool eqAlways(SX s) { return false; }
static void pin(SX s, const char* loc, u64 limit = 0)
{
    if (!s || g_off) return;
    Node* e = bin(O_EQ, s, K(s->conc, s->w));
    if (isK(e)) return;
    int im = implied(e);
    if (im == 1) return;
    Dec d; memset(&d, 0, sizeof d);
    d.kind = D_CONC; d.cond = I(s); d.val = s->conc; d.loc = loc; d.limit = limit;
    learn(e);
    push(d, e->hash);
}

// ---------------------------------------------------------------- heap
static u8* const HEAP = (u8*)0x200000000000ULL;
static const u64 HEAPSZ = 1ULL << 32;
static u8* const HSH = (u8*)0x300000000000ULL;
static u64 g_hp = 0;
static u64 g_hpStatic = 0;
static inline bool inHeap(u64 a) { return a - (u64)HEAP < HEAPSZ; }
static void heapInit()
{
    if (g_hp) return;
    void* a = mmap(HEAP, HEAPSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* b = mmap(HSH, HEAPSZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (a != (void*)HEAP || b != (void*)HSH) { fprintf(stderr, "symx: cannot map heap\n"); _exit(3); }
    g_hp = 4096;
}
static void* halloc(u64 n, u64 al)
{
    if (n > (64ULL << 20)) return nullptr;
    heapInit();
    u64 p = (g_hp + 32 + al - 1) & ~(al - 1);
    if (p + n + 64 > HEAPSZ) return nullptr;
    u64* hdr = (u64*)(HEAP + p - 16);
    hdr[0] = n; hdr[1] = 0xA110CA7EDULL;
    u64 s = p >> 3;
    memset(HSH + s, 8, n >> 3);
    if (n & 7) HSH[s + (n >> 3)] = n & 7;
    u64 e = p + n + 16;
    for (u64 pg = p >> 12; pg <= e >> 12; pg++) __sx_pagemap[((u64)HEAP + (pg << 12)) >> 12 & ((1 << 20) - 1)] = 1;
    g_hp = (e + 15) & ~15ULL;
    return HEAP + p;
}
static void clearShadow(u64 a, u64 n);
static void hfree(void* q, const char* what)
{
    if (!q) return;
    u64 a = (u64)q;
    u64 off = a - (u64)HEAP;
    u64* hdr = (u64*)(a - 16);
    if ((off & 7) || (HSH[off >> 3] == 0xFD)) { if (G) sx_stop(ST_CRASH, "double free", what); return; }
    if (hdr[1] != 0xA110CA7EDULL) { if (G) sx_stop(ST_CRASH, "free of an address that is not an allocation", what); return; }
    u64 n = hdr[0];
    clearShadow(a, n);
    memset(HSH + (off >> 3), 0xFD, (n + 7) >> 3 ? (n + 7) >> 3 : 1);
}
bool sx_in_arena(const void* p) { return inHeap((u64)p); }
void sx_arena_free(void* p) { hfree(p, "free"); }
u64 sx_arena_size(void* p) { return ((u64*)p)[-2]; }
static void heapBad(u64 a, u64 n, bool wr, const char* loc, u64 bad)
{
    u8 k = HSH[(bad - (u64)HEAP) >> 3];
    char b[160];
    snprintf(b, sizeof b, "%s (%s of %llu bytes)", k == 0xFD ? "heap use after free" : "heap buffer overflow", wr ? "write" : "read", (unsigned long long)n);
    sx_stop(ST_CRASH, b, loc);
}
static inline void heapCheck(u64 a, u64 n, bool wr, const char* loc)
{
    if (!inHeap(a) || !G || g_off) return;
    u64 off = a - (u64)HEAP;
    u64 i = off & ~7ULL;
    for (; i < off + n; i += 8) {
        u8 k = HSH[i >> 3];
        if (k == 8) continue;
        if (k == 0xFD || k == 0) heapBad(a, n, wr, loc, (u64)HEAP + i);
        u64 last = off + n - i; // bytes needed from this granule
        if (last > 8) last = 8;
        if (last > k) heapBad(a, n, wr, loc, (u64)HEAP + i);
    }
}
static bool heapObj(u64 a, u64* base, u64* size)
{
    u64 off = (a - (u64)HEAP) & ~7ULL;
    if (HSH[off >> 3] == 0 || HSH[off >> 3] == 0xFD) return false;
    while (HSH[(off >> 3) - 1] == 8) off -= 8;
    *base = (u64)HEAP + off; *size = ((u64*)(HEAP + off))[-2];
    return true;
}

// ---------------------------------------------------------------- shadow memory
struct SEnt { u32 node; u8 byte; u8 pad[3]; };
struct SPage { SEnt e[4096]; };
static const u32 SPN = 1u << 14;
static struct { u64 pg; SPage* p; } g_sp[SPN];
static u64 g_lastPg; static SPage* g_lastP;
static SPage* spage(u64 a, bool make)
{
    u64 pg = a >> 12;
    if (pg == g_lastPg && g_lastP) return g_lastP;
    u32 h = (u32)(mix(pg) & (SPN - 1));
    while (g_sp[h].p && g_sp[h].pg != pg) h = (h + 1) & (SPN - 1);
    if (!g_sp[h].p) {
        if (!make) return nullptr;
        g_sp[h].p = (SPage*)mmap(nullptr, sizeof(SPage), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        g_sp[h].pg = pg;
        __sx_pagemap[pg & ((1 << 20) - 1)] = 1;
    }
    g_lastPg = pg; g_lastP = g_sp[h].p;
    return g_lastP;
}
static inline bool valid(const SEnt& e, u64 a)
{
    return e.node && (u8)(N(e.node)->conc >> (8 * e.byte)) == *(volatile u8*)a;
}
static Node* byteNode(u64 a)
{
    SPage* p = spage(a, false);
    if (!p) return nullptr;
    SEnt& e = p->e[a & 4095];
    if (!e.node) return nullptr;
    if (!valid(e, a)) { e.node = 0; return nullptr; }
    Node* n = N(e.node);
    unsigned lo = e.byte * 8u;
    Node* r = lo + 8 <= n->w ? extract(n, lo, 8) : lo < n->w ? zext(extract(n, lo, n->w - lo), 8) : K(0, 8);
    return isK(r) ? nullptr : r;
}
static SX readMem(u64 a, unsigned n, unsigned w)
{
    SPage* p = spage(a, false);
    if ((a & 4095) + n <= 4096) {
        if (!p) return nullptr;
        SEnt* e = &p->e[a & 4095];
        bool any = false;
        for (unsigned i = 0; i < n; i++) any |= e[i].node != 0;
        if (!any) return nullptr;
        if (e[0].node && e[0].byte == 0) {
            Node* x = N(e[0].node);
            if ((x->w == w || (x->w < 8 && n == 1))) {
                bool same = true;
                for (unsigned i = 0; i < n && same; i++) same = e[i].node == e[0].node && e[i].byte == i && valid(e[i], a + i);
                if (same) return x;
            }
        }
    }
    Node* r = nullptr; bool any = false;
    for (unsigned i = 0; i < n; i++) {
        Node* b = byteNode(a + i);
        if (b) any = true; else b = K(*(u8*)(a + i), 8);
        r = r ? concat(b, r) : b;
    }
    if (!any) return nullptr;
    if (r->w > w) r = extract(r, 0, w);
    return out(r);
}
static void writeMem(u64 a, unsigned n, SX s)
{
    for (unsigned i = 0; i < n; i++) {
        SPage* p = spage(a + i, s != nullptr);
        if (!p) continue;
        SEnt& e = p->e[(a + i) & 4095];
        if (s && (i * 8 < s->w)) { e.node = I(s); e.byte = (u8)i; } else e.node = 0;
    }
}
static void clearShadow(u64 a, u64 n)
{
    u64 e = a + n;
    while (a < e) {
        u64 pe = (a | 4095) + 1; if (pe > e) pe = e;
        if (__sx_pagemap[(a >> 12) & ((1 << 20) - 1)]) { SPage* p = spage(a, false); if (p) memset(&p->e[a & 4095], 0, (pe - a) * sizeof(SEnt)); }
        a = pe;
    }
}
static void copyShadow(u64 d, u64 s, u64 n)
{
    bool any = false;
    for (u64 pg = s >> 12; pg <= (s + n - 1) >> 12 && n; pg++) if (__sx_pagemap[pg & ((1 << 20) - 1)] && spage(pg << 12, false)) any = true;
    if (!any) { clearShadow(d, n); return; }
    if (d == s) return;
    if (d < s || d >= s + n) {
        for (u64 i = 0; i < n; i++) {
            SPage* ps = spage(s + i, false); SEnt e = { 0, 0, { 0 } };
            if (ps) { e = ps->e[(s + i) & 4095]; if (e.node && !valid(e, s + i)) e.node = 0; }
            SPage* pd = spage(d + i, e.node != 0);
            if (pd) pd->e[(d + i) & 4095] = e;
        }
    } else {
        for (u64 i = n; i-- > 0;) {
            SPage* ps = spage(s + i, false); SEnt e = { 0, 0, { 0 } };
            if (ps) { e = ps->e[(s + i) & 4095]; if (e.node && !valid(e, s + i)) e.node = 0; }
            SPage* pd = spage(d + i, e.node != 0);
            if (pd) pd->e[(d + i) & 4095] = e;
        }
    }
}

struct GEnt { u64 a, n; };
static GEnt g_glob[1 << 16]; static u32 g_nglob; static bool g_globSorted;
extern "C" void __sx_register_globals(GEnt* e, u64 n) { for (u64 i = 0; i < n && g_nglob < (1 << 16); i++) g_glob[g_nglob++] = e[i]; g_globSorted = false; }
static int gcmp(const void* x, const void* y) { u64 a = ((GEnt*)x)->a, b = ((GEnt*)y)->a; return a < b ? -1 : a > b; }
void sx_globals_ready() { qsort(g_glob, g_nglob, sizeof(GEnt), gcmp); g_globSorted = true; }
static bool globObj(u64 a, u64* base, u64* size)
{
    u32 lo = 0, hi = g_nglob;
    while (lo < hi) { u32 m = (lo + hi) / 2; if (g_glob[m].a <= a) lo = m + 1; else hi = m; }
    if (!lo) return false;
    GEnt& e = g_glob[lo - 1];
    if (a >= e.a + e.n) return false;
    *base = e.a; *size = e.n; return true;
}
static bool rodata(u64 a) { return a >= (u64)&__executable_start && a < (u64)&__executable_start + (256u << 20) && a > (u64)&etext; }
struct MapR { u64 a, b; }; static MapR g_ro[64]; static int g_nro;
void sx_scan_maps()
{
    FILE* f = fopen("/proc/self/maps", "r"); char l[512];
    if (!f) return;
    while (fgets(l, sizeof l, f)) { unsigned long a, b; char p[8]; if (sscanf(l, "%lx-%lx %7s", &a, &b, p) == 3 && p[0] == 'r' && a >= 0x400000 && a < 0x40000000 && g_nro < 64) { g_ro[g_nro].a = a; g_ro[g_nro].b = b; g_nro++; } }
    fclose(f);
}
static bool inImage(u64 a, u64 n) { for (int i = 0; i < g_nro; i++) if (a >= g_ro[i].a && a + n <= g_ro[i].b) return true; return false; }

// symbolic address: either build a value table over the reachable addresses or pin the address
static SX loadSym(SX sa, u64 a, unsigned n, unsigned w, const char* loc)
{
    u64 base, size; bool have = false, shadowed = false;
    auto objOf = [&](u64 x) {
        if (inHeap(x)) return heapObj(x, &base, &size);
        if (globObj(x, &base, &size)) return true;
        if (!inImage(x, n)) return false;
        base = x > 65536 ? x - 65536 : 0; size = 131072;
        for (int i = 0; i < g_nro; i++) if (x >= g_ro[i].a && x < g_ro[i].b) { if (base < g_ro[i].a) base = g_ro[i].a; if (base + size > g_ro[i].b) size = g_ro[i].b - base; }
        return true;
    };
    // The object is chosen by something all paths with the same prefix agree on: the constant base of the address,
    // else the objects reachable over the current domain in address order.
    if (sa->op == O_ADD && isK(N(sa->k[1])) && objOf(N(sa->k[1])->conc)) have = true;
    else if (sa->op == O_ADD && isK(N(sa->k[0])) && objOf(N(sa->k[0])->conc)) have = true;
    else if (sa->single >= 0) {
        u64* t = tabOf(sa);
        if (t) {
            u64 ob[8][2]; int no = 0; bool many = false;
            u64* d = g_dom[sa->single];
            u64 vals[256]; int nv = 0;
            for (int i = 0; i < 256; i++) if (d[i >> 6] >> (i & 63) & 1) vals[nv++] = t[i];
            for (int i = 0; i < nv; i++) for (int j = i; j > 0 && vals[j] < vals[j - 1]; j--) { u64 x = vals[j]; vals[j] = vals[j - 1]; vals[j - 1] = x; }
            for (int i = 0; i < nv && !many; i++) {
                if (no && vals[i] >= ob[no - 1][0] && vals[i] + n <= ob[no - 1][0] + ob[no - 1][1]) continue;
                if (!objOf(vals[i])) continue;
                if (no == 4) { many = true; break; }
                ob[no][0] = base; ob[no][1] = size; no++;
            }
            for (int k = 0; k < no && !many && !have; k++) {
                Node* inb = bin(O_ULE, bin(O_SUB, sa, K(ob[k][0], 64)), K(ob[k][1] - n, 64));
                bool in = a >= ob[k][0] && a + n <= ob[k][0] + ob[k][1];
                if (!isK(inb)) decide(inb, in, D_BRANCH, false, loc);
                if (in) { base = ob[k][0]; size = ob[k][1]; have = true; }
            }
        }
    }
    if (have && !(a >= base && a + n <= base + size)) {
        Node* inb = bin(O_ULE, bin(O_SUB, sa, K(base, 64)), K(size - n, 64));
        if (!isK(inb)) decide(inb, false, D_BRANCH, false, loc);
        have = false;
    }
    if (have && a + n <= base + size) {
        // bounds decision: addresses outside the object are a different behaviour, explored on their own
        Node* off = bin(O_SUB, sa, K(base, 64));
        Node* inb = bin(O_ULE, off, K(size - n, 64));
        if (!isK(inb)) decide(inb, true, D_BRANCH, false, loc);
        if (sa->single >= 0) {
            u64* t = tabOf(sa); u64* d = g_dom[sa->single];
            if (t) {
                u32 id; u64 tmp[256]; memset(tmp, 0, sizeof tmp);
                for (int i = 0; i < 256 && !shadowed; i++) {
                    if (!(d[i >> 6] >> (i & 63) & 1)) continue;
                    u64 x = t[i];
                    if (x < base || x + n > base + size) { tmp[i] = 0; continue; }
                    for (unsigned k = 0; k < n; k++) if (__sx_pagemap[(x + k) >> 12 & ((1 << 20) - 1)] && byteNode(x + k)) shadowed = true;
                    u64 v = 0; memcpy(&v, (void*)x, n);
                    tmp[i] = maskw(v, w);
                }
                if (!shadowed) {
                    // canonical filler outside the current domain keeps equal tables equal
                    u64* nt = newTab(&id);
                    if (nt) {
                        memcpy(nt, tmp, sizeof tmp);
                        int fi = 0; while (!(d[fi >> 6] >> (fi & 63) & 1)) fi++;
                        u64 v0 = nt[fi];
                        for (int i = 0; i < 256; i++) if (!(d[i >> 6] >> (i & 63) & 1)) nt[i] = v0;
                        bool allsame = true;
                        for (int i = 0; i < 256; i++) if (nt[i] != v0) allsame = false;
                        if (allsame) return nullptr;
                        u32 vi = (u32)sa->single;
                        return out(mk(O_TAB, w, I(mk(O_VAR, 8, vi)), id));
                    }
                }
            }
        } else if (size <= 512) {
            // ite chain over the object
            bool sh = false;
            Node* r = nullptr; unsigned cnt = 0;
            u64 step = 1;
            // stride detection: address = base + k*step pattern from trailing zero low bits of the offset expression
            Node* o = off; if (o->op == O_CONCAT && isK(N(o->k[1])) && N(o->k[1])->conc == 0) step = 1ULL << N(o->k[1])->w; else if (o->op == O_ZEXT) { Node* q = N(o->k[0]); if (q->op == O_CONCAT && isK(N(q->k[1])) && N(q->k[1])->conc == 0) step = 1ULL << N(q->k[1])->w; }
            for (u64 k = 0; k + n <= size && !sh; k += step) {
                for (unsigned j = 0; j < n; j++) if (byteNode(base + k + j)) sh = true;
                u64 v = 0; memcpy(&v, (void*)(base + k), n);
                Node* kv = K(maskw(v, w), w);
                r = r ? ite(bin(O_EQ, off, K(k, 64)), kv, r) : kv;
                cnt++;
            }
            if (!sh && r) return out(r);
        }
    }
    pin(sa, loc, 4096);
    heapCheck(a, n, false, loc);
    return readMem(a, n, w);
}

extern "C" {
SX __sx_load(u64 a, u32 n, u32 w, SX sa, const char* loc)
{
    if (!G || g_off) return nullptr;
    if (sa) return loadSym(sa, a, n, w, loc);
    heapCheck(a, n, false, loc);
    return readMem(a, n, w);
}
static void pinMem(u64 a, u64 n, const char* loc)
{
    for (u64 i = 0; i < n; i++) { Node* b = byteNode(a + i); if (b) pin(b, loc, 256); }
}
void __sx_load_opaque(u64 a, u32 n, SX sa, const char* loc)
{
    if (!G || g_off) return;
    if (sa) pin(sa, loc);
    heapCheck(a, n, false, loc);
    pinMem(a, n, loc);
}
void __sx_store(u64 a, u32 n, SX s, SX sa, const char* loc)
{
    if (!G) return;
    if (g_off) { writeMem(a, n, nullptr); return; }
    if (sa) pin(sa, loc, 4096);
    heapCheck(a, n, true, loc);
    writeMem(a, n, s);
}
void __sx_alloca(void* p, u64 n) { if (G) clearShadow((u64)p, n); }
void __sx_byval(void* dst, void* src, u64 n) { if (G && !g_off && src) copyShadow((u64)dst, (u64)src, n); }
void __sx_memcpy(void* d, const void* s, u64 n, const char* loc)
{
    if (!G || !n) return;
    if (g_off) { clearShadow((u64)d, n); return; }
    heapCheck((u64)s, n, false, loc); heapCheck((u64)d, n, true, loc);
    copyShadow((u64)d, (u64)s, n);
}
void __sx_memset(void* d, SX v, u64 n, const char* loc)
{
    if (!G || !n) return;
    if (g_off) { clearShadow((u64)d, n); return; }
    heapCheck((u64)d, n, true, loc);
    if (!v) { clearShadow((u64)d, n); return; }
    Node* b = v->w > 8 ? extract(v, 0, 8) : v;
    for (u64 i = 0; i < n; i++) writeMem((u64)d + i, 1, out(b));
}

// ---- operations.  LLVM opcode numbers (LLVM 18): see llvm/IR/Instruction.def
static u8 mapBin(u32 op)
{
    switch (op) {
    case 13: return O_ADD; case 14: return O_FADD; case 15: return O_SUB; case 16: return O_FSUB; case 17: return O_MUL; case 18: return O_FMUL;
    case 19: return O_UDIV; case 20: return O_SDIV; case 21: return O_FDIV; case 22: return O_UREM; case 23: return O_SREM; case 24: return O_FREM;
    case 25: return O_SHL; case 26: return O_LSHR; case 27: return O_ASHR; case 28: return O_AND; case 29: return O_OR; case 30: return O_XOR;
    }
    return O_NONE;
}
SX __sx_bin(u32 lop, u32 w, SX sa, SX sb, u64 ca, u64 cb)
{
    if (!G || g_off) return nullptr;
    u8 op = mapBin(lop);
    Node *a = in(sa, ca, w), *b = in(sb, cb, w);
    if (op >= O_FADD) { if (isK(a) && isK(b)) return nullptr; return out(mk(op, w, I(a), I(b))); }
    if (op >= O_UDIV && op <= O_SREM && sb) decide(bin(O_EQ, b, K(0, w)), b->conc == 0, D_BRANCH, false, "divisor");
    if (op >= O_SHL && op <= O_ASHR && sb) decide(bin(O_ULT, b, K(w, w)), b->conc < w, D_BRANCH, false, "shift amount");
    return out(bin(op, a, b));
}
SX __sx_fneg(u32 w, SX s, u64 c) { if (!G || g_off) return nullptr; return out(mk(O_FNEG, w, I(in(s, c, w)))); }
SX __sx_ovf(u32 k, u32 w, SX sa, SX sb, u64 ca, u64 cb)
{
    if (!G || g_off) return nullptr;
    static const u8 m[6] = { O_OVF_UADD, O_OVF_SADD, O_OVF_USUB, O_OVF_SSUB, O_OVF_UMUL, O_OVF_SMUL };
    return out(bin(m[k], in(sa, ca, w), in(sb, cb, w)));
}
SX __sx_cmp(u32 pred, u32 w, SX sa, SX sb, u64 ca, u64 cb)
{
    if (!G || g_off) return nullptr;
    Node *a = in(sa, ca, w), *b = in(sb, cb, w);
    switch (pred) {
    case 32: return out(bin(O_EQ, a, b)); case 33: return out(mkNot(bin(O_EQ, a, b)));
    case 34: return out(bin(O_ULT, b, a)); case 35: return out(bin(O_ULE, b, a)); case 36: return out(bin(O_ULT, a, b)); case 37: return out(bin(O_ULE, a, b));
    case 38: return out(bin(O_SLT, b, a)); case 39: return out(bin(O_SLE, b, a)); case 40: return out(bin(O_SLT, a, b)); case 41: return out(bin(O_SLE, a, b));
    }
    if (isK(a) && isK(b)) return nullptr;
    return out(mk(O_FCMP, 1, I(a), I(b), pred));
}
SX __sx_cast(u32 op, u32 wf, u32 wt, SX s, u64 c)
{
    if (!G || g_off || !s) return nullptr;
    Node* a = in(s, c, wf);
    switch (op) {
    case 38: return out(extract(a, 0, wt)); case 39: return out(zext(a, wt)); case 40: return out(sext(a, wt));
    case 41: return out(mk(O_FPTOUI, wt, I(a))); case 42: return out(mk(O_FPTOSI, wt, I(a))); case 43: return out(mk(O_UITOFP, wt, I(a))); case 44: return out(mk(O_SITOFP, wt, I(a)));
    case 45: return out(mk(O_FPTRUNC, wt, I(a))); case 46: return out(mk(O_FPEXT, wt, I(a)));
    }
    pin(s, "cast"); return nullptr;
}
SX __sx_select(u32 w, SX sc, SX sa, SX sb, u64 cc, u64 ca, u64 cb)
{
    if (!G || g_off) return nullptr;
    if (!sc) return (cc & 1) ? sa : sb;
    return out(ite(in(sc, cc, 1), in(sa, ca, w), in(sb, cb, w)));
}
SX __sx_addmul(SX sb, u64 cb, SX si, u64 ci, u32 wi, u64 scale)
{
    if (!G || g_off || (!sb && !si)) return nullptr;
    Node* b = in(sb, cb, 64);
    if (!si) return out(bin(O_ADD, b, K(ci * scale, 64)));
    Node* i = si;
    if (wi < 64) i = sext(in(si, 0, wi), 64);
    return out(bin(O_ADD, bin(O_MUL, i, K(scale, 64)), b));
}
SX __sx_intr(u32 code, u32 w, SX s0, SX s1, SX s2, u64 c0, u64 c1, u64 c2, const char* loc)
{
    if (!G || g_off) return nullptr;
    Node *a = in(s0, c0, w), *b = in(s1, c1, w);
    Node* zero = K(0, w);
    switch (code) {
    case 0: return out(ite(bin(O_ULT, a, b), a, b)); case 1: return out(ite(bin(O_ULT, b, a), a, b));
    case 2: return out(ite(bin(O_SLT, a, b), a, b)); case 3: return out(ite(bin(O_SLT, b, a), a, b));
    case 4: return out(ite(bin(O_SLT, a, zero), bin(O_SUB, zero, a), a));
    case 5: { Node* r = nullptr; for (unsigned i = 0; i < w; i += 8) { Node* x = extract(a, i, 8); r = r ? concat(r, x) : x; } return out(r); }
    case 6: return out(mk(O_CTPOP, w, I(a))); case 7: return out(mk(O_CTLZ, w, I(a))); case 8: return out(mk(O_CTTZ, w, I(a)));
    case 9: case 10: {
        if (s2) { pin(s2, loc); }
        unsigned s = (unsigned)(c2 % w);
        if (code == 10) s = (w - s) % w;
        if (s == 0) return code == 9 ? out(a) : ((c2 % w) == 0 ? out(b) : out(a));
        return out(bin(O_OR, bin(O_SHL, a, K(s, w)), bin(O_LSHR, b, K(w - s, w))));
    }
    case 11: return out(ite(bin(O_OVF_UADD, a, b), K(~0ULL, w), bin(O_ADD, a, b)));
    case 12: return out(ite(bin(O_ULT, a, b), zero, bin(O_SUB, a, b)));
    case 16: return out(bin(O_AND, a, K(~(1ULL << (w - 1)), w)));
    case 17: case 18: case 19: case 20: case 21: return out(mk(O_FRND, w, I(a), code - 17));
    case 22: return out(mk(O_FMIN, w, I(a), I(b))); case 23: return out(mk(O_FMAX, w, I(a), I(b)));
    case 24: return out(mk(O_FSQRT, w, I(a)));
    case 25: return out(mk(O_FADD, w, I(mk(O_FMUL, w, I(a), I(b))), I(in(s2, c2, w))));
    }
    pin(s0, loc); pin(s1, loc); pin(s2, loc);
    return nullptr;
}
void __sx_branch(SX c, u32 taken, const char* loc) { if (!G || g_off || !c) return; decide(c->w == 1 ? c : extract(c, 0, 1), taken & 1, D_BRANCH, false, loc); }
void __sx_switch(SX s, u64 c, u32 n, const u64* vals, const u32* groups, u32 ng, const char* loc)
{
    if (!G || g_off || !s) return;
    u32 g = 0; for (u32 i = 0; i < n; i++) if (vals[i] == maskw(c, s->w)) g = groups[i];
    if (s->conc != maskw(c, s->w)) { G->t.divergences++; sx_stop(ST_ENGINE, "switch value disagrees with execution", loc); }
    Node* cond = nullptr;
    for (u32 i = 0; i < n; i++) {
        if (g == 0 || groups[i] == g) { Node* e = bin(O_EQ, s, K(vals[i], s->w)); cond = cond ? bin(O_OR, cond, e) : e; }
    }
    if (!cond) return;
    if (g == 0) cond = mkNot(cond);
    if (isK(cond)) return;
    if (implied(cond) == 1) return;
    Dec d; memset(&d, 0, sizeof d);
    d.kind = D_SWITCH; d.cond = I(s); d.val = g; d.loc = loc; d.vals = vals; d.groups = groups; d.n = n; d.ngroups = ng;
    learn(cond);
    push(d, cond->hash);
}
void __sx_concretize(SX s, const char* loc) { if (!G || g_off) return; pin(s, loc); }
static bool inText(void* p) { return p >= (void*)&__executable_start && p < (void*)&etext; }
bool sx_is_plt(void* p);
void __sx_ext_scalar(void* callee, SX s, const char* loc) { if (!G || g_off || !s) return; if (inText(callee) && !sx_is_plt(callee)) return; G->t.opaque++; pin(s, loc, 4096); }
const char* sx_symname(void* p);
void __sx_ext_ptr(void* callee, u64 a, const char* loc)
{
    if (!G || g_off || !a) return;
    if (inText(callee) && !sx_is_plt(callee)) return;
    u64 n = 64, base, size;
    if (inHeap(a)) { if (!heapObj(a, &base, &size)) return; n = base + size - a; }
    if (n > 4096) n = 4096;
    if (!inHeap(a)) { // stop at the page the pointer is in
        u64 pe = (a | 4095) + 1; if (a + n > pe) n = pe - a;
    }
    bool any = false;
    for (u64 i = 0; i < n && !any; i++) any = byteNode(a + i) != nullptr;
    if (!any) return;
    G->t.opaque++;
    const char* nm = sx_symname(callee);
    for (int i = 0; i < 8; i++) { if (!G->t.opaqueName[i][0]) { snprintf(G->t.opaqueName[i], 64, "%s", nm); break; } if (!strncmp(G->t.opaqueName[i], nm, 63)) break; }
    pinMem(a, n, loc);
}

static int g_susp = 0;
void __sx_suspend(int on) { __sx_tag = nullptr; __sx_rettag = nullptr; if (!G) return; if (on) { if (g_susp++ == 0) g_off = true; } else if (g_susp > 0 && --g_susp == 0) g_off = false; }
}
struct Mod { const char* name; u8* cov; const char** names; u64 n; u32 base; };
Mod g_mods[512]; u32 g_nmods; u32 g_covTotal; u8* g_covShared;
extern "C" {
void __sx_register_module(const char* name, u8* cov, const char** names, u64 n) { if (g_nmods < 512) { g_mods[g_nmods++] = { name, cov, names, n, g_covTotal }; g_covTotal += (u32)n; } }
} // extern "C"
static void flushCov() { if (g_covShared) for (u32 m = 0; m < g_nmods; m++) { u8* d = g_covShared + g_mods[m].base; for (u64 i = 0; i < g_mods[m].n; i++) if (g_mods[m].cov[i] && !d[i]) d[i] = 1; } }

// ---------------------------------------------------------------- harness API
extern "C" {
static SX arg(int i) { SX s = __sx_tag ? __sx_args[i] : nullptr; return s; }
#define ENTER void* self_ = __sx_tag; SX A_[4] = { arg(0), arg(1), arg(2), arg(3) }; __sx_tag = nullptr; __sx_rettag = nullptr; (void)self_; (void)A_
#define RETS(s) do { __sx_ret[0] = (s); __sx_rettag = self_; } while (0)
static Node* newVar(const char* name, unsigned i, bool arr)
{
    u32 v = G->t.nvars;
    if (v >= MAXVARS) sx_stop(ST_LIMIT, "too many symbolic bytes", nullptr);
    G->t.nvars = v + 1;
    if (arr) snprintf(G->t.varname[v], 20, "%.13s[%u]", name, i); else snprintf(G->t.varname[v], 20, "%.19s", name);
    for (int k = 0; k < 4; k++) { G->t.vardom[v][k] = ~0ULL; g_dom[v][k] = ~0ULL; }
    return mk(O_VAR, 8, v);
}
void __sx_make(void* p, u64 n, const char* name)
{
    ENTER; if (!G) return;
    for (u64 i = 0; i < n; i++) { Node* v = newVar(name, (unsigned)i, n > 1); ((u8*)p)[i] = (u8)v->conc; writeMem((u64)p + i, 1, v); }
}
u64 __sx_range(const char* name, u64 lo, u64 hi)
{
    ENTER; if (!G) return lo;
    u64 span = hi - lo;
    if (span == 0) return lo;
    if (span < 256) {
        Node* v = newVar(name, 0, false);
        u32 vi = (u32)v->single;
        for (u64 i = span + 1; i < 256; i++) { G->t.vardom[vi][i >> 6] &= ~(1ULL << (i & 63)); g_dom[vi][i >> 6] &= ~(1ULL << (i & 63)); }
        if (vi == 0) if (const char* e = getenv("SYMX_CASE")) {   // development aid: explore one case only
            u64 k = (u64)atoi(e);
            for (u64 i = 0; i < 256; i++) if (i != k) { G->t.vardom[vi][i >> 6] &= ~(1ULL << (i & 63)); g_dom[vi][i >> 6] &= ~(1ULL << (i & 63)); }
            G->input[vi] = (u8)k; v->conc = k;
        }
        if (G->input[vi] > span) { G->input[vi] = 0; v->conc = 0; }
        Node* r = bin(O_ADD, zext(v, 64), K(lo, 64));
        RETS(out(r)); return r->conc;
    }
    unsigned nb = span < (1ULL << 16) ? 2 : span < (1ULL << 32) ? 4 : 8;
    Node* r = nullptr;
    for (unsigned i = 0; i < nb; i++) { Node* v = newVar(name, i, true); r = r ? concat(v, r) : v; }
    r = zext(r, 64);
    bool full = span == maskw(~0ULL, nb * 8);
    if (!full) {
        Node* c = bin(O_ULE, r, K(span, 64));
        if (!isK(c)) {
            if (!c->conc) { decide(c, false, D_ASSUME, false, "range"); sx_stop(ST_PRUNED, nullptr, nullptr); }
            decide(c, true, D_ASSUME, true, "range");
        }
    }
    r = bin(O_ADD, r, K(lo, 64));
    RETS(out(r)); return r->conc;
}
static Node* boolArg(SX s, int c) { if (!s) return nullptr; Node* n = mkNot(bin(O_EQ, s, K(0, s->w))); return isK(n) ? nullptr : n; }
void __sx_assume(int c)
{
    ENTER; if (!G) return;
    Node* n = boolArg(A_[0], c);
    if (!n) { if (!c) sx_stop(ST_PRUNED, nullptr, nullptr); return; }
    decide(n, c != 0, D_ASSUME, c != 0, "assume");
    if (!c) sx_stop(ST_PRUNED, nullptr, nullptr);
}
void __sx_assert(int c, const char* tag)
{
    ENTER; if (!G) return;
    g_check++;
    Node* n = boolArg(A_[0], c);
    if (n) decide(n, c != 0, D_CHECK, false, tag);
    if (!c) sx_stop(ST_VIOLATION, tag, nullptr);
}
void __sx_fail(const char* tag) { ENTER; if (!G) return; sx_stop(ST_VIOLATION, tag, nullptr); }
void __sx_reach(const char* tag)
{
    ENTER; if (!G) return;
    for (u32 i = 0; i < G->t.reachN; i++) if (!strcmp(G->t.reach[i], tag)) return;
    if (G->t.reachN < 16) snprintf(G->t.reach[G->t.reachN++], 48, "%s", tag);
}
void __sx_end(void) { ENTER; if (!G) exit(0); sx_stop(ST_PRUNED, nullptr, nullptr); }
u64 __sx_pin(u64 v) { ENTER; if (!G) return v; pin(A_[0], "pin"); return v; }

// ---------------------------------------------------------------- libc models
int __sxw_memcmp(const void* p, const void* q, u64 n)
{
    ENTER;
    if (!G || g_off) return memcmp(p, q, n);
    for (int i = 0; i < 3; i++) pin(A_[i], "memcmp");
    if (!n) return 0;
    heapCheck((u64)p, n, false, "memcmp"); heapCheck((u64)q, n, false, "memcmp");
    Node* r = K(0, 32); bool any = false; int cr = 0;
    for (u64 i = n; i-- > 0;) {
        Node *a = byteNode((u64)p + i), *b = byteNode((u64)q + i);
        u8 x = ((u8*)p)[i], y = ((u8*)q)[i];
        if (!a && !b) { if (x != y) { r = K((u64)(i64)((int)x - (int)y), 32); cr = (int)x - (int)y; any = false; } continue; }
        any = true;
        Node *za = zext(a ? a : K(x, 8), 32), *zb = zext(b ? b : K(y, 8), 32);
        Node* lt = bin(O_ULT, za, zb); Node* eq = bin(O_EQ, za, zb);
        r = ite(eq, r, ite(lt, K(~0ULL, 32), K(1, 32)));
        if (x != y) cr = x < y ? -1 : 1;
    }
    if (any) { RETS(out(r)); return (int)(u32)r->conc; }
    return cr;
}
int __sxw_bcmp(const void* p, const void* q, u64 n) { return __sxw_memcmp(p, q, n); }
u64 __sxw_strlen(const char* p)
{
    ENTER;
    if (!G || g_off) return strlen(p);
    pin(A_[0], "strlen");
    u64 i = 0;
    for (;; i++) {
        heapCheck((u64)p + i, 1, false, "strlen");
        Node* b = byteNode((u64)p + i);
        if (b) decide(bin(O_EQ, b, K(0, 8)), p[i] == 0, D_BRANCH, false, "strlen");
        if (!p[i]) return i;
    }
}
void* __sxw_memchr(const void* p, int c, u64 n)
{
    ENTER;
    if (!G || g_off) return (void*)memchr(p, c, n);
    pin(A_[0], "memchr"); pin(A_[2], "memchr");
    Node* cn = A_[1] ? extract(A_[1], 0, 8) : K((u64)(u8)c, 8);
    for (u64 i = 0; i < n; i++) {
        heapCheck((u64)p + i, 1, false, "memchr");
        Node* b = byteNode((u64)p + i); u8 x = ((u8*)p)[i];
        Node* e = bin(O_EQ, b ? b : K(x, 8), cn);
        if (!isK(e)) decide(e, x == (u8)c, D_BRANCH, false, "memchr");
        if (x == (u8)c) return (void*)((u8*)p + i);
    }
    return nullptr;
}
static int strcmpN(const char* p, const char* q, u64 n, bool ci)
{
    for (u64 i = 0; i < n; i++) {
        heapCheck((u64)p + i, 1, false, "strcmp"); heapCheck((u64)q + i, 1, false, "strcmp");
        Node *a = byteNode((u64)p + i), *b = byteNode((u64)q + i);
        u8 x = (u8)p[i], y = (u8)q[i];
        Node *na = a ? a : K(x, 8), *nb = b ? b : K(y, 8);
        if (ci) {
            auto low = [](Node* z) { return ite(bin(O_ULT, bin(O_SUB, z, K('A', 8)), K(26, 8)), bin(O_ADD, z, K(32, 8)), z); };
            na = low(na); nb = low(nb); x = (u8)tolower(x); y = (u8)tolower(y);
        }
        Node* e = bin(O_EQ, na, nb);
        if (!isK(e)) decide(e, x == y, D_BRANCH, false, "strcmp");
        if (x != y) { Node* l = bin(O_ULT, na, nb); if (!isK(l)) decide(l, x < y, D_BRANCH, false, "strcmp"); return x < y ? -1 : 1; }
        Node* z = bin(O_EQ, na, K(0, 8)); if (!isK(z)) decide(z, x == 0, D_BRANCH, false, "strcmp");
        if (!x) return 0;
    }
    return 0;
}
int __sxw_strcmp(const char* p, const char* q) { ENTER; if (!G || g_off) return strcmp(p, q); pin(A_[0], "s"); pin(A_[1], "s"); return strcmpN(p, q, ~0ULL, false); }
int __sxw_strncmp(const char* p, const char* q, u64 n) { ENTER; if (!G || g_off) return strncmp(p, q, n); for (int i = 0; i < 3; i++) pin(A_[i], "s"); return strcmpN(p, q, n, false); }
int __sxw_strcasecmp(const char* p, const char* q) { ENTER; if (!G || g_off) return strcasecmp(p, q); pin(A_[0], "s"); pin(A_[1], "s"); return strcmpN(p, q, ~0ULL, true); }
int __sxw_strncasecmp(const char* p, const char* q, u64 n) { ENTER; if (!G || g_off) return strncasecmp(p, q, n); for (int i = 0; i < 3; i++) pin(A_[i], "s"); return strcmpN(p, q, n, true); }
char* __sxw_strchr(const char* p, int c)
{
    ENTER; if (!G || g_off) return (char*)strchr(p, c);
    pin(A_[0], "strchr"); Node* cn = A_[1] ? extract(A_[1], 0, 8) : K((u64)(u8)c, 8);
    for (u64 i = 0;; i++) {
        heapCheck((u64)p + i, 1, false, "strchr");
        Node* b = byteNode((u64)p + i); u8 x = (u8)p[i]; Node* nx = b ? b : K(x, 8);
        Node* e = bin(O_EQ, nx, cn); if (!isK(e)) decide(e, x == (u8)c, D_BRANCH, false, "strchr");
        if (x == (u8)c) return (char*)p + i;
        Node* z = bin(O_EQ, nx, K(0, 8)); if (!isK(z)) decide(z, x == 0, D_BRANCH, false, "strchr");
        if (!x) return nullptr;
    }
}
static void pinStr(const char* p) { for (u64 i = 0;; i++) { heapCheck((u64)p + i, 1, false, "str"); Node* b = byteNode((u64)p + i); if (b) pin(b, "str"); if (!p[i]) return; } }
char* __sxw_strrchr(const char* p, int c) { ENTER; if (G && !g_off) { pin(A_[0], "s"); pin(A_[1], "s"); pinStr(p); } return (char*)strrchr(p, c); }
char* __sxw_strstr(const char* p, const char* q) { ENTER; if (G && !g_off) { pin(A_[0], "s"); pin(A_[1], "s"); pinStr(p); pinStr(q); } return (char*)strstr(p, q); }
void* __sxw_memcpy(void* d, const void* s, u64 n) { ENTER; if (G && !g_off) { for (int i = 0; i < 3; i++) pin(A_[i], "memcpy"); __sx_memcpy(d, s, n, "memcpy"); } return memcpy(d, s, n); }
void* __sxw_memmove(void* d, const void* s, u64 n) { ENTER; if (G && !g_off) { for (int i = 0; i < 3; i++) pin(A_[i], "memmove"); __sx_memcpy(d, s, n, "memmove"); } return memmove(d, s, n); }
void* __sxw_memset(void* d, int c, u64 n) { ENTER; if (G && !g_off) { pin(A_[0], "memset"); pin(A_[2], "memset"); __sx_memset(d, A_[1], n, "memset"); } return memset(d, c, n); }
char* __sxw_strcpy(char* d, const char* s) { u64 n = __sxw_strlen(s); __sx_memcpy(d, s, n + 1, "strcpy"); memmove(d, s, n + 1); return d; }
char* __sxw_strcat(char* d, const char* s) { u64 k = __sxw_strlen(d), n = __sxw_strlen(s); __sx_memcpy(d + k, s, n + 1, "strcat"); memmove(d + k, s, n + 1); return d; }
char* __sxw_strncpy(char* d, const char* s, u64 n) { ENTER; if (G && !g_off) { pin(A_[2], "s"); pinStr(s); __sx_memset(d, nullptr, n, "strncpy"); } return strncpy(d, s, n); }

static SX asciiClass(SX s, int c, int (*f)(int), bool boolean)
{
    // s: the int argument.  Build an ite over byte ranges where f is uniform (values -1..255 only).
    if (!s) return nullptr;
    if (s->single >= 0) {
        u64* t = tabOf(s);
        if (t) {
            u32 id; u64* nt = newTab(&id);
            if (nt) {
                for (int i = 0; i < 256; i++) { int v = (int)(u32)t[i]; nt[i] = (u32)((v >= -1 && v < 256) ? (boolean ? f(v) != 0 : f(v)) : 0); }
                return out(mk(O_TAB, 32, I(mk(O_VAR, 8, (u32)s->single)), id));
            }
        }
    }
    pin(s, "ctype"); return nullptr;
}
#define CT(name) int __sxw_##name(int c) { ENTER; int r = name(c) != 0; if (G && !g_off) RETS(asciiClass(A_[0], c, name, true)); return r; }
CT(isspace) CT(isdigit) CT(isalpha) CT(isalnum) CT(isxdigit) CT(isprint) CT(isupper) CT(islower) CT(ispunct) CT(iscntrl) CT(isgraph) CT(isblank)
int __sxw_toupper(int c) { ENTER; int r = toupper(c); if (G && !g_off) RETS(asciiClass(A_[0], c, toupper, false)); return r; }
int __sxw_tolower(int c) { ENTER; int r = tolower(c); if (G && !g_off) RETS(asciiClass(A_[0], c, tolower, false)); return r; }
int __sxw_abs(int c) { ENTER; if (G && !g_off && A_[0]) { Node* a = in(A_[0], 0, 32); RETS(out(ite(bin(O_SLT, a, K(0, 32)), bin(O_SUB, K(0, 32), a), a))); } return abs(c); }
long __sxw_labs(long c) { ENTER; if (G && !g_off && A_[0]) { Node* a = in(A_[0], 0, 64); RETS(out(ite(bin(O_SLT, a, K(0, 64)), bin(O_SUB, K(0, 64), a), a))); } return labs(c); }
double __sxw_fabs(double c) { ENTER; if (G && !g_off && A_[0]) RETS(out(bin(O_AND, A_[0], K(~(1ULL << 63), 64)))); return fabs(c); }
float __sxw_fabsf(float c) { ENTER; if (G && !g_off && A_[0]) RETS(out(bin(O_AND, A_[0], K(0x7fffffff, 32)))); return fabsf(c); }

void* __sxw_malloc(u64 n) { ENTER; if (G && !g_off) pin(A_[0], "allocation size", 64); return halloc(n ? n : 1, 16); }
void* __sxw_calloc(u64 a, u64 b) { ENTER; if (G && !g_off) { pin(A_[0], "allocation size", 64); pin(A_[1], "allocation size", 64); } if (b && a > ~0ULL / b) return nullptr; void* p = halloc(a * b ? a * b : 1, 16); return p; }
void __sxw_free(void* p) { ENTER; if (sx_in_arena(p)) hfree(p, "free"); else free(p); }
void* __sxw_realloc(void* p, u64 n)
{
    ENTER; if (G && !g_off) pin(A_[1], "allocation size", 64);
    if (!p) return halloc(n ? n : 1, 16);
    if (!sx_in_arena(p)) return realloc(p, n);
    void* q = halloc(n ? n : 1, 16); if (!q) return nullptr;
    u64 o = sx_arena_size(p); u64 m = o < n ? o : n;
    memcpy(q, p, m); if (G && !g_off) copyShadow((u64)q, (u64)p, m);
    hfree(p, "realloc"); return q;
}
static void* xnew(u64 n, u64 al = 16) { void* p = halloc(n ? n : 1, al); if (!p) throw std::bad_alloc(); return p; }
void* __sxw__Znwm(u64 n) { ENTER; if (G && !g_off) pin(A_[0], "allocation size", 64); return xnew(n); }
void* __sxw__Znam(u64 n) { ENTER; if (G && !g_off) pin(A_[0], "allocation size", 64); return xnew(n); }
void* __sxw__ZnwmRKSt9nothrow_t(u64 n, const void*) { ENTER; if (G && !g_off) pin(A_[0], "allocation size", 64); return halloc(n ? n : 1, 16); }
void* __sxw__ZnamRKSt9nothrow_t(u64 n, const void*) { ENTER; if (G && !g_off) pin(A_[0], "allocation size", 64); return halloc(n ? n : 1, 16); }
void* __sxw__ZnwmSt11align_val_t(u64 n, u64 al) { ENTER; return xnew(n, al < 16 ? 16 : al); }
static void xdel(void* p) { __sx_tag = nullptr; __sx_rettag = nullptr; if (!p) return; if (sx_in_arena(p)) hfree(p, "operator delete"); else ::free(p); }
void __sxw__ZdlPv(void* p) { xdel(p); }
void __sxw__ZdaPv(void* p) { xdel(p); }
void __sxw__ZdlPvm(void* p, u64) { xdel(p); }
void __sxw__ZdaPvm(void* p, u64) { xdel(p); }
void __sxw__ZdlPvRKSt9nothrow_t(void* p, const void*) { xdel(p); }
void __sxw__ZdlPvSt11align_val_t(void* p, u64) { xdel(p); }
void __sxw__ZdlPvmSt11align_val_t(void* p, u64, u64) { xdel(p); }
u64 __sxw__ZSt11_Hash_bytesPKvmm(const void*, u64, u64) { ENTER; return 0x5bd1e995; } // any function of the bytes is a legal hash
long __sxw_time(long* t) { ENTER; if (t) *t = 1700000000; return 1700000000; }
int __sxw_rand(void) { ENTER; static unsigned s = 1; s = s * 1103515245u + 12345; return (int)(s >> 16 & 0x7fff); }
long __sxw_random(void) { return __sxw_rand(); }
void __sxw_srand(unsigned) { ENTER; }
long __sxw_clock(void) { ENTER; return 0; }
long __sxw__ZNSt6chrono3_V212system_clock3nowEv(void) { ENTER; return 1700000000LL * 1000000000LL; }
long __sxw__ZNSt6chrono3_V212steady_clock3nowEv(void) { ENTER; return 1700000000LL * 1000000000LL; }
} // extern "C"

// ---------------------------------------------------------------- path life cycle
static void onSignal(int sig, siginfo_t* si, void*)
{
    static char b[128];
    if (sig == SIGVTALRM || sig == SIGALRM || sig == SIGXCPU) { if (G) { G->t.status = ST_HANG; strcpy(G->t.tag, "path exceeded its time limit"); } _exit(0); }
    const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGFPE ? "SIGFPE" : sig == SIGABRT ? "SIGABRT" : sig == SIGILL ? "SIGILL" : sig == SIGBUS ? "SIGBUS" : "signal";
    if (G && G->t.status == ST_NONE) {
        G->t.status = ST_CRASH;
        if (!G->t.tag[0]) snprintf(G->t.tag, sizeof G->t.tag, "crash: %s", n);
    }
    (void)b; (void)si;
    _exit(0);
}
static void onTerminate()
{
    const std::type_info* ti = abi::__cxa_current_exception_type();
    if (G && G->t.status == ST_NONE) {
        const char* nm = "unknown"; int st; if (ti) { nm = abi::__cxa_demangle(ti->name(), nullptr, nullptr, &st); if (!nm) nm = ti->name(); }
        snprintf(G->t.tag, sizeof G->t.tag, "uncaught exception: %s", nm);
        G->t.status = ST_CRASH;
    }
    _exit(0);
}
extern "C" void sx_harness(void);
void sx_run_path(Slot* s, int seconds)
{
    // runs in a forked child; never returns
    G = s;
    memset((void*)&s->t, 0, offsetof(Trace, gen)); s->t.ndec = 0; s->t.nnodes = 0; s->t.ntabs = 0; s->t.nvars = 0;
    s->t.gen++; s->t.status = ST_NONE; s->t.divergences = 0; s->t.opaque = 0; s->t.reachN = 0; s->t.tag[0] = 0; s->t.where[0] = 0;
    memset(s->t.opaqueName, 0, sizeof s->t.opaqueName);
    static u8 altstk[65536];
    stack_t ss; ss.ss_sp = altstk; ss.ss_size = sizeof altstk; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int sg : { SIGSEGV, SIGFPE, SIGABRT, SIGILL, SIGBUS, SIGVTALRM, SIGALRM }) sigaction(sg, &sa, nullptr);
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = seconds; setitimer(ITIMER_VIRTUAL, &it, nullptr);
    it.it_value.tv_sec = seconds * 6; setitimer(ITIMER_REAL, &it, nullptr);
    std::set_terminate(onTerminate);
    g_off = false;
    sx_harness();
    flushCov();
    if (s->t.status == ST_NONE) s->t.status = ST_OK;
    _exit(0);
}
void sx_attach(Slot* s) { G = s; g_off = true; }
extern "C" void sx_arena_free_c(void* p) { hfree(p, "free"); }
extern "C" void* sx_arena_realloc_c(void* p, size_t n) { return __sxw_realloc(p, n); }
