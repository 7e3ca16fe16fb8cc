// Expression nodes shared by the in-path runtime and the solver side.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cmath>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
enum Op : u8 {
    O_NONE, O_VAR, O_CONST, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
    O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_NOT,
    O_OVF_UADD, O_OVF_SADD, O_OVF_USUB, O_OVF_SSUB, O_OVF_UMUL, O_OVF_SMUL,
    O_CTPOP, O_CTLZ, O_CTTZ,
    O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FREM, O_FCMP, O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP, O_FPEXT, O_FPTRUNC, O_FRND, O_FSQRT, O_FNEG, O_FMIN, O_FMAX,
    O_TAB, O_MAX
};
const int MAXVARS = 256;
struct Node {
    u8 op, w;
    short single;      // -1 none, -2 several, else the one variable it depends on
    u32 k[3];          // kid indices; VAR: k[0]=index; EXTRACT: k[1]=lo; FCMP: k[2]=pred; TAB: k[1]=table id; casts: k[1]=source width
    u64 conc;          // value under this path's input
    u64 hash;
    u64 supp[4];
    u32 tab;           // memo: index+1 of the 256-entry value table (single-variable nodes)
    u32 depth;
};
static_assert(sizeof(Node) == 72, "");
enum DecKind : u8 { D_BRANCH, D_SWITCH, D_CONC, D_ASSUME, D_CHECK };
struct Dec {
    u8 kind; u8 noalt;
    u32 cond;          // boolean node, true on this path (BRANCH/ASSUME/CHECK); for SWITCH the scrutinee; CONC the expression
    u64 val;           // SWITCH/CONC: concrete value
    const char* loc;
    const u64* vals; const u32* groups; u32 n; u32 ngroups;
    u64 limit;         // CONC: max values to enumerate
};
enum Status : u32 { ST_NONE, ST_OK, ST_PRUNED, ST_VIOLATION, ST_CRASH, ST_HANG, ST_LIMIT, ST_ENGINE };
const u32 MAXNODES = 3u << 20, MAXDEC = 1u << 18, MAXTABS = 1u << 15, HASHN = 1u << 22;
struct Trace {
    volatile u32 status;
    u32 nvars, ndec, nnodes, ntabs, gen;
    u32 divergences, opaque, funcsSeen;
    char tag[256];
    char where[256];
    char varname[MAXVARS][20];
    u64 vardom[MAXVARS][4];
    u64 prefixHash[1];
    u32 reachN; char reach[16][48];
    char opaqueName[8][64];
};
struct Slot {
    Trace t;
    u8 input[MAXVARS];
    u32 bound; u64 boundHash;
    u32 inputSrc;
    Dec dec[MAXDEC];
    u64 decHash[MAXDEC];
    u64 tabs[MAXTABS][256];
    struct { u32 gen, idx; } ht[HASHN];
    Node nodes[MAXNODES];
};
u64 sx_eval_op(u8 op, unsigned w, unsigned wk, u64 a, u64 b, u64 c, u32 k1, u32 k2);
