// Hash-consed bit-vector expression DAG, simplifier, evaluator and z3 back end.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <time.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;
typedef int64_t i64;
typedef int32_t i32;
typedef int16_t i16;
typedef unsigned __int128 u128;

static inline double now_s() {
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

enum EK : u8 {
    E_CONST, E_VAR,
    E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
    E_SHL, E_LSHR, E_ASHR, E_AND, E_OR, E_XOR,
    E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT,   // EXTRACT: aux = low bit; CONCAT: k[0]=high k[1]=low
    E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ITE,
};

static const int MAXVARS = 256;
struct VS {
    u64 w[MAXVARS / 64];
    bool any(const VS &o) const { for (int i = 0; i < MAXVARS / 64; i++) if (w[i] & o.w[i]) return true; return false; }
    void add(const VS &o) { for (int i = 0; i < MAXVARS / 64; i++) w[i] |= o.w[i]; }
    bool subset(const VS &o) const { for (int i = 0; i < MAXVARS / 64; i++) if (w[i] & ~o.w[i]) return false; return true; }
    int count() const { int c = 0; for (int i = 0; i < MAXVARS / 64; i++) c += __builtin_popcountll(w[i]); return c; }
    int first() const { for (int i = 0; i < MAXVARS / 64; i++) if (w[i]) return i * 64 + __builtin_ctzll(w[i]); return -1; }
};

struct Expr {
    EK k; u8 w; u8 nk; u8 heavy; // heavy: contains a multiplication or division
    u32 id;
    u64 aux, hi;       // const value (lo,hi) / var index / extract offset
    Expr *c[3];
    VS vs;
    // evaluation memo
    u64 ev_epoch; u128 ev;
    Z3_ast zbv, zbl;
    i16 only;          // the only variable, if it is a byte (otherwise -1)
    u8 seen;           // how often evaluated without a table
    u64 *tab;          // values of that byte for which a condition holds
    u64 lep; u32 loff; // several values at once: memo
    u64 top;           // an upper bound of the value (up to 64 bits)
    Expr *next;
};

static inline u64 mask64(int w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline u128 mask128(int w) { return w >= 128 ? ~(u128)0 : ((((u128)1) << w) - 1); }
static inline i64 sx(u64 v, int w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
static inline __int128 sx128(u128 v, int w) { return w >= 128 ? (__int128)v : ((__int128)(v << (128 - w))) >> (128 - w); }

struct EPool {
    std::vector<Expr *> tab; u32 n = 0; u32 nextid = 1;
    std::vector<Expr *> blocks; size_t left = 0; Expr *cur = nullptr;
    std::vector<Expr *> vars;
    EPool() { tab.assign(1 << 16, nullptr); }
    Expr *alloc() {
        if (!left) { cur = (Expr *)calloc(4096, sizeof(Expr)); left = 4096; }
        left--; return cur++;
    }
    static u64 bound(Expr *e) {
        if (e->w > 64) return ~0ull;
        u64 m = e->w >= 64 ? ~0ull : (1ull << e->w) - 1, a = e->nk ? e->c[0]->top : 0, b = e->nk > 1 ? e->c[1]->top : 0;
        bool na = e->nk && e->c[0]->w <= 64;
        switch (e->k) {
        case E_CONST: return e->aux;
        case E_ZEXT: return na ? a : m;
        case E_ADD: { u64 s = a + b; return s < a || s > m ? m : s; }
        case E_MUL: { unsigned __int128 s = (unsigned __int128)a * b; return s > m ? m : (u64)s; }
        case E_AND: return a < b ? a : b;
        case E_OR: case E_XOR: { u64 x = a | b; for (int i = 1; i < 64; i *= 2) x |= x >> i; return x; }
        case E_LSHR: return e->c[1]->k == E_CONST ? (e->c[1]->aux >= 64 ? 0 : a >> e->c[1]->aux) : a;
        case E_SHL: if (e->c[1]->k == E_CONST && e->c[1]->aux < 64 && (a << e->c[1]->aux >> e->c[1]->aux) == a && (a << e->c[1]->aux) <= m) return a << e->c[1]->aux; return m;
        case E_UREM: return a;
        case E_EXTRACT: return na && e->aux == 0 && a < m ? a : m;
        case E_ITE: return b > e->c[2]->top ? b : e->c[2]->top;
        default: return m;
        }
    }
    static u64 hsh(EK k, int w, u64 aux, u64 hi, Expr *a, Expr *b, Expr *c) {
        u64 h = (u64)k * 0x9E3779B97F4A7C15ull + w;
        auto mx = [&](u64 x) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; };
        mx(aux); mx(hi); mx(a ? a->id : 0); mx(b ? b->id : 0); mx(c ? c->id : 0);
        return h;
    }
    Expr *get(EK k, int w, u64 aux, u64 hi, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr) {
        u64 h = hsh(k, w, aux, hi, a, b, c);
        size_t m = tab.size() - 1;
        for (Expr *e = tab[h & m]; e; e = e->next)
            if (e->k == k && e->w == w && e->aux == aux && e->hi == hi && e->c[0] == a && e->c[1] == b && e->c[2] == c) return e;
        if (n > tab.size()) {
            std::vector<Expr *> old; old.swap(tab); tab.assign(old.size() * 4, nullptr);
            m = tab.size() - 1;
            for (Expr *e : old) while (e) {
                Expr *nx = e->next; u64 hh = hsh(e->k, e->w, e->aux, e->hi, e->c[0], e->c[1], e->c[2]);
                e->next = tab[hh & m]; tab[hh & m] = e; e = nx;
            }
        }
        Expr *e = alloc();
        e->k = k; e->w = w; e->aux = aux; e->hi = hi; e->c[0] = a; e->c[1] = b; e->c[2] = c;
        e->nk = c ? 3 : b ? 2 : a ? 1 : 0; e->id = nextid++;
        memset(&e->vs, 0, sizeof e->vs);
        if (k == E_VAR) e->vs.w[aux / 64] |= 1ull << (aux & 63);
        e->heavy = k >= E_MUL && k <= E_SREM;
        for (int i = 0; i < e->nk; i++) { e->vs.add(e->c[i]->vs); e->heavy |= e->c[i]->heavy; }
        e->top = bound(e);
        e->only = -1;
        if (k == E_VAR) { if (w == 8) e->only = (i16)aux; }
        else if (e->nk) { int o = -1; bool one = true; for (int i = 0; i < e->nk && one; i++) { Expr *x = e->c[i]; if (x->k == E_CONST) continue; if (x->only < 0 || (o >= 0 && o != x->only)) one = false; else o = x->only; } if (one) e->only = (i16)o; }
        e->next = tab[h & m]; tab[h & m] = e; n++;
        return e;
    }
};
extern EPool EP;

static inline bool isC(Expr *e) { return e->k == E_CONST; }
static inline u128 cval(Expr *e) { return ((u128)e->hi << 64) | e->aux; }
static inline Expr *mkC(u128 v, int w) { v &= mask128(w); return EP.get(E_CONST, w, (u64)v, (u64)(v >> 64)); }

static inline u128 evop(EK k, int w, int w0, u128 a, u128 b, u64 aux) {
    u128 m = mask128(w);
    switch (k) {
    case E_ADD: return (a + b) & m;
    case E_SUB: return (a - b) & m;
    case E_MUL: return (a * b) & m;
    case E_UDIV: return b ? a / b : m;
    case E_UREM: return b ? a % b : a;
    case E_SDIV: { __int128 x = sx128(a, w), y = sx128(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return ((u128)0 - (u128)x) & m; return (u128)(x / y) & m; }
    case E_SREM: { __int128 x = sx128(a, w), y = sx128(b, w); if (!y) return a; if (y == -1) return 0; return (u128)(x % y) & m; }
    case E_SHL: return b >= (u128)w ? 0 : (a << (int)b) & m;
    case E_LSHR: return b >= (u128)w ? 0 : a >> (int)b;
    case E_ASHR: { __int128 x = sx128(a, w); int s = b >= (u128)w ? w - 1 : (int)b; return (u128)(x >> s) & m; }
    case E_AND: return a & b;
    case E_OR: return a | b;
    case E_XOR: return a ^ b;
    case E_ZEXT: return a;
    case E_SEXT: return (u128)sx128(a, w0) & m;
    case E_EXTRACT: return (a >> aux) & m;
    case E_EQ: return a == b;
    case E_ULT: return a < b;
    case E_ULE: return a <= b;
    case E_SLT: return sx128(a, w0) < sx128(b, w0);
    case E_SLE: return sx128(a, w0) <= sx128(b, w0);
    default: abort();
    }
}

Expr *mk2(EK k, Expr *a, Expr *b);
Expr *mkZext(Expr *a, int w);
Expr *mkSext(Expr *a, int w);
Expr *mkExtract(Expr *a, int lo, int w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkNot(Expr *a);
static inline Expr *mkVar(int idx, int w) { return EP.get(E_VAR, w, idx, 0); }

struct Model { u64 v[MAXVARS]; };
u128 evalE(Expr *e, const Model &m, u64 epoch);
extern u64 EVEPOCH;
static inline u128 evalM(Expr *e, const Model &m) { return evalE(e, m, ++EVEPOCH); }

/// The solver gave no answer within its time limit.
struct SolverUnknown {};
extern u64 hkNext; extern bool hkSoon; // when to look at the clock next
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cache_hits = 0, tables = 0, crossed = 0; double time = 0; double maxq = 0; };
struct Solver {
    Z3_context ctx; Z3_solver s;
    SolverStats st;
    struct CacheE { bool sat; std::vector<std::pair<u16, u64>> m; };
    std::unordered_map<std::string, CacheE> cache;
    std::vector<int> varw;
    Solver();
    // The set of values of its only variable (one byte) for which a condition holds.
    struct Table { u64 w[4]; };
    const Table &table(Expr *e);
    // For which of the given values of a byte does a condition hold?
    static Table lanes(Expr *e, const Model &m, int var, const Table &vals);
    Z3_ast bv(Expr *e); Z3_ast bl(Expr *e);
    // Is (relevant part of cs) && q satisfiable? On sat updates m for the involved variables.
    bool check(const std::vector<Expr *> &cs, Expr *q, Model &m);
    bool decide(const std::vector<Expr *> &cs, Expr *q, Model &m);
    int search(const std::vector<Expr *> &rest, const int *vi, int nv, const Table *dom, Model &m, const VS &first);
    u64 checks = 0;
    bool checkAll(const std::vector<Expr *> &cs, Model &m); // full query, uncached
};
std::string exprStr(Expr *e, int depth = 6);
