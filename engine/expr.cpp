#include "expr.hpp"
EPool EP;
u64 EVEPOCH = 0;

Expr *mkNot(Expr *a) { // width 1
    return mk2(E_XOR, a, mkC(1, 1));
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
    if (isC(c)) return c->aux ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
        if (isC(a) && isC(b)) return a->aux ? c : mkNot(c);
        if (isC(a)) return a->aux ? mk2(E_OR, c, b) : mk2(E_AND, mkNot(c), b);
        if (isC(b)) return b->aux ? mk2(E_OR, mkNot(c), a) : mk2(E_AND, c, a);
    }
    if (c->k == E_XOR && isC(c->c[1]) && c->w == 1) return mkIte(c->c[0], b, a);
    return EP.get(E_ITE, a->w, 0, 0, c, a, b);
}
Expr *mkZext(Expr *a, int w) {
    if (a->w == w) return a;
    if (isC(a)) return mkC(cval(a), w);
    if (a->k == E_ZEXT) return mkZext(a->c[0], w);
    return EP.get(E_ZEXT, w, 0, 0, a);
}
Expr *mkSext(Expr *a, int w) {
    if (a->w == w) return a;
    if (isC(a)) return mkC((u128)sx128(cval(a), a->w), w);
    if (a->k == E_ZEXT) return mkZext(a->c[0], w);
    if (a->k == E_SEXT) return mkSext(a->c[0], w);
    return EP.get(E_SEXT, w, 0, 0, a);
}
Expr *mkExtract(Expr *a, int lo, int w) {
    if (lo == 0 && a->w == w) return a;
    if (isC(a)) return mkC(cval(a) >> lo, w);
    if (a->w <= 64 && !(a->top >> lo)) return mkC(0, w);
    switch (a->k) {
    case E_ZEXT: {
        int iw = a->c[0]->w;
        if (lo >= iw) return mkC(0, w);
        if (lo + w <= iw) return mkExtract(a->c[0], lo, w);
        return mkZext(mkExtract(a->c[0], lo, iw - lo), w);
    }
    case E_SEXT: if (lo + w <= (int)a->c[0]->w) return mkExtract(a->c[0], lo, w); break;
    case E_EXTRACT: return mkExtract(a->c[0], lo + (int)a->aux, w);
    case E_CONCAT: {
        int lw = a->c[1]->w;
        if (lo + w <= lw) return mkExtract(a->c[1], lo, w);
        if (lo >= lw) return mkExtract(a->c[0], lo - lw, w);
        break;
    }
    case E_AND: case E_OR: case E_XOR:
        if (isC(a->c[1])) return mk2(a->k, mkExtract(a->c[0], lo, w), mkExtract(a->c[1], lo, w));
        break;
    case E_ADD: case E_SUB: case E_MUL:
        // (not where it would hide that neighbouring bytes belong together)
        if (lo == 0 && (isC(a->c[0]) || a->c[0]->k == E_ZEXT || a->c[0]->k == E_CONCAT) && (isC(a->c[1]) || a->c[1]->k == E_ZEXT || a->c[1]->k == E_CONCAT)) return mk2(a->k, mkExtract(a->c[0], 0, w), mkExtract(a->c[1], 0, w));
        break;
    case E_ITE:
        if (isC(a->c[1]) || isC(a->c[2])) return mkIte(a->c[0], mkExtract(a->c[1], lo, w), mkExtract(a->c[2], lo, w));
        break;
    case E_SHL:
        if (isC(a->c[1]) && cval(a->c[1]) < a->w) {
            int s = (int)a->c[1]->aux;
            if (lo >= s) return mkExtract(a->c[0], lo - s, w);
            if (lo + w <= s) return mkC(0, w);
        }
        break;
    case E_LSHR:
        if (isC(a->c[1]) && cval(a->c[1]) < a->w) {
            int s = (int)a->c[1]->aux;
            if (lo + s + w <= a->w) return mkExtract(a->c[0], lo + s, w);
        }
        break;
    default: break;
    }
    return EP.get(E_EXTRACT, w, lo, 0, a);
}
Expr *mkConcat(Expr *h, Expr *l) {
    int w = h->w + l->w;
    if (isC(h) && isC(l)) return mkC((cval(h) << l->w) | cval(l), w);
    if (isC(h) && cval(h) == 0) return mkZext(l, w);
    if (h->k == E_EXTRACT && l->k == E_EXTRACT && h->c[0] == l->c[0] && h->aux == l->aux + l->w)
        return mkExtract(h->c[0], (int)l->aux, w);
    if (h->k == E_EXTRACT && h->c[0] == l && h->aux == l->w) return mkExtract(l, 0, w);
    if (h->k == E_ZEXT && !isC(l)) return mkZext(mkConcat(h->c[0], l), w);
    return EP.get(E_CONCAT, w, 0, 0, h, l);
}
static bool commut(EK k) { return k == E_ADD || k == E_MUL || k == E_AND || k == E_OR || k == E_XOR || k == E_EQ; }

// An upper bound (values that need more than 64 bits: all ones).
static u64 umax(Expr *e) { return e->w <= 64 ? e->top : ~0ull; }
Expr *mk2(EK k, Expr *a, Expr *b) {
    bool cmp = k >= E_EQ && k <= E_SLE;
    int w = cmp ? 1 : a->w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch %d %d op %d\n", a->w, b->w, k); abort(); }
    if (isC(a) && isC(b)) return mkC(evop(k, w, a->w, cval(a), cval(b), 0), w);
    if (commut(k) && isC(a)) std::swap(a, b);
    else if (commut(k) && !isC(b) && a->id > b->id) std::swap(a, b);
    bool bc = isC(b); u128 cb = bc ? cval(b) : 0;
    u128 M = mask128(a->w);
    switch (k) {
    case E_ADD:
        if (bc && !cb) return a;
        if (bc && a->k == E_ADD && isC(a->c[1])) return mk2(E_ADD, a->c[0], mkC(cb + cval(a->c[1]), w));
        break;
    case E_SUB:
        if (bc) return mk2(E_ADD, a, mkC((u128)0 - cb, w));
        if (a == b) return mkC(0, w);
        break;
    case E_MUL: if (bc && cb == 1) return a; if (bc && cb == 0) return b; break;
    case E_UDIV: if (bc && cb == 1) return a; break;
    case E_SHL: case E_LSHR: case E_ASHR:
        if (bc && cb == 0) return a;
        if (bc && cb >= (u128)w && k != E_ASHR) return mkC(0, w);
        if (isC(a) && cval(a) == 0) return a;
        if (k == E_LSHR && bc && a->k == E_ZEXT && cb >= a->c[0]->w) return mkC(0, w);
        if (k == E_LSHR && bc && a->k == E_ZEXT) return mkZext(mk2(E_LSHR, a->c[0], mkC(cb, a->c[0]->w)), w);
        break;
    case E_AND:
        if (bc && cb == 0) return b; if (bc && cb == M) return a; if (a == b) return a;
        if (bc && a->k == E_ZEXT) {
            int iw = a->c[0]->w; u128 im = mask128(iw);
            if ((cb & im) == im) return a;
            return mkZext(mk2(E_AND, a->c[0], mkC(cb & im, iw)), w);
        }
        if (bc && a->k == E_AND && isC(a->c[1])) return mk2(E_AND, a->c[0], mkC(cb & cval(a->c[1]), w));
        if (w == 1 && a->k == E_XOR && isC(a->c[1]) && a->c[0] == b) return mkC(0, 1);
        if (w == 1 && b->k == E_XOR && isC(b->c[1]) && b->c[0] == a) return mkC(0, 1);
        break;
    case E_OR:
        if (bc && cb == 0) return a; if (bc && cb == M) return b; if (a == b) return a;
        if (w == 1 && a->k == E_XOR && isC(a->c[1]) && a->c[0] == b) return mkC(1, 1);
        if (w == 1 && b->k == E_XOR && isC(b->c[1]) && b->c[0] == a) return mkC(1, 1);
        break;
    case E_XOR:
        if (bc && cb == 0) return a; if (a == b) return mkC(0, w);
        if (bc && a->k == E_XOR && isC(a->c[1])) return mk2(E_XOR, a->c[0], mkC(cb ^ cval(a->c[1]), w));
        if (w == 1 && bc) { // not
            if (a->k == E_ULT) return mk2(E_ULE, a->c[1], a->c[0]);
            if (a->k == E_ULE) return mk2(E_ULT, a->c[1], a->c[0]);
            if (a->k == E_SLT) return mk2(E_SLE, a->c[1], a->c[0]);
            if (a->k == E_SLE) return mk2(E_SLT, a->c[1], a->c[0]);
        }
        break;
    case E_EQ:
        if (a == b) return mkC(1, 1);
        if (a->w == 1 && bc) return cb ? a : mkNot(a);
        if (bc) {
            if (a->k == E_ZEXT) {
                int iw = a->c[0]->w;
                if (cb >> iw) return mkC(0, 1);
                return mk2(E_EQ, a->c[0], mkC(cb, iw));
            }
            if (a->k == E_ADD && isC(a->c[1])) return mk2(E_EQ, a->c[0], mkC(cb - cval(a->c[1]), a->w));
            if (a->k == E_XOR && isC(a->c[1])) return mk2(E_EQ, a->c[0], mkC(cb ^ cval(a->c[1]), a->w));
            if (a->k == E_ITE && (isC(a->c[1]) || isC(a->c[2])))
                return mkIte(a->c[0], mk2(E_EQ, a->c[1], b), mk2(E_EQ, a->c[2], b));
            if (a->k == E_CONCAT) {
                Expr *h = a->c[0], *l = a->c[1];
                return mk2(E_AND, mk2(E_EQ, h, mkC(cb >> l->w, h->w)), mk2(E_EQ, l, mkC(cb, l->w)));
            }
        } else if (a->k == E_ZEXT && b->k == E_ZEXT && a->c[0]->w == b->c[0]->w) return mk2(E_EQ, a->c[0], b->c[0]);
        break;
    case E_ULT: case E_ULE:
        if (a == b) return mkC(k == E_ULE, 1);
        if (bc) { u64 x = umax(a); if (!(cb >> 64) && (k == E_ULT ? x < (u64)cb : x <= (u64)cb)) return mkC(1, 1); }
        if (isC(a)) { u64 x = umax(b); if (!(cval(a) >> 64) && x != ~0ull && (k == E_ULT ? x <= (u64)cval(a) : x < (u64)cval(a))) return mkC(0, 1); }
        if (k == E_ULT && a->k == E_ADD && a->w <= 64 && (a->c[0] == b || a->c[1] == b)) { // wraps around?
            u64 x = umax(a->c[0]), y = umax(a->c[1]); if (x + y >= x && x + y <= mask64(a->w)) return mkC(0, 1);
        }
        if (k == E_ULT && bc && cb == 0) return mkC(0, 1);
        if (k == E_ULT && bc && cb == 1) return mk2(E_EQ, a, mkC(0, a->w));
        if (k == E_ULE && bc && cb == M) return mkC(1, 1);
        if (k == E_ULE && bc && cb == 0) return mk2(E_EQ, a, b);
        if (k == E_ULE && isC(a) && cval(a) == 0) return mkC(1, 1);
        if (k == E_ULT && isC(a) && cval(a) == M) return mkC(0, 1);
        if (bc && a->k == E_ZEXT) {
            int iw = a->c[0]->w;
            if (cb > mask128(iw)) return mkC(1, 1);
            return mk2(k, a->c[0], mkC(cb, iw));
        }
        if (isC(a) && b->k == E_ZEXT) {
            int iw = b->c[0]->w;
            if (cval(a) > mask128(iw)) return mkC(0, 1);
            return mk2(k, mkC(cval(a), iw), b->c[0]);
        }
        if (a->k == E_ZEXT && b->k == E_ZEXT && a->c[0]->w == b->c[0]->w) return mk2(k, a->c[0], b->c[0]);
        if (bc && a->k == E_ITE && isC(a->c[1]) && isC(a->c[2]))
            return mkIte(a->c[0], mk2(k, a->c[1], b), mk2(k, a->c[2], b));
        break;
    case E_SLT: case E_SLE: {
        if (a == b) return mkC(k == E_SLE, 1);
        auto nonneg = [](Expr *e) { return (e->k == E_ZEXT && e->c[0]->w < e->w) || (isC(e) && !(cval(e) >> (e->w - 1))); };
        if (nonneg(a) && nonneg(b)) return mk2(k == E_SLT ? E_ULT : E_ULE, a, b);
        if (bc && a->k == E_ITE && isC(a->c[1]) && isC(a->c[2]))
            return mkIte(a->c[0], mk2(k, a->c[1], b), mk2(k, a->c[2], b));
        break;
    }
    default: break;
    }
    // distribute over constant-leaf ITEs (keeps table look-ups shallow)
    if (!cmp && bc && a->k == E_ITE && isC(a->c[1]) && isC(a->c[2]))
        return mkIte(a->c[0], mk2(k, a->c[1], b), mk2(k, a->c[2], b));
    return EP.get(k, w, 0, 0, a, b);
}

static u64 *mkTab(Expr *e);
u128 evalE(Expr *e, const Model &m, u64 epoch) {
    if (e->k == E_CONST) return cval(e);
    if (e->k == E_VAR) return m.v[e->aux] & mask64(e->w);
    if (e->ev_epoch == epoch) return e->ev;
    if (e->w == 1 && e->only >= 0) {
        if (!e->tab && ++e->seen > 40) e->tab = mkTab(e);
        if (e->tab) { unsigned v = m.v[e->only] & 255; return e->tab[v / 64] >> (v & 63) & 1; }
    }
    u128 r;
    if (e->k == E_ITE) r = evalE(e->c[0], m, epoch) ? evalE(e->c[1], m, epoch) : evalE(e->c[2], m, epoch);
    else if (e->k == E_CONCAT) r = (evalE(e->c[0], m, epoch) << e->c[1]->w) | evalE(e->c[1], m, epoch);
    else {
        u128 a = evalE(e->c[0], m, epoch), b = e->nk > 1 ? evalE(e->c[1], m, epoch) : 0;
        r = evop(e->k, e->w, e->c[0]->w, a, b, e->aux);
    }
    e->ev_epoch = epoch; e->ev = r; return r;
}

// ---- the same for several values of one byte at once
static u64 LEPOCH = 0;
struct Lanes {
    std::vector<u64> LA; int LN = 0, LVAR; u8 LV[256]; u64 LSC, ep;
    u32 lane(Expr *e, const Model &m); // offset of LN values
};
u32 Lanes::lane(Expr *e, const Model &m) {
    if (e->lep == ep) return e->loff;
    u32 o = (u32)LA.size(); LA.resize(o + LN);
    bool dep = e->vs.w[LVAR / 64] >> (LVAR & 63) & 1;
    if (!dep) { u64 v = (u64)evalE(e, m, LSC); for (int i = 0; i < LN; i++) LA[o + i] = v; }
    else if (e->k == E_VAR) for (int i = 0; i < LN; i++) LA[o + i] = LV[i];
    else if (e->tab && e->only == LVAR) for (int i = 0; i < LN; i++) LA[o + i] = e->tab[LV[i] / 64] >> (LV[i] & 63) & 1;
    else {
        u32 a = lane(e->c[0], m), b = e->nk > 1 ? lane(e->c[1], m) : 0, c = e->nk > 2 ? lane(e->c[2], m) : 0;
        u64 *r = &LA[o], *x = &LA[a], *y = &LA[b], *z = &LA[c]; u64 k = mask64(e->w); int w0 = e->c[0]->w;
#define L(E) for (int i = 0; i < LN; i++) r[i] = (E); break
        switch (e->k) {
        case E_ADD: L((x[i] + y[i]) & k);
        case E_SUB: L((x[i] - y[i]) & k);
        case E_AND: L(x[i] & y[i]);
        case E_OR: L(x[i] | y[i]);
        case E_XOR: L(x[i] ^ y[i]);
        case E_ZEXT: L(x[i]);
        case E_EXTRACT: { int s = (int)e->aux; L(x[i] >> s & k); }
        case E_CONCAT: { int s = e->c[1]->w; L(x[i] << s | y[i]); }
        case E_EQ: L(x[i] == y[i]);
        case E_ULT: L(x[i] < y[i]);
        case E_ULE: L(x[i] <= y[i]);
        case E_ITE: L(x[i] ? y[i] : z[i]);
        default: L((u64)evop(e->k, e->w, w0, x[i], y[i], e->aux));
        }
#undef L
    }
    e->lep = ep; e->loff = o; return o;
}
// Values wider than 64 bits are not handled by lane().
static bool narrow(Expr *e, std::unordered_map<Expr *, bool> &memo) {
    if (e->w > 64) return false;
    if (!e->nk) return true;
    auto it = memo.find(e); if (it != memo.end()) return it->second;
    bool r = true; for (int i = 0; i < e->nk && r; i++) r = narrow(e->c[i], memo);
    return memo[e] = r;
}
static std::unordered_map<Expr *, bool> NARROW;
Solver::Table Solver::lanes(Expr *e, const Model &m, int var, const Table &vals) {
    Table t{};
    if (e->only == var && e->tab) { for (int k = 0; k < 4; k++) t.w[k] = vals.w[k] & e->tab[k]; return t; }
    if (NARROW.size() > 3000000) NARROW.clear();
    if (!narrow(e, NARROW)) {
        Model g = m;
        for (int v = 0; v < 256; v++) if (vals.w[v / 64] >> (v & 63) & 1) { g.v[var] = v; if (evalM(e, g)) t.w[v / 64] |= 1ull << (v & 63); }
        return t;
    }
    static thread_local Lanes spare[4]; static int depth = 0;
    Lanes *L = depth < 4 ? &spare[depth] : new Lanes; depth++;
    L->LN = 0; for (int v = 0; v < 256; v++) if (vals.w[v / 64] >> (v & 63) & 1) L->LV[L->LN++] = (u8)v;
    L->ep = ++LEPOCH; L->LVAR = var; L->LA.clear(); L->LSC = ++EVEPOCH;
    u32 o = L->lane(e, m);
    for (int i = 0; i < L->LN; i++) if (L->LA[o + i]) t.w[L->LV[i] / 64] |= 1ull << (L->LV[i] & 63);
    if (--depth >= 4) delete L;
    return t;
}
static u64 *mkTab(Expr *e) {
    static const Model m{}; static const Solver::Table all{{~0ull, ~0ull, ~0ull, ~0ull}};
    Solver::Table t = Solver::lanes(e, m, e->only, all);
    u64 *r = (u64 *)malloc(32); memcpy(r, t.w, 32); return r;
}

static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }
Solver::Solver() {
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(ctx, zerr);
    s = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 15000);
    Z3_solver_set_params(ctx, s, p);
}
const Solver::Table &Solver::table(Expr *e) {
    if (!e->tab) e->tab = mkTab(e);
    return *(Table *)e->tab;
}
Z3_ast Solver::bl(Expr *e) {
    if (e->zbl) return e->zbl;
    Z3_ast r;
    Z3_ast two[2];
    if (e->heavy && e->only >= 0) { // as ranges of the byte
        const Table t = table(e); std::vector<Z3_ast> parts; Z3_sort so = Z3_mk_bv_sort(ctx, 8); Z3_ast x = bv(EP.vars[e->vs.first()]);
        auto in = [&](int v) { return v < 256 && (t.w[v / 64] >> (v & 63) & 1); };
        for (int v = 0; v < 256; v++) if (in(v)) {
            int lo = v; while (in(v + 1)) v++;
            two[0] = Z3_mk_bvule(ctx, Z3_mk_unsigned_int64(ctx, lo, so), x); two[1] = Z3_mk_bvule(ctx, x, Z3_mk_unsigned_int64(ctx, v, so));
            parts.push_back(Z3_mk_and(ctx, 2, two));
        }
        r = parts.empty() ? Z3_mk_false(ctx) : Z3_mk_or(ctx, parts.size(), parts.data());
        Z3_inc_ref(ctx, r); e->zbl = r; return r;
    }
    switch (e->k) {
    case E_CONST: r = e->aux ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case E_EQ: if (e->c[0]->w == 1) r = Z3_mk_iff(ctx, bl(e->c[0]), bl(e->c[1])); else r = Z3_mk_eq(ctx, bv(e->c[0]), bv(e->c[1])); break;
    case E_ULT: r = Z3_mk_bvult(ctx, bv(e->c[0]), bv(e->c[1])); break;
    case E_ULE: r = Z3_mk_bvule(ctx, bv(e->c[0]), bv(e->c[1])); break;
    case E_SLT: r = Z3_mk_bvslt(ctx, bv(e->c[0]), bv(e->c[1])); break;
    case E_SLE: r = Z3_mk_bvsle(ctx, bv(e->c[0]), bv(e->c[1])); break;
    case E_AND: two[0] = bl(e->c[0]); two[1] = bl(e->c[1]); r = Z3_mk_and(ctx, 2, two); break;
    case E_OR: two[0] = bl(e->c[0]); two[1] = bl(e->c[1]); r = Z3_mk_or(ctx, 2, two); break;
    case E_XOR: if (isC(e->c[1])) r = e->c[1]->aux ? Z3_mk_not(ctx, bl(e->c[0])) : bl(e->c[0]); else r = Z3_mk_xor(ctx, bl(e->c[0]), bl(e->c[1])); break;
    case E_ITE: r = Z3_mk_ite(ctx, bl(e->c[0]), bl(e->c[1]), bl(e->c[2])); break;
    default: r = Z3_mk_eq(ctx, bv(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); break;
    }
    Z3_inc_ref(ctx, r); e->zbl = r; return r;
}
Z3_ast Solver::bv(Expr *e) {
    if (e->zbv) return e->zbv;
    Z3_ast r; Z3_sort so = Z3_mk_bv_sort(ctx, e->w);
    if (e->k == E_CONST) {
        if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, e->aux, so);
        else r = Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, e->hi, Z3_mk_bv_sort(ctx, e->w - 64)), Z3_mk_unsigned_int64(ctx, e->aux, Z3_mk_bv_sort(ctx, 64)));
    } else if (e->k == E_VAR) {
        char nm[32]; snprintf(nm, 32, "v%d_%d", (int)e->aux, e->w);
        r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), so);
    } else if (e->w == 1 && (e->k >= E_EQ || e->k == E_AND || e->k == E_OR || e->k == E_XOR)) {
        r = Z3_mk_ite(ctx, bl(e), Z3_mk_unsigned_int64(ctx, 1, so), Z3_mk_unsigned_int64(ctx, 0, so));
    } else {
        Expr **c = e->c;
        switch (e->k) {
        case E_ADD: r = Z3_mk_bvadd(ctx, bv(c[0]), bv(c[1])); break;
        case E_SUB: r = Z3_mk_bvsub(ctx, bv(c[0]), bv(c[1])); break;
        case E_MUL: r = Z3_mk_bvmul(ctx, bv(c[0]), bv(c[1])); break;
        case E_UDIV: r = Z3_mk_bvudiv(ctx, bv(c[0]), bv(c[1])); break;
        case E_SDIV: r = Z3_mk_bvsdiv(ctx, bv(c[0]), bv(c[1])); break;
        case E_UREM: r = Z3_mk_bvurem(ctx, bv(c[0]), bv(c[1])); break;
        case E_SREM: r = Z3_mk_bvsrem(ctx, bv(c[0]), bv(c[1])); break;
        case E_SHL: r = Z3_mk_bvshl(ctx, bv(c[0]), bv(c[1])); break;
        case E_LSHR: r = Z3_mk_bvlshr(ctx, bv(c[0]), bv(c[1])); break;
        case E_ASHR: r = Z3_mk_bvashr(ctx, bv(c[0]), bv(c[1])); break;
        case E_AND: r = Z3_mk_bvand(ctx, bv(c[0]), bv(c[1])); break;
        case E_OR: r = Z3_mk_bvor(ctx, bv(c[0]), bv(c[1])); break;
        case E_XOR: r = Z3_mk_bvxor(ctx, bv(c[0]), bv(c[1])); break;
        case E_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - c[0]->w, bv(c[0])); break;
        case E_SEXT: r = Z3_mk_sign_ext(ctx, e->w - c[0]->w, bv(c[0])); break;
        case E_EXTRACT: r = Z3_mk_extract(ctx, (unsigned)(e->aux + e->w - 1), (unsigned)e->aux, bv(c[0])); break;
        case E_CONCAT: r = Z3_mk_concat(ctx, bv(c[0]), bv(c[1])); break;
        case E_ITE: r = Z3_mk_ite(ctx, bl(c[0]), bv(c[1]), bv(c[2])); break;
        default: abort();
        }
    }
    Z3_inc_ref(ctx, r); e->zbv = r; return r;
}

u64 hkNext = 0; bool hkSoon = false;
bool Solver::checkAll(const std::vector<Expr *> &cs, Model &m) {
    double t0 = now_s();
    Z3_solver_push(ctx, s);
    VS vs; memset(&vs, 0, sizeof vs);
    for (Expr *e : cs) { Z3_solver_assert(ctx, s, bl(e)); vs.add(e->vs); }
    Z3_lbool r = Z3_solver_check(ctx, s);
    st.queries++;
    if (r == Z3_L_UNDEF) { st.unknown++; Z3_solver_pop(ctx, s, 1); double dt = now_s() - t0; st.time += dt; if (dt > st.maxq) st.maxq = dt; throw SolverUnknown(); }
    if (r == Z3_L_TRUE) {
        st.sat++;
        Z3_model zm = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, zm);
        for (int i = 0; i < MAXVARS; i++) if (vs.w[i / 64] >> (i & 63) & 1) {
            Expr *v = EP.vars[i];
            Z3_ast o = nullptr; u64 val = 0;
            if (Z3_model_eval(ctx, zm, bv(v), true, &o) && o) { Z3_inc_ref(ctx, o); Z3_get_numeral_uint64(ctx, o, (uint64_t *)&val); Z3_dec_ref(ctx, o); }
            m.v[i] = val;
        }
        Z3_model_dec_ref(ctx, zm);
    } else st.unsat++;
    Z3_solver_pop(ctx, s, 1);
    double dt = now_s() - t0; st.time += dt; if (dt > st.maxq) st.maxq = dt;
    if (dt > 0.05) { hkNext = 0; hkSoon = true; }
    return r == Z3_L_TRUE;
}

// Bytes with sets of values and conditions on several of them: an exhaustive
// search which gives up (-1) when it gets too long.
int Solver::search(const std::vector<Expr *> &rest, const int *vi, int nv, const Table *dom, Model &m, const VS &first) {
    static Model g; int order[24], lvl[24], size[24]; bool in[24] = {};
    std::vector<std::vector<int>> mem(rest.size()); // which bytes each condition is about
    for (size_t k = 0; k < rest.size(); k++) for (int i = 0; i < nv; i++) if (rest[k]->vs.w[vi[i] / 64] >> (vi[i] & 63) & 1) mem[k].push_back(i);
    for (int i = 0; i < nv; i++) { size[i] = 0; for (int k = 0; k < 4; k++) size[i] += __builtin_popcountll(dom[i].w[k]); }
    // what is asked about first, then what is linked to that, small sets first
    for (int n = 0; n < nv; n++) {
        int best = -1; double bs = 0;
        for (int i = 0; i < nv; i++) if (!in[i]) {
            double sc = 1000 - size[i];
            if (first.w[vi[i] / 64] >> (vi[i] & 63) & 1) sc += 10000;
            for (auto &x : mem) { bool has = false, other = false; for (int j : x) { if (j == i) has = true; else if (in[j]) other = true; } if (has && other) sc += 300; }
            if (best < 0 || sc > bs) best = i, bs = sc;
        }
        in[best] = true; lvl[best] = n; order[n] = best;
    }
    std::vector<int> at[24]; // conditions that can be decided at each level
    for (size_t k = 0; k < rest.size(); k++) { int l = 0; for (int j : mem[k]) if (lvl[j] > l) l = lvl[j]; at[l].push_back((int)k); }
    Table cand[24]; int n = 0, cur[24]; long work = 0; bool fresh = true;
    for (;;) {
        int i = order[n];
        if (fresh) { // the values that satisfy everything that is decided at this level
            cand[n] = dom[i]; cur[n] = -1; fresh = false;
            for (int k : at[n]) {
                if (!(cand[n].w[0] | cand[n].w[1] | cand[n].w[2] | cand[n].w[3])) break;
                if (++work > 3000) return -1;
                cand[n] = lanes(rest[k], g, vi[i], cand[n]);
            }
        }
        int v = cur[n] + 1;
        while (v < 256 && !(cand[n].w[v / 64] >> (v & 63) & 1)) v++;
        if (v == 256) { if (n == 0) return 0; n--; continue; }
        cur[n] = v; g.v[vi[i]] = v;
        if (n == nv - 1) { for (int j = 0; j < nv; j++) m.v[vi[j]] = g.v[vi[j]]; return 1; }
        n++; fresh = true;
    }
}
bool Solver::check(const std::vector<Expr *> &cs, Expr *q, Model &m) {
    if (isC(q)) return q->aux;
    u64 before = st.tables; Model keep; bool cross = (++checks & 63) == 0;
    if (cross) keep = m;
    bool r = decide(cs, q, m);
    // every now and then: does z3 agree with what the tables say?
    if (cross && st.tables != before) {
        std::vector<Expr *> all;
        VS vs = q->vs; bool ch = true; std::vector<char> used(cs.size());
        while (ch) { ch = false; for (size_t i = 0; i < cs.size(); i++) if (!used[i] && cs[i]->vs.any(vs)) { used[i] = 1; all.push_back(cs[i]); if (!cs[i]->vs.subset(vs)) { vs.add(cs[i]->vs); ch = true; } } }
        all.push_back(q);
        bool z;
        try { z = checkAll(all, keep); } catch (SolverUnknown &) { return r; }
        st.crossed++;
        if (z != r) { fprintf(stderr, "the byte tables and z3 disagree\n"); abort(); }
    }
    return r;
}
bool Solver::decide(const std::vector<Expr *> &cs, Expr *q, Model &m) {
    // constraint independence: only constraints (transitively) sharing variables with q matter
    VS vs = q->vs; std::vector<Expr *> rel; static std::vector<char> used; used.assign(cs.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < cs.size(); i++) if (!used[i] && cs[i]->vs.any(vs)) {
            used[i] = 1; if (!cs[i]->vs.subset(vs)) { vs.add(cs[i]->vs); ch = true; }
        }
    }
    Expr *nq = mkNot(q);
    for (size_t i = 0; i < cs.size(); i++) if (used[i]) {
        if (cs[i] == nq) return false;
        rel.push_back(cs[i]);
    }
    std::sort(rel.begin(), rel.end(), [](Expr *a, Expr *b) { return a->id < b->id; });
    rel.erase(std::unique(rel.begin(), rel.end()), rel.end());
    rel.push_back(q);
    // Bytes: exact sets of values for what concerns a single byte, and a look for a model of the rest.
    int vi[24], nv = 0; bool bytes = true;
    for (int i = 0; i < MAXVARS && bytes; i++) if (vs.w[i / 64] >> (i & 63) & 1) { if (nv == 24 || EP.vars[i]->w != 8) bytes = false; else vi[nv++] = i; }
    Table dom[24]; std::vector<Expr *> rest;
    if (bytes) {
        for (int i = 0; i < nv; i++) dom[i] = Table{{~0ull, ~0ull, ~0ull, ~0ull}};
        for (Expr *e : rel) {
            if (e->vs.count() != 1) { rest.push_back(e); continue; }
            int v = e->vs.first(), i = 0; while (vi[i] != v) i++;
            const Table &t = table(e); u64 any = 0;
            for (int k = 0; k < 4; k++) any |= dom[i].w[k] &= t.w[k];
            if (!any) { st.tables++; return false; }
        }
        auto has = [&](int i, int v) { return dom[i].w[v / 64] >> (v & 63) & 1; };
        static Model g; u64 rng = 0x9E3779B97F4A7C15ull * (q->id + 1); int tries = rest.empty() ? 1 : 3;
        for (int t = 0; t < tries; t++) {
            for (int i = 0; i < nv; i++) {
                int v = t == 0 ? (int)(m.v[vi[i]] & 255) : t == 1 ? 0 : t == 2 ? 255 : (rng = rng * 6364136223846793005ull + 1442695040888963407ull, (int)(rng >> 33) & 255);
                // mostly stay with what is known to satisfy the path
                if (t > 2 && nv > 1 && ((rng >> 50) % nv) != (u64)(t % nv) && has(i, m.v[vi[i]] & 255) && (t & 1)) v = m.v[vi[i]] & 255;
                if (t == 2) { while (!has(i, v)) v = (v + 255) & 255; } else { while (!has(i, v)) v = (v + 1) & 255; }
                g.v[vi[i]] = v;
            }
            bool ok = true; ++EVEPOCH;
            for (Expr *e : rest) if (!evalE(e, g, EVEPOCH)) { ok = false; break; }
            if (ok) { st.tables++; for (int i = 0; i < nv; i++) m.v[vi[i]] = g.v[vi[i]]; return true; }
        }
        int r = search(rest, vi, nv, dom, m, q->vs);
        if (r >= 0) { st.tables++; return r; }
    }
    std::string key; key.resize(rel.size() * 4);
    for (size_t i = 0; i < rel.size(); i++) memcpy(&key[i * 4], &rel[i]->id, 4);
    auto it = cache.find(key);
    if (it != cache.end()) {
        st.cache_hits++;
        if (it->second.sat) for (auto &p : it->second.m) m.v[p.first] = p.second;
        return it->second.sat;
    }
    bool r = checkAll(rel, m);
    CacheE ce; ce.sat = r;
    if (r) for (int i = 0; i < MAXVARS; i++) if (vs.w[i / 64] >> (i & 63) & 1) ce.m.push_back({(u16)i, m.v[i]});
    if (cache.size() > 2000000) cache.clear();
    cache.emplace(std::move(key), std::move(ce));
    return r;
}

std::string exprStr(Expr *e, int d) {
    static const char *nm[] = {"c", "v", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "zext", "sext", "ext", "cat", "eq", "ult", "ule", "slt", "sle", "ite"};
    char b[64];
    if (e->k == E_CONST) { snprintf(b, 64, "%llu", (unsigned long long)e->aux); return b; }
    if (e->k == E_VAR) { snprintf(b, 64, "v%llu", (unsigned long long)e->aux); return b; }
    if (!d) return "..";
    std::string r = std::string("(") + nm[e->k];
    if (e->k == E_EXTRACT) { snprintf(b, 64, "[%llu+%d]", (unsigned long long)e->aux, e->w); r += b; }
    for (int i = 0; i < e->nk; i++) r += " " + exprStr(e->c[i], d - 1);
    return r + ")";
}
