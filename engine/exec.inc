// The interpreter.
static State *S; // current state
static u64 gInstr = 0, gForks = 0;
static u64 MAXINST = 200000000; static int RESOLVE_LIM = 300;
static std::map<u32, int> varReg; // (seq,width) -> var index

[[noreturn]] static void endPath(const char *kind, const string &msg, u64 id = 0) { throw PathEnd{kind, msg, id}; }
static void addC(Expr *e) { if (!isC(e)) S->cs.push_back(e); }
static State *cloneWith(Expr *c, const Model &m) {
    State *t = new State(*S); t->cs.push_back(c); t->m = m; t->depth++; gForks++; return t;
}
static bool holdsSyn(Expr *e) { for (Expr *c : S->cs) if (c == e) return true; return false; }
static bool branch(Expr *c) {
    if (isC(c)) return c->aux;
    bool v = evalM(c, S->m);
    Expr *t = v ? c : mkNot(c), *o = v ? mkNot(c) : c;
    if (holdsSyn(t)) return v;
    Model mm = S->m;
    if (SV->check(S->cs, o, mm)) { pending.push_back(cloneWith(o, mm)); S->depth++; addC(t); }
    return v;
}
static u64 concretize(Slot &s, int w) {
    if (!s.e) return s.v;
    u64 v = (u64)evalM(s.e, S->m);
    if (s.e->w > 64) { s.e = mkC(evalM(s.e, S->m), s.e->w); return v; }
    Expr *eq = mk2(E_EQ, s.e, mkC(v, s.e->w));
    Model mm = S->m; Expr *ne = mkNot(eq);
    if (!holdsSyn(eq) && SV->check(S->cs, ne, mm)) { pending.push_back(cloneWith(ne, mm)); S->depth++; addC(eq); }
    s.v = v; s.e = nullptr; return v;
}
static string hex(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
static u8 *ptrRO(u64 a, u64 n, Expr ***sy);
[[noreturn]] static void memErr(const char *what, u64 a, u64 n) {
    Obj *o = S->find(a); u32 id = a >> 32; string m = what;
    m += " of " + std::to_string(n) + " bytes at " + hex(a);
    if (o) m += " (object of " + std::to_string(o->size) + " bytes, offset " + std::to_string((i64)((u32)a) - 0x1000) + ")";
    else if (id && id < S->nextHeap) m += " (freed heap object)";
    endPath("memerr", m);
}
static inline u64 offOf(u64 a) { return (u64)(u32)a - 0x1000; }
static Obj *chkR(u64 a, u64 n) {
    Obj *o = S->find(a); if (!o) memErr("read", a, n);
    u64 off = offOf(a); if (off > o->size || n > o->size - off) memErr("out-of-bounds read", a, n);
    return o;
}
static Obj *chkW(u64 a, u64 n) {
    Obj *o = S->find(a); if (!o) memErr("write", a, n);
    u64 off = offOf(a); if (off > o->size || n > o->size - off) memErr("out-of-bounds write", a, n);
    o = S->findW(a); if (!o) memErr("write to read-only memory", a, n);
    return o;
}
static inline u8 rdByte(Obj *o, u64 off, Expr **e) {
    Chunk *c = o->ch[off / CH]; if (!c) { *e = nullptr; return 0; }
    *e = c->nsym && c->sym ? c->sym[off % CH] : nullptr; return c->data[off % CH];
}
static inline void wrByte(Obj *o, u64 off, u8 v, Expr *e) {
    Chunk *c = wrChunk(o, off / CH); u32 i = off % CH;
    if (e && isC(e)) { v = e->aux; e = nullptr; }
    if (c->sym) {
        if (c->sym[i] && !e) c->nsym--; else if (!c->sym[i] && e) c->nsym++;
        c->sym[i] = e;
    } else if (e) { c->sym = (Expr **)calloc(c->len, sizeof(Expr *)); c->sym[i] = e; c->nsym++; }
    c->data[i] = v;
}
static inline void loadInt(Obj *o, u64 off, int n, int w, Slot &out) {
    u64 in = off % CH; Chunk *c = o->ch[off / CH];
    if (in + n <= CH) {
        if (!c) { out.v = 0; out.e = nullptr; return; }
        if (!c->nsym) { u64 v = 0; memcpy(&v, c->data + in, n); out.v = v & mask64(w); out.e = nullptr; return; }
    }
    u64 v = 0; bool sy = false; Expr *es[16]; u8 bs[16];
    for (int i = 0; i < n; i++) { bs[i] = rdByte(o, off + i, &es[i]); if (es[i]) sy = true; if (i < 8) v |= (u64)bs[i] << (8 * i); }
    if (!sy && n <= 8) { out.v = v & mask64(w); out.e = nullptr; return; }
    Expr *r = nullptr;
    for (int i = 0; i < n; i++) { Expr *b = es[i] ? es[i] : mkC(bs[i], 8); r = r ? mkConcat(b, r) : b; }
    if (r->w > w) r = mkExtract(r, 0, w);
    setE(out, r);
}
static inline void storeInt(Obj *o, u64 off, int n, int w, const Slot &s) {
    if (!s.e) {
        u64 in = off % CH;
        if (in + n <= CH) {
            Chunk *c = wrChunk(o, off / CH);
            if (!c->nsym) { memcpy(c->data + in, &s.v, n); return; }
        }
        for (int i = 0; i < n; i++) wrByte(o, off + i, s.v >> (8 * i), nullptr);
        return;
    }
    Expr *e = s.e; if (e->w < n * 8) e = mkZext(e, n * 8);
    for (int i = 0; i < n; i++) wrByte(o, off + i, 0, mkExtract(e, i * 8, 8));
}
// All feasible values of a symbolic address (at most lim); false when there are more.
static bool resolve(Expr *a, vector<u64> &vals, int lim) {
    vector<Expr *> cs = S->cs; Model m = S->m;
    u64 v = (u64)evalM(a, m);
    for (;;) {
        vals.push_back(v); if ((int)vals.size() > lim) return false;
        Expr *ne = mkNot(mk2(E_EQ, a, mkC(v, a->w)));
        if (isC(ne)) { if (!ne->aux) return true; }
        if (!SV->check(cs, ne, m)) return true;
        cs.push_back(ne); v = (u64)evalM(a, m);
    }
}
static u64 conAddr(Slot &s) { return s.e ? concretize(s, 64) : s.v; }
static void loadAt(Slot &as, int n, int w, Slot &out) {
    if (!as.e) { u64 a = as.v; Obj *o = chkR(a, n); loadInt(o, offOf(a), n, w, out); return; }
    vector<u64> vals;
    if (!resolve(as.e, vals, RESOLVE_LIM)) { Slot t = as; u64 a = concretize(t, 64); Obj *o = chkR(a, n); loadInt(o, offOf(a), n, w, out); return; }
    std::sort(vals.begin(), vals.end());
    vector<std::pair<Expr *, Expr *>> groups; // value, condition
    std::map<Expr *, size_t> gi;
    for (u64 v : vals) {
        Obj *o = S->find(v); u64 off = offOf(v);
        if (!o || off > o->size || (u64)n > o->size - off) { // let this value fail on its own path
            if (vals.size() == 1) memErr("out-of-bounds read", v, n);
            Slot t = as; concretize(t, 64); Obj *oo = chkR(t.v, n); loadInt(oo, offOf(t.v), n, w, out); return;
        }
        Slot r; loadInt(o, off, n, w, r);
        Expr *val = toE(r, w), *c = mk2(E_EQ, as.e, mkC(v, 64));
        auto it = gi.find(val);
        if (it == gi.end()) { gi[val] = groups.size(); groups.push_back({val, c}); } else groups[it->second].second = mk2(E_OR, groups[it->second].second, c);
    }
    // largest group last so that it becomes the default
    Expr *r = groups[0].first;
    for (size_t i = 1; i < groups.size(); i++) r = mkIte(groups[i].second, groups[i].first, r);
    setE(out, r);
}
static void copyMem(u64 d, u64 s, u64 n) {
    if (!n) return;
    chkR(s, n); Obj *dobj = chkW(d, n); Obj *so = S->find(s);
    u64 sof = offOf(s), dof = offOf(d);
    if (so == dobj) {
        vector<u8> b(n); vector<Expr *> e(n);
        for (u64 i = 0; i < n; i++) b[i] = rdByte(so, sof + i, &e[i]);
        for (u64 i = 0; i < n; i++) wrByte(dobj, dof + i, b[i], e[i]);
        return;
    }
    u64 i = 0;
    while (i < n) {
        u64 si = (sof + i) % CH, di = (dof + i) % CH; u64 k = std::min(n - i, std::min(CH - si, CH - di));
        Chunk *sc = so->ch[(sof + i) / CH];
        if (!sc) { Chunk *dc = dobj->ch[(dof + i) / CH]; if (dc) { if (dc->nsym) { for (u64 j = 0; j < k; j++) wrByte(dobj, dof + i + j, 0, nullptr); } else memset(wrChunk(dobj, (dof + i) / CH)->data + di, 0, k); } }
        else {
            Chunk *dc = wrChunk(dobj, (dof + i) / CH);
            if (!sc->nsym && !dc->nsym) memcpy(dc->data + di, sc->data + si, k);
            else for (u64 j = 0; j < k; j++) wrByte(dobj, dof + i + j, sc->data[si + j], sc->sym ? sc->sym[si + j] : nullptr);
        }
        i += k;
    }
}
static u64 heapAlloc(u64 n) {
    if (n > (1ull << 28)) return 0;
    u32 id = S->nextHeap++; *S->heapSlot(id, true) = newObj(n, OK_HEAP); S->heapLive++; return mkAddr(id, 0);
}
static void heapFree(u64 a) {
    if (!a) return;
    u32 id = a >> 32; Obj *o = S->find(a);
    if (id >= ID_FN || !o || offOf(a) != 0) memErr("invalid free", a, 0);
    Obj **sl = S->heapSlot(id, true); relObj(*sl); *sl = nullptr; S->heapLive--;
}
static Expr *newVar(int w) {
    u32 key = S->seq * 256 + w; auto it = varReg.find(key); int ix;
    if (it == varReg.end()) {
        ix = varReg.size(); if (ix >= MAXVARS) endPath("limit", "too many symbolic variables");
        varReg[key] = ix; EP.vars.push_back(mkVar(ix, w));
    } else ix = it->second;
    S->seq++; S->vars.push_back(ix); S->m.v[ix] = 0; return EP.vars[ix];
}
static bool readStr(u64 p, u64 n, string &o) {
    if (n > 4096) return false; Obj *b = S->find(p); if (!b) return false; u64 off = offOf(p); if (off > b->size || n > b->size - off) return false;
    for (u64 i = 0; i < n; i++) { Expr *e; u8 c = rdByte(b, off + i, &e); o += e ? '?' : (char)c; } return true;
}
static string backtrace(int k) { string r; for (int i = (int)S->fr.size() - 1; i >= 0 && k-- > 0; i--) { r += S->fr[i].f->name; r += " "; } return r; }

// ---------------------------------------------------------------- externals
enum H { H_NONE, H_MALLOC, H_CALLOC, H_REALLOC, H_FREE, H_PMEMALIGN, H_MEMCPY, H_MEMMOVE, H_MEMSET, H_MEMCMP, H_BCMP, H_STRLEN, H_WRITE, H_WRITEV,
    H_GETRANDOM, H_ZERO, H_NEG1, H_ABORT, H_CLOCK, H_GETENV, H_ERRNO, H_MEMCHR,
    H_SYM_U8, H_SYM_U64, H_SYM_RANGE, H_SYM_CHOOSE, H_SYM_ASSUME, H_SYM_FAIL, H_SYM_ASSERT, H_SYM_COVER, H_SYM_OBS, H_SYM_CONC, H_SYM_FLAG, H_SYM_DBG,H_SYM_DECIDE, H_SYM_ISCONST, H_POW,
    H_MAX, H_MIN, H_SMAX, H_SMIN, H_UADDO, H_USUBO, H_UMULO, H_SADDO, H_SSUBO, H_SMULO, H_USUBSAT, H_UADDSAT, H_SSUBSAT, H_SADDSAT, H_CTLZ, H_CTTZ, H_CTPOP, H_FSHL, H_FSHR, H_BSWAP, H_BITREV, H_ABS, H_UCMP, H_SCMP,
    H_ISCONST, H_NOP, H_TLADDR, H_TRAP, H_LOG2, H_FPTOUISAT, H_EXPECT, H_PTRMASK, H_FLOOR, H_CEIL, H_FABS, H_FPTOSISAT, H_VREDOR, H_VREDAND, H_VREDADD, H_PTHREAD_SELF, H_ISFPCLASS, H_TESTHOOK };
static int handlerOf(const string &n) {
    static const std::map<string, int> ex = {
        {"malloc", H_MALLOC}, {"calloc", H_CALLOC}, {"realloc", H_REALLOC}, {"free", H_FREE}, {"posix_memalign", H_PMEMALIGN}, {"memcpy", H_MEMCPY}, {"memmove", H_MEMMOVE}, {"memset", H_MEMSET},
        {"memcmp", H_MEMCMP}, {"bcmp", H_BCMP}, {"strlen", H_STRLEN}, {"write", H_WRITE}, {"writev", H_WRITEV}, {"getrandom", H_GETRANDOM}, {"abort", H_ABORT}, {"clock_gettime", H_CLOCK}, {"getenv", H_GETENV},
        {"__errno_location", H_ERRNO}, {"memchr", H_MEMCHR}, {"syscall", H_ZERO}, {"sched_yield", H_ZERO}, {"pthread_self", H_PTHREAD_SELF}, {"__cxa_thread_atexit_impl", H_ZERO},
        {"sym_u8", H_SYM_U8}, {"sym_u64", H_SYM_U64}, {"sym_range", H_SYM_RANGE}, {"sym_choose", H_SYM_CHOOSE}, {"sym_assume", H_SYM_ASSUME}, {"sym_fail", H_SYM_FAIL}, {"sym_assert", H_SYM_ASSERT}, {"sym_cover", H_SYM_COVER},
        {"sym_observe", H_SYM_OBS}, {"sym_concretize", H_SYM_CONC}, {"sym_dbg", H_SYM_DBG}, {"sym_decide", H_SYM_DECIDE}, {"sym_isconst", H_SYM_ISCONST}, {"log2", H_LOG2}, {"pow", H_POW}, {"llvm.pow.f64", H_POW},
        {"llvm.trap", H_TRAP}, {"llvm.x86.sse2.pause", H_NOP}, {"llvm.sideeffect", H_NOP}, {"llvm.donothing", H_NOP}};
    auto it = ex.find(n); if (it != ex.end()) return it->second;
    static const vector<std::pair<string, int>> pre = {
        {"llvm.memcpy.", H_MEMCPY}, {"llvm.memmove.", H_MEMMOVE}, {"llvm.memset.", H_MEMSET}, {"llvm.umax.", H_MAX}, {"llvm.umin.", H_MIN}, {"llvm.smax.", H_SMAX}, {"llvm.smin.", H_SMIN},
        {"llvm.uadd.with.overflow.", H_UADDO}, {"llvm.usub.with.overflow.", H_USUBO}, {"llvm.umul.with.overflow.", H_UMULO}, {"llvm.sadd.with.overflow.", H_SADDO}, {"llvm.ssub.with.overflow.", H_SSUBO}, {"llvm.smul.with.overflow.", H_SMULO},
        {"llvm.usub.sat.", H_USUBSAT}, {"llvm.uadd.sat.", H_UADDSAT}, {"llvm.ctlz.", H_CTLZ}, {"llvm.cttz.", H_CTTZ}, {"llvm.ctpop.", H_CTPOP}, {"llvm.fshl.", H_FSHL}, {"llvm.fshr.", H_FSHR},
        {"llvm.bswap.", H_BSWAP}, {"llvm.bitreverse.", H_BITREV}, {"llvm.abs.", H_ABS}, {"llvm.ucmp.", H_UCMP}, {"llvm.scmp.", H_SCMP}, {"llvm.is.constant.", H_ISCONST}, {"llvm.threadlocal.address.", H_TLADDR},
        {"llvm.log2.f64", H_LOG2}, {"llvm.floor.f64", H_FLOOR}, {"llvm.ceil.f64", H_CEIL}, {"llvm.fabs.", H_FABS}, {"llvm.fptoui.sat.", H_FPTOUISAT}, {"llvm.fptosi.sat.", H_FPTOSISAT}, {"llvm.expect.", H_EXPECT}, {"llvm.ptrmask.", H_PTRMASK},
        {"llvm.vector.reduce.or.", H_VREDOR}, {"llvm.vector.reduce.and.", H_VREDAND}, {"llvm.vector.reduce.add.", H_VREDADD},
        {"llvm.invariant.", H_NOP}, {"llvm.prefetch.", H_NOP}, {"llvm.va_", H_NONE}};
    for (auto &p : pre) if (n.compare(0, p.first.size(), p.first) == 0) return p.second;
    return H_NONE;
}
struct PathRec; static void onFailAssert(u64 id, const Model &m);

static inline Slot binop(Op op, const Slot &a, const Slot &b, int w) {
    static const EK mp[] = {E_CONST, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_SHL, E_LSHR, E_ASHR, E_AND, E_OR, E_XOR};
    if (!a.e && !b.e) {
        u64 r, x = a.v, y = b.v;
        switch (op) {
        case O_ADD: r = x + y; break; case O_SUB: r = x - y; break; case O_MUL: r = x * y; break;
        case O_AND: r = x & y; break; case O_OR: r = x | y; break; case O_XOR: r = x ^ y; break;
        case O_SHL: r = y >= (u64)w ? 0 : x << y; break; case O_LSHR: r = y >= (u64)w ? 0 : x >> y; break;
        case O_UDIV: if (!y) endPath("memerr", "division by zero (undefined behaviour)"); r = x / y; break;
        case O_UREM: if (!y) endPath("memerr", "division by zero (undefined behaviour)"); r = x % y; break;
        default: r = (u64)evop(mp[op], w, w, x, y, 0);
        }
        return {r & mask64(w), nullptr};
    }
    if (a.e && b.e && (op == O_MUL || op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM) && w <= 64) {
        // no products or quotients of two unknowns: one path per value of the second
        Slot t = b; u64 v = concretize(t, w); return binop(op, a, Slot{v, nullptr}, w);
    }
    Slot o; setE(o, mk2(mp[op], toE(a, w), toE(b, w))); return o;
}
static inline Slot icmp(int pred, const Slot &a, const Slot &b, int w) {
    if (!a.e && !b.e) {
        u64 x = a.v, y = b.v; bool r;
        switch (pred) {
        case LLVMIntEQ: r = x == y; break; case LLVMIntNE: r = x != y; break;
        case LLVMIntUGT: r = x > y; break; case LLVMIntUGE: r = x >= y; break; case LLVMIntULT: r = x < y; break; case LLVMIntULE: r = x <= y; break;
        case LLVMIntSGT: r = sx(x, w) > sx(y, w); break; case LLVMIntSGE: r = sx(x, w) >= sx(y, w); break; case LLVMIntSLT: r = sx(x, w) < sx(y, w); break; default: r = sx(x, w) <= sx(y, w);
        }
        return {r, nullptr};
    }
    Expr *x = toE(a, w), *y = toE(b, w), *r;
    switch (pred) {
    case LLVMIntEQ: r = mk2(E_EQ, x, y); break; case LLVMIntNE: r = mkNot(mk2(E_EQ, x, y)); break;
    case LLVMIntUGT: r = mk2(E_ULT, y, x); break; case LLVMIntUGE: r = mk2(E_ULE, y, x); break; case LLVMIntULT: r = mk2(E_ULT, x, y); break; case LLVMIntULE: r = mk2(E_ULE, x, y); break;
    case LLVMIntSGT: r = mk2(E_SLT, y, x); break; case LLVMIntSGE: r = mk2(E_SLE, y, x); break; case LLVMIntSLT: r = mk2(E_SLT, x, y); break; default: r = mk2(E_SLE, x, y);
    }
    Slot o; setE(o, r); return o;
}
static inline Slot cast(Op op, const Slot &a, int w2, int w) {
    if (!a.e && w <= 64) {
        switch (op) { case O_ZEXT: return {a.v, nullptr}; case O_SEXT: return {(u64)sx(a.v, w2) & mask64(w), nullptr}; default: return {a.v & mask64(w), nullptr}; }
    }
    Expr *e = toE(a, w2); Slot o;
    setE(o, op == O_ZEXT ? mkZext(e, w) : op == O_SEXT ? mkSext(e, w) : mkExtract(e, 0, w)); return o;
}
static double asD(u64 v, int w) { if (w == 64) { double d; memcpy(&d, &v, 8); return d; } float f; u32 x = v; memcpy(&f, &x, 4); return f; }
static u64 fromD(double d, int w) { u64 v = 0; if (w == 64) memcpy(&v, &d, 8); else { float f = d; memcpy(&v, &f, 4); } return v; }

// Calls an external; returns false when a frame was pushed instead.
static void external(Func *f, const CallI &ci, Slot *R, const vector<Slot> &pool, i32 rd) {
    auto at = [&](i32 r, int k = 0) -> const Slot & { return r >= 0 ? R[r + k] : pool[-(r - k) - 1]; };
    auto arg = [&](int i) -> Slot { return at(ci.args[i].first); };
    auto argC = [&](int i) -> u64 { Slot s = arg(i); if (!s.e) return s.v; return concretize(s, s.e->w); };
    auto ret = [&](u64 v) { if (rd >= 0) { R[rd].v = v; R[rd].e = nullptr; } };
    auto retS = [&](const Slot &s) { if (rd >= 0) R[rd] = s; };
    auto retE = [&](Expr *e) { if (rd >= 0) setE(R[rd], e); };
    int n = ci.rt->s.size(), w = n ? ci.rt->s[0].w : 0;
    auto each2 = [&](auto fn) { for (int k = 0; k < n; k++) { Slot a = at(ci.args[0].first, k), b = at(ci.args[1].first, k); R[rd + k] = fn(a, b, ci.rt->s[k].w); } };
    switch (f->h) {
    case H_MALLOC: ret(heapAlloc(argC(0))); return;
    case H_CALLOC: ret(heapAlloc(argC(0) * argC(1))); return;
    case H_FREE: heapFree(argC(0)); return;
    case H_REALLOC: {
        u64 p = argC(0), k = argC(1); if (!p) { ret(heapAlloc(k)); return; }
        Obj *o = S->find(p); if (!o || offOf(p)) memErr("invalid realloc", p, k);
        u64 q = heapAlloc(k); if (q) { copyMem(q, p, std::min(k, o->size)); heapFree(p); } ret(q); return;
    }
    case H_PMEMALIGN: { u64 q = heapAlloc(argC(2)); Slot s{q, nullptr}; u64 a = argC(0); storeInt(chkW(a, 8), offOf(a), 8, 64, s); ret(q ? 0 : 12); return; }
    case H_MEMCPY: case H_MEMMOVE: { u64 d = argC(0), s = argC(1), k = argC(2); copyMem(d, s, k); if (f->name[0] == 'm') ret(d); return; }
    case H_MEMSET: {
        u64 d = argC(0), k = argC(2); Slot v = arg(1);
        if (k) { Obj *o = chkW(d, k); u64 off = offOf(d);
            if (!v.e) { for (u64 i = 0; i < k;) { u64 in = (off + i) % CH, q = std::min(k - i, CH - in); u32 ci2 = (off + i) / CH;
                    if (!(v.v & 255) && !o->ch[ci2]) { i += q; continue; }
                    Chunk *c = wrChunk(o, ci2); if (c->nsym) for (u64 j = 0; j < q; j++) wrByte(o, off + i + j, v.v, nullptr); else memset(c->data + in, (int)(v.v & 255), q); i += q; } }
            else { Expr *e = mkExtract(v.e, 0, 8); for (u64 i = 0; i < k; i++) wrByte(o, off + i, 0, e); } }
        if (f->name[0] == 'm') ret(d); return;
    }
    case H_MEMCMP: case H_BCMP: {
        u64 a = argC(0), b = argC(1), k = argC(2); if (!k) { ret(0); return; }
        Obj *oa = chkR(a, k), *ob = chkR(b, k); bool sy = false; int r = 0; 
        vector<Expr *> ea(k), eb(k); vector<u8> ba(k), bb(k);
        for (u64 i = 0; i < k; i++) { ba[i] = rdByte(oa, offOf(a) + i, &ea[i]); bb[i] = rdByte(ob, offOf(b) + i, &eb[i]); if (ea[i] || eb[i]) sy = true; }
        if (!sy) { for (u64 i = 0; i < k && !r; i++) r = (int)ba[i] - (int)bb[i]; ret((u32)(r < 0 ? -1 : r > 0 ? 1 : 0)); return; }
        Expr *res = mkC(0, 32);
        for (i64 i = k - 1; i >= 0; i--) {
            Expr *x = ea[i] ? ea[i] : mkC(ba[i], 8), *y = eb[i] ? eb[i] : mkC(bb[i], 8);
            if (f->h == H_BCMP) res = mkIte(mk2(E_EQ, x, y), res, mkC(1, 32));
            else res = mkIte(mk2(E_EQ, x, y), res, mkIte(mk2(E_ULT, x, y), mkC(0xffffffff, 32), mkC(1, 32)));
        }
        retE(res); return;
    }
    case H_STRLEN: { u64 a = argC(0), k = 0; for (;; k++) { Slot s; loadInt(chkR(a + k, 1), offOf(a + k), 1, 8, s); u64 v = concretize(s, 8); if (!v) break; } ret(k); return; }
    case H_MEMCHR: { u64 a = argC(0), k = argC(2); u8 c = argC(1); for (u64 i = 0; i < k; i++) { Slot s; loadInt(chkR(a + i, 1), offOf(a + i), 1, 8, s); if (concretize(s, 8) == c) { ret(a + i); return; } } ret(0); return; }
    case H_WRITE: {
        u64 fd = argC(0), p = argC(1), k = argC(2); string m; if (getenv("SYM_ECHO") && readStr(p, k, m)) fprintf(stderr, "[out%d] %s", (int)fd, m.c_str()); ret(k); return; }
    case H_WRITEV: { u64 p = argC(1), c = argC(2), t = 0; for (u64 i = 0; i < c; i++) { Slot b, s; loadInt(chkR(p + i * 16 + 8, 8), offOf(p + i * 16 + 8), 8, 64, s); loadInt(chkR(p + i * 16, 8), offOf(p + i * 16), 8, 64, b); t += s.v; string m; if (getenv("SYM_ECHO") && readStr(b.v, s.v, m)) fprintf(stderr, "[outv] %s", m.c_str()); } ret(t); return; }
    case H_GETRANDOM: { u64 p = argC(0), k = argC(1); for (u64 i = 0; i < k; i++) wrByte(chkW(p + i, 1), offOf(p + i), 0x5a, nullptr); ret(k); return; }
    case H_ZERO: case H_NOP: if (rd >= 0 && n) ret(0); return;
    case H_NEG1: ret(~0ull & mask64(w)); return;
    case H_PTHREAD_SELF: ret(1); return;
    case H_GETENV: ret(0); return;
    case H_ABORT: endPath("abort", "abort() " + backtrace(8));
    case H_TRAP: endPath("abort", "trap " + backtrace(8));
    case H_CLOCK: { u64 p = argC(1); Slot a{1000, nullptr}, b{0, nullptr}; storeInt(chkW(p, 8), offOf(p), 8, 64, a); storeInt(chkW(p + 8, 8), offOf(p + 8), 8, 64, b); ret(0); return; }
    case H_ERRNO: { static const u64 key = 0; (void)key; if (!S->flags[1]) { S->flags[1] = heapAlloc(8); } ret(S->flags[1]); return; }
    // ---- harness interface
    case H_SYM_U8: { Expr *v = newVar(8); retE(v); return; }
    case H_SYM_U64: { Expr *v = newVar(64); retE(v); return; }
    case H_SYM_RANGE: { u64 lo = argC(0) & 255, hi = argC(1) & 255; if (lo > hi) endPath("assume", ""); Expr *v = newVar(8); S->m.v[S->vars.back()] = lo; 
        if (lo == hi) { addC(mk2(E_EQ, v, mkC(lo, 8))); ret(lo); return; }
        addC(mk2(E_ULE, v, mkC(hi, 8))); addC(mk2(E_ULE, mkC(lo, 8), v)); retE(v); return; }
    case H_SYM_CHOOSE: {
        u64 k = argC(0) & 255; if (!k) endPath("assume", "");
        // one state per value; the solver need not be asked, the variable is fresh
        Expr *v = newVar(8); int ix = S->vars.back();
        for (u64 i = k; i-- > 1;) { State *t = new State(*S); t->cs.push_back(mk2(E_EQ, v, mkC(i, 8))); t->m.v[ix] = i; t->depth++; gForks++;
            Frame &fr = t->fr.back(); if (rd >= 0) { t->reg[fr.base + rd].v = i; t->reg[fr.base + rd].e = nullptr; } fr.pc++; pending.push_back(t); }
        addC(mk2(E_EQ, v, mkC(0, 8))); S->m.v[ix] = 0; ret(0); return;
    }
    case H_SYM_CONC: { Slot s = arg(0); u64 v = s.e ? concretize(s, s.e->w) : s.v; ret(v); return; }
    case H_SYM_ISCONST: { Slot s = arg(0); ret(s.e && !isC(s.e) ? 0 : 1); return; }
    case H_SYM_ASSUME: {
        Slot s = arg(0);
        if (!s.e) { if (!(s.v & 1)) endPath("assume", ""); return; }
        Expr *c = mkExtract(s.e, 0, 1); if (isC(c)) { if (!c->aux) endPath("assume", ""); return; }
        if (!evalM(c, S->m)) { Model mm = S->m; if (!SV->check(S->cs, c, mm)) endPath("assume", ""); S->m = mm; }
        addC(c); return;
    }
    case H_SYM_FAIL: endPath("fail", "", argC(0));
    case H_SYM_ASSERT: {
        Slot s = arg(0); u64 id = argC(1); extern u64 gAsserts; gAsserts++;
        if (!s.e) { if (!(s.v & 1)) endPath("fail", "", id); return; }
        Expr *c = mkExtract(s.e, 0, 1); if (isC(c)) { if (!c->aux) endPath("fail", "", id); return; }
        Expr *nc = mkNot(c); Model mm = S->m;
        if (SV->check(S->cs, nc, mm)) { // counterexample: report it, go on with the rest
            Model m2 = S->m; bool ok = true; if (!evalM(c, m2)) ok = SV->check(S->cs, c, m2);
            if (!ok) { S->m = mm; addC(nc); endPath("fail", "", id); }
            State *t = cloneWith(c, m2); t->fr.back().pc++; pending.push_back(t); 
            S->m = mm; addC(nc); endPath("fail", "", id);
        }
        return;
    }
    // Asks the solver whether the condition can be true / can be false (bit 0 / bit 1), without forking.
    case H_SYM_DECIDE: {
        Slot s = arg(0); if (!s.e) { ret(s.v & 1 ? 1 : 2); return; }
        Expr *c = mkExtract(s.e, 0, 1); if (isC(c)) { ret(c->aux ? 1 : 2); return; }
        Model m1 = S->m, m2 = S->m; u64 r = 0; if (SV->check(S->cs, c, m1)) r |= 1; if (SV->check(S->cs, mkNot(c), m2)) r |= 2; ret(r); return;
    }
    case H_SYM_COVER: { u64 id = argC(0); for (u32 c : S->covers) if (c == id) return; S->covers.push_back(id); return; }
    case H_SYM_OBS: S->obs.push_back(arg(0)); return;
    case H_SYM_DBG: { Slot s = arg(0); if (getenv("SYM_ECHO")) fprintf(stderr, "[dbg] %s\n", s.e ? exprStr(s.e).c_str() : std::to_string(s.v).c_str()); return; }
    // ---- intrinsics
    case H_MAX: each2([](Slot a, Slot b, int w) { if (!a.e && !b.e) return Slot{std::max(a.v, b.v), nullptr}; Expr *x = toE(a, w), *y = toE(b, w); Slot o; setE(o, mkIte(mk2(E_ULT, x, y), y, x)); return o; }); return;
    case H_MIN: each2([](Slot a, Slot b, int w) { if (!a.e && !b.e) return Slot{std::min(a.v, b.v), nullptr}; Expr *x = toE(a, w), *y = toE(b, w); Slot o; setE(o, mkIte(mk2(E_ULT, x, y), x, y)); return o; }); return;
    case H_SMAX: each2([](Slot a, Slot b, int w) { Expr *x = toE(a, w), *y = toE(b, w); Slot o; setE(o, mkIte(mk2(E_SLT, x, y), y, x)); return o; }); return;
    case H_SMIN: each2([](Slot a, Slot b, int w) { Expr *x = toE(a, w), *y = toE(b, w); Slot o; setE(o, mkIte(mk2(E_SLT, x, y), x, y)); return o; }); return;
    case H_UADDO: case H_USUBO: case H_UMULO: case H_SADDO: case H_SSUBO: case H_SMULO: {
        Slot a = arg(0), b = arg(1); bool sg = f->h >= H_SADDO; int k = f->h - (sg ? H_SADDO : H_UADDO);
        if (!a.e && !b.e && w <= 64) {
            u64 r; bool o;
            if (!sg) {
                if (k == 0) { u128 x = (u128)a.v + b.v; r = x; o = (x >> w) != 0; }
                else if (k == 1) { r = a.v - b.v; o = a.v < b.v; }
                else { u128 x = (u128)a.v * b.v; r = x; o = (x >> w) != 0; }
            } else {
                __int128 x = sx(a.v, w), y = sx(b.v, w), z = k == 0 ? x + y : k == 1 ? x - y : x * y; r = (u64)z; o = z != (__int128)sx(r & mask64(w), w);
            }
            R[rd] = {r & mask64(w), nullptr}; R[rd + 1] = {o, nullptr}; return;
        }
        if (w > 64) endPath("limit", "overflow op width");
        if (k == 2 && a.e && b.e) { b.v = concretize(b, w); b.e = nullptr; }
        if (k == 2 && !a.e) std::swap(a, b);
        Expr *x = toE(a, w), *y = toE(b, w);
        if (k == 2 && !sg && !b.e) {
            // x * constant overflows exactly when x > max / constant
            setE(R[rd], mk2(E_MUL, x, y));
            if (!b.v) R[rd + 1] = {0, nullptr}; else setE(R[rd + 1], mk2(E_ULT, mkC(mask64(w) / b.v, w), x));
            return;
        }
        EK op = k == 0 ? E_ADD : k == 1 ? E_SUB : E_MUL; int ww = k == 2 ? w * 2 : w + 1;
        Expr *xe = sg ? mkSext(x, ww) : mkZext(x, ww), *ye = sg ? mkSext(y, ww) : mkZext(y, ww);
        Expr *z = mk2(op, xe, ye), *r = mk2(op, x, y);
        Expr *o = (!sg && k == 1) ? mk2(E_ULT, x, y) : (!sg && k == 0) ? mk2(E_ULT, r, x) : mkNot(mk2(E_EQ, z, sg ? mkSext(r, ww) : mkZext(r, ww)));
        setE(R[rd], r); setE(R[rd + 1], o); return;
    }
    case H_USUBSAT: each2([](Slot a, Slot b, int w) { Expr *x = toE(a, w), *y = toE(b, w); Slot o; setE(o, mkIte(mk2(E_ULT, x, y), mkC(0, w), mk2(E_SUB, x, y))); return o; }); return;
    case H_UADDSAT: each2([](Slot a, Slot b, int w) { Expr *x = toE(a, w), *y = toE(b, w); Slot o; Expr *r = mk2(E_ADD, x, y); setE(o, mkIte(mk2(E_ULT, r, x), mkC(~(u128)0, w), r)); return o; }); return;
    case H_CTLZ: case H_CTTZ: {
        Slot a = arg(0);
        if (!a.e) { u64 v = a.v & mask64(w); ret(v == 0 ? w : f->h == H_CTLZ ? (u64)__builtin_clzll(v) - (64 - w) : (u64)__builtin_ctzll(v)); return; }
        Expr *r = mkC(w, w);
        if (f->h == H_CTTZ) for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(a.e, i, 1), mkC(i, w), r);
        else for (int i = 0; i < w; i++) r = mkIte(mkExtract(a.e, i, 1), mkC(w - 1 - i, w), r);
        retE(r); return;
    }
    case H_CTPOP: for (int k = 0; k < n; k++) {
        Slot a = at(ci.args[0].first, k); int w = ci.rt->s[k].w; if (!a.e) { R[rd + k] = {(u64)__builtin_popcountll(a.v), nullptr}; continue; }
        Expr *r = mkC(0, w); for (int i = 0; i < w; i++) r = mk2(E_ADD, r, mkZext(mkExtract(a.e, i, 1), w)); setE(R[rd + k], r); } return;
    case H_FSHL: case H_FSHR: {
        for (int k = 0; k < n; k++) {
            Slot a = at(ci.args[0].first, k), b = at(ci.args[1].first, k), c = at(ci.args[2].first, k); int w = ci.rt->s[k].w; u64 sh = (c.e ? concretize(c, w) : c.v) % w;
            if (f->h == H_FSHR) sh = (w - sh) % w + (sh == 0 ? 0 : 0);
            if (f->h == H_FSHR && sh == 0) { R[rd + k] = b; continue; }
            if (sh == 0) { R[rd + k] = a; continue; }
            Slot x = binop(O_SHL, a, {sh, nullptr}, w), y = binop(O_LSHR, b, {w - sh, nullptr}, w); R[rd + k] = binop(O_OR, x, y, w);
        }
        return;
    }
    case H_BSWAP: { Slot a = arg(0); if (!a.e) { ret(__builtin_bswap64(a.v) >> (64 - w)); return; } Expr *r = nullptr; for (int i = 0; i < w; i += 8) { Expr *b = mkExtract(a.e, i, 8); r = r ? mkConcat(r, b) : b; } retE(r); return; }
    case H_BITREV: { Slot a = arg(0); Expr *e = toE(a, w), *r = nullptr; for (int i = 0; i < w; i++) { Expr *b = mkExtract(e, i, 1); r = r ? mkConcat(r, b) : b; } retE(r); return; }
    case H_ABS: { Slot a = arg(0); Expr *e = toE(a, w); retE(mkIte(mk2(E_SLT, e, mkC(0, w)), mk2(E_SUB, mkC(0, w), e), e)); return; }
    case H_UCMP: case H_SCMP: {
        Slot a = arg(0), b = arg(1); int aw = ty(LLVMTypeOf(LLVMGetOperand(ci.v, 0)))->s[0].w; Expr *x = toE(a, aw), *y = toE(b, aw);
        Expr *lt = mk2(f->h == H_UCMP ? E_ULT : E_SLT, x, y), *eq = mk2(E_EQ, x, y); retE(mkIte(eq, mkC(0, w), mkIte(lt, mkC(~(u128)0, w), mkC(1, w)))); return;
    }
    case H_ISCONST: ret(0); return;
    case H_EXPECT: case H_TLADDR: retS(arg(0)); return;
    case H_PTRMASK: retS(binop(O_AND, arg(0), arg(1), 64)); return;
    case H_POW: { double x = asD(argC(0), 64), y = asD(argC(1), 64); ret(fromD(pow(x, y), 64)); return; }
    case H_LOG2: ret(fromD(log2(asD(argC(0), 64)), 64)); return;
    case H_FLOOR: ret(fromD(floor(asD(argC(0), 64)), 64)); return;
    case H_CEIL: ret(fromD(ceil(asD(argC(0), 64)), 64)); return;
    case H_FABS: ret(fromD(fabs(asD(argC(0), w)), w)); return;
    case H_FPTOUISAT: { double d = asD(argC(0), ty(LLVMTypeOf(LLVMGetOperand(ci.v, 0)))->s[0].w); u64 r = d != d || d <= 0 ? 0 : d >= ldexp(1, w) ? mask64(w) : (u64)d; ret(r); return; }
    case H_FPTOSISAT: { double d = asD(argC(0), ty(LLVMTypeOf(LLVMGetOperand(ci.v, 0)))->s[0].w); i64 r = d != d ? 0 : d <= -ldexp(1, w - 1) ? (i64)(~0ull << (w - 1)) : d >= ldexp(1, w - 1) ? (i64)(mask64(w - 1)) : (i64)d; ret((u64)r & mask64(w)); return; }
    case H_VREDOR: case H_VREDAND: case H_VREDADD: { int k = ci.args[0].second; Slot r = at(ci.args[0].first, 0); for (int i = 1; i < k; i++) r = binop(f->h == H_VREDOR ? O_OR : f->h == H_VREDAND ? O_AND : O_ADD, r, at(ci.args[0].first, i), w); retS(r); return; }
    default: endPath("unsupported", "external function " + f->name + " " + backtrace(6));
    }
}

static void pushFrame(Func *f, i32 rd) {
    decode(f); f->entered++;
    if (S->fr.size() > 20000) endPath("stack", "call depth > 20000: " + backtrace(6));
    Frame fr; fr.f = f; fr.pc = 0; fr.base = S->reg.size(); fr.rd = rd; fr.st0 = S->stk.size();
    S->fr.push_back(fr); S->reg.resize(fr.base + f->nregs);
}
static void panicEnd(Func *f, const CallI &ci, Slot *R, const vector<Slot> &pool) {
    string msg; auto at = [&](i32 r, int k) -> const Slot & { return r >= 0 ? R[r + k] : pool[-(r - k) - 1]; };
    vector<u64> av; for (auto &a : ci.args) for (int k = 0; k < a.second; k++) { const Slot &s = at(a.first, k); av.push_back(s.e ? 0 : s.v); }
    for (size_t i = 0; i < av.size(); i++) {
        string t; Obj *o = S->find(av[i]);
        if (!o) continue;
        if (i + 1 < av.size() && av[i + 1] > 0 && av[i + 1] < 400 && readStr(av[i], av[i + 1], t)) { msg += t + " "; i++; continue; }
        if (o->size - offOf(av[i]) >= 24) { // Location { ptr, len, line, col }
            Slot p, l, ln; loadInt(o, offOf(av[i]), 8, 64, p); loadInt(o, offOf(av[i]) + 8, 8, 64, l); loadInt(o, offOf(av[i]) + 16, 4, 32, ln);
            string file; u64 len = l.v; if (!p.e && !l.e && len && len < 300 && readStr(p.v, len, file) && file.find(".rs") != string::npos) {
                while (!file.empty() && file.back() == 0) file.pop_back();
                msg += "at " + file + ":" + std::to_string(ln.v) + " "; }
        }
    }
    endPath("panic", msg + "| " + f->name + " < " + backtrace(8));
}
static void housekeeping();

static void step_loop() {
    for (;;) {
        Frame *fr = &S->fr.back(); Func *f = fr->f; Slot *R = &S->reg[fr->base]; const Slot *P = f->pool.data(); const Inst *code = f->code.data();
        u32 pc = fr->pc;
        #define SL(r) ((r) >= 0 ? R[r] : P[-(r) - 1])
        #define SLK(r, k) ((r) >= 0 ? R[(r) + (k)] : P[-((r) - (k)) - 1])
        for (;;) {
            const Inst &I = code[pc];
            fr->pc = pc;
            S->icount++;
            if (++gInstr >= hkNext) { if (S->icount > MAXINST) endPath("limit", "instruction limit " + backtrace(10)); housekeeping(); }
            switch (I.op) {
            case O_NOP: break;
            case O_ADD: case O_SUB: case O_MUL: case O_UDIV: case O_SDIV: case O_UREM: case O_SREM: case O_SHL: case O_LSHR: case O_ASHR: case O_AND: case O_OR: case O_XOR:
                R[I.d] = binop(I.op, SL(I.a), SL(I.b), I.w); break;
            case O_ICMP: R[I.d] = icmp(I.sub, SL(I.a), SL(I.b), I.w2); break;
            case O_ZEXT: case O_SEXT: case OP_TRUNC: R[I.d] = cast(I.op, SL(I.a), I.w2, I.w); break;
            case O_MOV: R[I.d] = SL(I.a); break;
            case O_COPYN: for (int k = 0; k < I.n; k++) R[I.d + k] = SLK(I.a, k); break;
            case O_VOP: for (int k = 0; k < I.n; k++) R[I.d + k] = binop((Op)I.sub, SLK(I.a, k), SLK(I.b, k), I.w); break;
            case O_VICMP: for (int k = 0; k < I.n; k++) R[I.d + k] = icmp(I.sub, SLK(I.a, k), SLK(I.b, k), I.w2); break;
            case O_VCAST: for (int k = 0; k < I.n; k++) R[I.d + k] = cast((Op)I.sub, SLK(I.a, k), I.w2, I.w); break;
            case O_SELECT: {
                Slot c = SL(I.a);
                if (!c.e) { i32 s = c.v ? I.b : I.c; for (int k = 0; k < I.n; k++) R[I.d + k] = SLK(s, k); }
                else {
                    TyInfo *t = tyref[I.x];
                    for (int k = 0; k < I.n; k++) { Slot a = SLK(I.b, k), b = SLK(I.c, k); int w = t->s[k].w; if (!a.e && !b.e && a.v == b.v && w <= 64) R[I.d + k] = a; else { Slot o; setE(o, mkIte(c.e, toE(a, w), toE(b, w))); R[I.d + k] = o; } }
                }
                break;
            }
            case O_VSELECT: { TyInfo *t = tyref[I.x]; for (int k = 0; k < I.n; k++) { Slot c = SLK(I.a, k), a = SLK(I.b, k), b = SLK(I.c, k); if (!c.e) R[I.d + k] = c.v ? a : b; else { Slot o; int w = t->s[k].w; setE(o, mkIte(c.e, toE(a, w), toE(b, w))); R[I.d + k] = o; } } break; }
            case O_BITCAST: {
                TyInfo *a = tyref[I.x], *b = tyref[I.y]; bool sy = false; for (size_t k = 0; k < a->s.size(); k++) if (SLK(I.a, k).e) sy = true;
                if (!sy) {
                    u8 buf[128] = {0}; int bit = 0;
                    for (size_t k = 0; k < a->s.size(); k++) { u64 v = SLK(I.a, k).v; for (int j = 0; j < a->s[k].w; j++, bit++) if (v >> j & 1) buf[bit / 8] |= 1 << (bit % 8); }
                    bit = 0;
                    for (size_t k = 0; k < b->s.size(); k++) { int w = b->s[k].w; if (w > 64) { u128 v = 0; for (int j = 0; j < w; j++, bit++) if (buf[bit / 8] >> (bit % 8) & 1) v |= (u128)1 << j; R[I.d + k].v = 0; R[I.d + k].e = mkC(v, w); }
                        else { u64 v = 0; for (int j = 0; j < w; j++, bit++) if (buf[bit / 8] >> (bit % 8) & 1) v |= 1ull << j; R[I.d + k] = {v, nullptr}; } }
                } else {
                    Expr *e = nullptr; for (size_t k = 0; k < a->s.size(); k++) { Expr *x = toE(SLK(I.a, k), a->s[k].w); e = e ? mkConcat(x, e) : x; }
                    if (e->w > 128) endPath("limit", "wide bitcast");
                    int lo = 0; for (size_t k = 0; k < b->s.size(); k++) { int w = b->s[k].w; setE(R[I.d + k], mkExtract(e, lo, w)); lo += w; }
                }
                break;
            }
            case O_LOAD: {
                const Slot &a = SL(I.a);
                if (!a.e) { Obj *o = chkR(a.v, I.imm); loadInt(o, offOf(a.v), I.imm, I.w, R[I.d]); }
                else { Slot t = a; loadAt(t, I.imm, I.w, R[I.d]); }
                break;
            }
            case O_LOADX: {
                Slot a = SL(I.a); u64 ad = conAddr(a); TyInfo *t = tyref[I.x];
                if (!I.n) break;
                Obj *o = chkR(ad, t->store);
                if (t->bitvec) { Slot v; int nb = t->s.size(); loadInt(o, offOf(ad), (nb + 7) / 8, nb, v); for (int k = 0; k < nb; k++) { if (v.e) setE(R[I.d + k], mkExtract(v.e, k, 1)); else R[I.d + k] = {v.v >> k & 1, nullptr}; } }
                else for (int k = 0; k < I.n; k++) { int w = t->s[k].w; loadInt(o, offOf(ad) + t->s[k].off, (w + 7) / 8, w, R[I.d + k]); if (w > 64 && !R[I.d + k].e) R[I.d + k].e = mkC(R[I.d + k].v, w); }
                break;
            }
            case O_STORE: { Slot a = SL(I.a); u64 ad = conAddr(a); Obj *o = chkW(ad, I.imm); storeInt(o, offOf(ad), I.imm, I.w, SL(I.b)); break; }
            case O_STOREX: {
                Slot a = SL(I.a); u64 ad = conAddr(a); TyInfo *t = tyref[I.x];
                if (!I.n) break;
                Obj *o = chkW(ad, t->store);
                if (t->bitvec) { int nb = t->s.size(); u64 v = 0; for (int k = 0; k < nb; k++) { Slot s = SLK(I.b, k); if (s.e) concretize(s, 1); v |= s.v << k; } Slot q{v, nullptr}; storeInt(o, offOf(ad), (nb + 7) / 8, nb, q); }
                else for (int k = 0; k < I.n; k++) { int w = t->s[k].w; storeInt(o, offOf(ad) + t->s[k].off, (w + 7) / 8, w, SLK(I.b, k)); }
                break;
            }
            case O_GEP: {
                Slot r = SL(I.a); r = r.e ? binop(O_ADD, r, {I.imm, nullptr}, 64) : Slot{r.v + I.imm, nullptr};
                for (i32 k = I.x; k < I.y; k++) {
                    const GepIdx &g = f->geps[k]; const Slot &ix = SL(g.s);
                    if (!ix.e && !r.e) r.v += (u64)sx(ix.v, g.w) * g.scale;
                    else { Slot e = g.w == 64 ? ix : cast(O_SEXT, ix, g.w, 64); Slot p = binop(O_MUL, e, {g.scale, nullptr}, 64); r = binop(O_ADD, r, p, 64); }
                }
                R[I.d] = r; break;
            }
            case O_ALLOCA: { u64 n = SL(I.a).v; S->stk.push_back(newObj(n * I.imm, OK_STACK)); R[I.d] = {mkAddr(ID_ST + S->stk.size() - 1, 0), nullptr}; break; }
            case O_CBR: case O_BR: case O_SWITCH: {
                i32 ed;
                if (I.op == O_BR) ed = I.x;
                else if (I.op == O_CBR) { const Slot &c = SL(I.a); bool v = c.e ? branch(c.e) : (c.v & 1); ed = v ? I.x : I.y; }
                else {
                    Slot c = SL(I.a); ed = I.y;
                    if (c.e) {
                        // one state per distinct target
                        u64 v = (u64)evalM(c.e, S->m); i32 tgt = I.y;
                        for (i32 k = 0; k < I.n; k++) if (f->cases[I.x + k].v == v) { tgt = f->cases[I.x + k].edge; break; }
                        Expr *cond = nullptr; i32 tpc = f->edges[tgt].target; bool def = tgt == I.y;
                        bool samePhi = f->edges[tgt].m0 == f->edges[tgt].m1;
                        if (def) { for (i32 k = 0; k < I.n; k++) { Expr *q = mkNot(mk2(E_EQ, c.e, mkC(f->cases[I.x + k].v, I.w))); cond = cond ? mk2(E_AND, cond, q) : q; } if (!cond) cond = mkC(1, 1); }
                        else if (!samePhi) cond = mk2(E_EQ, c.e, mkC(v, I.w));
                        else for (i32 k = 0; k < I.n; k++) if (f->edges[f->cases[I.x + k].edge].target == tpc) { Expr *q = mk2(E_EQ, c.e, mkC(f->cases[I.x + k].v, I.w)); cond = cond ? mk2(E_OR, cond, q) : q; }
                        branch(cond); ed = tgt;
                    } else for (i32 k = 0; k < I.n; k++) if (f->cases[I.x + k].v == c.v) { ed = f->cases[I.x + k].edge; break; }
                }
                const Edge &e = f->edges[ed]; int nm = e.m1 - e.m0;
                if (nm) {
                    const Move *mv = &f->moves[e.m0];
                    if (nm == 1) R[mv->d] = SL(mv->s);
                    else { Slot tmp[64]; Slot *t = nm <= 64 ? tmp : new Slot[nm]; for (int k = 0; k < nm; k++) t[k] = SL(mv[k].s); for (int k = 0; k < nm; k++) R[mv[k].d] = t[k]; if (t != tmp) delete[] t; }
                }
                pc = e.target; fr->pc = pc; f->hit[pc] = 1; continue;
            }
            case O_RET: {
                i32 rd = fr->rd; int n = I.n; Slot tmp[32]; Slot *t = n <= 32 ? tmp : new Slot[n];
                for (int k = 0; k < n; k++) t[k] = SLK(I.a, k);
                while (S->stk.size() > fr->st0) { relObj(S->stk.back()); S->stk.pop_back(); }
                S->reg.resize(fr->base); S->fr.pop_back();
                if (S->fr.empty()) endPath("ok", "");
                Frame &c = S->fr.back(); if (rd >= 0) for (int k = 0; k < n; k++) S->reg[c.base + rd + k] = t[k];
                if (t != tmp) delete[] t;
                c.pc++; goto reframe;
            }
            case O_UNREACH: endPath("memerr", "unreachable code reached (undefined behaviour) " + backtrace(8));
            case O_CALL: {
                const CallI &ci = calls[I.x]; Func *cf = ci.callee;
                if (!cf) {
                    Slot p = SL(ci.fp); u64 a = conAddr(p); u32 id = a >> 32; if (id < ID_FN || id >= ID_FN + funcs.size() || offOf(a)) memErr("indirect call", a, 0);
                    cf = funcs[id - ID_FN];
                }
                if (cf->panicKind == 1) panicEnd(cf, ci, R, f->pool);
                if (cf->decl) { external(cf, ci, R, f->pool, I.d); break; }
                u32 base0 = fr->base;
                pushFrame(cf, I.d);
                Slot *Q = &S->reg[S->fr.back().base]; Slot *R0 = &S->reg[base0];
                for (size_t k = 0; k < ci.args.size() && k < cf->args.size(); k++) for (int q = 0; q < ci.args[k].second; q++) { i32 r = ci.args[k].first; Q[cf->args[k] + q] = r >= 0 ? R0[r + q] : f->pool[-(r - q) - 1]; }
                goto reframe;
            }
            case O_EXTRACTELT: { Slot ix = SL(I.b); u64 k = ix.e ? concretize(ix, ix.e->w) : ix.v; if (k >= (u64)I.x) endPath("memerr", "extractelement index"); for (int q = 0; q < I.n; q++) R[I.d + q] = SLK(I.a, (int)k); break; }
            case O_INSERTELT: { Slot ix = SL(I.c); u64 k = ix.e ? concretize(ix, ix.e->w) : ix.v; Slot v = SL(I.b); Slot tmp[64]; for (int q = 0; q < I.n; q++) tmp[q] = SLK(I.a, q); if (k < (u64)I.n) tmp[k] = v; for (int q = 0; q < I.n; q++) R[I.d + q] = tmp[q]; break; }
            case O_SHUFFLE: { const vector<int> &m = masks[I.x]; Slot tmp[64]; for (size_t q = 0; q < m.size(); q++) { int k = m[q]; if (k < 0) tmp[q] = {0, nullptr}; else if (k < I.w2) tmp[q] = SLK(I.a, k); else tmp[q] = SLK(I.b, k - I.w2); } for (size_t q = 0; q < m.size(); q++) R[I.d + q] = tmp[q]; break; }
            case O_INSERTVAL: { vector<Slot> tmp(I.n); for (int q = 0; q < I.n; q++) tmp[q] = SLK(I.a, q); for (int q = 0; q < I.y; q++) tmp[I.x + q] = SLK(I.b, q); for (int q = 0; q < I.n; q++) R[I.d + q] = tmp[q]; break; }
            case O_CMPXCHG: {
                Slot a = SL(I.a); u64 ad = conAddr(a); int nb = (I.w + 7) / 8; Obj *o = chkR(ad, nb); Slot cur; loadInt(o, offOf(ad), nb, I.w, cur);
                Slot eq = icmp(LLVMIntEQ, cur, SL(I.b), I.w); bool t = eq.e ? branch(eq.e) : eq.v; Slot nv = SL(I.c);
                if (t) storeInt(chkW(ad, nb), offOf(ad), nb, I.w, nv);
                R[I.d] = cur; R[I.d + 1] = {t, nullptr}; break;
            }
            case O_RMW: {
                Slot a = SL(I.a); u64 ad = conAddr(a); int nb = (I.w + 7) / 8; Obj *o = chkR(ad, nb); Slot cur, v = SL(I.b), nv; loadInt(o, offOf(ad), nb, I.w, cur);
                switch (I.sub) { case LLVMAtomicRMWBinOpXchg: nv = v; break; case LLVMAtomicRMWBinOpAdd: nv = binop(O_ADD, cur, v, I.w); break; case LLVMAtomicRMWBinOpSub: nv = binop(O_SUB, cur, v, I.w); break;
                case LLVMAtomicRMWBinOpAnd: nv = binop(O_AND, cur, v, I.w); break; case LLVMAtomicRMWBinOpOr: nv = binop(O_OR, cur, v, I.w); break; case LLVMAtomicRMWBinOpXor: nv = binop(O_XOR, cur, v, I.w); break;
                default: endPath("unsupported", "atomicrmw"); }
                storeInt(chkW(ad, nb), offOf(ad), nb, I.w, nv); R[I.d] = cur; break;
            }
            case O_FOP: {
                Slot a = SL(I.a), b = SL(I.b); double x = asD(concretize(a, I.w), I.w), y = asD(concretize(b, I.w), I.w), r = 0;
                switch (I.sub) { case LLVMFAdd: r = x + y; break; case LLVMFSub: r = x - y; break; case LLVMFMul: r = x * y; break; case LLVMFDiv: r = x / y; break; case LLVMFRem: r = fmod(x, y); break; default: r = -x; }
                R[I.d] = {fromD(r, I.w), nullptr}; break;
            }
            case O_FCMP: {
                Slot a = SL(I.a), b = SL(I.b); double x = asD(concretize(a, I.w2), I.w2), y = asD(concretize(b, I.w2), I.w2); bool un = x != x || y != y, r;
                switch (I.sub) { case LLVMRealOEQ: r = x == y; break; case LLVMRealOGT: r = x > y; break; case LLVMRealOGE: r = x >= y; break; case LLVMRealOLT: r = x < y; break; case LLVMRealOLE: r = x <= y; break; case LLVMRealONE: r = !un && x != y; break;
                case LLVMRealORD: r = !un; break; case LLVMRealUNO: r = un; break; case LLVMRealUEQ: r = un || x == y; break; case LLVMRealUGT: r = un || x > y; break; case LLVMRealUGE: r = un || x >= y; break; case LLVMRealULT: r = un || x < y; break; case LLVMRealULE: r = un || x <= y; break; default: r = x != y; }
                R[I.d] = {r, nullptr}; break;
            }
            case O_FCAST: {
                Slot a = SL(I.a); u64 v = concretize(a, I.w2);
                switch (I.sub) { case LLVMUIToFP: v = fromD((double)v, I.w); break; case LLVMSIToFP: v = fromD((double)sx(v, I.w2), I.w); break; case LLVMFPToUI: v = (u64)asD(v, I.w2) & mask64(I.w); break; case LLVMFPToSI: v = (u64)(i64)asD(v, I.w2) & mask64(I.w); break; default: v = fromD(asD(v, I.w2), I.w); }
                R[I.d] = {v, nullptr}; break;
            }
            default: endPath("unsupported", string("instruction ") + LLVMPrintValueToString((LLVMValueRef)I.imm));
            }
            pc++;
        }
    reframe:;
    }
}
