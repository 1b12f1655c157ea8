// Symbolic executor for whole-program LLVM bitcode produced by rustc.
//
// Executes an entry function of the harness (linked with the real crate and
// std) on symbolic inputs; forks at feasible branches, decides feasibility and
// assertions with z3, and reports every path end.  See DESIGN.md.
#include "expr.hpp"
#include <llvm-c/Core.h>
#include <llvm-c/Target.h>
#include <map>
#include <set>
#include <string>
#include <math.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <atomic>
#include <stdarg.h>
#include <unordered_set>

extern "C" {
int LLVMParseBitcode2(LLVMMemoryBufferRef, LLVMModuleRef *);
LLVMValueRef LLVMGetSwitchCaseValue(LLVMValueRef, unsigned);
LLVMValueRef LLVMIsAUncondBrInst(LLVMValueRef);
LLVMValueRef LLVMIsACondBrInst(LLVMValueRef);
const char *LLVMGetRawDataValues(LLVMValueRef, size_t *);
}

using std::string; using std::vector;
static void die(const char *f, ...) {
    va_list ap; va_start(ap, f); fprintf(stderr, "symex: "); vfprintf(stderr, f, ap); fprintf(stderr, "\n"); fflush(stderr); _exit(3);
}

// ---------------------------------------------------------------- values
struct Slot { u64 v; Expr *e; };
static inline void setE(Slot &s, Expr *e) {
    if (isC(e) && e->w <= 64) { s.v = e->aux; s.e = nullptr; } else { s.v = 0; s.e = e; }
}
static inline Expr *toE(const Slot &s, int w) { return s.e ? s.e : mkC(s.v, w); }

struct SlotT { u32 off; u16 w; bool fp; };
struct TyInfo { vector<SlotT> s; u64 size; u64 store; bool bitvec = false; bool fp = false; };

static LLVMModuleRef M; static LLVMTargetDataRef TD;
static std::map<LLVMTypeRef, TyInfo *> tyCache;
static void flat(LLVMTypeRef t, u32 off, vector<SlotT> &o) {
    switch (LLVMGetTypeKind(t)) {
    case LLVMIntegerTypeKind: o.push_back({off, (u16)LLVMGetIntTypeWidth(t), false}); break;
    case LLVMPointerTypeKind: o.push_back({off, 64, false}); break;
    case LLVMDoubleTypeKind: o.push_back({off, 64, true}); break;
    case LLVMFloatTypeKind: o.push_back({off, 32, true}); break;
    case LLVMStructTypeKind:
        for (unsigned i = 0; i < LLVMCountStructElementTypes(t); i++)
            flat(LLVMStructGetTypeAtIndex(t, i), off + LLVMOffsetOfElement(TD, t, i), o);
        break;
    case LLVMArrayTypeKind: {
        LLVMTypeRef e = LLVMGetElementType(t); u64 sz = LLVMABISizeOfType(TD, e);
        for (u64 i = 0; i < LLVMGetArrayLength2(t); i++) flat(e, off + i * sz, o);
        break;
    }
    case LLVMVectorTypeKind: {
        LLVMTypeRef e = LLVMGetElementType(t); u64 sz = LLVMStoreSizeOfType(TD, e);
        for (u64 i = 0; i < LLVMGetVectorSize(t); i++) flat(e, off + i * sz, o);
        break;
    }
    default: break;
    }
}
static TyInfo *ty(LLVMTypeRef t) {
    auto &r = tyCache[t];
    if (!r) {
        r = new TyInfo;
        LLVMTypeKind k = LLVMGetTypeKind(t);
        if (k != LLVMVoidTypeKind && k != LLVMLabelTypeKind && k != LLVMMetadataTypeKind && k != LLVMTokenTypeKind && k != LLVMFunctionTypeKind) {
            flat(t, 0, r->s);
            r->size = LLVMABISizeOfType(TD, t); r->store = LLVMStoreSizeOfType(TD, t);
            if (k == LLVMVectorTypeKind && LLVMGetTypeKind(LLVMGetElementType(t)) == LLVMIntegerTypeKind && LLVMGetIntTypeWidth(LLVMGetElementType(t)) == 1) r->bitvec = true;
        } else r->size = r->store = 0;
    }
    return r;
}

// ---------------------------------------------------------------- memory
static const u64 CH = 1024;
struct Chunk { u32 rc; u32 nsym; Expr **sym; u32 len; u8 data[1]; };
struct Obj { u32 rc; u8 kind; u64 size; u32 nch; Chunk *ch[1]; };
enum { OK_HEAP, OK_STACK, OK_GLOBAL, OK_CONST };
static Chunk *newChunk(u32 len) {
    Chunk *c = (Chunk *)calloc(1, sizeof(Chunk) + len); c->rc = 1; c->len = len; return c;
}
static void relChunk(Chunk *c) { if (c && --c->rc == 0) { free(c->sym); free(c); } }
static Obj *newObj(u64 size, u8 kind) {
    u32 n = (size + CH - 1) / CH;
    Obj *o = (Obj *)calloc(1, sizeof(Obj) + (n ? n - 1 : 0) * sizeof(Chunk *));
    o->rc = 1; o->kind = kind; o->size = size; o->nch = n; return o;
}
static void relObj(Obj *o) { if (o && --o->rc == 0) { for (u32 i = 0; i < o->nch; i++) relChunk(o->ch[i]); free(o); } }
static inline u32 chLen(Obj *o, u32 i) { u64 r = o->size - (u64)i * CH; return r < CH ? r : CH; }
static Chunk *wrChunk(Obj *o, u32 i) {
    Chunk *c = o->ch[i];
    if (!c) return o->ch[i] = newChunk(chLen(o, i));
    if (c->rc == 1) return c;
    Chunk *d = newChunk(c->len); memcpy(d->data, c->data, c->len); d->nsym = c->nsym;
    if (c->sym && c->nsym) { d->sym = (Expr **)malloc(c->len * sizeof(Expr *)); memcpy(d->sym, c->sym, c->len * sizeof(Expr *)); }
    c->rc--; return o->ch[i] = d;
}
struct Page { u32 rc; Obj *o[64]; };
static const u32 ID_FN = 0x10000000, ID_GL = 0x20000000, ID_ST = 0x40000000;
static inline u64 mkAddr(u32 id, u64 off) { return ((u64)id << 32) + 0x1000 + off; }

// ---------------------------------------------------------------- program
enum Op : u16 {
    O_NOP, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR, O_AND, O_OR, O_XOR,
    O_ICMP, O_ZEXT, O_SEXT, OP_TRUNC, O_MOV, O_BITCAST, O_SELECT, O_VOP, O_VICMP, O_VCAST, O_VSELECT,
    O_LOAD, O_LOADX, O_STORE, O_STOREX, O_GEP, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_CALL, O_RET, O_UNREACH,
    O_EXTRACTELT, O_INSERTELT, O_SHUFFLE, O_COPYN, O_INSERTVAL, O_CMPXCHG, O_RMW, O_FOP, O_FCMP, O_FCAST, O_BAD
};
struct Move { i32 d, s; };
struct Edge { i32 target; i32 m0, m1; };  // moves [m0,m1)
struct Func;
struct Inst {
    Op op; u8 sub; u8 fl; u16 w, w2; i32 n; // n: slot count
    i32 d, a, b, c; u64 imm; i32 x, y;  // x,y: indexes into side tables
};
struct GepIdx { i32 s; u64 scale; u16 w; };
struct SwCase { u64 v; i32 edge; };
struct Func {
    string name; LLVMValueRef v; int idx; bool decl; bool decoded = false;
    vector<Inst> code; vector<Move> moves; vector<Edge> edges; vector<GepIdx> geps; vector<SwCase> cases;
    vector<i32> args; vector<u8> blkStart; vector<Slot> pool; vector<int> ilist;
    int nregs = 0; TyInfo *rt; int nparam = 0; int h = 0; // handler for externals
    int panicKind = 0; u64 entered = 0; bool crate = false; vector<u8> hit; int nblocks = 0;
};
static vector<Func *> funcs; static std::unordered_map<LLVMValueRef, Func *> fmap; static std::unordered_map<string, Func *> fname;
static std::unordered_map<LLVMValueRef, u32> gid; static vector<Obj *> gobj; static vector<string> gname; static vector<int> gmut; // mutable idx or -1
static int nMut = 0;

struct Frame { Func *f; u32 pc; u32 base; i32 rd; u32 st0; };

struct State {
    vector<Frame> fr; vector<Slot> reg; vector<Obj *> stk; vector<Page *> heap; vector<Obj *> mut;
    u32 nextHeap = 1;
    vector<Expr *> cs; Model m; int seq = 0; vector<u16> vars; // var idx per seq
    vector<Slot> obs; vector<u32> covers; vector<std::pair<string, u64>> notes; u64 icount = 0; int depth = 0;
    u64 heapLive = 0; u64 flags[8] = {0};
    State() {}
    State(const State &o) : fr(o.fr), reg(o.reg), stk(o.stk), heap(o.heap), mut(o.mut), nextHeap(o.nextHeap), cs(o.cs), m(o.m), seq(o.seq), vars(o.vars), obs(o.obs), covers(o.covers), notes(o.notes), icount(o.icount), depth(o.depth), heapLive(o.heapLive) {
        memcpy(flags, o.flags, sizeof flags);
        for (Page *p : heap) if (p) p->rc++;
        for (Obj *p : stk) if (p) p->rc++;
        for (Obj *p : mut) p->rc++;
    }
    ~State() {
        for (Obj *p : stk) relObj(p);
        for (Obj *p : mut) relObj(p);
        for (Page *p : heap) if (p && --p->rc == 0) { for (int i = 0; i < 64; i++) relObj(p->o[i]); free(p); }
    }
    Obj **heapSlot(u32 id, bool wr) {
        u32 pg = id >> 6; if (pg >= heap.size()) { if (!wr) return nullptr; heap.resize(pg + 1, nullptr); }
        Page *p = heap[pg];
        if (!p) { if (!wr) return nullptr; p = (Page *)calloc(1, sizeof(Page)); p->rc = 1; heap[pg] = p; }
        else if (wr && p->rc > 1) {
            Page *q = (Page *)malloc(sizeof(Page)); memcpy(q, p, sizeof(Page)); q->rc = 1;
            for (int i = 0; i < 64; i++) if (q->o[i]) q->o[i]->rc++;
            p->rc--; heap[pg] = p = q;
        }
        return &p->o[id & 63];
    }
    Obj *find(u64 addr) {
        u32 id = addr >> 32;
        if (id >= ID_ST) { id -= ID_ST; return id < stk.size() ? stk[id] : nullptr; }
        if (id >= ID_GL) { id -= ID_GL; if (id >= gobj.size()) return nullptr; return gmut[id] >= 0 ? mut[gmut[id]] : gobj[id]; }
        if (id >= ID_FN || !id) return nullptr;
        Obj **s = heapSlot(id, false); return s ? *s : nullptr;
    }
    static Obj *own(Obj **s) {
        Obj *o = *s;
        if (o->rc > 1) {
            size_t sz = sizeof(Obj) + (o->nch ? o->nch - 1 : 0) * sizeof(Chunk *);
            Obj *q = (Obj *)malloc(sz); memcpy(q, o, sz); q->rc = 1;
            for (u32 i = 0; i < q->nch; i++) if (q->ch[i]) q->ch[i]->rc++;
            o->rc--; *s = q; return q;
        }
        return o;
    }
    Obj *findW(u64 addr) { // writable; null when not writable
        u32 id = addr >> 32;
        if (id >= ID_ST) { id -= ID_ST; return id < stk.size() && stk[id] ? own(&stk[id]) : nullptr; }
        if (id >= ID_GL) { id -= ID_GL; if (id >= gobj.size() || gmut[id] < 0) return nullptr; return own(&mut[gmut[id]]); }
        if (id >= ID_FN || !id) return nullptr;
        Obj **s = heapSlot(id, false); if (!s || !*s) return nullptr;
        s = heapSlot(id, true); return own(s);
    }
};

// Path termination is signalled through this.
struct PathEnd { string kind, msg; u64 id; };
static Solver *SV;
static vector<State *> pending;

// ---------------------------------------------------------------- constants
static u64 constAddr(LLVMValueRef c);
// The numbering of LLVMValueKind differs between releases: classify with IsA.
static LLVMValueKind kindOf(LLVMValueRef c) {
    if (LLVMIsAConstantInt(c)) return LLVMConstantIntValueKind;
    if (LLVMIsAConstantFP(c)) return LLVMConstantFPValueKind;
    if (LLVMIsAFunction(c)) return LLVMFunctionValueKind;
    if (LLVMIsAGlobalVariable(c)) return LLVMGlobalVariableValueKind;
    if (LLVMIsAGlobalAlias(c)) return LLVMGlobalAliasValueKind;
    if (LLVMIsAConstantDataArray(c)) return LLVMConstantDataArrayValueKind;
    if (LLVMIsAConstantDataVector(c)) return LLVMConstantDataVectorValueKind;
    if (LLVMIsAConstantArray(c)) return LLVMConstantArrayValueKind;
    if (LLVMIsAConstantStruct(c)) return LLVMConstantStructValueKind;
    if (LLVMIsAConstantVector(c)) return LLVMConstantVectorValueKind;
    if (LLVMIsAConstantPointerNull(c)) return LLVMConstantPointerNullValueKind;
    if (LLVMIsAConstantAggregateZero(c)) return LLVMConstantAggregateZeroValueKind;
    if (LLVMIsPoison(c)) return LLVMPoisonValueValueKind;
    if (LLVMIsUndef(c)) return LLVMUndefValueValueKind;
    if (LLVMIsAConstantExpr(c)) return LLVMConstantExprValueKind;
    return (LLVMValueKind)999;
}
static void constSlots(LLVMValueRef c, vector<Slot> &o);
static u64 gepConst(LLVMValueRef c) {
    u64 base = constAddr(LLVMGetOperand(c, 0));
    LLVMTypeRef t = LLVMGetGEPSourceElementType(c);
    int n = LLVMGetNumOperands(c);
    for (int i = 1; i < n; i++) {
        LLVMValueRef ix = LLVMGetOperand(c, i); i64 v = LLVMConstIntGetSExtValue(ix);
        if (i == 1) base += v * LLVMABISizeOfType(TD, t);
        else if (LLVMGetTypeKind(t) == LLVMStructTypeKind) { base += LLVMOffsetOfElement(TD, t, v); t = LLVMStructGetTypeAtIndex(t, v); }
        else { t = LLVMGetElementType(t); base += v * LLVMABISizeOfType(TD, t); }
    }
    return base;
}
static u64 constAddr(LLVMValueRef c) { vector<Slot> o; constSlots(c, o); if (o.size() != 1 || o[0].e) die("bad const addr %s", LLVMPrintValueToString(c)); return o[0].v; }
static u128 constBig(LLVMValueRef c) {
    if (LLVMGetIntTypeWidth(LLVMTypeOf(c)) <= 64) return LLVMConstIntGetZExtValue(c);
    string s = LLVMPrintValueToString(c); // "i128 <decimal>"
    size_t p = s.find(' '); bool neg = false; u128 r = 0;
    for (size_t i = p + 1; i < s.size(); i++) { if (s[i] == '-') neg = true; else if (s[i] >= '0' && s[i] <= '9') r = r * 10 + (s[i] - '0'); else die("bigconst %s", s.c_str()); }
    if (neg) r = (u128)0 - r;
    return r & mask128(LLVMGetIntTypeWidth(LLVMTypeOf(c)));
}
static void constSlots(LLVMValueRef c, vector<Slot> &o) {
    LLVMTypeRef t = LLVMTypeOf(c); TyInfo *ti = ty(t);
    switch (kindOf(c)) {
    case LLVMConstantIntValueKind:
        if (LLVMGetTypeKind(t) == LLVMVectorTypeKind) die("splat ConstantInt");
        if (LLVMGetIntTypeWidth(t) > 64) { Slot s; s.v = 0; s.e = mkC(constBig(c), LLVMGetIntTypeWidth(t)); o.push_back(s); }
        else o.push_back({LLVMConstIntGetZExtValue(c), nullptr});
        return;
    case LLVMConstantFPValueKind: {
        LLVMBool l; double d = LLVMConstRealGetDouble(c, &l); u64 b = 0;
        if (LLVMGetTypeKind(t) == LLVMDoubleTypeKind) memcpy(&b, &d, 8); else { float f = d; memcpy(&b, &f, 4); }
        o.push_back({b, nullptr}); return;
    }
    case LLVMFunctionValueKind: { auto it = fmap.find(c); if (it == fmap.end()) die("fn const"); o.push_back({mkAddr(ID_FN + it->second->idx, 0), nullptr}); return; }
    case LLVMGlobalVariableValueKind: { auto it = gid.find(c); if (it == gid.end()) die("gv const"); o.push_back({mkAddr(ID_GL + it->second, 0), nullptr}); return; }
    case LLVMGlobalAliasValueKind: constSlots(LLVMAliasGetAliasee(c), o); return;
    case LLVMConstantDataArrayValueKind: case LLVMConstantDataVectorValueKind: {
        int n = LLVMGetTypeKind(t) == LLVMArrayTypeKind ? (int)LLVMGetArrayLength2(t) : (int)LLVMGetVectorSize(t);
        for (int i = 0; i < n; i++) constSlots(LLVMGetAggregateElement(c, i), o);
        return;
    }
    case LLVMConstantArrayValueKind: case LLVMConstantStructValueKind: case LLVMConstantVectorValueKind:
        for (int i = 0; i < LLVMGetNumOperands(c); i++) constSlots(LLVMGetOperand(c, i), o);
        return;
    case LLVMConstantPointerNullValueKind: case LLVMConstantAggregateZeroValueKind: case LLVMUndefValueValueKind: case LLVMPoisonValueValueKind:
        for (auto &s : ti->s) { if (s.w > 64) { Slot x; x.v = 0; x.e = mkC(0, s.w); o.push_back(x); } else o.push_back({0, nullptr}); }
        return;
    case LLVMConstantExprValueKind:
        switch (LLVMGetConstOpcode(c)) {
        case LLVMGetElementPtr: o.push_back({gepConst(c), nullptr}); return;
        case LLVMPtrToInt: case LLVMIntToPtr: case LLVMBitCast: { vector<Slot> q; constSlots(LLVMGetOperand(c, 0), q); int w = ti->s[0].w; o.push_back({q[0].v & mask64(w), nullptr}); return; }
        case LLVMTrunc: { vector<Slot> q; constSlots(LLVMGetOperand(c, 0), q); o.push_back({q[0].v & mask64(ti->s[0].w), nullptr}); return; }
        case LLVMAdd: case LLVMSub: case LLVMXor: {
            vector<Slot> p, q; constSlots(LLVMGetOperand(c, 0), p); constSlots(LLVMGetOperand(c, 1), q);
            u64 r = LLVMGetConstOpcode(c) == LLVMAdd ? p[0].v + q[0].v : LLVMGetConstOpcode(c) == LLVMSub ? p[0].v - q[0].v : p[0].v ^ q[0].v;
            o.push_back({r & mask64(ti->s[0].w), nullptr}); return;
        }
        default: die("constexpr %s", LLVMPrintValueToString(c));
        }
    default: die("const kind %d: %s", LLVMGetValueKind(c), LLVMPrintValueToString(c));
    }
}
static void constBytes(LLVMValueRef c, Obj *o, u64 off) {
    LLVMTypeRef t = LLVMTypeOf(c);
    auto put = [&](u64 at, u64 v, int n) { for (int i = 0; i < n; i++) { u64 p = at + i; if (p < o->size) wrChunk(o, p / CH)->data[p % CH] = v >> (8 * i); } };
    switch (kindOf(c)) {
    case LLVMConstantDataArrayValueKind: case LLVMConstantDataVectorValueKind: {
        size_t n; const char *p = LLVMGetRawDataValues(c, &n);
        for (size_t i = 0; i < n; i++) wrChunk(o, (off + i) / CH)->data[(off + i) % CH] = p[i];
        return;
    }
    case LLVMConstantStructValueKind:
        for (int i = 0; i < LLVMGetNumOperands(c); i++) constBytes(LLVMGetOperand(c, i), o, off + LLVMOffsetOfElement(TD, t, i));
        return;
    case LLVMConstantArrayValueKind: case LLVMConstantVectorValueKind: {
        u64 sz = LLVMABISizeOfType(TD, LLVMGetElementType(t));
        for (int i = 0; i < LLVMGetNumOperands(c); i++) constBytes(LLVMGetOperand(c, i), o, off + i * sz);
        return;
    }
    case LLVMConstantAggregateZeroValueKind: case LLVMConstantPointerNullValueKind: case LLVMUndefValueValueKind: case LLVMPoisonValueValueKind: return;
    default: {
        vector<Slot> s; constSlots(c, s); TyInfo *ti = ty(t);
        for (size_t i = 0; i < s.size(); i++) {
            if (s[i].e) { put(off + ti->s[i].off, s[i].e->aux, 8); put(off + ti->s[i].off + 8, s[i].e->hi, ti->s[i].w / 8 - 8); }
            else put(off + ti->s[i].off, s[i].v, (ti->s[i].w + 7) / 8);
        }
    }
    }
}

// ---------------------------------------------------------------- decoder
#include "decode.inc"
#include "exec.inc"
#include "main.inc"
