// Lowers LLVM functions to the interpreter's instruction form.
struct CallI { Func *callee; i32 fp; vector<std::pair<i32, i32>> args; TyInfo *rt; LLVMValueRef v; };
static vector<CallI> calls; static vector<TyInfo *> tyref; static vector<vector<int>> masks;
static std::set<string> unknownOps;

struct Dec {
    Func *f; std::unordered_map<LLVMValueRef, i32> reg; std::unordered_map<LLVMBasicBlockRef, i32> bidx; vector<LLVMBasicBlockRef> blocks; vector<i32> bstart;
    std::unordered_map<LLVMValueRef, i32> cpool;
    int n = 0;
    i32 op(LLVMValueRef v) {
        auto it = reg.find(v); if (it != reg.end()) return it->second;
        if (!LLVMIsConstant(v)) {
            return 0; // metadata and the like
        }
        auto c = cpool.find(v); if (c != cpool.end()) return c->second;
        i32 r = -(i32)f->pool.size() - 1;
        constSlots(v, f->pool); // note: slot k of a constant is at index r - k
        return cpool[v] = r;
    }
    i32 edge(LLVMBasicBlockRef from, LLVMBasicBlockRef to) {
        Edge e; e.target = bidx[to]; e.m0 = f->moves.size();
        for (LLVMValueRef i = LLVMGetFirstInstruction(to); i && LLVMGetInstructionOpcode(i) == LLVMPHI; i = LLVMGetNextInstruction(i)) {
            int k = LLVMCountIncoming(i); TyInfo *t = ty(LLVMTypeOf(i)); i32 d = reg[i];
            for (int j = 0; j < k; j++) if (LLVMGetIncomingBlock(i, j) == from) {
                i32 s = op(LLVMGetIncomingValue(i, j));
                for (size_t q = 0; q < t->s.size(); q++) f->moves.push_back({d + (i32)q, s >= 0 ? s + (i32)q : s - (i32)q});
                break;
            }
        }
        e.m1 = f->moves.size(); f->edges.push_back(e); return f->edges.size() - 1;
    }
    static int slotOff(LLVMTypeRef t, const unsigned *ix, int k, LLVMTypeRef *out) {
        int off = 0;
        for (int i = 0; i < k; i++) {
            if (LLVMGetTypeKind(t) == LLVMStructTypeKind) {
                for (unsigned j = 0; j < ix[i]; j++) off += ty(LLVMStructGetTypeAtIndex(t, j))->s.size();
                t = LLVMStructGetTypeAtIndex(t, ix[i]);
            } else { t = LLVMGetElementType(t); off += ix[i] * ty(t)->s.size(); }
        }
        *out = t; return off;
    }
    int ref(TyInfo *t) { tyref.push_back(t); return tyref.size() - 1; }
    void run() {
        LLVMValueRef fn = f->v;
        int np = LLVMCountParams(fn); f->nparam = np;
        for (int i = 0; i < np; i++) { LLVMValueRef p = LLVMGetParam(fn, i); reg[p] = n; f->args.push_back(n); n += ty(LLVMTypeOf(p))->s.size(); }
        for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(fn); b; b = LLVMGetNextBasicBlock(b)) {
            bidx[b] = blocks.size(); blocks.push_back(b);
            for (LLVMValueRef i = LLVMGetFirstInstruction(b); i; i = LLVMGetNextInstruction(i)) { size_t k = ty(LLVMTypeOf(i))->s.size(); if (k) { reg[i] = n; n += k; } }
        }
        f->nblocks = blocks.size();
        for (size_t bi = 0; bi < blocks.size(); bi++) {
            bstart.push_back(f->code.size());
            for (LLVMValueRef i = LLVMGetFirstInstruction(blocks[bi]); i; i = LLVMGetNextInstruction(i)) inst(i, blocks[bi]);
        }
        for (auto &e : f->edges) e.target = bstart[e.target] | 0;
        f->blkStart.assign(f->code.size() + 1, 0);
        for (size_t bi = 0; bi < bstart.size(); bi++) f->blkStart[bstart[bi]] = 1;
        f->hit.assign(f->code.size() + 1, 0); f->hit[0] = 1;
        f->nregs = n + 1; f->rt = ty(LLVMGetReturnType(LLVMGlobalGetValueType(fn)));
    }
    void inst(LLVMValueRef i, LLVMBasicBlockRef bb) {
        LLVMOpcode oc = LLVMGetInstructionOpcode(i); LLVMTypeRef t = LLVMTypeOf(i); TyInfo *ti = ty(t);
        Inst I; memset(&I, 0, sizeof I); I.op = O_BAD; I.n = ti->s.size(); I.d = I.n ? reg[i] : -1; I.w = I.n ? ti->s[0].w : 0;
        auto A = [&](int k) { return op(LLVMGetOperand(i, k)); };
        auto OT = [&](int k) { return ty(LLVMTypeOf(LLVMGetOperand(i, k))); };
        switch (oc) {
        case LLVMPHI: return;
        case LLVMAdd: case LLVMSub: case LLVMMul: case LLVMUDiv: case LLVMSDiv: case LLVMURem: case LLVMSRem:
        case LLVMShl: case LLVMLShr: case LLVMAShr: case LLVMAnd: case LLVMOr: case LLVMXor: {
            Op o = oc == LLVMAdd ? O_ADD : oc == LLVMSub ? O_SUB : oc == LLVMMul ? O_MUL : oc == LLVMUDiv ? O_UDIV : oc == LLVMSDiv ? O_SDIV : oc == LLVMURem ? O_UREM : oc == LLVMSRem ? O_SREM :
                   oc == LLVMShl ? O_SHL : oc == LLVMLShr ? O_LSHR : oc == LLVMAShr ? O_ASHR : oc == LLVMAnd ? O_AND : oc == LLVMOr ? O_OR : O_XOR;
            I.a = A(0); I.b = A(1);
            if (LLVMGetTypeKind(t) == LLVMVectorTypeKind) { I.op = O_VOP; I.sub = o; } else I.op = o;
            break;
        }
        case LLVMICmp: {
            I.a = A(0); I.b = A(1); I.sub = LLVMGetICmpPredicate(i); I.w2 = OT(0)->s[0].w;
            I.op = LLVMGetTypeKind(LLVMTypeOf(LLVMGetOperand(i, 0))) == LLVMVectorTypeKind ? O_VICMP : O_ICMP; break;
        }
        case LLVMZExt: case LLVMSExt: case LLVMTrunc:
            I.a = A(0); I.w2 = OT(0)->s[0].w;
            { Op o = oc == LLVMZExt ? O_ZEXT : oc == LLVMSExt ? O_SEXT : OP_TRUNC;
              if (LLVMGetTypeKind(t) == LLVMVectorTypeKind) { I.op = O_VCAST; I.sub = o; } else I.op = o; }
            break;
        case LLVMPtrToInt: case LLVMIntToPtr: case (LLVMOpcode)69:
            I.a = A(0); I.w2 = OT(0)->s[0].w; I.op = I.w == I.w2 ? O_MOV : I.w > I.w2 ? O_ZEXT : OP_TRUNC; break;
        case LLVMBitCast: {
            TyInfo *st = OT(0); I.a = A(0);
            if (st->s.size() == 1 && I.n == 1) I.op = O_MOV;
            else { I.op = O_BITCAST; I.x = ref(st); I.y = ref(ti); }
            break;
        }
        case LLVMFreeze: I.op = O_COPYN; I.a = A(0); break;
        case LLVMSelect: {
            I.a = A(0); I.b = A(1); I.c = A(2);
            I.op = LLVMGetTypeKind(LLVMTypeOf(LLVMGetOperand(i, 0))) == LLVMVectorTypeKind ? O_VSELECT : O_SELECT; I.x = ref(ti); break;
        }
        case LLVMLoad:
            I.a = A(0); I.x = ref(ti); I.op = (I.n == 1 && I.w <= 64) ? O_LOAD : O_LOADX; I.imm = (I.w + 7) / 8; break;
        case LLVMStore: {
            TyInfo *st = OT(0); I.a = A(1); I.b = A(0); I.x = ref(st); I.n = st->s.size(); I.w = I.n ? st->s[0].w : 0; I.imm = (I.w + 7) / 8;
            I.op = (I.n == 1 && I.w <= 64) ? O_STORE : O_STOREX; break;
        }
        case LLVMGetElementPtr: {
            I.a = A(0); I.op = O_GEP; I.x = f->geps.size();
            LLVMTypeRef q = LLVMGetGEPSourceElementType(i); i64 off = 0;
            int k = LLVMGetNumOperands(i);
            for (int j = 1; j < k; j++) {
                LLVMValueRef ix = LLVMGetOperand(i, j); u64 sc;
                if (j > 1 && LLVMGetTypeKind(q) == LLVMStructTypeKind) {
                    unsigned c = LLVMConstIntGetZExtValue(ix); off += LLVMOffsetOfElement(TD, q, c); q = LLVMStructGetTypeAtIndex(q, c); continue;
                }
                if (j > 1) q = LLVMGetElementType(q);
                sc = LLVMABISizeOfType(TD, q);
                if (LLVMIsAConstantInt(ix)) off += LLVMConstIntGetSExtValue(ix) * (i64)sc;
                else f->geps.push_back({op(ix), sc, ty(LLVMTypeOf(ix))->s[0].w});
            }
            I.imm = off; I.y = f->geps.size(); break;
        }
        case LLVMAlloca: {
            I.op = O_ALLOCA; LLVMTypeRef at = LLVMGetAllocatedType(i); I.imm = LLVMABISizeOfType(TD, at); I.a = A(0); break;
        }
        case LLVMBr: default_br:
            if (LLVMIsConditional(i)) {
                I.op = O_CBR; I.a = op(LLVMGetCondition(i)); I.x = edge(bb, LLVMGetSuccessor(i, 0)); I.y = edge(bb, LLVMGetSuccessor(i, 1));
            } else { I.op = O_BR; I.x = edge(bb, LLVMGetSuccessor(i, 0)); }
            break;
        case LLVMSwitch: {
            I.op = O_SWITCH; I.a = A(0); I.w = OT(0)->s[0].w; int k = LLVMGetNumSuccessors(i);
            I.x = f->cases.size(); I.n = k - 1;
            i32 de = edge(bb, LLVMGetSuccessor(i, 0)); I.y = de;
            for (int j = 1; j < k; j++) { i32 e = edge(bb, LLVMGetSuccessor(i, j)); f->cases.push_back({LLVMConstIntGetZExtValue(LLVMGetSwitchCaseValue(i, j)), e}); }
            break;
        }
        case LLVMRet: I.op = O_RET; I.n = LLVMGetNumOperands(i) ? OT(0)->s.size() : 0; I.a = I.n ? A(0) : 0; break;
        case LLVMUnreachable: I.op = O_UNREACH; break;
        case LLVMFence: I.op = O_NOP; break;
        case LLVMExtractValue: {
            LLVMTypeRef et; int off = slotOff(LLVMTypeOf(LLVMGetOperand(i, 0)), LLVMGetIndices(i), LLVMGetNumIndices(i), &et);
            I.op = O_COPYN; i32 s = A(0); I.a = s >= 0 ? s + off : s - off; break;
        }
        case LLVMInsertValue: {
            LLVMTypeRef et; int off = slotOff(t, LLVMGetIndices(i), LLVMGetNumIndices(i), &et);
            I.op = O_INSERTVAL; I.a = A(0); I.b = A(1); I.x = off; I.y = OT(1)->s.size(); break;
        }
        case LLVMExtractElement: I.op = O_EXTRACTELT; I.a = A(0); I.b = A(1); I.x = OT(0)->s.size(); break;
        case LLVMInsertElement: I.op = O_INSERTELT; I.a = A(0); I.b = A(1); I.c = A(2); break;
        case LLVMShuffleVector: {
            I.op = O_SHUFFLE; I.a = A(0); I.b = A(1); vector<int> m; int k = LLVMGetNumMaskElements(i);
            for (int j = 0; j < k; j++) m.push_back(LLVMGetMaskValue(i, j));
            I.w2 = OT(0)->s.size(); masks.push_back(m); I.x = masks.size() - 1; break;
        }
        case LLVMAtomicCmpXchg: I.op = O_CMPXCHG; I.a = A(0); I.b = A(1); I.c = A(2); I.w = OT(1)->s[0].w; break;
        case LLVMAtomicRMW: I.op = O_RMW; I.a = A(0); I.b = A(1); I.sub = LLVMGetAtomicRMWBinOp(i); break;
        case LLVMFAdd: case LLVMFSub: case LLVMFMul: case LLVMFDiv: case LLVMFRem: I.op = O_FOP; I.a = A(0); I.b = A(1); I.sub = oc; break;
        case LLVMFNeg: I.op = O_FOP; I.a = A(0); I.b = A(0); I.sub = oc; break;
        case LLVMFCmp: I.op = O_FCMP; I.a = A(0); I.b = A(1); I.sub = LLVMGetFCmpPredicate(i); I.w2 = OT(0)->s[0].w; break;
        case LLVMUIToFP: case LLVMSIToFP: case LLVMFPToUI: case LLVMFPToSI: case LLVMFPExt: case LLVMFPTrunc:
            I.op = O_FCAST; I.a = A(0); I.w2 = OT(0)->s[0].w; I.sub = oc; break;
        case LLVMCall: case LLVMInvoke: {
            LLVMValueRef cv = LLVMGetCalledValue(i); CallI c; c.rt = ti; c.v = i; c.callee = nullptr; c.fp = 0;
            auto it = fmap.find(cv); 
            if (LLVMIsAInlineAsm(cv)) { I.op = O_NOP; break; }
            if (it != fmap.end()) c.callee = it->second; else c.fp = op(cv);
            if (c.callee && c.callee->name.compare(0, 9, "llvm.dbg.") == 0) return;
            if (c.callee && (c.callee->name.compare(0, 14, "llvm.lifetime.") == 0 || c.callee->name.compare(0, 11, "llvm.assume") == 0 || c.callee->name.rfind("llvm.experimental.noalias", 0) == 0)) return;
            int k = LLVMGetNumArgOperands(i);
            for (int j = 0; j < k; j++) { LLVMValueRef a = LLVMGetOperand(i, j); c.args.push_back({op(a), (i32)ty(LLVMTypeOf(a))->s.size()}); }
            calls.push_back(c); I.op = O_CALL; I.x = calls.size() - 1;
            if (oc == LLVMInvoke) { f->code.push_back(I); f->ilist.push_back(0); memset(&I, 0, sizeof I); I.op = O_BR; I.x = edge(bb, LLVMGetNormalDest(i)); }
            break;
        }
        default:
            if (LLVMIsAUncondBrInst(i) || LLVMIsACondBrInst(i)) goto default_br;
            I.op = O_BAD; I.x = (int)oc; break;
        }
        if (I.op == O_BAD) I.imm = (u64)i;
        f->code.push_back(I);
    }
};
static void decode(Func *f) { if (f->decoded) return; f->decoded = true; Dec d; d.f = f; d.run(); }
