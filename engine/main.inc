// Loading, job scheduling, result output.
u64 gAsserts = 0;
struct Shared { std::atomic<int> tokens; std::atomic<int> live; std::atomic<u64> paths; std::atomic<int> stop; };
static Shared *SH;
static string outDir, jobName; static FILE *outF; static double jobDeadline, memDeadline; static u64 MAXPATHS = ~0ull, jobPaths = 0;
static u64 nOk = 0, nAssume = 0, nFail = 0, nPanic = 0, nErr = 0, nDropped = 0, nSampled = 0; static int SAMPLE = 40, FAILKEEP = 6; static u64 sampleEvery = 1;
static std::map<u32, u64> coverCnt; static std::map<string, u64> keyCnt; static std::map<string, u64> obsHash;
static bool incomplete = false; static int childSeq = 0; static u32 splitCount = 0;
static u64 rngState = 88172645463325252ull;
static u64 rng() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
static string jesc(const string &s) { string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char)c); r += b; } else r += c; } return r; }

static void openOut() {
    string p = outDir + "/" + std::to_string(getpid()) + ".jsonl"; outF = fopen(p.c_str(), "a"); if (!outF) die("cannot write %s", p.c_str());
}
static void resetStats() {
    nOk = nAssume = nFail = nPanic = nErr = nDropped = nSampled = 0; coverCnt.clear(); keyCnt.clear(); SV->st = SolverStats(); gInstr = 0; gForks = 0; gAsserts = 0; incomplete = false; sampleEvery = 1;
    for (Func *f : funcs) { f->entered = 0; }
    hkNext = 0;
}
static void writeRec(const char *kind, const PathEnd &pe) {
    u64 ep = ++EVEPOCH;
    fprintf(outF, "{\"t\":\"path\",\"job\":\"%s\",\"kind\":\"%s\",\"id\":%llu,\"msg\":\"%s\",\"vals\":[", jobName.c_str(), kind, (unsigned long long)pe.id, jesc(pe.msg).c_str());
    for (size_t i = 0; i < S->vars.size(); i++) fprintf(outF, "%s%llu", i ? "," : "", (unsigned long long)S->m.v[S->vars[i]]);
    fprintf(outF, "],\"obs\":[");
    for (size_t i = 0; i < S->obs.size(); i++) fprintf(outF, "%s%llu", i ? "," : "", (unsigned long long)(S->obs[i].e ? (u64)evalE(S->obs[i].e, S->m, ep) : S->obs[i].v));
    fprintf(outF, "],\"covers\":[");
    for (size_t i = 0; i < S->covers.size(); i++) fprintf(outF, "%s%u", i ? "," : "", S->covers[i]);
    fprintf(outF, "],\"icount\":%llu}\n", (unsigned long long)S->icount);
}
static void pathDone(const PathEnd &pe) {
    jobPaths++; SH->paths++;
    for (u32 c : S->covers) coverCnt[c]++;
    if (pe.kind == "assume") { nAssume++; return; }
    if (pe.kind == "ok") {
        nOk++;
        if (nOk % sampleEvery == 0 && nSampled < (u64)SAMPLE * 4) { nSampled++; writeRec("ok", pe); if (nSampled % SAMPLE == 0) sampleEvery *= 8; }
        return;
    }
    if (pe.kind == "fail") nFail++; else if (pe.kind == "panic") nPanic++; else nErr++;
    if (pe.kind == "limit" || pe.kind == "unsupported") incomplete = true;
    string key = pe.kind + std::to_string(pe.id) + pe.msg;
    if (keyCnt[key]++ < (u64)FAILKEEP) { writeRec(pe.kind.c_str(), pe); fflush(outF); }
}
static void finishProcess(bool splitChild) {
    fprintf(outF, "{\"t\":\"stat\",\"job\":\"%s\",\"ok\":%llu,\"assume\":%llu,\"fail\":%llu,\"panic\":%llu,\"err\":%llu,\"dropped\":%llu,\"incomplete\":%s,\"instr\":%llu,\"forks\":%llu,\"asserts\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"cache\":%llu,\"tables\":%llu,\"crossed\":%llu,\"solver_s\":%.3f,\"maxq_s\":%.3f,\"split\":%u,",
            jobName.c_str(), (unsigned long long)nOk, (unsigned long long)nAssume, (unsigned long long)nFail, (unsigned long long)nPanic, (unsigned long long)nErr, (unsigned long long)nDropped, incomplete ? "true" : "false",
            (unsigned long long)gInstr, (unsigned long long)gForks, (unsigned long long)gAsserts, (unsigned long long)SV->st.queries, (unsigned long long)SV->st.sat, (unsigned long long)SV->st.unsat, (unsigned long long)SV->st.cache_hits, (unsigned long long)SV->st.tables, (unsigned long long)SV->st.crossed, SV->st.time, SV->st.maxq, splitCount);
    fprintf(outF, "\"covers\":{"); bool first = true;
    for (auto &p : coverCnt) { fprintf(outF, "%s\"%u\":%llu", first ? "" : ",", p.first, (unsigned long long)p.second); first = false; }
    fprintf(outF, "},\"funcs\":{"); first = true;
    for (Func *f : funcs) if (f->entered && f->crate) { fprintf(outF, "%s\"%s\":%llu", first ? "" : ",", jesc(f->name).c_str(), (unsigned long long)f->entered); first = false; }
    fprintf(outF, "}}\n"); fclose(outF); outF = nullptr;
    SH->tokens++;
}
static double nextSplit = 0;
static void trySplit() {
    if (pending.size() < 1) return;
    int t = SH->tokens.load(); if (t <= 0) return;
    if (!SH->tokens.compare_exchange_strong(t, t - 1)) return;
    fflush(outF); fflush(stderr);
    pid_t p = fork();
    if (p < 0) { SH->tokens++; return; }
    size_t n = pending.size(); // child takes the older half (at least one)
    size_t k = n == 1 ? 1 : n / 2;
    if (p == 0) {
        // child: drop the newer part and the current state
        vector<State *> keep; for (size_t i = 0; i < n; i += 2) keep.push_back(pending[i]);
        (void)k; pending = keep; S = nullptr; openOut(); resetStats(); splitCount = 0; rngState ^= (u64)getpid() * 0x9E3779B97F4A7C15ull;
        throw 1;
    }
    vector<State *> keep; for (size_t i = 0; i < n; i++) if (i % 2) keep.push_back(pending[i]); else delete pending[i];
    pending = keep; splitCount++;
}
static void housekeeping() {
    hkNext = gInstr + 20000;
    static int cnt = 0;
    if ((++cnt & 15) == 0 || hkSoon) {
        hkSoon = false;
        double t = now_s();
        if (t > jobDeadline || SH->stop.load()) { incomplete = true; nDropped += pending.size() + 1; for (State *s : pending) delete s; pending.clear(); throw 2; }
    }
    if (SH->tokens.load() > 0 && !pending.empty()) trySplit();
}
static Func *entryF;
static void runAll(State *init) {
    if (init) pending.push_back(init);
    bool child = false;
    for (;;) {
        if (pending.empty()) break;
        S = pending.back(); pending.pop_back();
        try { step_loop(); }
        catch (PathEnd &pe) { pathDone(pe); if (nFail + nPanic + nErr > 3000) { incomplete = true; nDropped += pending.size(); for (State *s : pending) delete s; pending.clear(); } }
        catch (SolverUnknown &) { PathEnd pe{"limit", "solver time limit", 0}; pathDone(pe); hkNext = 0; hkSoon = true; }
        catch (int c) { if (c == 1) { child = true; continue; } }
        delete S; S = nullptr;
    }
    finishProcess(child);
}
static State *initState(const vector<u64> &args) {
    State *s = new State; memset(&s->m, 0, sizeof s->m);
    s->mut.resize(nMut);
    for (size_t i = 0; i < gobj.size(); i++) if (gmut[i] >= 0) { gobj[i]->rc++; s->mut[gmut[i]] = gobj[i]; }
    S = s; pushFrame(entryF, -1);
    size_t k = 0; for (i32 a : entryF->args) { S->reg[S->fr.back().base + a] = {k < args.size() ? args[k] : 0, nullptr}; k++; }
    S = nullptr; return s;
}
static void load(const char *path) {
    LLVMMemoryBufferRef mb; char *err = nullptr;
    if (LLVMCreateMemoryBufferWithContentsOfFile(path, &mb, &err)) die("read %s: %s", path, err);
    if (LLVMParseBitcode2(mb, &M)) die("parse %s", path);
    TD = LLVMGetModuleDataLayout(M);
    for (LLVMValueRef f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) {
        Func *F = new Func; size_t n; F->name = LLVMGetValueName2(f, &n); F->v = f; F->idx = funcs.size(); F->decl = LLVMIsDeclaration(f);
        funcs.push_back(F); fmap[f] = F; fname[F->name] = F;
        if (F->decl) F->h = handlerOf(F->name);
        // allocator shims and memory builtins are modelled even when defined
        const string &nm = F->name;
        if (nm.find("4core9panicking") != string::npos || nm.find("core..panicking") != string::npos || nm.find("4core6option13unwrap_failed") != string::npos || nm.find("rust_begin_unwind") != string::npos || nm.find("begin_panic_handler") != string::npos) {
            unsigned k = LLVMGetEnumAttributeKindForName("noreturn", 8);
            if (LLVMGetEnumAttributeAtIndex(f, LLVMAttributeFunctionIndex, k)) F->panicKind = 1;
        }
        if (nm.find("6noodle") != string::npos || nm.find("6bitset") != string::npos || nm.find("6webapp") != string::npos || nm.find("3cli") != string::npos) F->crate = true;
    }
    for (LLVMValueRef g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) {
        gid[g] = gobj.size(); size_t n; gname.push_back(LLVMGetValueName2(g, &n));
        bool c = LLVMIsGlobalConstant(g) && !LLVMIsDeclaration(g);
        u64 sz = LLVMABISizeOfType(TD, LLVMGlobalGetValueType(g)); if (LLVMIsDeclaration(g) && sz == 0) sz = 8;
        gobj.push_back(newObj(sz, c ? OK_CONST : OK_GLOBAL)); gmut.push_back(c ? -1 : nMut++);
    }
    for (LLVMValueRef g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) {
        LLVMValueRef i = LLVMGetInitializer(g); if (i) constBytes(i, gobj[gid[g]], 0);
    }
}
int main(int argc, char **argv) {
    if (argc < 4) { fprintf(stderr, "usage: symex module.bc jobs.txt outdir [procs] [seconds] [verbose]\n"); return 3; }
    struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
    if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30)) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ull << 30) : std::min<rlim_t>(rl.rlim_max, 1ull << 30); if (!setrlimit(RLIMIT_STACK, &rl)) execv("/proc/self/exe", argv); }
    outDir = argv[3]; int procs = argc > 4 ? atoi(argv[4]) : 8; double secs = argc > 5 ? atof(argv[5]) : 600; bool verb = argc > 6;
    double t0 = now_s(), total = t0 + secs;
    SH = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (SH) Shared; SH->tokens = procs; SH->paths = 0; SH->stop = 0;
    load(argv[1]);
    entryF = fname["sym_main"]; if (!entryF || entryF->decl) die("no sym_main in %s", argv[1]);
    if (verb) fprintf(stderr, "loaded %zu functions %zu globals in %.2fs\n", funcs.size(), gobj.size(), now_s() - t0);
    // warm-up: decode everything so that children share it
    for (Func *f : funcs) if (!f->decl) decode(f);
    if (verb) fprintf(stderr, "decoded in %.2fs\n", now_s() - t0);
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    // jobs: "name seconds arg arg ..."
    FILE *jf = fopen(argv[2], "r"); if (!jf) die("jobs"); char line[4096]; struct Job { string name; double sec; vector<u64> a; }; vector<Job> jobs;
    while (fgets(line, sizeof line, jf)) { Job j; char nm[256]; int n = 0, k; if (sscanf(line, "%255s %lf%n", nm, &j.sec, &n) < 2) continue; j.name = nm; char *p = line + n; unsigned long long x; while (sscanf(p, "%llu%n", &x, &k) == 1) { j.a.push_back(x); p += k; } jobs.push_back(j); }
    fclose(jf);
    size_t next = 0; int live = 0; int bad = 0;
    auto reap = [&](bool block) {
        int st; pid_t p;
        while ((p = waitpid(-1, &st, block ? 0 : WNOHANG)) > 0) { 
            if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad++; fprintf(stderr, "symex: worker %d ended abnormally (%d)\n", p, st); SH->tokens++; string q = outDir + "/crash.jsonl"; FILE *o = fopen(q.c_str(), "a"); fprintf(o, "{\"t\":\"crash\",\"status\":%d}\n", st); fclose(o); }
            if (block) return true;
        }
        return p != -1;
    };
    while (next < jobs.size()) {
        int t = SH->tokens.load();
        if (t > 0 && SH->tokens.compare_exchange_strong(t, t - 1)) {
            Job &j = jobs[next++]; fflush(stderr);
            pid_t p = fork();
            if (p == 0) {
                jobName = j.name; jobDeadline = std::min(total, now_s() + j.sec); SV = new Solver; openOut(); resetStats();
                double q0 = now_s(); (void)q0;
                runAll(initState(j.a)); _exit(0);
            }
            live++;
        } else { usleep(500); reap(false); }
    }
    while (reap(true)) {}
    if (verb) fprintf(stderr, "done: %llu paths in %.2fs\n", (unsigned long long)SH->paths.load(), now_s() - t0);
    return bad ? 4 : 0;
}
