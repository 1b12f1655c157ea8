"""run.py JOBS OUT SECS: runs jobs, writes OUT/*.jsonl in the format of engine/. run.py native: replays cases from standard input."""
import json, multiprocessing, os, signal, sys, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sym, scenarios, z3

def ev(w, m, x): 
    if isinstance(x, sym.Num): return m.eval(x.t, model_completion=True).as_long()
    return int(x)
class Tracer:
    """The functions of the module that are executed."""
    def __init__(self): self.f = {}
    def __call__(self, frame, event, arg):
        if frame.f_code.co_filename == scenarios.SOURCE: n = frame.f_code.co_name; self.f[n] = self.f.get(n, 0) + 1
def attempt(args, w):
    sym.world(w)
    def late(*a): raise Late
    if not w.native: signal.signal(signal.SIGALRM, late); signal.setitimer(signal.ITIMER_REAL, 40)
    try: scenarios.SCENARIOS[args[0]](w, *args[1:]); return 'ok', 0, ''
    except Late: return 'hang', 0, 'no end within 40 s'
    except SystemExit as e: return 'panic', 0, 'SystemExit: %s' % e
    except sym.Failed as e: return 'fail', e.id, ''
    except sym.Assumed: return 'assumed', 0, ''
    except (sym.Stop, z3.Z3Exception) as e: return 'limit', 0, str(e)
    except Exception as e:
        import traceback
        t = traceback.extract_tb(e.__traceback__)[-1]
        return 'panic', 0, '%s: %s (%s:%s)' % (type(e).__name__, e, os.path.basename(t.filename), t.lineno)
    finally: signal.setitimer(signal.ITIMER_REAL, 0)
class Late(BaseException): pass
def job(x):
    name, secs, args, out, deadline = x
    t0 = time.time(); end = min(deadline, t0 + secs)
    st = dict(t='stat', job=name, ok=0, assume=0, fail=0, panic=0, err=0, dropped=0, instr=0, forks=0, asserts=0, queries=0, tables=0, crossed=0, sat=0, unsat=0, cache=0, solver_s=0.0, maxq_s=0.0, covers={}, funcs={}, incomplete=False)
    work = [[]]; tr = Tracer(); n = 0
    with open(os.path.join(out, name + '.jsonl'), 'w') as f:
        while work:
            if time.time() > end: st['incomplete'] = True; break
            w = sym.World(work.pop())
            if n % 50 == 0: sys.setprofile(tr)
            kind, id, msg = attempt(args, w); sys.setprofile(None); n += 1
            work += w.open; st['forks'] += len(w.open); st['instr'] += len(w.taken)
            r = None
            try:
                if kind not in ('assumed', 'limit'): r = w.model()
            except sym.Stop: pass
            st['asserts'] += w.asserts; st['queries'] += w.queries; st['sat'] += w.sat; st['unsat'] += w.unsat; st['solver_s'] += w.time; st['maxq_s'] = max(st['maxq_s'], w.slowest)
            if kind == 'assumed': st['assume'] += 1; continue
            if kind == 'ok' and r is None: kind = 'limit'; msg = 'no model'
            st[{'ok': 'ok', 'fail': 'fail', 'panic': 'panic', 'hang': 'panic', 'limit': 'err'}[kind]] += 1
            if kind == 'limit': st['incomplete'] = True; r = r or []
            obs = []
            if kind == 'ok':
                w.solver.check(); m = w.solver.model(); r = [m.eval(x, model_completion=True).as_long() for x in w.inputs]; obs = [ev(w, m, x) for x in w.obs]
                for c in w.covers: st['covers'][str(c)] = st['covers'].get(str(c), 0) + 1
            if kind != 'ok' or st['ok'] <= 40 or st['ok'] % 20 == 0:
                print(json.dumps({'t': 'path', 'job': name, 'kind': kind, 'id': id, 'msg': msg, 'vals': r or [], 'obs': obs}), file=f)
        st['funcs'] = tr.f
        print(json.dumps(st), file=f)
def native():
    for l in sys.stdin:
        a, _, v = l.partition('|')
        args = [int(x) for x in a.split()]; w = sym.World(vals=[int(x) for x in v.split()])
        try: kind, id, msg = attempt(args, w)
        except IndexError: kind, id, msg = 'assumed', 0, ''
        print('\n@@R ' + json.dumps({'kind': kind, 'id': id, 'msg': msg, 'obs': [int(x) for x in w.obs], 'covers': sorted(w.covers), 'notes': w.notes}), flush=True)
if __name__ == '__main__':
    if sys.argv[1] == 'native': native(); sys.exit(0)
    jobs, out, secs = sys.argv[1], sys.argv[2], float(sys.argv[3]); end = time.time() + secs
    l = []
    for x in open(jobs):
        x = x.split()
        if x: l.append((x[0], float(x[1]), [int(v) for v in x[2:]], out, end))
    with multiprocessing.Pool(8, maxtasksperchild=1) as p:
        for _ in p.imap_unordered(job, l): pass
