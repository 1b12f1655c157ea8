// run.js JOBS OUT SECS: runs jobs, writes OUT/*.jsonl in the format of engine/. run.js native: replays cases from standard input.
'use strict';
const fs = require('fs'), path = require('path'), cp = require('child_process'), os = require('os');
const sym = require('./sym.js'), { SCENARIOS } = require('./scenarios.js');

function attempt(args, w) {
    sym.world(w);
    try { SCENARIOS[args[0]](w, ...args.slice(1)); return ['ok', 0, ''] }
    catch (e) {
        if (e instanceof sym.Failed) return ['fail', e.id, ''];
        if (e instanceof sym.Assumed) return ['assumed', 0, ''];
        if (e instanceof sym.Stop) return ['limit', 0, e.message];
        return ['panic', 0, String(e && e.stack).split('\n').slice(0, 2).join(' ').slice(0, 300)];
    }
}
function job(name, secs, args, out) {
    const end = Date.now() + secs * 1000, z = new sym.Solver(), f = fs.openSync(path.join(out, name + '.jsonl'), 'w');
    const st = { t: 'stat', job: name, ok: 0, assume: 0, fail: 0, panic: 0, err: 0, dropped: 0, instr: 0, forks: 0, asserts: 0, queries: 0, tables: 0, crossed: 0, sat: 0, unsat: 0, cache: 0, solver_s: 0, maxq_s: 0, covers: {}, funcs: {}, incomplete: false };
    const work = [[]];
    while (work.length) {
        if (Date.now() > end) { st.incomplete = true; break }
        const w = new sym.World(z, work.pop()); let [kind, id, msg] = attempt(args, w), vals = null;
        work.push(...w.open); st.forks += w.open.length; st.instr += w.taken.length;
        // nothing is wrong on a path that is ok, whether there are integers for it or not: they are only wanted for the replay
        try { if (kind !== 'assumed' && kind !== 'limit') { vals = w.model(kind === 'ok'); if (!vals && kind !== 'ok') kind = 'assumed' } } catch (e) { if (!(e instanceof sym.Stop)) throw e; kind = 'limit'; msg = e.message }
        for (const k of ['asserts', 'queries', 'sat', 'unsat']) st[k] += w[k];
        st.solver_s += w.time; st.maxq_s = Math.max(st.maxq_s, w.slowest);
        if (kind === 'assumed') { st.assume++; continue }
        st[{ ok: 'ok', fail: 'fail', panic: 'panic', limit: 'err' }[kind]]++;
        if (kind === 'limit') st.incomplete = true;
        if (kind === 'ok') for (const c of w.covers) st.covers[c] = (st.covers[c] || 0) + 1;
        if (kind !== 'ok' || vals && (st.ok <= 40 || st.ok % 20 === 0)) fs.writeSync(f, JSON.stringify({ t: 'path', job: name, kind, id, msg, vals: vals || [], obs: kind === 'ok' ? w.obs : [] }) + '\n');
    }
    for (const n of functions()) st.funcs[n] = 1;
    fs.writeSync(f, JSON.stringify(st) + '\n'); fs.closeSync(f); z.end();
}
/** The functions of the page. */
function functions() {
    const ts = require('/opt/veriftools/node/node_modules/typescript'), r = [];
    const t = fs.readFileSync(require('./dom.js').SOURCE, 'utf8'); let line = n => t.slice(0, n).split('\n').length;
    for (const m of t.matchAll(/<script[^>]*>([^]*?)<\/script>/g)) {
        const at = m.index + m[0].indexOf('>') + 1, src = ts.createSourceFile('x.js', m[1], ts.ScriptTarget.Latest, true, ts.ScriptKind.JS);
        const go = n => { if (ts.isFunctionLike(n)) r.push((n.name ? n.name.getText(src) : 'function') + ' (index.html:' + line(at + n.getStart(src)) + ')'); ts.forEachChild(n, go) };
        go(src);
    }
    return r;
}
function native() {
    for (const l of fs.readFileSync(0, 'utf8').split('\n')) {
        if (!l.trim()) continue;
        const [a, v] = l.split('|'), args = a.trim().split(/\s+/).map(Number), w = new sym.World(null, [], v.trim() ? v.trim().split(/\s+/).map(Number) : []);
        const [kind, id, msg] = attempt(args, w);
        fs.writeSync(1, '\n@@R ' + JSON.stringify({ kind, id, msg, obs: w.obs, covers: [...w.covers], notes: w.notes }) + '\n');
    }
}
const a = process.argv.slice(2);
if (a[0] === 'native') native();
else if (a[0] === 'job') { job(a[1], Number(a[2]), JSON.parse(a[3]), a[4]); process.exit(0) }
else {
    const end = Date.now() + Number(a[2]) * 1000, jobs = fs.readFileSync(a[0], 'utf8').split('\n').filter(x => x.trim()).map(x => x.split(/\s+/));
    const next = () => {
        const j = jobs.shift(); if (!j) return;
        const secs = Math.max(1, Math.min(Number(j[1]), (end - Date.now()) / 1000));
        cp.spawn(process.execPath, [__filename, 'job', j[0], String(secs), JSON.stringify(j.slice(2).map(Number)), a[1]], { stdio: ['ignore', 'inherit', 'inherit'] }).on('exit', next);
    };
    for (let i = 0; i < Math.min(8, os.cpus().length); i++) next();
}
