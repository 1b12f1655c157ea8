// Symbolic execution of JavaScript: the code is rewritten so that every operation and every branch on a number
// asks this module; numbers are terms of z3, which decides each branch; the code is executed again from the
// start for each feasible sequence of decisions. Unknown integers are real numbers first, which is quick and
// only follows more; whether integers violate something is a question of its own.
'use strict';
const fs = require('fs'), os = require('os'), path = require('path'), cp = require('child_process');
const ts = require('/opt/veriftools/node/node_modules/typescript');

class Failed extends Error { constructor(id) { super('' + id); this.id = id; this.quit = true } }
class Assumed extends Error { constructor() { super(''); this.quit = true } }
class Stop extends Error { constructor(m) { super(m); this.quit = true } }

/** z3, asked through two pipes */
class Solver {
    constructor() {
        this.d = fs.mkdtempSync(path.join(os.tmpdir(), 'page-'));
        const a = path.join(this.d, 'in'), b = path.join(this.d, 'out');
        cp.execFileSync('mkfifo', [a, b]);
        this.p = cp.spawn('sh', ['-c', `exec z3 -in -t:20000 < ${a} > ${b}`], { stdio: 'ignore' });
        this.i = fs.openSync(a, 'w'); this.o = fs.openSync(b, 'r'); this.buf = ''; this.chunk = Buffer.alloc(65536);
    }
    say(x) { fs.writeSync(this.i, x + '\n') }
    line() {
        for (;;) {
            const k = this.buf.indexOf('\n');
            if (k >= 0) { const l = this.buf.slice(0, k); this.buf = this.buf.slice(k + 1); return l }
            const n = fs.readSync(this.o, this.chunk);
            if (!n) throw new Stop('the solver has ended');
            this.buf += this.chunk.toString('latin1', 0, n);
        }
    }
    ask() { this.say('(check-sat)'); return this.line() }
    /** A parenthesised answer */
    answer() { let t = ''; do { t += this.line() + ' ' } while ((t.match(/\(/g) || []).length > (t.match(/\)/g) || []).length); return t }
    end() { this.say('(exit)'); fs.closeSync(this.i); fs.closeSync(this.o); fs.rmSync(this.d, { recursive: true, force: true }) }
}

/** Symbolic: decisions are made by the solver. Native (vals given): numbers and choices are read from vals. */
class World {
    constructor(solver, prefix, vals) {
        Object.assign(this, { z: solver, prefix: prefix || [], taken: [], open: [], vals, at: 0, n: 0, native: !!vals, queries: 0, sat: 0, unsat: 0, asserts: 0, time: 0, slowest: 0, tokens: [], ints: [], obs: [], covers: new Set(), notes: [] });
        if (!vals) solver.say('(reset)');
    }
    /** An unknown integer */
    value(lo, hi, sort = 'Real') {
        if (this.native) {
            if (this.at >= this.vals.length) throw new Assumed();
            const v = this.vals[this.at++];
            if (v < lo || v > hi) throw new Assumed();
            return v;
        }
        const x = 'v' + this.n++, real = sort === 'Real';
        if (real) this.ints.push(x);
        this.z.say(`(declare-const ${x} ${sort})(assert (and (>= ${x} ${lit(lo, real)}) (<= ${x} ${lit(hi, real)})))`); return new Num(x, real);
    }
    choose(n) {
        const x = this.value(0, n - 1, 'Int');
        if (this.native) return x;
        let lo = 0;
        while (n - lo > 1) { const m = (lo + n) >> 1; if (this.truth(this.bin('<', x, m))) n = m; else lo = m }
        return lo;
    }
    check(c) {
        const t = Date.now(); this.queries++;
        this.z.say(`(push)(assert ${c})`); const r = this.z.ask(); this.z.say('(pop)');
        const d = (Date.now() - t) / 1000; this.time += d; this.slowest = Math.max(this.slowest, d);
        if (r === 'sat') this.sat++; else if (r === 'unsat') this.unsat++; else throw new Stop('the solver gives no answer');
        return r === 'sat';
    }
    decide(c) {
        const k = this.taken.length; let d;
        if (k < this.prefix.length) d = this.prefix[k];
        else {
            d = this.check(c); const no = d ? this.check(`(not ${c})`) : true;
            if (d && no) this.open.push([...this.taken, false]);
        }
        this.taken.push(d); this.z.say(`(assert ${d ? c : `(not ${c})`})`); return d;
    }
    truth(x) {
        if (x instanceof Truth) return this.decide(x.t);
        if (x instanceof Num) return this.decide(`(not (= ${x.t} ${x.real ? '0.0' : '0'}))`);
        return !!x;
    }
    /** The property: x holds for all values on this path. */
    require(x, id) {
        if (!(x instanceof Truth)) { if (!x) throw new Failed(id); return }
        this.asserts++;
        if (this.check(`(not ${x.t})`)) {
            this.z.say(`(push)(assert (not ${x.t}))`); const r = this.integers(); this.z.say('(pop)');
            if (r) { this.z.say(`(assert (not ${x.t}))`); throw new Failed(id) }
        }
        this.z.say(`(assert ${x.t})`);
    }
    /** Integers that meet the conditions, null when there are none */
    integers(easy) {
        const ask = () => { const t = Date.now(); this.queries++; const r = this.z.ask(), d = (Date.now() - t) / 1000; this.time += d; this.slowest = Math.max(this.slowest, d); if (r === 'sat') this.sat++; else if (r === 'unsat') this.unsat++; return r };
        const values = () => { const r = []; for (let i = 0; i < this.n; i++) { this.z.say(`(get-value (v${i}))`); r.push(number(this.z.answer())) } return r };
        if (ask() !== 'sat') return null;
        let v = values();
        for (const f of [Math.round, Math.ceil, Math.floor]) {
            if (v.every(Number.isInteger)) return v;
            // often the numbers next to them do
            this.z.say('(push)'); v.forEach((x, i) => { if (this.ints.includes('v' + i)) this.z.say(`(assert (= v${i} ${lit(f(x), true)}))`) });
            const w = ask() === 'sat' ? values() : null; this.z.say('(pop)'); if (w) return w;
        }
        if (easy) return null;
        this.z.say('(push)'); for (const x of this.ints) this.z.say(`(assert (is_int ${x}))`);
        const r = ask(); v = r === 'sat' ? values() : null; this.z.say('(pop)');
        if (r === 'unknown') throw new Stop('the solver gives no answer');
        return v;
    }
    model(easy) { return this.integers(easy) }
    /** A value of the term; the other values are other paths, of which only a few are followed. */
    fix(x) {
        for (let tries = 3; ;) {
            const k = this.taken.length; let v, d = true;
            if (k < this.prefix.length) [v, d] = this.prefix[k];
            else {
                if (!tries) throw new Stop('an unknown number is used where its value matters');
                if (this.z.ask() !== 'sat') throw new Stop('the solver gives no answer');
                this.z.say(`(eval ${x.real ? `(to_int ${x.t})` : x.t})`);
                const m = /(-)? ?(\d+)/.exec(this.z.answer()); v = m[1] ? -m[2] : +m[2];
                const c = this.same(x, v);
                if (!this.check(c)) throw new Stop('an unknown number that is no integer is used where its value matters');
                if (this.check(`(not ${c})`)) this.open.push([...this.taken, [v, false]]);
            }
            this.taken.push([v, d]); const c = this.same(x, v); this.z.say(`(assert ${d ? c : `(not ${c})`})`); tries--;
            if (d) return v;
        }
    }
    same(x, v) { return `(= ${x.t} ${lit(v, x.real)})` }
    // ------------------------------------------------ operations of the rewritten code
    bin(op, a, b) {
        if (!(a instanceof Sym) && !(b instanceof Sym)) return plain[op](a, b);
        if (op === '+' && (typeof a === 'string' || typeof b === 'string' || Array.isArray(a) || Array.isArray(b))) return String(a) + String(b);
        if (op === '===' || op === '!==') { if (typeof (a instanceof Sym ? b : a) !== 'number' && !(a instanceof Sym && b instanceof Sym)) return op === '!=='; op = op.slice(0, 2) }
        const x = this.lift(a), y = this.lift(b);
        if (!x || !y) { if (op === '==' || op === '!=') return op === '!='; const v = i => i instanceof Sym ? this.plain(i) : i; return plain[op](v(a), v(b)) }
        const real = x.real || y.real || op === '/', s = (u => real && !u.real ? (/^\d+$/.test(u.t) ? u.t + '.0' : `(to_real ${u.t})`) : u.t), p = s(x), q = s(y);
        switch (op) {
            case '+': case '-': return new Num(`(${op} ${p} ${q})`, real);
            case '*': return new Num(`(* ${p} ${q})`, real);
            case '/': if (b instanceof Sym && this.truth(this.bin('==', b, 0))) return plain['/'](this.plain(a), 0); return new Num(`(/ ${p} ${q})`, true);
            case '<': case '<=': case '>': case '>=': return new Truth(`(${op} ${p} ${q})`);
            case '==': return new Truth(`(= ${p} ${q})`);
            case '!=': return new Truth(`(not (= ${p} ${q}))`);
        }
        return plain[op](this.plain(a), this.plain(b));
    }
    lift(x) {
        if (x instanceof Num) return x;
        if (x instanceof Truth) return new Num(`(ite ${x.t} 1 0)`, false);
        if (typeof x === 'string' && x.trim() !== '' && isFinite(x)) x = Number(x);
        if (typeof x === 'boolean') x = Number(x);
        if (typeof x !== 'number' || !isFinite(x)) return null;
        return new Num(lit(x, !Number.isInteger(x)), !Number.isInteger(x));
    }
    plain(x) { return x instanceof Truth ? this.decide(x.t) : x instanceof Num ? this.fix(x) : x }
    not(x) { return x instanceof Truth ? new Truth(`(not ${x.t})`) : !this.truth(x) }
    and(a, f) { return this.truth(a) ? f() : a instanceof Sym ? false : a }
    or(a, f) { return this.truth(a) ? (a instanceof Truth ? true : a) : f() }
    /** a or b, without a branch */
    either(a, b) { if (!(a instanceof Truth)) return a || b; if (!(b instanceof Truth)) return b || a; return new Truth(`(or ${a.t} ${b.t})`) }
    neg(x) { return x instanceof Sym ? this.bin('-', 0, x) : -x }
    pos(x) { return x instanceof Sym ? this.lift(x) : typeof x === 'string' ? this.number(x) : +x }
    number(s) { const n = Number(s); return n >= BASE && n < BASE + this.tokens.length ? this.tokens[n - BASE] : n }
    token(x) { this.tokens.push(x); return String(BASE + this.tokens.length - 1) }
    /** Math.floor and the like */
    whole(n, x) {
        const a = this.lift(x); if (!a.real) return a;
        const f = t => `(to_real (to_int ${t}))`, up = t => `(- ${f(`(- ${t})`)})`, t = a.t;
        return new Num(n === 'floor' ? f(t) : n === 'ceil' ? up(t) : n === 'round' ? f(`(+ ${t} 0.5)`) : `(ite (>= ${t} 0.0) ${f(t)} ${up(t)})`, true);
    }
    most(less, ...l) {
        if (!l.some(x => x instanceof Sym)) return less ? Math.min(...l) : Math.max(...l);
        return l.reduce((a, b) => {
            const c = this.bin(less ? '<=' : '>=', a, b);
            if (!(c instanceof Truth)) return c ? a : b;
            const x = this.lift(a), y = this.lift(b), r = x.real || y.real, s = u => r && !u.real ? `(to_real ${u.t})` : u.t;
            return new Num(`(ite ${c.t} ${s(x)} ${s(y)})`, r);
        });
    }
    sort(l, f) {
        // as browsers sort: stable, and only `less than` counts
        const r = [];
        for (const x of l) { let k = r.length; while (k > 0 && this.truth(this.bin('<', f(x, r[k - 1]), 0))) k--; r.splice(k, 0, x) }
        return r;
    }
}
const plain = { '+': (a, b) => a + b, '-': (a, b) => a - b, '*': (a, b) => a * b, '/': (a, b) => a / b, '%': (a, b) => a % b, '**': (a, b) => a ** b, '<': (a, b) => a < b, '<=': (a, b) => a <= b, '>': (a, b) => a > b, '>=': (a, b) => a >= b, '==': (a, b) => a == b, '!=': (a, b) => a != b, '===': (a, b) => a === b, '!==': (a, b) => a !== b };
const BASE = 7000000000000;
function lit(x, real) {
    if (x < 0) return `(- ${lit(-x, real)})`;
    if (Number.isInteger(x)) return BigInt(x).toString() + (real ? '.0' : '');
    return x.toFixed(20).replace(/0+$/, '').replace(/\.$/, '.0');
}
/** The number in an answer ((v0 (- (/ 1.0 2.0)))) */
function number(t) { const l = t.match(/[\d.]+/g).slice(1).map(Number); return (/\(- /.test(t) ? -1 : 1) * (l.length > 1 ? l[0] / l[1] : l[0]) }
let W = null;
class Sym { }
class Truth extends Sym { constructor(t) { super(); this.t = t } [Symbol.toPrimitive]() { return W.plain(this) } toString() { return String(W.plain(this)) } }
class Num extends Sym {
    constructor(t, real) { super(); this.t = t; this.real = real }
    [Symbol.toPrimitive](hint) { return hint === 'string' ? W.token(this) : W.plain(this) }
    toString() { return W.token(this) }
    toFixed(n) { return W.plain(this).toFixed(n) }
    toLocaleString() { return W.token(this) }
    toJSON() { return Number(W.token(this)) }
}
/** Rewrites a program so that operations on numbers and branches ask `$`. */
const OPS = new Map([[ts.SyntaxKind.PlusToken, '+'], [ts.SyntaxKind.MinusToken, '-'], [ts.SyntaxKind.AsteriskToken, '*'], [ts.SyntaxKind.SlashToken, '/'], [ts.SyntaxKind.PercentToken, '%'], [ts.SyntaxKind.AsteriskAsteriskToken, '**'],
[ts.SyntaxKind.LessThanToken, '<'], [ts.SyntaxKind.LessThanEqualsToken, '<='], [ts.SyntaxKind.GreaterThanToken, '>'], [ts.SyntaxKind.GreaterThanEqualsToken, '>='], [ts.SyntaxKind.EqualsEqualsToken, '=='], [ts.SyntaxKind.ExclamationEqualsToken, '!='], [ts.SyntaxKind.EqualsEqualsEqualsToken, '==='], [ts.SyntaxKind.ExclamationEqualsEqualsToken, '!==']]);
const ASSIGN = new Map([[ts.SyntaxKind.PlusEqualsToken, '+'], [ts.SyntaxKind.MinusEqualsToken, '-'], [ts.SyntaxKind.AsteriskEqualsToken, '*'], [ts.SyntaxKind.SlashEqualsToken, '/'], [ts.SyntaxKind.PercentEqualsToken, '%'], [ts.SyntaxKind.AsteriskAsteriskEqualsToken, '**']]);
function rewrite(text) {
    const src = ts.createSourceFile('page.js', text, ts.ScriptTarget.Latest, true, ts.ScriptKind.JS);
    const r = ts.transform(src, [ctx => root => {
        const f = ctx.factory, call = (n, ...a) => f.createCallExpression(f.createPropertyAccessExpression(f.createIdentifier('$'), n), undefined, a);
        const lazy = e => f.createArrowFunction(undefined, undefined, [], undefined, f.createToken(ts.SyntaxKind.EqualsGreaterThanToken), f.createParenthesizedExpression(e));
        const cond = e => call('truth', e);
        const visit = n => {
            n = ts.visitEachChild(n, visit, ctx);
            if (ts.isBinaryExpression(n)) {
                const k = n.operatorToken.kind;
                if (OPS.has(k)) return call('bin', f.createStringLiteral(OPS.get(k)), n.left, n.right);
                if (k === ts.SyntaxKind.AmpersandAmpersandToken) return call('and', n.left, lazy(n.right));
                if (k === ts.SyntaxKind.BarBarToken) return call('or', n.left, lazy(n.right));
                if (ASSIGN.has(k)) return f.createParenthesizedExpression(f.createBinaryExpression(n.left, ts.SyntaxKind.EqualsToken, call('bin', f.createStringLiteral(ASSIGN.get(k)), n.left, n.right)));
            } else if (ts.isPrefixUnaryExpression(n)) {
                if (n.operator === ts.SyntaxKind.ExclamationToken) return call('not', n.operand);
                if (n.operator === ts.SyntaxKind.MinusToken && !ts.isNumericLiteral(n.operand)) return call('neg', n.operand);
                if (n.operator === ts.SyntaxKind.PlusToken) return call('pos', n.operand);
            } else if (ts.isIfStatement(n)) return f.updateIfStatement(n, cond(n.expression), n.thenStatement, n.elseStatement);
            else if (ts.isWhileStatement(n)) return f.updateWhileStatement(n, cond(n.expression), n.statement);
            else if (ts.isDoStatement(n)) return f.updateDoStatement(n, n.statement, cond(n.expression));
            else if (ts.isForStatement(n) && n.condition) return f.updateForStatement(n, n.initializer, cond(n.condition), n.incrementor, n.statement);
            else if (ts.isConditionalExpression(n)) return f.updateConditionalExpression(n, cond(n.condition), n.questionToken, n.whenTrue, n.colonToken, n.whenFalse);
            return n;
        };
        return ts.visitNode(root, visit);
    }]);
    return ts.createPrinter().printFile(r.transformed[0]);
}
/** Run inside of the page's world before its code. */
const PRELUDE = `(() => {
    const sort = Array.prototype.sort;
    Array.prototype.sort = function (f) { if (f === undefined) return sort.call(this); const r = $.sort(Array.from(this), f); for (let i = 0; i < r.length; i++) this[i] = r[i]; return this };
    Array.prototype.toSorted = function (f) { return Array.from(this).sort(f) };
    Array.prototype.filter = function (f, t) { const r = []; for (let i = 0; i < this.length; i++) if ($.truth(f.call(t, this[i], i, this))) r.push(this[i]); return r };
    Array.prototype.some = function (f, t) { for (let i = 0; i < this.length; i++) if ($.truth(f.call(t, this[i], i, this))) return true; return false };
    Array.prototype.every = function (f, t) { for (let i = 0; i < this.length; i++) if (!$.truth(f.call(t, this[i], i, this))) return false; return true };
    Array.prototype.findIndex = function (f, t) { for (let i = 0; i < this.length; i++) if ($.truth(f.call(t, this[i], i, this))) return i; return -1 };
    Array.prototype.find = function (f, t) { const i = this.findIndex(f, t); return i < 0 ? undefined : this[i] };
    const parse = JSON.parse;
    JSON.parse = function (t, f) { return parse(t, (k, v) => { if (typeof v === 'number') v = $.number(v); return f ? f.call(this, k, v) : v }) };
    Math.max = (...l) => $.most(false, ...l); Math.min = (...l) => $.most(true, ...l);
    Math.abs = (abs => x => $.is(x) ? $.most(false, x, $.neg(x)) : abs(x))(Math.abs);
    for (const n of ['floor', 'ceil', 'round', 'trunc']) { const g = Math[n]; Math[n] = x => $.is(x) ? $.whole(n, x) : g(x) }
    for (const n of ['sqrt', 'pow', 'log', 'log2', 'log10', 'exp', 'sign']) { const g = Math[n]; Math[n] = (...l) => g(...l.map(x => $.is(x) ? $.plain(x) : x)) }
    const N = Number; Number = new Proxy(N, { apply: (t, s, [x]) => $.is(x) || typeof x === 'string' ? $.pos(x) : N(x) });
    const pf = parseFloat, pi = parseInt; parseFloat = x => $.is(x) ? x : $.number(pf(x)); parseInt = (x, b) => $.is(x) ? x : $.number(pi(x, b));
    const nan = isNaN, fin = isFinite; isNaN = x => $.is(x) ? false : nan(x); isFinite = x => $.is(x) ? true : fin(x); N.isFinite = x => $.is(x) || typeof x === 'number' && fin(x); N.isNaN = x => typeof x === 'number' && nan(x);
})()`;
World.prototype.is = x => x instanceof Sym;
module.exports = { World, Solver, Num, Truth, Sym, Failed, Assumed, Stop, rewrite, PRELUDE, world(w) { W = w } };
