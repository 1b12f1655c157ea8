// As much of a browser as the page needs: elements, events, a web socket that the scenario controls.
'use strict';
const fs = require('fs'), vm = require('vm');
const sym = require('./sym.js');
const SOURCE = '/repo/noodle-webapp/static/index.html';

class Node {
    constructor(doc, tag) { this.ownerDocument = doc; this.tagName = tag.toUpperCase(); this.nodeName = this.tagName; this.childNodes = []; this.parentNode = null; this.listeners = {}; this.attrs = {}; this.style = new Style(); this.dataset = {}; this.text = ''; this.classList = new Classes(this) }
    get parentElement() { return this.parentNode }
    get children() { return this.childNodes.filter(x => x.tagName[0] !== '#') }
    get childElementCount() { return this.children.length }
    get firstChild() { return this.childNodes[0] || null }
    get lastChild() { return this.childNodes[this.childNodes.length - 1] || null }
    get firstElementChild() { return this.children[0] || null }
    get lastElementChild() { return this.children[this.children.length - 1] || null }
    get nextSibling() { const l = this.parentNode ? this.parentNode.childNodes : []; return l[l.indexOf(this) + 1] || null }
    get nextElementSibling() { return this.nextSibling }
    get isConnected() { let x = this; while (x.parentNode) x = x.parentNode; return x === this.ownerDocument.body }
    get id() { return this.attrs.id || '' } set id(x) { this.attrs.id = x }
    get className() { return this.attrs.class || '' } set className(x) { this.attrs.class = x }
    get textContent() { return this.text + this.childNodes.map(x => x.textContent).join('') }
    set textContent(x) { this.clear(); this.text = x === null ? '' : String(x) }
    get innerText() { return this.textContent } set innerText(x) { this.textContent = x }
    get innerHTML() { return this.textContent }
    set innerHTML(x) { this.clear(); x = String(x); if (x.trim()) { this.text = x; this.raw = true } }
    get href() { return this.link } set href(x) { this.link = String(x) }
    get hash() { return url(this.href).hash }
    get options() { return this.children }
    get selectedIndex() { return this.children.findIndex(x => x.selected) }
    clear() { for (const x of this.childNodes) x.parentNode = null; this.childNodes = []; this.text = ''; this.raw = false }
    put(l, at) {
        for (let x of l) {
            if (typeof x === 'string') { const t = new Node(this.ownerDocument, '#text'); t.text = x; x = t }
            if (!(x instanceof Node)) { if (x instanceof sym.Sym) { const t = new Node(this.ownerDocument, '#text'); t.text = String(x); x = t } else throw new TypeError('not a node') }
            if (x.tagName === '#FRAGMENT') { const c = [...x.childNodes]; x.childNodes = []; for (const y of c) { y.parentNode = null; this.put([y], at); if (at !== undefined) at++ } continue }
            if (x.parentNode) { const i = x.parentNode.childNodes.indexOf(x); x.parentNode.childNodes.splice(i, 1); if (x.parentNode === this && at !== undefined && i < at) at-- }
            this.childNodes.splice(at === undefined ? this.childNodes.length : at, 0, x); x.parentNode = this; if (at !== undefined) at++;
            if (this.tagName === 'SELECT' && (x.selected || this.childNodes.length === 1)) for (const y of this.childNodes) if (y !== x && x.selected) y.selected = false;
        }
    }
    appendChild(x) { this.put([x]); return x }
    append(...l) { this.put(l) }
    prepend(...l) { this.put(l, 0) }
    insertBefore(x, y) { this.put([x], y ? this.childNodes.indexOf(y) : undefined); return x }
    removeChild(x) { const i = this.childNodes.indexOf(x); if (i < 0) throw new TypeError('not a child'); this.childNodes.splice(i, 1); x.parentNode = null; return x }
    remove() { if (this.parentNode) this.parentNode.removeChild(this) }
    replaceChildren(...l) { this.clear(); this.put(l) }
    before(...l) { this.parentNode.put(l, this.parentNode.childNodes.indexOf(this)) }
    after(...l) { this.parentNode.put(l, this.parentNode.childNodes.indexOf(this) + 1) }
    replaceWith(...l) { const p = this.parentNode, i = p.childNodes.indexOf(this); this.remove(); p.put(l, i) }
    contains(x) { while (x && x !== this) x = x.parentNode; return !!x }
    setAttribute(k, v) { if (k === 'class' || k === 'id') this.attrs[k] = String(v); else if (k === 'style') this.style.cssText = String(v); else this[k] = this.attrs[k] = typeof this[k] === 'boolean' ? true : String(v) }
    getAttribute(k) { return k in this.attrs ? this.attrs[k] : k in this ? this[k] : null }
    hasAttribute(k) { return k in this.attrs }
    removeAttribute(k) { delete this.attrs[k]; if (k in this) this[k] = typeof this[k] === 'boolean' ? false : '' }
    addEventListener(t, f) { (this.listeners[t] = this.listeners[t] || []).push(f) }
    removeEventListener(t, f) { this.listeners[t] = (this.listeners[t] || []).filter(x => x !== f) }
    click() { this.fire('click') }
    focus() { } blur() { } select() { } scrollIntoView() { }
    all(r = []) { r.push(this); for (const x of this.childNodes) x.all(r); return r }
    find(f) { if (f(this)) return this; for (const x of this.childNodes) { const r = x.find(f); if (r) return r } return null }
    matches(s) { return s.split(',').some(t => { const m = /^([\w-]*)((?:[#.][\w-]+)*)$/.exec(t.trim()); if (!m) throw new sym.Stop('selector ' + s); return (!m[1] || m[1].toUpperCase() === this.tagName) && (m[2].match(/[#.][\w-]+/g) || []).every(x => x[0] === '#' ? this.id === x.slice(1) : this.className.split(/\s+/).includes(x.slice(1))) }) }
    querySelectorAll(s) { const p = s.trim().split(/\s+(?![^,]*,)/), last = p.pop(); return this.all().filter(x => x !== this && x.tagName[0] !== '#' && x.matches(last)) }
    querySelector(s) { if (/^#[\w-]+$/.test(s)) { const i = s.slice(1); return this.find(x => x !== this && x.attrs.id === i) } return this.querySelectorAll(s)[0] || null }
    closest(s) { let x = this; while (x && !x.matches(s)) x = x.parentNode; return x }
    /** An event; what goes wrong in a listener is only seen on the console. */
    fire(type, more) {
        const e = Object.assign({ type, target: this, currentTarget: this, preventDefault() { }, stopPropagation() { } }, more);
        for (let x = this; x; x = x.parentNode) {
            e.currentTarget = x;
            for (const f of [...(x.listeners[type] || []), ...(typeof x['on' + type] === 'function' ? [x['on' + type]] : [])]) this.ownerDocument.page.attempt(() => typeof f === 'function' ? f.call(x, e) : f.handleEvent(e));
            if (type !== 'click' && type !== 'input' && type !== 'change' && type !== 'keydown') break;
        }
    }
    visible() { for (let x = this; x; x = x.parentNode) if (x.hidden || x.style.display === 'none' || x.style.visibility === 'hidden') return false; return true }
}
class Style { setProperty(k, v) { this[k] = v } removeProperty(k) { delete this[k] } getPropertyValue(k) { return this[k] || '' } set cssText(t) { for (const x of t.split(';')) { const [k, v] = x.split(':'); if (v) this[k.trim()] = v.trim() } } }
class Classes {
    constructor(n) { this.n = n }
    get l() { return this.n.className.split(/\s+/).filter(x => x) }
    add(...a) { this.n.className = [...new Set([...this.l, ...a])].join(' ') } remove(...a) { this.n.className = this.l.filter(x => !a.includes(x)).join(' ') }
    contains(x) { return this.l.includes(x) } toggle(x, f) { if (f === undefined ? !this.contains(x) : f) this.add(x); else this.remove(x) }
}
function url(x) { try { return new URL(x, 'https://noodle.test/') } catch (e) { return new URL('https://invalid.test/') } }

const cache = {};
function source() {
    if (cache.html) return cache;
    cache.html = fs.readFileSync(SOURCE, 'utf8');
    cache.scripts = []; const body = cache.html.replace(/<!--[^]*?-->/g, '').replace(/<script([^>]*)>([^]*?)<\/script>/g, (m, a, t) => { const s = /src="([^"]*)"/.exec(a); cache.scripts.push(s ? { src: s[1] } : { code: new vm.Script(sym.rewrite(t), { filename: 'index.html' }), plain: new vm.Script(t, { filename: 'index.html' }) }); return '' });
    cache.body = body; return cache;
}
const VOID = new Set(['input', 'meta', 'link', 'br', 'img', 'hr']);
function unescape(t) { return t.replace(/&lt;/g, '<').replace(/&gt;/g, '>').replace(/&quot;/g, '"').replace(/&amp;/g, '&') }
function build(doc, html, root) {
    let at = root; const re = /<(\/?)([a-zA-Z][\w-]*)((?:[^>"']|"[^"]*"|'[^']*')*)>|([^<]+)/g; let m;
    while ((m = re.exec(html))) {
        if (m[4]) { if (m[4].trim()) { const t = new Node(doc, '#text'); t.text = unescape(m[4]); at.put([t]) } continue }
        const tag = m[2].toLowerCase();
        if (m[1]) { let x = at; while (x !== root && x.tagName !== tag.toUpperCase()) x = x.parentNode; if (x !== root) at = x.parentNode; continue }
        const n = new Node(doc, tag); at.put([n]);
        for (const a of m[3].matchAll(/([\w-]+)(?:="([^"]*)"|='([^']*)')?/g)) { const v = unescape(a[2] ?? a[3] ?? ''); if (a[1] === 'style') n.style.cssText = v; else { n.attrs[a[1]] = v; if (['selected', 'checked', 'hidden', 'disabled', 'open'].includes(a[1])) n[a[1]] = true; else if (!['id', 'class'].includes(a[1])) n[a[1]] = v } }
        if (!VOID.has(tag)) at = n;
    }
}
/** The value of a list is that of the option chosen in it. */
function select(n) {
    Object.defineProperty(n, 'value', { get() { const o = n.children.filter(x => x.tagName === 'OPTION'), c = o.filter(x => x.selected).pop() || o[0]; return c ? (c.value !== undefined ? c.value : c.textContent.trim()) : '' }, set(v) { for (const o of n.children) o.selected = String(o.value !== undefined ? o.value : o.textContent.trim()) === String(v) } });
}
/** Does a browser know this name? */
let names = null;
function browser(x) {
    names = names || new Set(fs.readFileSync('/opt/veriftools/node/node_modules/typescript/lib/lib.dom.d.ts', 'utf8').match(/\b\w+(?=[(?:<]| \{)/g));
    return names.has(x);
}
class Page {
    /** Opens the page; `lists` are the wordlists the server has. */
    constructor(w, hash, lists) {
        this.w = w; this.sockets = []; this.later = []; this.clipboard = null; this.problems = []; const page = this;
        const s = source(), doc = this.document = new Node({ page }, '#document'); doc.ownerDocument = doc; doc.page = this; doc.body = doc;
        build(doc, s.body, doc);
        for (const n of doc.all()) { if (n.tagName === 'SELECT') select(n); if (n.tagName === 'TEXTAREA' || n.tagName === 'INPUT') { n.value = n.attrs.value || ''; if (n.attrs.type === 'checkbox') n.checked = !!n.checked } }
        doc.createElement = t => { const n = new Node(doc, t); if (n.tagName === 'SELECT') select(n); return n }; doc.createTextNode = t => { const n = new Node(doc, '#text'); n.text = String(t); return n };
        doc.createDocumentFragment = () => new Node(doc, '#fragment'); doc.getElementById = i => doc.find(x => x.attrs.id === i); doc.documentElement = doc; doc.head = doc; doc.readyState = 'complete';
        doc.getElementsByClassName = c => doc.querySelectorAll('.' + c); doc.getElementsByTagName = t => doc.querySelectorAll(t);
        class WebSocket {
            constructor(u) { this.url = u; this.readyState = 0; this.sent = []; this.on = {}; page.sockets.push(this) }
            send(x) { if (this.readyState === 0) throw new Error('not open yet'); if (this.readyState === 1) this.sent.push(String(x)) }
            close() { if (this.readyState < 2) this.readyState = 2; this.left = true }
            addEventListener(t, f) { (this.on[t] = this.on[t] || []).push(f) }
            removeEventListener(t, f) { this.on[t] = (this.on[t] || []).filter(x => x !== f) }
            fire(type, more) { const e = Object.assign({ type, target: this, currentTarget: this }, more); for (const f of [...(this['on' + type] ? [this['on' + type]] : []), ...(this.on[type] || [])]) page.attempt(() => f.call(this, e)); page.settle() }
            open() { if (this.readyState === 0) { this.readyState = 1; this.fire('open') } }
            /** A message from the server: none arrives once the page has closed the connection. */
            receive(t) { if (this.readyState === 1) this.fire('message', { data: t }) }
            end() { if (this.readyState < 3) { this.readyState = 3; this.fire('close', { code: 1000, wasClean: true }) } }
        }
        Object.assign(WebSocket, { CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 });
        const at = { protocol: 'https:', host: 'noodle.test', hostname: 'noodle.test', pathname: '/', search: '', origin: 'https://noodle.test', get href() { return 'https://noodle.test/' + this.hash } };
        let h = hash || ''; Object.defineProperty(at, 'hash', { get: () => h, set: x => { x = String(x); x = x.startsWith('#') ? x.slice(1) : x; const u = new URL('https://noodle.test/'); u.hash = '#' + x; h = u.hash } });
        this.location = at;
        const g = this.window = {
            document: doc, location: at, WebSocket, navigator: { clipboard: { writeText: t => { page.clipboard = String(t); return Promise.resolve() } }, userAgent: 'test' }, console: { log() { }, error() { }, warn() { }, info() { }, debug() { } },
            URL, URLSearchParams, setTimeout: (f, ms) => page.later.push(f), clearTimeout: i => { page.later[i - 1] = null }, requestAnimationFrame: f => page.later.push(f), queueMicrotask: f => page.later.push(f), cancelAnimationFrame: i => { page.later[i - 1] = null },
            history: { replaceState: (a, b, u) => { if (u !== undefined) at.hash = String(u).replace(/^[^#]*/, '') }, pushState(a, b, u) { this.replaceState(a, b, u) } }, alert() { }, performance: { now: () => 0 }, addEventListener(t, f) { if (t === 'load' || t === 'DOMContentLoaded') page.later.push(f) }, localStorage: { getItem: () => null, setItem() { }, removeItem() { } },
            XMLHttpRequest: class { open() { throw new sym.Stop('a request is not modelled') } setRequestHeader() { } send() { } }, fetch() { throw new sym.Stop('a request is not modelled') }, $: w,
        };
        doc.location = at; doc.defaultView = g;
        g.window = g.self = g; g.globalThis = g; vm.createContext(g);
        if (!w.native) vm.runInContext(sym.PRELUDE, g);
        for (const x of s.scripts) {
            if (x.code) this.attempt(() => (w.native ? x.plain : x.code).runInContext(g), true);
            else if (/wordlists\.js/.test(x.src)) g.WORDLISTS = vm.runInContext('[]', g), lists.forEach(l => g.WORDLISTS.push(l));
        }
        this.settle();
    }
    attempt(f, strict) {
        try { f() } catch (e) {
            if (e.quit || e.code === 'ERR_SCRIPT_EXECUTION_TIMEOUT') throw e;
            const m = String(e && e.message);
            // what this stand-in lacks is no fault of the page
            const k = /(\w+) is not (?:a function|defined|a constructor)/.exec(m) || /\(reading '(\w+)'\)/.exec(m);
            if (k && browser(k[1])) throw new sym.Stop(m + ' (not modelled)');
            this.problems.push(m); if (strict) throw e;
        }
    }
    settle() { for (let i = 0; this.later.length; i++) { if (i > 1000) throw new sym.Stop('timers without end'); const f = this.later.shift(); if (f) this.attempt(() => f(0)) } }
    get(i) { const n = this.document.getElementById(i); if (!n) throw new sym.Stop('no element ' + i); return n }
    click(n) { n.fire('click'); this.settle() }
    check(n) { n.checked = !n.checked; n.fire('click'); n.fire('input'); n.fire('change'); this.settle() }
    type(n, t) { n.value = t; n.fire('input'); n.fire('change'); this.settle() }
}
module.exports = { Page, Node, SOURCE };
