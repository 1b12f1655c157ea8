// What is asked of /repo/noodle-webapp/static/index.html.
'use strict';
const { Failed, Assumed } = require('./sym.js'), { Page } = require('./dom.js');

// Results, each text in no other; the filters that let them pass.
const TEXTS = [['alpha', 'bet'], ['gamma'], ["rock & roll's"], ['b\u00e9ta 1/2', 'zz#?'], ['delta', 'x', '100% y'], ['<b>eps</b>', 'q+r']];
const FILTERS = ['a', '^g|ta$', '', '&'];
const LISTS = () => [{ name: 'small', len: 3 }, { name: 'default', len: 2 }];

function start(page) {
    if (page.sockets.length && page.sockets.slice(0, -1).some(s => !s.left)) throw new Failed(2201);
    page.sockets[page.sockets.length - 1].open();
}
function newest(page) { return page.sockets[page.sockets.length - 1] }
/** The results that are shown, by their numbers; whatever else is shown counts as -1. */
function shown(page, results) {
    return page.get('output').children.filter(x => x.visible()).map(x => results.findIndex(r => x.all().some(y => y.tagName !== 'A' && y.visible() && !y.raw && own(y) === r.text)));
}
function own(n) { return (n.text + n.childNodes.filter(x => x.tagName === '#TEXT').map(x => x.text).join('')).trim() }

/** Events on the page. `a`: how many; `b`: which kinds (bits); `c`: how many results there are by then at least; `d`: how many of the texts, 10 more: score of each word is unknown. */
function events(w, a, b, c, d) {
    const page = new Page(w, '', LISTS()), kinds = []; for (let i = 0; i < 12; i++) if (b >> i & 1) kinds.push(i);
    const sort = page.get('sort'), on = page.get('enable-filter'), filter = page.get('filter');
    let results = [], sent = 0, running = false, order = 0 /* of what is shown: 0 of arrival, 1 any */, used = 0;
    const submit = key => {
        const n = page.sockets.length;
        page.get('input').value = 'a.c'; 
        const press = (keyCode, key, code, ctrlKey) => { page.get('input').fire('keydown', { keyCode, which: keyCode, key, code, ctrlKey, shiftKey: false, altKey: false, metaKey: false, repeat: false }); page.settle() };
        if (key) { press(13, 'Enter', 'Enter', false); press(65, 'a', 'KeyA', true); if (page.sockets.length !== n) throw new Failed(2202) }
        if (key) press(13, 'Enter', 'Enter', true);
        else page.click(page.get('query'));
        if (page.sockets.length !== n + 1) throw new Failed(2202);
        if (page.get('log').textContent.includes('note ')) throw new Failed(2228);
        for (const s of page.sockets.slice(0, n)) if (!s.left && s.readyState < 2) throw new Failed(2201);
        results = []; order = 0; running = false;
        if (b >> 11 & 1 && w.choose(2)) return; // still connecting
        opened();
    };
    const opened = () => { start(page); if (newest(page).sent.length !== 1) throw new Failed(2203); running = true };
    const receive = () => {
        const k = used++ % (d % 10), words = TEXTS[k].map((t, i) => ({ text: t, score: d >= 10 ? w.value(0, 4000000) : 1000000 - 1000 * used + 7 * i }));
        const text = words.map(x => x.text).join(' '); if (results.some(r => r.text === text)) throw new Assumed();
        const data = JSON.stringify({ match: { phrase: words } });
        for (const s of page.sockets.slice(0, -1)) s.receive(data);
        results.push({ text, words }); newest(page).receive(data);
        if (!on.checked || passes(results[results.length - 1])) order = order === 0 && !sort.checked ? 0 : 1;
    };
    const passes = r => !on.checked || new RegExp(filter.value).test(r.text);
    const log = [];
    for (let step = 0; step < a + c; step++) {
        const k = step < c ? (step === 0 ? 5 : 0) : kinds[w.choose(kinds.length)]; log.push(k);
        w.notes[0] = 'events ' + log.join(' ');
        switch (k) {
            case 0: if (!running) throw new Assumed(); receive(); break;
            case 1: page.check(sort); order = sort.checked ? 1 : 0; break;
            case 2: page.check(on); order = sort.checked ? 1 : 0; break;
            case 3: page.type(filter, FILTERS[w.choose(FILTERS.length)]); if (!on.checked) throw new Failed(2204); order = sort.checked ? 1 : 0; break;
            case 4: page.click(page.get('stop')); if (page.sockets.some(s => !s.left && s.readyState < 2)) throw new Failed(2205); running = false; break;
            case 5: submit(false); break;
            case 6: if (!running) throw new Assumed(); newest(page).receive(JSON.stringify({ status: 'status ' + step })); if (page.get('status').textContent !== 'status ' + step) throw new Failed(2206); break;
            case 7: {
                page.click(page.get('copy-wordlist'));
                const l = page.get('custom-wordlist').value.split('\n').map(x => x.trim()).filter(x => x), want = results.filter(passes).map(r => r.text);
                if (l.length !== want.length || [...l].sort().join('\n') !== [...want].sort().join('\n')) throw new Failed(2207);
                break;
            }
            case 8: if (!running) throw new Assumed(); newest(page).end(); running = false; break;
            case 9: submit(true); break;
            case 11: if (!page.sockets.length || newest(page).readyState !== 0) throw new Assumed(); opened(); break;
            case 10: if (!running) throw new Assumed(); newest(page).receive(JSON.stringify({ log: { message: 'note ' + step } })); if (!page.get('log').textContent.includes('note ' + step)) throw new Failed(2227); break;
        }
        const l = shown(page, results), want = results.map((r, i) => i).filter(i => passes(results[i]));
        w.obs.push(l.length);
        if (l.includes(-1)) throw new Failed(2208);
        if (new Set(l).size < l.length) throw new Failed(2209);
        if (l.length !== want.length || want.some(i => !l.includes(i))) throw new Failed(2210);
        if (sort.checked && results.length) {
            for (let i = 0; i + 1 < l.length; i++) {
                const x = results[l[i]].words, y = results[l[i + 1]].words;
                if (x.length === y.length) w.require(w.bin('<=', sum(w, x), sum(w, y)), 2211);
            }
            // those far apart need not stand next to each other
            for (let i = 0; i < l.length; i++) for (let j = i + 2; j < l.length; j++) { const x = results[l[i]].words, y = results[l[j]].words; if (x.length === y.length) w.require(w.bin('<=', sum(w, x), sum(w, y)), 2211) }
        } else if (order === 0 && l.join() !== want.join()) throw new Failed(2212);
        links(w, page, results, l);
    }
    w.covers.add(results.length > 1 ? 2 : results.length);
}
function sum(w, x) { return x.reduce((s, y) => w.bin('+', s, y.score), 0) }
/** The links beside each result lead to what they promise. */
function links(w, page, results, l) {
    const blocks = page.get('output').children.filter(x => x.visible()), bars = [];
    for (let i = 0; i < l.length; i++) {
        const t = results[l[i]].text; let n = 0;
        for (const x of blocks[i].all()) {
            if (x.style.width) { const p = w.number(String(x.style.width).replace('%', '')); w.require(w.bin('>=', p, 0), 2213); w.require(w.bin('<=', p, 100), 2213); bars[i] = p }
            if (x.tagName !== 'A') continue;
            if (!x.href) { page.clipboard = null; page.click(x); if (page.clipboard !== null) { n++; if (page.clipboard !== t) throw new Failed(2214) } continue }
            let u; try { u = new URL(x.href) } catch (e) { throw new Failed(2215) }
            if (/google/.test(u.host)) { n++; if (![t, 'define:' + t].includes(u.searchParams.get('q'))) throw new Failed(2215) }
            else if (/wikipedia/.test(u.host)) { n++; if (u.searchParams.get('search') !== t) throw new Failed(2215) }
            else if (/crossword/.test(u.host)) { n++; let p = ''; try { p = decodeURIComponent(u.pathname.split('/clue/')[1]) } catch (e) { } if (p !== t || u.search || u.hash) throw new Failed(2215) }
        }
        if (n < 4) throw new Failed(2216);
    }
    // of two results of the same number of words the more common one has no shorter bar
    for (let i = 0; i < l.length; i++) for (let j = 0; j < l.length; j++) {
        const x = results[l[i]].words, y = results[l[j]].words;
        if (i !== j && x.length === y.length && bars[i] !== undefined && bars[j] !== undefined) w.require(w.either(w.bin('>', sum(w, x), sum(w, y)), w.bin('>=', bars[i], bars[j])), 2229);
    }
}
const QUERIES = ['abc', 'a.c; [x-z]* !1', '#limit 3\nab', 'a%20b %', "it's a \u00e9\n\n<ab>", 'x=a b; c&d?e/f', '', '// #wordlist 100%25'];
const WORDS = ['', 'foo', 'foo bar\nb\u00e9z'];
/** What is sent, and what the address is good for. `a`, `b`: number of queries and own wordlists to choose from; `c`: how often. */
function query(w, a, b, c) {
    const page = new Page(w, '', LISTS());
    for (let i = 0; i < c; i++) {
        const q = QUERIES[w.choose(a)], own = WORDS[w.choose(b)], depth = String(c > 1 ? i + 1 : w.choose(10) + 1), list = ['small', 'default'][w.choose(2)], limit = ['3', '1000'][w.choose(2)];
        page.get('input').value = q; page.get('custom-wordlist').value = own; page.get('max-phrase-length').value = depth; page.get('max-results').value = limit; page.get('wordlist').value = list;
        const n = page.sockets.length; page.click(page.get('query')); w.notes.push(JSON.stringify([q, own, depth, limit, list]));
        if (page.sockets.length !== n + 1) throw new Failed(2202);
        const u = new URL(newest(page).url);
        if (u.protocol !== 'wss:' || u.host !== 'noodle.test' || u.pathname !== '/ws') throw new Failed(2217);
        start(page);
        const s = newest(page).sent; if (s.length !== 1) throw new Failed(2203);
        let t = s[0].split('\n'), wl = s[0].indexOf('\n#wordlist');
        if (own) { if (!s[0].endsWith('\n#wordlist\n' + own)) throw new Failed(2218); t = s[0].slice(0, -('\n#wordlist\n' + own).length) } else t = s[0];
        // the settings come first, so that the query can override them
        if (!t.endsWith(q)) throw new Failed(2219);
        const head = t.slice(0, t.length - q.length); if (!head.endsWith('\n')) throw new Failed(2219);
        const l = head.split('\n').map(x => x.trim()).filter(x => x).sort();
        if (l.join('|') !== ['#dict ' + list, '#limit ' + limit, '#words ' + depth].join('|')) throw new Failed(2220);
        // opening the address gives the query again
        const again = new Page(w, page.location.hash, LISTS());
        if (again.get('input').value !== q) throw new Failed(2221);
        w.obs.push(s[0].length); w.covers.add(own ? 2 : 1);
    }
}
/** The menu of wordlists. `a`: how many; `b`: the place of the default one. */
function menu(w, a, b) {
    const l = []; for (let i = 0; i < a; i++) l.push({ name: i === b ? 'default' : 'w' + i, len: w.value(0, 5000000) });
    const page = new Page(w, '', l.map(x => Object.assign({}, x))), o = page.get('wordlist').children;
    const names = o.map(x => x.value !== undefined ? x.value : x.textContent.trim());
    if (names.length !== a || l.some(x => !names.includes(x.name))) throw new Failed(2222);
    for (let i = 0; i + 1 < a; i++) w.require(w.bin('>=', l.find(x => x.name === names[i]).len, l.find(x => x.name === names[i + 1]).len), 2223);
    if (page.get('wordlist').value !== 'default') throw new Failed(2224);
    w.obs.push(names.indexOf('default')); w.covers.add(1);
}
/** The examples. */
function example(w) {
    const page = new Page(w, '', LISTS()), l = page.document.querySelectorAll('a.example'); if (!l.length) throw new Failed(2225);
    const x = l[w.choose(l.length)], t = x.textContent.trim(); w.notes.push(t);
    page.click(x); if (page.sockets.length !== 1) throw new Failed(2202);
    start(page);
    const want = t.split(/; */).join('\n');
    if (page.get('input').value !== want || !newest(page).sent[0].endsWith('\n' + want)) throw new Failed(2226);
    if (x.href && new Page(w, '#' + x.href.replace(/^[^#]*#/, ''), LISTS()).get('input').value !== want) throw new Failed(2221);
    w.obs.push(want.length); w.covers.add(1);
}
module.exports = { SCENARIOS: { 220: events, 221: query, 222: menu, 223: example } };
