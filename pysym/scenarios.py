"""What is asked of /repo/listgen/listgen.py."""
import os, shutil, sys, tempfile, types
import sym
from sym import Num, Truth, number, term

SOURCE = '/repo/listgen/listgen.py'
CODE = []; ARCHIVE = ['']
class Stub(types.ModuleType):
    """The libraries for JSON and for compressed files, which are not installed: every archive holds ARCHIVE."""
    def __init__(self, n):
        super().__init__(n); import io, json
        if n == 'orjson': self.loads = json.loads; self.dumps = lambda x, *a, **k: json.dumps(x).encode(); self.JSONDecodeError = json.JSONDecodeError
        else: self.open = lambda *a, mode='rb', **k: io.StringIO(ARCHIVE[0]) if 'b' not in (a[1] if len(a) > 1 else mode) else io.BytesIO(ARCHIVE[0].encode())
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise sym.Stop('%s is not modelled' % n)
def load(native):
    """A fresh copy of the module; unless native, numbers in texts may be unknown."""
    for n in ('orjson', 'zstandard'):
        if n not in sys.modules: sys.modules[n] = Stub(n)
    sys.dont_write_bytecode = True
    if not CODE:
        with open(SOURCE) as f: CODE.append(compile(f.read(), SOURCE, 'exec'))
    m = sys.modules['listgen'] = types.ModuleType('listgen')
    exec(CODE[0], m.__dict__)
    m.print = lambda *a, **k: None
    if not native: m.int, m.float, m.math = sym.sym_int, sym.sym_float, sym.Math()
    return m
class Folder:
    def __enter__(self):
        from pathlib import Path
        self.d = tempfile.mkdtemp(prefix='listgen-'); return Path(self.d)
    def __exit__(self, *a): shutil.rmtree(self.d, ignore_errors=True)
def truth(x): return x.t if isinstance(x, Truth) else (sym.z3.BoolVal(bool(x)))
def both(*c): return Truth(sym.z3.And(*[truth(x) for x in c])) if any(isinstance(x, Truth) for x in c) else all(c)
def some(*c): return Truth(sym.z3.Or(*[truth(x) for x in c])) if any(isinstance(x, Truth) for x in c) else any(c)
def no(c): return ~c if isinstance(c, Truth) else not c
def rows(path, columns, id):
    with open(path) as f: t = f.read()
    if t and not t.endswith('\n'): raise sym.Failed(id)
    r = []
    for l in t.split('\n')[:-1]:
        x = l.split('\t')
        if len(x) != columns: raise sym.Failed(id)
        n = number(x[0])
        if n is None: raise sym.Failed(id)
        r.append([n] + x[1:])
    return r

# Spellings of two words that fare alike, and of some that are no words.
FORMS = [('ab', 'cd'), ('Ab', 'Cd'), ('\u00e1b', '\u00e7d'), ('AB', 'CD'), ('ab...', 'cd...'), ('ab.', 'cd.')]
ODD = ['b2b', '', '\u0436']
CANON = {f: 'ab' if i == 0 else 'cd' for x in FORMS for i, f in enumerate(x)}
def choose_word(w, forms, odd):
    """(text, canonical form, kind)"""
    n = 2 * len(forms) + odd; k = w.choose(n)
    if k >= 2 * len(forms): return ODD[k - 2 * len(forms)], '', -1
    t = FORMS[forms[k // 2]][k % 2]; return t, CANON[t], forms[k // 2]

def create(w, a, b, c, d):
    """create_wordlist. `a`: lines of the three files (decimal digits); `b`: which spellings (bits); `c`: how many words that are none (10 more: compared with cutoff 1); `d`: cutoff."""
    m = load(w.native); forms = [i for i in range(len(FORMS)) if b >> i & 1]
    count = {}; present = [set(), set(), set()]
    with Folder() as p:
        for f, name in enumerate(('enwiktionary.txt', 'title.txt', 'body.txt')):
            seen = set()
            with open(p / name, 'w') as o:
                for _ in range(a // 10 ** (2 - f) % 10):
                    t, canon, kind = choose_word(w, forms, c % 10)
                    if t in seen: raise sym.Assumed
                    seen.add(t); n = w.value(1, 1000000)
                    count[f, canon, kind] = n
                    if canon: present[f].add(canon)
                    o.write('%s\t%s%s\n' % (n, t + '\t' if f == 0 else '', t))
        w.notes.append('; '.join((p / n).read_text().replace('\n', ' / ') for n in ('enwiktionary.txt', 'title.txt', 'body.txt')))
        if c >= 10:
            # the same words with the lowest cutoff, and what they scored
            m.create_wordlist(p, 1).dump(p / 'points'); points = {x[1]: x[0] for x in rows(p / 'points', 3, 2101)}
        m.create_wordlist(p, d)
        kinds = [(f, k) for f in range(3) for k in forms]
        def more(x, y, files, margin):
            """x has at least the counts of y (and in one place clearly more)"""
            ks = [(count.get((f, x, k), 0), count.get((f, y, k), 0)) for f, k in kinds if f in files]
            return both(*[i >= j for i, j in ks], *([some(*[i >= j + margin for i, j in ks])] if margin else []))
        for name, files, all_of in (('wordlist.%d.txt' % d, (0, 1, 2), True), ('wiktionary.tsv', (0,), False), ('wiki-titles.tsv', (0, 1), False)):
            r = rows(p / name, 2, 2101)
            names = [m.canonicalize(x[1]) for x in r]
            w.obs.append(len(r)); w.obs += [ord(n[0]) if n else 0 for n in names]
            if len(set(names)) < len(names): raise sym.Failed(2102)
            for x, n in zip(r, names):
                if x[1] not in [f for f, q in CANON.items() if q == n] or n not in present[files[-1]] and not all_of or n not in present[0] | present[1] | present[2]: raise sym.Failed(2103)
                w.require(x[0] >= 0, 2104); w.require(x[0] <= 1000000, 2109)
            if len(r) > 1: w.require(some(*[x[0] >= 999999 for x in r]), 2110)
            for i in range(len(names)):
                for j in range(i): w.require(no(more(names[i], names[j], files, 10)), 2105)
            if all_of:
                for x, y in (('ab', 'cd'), ('cd', 'ab')):
                    cs = [count.get((f, x, k), 0) for f, k in kinds]
                    if x in names:
                        total = 0
                        for i in cs: total = total + 6 * i + (i > 0 if w.native else 1)
                        w.require(total >= d, 2106)
                    else:
                        w.require(both(*[i < 100 * d for i in cs]), 2107)
                        if y in names: w.require(no(more(x, y, files, 0)), 2107)
            if all_of and c >= 10:
                for x in ('ab', 'cd'):
                    if x in points: w.require(points[x] >= d if x in names else no(points[x] >= d), 2108)
                    elif x in names: raise sym.Failed(2108)
            w.covers.add(len(r))

def frequency(w, a, b, c, d):
    """word_frequency. `a`: lines of two title files and two body files (decimal digits); `b`, `c` as above; `d`: the largest count."""
    m = load(w.native); forms = [i for i in range(len(FORMS)) if b >> i & 1]
    total = {}; files = ('enwiki-0.title-wordlist', 'enwiki-1.title-wordlist', 'enwiki-0.body-wordlist', 'enwiki-1.body-wordlist')
    with Folder() as p:
        for f, name in enumerate(files):
            seen = set()
            with open(p / name, 'w') as o:
                for _ in range(a // 10 ** (3 - f) % 10):
                    t, canon, _ = choose_word(w, forms, c)
                    if t in seen: raise sym.Assumed
                    seen.add(t); n = w.value(1, d or 1000000)
                    total[f // 2, canon] = total.get((f // 2, canon), 0) + n
                    o.write('%s\t%s\n' % (n, t))
        w.notes.append('; '.join((p / n).read_text().replace('\n', ' / ') for n in files))
        m.word_frequency(p)
        form = {}
        for f, name in enumerate(('title.txt', 'body.txt')):
            r = rows(p / name, 2, 2111); got = {}
            for n, t in r:
                x = m.canonicalize(t)
                if x:
                    if x in got: raise sym.Failed(2112)
                    got[x] = n
                    if form.setdefault(x, t) != t: raise sym.Failed(2113)
            for x in ('ab', 'cd'):
                if (x in got) != ((f, x) in total): raise sym.Failed(2114)
                if x in got: w.require(got[x] == total[f, x], 2115); w.obs.append(got[x])
            w.covers.add(len(got))

def lists(w, a, b, c, d):
    """Wordlist: load, add_word, merge and dump. `a`: lines of each of two lists; `b`, `c` as above; `d`: 1 merged, 0 one list."""
    m = load(w.native); forms = [i for i in range(len(FORMS)) if b >> i & 1]; want = {}; texts = {}
    with Folder() as p:
        ls = []
        for k in range(1 + d):
            mine = {}
            with open(p / ('in%d' % k), 'w') as o:
                for _ in range(a // 10 ** k % 10):
                    t, canon, _ = choose_word(w, forms, c); n = w.value(0, 1000000)
                    o.write('%s\t%s\n' % (n, t))
                    if not canon: continue
                    texts.setdefault(canon, set()).update((t, t.rstrip('.')))
                    mine[canon] = n if canon not in mine or n > mine[canon] else mine[canon]
            for x, n in mine.items(): want[x] = want.get(x, 0) + n
            ls.append(m.Wordlist.load(p / ('in%d' % k)))
        w.notes.append('; '.join((p / ('in%d' % k)).read_text().replace('\n', ' / ') for k in range(1 + d)))
        l = ls[0]
        if d: l.merge(ls[1])
        l.dump(p / 'out')
        r = rows(p / 'out', 3, 2121); got = [x[1] for x in r]
        # words without a canonical form are not of interest
        got = [x for x in got if x]; r = [x for x in r if x[1]]
        if len(set(got)) < len(got): raise sym.Failed(2122)
        if set(got) != set(want): raise sym.Failed(2123)
        for n, x, t in r:
            w.require(n == want[x], 2124)
            if t not in texts[x]: raise sym.Failed(2125)
        for x, y in zip(r, r[1:]): w.require(x[0] >= y[0], 2126)
        w.obs += [x[0] for x in r]; w.covers.add(len(r))

# Words of texts, and what is left of them.
LOOSE = [('ab', 'ab'), ('(ab)', 'ab'), ('Cd,', 'Cd'), ('12', ''), ('a\u2013b', 'a-b'), ('x_y', ''), ('www.ab', ''), ("it's.", "it's"), ('\u00e7d', '\u00e7d'), ('a:b', ''), ('\u0436', ''), ('Retrieved', 'Retrieved')]
def article(w, n, k):
    return [LOOSE[w.choose(k)] for _ in range(n)]
def texts(m, lines):
    """The archive holds `lines`."""
    import json; ARCHIVE[0] = ''.join(json.dumps(x) + '\n' for x in lines)
def extract(w, a, b, c, d):
    """extract_word_frequency. `a`, `b`: words in the title and the body of each article (a digit each); `c`: how many kinds of words; `d`: articles without a title or a body."""
    m = load(w.native); want = [{}, {}]; lines = []
    for i in range(len(str(a))):
        t, y = article(w, int(str(a)[i]), c), article(w, int(str(b)[i]), c); none = w.choose(3) if d else 0
        lines.append([None if none == 1 else ' '.join(x[0] for x in t), 0.5, None if none == 2 else ' '.join(x[0] for x in y)])
        if none: continue
        # the second word `Retrieved` between others ends the text
        at = [k for k, x in enumerate(y) if x[0] == 'Retrieved' and 0 < k < len(y) - 1]
        for k in range(1, len(at)):
            if at[k] > at[0] + 1: y = y[:at[k]]; break
        for f, ws in enumerate((t, y)):
            for x in ws:
                if x[1]: want[f][x[1]] = want[f].get(x[1], 0) + 1
    w.notes.append(str(lines))
    with Folder() as p:
        texts(m, lines); m.extract_word_frequency(p / 'enwiki-main.json.zst')
        for f, e in enumerate(('title', 'body')):
            names = list(p.glob('*.%s-wordlist' % e))
            if len(names) != 1: raise sym.Failed(2131)
            r = rows(names[0], 2, 2132); got = {}
            for n, t in r:
                if not t: continue
                if t in got: raise sym.Failed(2133)
                got[t] = n
            if got != want[f]: raise sym.Failed(2134)
            w.obs += sorted(got.values())
        w.covers.add(min(2, len(want[0]) + len(want[1])))
def wiktionary(w, a, b, c=0, d=0):
    """wiktionary_wordlist. `a`: entries with so many other forms each (decimal digits); `b`: how many words there are."""
    m = load(w.native); words = ['ab', 'Ab', 'cd', 'a b', '12', '\u00e1b'][:b]; lines = []; full, form = {}, {}
    for n in [int(x) for x in str(a)]:
        k = w.choose(3); t = words[w.choose(len(words))]; fs = [words[w.choose(len(words))] for _ in range(n)]
        e = {'lang_code': 'en' if k else 'de', 'pos': 'noun'}
        if k != 2: e['word'] = t
        if n: e['forms'] = [{'form': x, 'tags': []} for x in fs]
        lines.append(e)
        if k != 1: continue
        if t in ('ab', 'Ab', '\u00e1b'): full.setdefault('ab', set()).add(t)
        if t == 'cd': full.setdefault('cd', set()).add(t)
        for x in fs:
            if x in ('ab', 'cd'): form.setdefault(x, set()).add(x)
    w.notes.append(str(lines)); texts(m, lines)
    l = m.wiktionary_wordlist('words.json.zst')
    with Folder() as p: l.dump(p / 'out'); r = [x for x in rows(p / 'out', 3, 2141) if x[1]]
    if len({x[1] for x in r}) < len(r): raise sym.Failed(2142)
    if {x[1] for x in r} != set(full) | set(form): raise sym.Failed(2143)
    for n, x, t in r:
        if n <= 0 or x in full and x not in form and n != 1000 or t not in full.get(x, set()) | form.get(x, set()): raise sym.Failed(2144)
    for n, x, _ in r:
        for n2, x2, _ in r:
            if x in full and x2 not in full and not n > n2: raise sym.Failed(2145)
    if [x[0] for x in r] != sorted((x[0] for x in r), reverse=True): raise sym.Failed(2146)
    w.obs += [x[0] for x in r]; w.covers.add(len(r))
# Characters of words; what they become in a canonical form (None: the word has none).
ALPH = [('a', 'a'), ('B', 'b'), ('\u00e9', 'e'), ("'", "'"), ('.', '.'), ('-', '-'), ('\u00e6', 'ae'), ('1', None), ('_', '_'), ('\u2013', None), (':', ':'), ('\u0436', None), ('\u00df', 'ss'), ('\u0152', 'oe'), ('\ufb01', 'fi'), ('&', '&'), ('/', '/'), ('\u00c6', 'ae'), ('(', '(')]
PIECES = [('www.', ), ('.com', ), ('.co.', ), ('.org', ), ('com', ), ('ww.', )]
def stripped(t):
    """What is left of a word of a text."""
    if not any('a' <= x <= 'z' or 'A' <= x <= 'Z' for x in t): return ''
    t = t.replace('\u2013', '-')
    while t and not (t[0].isalnum() or t[0] == '_'): t = t[1:]
    while t and not (t[-1].isalnum() or t[-1] == '_'): t = t[:-1]
    if any(not x.isalnum() and x not in "/-,.&'" for x in t): return ''
    if 'www.' in t or any('.' + x in t for x in ('com', 'co.', 'org', 'net', 'gov', 'biz', 'info')): return ''
    return t
def canonical(t):
    """The letters (and what is between them), or nothing."""
    if any(dict(ALPH)[x] is None for x in t): return ''
    t = ''.join(dict(ALPH)[x] for x in t)
    while t and not 'a' <= t[0] <= 'z': t = t[1:]
    while t and not 'a' <= t[-1] <= 'z': t = t[:-1]
    return t
def spelling(w, a, b, c=0, d=0):
    """One word of up to `a` characters out of `b`, in a title (c = 0) or a list (c = 1); `d`: that piece is somewhere in it."""
    m = load(w.native); ch = [ALPH[w.choose(b)][0] for _ in range(w.choose(a) + 1)]
    if d: ch.insert(w.choose(len(ch) + 1), PIECES[d - 1][0])
    t = ''.join(ch); w.notes.append(t)
    with Folder() as p:
        if c == 0:
            texts(m, [['%s %s' % (t, t), 0.5, 'zz']]); m.extract_word_frequency(p / 'enwiki-main.json.zst')
            r = [x for x in rows(list(p.glob('*.title-wordlist'))[0], 2, 2132) if x[1]]; q = stripped(t)
            if r != ([[2, q]] if q else []): raise sym.Failed(2151)
        else:
            q = canonical(stripped(t)); n = w.value(0, 1000000)
            (p / 'in').write_text('%s\t%s\n' % (n, t)); m.Wordlist.load(p / 'in').dump(p / 'out')
            r = [x for x in rows(p / 'out', 3, 2121) if x[1]]
            if [x[1:] for x in r] != ([[q, stripped(t)]] if q else []): raise sym.Failed(2152)
            if r: w.require(r[0][0] == n, 2153)
        w.obs.append(len(r)); w.covers.add(len(r))
SCENARIOS = {210: create, 211: frequency, 212: lists, 213: extract, 214: wiktionary, 215: spelling}
