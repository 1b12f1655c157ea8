#!/usr/bin/env python3
"""Writes the section on properties of DESIGN.md from jobs.py, properties.jsonl and seeded/."""
import json, os, re, sys
sys.dont_write_bytecode = True
import jobs as J
HERE = os.path.dirname(os.path.abspath(__file__))
HOW = {
 'C01': 'scenario 1, 2: expression x word through `QueryEvaluator`, verdict compared with the denotational matcher; scenario 15: repetitions with large counts, against counting. Reaches what the tests cannot because the automaton is simplified (merging and pruning of states) and only particular shapes break.',
 'C02': 'scenarios 4, 6, 8: fuzzy expression x words, oracle is edit distance to the language (dynamic programming over the matcher), for single words, several words in one list (tables are reused from word to word) and phrases.',
 'C03': 'scenarios 30, 31: anagram line x word, oracle counts letters; inside larger expressions, no word may be lost.',
 'C04': 'scenarios 40, 41: options and explicit symbols x words with arbitrary symbols; enumerations x lists.',
 'C05': 'scenario 5: results of a conjunction over a symbolic list = filter of the list by the oracle, in order. Scenarios 12, 13: long lists with one arbitrary word.',
 'C06': 'scenario 6: phrases returned = all tuples of list words whose text all expressions accept, each once. Scenario 15: repetitions with large counts, divided among words, against counting.',
 'C07': 'scenario 7: order of results and prefix property under limits; scenario 14: the first few results where the list and the phrases are long (the number of tuples passes 2^64) — nothing comes while a shorter or more common phrase, counted independently, is still missing.',
 'C08': 'scenarios 8, 9: each word alone and in the list; phrases with one word left out of the list.',
 'C09': 'scenario 10: run with a symbolic clock against an uninterrupted run.',
 'C10': 'scenario 11: the protocol of responses as a monitor, for both interfaces.',
 'C11': 'scenarios 110-113: text with arbitrary bytes; reachable panic, overflow or endless loop; line of the error.',
 'C12': 'scenarios 120-122: print, parse, compare options and verdicts on symbolic words.',
 'C13': 'scenarios 130-132 (program `words`): `Word::new` on symbolic text against tables generated from the Unicode data of Python (`unicodedata`), and all operations of `Char` and `CharBitset` against a plain list of members.',
 'C14': 'scenarios 140-141 (program `words`): `load_wordlist` on a file with symbolic contents (the system calls open, read and close are provided by the harness; natively it is a real file) against a line-by-line reading of the bytes.',
 'C15': 'scenarios 150-154: two texts that must mean the same, or an option that must be set.',
 'C16': 'scenarios 160-163 (program `bits`, which includes src/bitset.rs as a module): sequences of operations on the bit sets against arrays of booleans; the elements are symbolic.',
 'C17': 'scenario 17: progress() between all steps of symbolic runs; number between 0 and 100; same results.',
 'C18': 'scenario 18: odd lists and all depth 1 trees: no panic, no bad memory access, an end.',
 'C19': 'scenarios 190, 191: spellings of a tree, and texts with a meaning known by construction. Scenario 15: large counts, against counting.',
 'C20': 'scenarios 200-202, 204 (program `webapp`: /repo/noodle-webapp/src/main.rs itself as a binary, linked with small stand-ins for warp, tokio and hyper in `web/`): the solver decides at every poll whether a client leaves, its connection breaks, stalls, or it writes again, and whether the clock jumps; a monitor compares what the client receives with the search on the same wordlist. The real servers\' races (who leaves when) become symbolic choices, which no test controls.',
 'C21': 'scenarios 210-215 (`pysym/`, a symbolic executor for Python): the functions of /repo/listgen/listgen.py are run with counts that are z3 terms; each branch on one is decided by z3, each feasible sequence of decisions is executed, and what is required of the files written is a query over all counts on that path. Spellings and texts are chosen by the solver from short lists.',
 'C22': 'scenario 203 (program `cli`: /repo/noodle-cli/src/main.rs itself, with a stand-in for structopt whose answers are symbolic): lines on standard output against the search.',
 'C23': 'scenarios 220-223 (`page/`, a symbolic executor for JavaScript): the script of index.html is rewritten so that every operation and branch on a number asks z3, and run in a small stand-in for a browser; the solver chooses the events and the scores, and after each event what is shown is compared with a monitor.',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
seeds = {}
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = os.path.join(HERE, 'seeded', d, 'meta.json')
    if os.path.exists(m): m = json.load(open(m)); seeds.setdefault(m['property'], []).append((d, m))
o = []
for p in props:
    i = p['id']; s = J.PROPS[i]
    o.append('**%s** %s' % (i, p['title'])); o.append('- How: ' + HOW[i])
    o.append('- Quick bounds: ' + '; '.join(s.bounds) + '.')
    if s.bounds_thorough: o.append('- Thorough adds: ' + '; '.join(s.bounds_thorough) + '.')
    o.append('- Outside: ' + '; '.join(s.outside) + '.')
    if s.assumptions: o.append('- Assumes: ' + '; '.join(s.assumptions) + '.')
    o.append('')
f = os.path.join(HERE, 'DESIGN.md'); t = open(f).read()
def put(t, name, text):
    a = t.index('<!-- %s -->' % name); b = t.index('<!-- end %s -->' % name)
    return t[:a] + '<!-- %s -->\n' % name + text + '\n' + t[b:]
t = put(t, 'properties', '\n'.join(o))
r = ['| change | check that catches it | what it breaks |', '|---|---|---|']
for p in props:
    for d, m in seeds.get(p['id'], []): r.append('| %s | %s | %s |' % (d, p['id'], m['what_it_breaks']))
t = put(t, 'seeds', '\n'.join(r))
open(f, 'w').write(t)
