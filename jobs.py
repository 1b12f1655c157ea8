"""What each property's check runs: scenario numbers, arguments, bounds."""
class Job:
    def __init__(self, name, args, secs): self.name, self.args, self.secs = name, args, secs
class Prop:
    def __init__(self, quick, thorough, covers, bounds, bounds_thorough, outside, assumptions=(), bin='harness', secs=(240, 760), fixed=()):
        self.quick, self.thorough, self.covers = quick, thorough, sorted(covers)
        self.cover_meaning = covers; self.bounds, self.bounds_thorough, self.outside = bounds, bounds_thorough, outside
        self.assumptions, self.bin, self.secs = list(assumptions), bin, secs
        self.scenarios = SCENARIOS
SCENARIOS = {1: 'regex: one expression against one word', 2: 'wide automaton: many states, long word', 3: 'fuzzy: a list of words', 12: 'long list with one arbitrary word', 13: 'long list, each word alone and within it', 4: 'fuzzy: edit distance of one word', 5: 'conjunction over a list', 6: 'phrases of a list',
    7: 'order and limits', 14: 'first results of long lists and phrases', 15: 'counted repetition', 16: 'phrases of many words', 8: 'each word alone and within the list', 9: 'list with a word left out', 10: 'deadlines', 11: 'responses and limits', 17: 'progress', 18: 'totality on odd lists',
    30: 'anagram line', 31: 'anagram inside an expression', 32: 'anagram line of many letters', 40: 'options', 41: 'enumeration', 190: 'spellings of a tree', 191: 'texts with known meaning', 110: 'any text', 111: 'numbers', 112: 'line of an error',
    113: 'nesting and expanding macros', 150: 'comments and separators', 151: 'macros', 152: 'pragmas', 153: 'inline wordlist', 154: 'several lines', 120: 'print and parse a tree', 121: 'print and parse a text', 122: 'print and parse an anagram',
    130: 'normalisation of ASCII text', 131: 'normalisation of other characters', 132: 'the characters themselves', 140: 'wordlist file', 141: 'tiers of a long wordlist file', 160: 'one-dimensional bit sets', 161: 'two-dimensional bit sets', 162: 'three-dimensional bit sets', 163: 'comparison and duplication of bit sets', 164: 'compaction of a plane',
    200: 'websocket clients', 201: 'queries over HTTP', 202: 'wordlists over HTTP', 203: 'command line', 204: 'large query texts',
    210: 'list from counted words', 211: 'counts merged', 212: 'lists of words', 213: 'words of articles', 214: 'words of a dictionary', 215: 'spellings of one word',
    220: 'events on the page', 221: 'what the page sends', 222: 'menu of wordlists', 223: 'examples of the page'}
def js(spec, q=240):
    """Lines `name scenario a b c d [seconds]`."""
    r = []
    for l in spec.strip().splitlines():
        l = l.split('#')[0].split()
        if not l: continue
        a = [int(x) for x in l[1:]]
        r.append(Job(l[0], tuple((a + [0] * 5)[:5]), a[5] if len(a) > 5 else q))
    return r
def th(spec): return js(spec, 700)

ASSUMPTIONS = ['the compiled form of the code (LLVM IR of noodle and its dependencies, one fixed optimisation level) means what the source says; every reported counterexample is run on a native build, and so is a sample of the passing paths',
    'memory allocation never fails', 'the instruction semantics of engine/ and the answers of z3 are right']
MEANING = {9999: 'unknown scenario'}
def meaning(base, d):
    for k, v in d.items(): MEANING[base + k] = v
FOUND = {1: 'the word is found', 2: 'the word is not found'}
for b in (100, 120, 200, 3010, 3110, 4010, 19010, 19110):
    meaning(b, {0: 'a word that must be found is not found', 1: 'a word is found that must not be', 2: 'the search does not end', 3: 'a word is found more than once'})
meaning(0, {301: 'the single words found are not those all expressions accept', 302: 'the search does not end', 303: 'single words out of list order or repeated', 305: 'a single word after a phrase',
    401: 'the phrases found are not the matching ones', 402: 'the search does not end', 403: 'a phrase is found more than once', 404: 'a result that is not a phrase of the list within the length limit',
    502: 'the search does not end', 503: 'the limited search does not end', 504: 'wrong number of results under a limit', 505: 'a limit changes which results come first', 506: 'not exactly one completion',
    510: 'a phrase before a single word', 511: 'single words out of list order', 512: 'a longer or rarer phrase before a shorter and more common one', 513: 'phrases of the same kind out of list order', 514: 'a result before better ones that must come first',
    601: 'a word has another verdict alone than within the list', 602: 'the search does not end', 603: 'the search does not end', 610: 'adding a word changes which phrases of the other words are found',
    901: 'interrupted search gives other results', 902: 'the search does not end', 903: 'the interrupted search does not end', 904: 'a timeout although the deadline has not passed', 905: 'completions differ', 906: 'something after completion',
    1002: 'no completion', 1003: 'the query text is rejected', 1004: 'ended without exactly one completion', 1005: 'a result after completion', 1006: 'an empty result, or one with more words than allowed', 1007: 'more results than the limit', 1008: 'a second completion',
    1009: 'a timeout without a deadline', 1010: 'a log after completion', 1011: 'something after the end', 1012: 'not complete any more', 1013: 'the search does not end', 1014: 'results cut off although the limit was not reached',
    1701: 'progress above 100 percent', 1702: 'the search does not end', 1703: 'the search does not end', 1704: 'asking for progress changes the results', 1802: 'the search does not end', 1803: 'not exactly one completion', 1804: 'a result that is not in the list',
    1301: 'the tier is changed', 1302: 'the score is changed', 1303: 'the text is changed', 1304: 'wrong number of characters', 1305: 'wrong character', 1306: 'no boundary at the end', 1311: 'a character is classified wrongly', 1312: 'numbers of characters change', 1313: 'wrong character shown', 1314: 'a shown character means another', 1315: 'two conversions differ', 1316: 'equality is wrong', 1317: 'order is wrong',
    1321: 'intersection is wrong', 1322: 'membership is wrong', 1323: 'equality is wrong', 1324: 'a range of letters is wrong', 1331: 'wrong length when shown', 1332: 'shown wrongly', 1401: 'wrong number of words', 1402: 'not sorted by tier', 1403: 'a word is missing or wrong', 1411: 'the tier does not fit the position', 1412: 'the first word is not in the first tier', 1413: 'tiers do not grow with the position', 1414: 'tiers do not grow', 1415: 'a tier is too large or too small',
    1601: 'membership is wrong', 1602: 'emptiness is wrong', 1603: 'iteration goes on for too long', 1604: 'iteration is not in order or leaves the size', 1605: 'iteration leaves out an element', 1606: 'iteration invents an element', 1607: 'membership is wrong', 1608: 'the subset test is wrong', 1609: 'equality is wrong', 1610: 'iterations differ', 1611: 'a copy differs', 1612: 'changing the size changes the elements',
    3001: 'an anagram is rejected', 3101: 'an anagram is rejected', 4001: 'a query is rejected', 4101: 'an enumeration is rejected', 4102: 'the search does not end', 19001: 'a documented form is rejected', 19101: 'a documented form is rejected', 19002: 'the search does not end', 19102: 'the search does not end',
    1102: 'the search does not end', 1103: 'not exactly one completion', 1104: 'the error names a line that does not exist', 1105: 'an error without text', 1106: 'the error names another line than the bad one',
    1501: 'the plain text is rejected', 1502: 'the decorated text is rejected', 1503: 'comments or separators change the expressions', 1504: 'comments or separators change the options', 1505: 'an expression is lost',
    1511: 'a text with macros is rejected', 1512: 'the text with replacements made by hand is rejected', 1513: 'macros give other expressions than replacing by hand', 1514: 'macros give other options than replacing by hand', 1515: 'an expression is lost',
    1521: 'a pragma is rejected', 1522: 'wrong number of expressions', 1523: 'a pragma sets another option', 1524: '#limit has another value', 1525: '#words has another value', 1526: '#quiet has another value', 1527: '#dict has another value',
    1531: 'a query with a wordlist is rejected', 1532: 'no wordlist', 1533: 'wrong number of words', 1534: 'wrong number of expressions', 1535: 'wrong characters', 1536: 'wrong characters', 1537: 'a word is missing', 1538: 'the search does not end', 1539: 'the inline wordlist is not what is searched',
    1541: 'a query is rejected', 1542: 'wrong number of expressions', 1543: 'the search does not end', 1544: 'lines are not combined by AND',
    12002: 'the search does not end', 12010: 'printed text is rejected', 12011: 'options change', 12012: 'the printed expression means something else', 12020: 'printed text is rejected', 12021: 'options change', 12022: 'printed text is rejected', 12023: 'printing is not stable',
    12024: 'the expression is rejected', 12030: 'printed text is rejected', 12031: 'options change', 12032: 'the printed expression means something else', 12040: 'rejected', 12041: 'printed text is rejected', 12042: 'rejected', 12043: 'printed text is rejected', 12044: 'options change', 12047: 'the printed anagram means something else'})

meaning(2100, {1: 'a generated list has a line of the wrong form', 2: 'a word is listed twice', 3: 'a word is listed that was not in the input', 4: 'a number is negative', 5: 'a more frequent word comes after a less frequent one', 6: 'a word below the cutoff is listed', 7: 'a frequent word is lost', 8: 'the cutoff is not where the scores reach it',
    11: 'a list of counts has a line of the wrong form', 12: 'a word is counted twice', 13: 'a word is spelled differently in two lists', 14: 'a word is lost or invented', 15: 'the count is not the sum of the counts',
    21: 'a line of the wrong form', 22: 'a word is listed twice', 23: 'a word is lost or invented', 24: 'the score is wrong', 25: 'a spelling that was not in the input', 26: 'not in order of the score',
    31: 'not one list for titles and one for texts', 32: 'a line of the wrong form', 33: 'a word is listed twice', 34: 'a word is not counted as often as it occurs', 41: 'a line of the wrong form', 42: 'a word is listed twice', 43: 'a word is lost or invented', 44: 'the score or the spelling is wrong', 45: 'a form of a word counts as much as a word', 46: 'not in order of the score'})
meaning(2000, {1: 'the body of a reply breaks off', 2: 'a reply that is not text', 3: 'a request is refused', 4: 'the server does not start', 5: 'a metric is missing', 6: 'a websocket is refused', 7: 'a websocket is never served to the end',
    10: 'queries are active before any was asked', 11: 'the number of active queries is not that of the clients waiting', 12: 'queries stay active after all have ended', 13: 'the websocket is not closed once', 14: 'a message after closing', 15: 'the query of a client that left goes on',
    16: 'a result that the search does not give', 17: 'a result is reported wrongly or out of order', 18: 'something after the final status', 19: 'the query is announced wrongly', 20: 'a message of unknown kind', 21: 'more than one final status', 22: 'a timeout before the time limit', 23: 'no final status', 24: 'a result is lost', 25: 'the client is not told what is wrong with the query', 26: 'the number of queries is counted wrongly',
    31: 'the answer to a bad query is not the reason', 41: 'a wordlist is shown wrongly', 42: 'the size of a wordlist is wrong in the metrics', 43: 'a wordlist is missing in the list', 44: 'something that is no wordlist is listed', 45: 'a text above the limit is accepted',
    50: 'a query is rejected', 51: 'not as many lines as results', 52: 'a line that is not the result'})
PROPS = {}
def prop(pid, *a, **k): PROPS[pid] = Prop(*a, **k)

def grid(prefix, scn, a=(0,), b=(0,), c=(0,), d=(0,), q=240):
    t = lambda x: x if isinstance(x, (list, tuple, range)) else (x,)
    return [Job('%s%s' % (prefix, ''.join('-%d' % v for v, r in ((i, a), (k, b), (l, c), (m, d)) if len(t(r)) > 1)) , (scn, i, k, l, m), q) for i in t(a) for k in t(b) for l in t(c) for m in t(d)]
def gth(*a, **k): return grid(*a, q=700, **k)

W = 'Whole program from the public API down (every function reachable from the scenario, dependencies and standard library included) is executed.'
A_WORDS = ['words of a list carry the boundary symbol at their end, as the loader and the inline wordlists make them', 'a wordlist is sorted by tier, as the loader leaves it']

prop('C01',
    grid('small', 1, 20, range(4), 3) + grid('empty', 1, 22, range(4), 2) + grid('wild', 1, 21, range(4), 1) + grid('wide', 2, range(7), 33, 2) + [Job('wide3', (2, 3, 33, 3, 0), 240), Job('wide1', (2, 1, 36, 2, 0), 240)] + grid('text', 1, 10, range(4), 3, 1) + grid('count', 15, range(5), (31, 64, 66, 130), 1) + grid('count257', 15, range(3), 257, 1),
    gth('count257', 15, (3, 4), 257, 1) + gth('count320', 15, (0, 1, 2), 320, 1) + gth('wild2', 1, 21, range(4), 2) + gth('bushy', 1, 120, range(4), 3) + gth('tail', 1, 1020, range(4), 3) + gth('mid', 1, 2020, range(4), 3) + gth('star', 1, 3020, range(4), 3) + gth('any', 1, 4020, range(4), 3) + gth('text2', 1, 20, range(4), 2, 1) + gth('deep', 1, 30, range(4), 2) + gth('wide70', 2, range(7), 70, 2),
    FOUND,
    ['trees of depth 2 with one branching child per level over a, b, . and 10 repetition forms, words of up to 3 arbitrary characters (28 symbols)', 'the same with empty groups, [ab], up to 2 characters; with empty class, boundary, punctuation, any: 1 character',
     'automata of 33 to 40 states in 7 shapes (sequence, counted repetition, substring group, alternatives, loop, long tail), words of up to 38 characters of which the last 2 or 3 are arbitrary', 'depth 1 trees written as text and parsed', 'counted repetitions (five forms) of 31 to 257 letters, words around the limits with one arbitrary letter at the beginning, middle or end'],
    ['depth 2 with two branching children; trees followed, surrounded and repeated by other terms; depth 3 with up to 2 characters; 70-state automata'],
    ['deeper nestings and larger automata', 'classes other than a, b, [ab], . and the extremes', 'fuzzy matching (C02), anagrams (C03), several expressions (C05)'], A_WORDS)
prop('C02',
    grid('one', 4, range(15), 1, 4, 0) + grid('two', 4, range(15), 2, 3, 0) + grid('any', 4, range(15), 1, 2, 1) + grid('ph', 6, (10, 11, 13), 88, 0, 2)
    + grid('list', 3, range(16), 1, 22) + grid('list3', 3, (1, 2, 4, 15), (1, 2), 33) + grid('crowd', 12, (1, 3, 4, 5, 13, 15), 1, (2005, 4000), (13, 24)) + grid('crowd2', 12, (1, 15), 2, 2010, 34)
    + grid('edits', 6, (33, 34, 35, 36), (22, 2, 3, 32, 12, 21), 0, 2) + grid('edits3', 6, (33, 34, 35, 36), (2, 12), 0, 3),
    gth('one5', 4, range(15), 1, 5, 0) + gth('two4', 4, range(15), 2, 4, 0) + gth('three', 4, range(15), 3, 3, 0) + gth('any4', 4, range(15), 1, 4, 1) + gth('any2', 4, range(15), 2, 3, 1) + gth('ph', 6, (12,), 88, 0, 2) + gth('ph3', 6, (10, 11, 13), 81, 0, 3) + gth('edits222', 6, (33, 34, 35, 36), 222, 0, 2) + gth('edits4', 6, (33, 34, 35, 36), (21, 22), 0, 3) + gth('wide', 2, (0, 1, 2, 4), 33, 2, 1) + gth('list44', 3, (2, 15), (1, 2), 44) + gth('list333', 3, (0, 1, 4, 15), 1, 333) + gth('crowd3', 12, range(16), (1, 2), (4010, 8000), (35, 44, 53)),
    FOUND,
    ['15 families of expressions of up to 4 letters, with repetitions, groups, substring groups, empty and impossible parts', '1 edit against words of up to 4 letters, 2 edits up to 3 letters; with spaces and punctuation in the word 1 edit, 2 characters', 'lists of 2 words of 2 arbitrary letters (16 families) or 3 letters (4 families, 1 and 2 edits); lists of 20 and 40 words over a and b with one arbitrary word of 3 or 4 letters: every word gets its own verdict', 'phrases of up to 2 words from lists of 2 words of 1 or 2 letters, 1 and 2 edits', 'sequences of 5 to 7 letters with 3 to 5 edits: phrases of 2 and 3 words of 1 to 3 letters'],
    ['1 edit and 5 letters, 2 edits and 4, 3 edits and 3; phrases of 3 words; conjunction of a fuzzy and an exact expression; automata of 33 states; lists of 2 words of 4 letters, 3 of 3 letters, 80 words in other orders'],
    ['more edits, longer words', 'fuzzy matching with explicit boundaries or punctuation (the documentation does not say what an edit of those is)'], A_WORDS)
prop('C03',
    grid('line', 30, range(5), 10, 4, 0) + grid('lineany', 30, range(5), 6, 3, 1) + grid('emb', 31, range(5), range(11), 4, 0) + grid('big', 32, range(5), 26, 26, 1) + grid('bigd', 32, range(5), 30, 11, 1) + grid('big2', 32, range(5), 12, 10, 2),
    gth('bigx', 32, range(5), 26, 26, 2) + gth('bigdx', 32, range(5), 40, 11, 2) + gth('bigx3', 32, range(5), 15, 13, 3) + gth('line5', 30, range(5), 10, 6, 0) + gth('lineany4', 30, range(5), 10, 5, 1) + gth('emb5', 31, range(5), range(11), 5, 0) + gth('embany', 31, range(5), range(11), 4, 1),
    FOUND,
    ['five anagram operators, ten banks of 1 to 5 letters with and without repeated letters, N up to bank size + 1', 'whole line: words of up to 4 letters, or 3 arbitrary characters', 'inside 11 kinds of larger expressions (optional, repeated, grouped, next to letters): words of up to 4 letters, nothing lost', 'whole line with banks of 26 different letters, of 30 letters with 11 different, of 12 with 10 different: words that are the bank reversed, up to 2 letters longer or shorter, with one (two for 12) arbitrary letters at two placements'],
    ['banks of 15 letters with three arbitrary letters in the word, of 26 and 40 with two', 'words of up to 6 letters (5 with any characters), 5 inside larger expressions'],
    ['banks of more than 5 letters against other words than near rearrangements', 'inside larger expressions only lost words are looked for: extra ones are documented as possible'], A_WORDS)
prop('C04',
    grid('opt', 40, range(8), 3, 0, 1) + grid('optl', 40, (0, 2, 3, 4, 5, 6, 7), 2, (2, 3), 1) + grid('enum1', 41, 9, 888, 1, 0) + grid('enum2', 41, (99, 9), 88, 2, 0) + grid('enum3', 41, (12, 111, 212), 121, 3, 0) + grid('enumany', 41, (9, 99, 3), 88, 2, 1),
    gth('opt4', 40, range(8), 4, (0, 2, 3), 1) + gth('optp', 40, range(8), 2, 0, 2) + gth('enum3', 41, (999, 99), 888, 3, 0) + gth('enumany3', 41, (99, 9, 12, 111), 128, 3, 1),
    FOUND,
    ['8 forms of line (letters, boundaries, punctuation, repetitions of them) x options !_ !\' x one or several lines, words of up to 3 arbitrary characters', 'one to three numbers of value 0 to 3, lists of 2 or 3 words of 1 or 2 letters (or any symbols), phrases of up to 3 words'],
    ['words of up to 4 characters, phrases of arbitrary characters, lists of 3 words'],
    ['larger numbers than 3 in enumerations, more than 3 numbers'], A_WORDS)
prop('C05',
    grid('c', 5, [0, 1, 2, 3, 4, 6, 7, 8, 10, 11, 13, 14, 15, 16, 17, 18, 19], 88, 1) + grid('two', 5, (5, 12), 81, 1) + grid('three', 5, (4, 8, 11, 15, 17), 888, 1) + grid('any', 5, (100, 102), 88, 1, 2) + grid('deep', 5, (0, 3, 14), 88, 2) + grid('empty', 5, (1, 3, 17), 99, 1) + grid('many', 5, (40, 41, 44), 88, 1) + grid('many2', 5, (40, 44), 88, 2) + grid('many34', 5, (42, 43), (2, 11), 1),
    gth('many', 5, (42, 43, 44), (12, 22), 1) + gth('many3', 5, (40, 41, 44), 111, 3) + gth('c3', 5, range(20), 888, 1) + gth('n2', 5, 101, 888, 1, 2) + gth('n3', 5, 100, 88, 1, 3) + gth('deep3', 5, (0, 1, 2, 3, 6, 7, 14, 18), 188, 2) + gth('four', 5, (4, 8, 13, 15, 17, 19), 8888, 1),
    FOUND,
    ['17 families of one to three expressions (repetitions, groups, substring groups, explicit boundaries, fuzzy), lists of 2 words of 1 or 2 arbitrary letters; 5 of them on lists of 3 words', 'conjunctions of 10, 13, 17, 34 and 66 expressions (one of which matters, or each of which forbids one letter, or of five kinds)', 'all pairs of depth 1 trees', 'phrase length 1 and 2'],
    ['lists of 3 and 4 words for all families, triples of depth 1 trees'],
    ['more than three expressions, longer words and lists'], A_WORDS)
prop('C06',
    grid('p', 6, [0, 1, 3, 4, 6, 8, 9, 10, 11, 13, 14, 15, 16, 17, 18, 19], 88, 0, 2) + grid('w', 6, range(20, 30), (88, 111, 211), 12, 3) + grid('tier', 6, (4, 15, 17, 19, 26), 111, (12, 112, 22), 3) + grid('dup', 6, (8, 9, 18), 81, 1, 2)
    + grid('many', 6, (37, 38, 39), (21, 12, 2), 0, 2) + grid('many3', 6, (37, 38, 39), 111, 0, 3) + grid('count', 15, range(5), (66, 100), 2) + grid('lines', 6, (40, 44), 21, 12, 2) + grid('lines34', 6, (41, 42), 11, 0, 2) + grid('deep', 16, range(6), (0, 3, 11, 15), (1, 2), 0) + grid('deepc', 16, range(6), (1, 12), (1, 2), 1) + grid('deepest', 16, range(6), (22, 34), 1, (0, 1)),
    gth('lines', 6, (40, 41, 44), 88, 12, 2) + gth('lines66', 6, 43, 11, 0, 3) + gth('count', 15, range(5), (65, 130, 160), 2) + gth('p2', 6, range(20), 88, 1, 2) + gth('p3', 6, [4, 8, 9, 13, 15, 17, 18, 19], 81, 1, 3) + gth('three', 6, [0, 1, 3, 4, 6, 15, 17, 19], 881, 11, 2) + gth('w4', 6, range(20, 30), (112, 1111), (12, 123), 4) + gth('manyx', 6, (37, 38, 39), (211, 22, 31), (0, 12), 2) + gth('many3x', 6, (37, 38, 39), 21, 12, 4) + gth('many4x', 6, (37, 39), 111, 12, 4),
    FOUND,
    ['26 families of expressions, lists of 2 words of 1 or 2 arbitrary letters, phrases of up to 2 words', '10 of them with wide results: lists of 3 words in several tiers, phrases of up to 3 words', 'several mixes of frequency tiers', 'automata of 40 to 80 states, most of which no word of the list needs', 'counted repetitions of 66 and 100 letters over phrases of two words', 'conjunctions of 10, 13, 17 and 34 expressions', 'phrases of up to 34 words made of one word of 1 or 2 arbitrary letters, six expressions, the limit on words set by the text (or not: 10) or by the caller'],
    ['the same with 2 tiers, phrases of 3 words, lists of 3 words; wide results with 4 words per phrase'],
    ['phrases of more than 4 words that are not one word repeated, more than 4 tiers'], A_WORDS)
prop('C07',
    grid('o', 7, range(20, 30), (111, 212, 121), (12, 112, 2), 2) + grid('o3', 7, range(20, 30), (11, 111), (1, 12), 3) + grid('o1', 7, (20, 21, 22, 26), 1111, 1223, 2) + grid('n', 7, (4, 15, 17), 88, 1, 2)
    + grid('far', 14, (12, 24, 40), (30, 64, 128), (1, 3), (104, 404)) + grid('star', 14, 0, (1, 2, 3, 6), (1, 2, 4), (124, 129, 404, 409)),
    gth('o4', 7, range(20, 30), (112, 1112), (123, 1123, 1223), 3) + gth('farx', 14, (12, 36), (100, 300), (1, 2, 5), (105, 609)) + gth('fary', 14, 60, (100, 300), (1, 2), (105, 609)) + gth('deep', 7, range(20, 30), 111, (12, 123), 4) + gth('n', 7, [0, 1, 3, 4, 8, 9, 10, 13, 15, 17, 18, 19], 88, 1, 3),
    {1: 'more than two results', 2: 'at most two results'},
    ['10 families of expressions with many results, lists of 3 and 4 words of arbitrary letters in several mixes of tiers (with gaps), phrases of up to 3 words', 'the first results of 12, 24 and 40 letters from lists of 30, 64 and 128 words, phrases of up to 40 words', 'the first 40 and 90 results of "any letters" from lists of 1 to 6 words in up to 4 tiers, phrases of up to 40 words', 'limits: 0 to 4, and total - 2 to total + 1'],
    ['lists of 4 words, phrases of up to 4 words, other expressions'],
    ['longer lists and phrases', 'limits in the middle of many results'], A_WORDS)
prop('C08',
    grid('h', 8, [0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16, 17, 18, 19], 88, 1, 0) + grid('three', 8, (4, 8, 15, 17), 888, 1, 0) + grid('any', 8, (3, 4, 8, 17), 82, 1, 1) + grid('ph', 8, (4, 15, 19), 88, 2, 0) + grid('g', 9, range(20, 30), (112, 121), 12, 2) + grid('gn', 9, (4, 8, 15, 17), 811, 12, 2)
    + grid('four', 8, (4, 8, 15, 17, 19), 2222, 1, 0) + grid('crowd', 13, (1, 4, 5, 15, 100, 101, 103, 115, 117), 1, 2007, 13) + grid('crowd0', 13, (100, 101, 102, 103, 115, 117), 0, 1003, 24),
    gth('h3', 8, [0, 1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16, 17, 18, 19], 888, 1, 0) + gth('long', 8, (4, 7, 8, 11, 15, 17, 19), 343, 1, 0) + gth('two', 8, (5, 12), 88, 1, 0) + gth('four8', 8, (4, 8, 15, 17), 8888, 1, 0) + gth('crowd3', 13, [1, 2, 3, 4, 5, 8, 11, 13, 15] + [100 + i for i in (0, 1, 2, 3, 6, 7, 8, 14, 15, 16, 17, 18, 19)], 1, 3005, (34, 53)) + gth('g3', 9, range(20, 30), (112, 1111), 123, 3) + gth('gn', 9, [0, 1, 3, 4, 8, 9, 10, 13, 15, 17, 18, 19], 811, 12, 2),
    FOUND,
    ['18 families of expressions: each word of lists of 2 (4 families: 3) words of 1 or 2 arbitrary letters alone and within the list; 5 families: lists of 4 words of 2 letters; 9 families with and 6 without an edit: lists of 10 and 20 words over a and b with one arbitrary word', '14 families: phrases of up to 2 words from lists of 3 words with and without each word'],
    ['lists of 3 and 4 words, words of 3 and 4 letters, phrases of 3 words'],
    ['longer lists'], A_WORDS)
prop('C09',
    grid('d', 10, range(20, 30), 121, 2, (1, 2, 12)) + grid('d1', 10, range(20, 30), 121, 1, (1, 12)) + grid('n', 10, (4, 8, 15, 17), 81, 2, (1, 12)) + grid('m', 10, (30, 31), 1000000300, 1, (1, 2)) + grid('m2', 10, (30, 31), 1000000040, 2, 1) + grid('step', 10, 32, (2000000124, 2000000250, 2000000258), 2, 201),
    gth('d3', 10, range(20, 30), 1111, 3, (1, 2, 12)) + gth('jumps3', 10, range(20, 30), 121, 2, 3) + gth('n2', 10, [0, 1, 3, 4, 8, 9, 10, 13, 15, 17, 18, 19], 88, 2, (1, 2, 12)) + gth('m', 10, (30, 31), 1000000600, 1, 2) + gth('m2', 10, (30, 31), 1000000060, 2, 2),
    {1: 'interrupted', 2: 'not interrupted', 3: 'interrupted at least twice', 4: 'interrupted with phrases among the results'},
    ['the clock is a model: time stands still and jumps past the deadline just before the reads with arbitrary numbers (up to 256 after the one before), one or two jumps', '14 families on lists of 2 or 3 words of arbitrary letters, phrases of up to 2 words; lists of 300 words (single words) and 40 words (phrases) with one arbitrary word, so that every place where the search looks at the clock is met; lists of 124 to 264 words in which the number of steps between two results takes every value around those at which the clock is read', 'with a deadline at every call, and at every second call'],
    ['three jumps, phrases of 3 words, lists of 600 words'],
    ['more interruptions in one run', 'deadlines that have passed already when given (they allow no progress)'], A_WORDS)
prop('C10',
    grid('p', 11, range(20, 30), 111, 2, (0, 1, 3, 9, 11, 13, 19, 21, 23, 29)) + grid('n', 11, (4, 8, 15, 17), 88, 2, (1, 9, 19, 21)) + grid('none', 11, (20, 22), 11, (0, 1, 4), (1, 9)),
    gth('p3', 11, range(20, 30), 112, 3, range(30)) + gth('n', 11, range(20), 88, 2, (1, 2, 9)),
    {1: 'some results', 2: 'no results', 3: 'limit reached'},
    ['14 families on lists of 2 or 3 words of arbitrary letters, phrases of up to 4 words, limits none, 0, 1, 3, given to the constructor, by the text, or set on the evaluator', 'both the iterator and the deadline interface, and what they answer after the end'],
    ['all limits from 0 to 8, phrases of up to 3 words, all families'],
    ['larger limits; changing limits while a search runs'], A_WORDS)
prop('C11',
    grid('bytes', 110, 0, (1, 2), 0, 1) + [Job('t%d' % t, (110, 1, t, t + 1, 1), 240) for t in range(42) if t not in (1, 9)] + [Job('n%d' % t, (111, t, t + 1, 0, 0), 240) for t in range(18)] + grid('line', 112, (2, 3), 14) + grid('line300', 112, (12, 300), 6) + grid('deep', 113, (0, 1, 2, 3, 6), (10, 200, 201)) + grid('deep5', 113, (0, 1, 2, 6), 50) + grid('mac', 113, (4, 5), (5, 40)),
    [Job('t%d' % t, (110, 1, t, t + 1, 1), 700) for t in (1, 9)] + [Job('bytes3', (110, 0, 3, 0, 0), 700)] + gth('line4', 112, 4, 14) + gth('deep3', 113, 3, 50) + gth('mac', 113, (4, 5), (6, 60, 100))  + gth('deep', 113, (0, 1, 2, 3, 6), (100, 199, 2000)),
    {1: 'accepted', 2: 'rejected'},
    ['texts of 1 and 2 arbitrary bytes (any value that is valid text), and 42 templates of query text with 1 or 2 arbitrary bytes anywhere in the grammar (braces, classes, pragmas, comments, macros, options, wordlists)', '18 forms with numbers from 0 to beyond 64 bits', 'errors of 14 kinds on any line of 2 or 3, of 6 kinds on four lines of 12 and 300', 'nesting of groups, repetitions and classes of 10 to 201 levels, expanding macros'],
    ['3 arbitrary bytes, the two most expensive templates, 4 lines, nesting up to 2000 levels'],
    ['longer arbitrary texts', 'memory use of queries that are accepted and large'])
prop('C12',
    grid('tree', 120, (0, 2, 3), range(4), 2) + grid('odd', 120, 1, range(4), 1) + grid('text', 121, 0, 30, 3) + grid('ana', 122, 0, 8),
    gth('tree3', 120, (0, 2, 3), range(4), 4) + gth('odd3', 120, 1, range(4), 3) + gth('ana', 122, 0, 10),
    {1: 'accepted', 2: 'not accepted'},
    ['depth 2 trees over a, b, . and 10 repetition forms, and with unusual classes; depth 1 trees with options; words of up to 2 arbitrary characters', '30 texts with every kind of term', 'anagram terms of 5 kinds and 8 banks in 4 contexts'],
    ['words of up to 4 characters, 10 banks'],
    ['deeper nestings'], A_WORDS)
prop('C15',
    grid('dec', 150, (1, 2, 3), 10) + grid('dec4', 150, (4, 5, 6), 4) + grid('mac', 151, range(12), (0, 1)) + grid('prag', 152, [0], 8) + grid('inl', 153, (1, 2), (1, 2), (1, 2)) + grid('inlong', 153, 0, 1, 1, 240) + grid('inlong1', 153, 1, 1, 1, 20) + grid('and', 154, range(4)) + grid('and13', 154, (2, 21), (40, 41, 44)) + grid('and66', 154, 2, (42, 43)),
    gth('dec', 150, (4, 5, 6, 7), 10) + gth('inl', 153, (2, 3), (2, 3), (1, 2, 3)) + gth('and', 154, range(4, 8)) + gth('and66', 154, 21, (42, 43)),
    {1: 'found', 2: 'not found'},
    ['texts of up to 6 pieces, each pair of neighbours joined in 10 ways (more than 3 pieces: 4 ways) (separators, comments of 4 kinds, blank lines)', '12 forms of macros (one with 20 of them) with definitions, uses (up to 5 in a line, values of up to 25 bytes) and redefinitions in either order and both separators', '8 pragmas with arbitrary case, limits of 2 and 4 to 5 digits', 'inline wordlists of 1 or 2 words of up to 2 arbitrary characters, alone or before 20 others; of 240 words', 'lines mean AND: 2 or 3, and 10 to 66 of them'],
    ['7 pieces in 10 ways, wordlists of 3 words'],
    ['names of macros that contain one another (replacement is textual)'])
prop('C17',
    grid('p', 17, range(20, 30), (112, 12), 2, 1) + grid('one', 17, (20, 98), (0, 1, 2, 9), (0, 1, 2, 4), 0) + grid('m', 17, (30, 31), 1000000300, 1, 1) + grid('m2', 17, (30, 31), 1000000040, 2, 1) + grid('n', 17, (4, 8, 15, 17), 88, 2, 0) + grid('chain', 17, 97, 14, (10, 16, 18, 20), 1),
    gth('p3', 17, range(20, 30), 1112, 3, 1) + gth('n', 17, [0, 1, 3, 8, 9, 10, 13, 18, 19], 88, 2, 1) + gth('m2', 17, (30, 31), 1000000060, 2, 2) + gth('m1', 17, 20, 1000000060, 1, 1),
    {1: 'a percentage is reported', 2: 'no percentage is reported', 3: 'a percentage between 0 and 100'},
    ['progress is asked for before, between and after all steps, and after interruptions at arbitrary clock reads', 'lists of 0 to 3 words of arbitrary letters, 40 and 300 words with one arbitrary word, phrases of up to 4 words; 14 words and phrases of 10 to 20 words, where the number of combinations exceeds 64 bits'],
    ['longer phrases and lists'],
    ['progress while another thread runs the search (the interface does not allow it)'], A_WORDS)
prop('C18',
    grid('t', 18, range(200, 204), 1, 2, (0, 1)) + grid('t2', 18, range(200, 204), 2, 1, 1) + grid('opt', 18, (204, 205, 206), 2, (0, 1, 3), (0, 2)) + grid('conj', 18, range(200, 204), 1, 2, 1001) + grid('lim', 18, range(200, 204), 1, 2, (11, 21)) + grid('none', 18, (200, 203, 204, 205, 206, 20, 24), 0, 2, 0),
    gth('t2', 18, range(200, 204), 2, 2, (0, 1, 2)) + gth('t3', 18, (204, 205, 206), 3, 2, (0, 1, 2)) + gth('fam', 18, range(30), 2, 2, 1) + gth('wide', 18, range(20, 30), 3, 3, 1) + gth('conj2', 18, range(200, 204), 2, 2, 1001),
    {1: 'some results', 2: 'no results'},
    ['all depth 1 trees over letters, the empty class, boundary, punctuation and any, with and without options and fuzziness, alone and in conjunction', 'lists of 0 to 2 words of 6 unusual shapes (no characters, only the boundary, no boundary at the end, boundary at the start) with arbitrary characters, tiers up to 255 with gaps', 'phrase lengths 0 to 3, limits none, 0 and 1'],
    ['lists of 2 and 3 words for all families, phrase length 3'],
    ['larger queries; memory and time limits', 'lists that are not sorted by tier (the loader sorts)'])
prop('C19',
    grid('s', 190, range(11), range(16), 2, 0) + grid('count', 15, range(5), (66, 130), 1, 1) + grid('count257', 15, (0, 2), 257, 1, 1) + grid('p', 191, 0, 53, 3, 0) + grid('pany', 191, 0, 53, 2, 1),
    gth('s3', 190, range(11), range(16), 3, 0) + gth('sany', 190, range(11), range(16), 2, 1) + gth('p4', 191, 0, 53, 5, 0) + gth('pany', 191, 0, 53, 3, 1),
    FOUND,
    ['11 families of trees in 16 spellings (case, spaces, [a-z] for ., inverted classes, single letters in brackets), words of up to 2 arbitrary letters', '53 texts with known meaning (spaces and comments in every place), words of up to 3 arbitrary letters, or 2 arbitrary characters', 'counts of 66, 130 and 257 in all five forms'],
    ['words of up to 5 letters, arbitrary characters'],
    ['anagrams (C03), options and enumerations (C04)'], A_WORDS)
prop('C13',
    grid('ascii', 130, (3, 4), 0) + grid('around', 130, (1, 2), (7, 8, 13, 20, 40, 64, 130, 300)) + [Job('u%04x' % (i * 64), (131, i, 0, 0, 16), 240) for i in range(0, 2048, 16) if i not in (864, 880)]
    + grid('pair', 131, (2, 3, 4, 5, 6, 122, 1004), (12, 13), 2) + grid('riap', 131, (12, 13), (2, 3, 4, 5, 6, 122, 1004), 1) + grid('char', 132, (0, 1, 3)) + grid('set', 132, 2, 3) + grid('show', 132, 4, 3),
    gth('ascii5', 130, 6, 0, (0, 1)) + [Job('p%04x-%04x' % (i * 64, j * 64), (131, i, j, 2, 16), 700) for i in range(0, 2048, 16) if i not in (864, 880) for j in (1, 2, 3, 4, 5, 12, 13, 120, 121, 122, 128, 132, 133, 134, 1004)] + gth('set4', 132, 2, 5) + gth('show5', 132, 4, 5),
    {1: 'letters only, or a character for a character', 2: 'other characters, or several characters for one', 3: 'nothing for a character'},
    ['texts of up to 4 arbitrary ASCII characters, and 1 or 2 between up to 300 fixed ones on either side, with any tier and score', 'every character of the planes 0 and 1 assigned up to Unicode 13, by itself, against a table made from the Unicode data of Python (decomposition, marks, full case mapping)',
     'each of 448 characters (Latin, letterlike, ligatures and wide forms) before and behind each of 128 (marks and others)', 'any char as Char, all numbers of Char, sets of characters of up to 3 + 3 members and an operation, ranges of letters, display of words of up to 3 characters'],
    ['6 ASCII characters; each character of the planes 0 and 1 next to each of 960 others'],
    ['characters of the planes above 1 and those added after Unicode 13', 'longer texts with several characters outside ASCII (each is treated by itself, except for the order of marks)'], bin='words')
prop('C14',
    grid('one', 140, 1, (2, 3), 0, 0) + grid('odd', 140, 1, 2, 0, 1) + grid('ends', 140, 2, 1, 1, 0) + grid('two', 140, 2, 2, 0, 0) + grid('three', 140, 3, 1, 0, 0) + grid('tiers', 141, 10100, (9999, 10002), (2, 4)) + grid('tiers2', 141, 25100, (25002, 25050), 2) + grid('tiers3', 141, 47600, 47502, 2)
    + grid('zst', 140, 1, 2, 2, 0) + grid('zst2', 140, 2, 1, (2, 3), 0) + grid('zstodd', 140, 1, 1, 3, 1) + grid('long', 140, 1, 1, 0, (100, 260, 9000)) + grid('long2', 140, 2, 1, (0, 1), (100, 260)) + grid('uni', 140, 1, 2, 0, 2) + grid('uni2', 140, 2, 1, 1, 2),
    gth('long2', 140, 2, 1, (0, 1), (5000, 9000)) + gth('odd2', 140, 2, 1, 0, 1) + gth('oddends', 140, 1, 3, 1, 1) + gth('ends2', 140, 2, 2, 1, 0) + gth('three2', 140, 3, (2,), 0, 0) + gth('four', 140, 4, 1, 0, 0) + gth('tiers4', 141, 47600, 47550, 4) + gth('tiers5', 141, 120000, (81255, 119900), 2) + gth('zst3', 140, 2, 2, 3, 0) + gth('uni3', 140, 2, 2, 0, 2) + gth('uni4', 140, 1, 3, 2, 2),
    {1: 'an empty file, or a lowercase word', 2: 'a line that is skipped, or another word', 3: 'all lines become words'},
    ['files of up to 2 lines with words of up to 2 arbitrary printable characters (1 line: 3; 3 lines: 1), plain or behind a count of one or two digits, the largest count and one beyond, or a column that is no count; line ends of both kinds and a last line without', 'words with any of 10 characters outside ASCII', 'words of 100, 260 and 9000 letters ending in an arbitrary character', 'compressed files of one frame, and of two cut anywhere', 'lists of 10100, 25100 and 47600 counted words with an arbitrary one around each change of tier'],
    ['words of 2 or 3 characters in more lines, 4 lines, 120000 words'],
    ['the decompression library (C; files whose content is stored uncompressed are given to it natively, and a model of that format stands in for it)', 'the order within a tier, the score of lines without a count, the exact sizes of the tiers: the first of 9000 to 11000 words, each 1.4 to 1.6 times the one before', 'lines that are not valid UTF-8, errors of the file system'],
    ['the file is a buffer behind open, read and close; natively it is a real file'], bin='words')
prop('C16',
    grid('one', 160, (1, 31, 32, 33, 64, 65, 70, 100), 2, 1) + grid('ops', 160, (10, 33), (1, 2), 2) + grid('ops', 160, 64, 1, 2) + grid('walk', 160, (32, 33, 65), 2, 1, 1) + grid('two', 161, (2001, 2032, 2033, 2065, 4010), 2, 1) + grid('two2', 161, 2033, 1, 2) + grid('twow', 161, (2033, 3064), 1, 1, 1)
    + grid('three', 162, (202033, 302010, 201065), 2, 1) + grid('three2', 162, 202010, 1, 2) + grid('threew', 162, (202033, 203033), 1, 1, 1)
    + grid('compact', 164, (203033, 303010, 204064), 3) + grid('compactw', 164, (203033, 303065), 2, 0, 1)
    + [Job('copy%d-%d' % x, (163, x[0], 2, x[1], 0), 240) for x in ((33, 40), (70, 30), (32, 32), (64, 33), (31, 65), (100, 7))],
    gth('one3', 160, (33, 40, 65), 3, (1, 2), (0, 1)) + gth('ops3', 160, (33, 40, 64, 130), 2, 3) + gth('big', 160, (128, 129, 200, 250), 2, 2) + gth('two3', 161, (2033, 3033), 2, 2) + gth('twow3', 161, (2033, 3033), 2, 1, 1) + gth('three3', 162, (202033, 203033), 1, 2) + gth('threew3', 162, (202033, 203065), 2, 1, 1) + gth('compact4', 164, (203065, 204033, 303100), 4) + gth('copy3', 163, (33, 65, 100), 3, (20, 33, 100)),
    {1: 'compared'},
    ['one-dimensional sets of size 1 to 100, around the edges of machine words: two sets with one arbitrary element each, then an arbitrary operation (insert, remove, union, difference, intersection, copy, clear, questions, exchange) with an arbitrary element; sizes 10, 33 (one element: 64): two operations', 'walking through the elements, equality, subset, copies, changes of size', 'two- and three-dimensional sets with 2 to 4 rows and 2 or 3 planes: operations on rows, planes and everything; afterwards every element of every row is compared'],
    ['three elements, three operations, sizes up to 250'],
    ['sizes above 250 and longer histories (an operation reads and writes the words of its slices only, so that a history is as good as its result)', 'sets of size 0 and elements beyond the size, which the code excludes by contract'], bin='bits')

A_WEB = ['warp, hyper, tokio and structopt are replaced by small stand-ins: routes are evaluated on requests made by the harness, a websocket is a pair of message queues whose behaviour the solver chooses, a task is polled by the harness; the program itself, noodle, serde_json, futures and the standard library are the real ones',
    'the clock is a model: time stands still except for jumps at arbitrary reads', 'the folder of wordlists is a stub of two small files and a directory; natively it is a real folder']
prop('C20',
    grid('ws', 200, range(19), 0, 0, 40) + grid('leave', 200, (0, 2), 1, 30000, 40) + grid('fail', 200, (0, 2), 2, 30000, 40) + grid('extra', 200, (0, 12), 4, 15000, 40) + grid('first', 200, (0, 4), 16, 0, 40) + grid('two', 200, 12, (3, 5, 8, 9, 10, 6), 9000, 40) + grid('all', 200, 12, 31, 4000, 40)
    + grid('clock', 200, (2, 12), 0, 151, 40) + grid('clock2', 200, (12, 5), 0, 52, 40) + grid('clockf', 200, 12, (1, 2), 9121, 40)
    + grid('pair', 200, (1312, 1412, 1112, 1410), 32, 5000, 40) + grid('pairf', 200, 1410, (33, 34), 3000, 40) + grid('pairc', 200, 1111, 32, 3051, 40)
    + grid('http', 201, range(19), (0, 1, 2), 0) + grid('httpc', 201, (0, 9, 12), (0, 1), (51, 42)) + grid('lists', 202) + grid('large', 204),
    gth('leavex', 200, range(18), 1, 60000, 40) + gth('failx', 200, range(18), 2, 60000, 40) + gth('wait', 200, (0, 10, 17), 8, 12000, 40) + gth('allx', 200, (12, 4, 15), 31, 6000, 40) + gth('clock3', 200, (12, 11), 0, 83, 40) + gth('clockx', 200, range(18), 0, 301, 40) + gth('pair8', 200, 1410, 8, 2000, 40) + gth('pairx', 200, (1315, 1816, 1318), 32, 8000, 40) + gth('pairl', 200, 1112, 33, 3000, 40) + gth('httpc', 201, range(18), (0, 1), (201, 92)),
    {1: 'the query runs to its end', 2: 'the query is bad, or the connection breaks', 3: 'the time limit is met'},
    ['19 queries (most with an arbitrary letter; bad ones, limits, unknown and other wordlists) over a list of 11 and one of 4 words, over the websocket, by POST, by GET with and without escapes; up to the first 40 results are compared with those of the search, all of them must be delivered',
     'one client that leaves, whose connection breaks, that writes again, or that is slow to take messages, each at any of the first 30 messages (15 for writing; two of these together: 9; all: 4), and whose first message is text, something else, an error or nothing', 'two clients whose connections stall once each at any of the first 5 messages, in any order of turns', 'the clock jumps by 60 ms, 11 s or 1000 s before any of its first 15 reads (two jumps: 5 apart)', 'texts of 64 kB and one byte more'],
    ['faults at any of 60 messages for all queries; three jumps; two clients with more stalls'],
    ['the network stack, static files, the browser page', 'threads: sessions share the (unchanging) wordlists and two atomic counters only, and take turns at the places where they wait', 'wordlists that change or repeat a name'], A_WEB, bin='webapp')
prop('C21',
    grid('make', 210, 20, (1, 9, 20), 1, 50) + grid('make', 210, (2, 200), (6, 17, 40), 1, 50) + grid('made', 210, (111, 22, 220, 202), 1, 0, 50) + grid('more', 210, 22, 2, 0, 50) + grid('cutoff', 210, (2, 11), 3, 10, (2, 10, 5000))
    + grid('count', 211, 1100, (7, 56), 3, 0) + grid('counts', 211, (1111, 2020), 3, 1, 0) + grid('countf', 211, (1010, 2002), 33, 0, 0) + grid('list', 212, 3, (3, 33), 1, 0) + grid('lists', 212, 12, (3, 20), 1, 1) + grid('merge', 212, 22, 1, 1, 1)
    + grid('text', 213, 1, 2, 9, 0) + grid('title', 213, 2, 1, 9, 0) + grid('texts', 213, 11, 11, 4, 1) + grid('refs', 213, 0, 3, 12, 0) + grid('word', 214, 11, 4) + grid('forms', 214, 2, 6) + grid('words', 214, 111, 2)
    + grid('spell', 215, 2, 19, (0, 1), 0) + grid('spell3', 215, 3, 10, (0, 1), 0) + grid('piece', 215, 2, 5, 0, (1, 2, 3, 4, 5, 6)),
    grid('makex', 210, 20, 63, 1, 50) + grid('makes', 210, (2, 200), 63, 1, 50) + grid('madex', 210, 22, (5, 9, 3), 0, 50) + grid('made3', 210, (222, 311), 1, 0, 50) + grid('countx', 211, 2020, 15, 1, 0) + grid('counth', 211, 1111, 63, 1, 0) + grid('listx', 212, 3, 63, 2, 0) + grid('listsx', 212, 22, 7, 1, 1) + grid('refsx', 213, 0, 4, 12, 0) + grid('textx', 213, 11, 12, 6, 1) + grid('wordx', 214, 21, 5) + grid('spellx', 215, 3, 19, (0, 1), 0) + grid('spelly', 215, 4, 9, (0, 1), 0),
    {0: 'nothing is listed', 1: 'one word is listed', 2: 'two words are listed'},
    ['lists of counts with up to 2 lines in each of two of the three files (or 1 in each), of two words in several spellings (capitals, accents, marks at the end) and words without a canonical form, arbitrary counts from 1 to 1000000', 'merging of up to 4 such lists, and of lists of scores', 'articles of up to 3 words of 12 kinds, two articles of 2 words, dictionaries of up to 3 entries with up to 2 forms', 'single words of up to 2 of 19 characters (3 of 10) and a piece of a domain name: what is counted for them and their canonical form'],
    ['all 6 spellings, 2 lines in every file, articles of 4 words, single words of 3 of 19 characters and 4 of 9'],
    ['more than two different words in one list (sorting is done by Python; what is decided is the number each word is sorted by)', 'the weights given to spellings and sources: only that more counts never put a word after one with fewer', 'downloading, decompression, running in several processes, the report on old answers'],
    ['the Python source is executed with numbers that are terms of the solver; texts are concrete ones the solver chooses from', 'floating-point numbers are treated as exact decimal fractions; of logarithms only order and sign are known; the native replay uses real numbers', 'the libraries orjson and zstandard (not installed here) are replaced by stubs'], bin='listgen')
prop('C22',
    grid('cli', 203, range(6), 4, 3),
    gth('cli6', 203, range(6), 12, 4),
    {1: 'some results', 2: 'no results'},
    ['6 queries with an arbitrary letter over a list of 11 words, any limit from 0 to 4 or none, any phrase length from 0 to 3'],
    ['limits up to 12, phrase length up to 4'],
    ['the parsing of the command line (structopt)', 'bad queries and missing files (the tool stops with a message)'], A_WEB[:1] + A_WEB[2:], bin='cli')
meaning(2100, {51: 'a word of a text is not counted as it is spelled', 52: 'a word has the wrong canonical form', 53: 'the score is wrong', 9: 'the number of a word is beyond the scale', 10: 'the least frequent word is not at the end of the scale'})
meaning(2200, {1: 'the connection of an older query stays open', 2: 'not exactly one connection for a query', 3: 'not exactly one message for a query', 4: 'typing a filter does not switch it on', 5: 'the connection stays open after stopping', 6: 'a status is not shown', 7: 'the copied wordlist is not the results that pass the filter',
    8: 'something is shown that is no result of the newest query', 9: 'a result is shown twice', 10: 'the results shown are not those that pass the filter', 11: 'not in order of the score', 12: 'not in the order of arrival', 13: 'a bar that is too short or too long', 14: 'another text is copied', 15: 'a link leads to another text', 16: 'a link is missing', 17: 'connected to another place',
    18: 'the own wordlist is not sent', 19: 'the query is not sent as typed, after the settings', 20: 'wrong settings are sent', 21: 'the address does not give the query again', 22: 'the menu does not list the wordlists', 23: 'the menu is not in order of size', 24: 'the default wordlist is not chosen', 25: 'no examples', 26: 'an example is not what is searched', 27: 'a log is not shown', 28: 'the log of an older query remains', 29: 'the bar of a more common result is shorter'})
prop('C23',
    grid('sort', 220, 3, 3, 3, 16) + grid('mixed', 220, 2, 3, 3, 13) + grid('filter', 220, 3, 13, 3, 6) + grid('any', 220, 3, 2047, 2, 4) + grid('anyn', 220, 2, 2047, (1, 3), 16) + grid('copy', 220, 3, 143, 3, 5) + grid('late', 220, 3, 2048 + 563, 1, 3)
    + grid('send', 221, 8, 3, 1) + grid('again', 221, 2, 2, 2) + grid('menu', 222, 3, (0, 1, 2)) + grid('menu', 222, 4, 3) + grid('example', 223),
    grid('sortx', 220, 4, 3, 4, 16) + grid('sorty', 220, 5, 3, 2, 14) + grid('anyx', 220, 4, 2047, 2, 4) + grid('anyy', 220, 3, 2047, 4, 6) + grid('filterx', 220, 4, 15, 4, 16) + grid('againx', 221, 4, 3, 2) + grid('latex', 220, 4, 2048 + 563, 1, 3) + grid('menux', 222, 5, 2),
    {0: 'nothing is shown', 1: 'one result', 2: 'several results'},
    ['up to 3 arbitrary events (results, sorting, filters of 4 kinds, copying, status and log messages, stopping, new queries by button and key, connections that take time to open, the end of the connection) after 2 or 3 results; up to 6 different texts; every number as score', '8 queries with special characters and 3 own wordlists with any settings, two queries one after the other', 'menus of 3 and 4 wordlists of any sizes', 'all examples of the page'],
    ['4 and 5 events, up to 5 results'],
    ['phrases of different numbers of words when sorting by score (the page weighs them somehow)', 'styles, the layout, feedback', 'filters that are not valid'],
    ['the script of the page is executed in a stand-in for a browser (elements, events, a web socket the scenario controls); numbers are terms of the solver, floating-point numbers exact decimal fractions; the native replay runs the unchanged script on numbers'], bin='page')
