#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the prose stays editable).
import json
N='noodle/src/'
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    r={'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,
       'anchors':{'files':[N+f if '/' not in f else f for f in files],'mechanism':[{'name':a,'where':b} for a,b in mech],'hook_needed':None}}
    if state: r['anchors']['state']=[{'name':a,'meaning':b,'where':c} for a,b,c in state]
    if observe: r['anchors']['observe_at']=observe
    assert len(title)<=80,(id,len(title))
    print(json.dumps(r,ensure_ascii=False),file=F)
F=open('/verif/properties.jsonl','w')
IT='results of QueryEvaluator iteration'
p('C01','A word is returned exactly when the expression describes it',
 'For every expression built from letters, classes, sequences, groups, alternatives, repetitions and substring groups, and every word, a single-word search returns the word if and only if its letters are in the language the expression denotes. Building and simplifying the search automaton never changes that language, whatever the nesting and however many states it needs.',
 ['inputs'],'all expression trees and all words (letters, punctuation, spaces)',
 'The tests parse expressions and compare syntax trees, or count the results of one query over a system wordlist; no test evaluates one expression against one word, let alone all nestings against all words.',
 ['expression.rs','matcher.rs','bitset.rs'],[('automaton construction','Expression::build_states'),('automaton simplification','Expression::optimize_states'),('word stepping','Expression::fill_transition_table')],
 [('states','NFA of one expression','expression.rs struct Expression')],[IT])
p('C02','Fuzzy search returns exactly the words within the stated edit distance',
 'With a fuzzy limit of k on an expression, a word or phrase is returned if and only if at most k insertions, deletions or substitutions of letters turn it into something the expression describes. Words inside the limit are never lost and words outside it are never returned, wherever the edits fall (start, end, repeated, adjacent).',
 ['inputs'],'all expressions, all k, all words and phrases',
 'Only one end-to-end count uses fuzzy search, on a wordlist that is absent; it cannot see a lost or an extra edit position.',
 ['expression.rs','matcher.rs','query.rs'],[('edit transitions','Expression::init_transition_table, fill_transition_table'),('sum of edits over the words of a phrase','PhraseMatcher::step')],None,[IT])
p('C03','Anagram operators accept exactly the documented rearrangements',
 'A line that is one anagram term returns exactly the words whose letters form the documented multiset: all of the bank, at least the bank, at most the bank, the bank plus N others, or the bank minus N. An anagram used inside a larger expression, a group or a repetition never loses a word that satisfies it.',
 ['inputs'],'all letter banks (with repeated letters), all kinds and N, all words',
 'The parser tests compare the expansion of a few banks to a literal tree; they do not show that the expansion means the anagram for any word.',
 ['parser.rs','expression.rs'],[('expansion of one line into several expressions','QueryAst::expand_expressions')],None,[IT])
p('C04','Spaces and punctuation are transparent unless made explicit; enumerations fit',
 'Word boundaries and punctuation are ignored when matching unless the line asks for explicit handling by an option or by using the symbol itself, in which case they must be matched exactly where the expression puts them (trailing spaces excepted). A line of bare numbers matches exactly the phrases with words of those lengths, "." and ranges match letters only, and each option affects only its own line.',
 ['inputs'],'all expressions, option combinations and words or phrases with boundaries and punctuation anywhere',
 'One unit test checks that the option flags are detected for a few strings; none checks what matching does with them.',
 ['parser.rs','expression.rs'],[('option detection','detect_options'),('skipping','Expression::fill_transition_table (ignore_word_boundaries, ignore_punctuation)'),('enumerations','parse_term Rule::number')],None,[IT])
p('C05','Several expressions mean AND; single words come in list order, once each',
 'With several expressions a word is returned if and only if every one of them accepts it. Single-word results appear in wordlist order, and each wordlist entry is returned at most once.',
 ['inputs','configurations'],'all tuples of expressions and all wordlists',
 'No test runs a query with more than one expression against a wordlist it controls.',
 ['query.rs','matcher.rs'],[('chained alive lists','QueryEvaluator::next_within_deadline, word phase'),('per-expression iteration','WordMatcher::next_single_word')],[('alive_wordlist','words that may still take part in a match','matcher.rs struct WordMatcher')],[IT])
p('C06','Phrase search finds every matching phrase, and only those, exactly once',
 'Up to the phrase length limit, a sequence of wordlist words (repetition allowed) is returned if and only if the text formed by the words one after another is accepted by every expression. No phrase is lost or duplicated by the pruning of words, automaton states and search phases, whatever the mix of frequency tiers.',
 ['inputs','configurations'],'all expression tuples, all wordlists ordered by tier, all length limits',
 'The one end-to-end count needs a system wordlist; pruning decisions depend on the whole wordlist and cannot be sampled by a handful of queries.',
 ['query.rs','matcher.rs'],[('depth-first phrase search','QueryEvaluator::next_within_deadline, phrase phase'),('pruning to the wordlist','WordMatcher::optimize_for_wordlist'),('phase pruning','PhraseMatcher::filter_search_phases')],
 [('search_queue','(length, tier) phases still to search','query.rs QueryPhase::Phrase')],[IT])
p('C07','Results are ordered shorter and more common first, and a limit is a prefix',
 'Single words come before phrases; a phrase that is no longer and no rarer (by its rarest word) than another, and better in one of the two, comes first; phrases equal in both follow wordlist order. Running with a result limit returns exactly the first results of the unlimited run.',
 ['inputs','configurations'],'all queries, wordlists with any tier layout, all limits',
 'No test looks at the order of results.',
 ['query.rs'],[('phase order by search size','QueryEvaluator::next_within_deadline (sort_by_key total_size)'),('result limit','results_limit / results_count')],None,[IT])
p('C08','Whether a word or phrase matches does not depend on the rest of the wordlist',
 'The verdict on a word is the same alone, after any other words, and next to words that share its beginning or equal it. The phrases found among some words stay the same when other words are added to the list.',
 ['inputs','histories'],'all expressions and all sequences of words evaluated before',
 'The evaluation of a word reuses cached state of the previous one; no test evaluates controlled sequences of words.',
 ['matcher.rs','expression.rs'],[('common-prefix reuse','WordMatcher::next_single_word (table_chars)'),('early exit','Expression::fill_transition_table')],
 [('table_char_src_fuzz_dst','cached transition tables per prefix','matcher.rs struct WordMatcher')],[IT])
p('C09','Deadlines only pause a query: resuming gives the same results',
 'However often and wherever a search is interrupted by its deadline, calling it again continues it, and the results and their order are those of an uninterrupted run, with nothing lost or repeated. With deadlines that allow any progress the query still completes.',
 ['schedules','inputs'],'all placements of deadline expiry over the clock reads, all queries and wordlists',
 'No test sets a deadline.',
 ['query.rs','matcher.rs'],[('deadline checks','QueryEvaluator::next_within_deadline, WordMatcher::next_single_word')],None,['QueryEvaluator::next_within_deadline'])
p('C10','A query reports completion exactly once and respects its limits',
 'Every query ends with exactly one completion report and then nothing more; before it come only results, log and timeout reports. The number of results never exceeds the result limit (whether set by the caller or the query text) and no result has more words than the phrase length limit.',
 ['inputs','configurations','histories'],'all queries, wordlists, limits (including 0 and 1) and call sequences',
 'The tests only count matches of one query.',
 ['query.rs'],[('phase changes','QueryEvaluator::next_within_deadline'),('iterator end','impl Iterator for QueryEvaluator'),('limits from the query text','QueryEvaluator::from_ast')],None,['QueryResponse sequence'])
p('C11','Parsing any text returns a query or an error, never a crash',
 'Every text, however malformed and whatever numbers it contains, is either parsed or rejected with an error that names the line the problem is on. Text that is accepted can be turned into a runnable query.',
 ['inputs'],'all input texts',
 'The parser tests use about forty well-formed strings.',
 ['parser.rs','noodle_grammar.pest','expression.rs'],[('grammar','noodle_grammar.pest'),('number checks','validate_numbers'),('line numbers in errors','QueryAst::new_from_str error_set_line')],None,['QueryAst::new_from_str'])
p('C12','A printed query parses back to the same meaning',
 'Printing an expression gives text that parses again, with the same options, and accepts exactly the same words.',
 ['inputs'],'all expression trees that parsing can produce, all words',
 'The roundtrip test covers a fixed list of strings and compares text only.',
 ['parser.rs','words.rs'],[('printing','impl Display for Ast and ExpressionAst; Debug for CharBitset')],None,['Display of ExpressionAst'])
p('C13','Words are normalised: case, accents, ligatures, spaces and punctuation',
 'A word is matched by its letters with case and accents removed and ligatures spelled out; spaces become word boundaries, every other symbol one punctuation mark, and one boundary ends the word. The text shown to the user is the original.',
 ['inputs'],'all strings',
 'No test constructs a word from text with accents, ligatures or symbols.',
 ['words.rs'],[('normalisation','Word::new'),('character classes','impl From<char> for Char')],None,['Word::chars, Word::text'])
p('C14','Wordlist files load every usable word with its tier, sorted',
 'Every line of a wordlist file (a plain word, or count and word separated by a tab; the file plain or compressed) becomes one word, except words of one letter other than "I" and "a" and words with digits. Tiers grow with the position in the file (the first holds about 10000 words, each later one half as many again), words that are not plain lowercase letters count one tier later, and the result is sorted by tier.',
 ['inputs'],'all file contents',
 'No test loads a wordlist file it controls.',
 ['words.rs'],[('loading','load_wordlist')],None,['load_wordlist result'])
p('C15','Macros, pragmas, separators, comments and inline lists do what they say',
 'Macros are substituted in later lines in definition order; "#limit", "#words", "#quiet" and "#dict" set their option, and "#wordlist" makes the remaining lines the wordlist. ";" and newlines separate lines alike, case of pragmas does not matter, and comments and blank lines have no effect on the result.',
 ['inputs'],'all query texts made of such lines',
 'The tests parse single expressions only; none uses macros, pragmas or several lines.',
 ['parser.rs','noodle_grammar.pest','query.rs'],[('line handling','QueryAst::new_from_str'),('defaults and overrides','QueryEvaluator::from_ast')],None,['QueryAst::options, results'])
p('C16','The bit sets behave as sets for every size, index and operation order',
 'One-, two- and three-dimensional bit sets answer membership, iteration, emptiness and equality exactly as the sequence of insertions, removals, unions, intersections and clears demands, for every size including beyond one machine word. An operation on one slice never touches another, and none reads or writes outside the set.',
 ['inputs','histories'],'all sizes, indices and operation sequences',
 'Three unit tests do a few insertions with fixed indices.',
 ['bitset.rs'],[('block arithmetic','bitset.rs'),('slices','slice, slice_mut, slice2d, slice2d_mut')],None,['bitset API'])
p('C17','Progress can be asked for at any time and stays within 0 to 100 percent',
 'Asking for the progress of a query is safe before, between and after any steps, for every query and wordlist, and a reported percentage never exceeds 100. Asking does not change the results.',
 ['inputs','histories'],'all queries, wordlists and points in the search',
 'No test asks for progress.',
 ['query.rs','matcher.rs'],[('progress text','QueryEvaluator::progress, WordMatcher::progress'),('size estimates','search_estimate')],None,['QueryEvaluator::progress'])
p('C18','Every accepted query runs to its end on every wordlist without crashing',
 'No combination of accepted query, wordlist (empty, repeated or odd words, any tiers) and limits makes the search panic, access memory out of bounds, overflow, or loop without end.',
 ['inputs','configurations'],'all accepted queries, all wordlists ordered by tier, all limits',
 'The tests never run the search on unusual wordlists or expression shapes; internal assertions there depend on the combination of both.',
 ['query.rs','matcher.rs','expression.rs','bitset.rs'],[('search','QueryEvaluator::next_within_deadline'),('pruning assertions','WordMatcher::optimize_for_wordlist')],None,[IT])
p('C19','Query syntax means what the documentation says',
 'Each documented form has its documented meaning: case of letters does not matter, ranges and inverted classes, ? * + {n} {n,} {,n} {n,m}, grouping and |, (…:^) (…:-) (…:+), and spaces between symbols change nothing. Precedence is that of regular expressions.',
 ['inputs'],'all texts of the documented syntax, all words',
 'The tests compare a few parse results to literal trees; they do not relate text to the words it finds.',
 ['parser.rs','noodle_grammar.pest'],[('grammar','noodle_grammar.pest'),('tree building','parse_term')],None,[IT])
p('C20','The web server delivers exactly the results of the search to every client',
 'Every client of the web application gets the results of its query over the wordlist the query names (the default list if it names none or an unknown one): all of them, in the order of the search, each once and as well-formed messages. Over the websocket they are followed by exactly one final status (completion, time limit, or parse error together with its reason) and the socket is closed; by POST they are lines of JSON, by GET lines of words, at most 15 unless the query sets a limit. The time limit is reported only when it has passed. The query of a client that leaves stops. Clients do not affect one another, and the number of active queries counts those that run and returns to zero however they end.',
 ['schedules','inputs','faults'],'all queries, all clients and interleavings of them, connections that break or stall at any message, any passing of time',
 'The web application has no tests: what it sends depends on when clients leave, stall or break, on the clock, and on other clients, which no test controls.',
 ['noodle-webapp/src/main.rs'],[('websocket session','run_websocket'),('HTTP queries','run_query_sync'),('count of active queries','ActiveQuery')],None,['websocket messages, HTTP responses, /metrics'])
p('C21','Generated wordlists are ordered by frequency and contain each word once',
 'The wordlist generator (listgen.py) counts every word of titles and texts as often as it occurs (texts up to their references), adds up the counts of the same word over files and spellings, and writes lists in the form the loader reads: one line per word with a number from 0 to 1000000 (that of the least frequent word) and one of the spellings that occurred. Every word that reaches the cutoff is listed exactly once whatever its spellings, no other word is, and a word never comes after one that is less frequent. Merging lists adds scores; loading a list keeps the best score of each word.',
 ['inputs'],'all counts, spellings and files',
 'The generator has no tests.',
 ['listgen/listgen.py'],[('counting','extract_word_frequency, word_frequency'),('lists','Wordlist'),('choice and order','create_wordlist')],None,['generated files'])
p('C22','The command-line tool prints exactly the results of the search',
 'The command-line tool prints one line for each result of the query over the given wordlist, in the order of the search and with its words separated by single spaces, at most as many as --count allows and with at most --phrase-length words each.',
 ['inputs'],'all queries, limits and phrase lengths',
 'The command-line tool has no tests.',
 ['noodle-cli/src/main.rs'],[('output','main')],None,['standard output'])
p('C23','The browser page shows exactly the results of the newest query',
 'The page sends the query as typed, after the chosen settings and before the own wordlist, and shows each result of the newest query exactly once: in order of arrival, or by score (for results of the same number of words) after sorting, and with a filter only those that match it. The status and the log are those of the newest query, and bars are no shorter for more common results. Stopping and new queries close the older connection. Copying the results gives those that pass the filter. The links beside a result lead to its text, the address gives the query again, and the menu lists every wordlist, the largest first and the default one chosen.',
 ['schedules','inputs'],'all sequences of user events and messages, all texts and scores',
 'The page has no tests.',
 ['noodle-webapp/static/index.html'],[('results','ws.onmessage'),('sorting and filter','rebuildOutput'),('query','submit')],None,['page contents, websocket messages'])
F.close()
