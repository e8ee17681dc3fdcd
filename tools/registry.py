"""Which harness runs decide which property, with their bounds (quick / thorough)."""
from vlib import Job, RE
CHECKS = {}
NA = {}
ASM = ('the engine (an LLVM pass, its runtime and z3) and the clang front end are trusted; every violation is replayed against a native build of the same sources, so they cannot cause a false alarm',
       'allocation succeeds (allocation failure is C26)', 'assertions in the library are enabled, as in its default build')

CHECKS['C01'] = dict(level='model_checking', jobs=[
    Job('c01.c', 'det', dict(N=3, E=3, labels=3), dict(N=4, E=4, labels=3), what='every NFA up to N states and E transitions (labels overlapping, epsilon, any start, any accepting set): determinised; DFA-ness and equality of languages for words of any length'),
    Job('c01.c', 'det', dict(N=4, E=3, labels=2), dict(N=5, E=3, labels=2), what='more states'),
    Job('c01.c', 'det_exec', dict(N=2, E=3, L=3, labels=3), dict(N=3, E=3, L=4, labels=3), what='same, observed through fsm_exec on words of up to L unconstrained bytes'),
    Job('c01.c', 'det', dict(N=3, E=2, anystart=2), dict(N=3, E=3, anystart=2), what='any start state, or none'),
    Job('c01.c', 'det_label', dict(K=2), dict(K=3), what='labels that are unconstrained bytes'),
    Job('c01.c', 'det_limit', dict(N=3, E=3), dict(N=4, E=4), what='every state limit: same result or the limit is reported'),
    Job('c01.c', 'det_limit_blowup', dict(N=4), dict(N=5), what='limits below the size of the DFA'),
    Job('c01.c', 'det_big', dict(N=60, X=1), dict(N=140, X=2), what='large automata: table and queue growth'),
    ])
CHECKS['C02'] = dict(level='model_checking', jobs=[
    Job('c02.c', 'min', dict(N=3), dict(N=3, E=99, labels=3), what='every DFA up to N states over disjoint label classes: language for words of any length, and Myhill-Nerode minimality'),
    Job('c02.c', 'min', dict(N=4, labels=2, E=4), dict(N=4, labels=2, E=8), what='more states'),
    Job('c02.c', 'min', dict(N=5, labels=1), dict(N=6, labels=1), what='more states, one label class'),
    Job('c02.c', 'min_ids', dict(N=3), dict(N=3, labels=2, E=6), what='with end ids and eager outputs'),
    Job('c02.c', 'min_ids', dict(N=3, labels=2, E=3), dict(N=4, labels=1), what='with end ids and eager outputs'),
    Job('c02.c', 'min_label', dict(), dict(), what='labels that are unconstrained bytes'),
    Job('c02.c', 'min_big', dict(), dict(), what='large automata'),
    ])
CHECKS['C03'] = dict(level='model_checking', jobs=[
    Job('c03.c', 'union', dict(N=2), dict(N=2, E=3), what='every pair of NFAs: union, and the reported bases'),
    Job('c03.c', 'intersect', dict(), dict(N=2, E=3), what='every pair: intersection'),
    Job('c03.c', 'subtract', dict(), dict(N=2, E=3), what='every pair: subtraction'),
    Job('c03.c', 'complement', dict(N=3), dict(N=3), what='every DFA: complement'),
    Job('c03.c', 'complement_nfa', dict(labels=3), dict(N=3, E=3), what='every automaton (nondeterministic, with epsilons, without a start state): complement'),
    Job('c03.c', 'intersect', dict(E=1, start=2), dict(E=2, start=2), what='any start state, or none'),
    Job('c03.c', 'subtract', dict(E=1, start=2), dict(E=2, start=2), what='any start state, or none'),
    Job('c03.c', 'array', dict(N=1, E=1, start=2), dict(N=2, E=1, start=2), what='arrays with operands that have no start state are refused, and released'),
    Job('c03.c', 'charset', dict(K=1), dict(K=2), what='every DFA, character sets of unconstrained bytes'),
    Job('c03.c', 'array', dict(), dict(N=2, E=2), what='arrays of up to 3 automata, bases located'),
    Job('c03.c', 'product_label', dict(), dict(), what='labels that are unconstrained bytes on both sides'),
    ])
CHECKS['C04'] = dict(level='model_checking', jobs=[
    Job('c04.c', 'concat', dict(N=2, E=2, M=2, F=2), dict(N=3, E=2, M=2, F=2), what='every pair of NFAs: concatenation against the textbook construction, words of any length'),
    Job('c04.c', 'concat', dict(N=2, E=1, M=2, F=1, grow=1), dict(N=2, E=2, M=2, F=2, grow=1), what='operands with spare capacity (which operand is moved into the other)'),
    Job('c04.c', 'concat', dict(N=2, E=1, M=2, F=1, anystart=1), dict(N=2, E=2, M=2, F=2, anystart=1), what='any start states'),
    Job('c04.c', 'concat3', dict(), dict(N=2, E=2), what='three operands, both associations'),
    Job('c04.c', 'reverse', dict(N=3, E=3), dict(N=3, E=4), what='every NFA: reversal, once and twice, words of any length'),
    Job('c04.c', 'reverse', dict(N=4, E=3, labels=1), dict(N=4, E=4, labels=1), what='more states'),
    Job('c04.c', 'reverse', dict(N=3, E=2, anystart=2), dict(N=3, E=3, anystart=2), what='any start state, or none'),
    Job('c04.c', 'label', dict(), dict(), what='labels that are unconstrained bytes'),
    ])
CHECKS['C05'] = dict(level='model_checking', jobs=[
    Job('c05.c', 'clone', dict(N=2, E=2, labels=1), dict(N=3, E=2, labels=1), what='clones are equal and independent: 8 ways of changing either one'),
    Job('c05.c', 'trim', dict(), dict(N=4, E=3, labels=1), what='fsm_trim in every mode, counts and shortest distances'),
    Job('c05.c', 'epsilons', dict(), dict(N=4, E=3, labels=1), what='fsm_remove_epsilons'),
    Job('c05.c', 'complete', dict(), dict(N=4, E=3, labels=1), what='fsm_complete'),
    Job('c05.c', 'shuffle', dict(N=2, E=2), dict(), what='fsm_shuffle, 32 seeds'),
    Job('c05.c', 'shuffle_big', dict(), dict(MAX=300), what='fsm_shuffle on long chains'),
    Job('c05.c', 'vacuum', dict(), dict(), what='fsm_vacuum after growth and removal'),
    Job('c05.c', 'compact', dict(), dict(), what='fsm_compact_states, every subset kept'),
    Job('c05.c', 'remove', dict(E=1), dict(), what='fsm_removestate, twice'),
    Job('c05.c', 'remove', dict(N=2, E=2), dict(N=4, E=2, labels=1, ids=0), what='fsm_removestate'),
    Job('c05.c', 'merge_states', dict(), dict(N=4, E=2), what='fsm_mergestates: quotient'),
    Job('c05.c', 'subgraph', dict(), dict(N=3, E=3), what='fsm_subgraph_duplicate'),
    Job('c05.c', 'add', dict(), dict(K=4), what='fsm_addstate and fsm_addstate_bulk: numbering, blank states'),
    Job('c05.c', 'merge', dict(N=2, E=1, labels=1, ids=0), dict(N=2, E=1, labels=1), what='fsm_merge: offsets and content'),
    Job('c05.c', 'merge', dict(N=1, E=1, labels=1), dict(N=2, E=1, labels=2, ids=0), what='fsm_merge: ids'),
    Job('c05.c', 'history', dict(N=2, K=2), dict(N=2, K=3), what='histories of language-preserving operations'),
    Job('c05.c', 'history', dict(N=2, K=3, E=1, labels=1), dict(N=2, K=4, E=1, labels=1), what='longer histories'),
    ])
CHECKS['C06'] = dict(level='model_checking', jobs=[
    Job('c06.c', 'ops', dict(K=3, idbytes=1), dict(K=4, idbytes=1), what='histories of K operations on end ids (set, set on all, increment, remap, fold, clone), id values unconstrained in their first byte'),
    Job('c06.c', 'ops', dict(K=2), dict(K=2, ids=3), what='same, ids with two unconstrained bytes'),
    Job('c06.c', 'drop', dict(), dict(K=4), what='a remap that removes ids'),
    Job('c06.c', 'many_ids', dict(N=12), dict(N=20), what='many ids on one state, one of them unconstrained, in different orders'),
    Job('c06.c', 'many_states', dict(N=40), dict(N=150), what='many states with ids, then clone, removal, determinise, minimise, trim, union'),
    Job('c06.c', 'union', dict(N=2, E=1), dict(N=2, E=1, members=3, eps=0), what='every pair of NFAs with own, shared or no ids: union, determinise, minimise; ids for words of any length'),
    Job('c06.c', 'union', dict(N=2, E=2, idchoice=0), dict(N=2, E=2), what='same, more transitions'),
    Job('c06.c', 'union', dict(N=1, E=1, members=3), dict(N=1, E=2, members=3), what='three members'),
    Job('c06.c', 'keep', dict(), dict(N=3, E=3), what='epsilon removal, trim, clone, shuffle, vacuum, concatenation keep ids'),
    ])
CHECKS['C07'] = dict(level='model_checking', jobs=[
    Job('c07.c', 'keep', dict(N=2, E=2), dict(N=3, E=2), what='every NFA with outputs on any states: epsilon removal, trimming, cloning, shuffling, determinising, minimising; outputs on entering states for words of any length'),
    Job('c07.c', 'keep', dict(N=2, E=1, ids=2), dict(N=2, E=2, ids=2), what='same with two outputs'),
    Job('c07.c', 'union', dict(), dict(E=2), what='unions keep outputs'),
    Job('c07.c', 'exec', dict(), dict(N=3, L=4), what='the callback during fsm_exec on unconstrained words'),
    Job('c07.c', 'store', dict(), dict(N=150, K=18), what='the store of outputs: many states, many ids, one unconstrained'),
    Job('c07.c', 'group', dict(patterns=2, atoms=12), dict(patterns=3, atoms=8), parts=RE, what='groups of patterns (atoms with optional anchors) combined for repeated matching: exactly the matching patterns are reported, words of any length'),
    Job('c07.c', 'group', dict(patterns=1, atoms=12, seq=2), dict(patterns=2, atoms=9, seq=2), parts=RE, what='longer patterns'),
    ])
CHECKS['C08'] = dict(level='model_checking', jobs=[
    Job('c08.c', 'exec', dict(N=2, labels=2, L=3), dict(N=3, labels=2, L=3), what='every DFA up to N states over disjoint label classes, inputs of up to L unconstrained bytes: verdict, end state, number of bytes read'),
    Job('c08.c', 'exec', dict(N=3, labels=1, L=3), dict(N=2, labels=3, L=4), what='more states / labels'),
    Job('c08.c', 'label', what='labels that are unconstrained bytes', quick=dict()),
    Job('c08.c', 'all_bytes', what='a state with a transition for each byte value, inserted in different orders', quick=dict()),
    Job('c08.c', 'refuse', dict(N=3, E=3, labels=2), dict(N=3, E=3, labels=3), what='every NFA: refused unless it is a DFA with a start state'),
    Job('c08.c', 'long', dict(), dict(N=1000), what='long inputs and the string and file readers'),
    ])
CHECKS['C09'] = dict(level='model_checking', jobs=[
    Job('c09.c', 'preds', dict(N=3, E=2, labels=2), dict(N=3, E=3, labels=2), what='every NFA, every state, every predicate against its definition; counting and reachability with an arbitrary predicate; asking changes nothing'),
    Job('c09.c', 'missing', dict(), what='a state with a transition for every byte but one, which is unconstrained'),
    Job('c09.c', 'equal', dict(N=2, E=2, nostart=1), dict(N=3, E=3, M=2, F=2, labels=2), what='every pair of NFAs: equality of languages for words of any length'),
    Job('c09.c', 'equal', dict(N=3, E=2, M=2, F=2, labels=1), dict(N=3, E=3, M=3, F=2, labels=1), what='more states'),
    Job('c09.c', 'equal_label', dict(), what='labels that are unconstrained bytes'),
    Job('c09.c', 'big', dict(), dict(N=250), what='long chains and wide fans'),
    ])
CHECKS['C10'] = dict(level='model_checking', jobs=[
    Job('c10.c', 'gen', dict(N=3, labels=2, E=4), dict(N=3, labels=2), what='every DFA: one accepted string for each accepting path within the limit; halting and pruning'),
    Job('c10.c', 'gen', dict(N=2, labels=2, L=5, anylen=1), dict(N=2, labels=3, L=5, anylen=1), what='every limit'),
    Job('c10.c', 'gen', dict(N=2, labels=2, L=3, random=1), dict(N=3, labels=1, L=3, random=1), what='random choice of labels, rand() unconstrained'),
    Job('c10.c', 'gen_label', dict(), what='a label that is an unconstrained byte'),
    Job('c10.c', 'gen_long', dict(), dict(N=200), what='long strings: buffer and stack growth, the limit'),
    Job('c10.c', 'shortest', dict(N=3, E=3, labels=1), dict(N=4, E=4, labels=1), what='every epsilon-free NFA, every goal, costs unconstrained bytes: the path exists, leads there and is of minimal cost'),
    Job('c10.c', 'shortest', dict(N=3, E=2, labels=2), dict(N=3, E=3, labels=2), what='several labels on a transition'),
    Job('c10.c', 'example', dict(), dict(E=3), what='examples for every goal, every buffer size'),
    Job('c10.c', 'example_label', dict(), what='a label that is an unconstrained byte'),
    Job('c10.c', 'required', dict(E=4), dict(), what='every DFA: the required characters are those without which nothing is accepted'),
    Job('c10.c', 'required', dict(limit=14, E=2), dict(limit=20, E=4, labels=2), what='every step limit'),
    Job('c10.c', 'required_label', dict(), what='a label that is an unconstrained byte, deep automata'),
    ])
CHECKS['C11'] = dict(level='model_checking', jobs=[
    Job('c11.c', 'vm', dict(N=2, E=3, L=2, palettes=1), dict(N=2, E=4, L=2, palettes=2), what='every DFA over label classes covering all bytes (so every code generation strategy occurs), both encodings, optimised or not, buffer or file, inputs of L unconstrained bytes held in exactly L bytes of memory'),
    Job('c11.c', 'vm', dict(N=2, E=2, L=2, palettes=2, alln=1, anystart=0), dict(N=3, E=3, L=2, alln=1, anystart=0, labels=2), what='interleaved label classes, every length up to L'),
    Job('c11.c', 'vm', dict(N=1, L=3, alln=1), dict(N=2, E=2, L=3, alln=1), what='longer inputs'),
    Job('c11.c', 'label', dict(vms=1), dict(vms=4), what='a label that is an unconstrained byte, next to others'),
    Job('c11.c', 'big', dict(N=256, M=1), dict(N=256, M=8), what='a state with 256 different targets; two-byte branches'),
    Job('c11.c', 'big', dict(N=60, M=2, L=2), dict(N=100, M=20, L=2), what='many states, two unconstrained bytes'),
    Job('c11.c', 'big', dict(N=250, M=131, vm=2, second=1), dict(N=250, M=131, vm=3, second=1), what='programs over 32767 instructions: indirect branches'),
    Job('c11.c', 'big', dict(N=250, M=48, vm=0, second=1), dict(N=250, M=48, vm=1, second=1), what='programs over 32767 bytes: four-byte branches'),
    Job('c11.c', 'file', dict(), what='files around one and two reader buffers'),
    ])
def G(kind, langs, count, ext='.c', src='c12gen.c'): return dict(src=src, kind=kind, langs=langs, first=0, count=count, ext=ext)
CHECKS['C12'] = dict(level='model_checking', jobs=[
    Job('c12.c', 'gen', dict(L=3), dict(L=4), gen=G(0, 7, 2187), what='all 729 DFAs of two states over label classes that cover all bytes (each code generation strategy), each with several of the 320 combinations of language (switch, VM, VM tables), way of reading, way of reporting ids and options: the printed text is compiled and run on unconstrained input of every length up to L in memory of exactly that size'),
    Job('c12.c', 'gen', dict(), gen=G(1, 7, 432), only=('quick',), what='special automata (a run of each byte value followed by digits, 256 targets, many sets of ids, nothing or everything accepted, literals with quotes, comment ends, trigraphs, NUL, long ones)'),
    Job('c12.c', 'gen', dict(), gen=G(1, 7, 1800), only=('thorough',), what='special automata with more combinations'),
    Job('c12h.c', 'hooks', dict(N=2, E=2, last=2, fails=0), dict(N=2, E=4, last=2), what='C, VM-style C: every DFA of two states with sets of ids: the hooks are given the ids of every accepting state, complete and sorted; conflicts and their examples; every option'),
    ])
CHECKS['C13'] = dict(level='model_checking', jobs=[
    Job('c12.c', 'gen', dict(L=3), dict(L=4), gen=G(0, 8, 2187, '.ll'), what='LLVM IR: all 729 DFAs of two states over label classes that cover all bytes, each with several combinations of way of reading, way of reporting ids and options: the printed IR is compiled and run on unconstrained input of every length up to L in memory of exactly that size'),
    Job('c12.c', 'gen', dict(), gen=G(1, 8, 180, '.ll'), only=('quick',), what='LLVM IR: special automata (see C12)'),
    Job('c12.c', 'gen', dict(), gen=G(1, 8, 720, '.ll'), only=('thorough',), what='LLVM IR: special automata with more combinations'),
    Job('c13t.c', 'bytes', dict(), dict(all=1), what='Go, Rust, awk, shell, AMD64 assembly (three dialects): every byte value as a label, as the low or the high end of a range and with all others in a loop: the printed text is read by the language\'s rules and run with the DFA on unconstrained bytes, to any length'),
    Job('c13t.c', 'langs', dict(N=2, E=2, labels=2), dict(N=2, E=3, labels=3, all=1), what='the same seven: every DFA of two states over two label classes or all bytes, each way of reporting ids with lists of ids, each way of reading'),
    Job('c13t.c', 'langs', dict(N=2, E=2, ambig=0), dict(N=3, E=4, labels=2, ambig=0), what='the same seven: more label classes, or more states'),
    Job('c12h.c', 'hooks', dict(N=2, E=2, labels=1, first=2, last=10, fails=0), dict(N=2, E=3, first=2, last=10), what='LLVM IR, Go, Rust, shell, awk, assembly: every DFA of two states with sets of ids: what the hooks are given'),
    Job('c12h.c', 'hooks', dict(N=1, fails=6), dict(N=2, E=2, labels=1, fails=6), what='every language: a hook that fails'),
    ])
CHECKS['C14'] = dict(level='model_checking', jobs=[
    Job('c14.c', 'round', dict(labels=2, sets=5), dict(labels=3), what='every automaton of two states with up to two transitions (epsilons, overlapping labels), with or without a start state, several sets of end ids, 32 combinations of options: the text, DOT and the JSON are read by a reader of the harness, and the text by fsm_parse'),
    Job('c12h.c', 'hooks', dict(N=2, E=2, labels=1, first=10, last=20, fails=0), dict(N=2, E=3, labels=1, first=10, last=20), what='JSON, DOT, text, and other formats for people: what the hooks are given'),
    Job('c14.c', 'label', dict(), what='a label that is an unconstrained byte, next to another or the same'),
    Job('c14.c', 'text', dict(N=2), dict(N=3), what='fsm_parse of any text: N unconstrained bytes in 51 contexts'),
    Job('c14.c', 'classes', dict(G=12), dict(G=17), what='labels in DOT and JSON that stand for many bytes: every combination of G stretches of bytes'),
    Job('c14.c', 'classes', dict(G=5, B=1), dict(G=8, B=1), what='the same with an unconstrained byte as well'),
    Job('c14.c', 'names', dict(), what='names of up to 16384 bytes that differ in their last, which is unconstrained: the buffer of the lexer grows and shrinks'),
    Job('c14.c', 'many', dict(), dict(N=3000), what='many states: the table of names grows; one label unconstrained'),
    Job('c14a.c', 'api', dict(), gen=G(0, 1, 240, src='c14gen.c'), only=('quick',), what='generated API calls, compiled and run: 240 automata with epsilons, joined between two states of another automaton; labels compared for an unconstrained byte, language of any length'),
    Job('c14a.c', 'api', dict(), gen=G(0, 1, 256, src='c14gen.c'), only=('thorough',), what='generated API calls, 256 automata'),
    ])
CHECKS['C15'] = dict(level='model_checking', jobs=[
    Job('c15.c', 'tokens', dict(alphabet=0, N=6), dict(alphabet=0, N=7), parts=RE, what='every pattern of up to N tokens: literals, any, groups, alternation, * and ?'),
    Job('c15.c', 'tokens', dict(alphabet=1, N=7), dict(alphabet=1, N=8), parts=RE, what='every pattern of up to N tokens: ^ and $ with groups, alternation and *'),
    Job('c15.c', 'tokens', dict(alphabet=2, N=6), dict(alphabet=2, N=7), parts=RE, what='every pattern of up to N tokens: ^, $ and newlines with groups, alternation and ?'),
    Job('c15.c', 'tokens', dict(alphabet=4, N=4), dict(alphabet=4, N=6), parts=RE, what='every pattern of up to N tokens: + and six forms of counts'),
    Job('c15.c', 'tokens', dict(alphabet=5, N=5), dict(alphabet=5, N=7), parts=RE, what='every pattern of up to N tokens: (?i), (?-i) and (?i:'),
    Job('c15.c', 'tokens', dict(alphabet=7, N=5), dict(alphabet=7, N=6), parts=RE, what='every pattern of up to N tokens: (?s)'),
    Job('c15.c', 'tokens', dict(alphabet=8, N=5), dict(alphabet=8, N=6), parts=RE, what='every pattern of up to N tokens: (?:, comments and quotes'),
    Job('c15.c', 'tokens', dict(alphabet=9, N=5), dict(alphabet=9, N=7), parts=RE, what='every pattern of up to N tokens: ^ and \\z with newlines'),
    Job('c15.c', 'tokens', dict(alphabet=6, N=3), dict(alphabet=6, N=4), parts=RE, what='every pattern of up to N tokens: (?x), whitespace, comments to the end of the line, and a literal that is an unconstrained byte'),
    Job('c15.c', 'tokens', dict(alphabet=0, N=4, flags=7), dict(alphabet=0, N=6, flags=7), parts=RE, what='every combination of tokens with the flags ICASE, SINGLE, EXTENDED, ANCHORED, REVERSE'),
    Job('c15.c', 'tokens', dict(alphabet=2, N=4, flags=7), dict(alphabet=2, N=6, flags=7), parts=RE, what='the same with ^, $ and newlines'),
    Job('c15.c', 'byte', dict(), parts=RE, what='one unconstrained byte, bare or after a backslash; the named escapes'),
    Job('c15.c', 'code', dict(), parts=RE, what='every byte written as hexadecimal, octal or control code; numbers out of range'),
    Job('c15.c', 'class', dict(N=1, kinds=8), dict(N=2, kinds=8), parts=RE, what='bracket expressions: negation, ] and - in first place, named classes, escapes'),
    Job('c15.c', 'class', dict(N=1, kinds=9), dict(N=1, kinds=9), only=('thorough',), parts=RE, what='bracket expressions: ranges between any two bytes, written in four ways'),
    Job('c15.c', 'ranges', dict(), parts=RE, only=('quick',), what='bracket expressions: ranges from any byte to several others, written in four ways'),
    Job('c15.c', 'count', dict(M=6), dict(M=14), parts=RE, what='every {m}, {m,} and {m,n} below M'),
    Job('c15.c', 'nested', dict(M=3), dict(M=4), parts=RE, what='counts, *, + and ? applied to groups that end in counts, *, + and ?'),
    Job('c15.c', 'nested', dict(M=2, levels=3), dict(M=2, levels=3), only=('thorough',), parts=RE, what='the same, up to three levels'),
    Job('c15.c', 'similar', dict(arounds=1, thirds=0), dict(arounds=2, thirds=1), parts=RE, what='every pair of alternatives from a list of expressions that differ in one respect (a range\'s end, a count, a flag, a group)'),
    Job('c15.c', 'outside', dict(), parts=RE, what='constructs outside the subset are reported'),
    Job('c15.c', 'known', dict(), parts=RE, what='the recorded findings'),
    ])
CHECKS['C16'] = dict(level='model_checking', jobs=[
    Job('c16.c', 'tokens', dict(alphabet=0, N=6), dict(alphabet=0, N=7), parts=RE, what='every pattern of up to N tokens: literals, any, groups, alternation, * and ?'),
    Job('c16.c', 'tokens', dict(alphabet=1, N=7), dict(alphabet=1, N=8), parts=RE, what='every pattern of up to N tokens: ^ and $ with groups, alternation and *'),
    Job('c16.c', 'tokens', dict(alphabet=2, N=6), dict(alphabet=2, N=7), parts=RE, what='every pattern of up to N tokens: ^, $ and newlines with groups, alternation and ?'),
    Job('c16.c', 'tokens', dict(alphabet=3, N=5), dict(alphabet=3, N=6), parts=RE, what='every pattern of up to N tokens: quantifiers and counts'),
    Job('c16.c', 'tokens', dict(alphabet=4, N=3), dict(alphabet=4, N=4), parts=RE, what='every pattern of up to N tokens where one literal is an unconstrained byte'),
    Job('c16.c', 'tokens', dict(alphabet=5, N=7), dict(alphabet=5, N=8), parts=RE, what='every pattern of up to N tokens: ^ and $ with + and groups'),
    Job('c16.c', 'tokens', dict(alphabet=0, N=5, flags=6), dict(alphabet=0, N=6, flags=6), parts=RE, what='every combination of tokens with the flags ICASE, SINGLE, ANCHORED, REVERSE'),
    Job('c16.c', 'tokens', dict(alphabet=2, N=5, flags=6), dict(alphabet=2, N=6, flags=6), parts=RE, what='the same with ^, $ and newlines'),
    Job('c16.c', 'byte', dict(), parts=RE, what='one unconstrained byte, bare or escaped; hexadecimal and octal escapes'),
    Job('c16.c', 'class', dict(N=1), dict(N=2), parts=RE, what='bracket expressions: negation, ] and - in first place, named classes, escapes'),
    Job('c16.c', 'ranges', dict(), parts=RE, what='bracket expressions: ranges from any byte to several others'),
    Job('c16.c', 'count', dict(M=6), dict(M=12), parts=RE, what='every {m} and {m,n} below M'),
    Job('c16.c', 'similar', dict(arounds=1, thirds=1), dict(arounds=2, thirds=3), parts=RE, what='every pair of alternatives from a list of expressions that differ in one respect (a range\'s end, a count, a flag, a group)'),
    Job('c16.c', 'nested', dict(M=3), dict(M=4), parts=RE, what='counts, *, + and ? applied to groups that end in counts, *, + and ?'),
    Job('c16.c', 'nested', dict(M=2, levels=3), dict(M=2, levels=3), only=('thorough',), parts=RE, what='the same, up to three levels'),
    ])
CHECKS['C17'] = dict(level='model_checking', jobs=[
    Job('c17.c', 'bytes', dict(N=2, flags=1), dict(N=2, flags=1), parts=RE, what='glob, LIKE, literal: N unconstrained bytes'),
    Job('c17.c', 'bytes', dict(N=2, few=1), dict(N=3, few=1), parts=RE, what='glob, LIKE, literal with the flags ICASE, REVERSE, ANCHORED, SINGLE: N bytes of which one is unconstrained'),
    Job('c17.c', 'bytes', dict(N=3, few=1, flags=1), dict(N=4, few=1, flags=1), parts=RE, what='glob, LIKE, literal: N bytes of which one is unconstrained'),
    Job('c17.c', 'sql', dict(alphabet=0, N=5), dict(alphabet=0, N=6), parts=RE, what='SQL: every pattern of up to N tokens'),
    Job('c17.c', 'sql', dict(alphabet=1, N=5), dict(alphabet=1, N=6), parts=RE, what='SQL: every pattern of up to N tokens'),
    Job('c17.c', 'sql', dict(alphabet=2, N=3), dict(alphabet=2, N=4), parts=RE, what='SQL: every pattern of up to N tokens, one an unconstrained byte'),
    Job('c17.c', 'sql', dict(alphabet=3, N=4), dict(alphabet=3, N=5), parts=RE, what='SQL: every pattern of up to N tokens'),
    Job('c17.c', 'sql', dict(alphabet=4, N=4, flags=1), dict(alphabet=4, N=5, flags=1), parts=RE, what='SQL: every pattern of up to N tokens, with the flags'),
    Job('c17.c', 'class', dict(N=1), dict(N=2, kinds=4, xkinds=4), parts=RE, what='SQL: bracket expressions'),
    Job('c17.c', 'class', dict(N=1, kinds=6, xkinds=2), dict(N=1, kinds=6, xkinds=2), parts=RE, what='SQL: bracket expressions with exclusions after ^'),
    Job('c17.c', 'count', dict(M=4), dict(M=6), parts=RE, what='SQL: every {m}, {m,} and {m,n} below M'),
    ])
CHECKS['C18'] = dict(level='model_checking', jobs=[
    Job('c18.c', 'any', dict(N=4, flags=6), dict(N=4, flags=6), parts=RE, what='N unconstrained bytes as a pattern, in every dialect, with combinations of EXTENDED, ANCHORED, SINGLE, MULTI, SAVE_LINKAGE_INFO'),
    Job('c18.c', 'any', dict(N=2), dict(N=3, dialect=5), parts=RE, what='N unconstrained bytes as a pattern, with ICASE and REVERSE too'),
    Job('c18.c', 'any', dict(N=1, noerr=1), dict(N=2, noerr=1), parts=RE, what='the same without a place for the error'),
    Job('c18.c', 'any', dict(N=5, flags=1, dialect=5), dict(N=5, flags=1, dialect=5), only=('thorough',), parts=RE, what='5 unconstrained bytes as a PCRE pattern'),
    Job('c18.c', 'any', dict(N=5, flags=1, dialect=3), dict(N=5, flags=1, dialect=3), only=('thorough',), parts=RE, what='5 unconstrained bytes as a native pattern'),
    Job('c18.c', 'any', dict(N=5, flags=1, dialect=4), dict(N=5, flags=1, dialect=4), only=('thorough',), parts=RE, what='5 unconstrained bytes as an SQL pattern'),
    Job('c18.c', 'context', dict(N=2, flags=6), dict(N=2, flags=6), parts=RE, what='N unconstrained bytes inside 32 fixed texts: counts, classes, ranges, groups, comments, escapes, quotes'),
    Job('c18.c', 'context', dict(N=3, first=5), dict(N=3, first=3), only=('thorough',), parts=RE, what='3 unconstrained bytes inside the fixed texts'),
    Job('c18.c', 'long', dict(M=40), dict(M=150), parts=RE, what='tokens, classes, nesting up to M long with one unconstrained byte: fixed-size buffers'),
    Job('c18.c', 'token', dict(), parts=RE, what='counts, escapes, comments, quotes of up to 16386 bytes, once or twice, with one unconstrained byte after them: the buffer of the lexer grows and shrinks'),
    Job('c18.c', 'dialect', dict(), parts=RE, what='a dialect that does not exist'),
    ])
CHECKS['C19'] = dict(level='model_checking', jobs=[
    Job('c19.c', 'plain', dict(N=3, L=2), dict(N=4, L=3), parts=RE, what='lists of up to N strings of up to L letters, in every combination of anchors'),
    Job('c19.c', 'byte', dict(N=2, L=2), dict(N=3, L=2), parts=RE, what='one letter is an unconstrained byte'),
    Job('c19.c', 'ids', dict(N=3, L=2), dict(N=4, L=3), parts=RE, what='every string has an id'),
    Job('c19.c', 'ids', dict(N=3, L=2, mode=2), dict(N=3, L=3, mode=2), parts=RE, what='some strings have an id, or share one'),
    Job('c19.c', 'neither', dict(N=3, L=2), dict(N=4, L=2), parts=RE, what='ids without anchors: none invented, none lost where its string ends'),
    Job('c19.c', 'array', dict(), parts=RE, what='re_strings'),
    Job('c19.c', 'known_neither', dict(), parts=RE, what='the recorded finding'),
    ])
CHECKS['C21'] = dict(level='model_checking', jobs=[
    Job('c21.c', 'bytes', dict(N=6), dict(N=8), parts=RE, what='every template of N unconstrained bytes'),
    Job('c21.c', 'escape', dict(N=4), dict(N=6), parts=RE, what='templates around the escape byte'),
    Job('c21.c', 'numbers', dict(), parts=RE, what='capture numbers up to and past the range of unsigned'),
    Job('c21.c', 'many', dict(), parts=RE, what='many captures'),
    ])
CHECKS['C23'] = dict(level='model_checking', jobs=[
    Job('c23.c', 'states', dict(K=2), dict(K=3), what='sets of states: every history of K operations over states whose values are unconstrained'),
    Job('c23.c', 'states', dict(K=3, ops=6), dict(K=4, ops=6), what='the same without renumbering and rebasing'),
    Job('c23.c', 'grow', dict(M=18), dict(M=32), what='sets past their capacity, then a change with an unconstrained state'),
    Job('c23.c', 'edges', dict(K=2, ops=10), dict(K=2, ops=10), what='sets of edges: every history of K operations over states whose values are unconstrained'),
    Job('c23.c', 'edges', dict(K=3, small=1, masks=2, labels=1), dict(K=3, small=1, masks=4, labels=2), what='every history of K operations, equivalence classes too'),
    Job('c23.c', 'edges', dict(K=2, small=2, masks=6, labels=5), dict(K=2, small=2, masks=6, labels=5), what='the same with large state numbers and more labels'),
    Job('c23.c', 'after', dict(K=1, small=2, masks=6), dict(K=1, small=1, masks=6), what='every operation on every set of up to three groups'),
    Job('c23.c', 'after', dict(two=1, masks=4, small=2), dict(two=1, masks=5, small=2), what='copying one set of edges into another'),
    Job('c23.c', 'after', dict(K=2, small=1, masks=2), dict(K=2, small=1, masks=4), what='every two operations on every set of up to three groups'),
    Job('c23.c', 'label', dict(K=1, small=2), dict(K=2, small=1), what='every label sought in sets with every label'),
    ])
CHECKS['C24'] = dict(level='model_checking', jobs=[
    Job('c24.c', 'idmap', dict(K=3), dict(K=4), what='id map: every history of K settings of 3 states and 6 values around word boundaries'),
    Job('c24.c', 'idmap', dict(K=3, states=5, values=8), dict(K=4, states=5, values=8), what='the same with more states and values'),
    Job('c24.c', 'idmap_many', dict(M=40), dict(M=120), what='id map: up to M states, then an unconstrained one'),
    Job('c24.c', 'queue', dict(K=10), dict(K=14, C=5), what='queue: every history of K operations, unconstrained values'),
    Job('c24.c', 'priq', dict(K=5), dict(K=6), what='priority queue: every history of K operations, unconstrained costs'),
    Job('c24.c', 'bitmap', dict(K=3), dict(K=4), what='bitmaps: every history of K operations on two bitmaps'),
    Job('c24.c', 'bitmap_byte', dict(), what='bitmaps: unconstrained bytes set, removed and asked for'),
    Job('c24.c', 'print', dict(R=2), dict(R=3), what='the text of a set of bytes: unions of R ranges between bytes where classes end'),
    Job('c24.c', 'print_range', dict(W=256), dict(W=256), what='the text of every range of bytes'),
    Job('c24.c', 'interned', dict(K=3, P=5), dict(K=4, P=4), what='interned sets: every history of K sets'),
    Job('c24.c', 'interned_many', dict(M=18), dict(M=20), what='interned sets: so many that every table grows, then one with an unconstrained state'),
    Job('c24.c', 'tuples', dict(M=38), dict(M=40), what='the generic set: up to M elements, then an unconstrained one'),
    ])
CHECKS['C20'] = dict(level='model_checking', jobs=[
    Job('c20.c', 'lit', dict(alphabet=0, N=5), dict(alphabet=0, N=7), parts=RE, what='PCRE: every pattern of up to N tokens: literals, any, groups, alternation, * and ?'),
    Job('c20.c', 'lit', dict(alphabet=1, N=6), dict(alphabet=1, N=8), parts=RE, what='PCRE: ^ and $ with groups, alternation and *'),
    Job('c20.c', 'lit', dict(alphabet=2, N=5), dict(alphabet=2, N=7), parts=RE, what='PCRE: ^, $ and newlines with groups, alternation and ?'),
    Job('c20.c', 'lit', dict(alphabet=2, N=4, flags=7), dict(alphabet=2, N=5, flags=7), parts=RE, what='PCRE: the same with the flags ICASE, SINGLE, EXTENDED, ANCHORED, REVERSE'),
    Job('c20.c', 'lit', dict(alphabet=4, N=4), dict(alphabet=4, N=5), parts=RE, what='PCRE: + and counts'),
    Job('c20.c', 'lit', dict(alphabet=5, N=4), dict(alphabet=5, N=6), parts=RE, what='PCRE: (?i), (?-i) and (?i:'),
    Job('c20.c', 'lit', dict(alphabet=7, N=4), dict(alphabet=7, N=5), parts=RE, what='PCRE: (?s)'),
    Job('c20.c', 'lit', dict(alphabet=8, N=4), dict(alphabet=8, N=6), parts=RE, what='PCRE: (?:, comments and quotes'),
    Job('c20.c', 'lit', dict(alphabet=9, N=5), dict(alphabet=9, N=6), parts=RE, what='PCRE: ^ and \\z with newlines'),
    Job('c20.c', 'lit', dict(alphabet=6, N=2), dict(alphabet=6, N=4), parts=RE, what='PCRE: (?x), whitespace and a literal that is an unconstrained byte'),
    Job('c20.c', 'plain', dict(), dict(N=5), parts=RE, what='PCRE: literals of up to N bytes, one unconstrained, between optional anchors'),
    Job('c20.c', 'bytes', dict(N=2, flags=1), dict(N=2, flags=7), parts=RE, what='every dialect and flags: N unconstrained bytes'),
    Job('c20.c', 'bytes', dict(N=1, flags=7), dict(N=1, flags=7), parts=RE, what='every dialect and 7 flag sets: one unconstrained byte'),
    Job('c20.c', 'bytes', dict(N=1, flags=7, pre=1), dict(N=2, flags=5, pre=1), parts=RE, what='the same between ^ and $'),
    Job('c20n.c', 'lit', dict(), dict(N=6), parts=RE, what='native: every pattern of up to N tokens'),
    Job('c20n.c', 'lit', dict(alphabet=1), dict(alphabet=1, N=6), parts=RE, what='native: every pattern of up to N tokens, another alphabet'),
    Job('c20n.c', 'plain', dict(), dict(N=5), parts=RE, what='native: literals of up to N bytes, one unconstrained, between optional anchors'),
    ])
CHECKS['C22'] = dict(level='model_checking', jobs=[
    Job('c22.c', 'tokens', dict(alphabet=0, N=5), dict(alphabet=0, N=6), parts=RE, what='PCRE: every pattern of up to N tokens: literals, any, groups, alternation, * and ?; printed and compiled again: the same language, words of any length')] + [
    Job('c22.c', 'tokens', dict(alphabet=a, N=q, **x), dict(alphabet=a, N=t, **x), parts=RE, what='PCRE: every pattern of up to N tokens: ' + w) for a, q, t, x, w in (
        (1, 6, 7, {}, '^ and $ with groups, alternation and *'), (2, 5, 6, {}, '^, $ and newlines with groups, alternation and ?'), (2, 4, 5, dict(flags=7), '^, $ and newlines, with the flags ICASE, SINGLE, EXTENDED, ANCHORED, REVERSE'),
        (4, 4, 5, {}, '+ and counts'), (5, 4, 6, {}, '(?i), (?-i) and (?i:'), (7, 5, 5, {}, '(?s)'), (8, 4, 5, {}, '(?:, comments and quotes'), (9, 5, 6, {}, '^ and \\z with newlines'), (6, 2, 3, {}, '(?x), whitespace and a literal that is an unconstrained byte'), (8, 4, 4, dict(hex=1), '(?:, comments and quotes; printed in hexadecimal'))] + [
    Job('c22.c', 'byte', dict(), dict(hex=1), parts=RE, what='PCRE: one unconstrained byte, bare or escaped'),
    Job('c22.c', 'code', dict(), parts=RE, what='PCRE: every byte as hexadecimal, octal or control code'),
    Job('c22.c', 'class', dict(N=1, kinds=8), dict(N=2, kinds=8), parts=RE, what='PCRE: bracket expressions'),
    Job('c22.c', 'ranges', dict(), dict(hex=1), parts=RE, what='PCRE: ranges from any byte to several others'),
    Job('c22.c', 'count', dict(M=5), dict(M=12), parts=RE, what='PCRE: counts'),
    Job('c22.c', 'nested', dict(M=3), dict(M=4), parts=RE, what='PCRE: counts, *, + and ? applied to groups that end in counts, *, + and ?'),
    Job('c22.c', 'similar', dict(arounds=1, thirds=0), dict(arounds=2, thirds=0), parts=RE, what='PCRE: every pair of alternatives from a list of expressions that differ in one respect (a range\'s end, a count, a flag, a group)'),
    Job('c22n.c', 'nested', dict(M=2), dict(M=3), parts=RE, what='native: the same'),
    Job('c22n.c', 'tokens', dict(alphabet=0, N=5), dict(alphabet=0, N=6), parts=RE, what='native: every pattern of up to N tokens'),
    Job('c22n.c', 'tokens', dict(alphabet=2, N=5), dict(alphabet=2, N=6), parts=RE, what='native: ^, $ and newlines'),
    Job('c22n.c', 'tokens', dict(alphabet=0, N=4, flags=6), dict(alphabet=0, N=5, flags=6), parts=RE, what='native: with the flags'),
    Job('c22n.c', 'tokens', dict(alphabet=3, N=4), dict(alphabet=3, N=5), parts=RE, what='native: quantifiers and counts'),
    Job('c22n.c', 'byte', dict(), parts=RE, what='native: one unconstrained byte; escapes'),
    Job('c22n.c', 'class', dict(N=1), dict(N=2), parts=RE, what='native: bracket expressions'),
    Job('c22g.c', 'bytes', dict(N=2, few=1), dict(N=3, few=1), parts=RE, what='glob, LIKE, literal: N bytes of which one is unconstrained, with flags'),
    Job('c22g.c', 'sql', dict(alphabet=0, N=4), dict(alphabet=0, N=5), parts=RE, what='SQL: every pattern of up to N tokens'),
    Job('c22g.c', 'sql', dict(alphabet=1, N=4), dict(alphabet=1, N=5), parts=RE, what='SQL: every pattern of up to N tokens'),
    Job('c22g.c', 'class', dict(N=1), dict(N=1), parts=RE, what='SQL: bracket expressions'),
    Job('c22.c', 'from', dict(N=3, E=2), dict(N=3, E=3), parts=RE, what='every automaton of N states and E transitions (epsilon too, any start or none, any accepting set) turned into an expression'),
    Job('c22.c', 'from', dict(N=3, E=3, labels=1), dict(N=4, E=3, labels=1), parts=RE, what='the same with more transitions'),
    Job('c22.c', 'from', dict(N=2, E=4), dict(N=2, E=5), parts=RE, what='the same with more transitions'),
    Job('c22.c', 'from_label', dict(), dict(K=3), parts=RE, what='labels that are unconstrained bytes'),
    Job('c22.c', 'known_subtract', dict(), parts=RE, what='the recorded finding'),
    ])
CHECKS['C28'] = dict(level='model_checking', jobs=[
    Job('c28.c', 'exec', dict(E=5, perms=1), dict(L=4), what='every automaton of N states (cycles are self loops), every capture over it, every input of up to L unconstrained bytes'),
    Job('c28.c', 'exec', dict(ops=1, op=1, E=4, perms=1), dict(ops=1, op=1), what='after fsm_clone'),
    Job('c28.c', 'exec', dict(ops=1, op=2, E=4, perms=1), dict(ops=1, op=2), what='after fsm_determinise'),
    Job('c28.c', 'exec', dict(ops=1, op=3, E=4, perms=1, L=2), dict(ops=1, op=3, E=5), what='after fsm_shuffle with 4 seeds'),
    Job('c28.c', 'exec', dict(ops=1, op=4, E=4), dict(ops=1, op=4), what='after fsm_trim'),
    Job('c28.c', 'exec', dict(ops=1, op=5, E=4, perms=1, L=2), dict(ops=1, op=5), what='after fsm_remove_epsilons'),
    Job('c28.c', 'exec', dict(ops=2, nops=6, E=3, perms=1, labels=1, L=2), dict(ops=2, nops=6, E=3, labels=2, L=2), what='after two of the above'),
    Job('c28.c', 'exec', dict(K=2, labels=1, L=2), dict(K=2, E=4, labels=2, L=3), what='two captures'),
    Job('c28.c', 'minimise', dict(L=2), dict(L=3, E=5), what='fsm_minimise: exact where no states were merged'),
    Job('c28.c', 'union', dict(L=2, labels=2, E=3), dict(L=3, labels=2, E=4), what='the union of two automata with captures, determinised'),
    Job('c28.c', 'union', dict(L=2, N=3, M=2, E=3), dict(L=2, N=3, M=3, E=3), what='the same with more states'),
    Job('c28.c', 'union', dict(L=2, labels=2, E=3, min=1), dict(L=2, N=3, M=3, E=3, min=1), what='the same, minimised'),
    Job('c28.c', 'remove', dict(L=2, perms=1), dict(L=2), what='fsm_removestate'),
    Job('c28.c', 'api', dict(L=2, E=3, perms=1), dict(L=2, E=4), what='ids rebased; no captures wanted'),
    Job('c28.c', 'chain', dict(N=24), dict(N=60), what='long paths, many captures: the tables grow'),
    Job('c28.c', 'known_minimise', dict(), what='the recorded finding'),
    ])
CHECKS['C26'] = dict(level='model_checking', jobs=[
    Job('c26.c', 'op', dict(op=0, ops=28), dict(op=0, ops=28), what='28 operations on 6 automata: whichever allocation fails, the operation reports it, or does what it would have done'),
    Job('c26.c', 'op', dict(op=9, ops=19, eager=1), dict(op=9, ops=19, eager=1), what='the same with eager outputs'),
    Job('c26.c', 'op', dict(op=10, ops=18, capture=1), dict(op=10, ops=18, capture=1, eager=1, ids=0), what='the same with captures'),
    Job('c26.c', 'any', dict(op=11, ops=17, N=3, E=2), dict(op=11, ops=17, N=3, E=3, labels=1), what='17 operations on every automaton of N states and up to E transitions (epsilon transitions too)'),
    Job('c26.c', 'any', dict(op=12, ops=3, N=2, E=4), dict(op=12, ops=3, N=3, E=3), what='determinisation, removal of epsilons and minimisation with more transitions'),
    ])
CHECKS['C27'] = dict(level='model_checking', jobs=[
    Job('c27.c', 'ops', dict(N=3, E=2, labels=1), dict(N=3, E=2), what='25 operations on every automaton of N states and up to E transitions, run twice: fresh memory holds any bytes, the second run uses the allocator of the caller; same printed text and answers, no decision on undefined bytes, all memory returned to where it came from'),
    Job('c27.c', 'ops', dict(N=2, E=2, ids=2), dict(N=3, E=2, labels=1, ids=2), what='the same with end ids and eager outputs'),
    Job('c27.c', 'ops', dict(N=2, E=3, labels=1, ids=3, eps=0), dict(N=3, E=2, labels=1, ids=3), what='the same with captures'),
    Job('c27.c', 'ops', dict(N=2, E=1, ops=2, labels=1), dict(N=2, E=2, ops=2, labels=1), what='two operations in turn'),
    Job('c27.c', 'print', dict(N=2, E=3, opts=6), dict(N=3, E=3, opts=6), what='20 output formats under 6 sets of options, for every DFA minimised'),
    Job('c27.c', 'vm', dict(), dict(N=3), what='both encodings of the virtual machine, any input'),
    Job('c27.c', 'exec', dict(N=4), dict(N=5, E=4), what='fsm_exec with a capture, any input'),
    Job('c27r.c', 're', dict(), dict(), parts=RE, what='24 patterns, right and wrong, in all dialects: compiled, parsed, printed'),
    Job('c27r.c', 'group', dict(), dict(), parts=RE, what='groups of patterns for repeated matching'),
    Job('c27r.c', 'strings', dict(), dict(S=4), parts=RE, what='sets of strings'),
    ])
LX = lambda kind, count: G(kind, 17, count, src='lxgen.c')
LXP = dict(rels=['src/lx/*.c'], exclude=('src/lx/main.c', 'src/lx/print.c'), keep=('lx_parse',), flags=('-ftrivial-auto-var-init=zero',))
CHECKS['C25'] = dict(level='model_checking', jobs=[
    Job('c25.c', 'lex', dict(L=4), gen=LX(0, 126), only=('quick',), what='42 lx specifications (zones, nested and implicit zones, one-way zones, several mappings into and out of a zone, set operations, references to variables and tokens, skipped text, comments, escapes), each with 3 of 17 sets of options (way of reading, token buffer, prefixes, positions, left-out functions): the lexer lx prints is compiled and run on unconstrained input of every length up to L'),
    Job('c25.c', 'lex', dict(L=3), gen=LX(0, 714), only=('thorough',), what='42 lx specifications with all 17 sets of options each'),
    Job('c25.c', 'lex', dict(L=6), gen=LX(0, 126), only=('thorough',), what='longer inputs'),
    Job('c25.c', 'lex', dict(L=3), dict(L=6), gen=LX(1, 144), what='all 144 pairs of 12 patterns as two mappings with different tokens'),
    Job('c25.c', 'lex', dict(L=3), dict(L=6), gen=LX(2, 144), what='all 144 pairs of 12 patterns as a token and a pattern to skip'),
    Job('c25.c', 'lex', dict(L=3), dict(L=6), gen=LX(3, 144), what='all 144 pairs of 12 patterns as the two ends of a zone'),
    Job('c25p.c', 'one', dict(stride=2), dict(stride=1), parts=RE, local=LXP, what='lx reads the 42 specifications with one byte (each other one; thorough: each) unconstrained: an answer, or a refusal with exit status'),
    Job('c25p.c', 'any', dict(L=2), dict(L=3), parts=RE, local=LXP, what='lx reads up to L unconstrained bytes, alone and in 8 contexts'),
    Job('c25p.c', 'long', dict(), parts=RE, local=LXP, what='lx reads patterns and names of 505 to 516 bytes'),
    ])
CLI = lambda p: dict(rels=['src/%s/main.c' % p], keep=('cli_main',), rename=('main=cli_main',), flags=('-Dfopen=cli_fopen', '-Dfclose=cli_fclose', '-Dexit=cli_exit', '-Datexit=cli_atexit', '-Dgetline=cli_getline', '-D__NO_INLINE__', '-Dclock_gettime=cli_clock'))
def J29(p, *a, **k): return Job('c29%s.c' % p, *a, parts=RE, local=CLI(p), **k)
CHECKS['C29'] = dict(level='model_checking', jobs=[
    J29('re', 'exec', dict(P=1, L=2), dict(P=1, L=3), what='re PATTERN TEXT...: 6 dialects, options, an unconstrained text: exit status, patterns named by -z'),
    J29('re', 'exec', dict(P=2, L=1), dict(P=2, L=2), what='the same with two patterns, with and without --'),
    J29('re', 'print', dict(P=2), dict(P=3), what='re -p -l fsm: up to P patterns by union or -s, files, flags, -n, -u: the automaton printed has their language and ids'),
    J29('re', 'query', dict(P=2), dict(P=3), what='re -q: each query over the patterns given'),
    J29('re', 'example', dict(P=2), dict(P=3), what='re -m: the examples match, and name their patterns'),
    J29('re', 'literal', dict(), what='re -q isliteral'),
    J29('re', 'usage', dict(), what='wrong usage of re, patterns that do not parse, unsupported ones: status and nothing on stdout'),
    J29('re', 'files', dict(), what='re -x and -y: texts and patterns from files'),
    J29('re', 'words', dict(), what='re -G'),
    J29('fsm', 'op', dict(), what='fsm -t: every operation over drawn files: the automaton printed is that of the library operation'),
    J29('fsm', 'exec', dict(), what='fsm FILE TEXT...: unconstrained text, -x, exit status'),
    J29('fsm', 'query', dict(), what='fsm -q: every query over drawn files'),
    J29('fsm', 'order', dict(), what='fsm -t several times (known finding)'),
    J29('fsm', 'usage', dict(), what='wrong usage of fsm'),
    J29('rx', 'one', dict(P=2), dict(P=3), what='rx with one file of up to P patterns x 12 sets of options x 6 dialects: ids by line, ambiguity, declined patterns, strict, limit, the automaton printed'),
    J29('rx', 'two', dict(P=1), dict(P=2), what='rx with two files: ids by file, dialect by name'),
    J29('rx', 'many', dict(N=34), what='rx with more patterns than its lists have room for at first'),
    J29('rx', 'charset', dict(), what='rx -C with literals'),
    J29('rx', 'known_charset', dict(), what='rx -C with a pattern that is not a literal (known finding)'),
    J29('rx', 'bytes', dict(N=1), dict(N=2), what='rx -r literal over files of up to N unconstrained bytes'),
    J29('rx', 'usage', dict(), what='wrong usage of rx'),
    ])
for c in CHECKS.values(): c.setdefault('assumptions', ASM)
