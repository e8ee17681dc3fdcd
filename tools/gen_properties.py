#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(d)

p('C01', 'Determinising an automaton preserves its language exactly',
  'Converting any automaton (with epsilon transitions, several transitions on one byte, unreachable states, self loops) to a DFA yields an automaton in which every state has at most one successor per byte and no epsilon transitions, and which accepts exactly the byte strings the original accepted. The variant with a state limit either gives that same result or reports that the limit was reached.',
  ['inputs'], 'every NFA x every byte string; every state limit',
  'tests/determinise and tests/eclosure hold 21 fixed automata; the subset construction caches, groups and interns sets, and what it does depends on the shape of the automaton and on which of 256 labels overlap.',
  ['src/libfsm/determinise.c', 'src/libfsm/epsilons.c', 'src/adt/internedstateset.c', 'src/libfsm/closure.c', 'src/adt/edgeset.c'],
  [('subset construction with pairwise label grouping and a result cache', 'src/libfsm/determinise.c analyze_closures__pairwise_grouping'),
   ('epsilon removal by closure', 'src/libfsm/epsilons.c fsm_remove_epsilons'),
   ('interning of state sets', 'src/adt/internedstateset.c')],
  observe=['fsm_exec on the result', 'fsm_all(fsm, fsm_isdfa)', 'fsm_walk_edges'])

p('C02', 'Minimising a DFA preserves its language and leaves it minimal',
  'Minimising any DFA gives a DFA that accepts exactly the same byte strings, and in which no two states are equivalent and every state lies on a path from the start to an accepting state, so that no automaton with fewer states accepts the same strings with the same identifiers. States whose end identifiers or eager outputs differ are never merged.',
  ['inputs'], 'every DFA (including partial and complete, with dead or unreachable states, any labels) x every byte string',
  'tests/minimise has 45 fixed cases; partition refinement mistakes show only for particular orders of splitting and particular label sets.',
  ['src/libfsm/minimise.c', 'src/libfsm/trim.c', 'src/libfsm/consolidate.c'],
  [('partition refinement over equivalence classes', 'src/libfsm/minimise.c build_minimised_mapping'),
   ('initial split on end ids / eager outputs', 'src/libfsm/minimise.c split_ecs_by_end_metadata'),
   ('trim before refinement', 'src/libfsm/trim.c fsm_trim'),
   ('rewriting through a mapping', 'src/libfsm/consolidate.c')],
  observe=['fsm_countstates', 'fsm_exec', 'fsm_endid_get'])

p('C03', 'Union, intersection, subtraction and complement are exact',
  'For any two automata A and B, the union accepts exactly the byte strings accepted by A or B, the intersection those accepted by both, the subtraction those accepted by A and not by B, and the complement exactly those it does not accept, including the empty string and every byte value. Union of an array of automata accepts exactly the strings accepted by any member and reports where the states of each member went; intersecting with a character set keeps exactly the accepted strings made only of those characters.',
  ['inputs'], 'every pair of automata (NFA or DFA, with empty or unreachable parts) x every byte string',
  'tests/union, intersect, subtract, complement use about 20 hand-made operand pairs.',
  ['src/libfsm/union.c', 'src/libfsm/intersect.c', 'src/libfsm/subtract.c', 'src/libfsm/complement.c', 'src/libfsm/complete.c', 'src/libfsm/walk2.c', 'src/libfsm/merge.c', 'src/libfsm/charset.c'],
  [('product walk over state pairs with edge and end constraints', 'src/libfsm/walk2.c fsm_walk2'),
   ('merging state arrays and rebasing indices', 'src/libfsm/merge.c'),
   ('completion then flipping end marks', 'src/libfsm/complement.c')],
  observe=['fsm_exec after fsm_determinise'])

p('C04', 'Concatenation and reversal are exact',
  'Concatenating A and B accepts exactly the strings that split into a part accepted by A followed by a part accepted by B, for any automata including those that accept the empty string, have several accepting states, or have edges out of accepting states or into start states. Reversing accepts exactly the mirror images of the accepted strings, so reversing twice gives back the original language.',
  ['inputs'], 'every automaton / pair of automata x every byte string',
  'tests/reverse has 15 fixed automata and there is no test directory for concat.',
  ['src/libfsm/concat.c', 'src/libfsm/reverse.c', 'src/libfsm/collate.c', 'src/libfsm/merge.c'],
  [('collating accepting states', 'src/libfsm/collate.c'), ('linking by epsilon', 'src/libfsm/concat.c'),
   ('rebuilding inverted edges and a new start', 'src/libfsm/reverse.c')],
  observe=['fsm_exec after fsm_determinise'])

p('C05', 'Structural rewrites keep the language, the ids and the source intact',
  'Cloning, removing epsilon transitions, trimming, completing, shuffling state numbers, vacuuming and bulk or single state addition leave the set of accepted byte strings unchanged; completion makes every state have a transition for every byte, and trimming removes exactly the states that are unreachable or (when asked) cannot reach an accepting state. A clone is independent of its source: later changes to or release of one do not affect the other. Removing a state removes exactly that state and the transitions into and out of it, and merging two states gives the quotient automaton.',
  ['inputs', 'histories'], 'every automaton x every byte string x sequences of these operations',
  'each operation has at most a handful of fixed automata in tests; index renumbering errors need particular positions of removed states.',
  ['src/libfsm/clone.c', 'src/libfsm/epsilons.c', 'src/libfsm/trim.c', 'src/libfsm/complete.c', 'src/libfsm/shuffle.c', 'src/libfsm/vacuum.c', 'src/libfsm/state.c', 'src/libfsm/mergestates.c', 'src/libfsm/consolidate.c', 'src/libfsm/subgraph.c'],
  [('state renumbering through a mapping', 'src/libfsm/state.c fsm_compact_states, fsm_removestate'),
   ('edge and epsilon set compaction', 'src/adt/edgeset.c, src/adt/stateset.c'),
   ('deep copy of sets and metadata', 'src/libfsm/clone.c')],
  observe=['fsm_exec', 'fsm_walk_edges', 'fsm_countstates'])

p('C06', 'End ids identify exactly the patterns that matched',
  'When automata carrying end ids are unioned and then determinised and minimised, the accepting state reached by a string carries exactly the ids of those members that accept the string: none lost, none invented. The ids reported for a state are sorted and without duplicates, the count equals the number reported, and remapping or incrementing ids changes every id exactly as asked.',
  ['inputs', 'histories'], 'every set of member automata, id assignment, sequence of id operations and byte string',
  'tests/endids has 16 programs with fixed ids and patterns; the id store is an open-addressed hash table that grows, and ids are renumbered at every transformation.',
  ['src/libfsm/endids.c', 'src/libfsm/determinise.c', 'src/libfsm/minimise.c', 'src/libfsm/merge.c', 'src/libfsm/clone.c'],
  [('hash table from state to sorted id set', 'src/libfsm/endids.c'),
   ('carrying ids over when states are combined', 'src/libfsm/endids.c fsm_endid_carry'),
   ('compaction with a state mapping', 'src/libfsm/endids.c fsm_endid_compact')],
  observe=['fsm_endid_get', 'fsm_endid_count', 'fsm_exec'])

p('C07', 'Eager outputs are emitted exactly when their states are entered',
  'During execution each eager output id attached to a state is reported when, and only when, that state is entered, also after epsilon removal, determinisation, minimisation, cloning and trimming (outputs on states that trimming removes, because no accepting state can be reached from them, go with those states). A group of patterns combined for repeated matching reports, for any input, exactly the ids of the patterns that match that input, by an eager output or by an end id of the accepting state.',
  ['inputs'], 'every automaton, id placement, pattern group and byte string',
  'tests/eager_output has 22 programs, each with fixed patterns and inputs.',
  ['src/libfsm/eager_output.c', 'src/libfsm/union.c', 'src/libfsm/exec.c', 'src/libfsm/determinise.c', 'src/libfsm/minimise.c', 'src/libfsm/epsilons.c'],
  [('per-state output sets', 'src/libfsm/eager_output.c'), ('remapping on determinise', 'src/libfsm/determinise.c remap_eager_outputs'),
   ('linking of pattern groups with a shared loop', 'src/libfsm/union.c fsm_union_repeated_pattern_group')],
  observe=['callback set by fsm_eager_output_set_cb during fsm_exec'])

p('C08', 'Execution follows the automaton byte by byte and reads no further',
  'Executing a DFA on an input accepts exactly when following the transition for each byte from the start state ends in a state marked accepting, and reports that state. It reads one byte at a time, stops reading at the first byte without a transition, treats all 256 byte values alike including NUL and those above 127, and refuses an automaton that is not deterministic or has no start state.',
  ['inputs'], 'every DFA and every byte string, including bytes 0, 127, 128 and 255',
  'tests run fixed automata over fixed printable strings.',
  ['src/libfsm/exec.c', 'src/libfsm/getc.c', 'src/libfsm/edge.c', 'src/adt/edgeset.c', 'src/libfsm/pred'],
  [('edge lookup by byte', 'src/adt/edgeset.c edge_set_transition'), ('determinism check', 'src/libfsm/pred/isdfa.c')],
  observe=['fsm_exec', 'calls of the getc callback'])

p('C09', 'Questions about an automaton are answered correctly',
  'For any automaton the library says it is empty exactly when it accepts no string, says two automata are equal exactly when they accept the same strings, and answers is-DFA, is-complete, has-epsilons, epsilons-only, has-incoming, has-outgoing, has-nondeterminism, reachable-all and reachable-any exactly according to their definitions. Asking does not change the automaton.',
  ['inputs'], 'every automaton or pair of automata, every state',
  'tests/pred and tests/equals hold 34 fixed automata.',
  ['src/libfsm/empty.c', 'src/libfsm/equal.c', 'src/libfsm/pred', 'src/libfsm/walk', 'src/libfsm/edge.c'],
  [('difference both ways is empty', 'src/libfsm/equal.c'), ('reachability walk', 'src/libfsm/walk/reachable.c'), ('per state predicates', 'src/libfsm/pred')],
  observe=['fsm_empty', 'fsm_equal', 'fsm_is*', 'fsm_has*', 'fsm_reachable*'])

p('C10', 'Generated examples are real matches and required bytes are required',
  'Every string produced by match generation within a length limit is accepted by the automaton and no longer than the limit, no distinct path is produced twice, and something is produced whenever some accepted string fits in the limit. The example and the shortest path to a state are of minimal cost and really lead there, and the set of required characters contains exactly the bytes that occur in every accepted string, when anything is accepted at all.',
  ['inputs'], 'every DFA, goal state and length limit',
  'tests/gen has 3 and tests/detect_required 11 fixed patterns.',
  ['src/libfsm/gen.c', 'src/libfsm/example.c', 'src/libfsm/shortest.c', 'src/libfsm/detect_required.c', 'src/adt/priq.c'],
  [('depth-first walk pruned by distance to an end state', 'src/libfsm/gen.c'), ('priority search', 'src/libfsm/shortest.c'),
   ('intersection of labels over paths', 'src/libfsm/detect_required.c')],
  observe=['fsm_generate_matches callback', 'fsm_example', 'fsm_shortest', 'fsm_detect_required_characters'])

p('C11', 'The bytecode virtual machine agrees with the automaton',
  'Compiling a DFA to virtual machine bytecode, in either encoding and with or without optimisation, and matching a buffer or a file gives the same verdict as executing the DFA on those bytes, for every byte string including the empty one and those holding NUL or bytes above 127.',
  ['inputs', 'configurations'], 'every DFA x both encodings x optimisation on/off x buffer/file x every byte string',
  'tests/retest runs a fixed list of regex and string pairs with one encoding.',
  ['src/libfsm/vm.c', 'src/libfsm/vm/vm.c', 'src/libfsm/vm/v1.c', 'src/libfsm/vm/v2.c', 'src/libfsm/vm/ir.c', 'src/libfsm/print/ir.c', 'src/libfsm/vm/retlist.c'],
  [('choosing a per-state edge strategy', 'src/libfsm/print/ir.c make_ir'), ('lowering to compare and branch ops', 'src/libfsm/vm/ir.c'),
   ('encoding branch offsets', 'src/libfsm/vm/v1.c, v2.c'), ('interpreting', 'src/libfsm/vm/v1.c, v2.c')],
  observe=['fsm_vm_match_buffer', 'fsm_vm_match_file'])

p('C12', 'Generated C code agrees with the automaton',
  'The C code printed for a DFA, as switch statements, as VM-style code or as VM operation tables, accepts exactly the byte strings the DFA accepts and yields exactly the ids of the accepting state, for each way of reading input (string, pointer pair, callback), with or without case ranges, hexadecimal escapes, comments, and for each way of reporting ids. It never reads outside the input it was given. The hooks a caller of fsm_print supplies are given each accepting state once with its ids, and a conflict exactly where several ids are ambiguous; a hook that fails makes printing fail, with nothing leaked.',
  ['inputs', 'configurations', 'programs'], 'every DFA x print options x every byte string',
  'tests/retest compiles a fixed list of pairs and only checks accept or reject with one set of options.',
  ['src/libfsm/print/c.c', 'src/libfsm/print/vmc.c', 'src/libfsm/print/vmops.c', 'src/libfsm/print/ir.c', 'src/libfsm/vm/ir.c', 'src/print/c.c', 'src/libfsm/print.c'],
  [('edge strategies: none, same, complete, partial, dominant, error', 'src/libfsm/print/ir.c'), ('statement emission', 'src/libfsm/print/c.c, vmc.c, vmops.c'),
   ('escaping of byte values', 'src/print/c.c')],
  observe=['compiled generated code'])

p('C13', 'Generated code in the other languages agrees with the automaton',
  'The code printed for a DFA as LLVM IR, Go, Rust, awk, shell or AMD64 assembly, read with the semantics of its language, accepts exactly the byte strings the DFA accepts and yields the id of the accepting state where the language supports it. The hooks of fsm_print behave as for C.',
  ['inputs', 'configurations', 'programs'], 'every DFA x language x input style x every byte string',
  'tests/retest runs LLVM, Go and Rust output on a fixed list of pairs; awk, shell and assembly output hardly at all.',
  ['src/libfsm/print/llvm.c', 'src/libfsm/print/go.c', 'src/libfsm/print/rust.c', 'src/libfsm/print/awk.c', 'src/libfsm/print/sh.c', 'src/libfsm/print/vmasm.c', 'src/libfsm/vm/ir.c'],
  [('one statement per VM operation', 'src/libfsm/print'), ('block structure from branch targets', 'src/libfsm/print/llvm.c, rust.c, go.c')],
  observe=['printed text'])

p('C14', 'Printing an automaton and reading it back gives the same automaton',
  'Printing any automaton in the fsm text format and parsing that text gives an automaton with the same states, transitions, accepting states, start state and end ids, for every byte value as a label and every print option but group_edges (whose ranges only people read). The parser reads or refuses any text without crashing. The JSON output, the DOT output, and the generated API calls when compiled and run, describe that same automaton.',
  ['inputs', 'configurations'], 'every automaton x options; every text',
  'tests compare a few dozen fixed files.',
  ['src/libfsm/print/fsm.c', 'src/libfsm/parser.c', 'src/libfsm/lexer.c', 'src/libfsm/print/json.c', 'src/libfsm/print/api.c', 'src/print/fsm.c', 'src/libfsm/print/dot.c', 'src/adt/bitmap.c'],
  [('edge grouping and escaping', 'src/libfsm/print/fsm.c, src/print/fsm.c'), ('generated lexer and parser', 'src/libfsm/lexer.c, parser.c')],
  observe=['fsm_print', 'fsm_parse', 'fsm_equal'])

p('C15', 'PCRE patterns compile to the language PCRE gives them',
  'A pattern in the supported PCRE subset (literals, escapes, classes, groups, alternation, repetition with counts, anchors, inline flags, comments) compiles to an automaton accepting exactly the strings in which PCRE would find a match. Case-insensitive, single-line, extended, anchored and reverse flags change the language exactly as documented, and constructs outside the subset are reported as unsupported rather than given another meaning.',
  ['inputs', 'configurations'], 'every pattern and flag set x every byte string',
  'tests/pcre* hold about 300 fixed patterns whose automata are compared to fixed files; the interplay of anchors, repetition, nullable groups and alternation has endlessly many shapes.',
  ['src/libre/dialect/pcre', 'src/libre/parser.act', 'src/libre/ast.c', 'src/libre/ast_analysis.c', 'src/libre/ast_rewrite.c', 'src/libre/ast_compile.c', 'src/libre/class_name.c', 'src/libre/re.c'],
  [('lexer and parser for the dialect', 'src/libre/dialect/pcre'), ('anchor and nullability analysis', 'src/libre/ast_analysis.c'),
   ('normalising rewrites', 'src/libre/ast_rewrite.c'), ('Thompson style construction', 'src/libre/ast_compile.c')],
  observe=['re_comp then fsm_exec'])

p('C16', 'Native patterns compile to the language their syntax describes',
  'A pattern in the native dialect (literals, escapes, any-character, bracket expressions with ranges and negation, groups, alternation, repetition, anchors) compiles to an automaton accepting exactly the strings that pattern describes, unanchored unless anchors or the anchored flag say otherwise.',
  ['inputs', 'configurations'], 'every pattern and flag set x every byte string',
  'tests/native holds 38 fixed patterns.',
  ['src/libre/dialect/native', 'src/libre/parser.act', 'src/libre/ast_analysis.c', 'src/libre/ast_rewrite.c', 'src/libre/ast_compile.c'],
  [('lexer and parser for the dialect', 'src/libre/dialect/native'), ('shared compile pipeline', 'src/libre')],
  observe=['re_comp then fsm_exec'])

p('C17', 'Glob, LIKE, SQL and literal patterns mean what they say',
  'A literal pattern matches exactly itself; in a glob pattern ? matches any one byte and * any run of bytes; in a LIKE pattern _ matches any one byte and % any run of bytes; every other byte stands for itself, and the whole input must match. SQL SIMILAR TO patterns additionally give alternation, repetition, grouping and bracket expressions their standard meaning.',
  ['inputs', 'configurations'], 'every pattern in these dialects x every byte string',
  'tests hold 8 glob, 8 like, 12 sql and 4 literal fixed patterns.',
  ['src/libre/dialect/glob', 'src/libre/dialect/like', 'src/libre/dialect/literal', 'src/libre/dialect/sql', 'src/libre/re.c'],
  [('per dialect lexers and parsers', 'src/libre/dialect'), ('always-on flags per dialect', 'src/libre/re.c')],
  observe=['re_comp then fsm_exec'])

p('C18', 'Any bytes given as a pattern are handled safely',
  'For every byte string given as a pattern in any dialect with any flags, compilation terminates and either yields an automaton or returns an error with an error code set and, for errors that carry a position, a position within the pattern. It never crashes, reads or writes outside its memory, or leaks memory.',
  ['inputs', 'configurations'], 'every byte string as a pattern x dialect x flags',
  'tests give well-formed patterns and a few known bad ones.',
  ['src/libre/re.c', 'src/libre/dialect', 'src/libre/parser.act', 'src/libre/ast.c', 'src/libre/ast_analysis.c', 'src/libre/ast_compile.c'],
  [('error paths of the generated parsers', 'src/libre/dialect/*/parser.c'), ('error codes and marks', 'src/libre/parser.act'), ('pooled allocation of syntax nodes', 'src/libre/ast.c')],
  observe=['re_comp return value and struct re_err', 'allocator'])

p('C19', 'A set of strings compiles to a matcher for exactly those strings',
  'Building an automaton from a list of byte strings accepts exactly the inputs that equal one of the strings (both sides anchored), start with one (left), end with one (right), or contain one (neither), whatever overlaps, prefixes, duplicates, NUL bytes and empty strings the list has. End ids given to strings are reported exactly for the inputs matched by those strings.',
  ['inputs', 'configurations'], 'every list of strings x anchoring x ids x every input',
  'tests/aho_corasick and re_strings hold 16 fixed lists.',
  ['src/libre/ac.c', 'src/libre/re_strings.c'],
  [('trie', 'src/libre/ac.c trie_add_word'), ('failure links', 'src/libre/ac.c trie_add_failure_edges'), ('conversion to states', 'src/libre/ac.c trie_to_fsm')],
  observe=['re_strings', 're_strings_build then fsm_exec'])

p('C20', 'Literal and anchoring analysis agrees with the compiled language',
  'When a pattern is reported to be a literal with given anchoring, its language is exactly that literal so anchored (a newline at the end of a literal anchored at the end stands for the optional newline of $), a literal between optional anchors is reported as such with its text, and when a pattern is reported unsatisfiable its language is empty. When a pattern is reported as anchored at the start or at the end, requiring the match to begin at the start (or stop at the end) of the input does not change its language.',
  ['inputs', 'configurations'], 'every pattern x dialect x flags x every input',
  'tests/re_literal holds 25 fixed patterns.',
  ['src/libre/re.c', 'src/libre/ast.c', 'src/libre/ast_analysis.c'],
  [('literal detection over the syntax tree', 'src/libre/ast.c ast_expr_is_literal'), ('anchor flags set in analysis', 'src/libre/ast_analysis.c')],
  observe=['re_is_literal', 're_is_anchored', 're_comp then fsm_exec'])

p('C21', 'Group interpolation writes exactly the described string',
  'Interpolating groups into a format string replaces each reference by the named group (0 for the whole match), an escaped escape by itself, and copies everything else; the output is terminated, never exceeds the given buffer, and the call fails with positions set exactly for syntax errors, references without a value when no default is given, and a buffer too small.',
  ['inputs'], 'every format string, escape character, set of groups and buffer size',
  'tests/re_interpolate_groups has 3 programs of fixed cases.',
  ['src/libre/re_interpolate_groups.c'],
  [('state machine over the format', 'src/libre/re_interpolate_groups.c'), ('bounded output', 'src/libre/re_interpolate_groups.c')],
  observe=['re_interpolate_groups'])

p('C22', 'Printing a pattern and compiling the print keeps the language',
  'Printing the syntax tree of a pattern of any dialect as a PCRE pattern and compiling that text with the same flags (extended aside; anchored for the dialects that match the whole input) gives an automaton for the same language. Turning any automaton back into an expression and compiling its print, anchored, also gives the same language.',
  ['inputs'], 'every pattern x dialect; every automaton; every byte string',
  'tests compare a few fixed trees textually.',
  ['src/libre/print/pcre.c', 'src/libre/print.c', 'src/libre/ast_new_from_fsm.c', 'src/libre/ast_rewrite.c'],
  [('precedence-aware printing', 'src/libre/print/pcre.c'), ('state elimination', 'src/libre/ast_new_from_fsm.c')],
  observe=['ast_print', 'ast_new_from_fsm', 're_comp'])

p('C23', 'State sets and edge sets behave as mathematical sets',
  'After any sequence of insertions, bulk insertions, removals, copies, renumberings and replacements, a set of states and a set of labelled edges hold exactly the elements the sequence implies: membership, count, emptiness, iteration (each element once, ordered where promised), lookup by label and grouping by destination all agree.',
  ['histories'], 'every sequence of operations and operand values',
  'tests/set and tests/stateset hold 13 fixed sequences; the singleton representation, growth and bit-word boundaries have many cases.',
  ['src/adt/stateset.c', 'src/adt/edgeset.c', 'include/adt/stateset.h', 'include/adt/edgeset.h'],
  [('sorted arrays with binary search; tagged singleton', 'src/adt/stateset.c'), ('groups of (destination, 256-bit label set)', 'src/adt/edgeset.c')],
  observe=['state_set_*', 'edge_set_*'])

p('C24', 'Maps, queues, bitmaps and interning behave as specified',
  'After any sequence of operations the id map holds for each state exactly the values set, in ascending order; the queue is first-in first-out within its capacity; the priority queue always yields a least-cost element; the bitmap operations act as operations on sets of byte values; and interning returns the same handle for the same set and different handles for different sets, with each handle giving back its set.',
  ['histories'], 'every sequence of operations and operand values',
  'tests/idmap, queue and internedstateset hold one fixed program each.',
  ['src/adt/idmap.c', 'src/adt/queue.c', 'src/adt/priq.c', 'src/adt/bitmap.c', 'src/adt/internedstateset.c', 'include/adt/u64bitset.h'],
  [('hash table with bit vectors', 'src/adt/idmap.c'), ('ring of fixed capacity', 'src/adt/queue.c'), ('sorted list', 'src/adt/priq.c'), ('hash consing', 'src/adt/internedstateset.c')],
  observe=['idmap_*', 'queue_*', 'priq_*', 'bm_*', 'interned_state_set_*'])

p('C25', 'Generated lexers split any input into the right tokens',
  'A lexer generated from an lx specification splits every input into tokens. Each token is a spelling, in the current zone, of the mapping it is reported for, and the longest one: the lexer reads on for as long as what it has read can still become a spelling, and if it then has not reached one (or the byte is not the start of any) it reports TOK_UNKNOWN; it does not go back to a shorter spelling. Skipped spellings yield no token, zone changes take effect after the token that causes them, TOK_EOF follows the last one (in a zone which has not been left, the end of input gives TOK_EOF or TOK_UNKNOWN). Positions (byte, line, column) and token text are those of the input consumed, for every way of reading the input and every buffer, and lx_example() gives a spelling of the token. lx refuses a specification in which two mappings of a zone share a spelling or a mapping matches the empty string; any other text is read or refused with a message and an exit status, without a crash.',
  ['inputs', 'programs'], 'every lexer specification x every input',
  'tests/lxpos runs fixed specifications on fixed inputs and compares the output text.',
  ['src/lx/main.c', 'src/lx/print/c.c', 'src/lx/ast.c', 'src/lx/lexer.c', 'src/lx/parser.c', 'src/libfsm/print/c.c'],
  [('per-zone automata with end ids for mappings', 'src/lx/main.c'), ('pushback and position tracking in the emitted code', 'src/lx/print/c.c')],
  observe=['generated lx_next, lx_getc, lx.start/end'])

p('C26', 'A failed allocation is reported and corrupts nothing',
  'If any one memory allocation fails while states, transitions, ids or captures are added to an automaton, or while it is cloned, determinised, minimised, trimmed, reversed, completed, complemented, shuffled, stripped of epsilon transitions, combined with another, compared or tested for emptiness, the operation either returns its documented error value or does exactly what it would have done without the failure. It neither crashes nor touches freed memory. Except after a failed union, concatenation, intersection or subtraction it leaks nothing it allocated, and the automata it was given can still be freed.',
  ['fault_sequences'], 'every operation x input x position of the failing allocation',
  'no test injects an allocation failure, although the API takes a caller-supplied allocator.',
  ['src/adt/alloc.c', 'src/libfsm', 'src/libre', 'include/fsm/alloc.h'],
  [('NULL checks with cleanup paths', 'throughout src/libfsm and src/adt'), ('caller-supplied allocator', 'include/fsm/alloc.h')],
  observe=['return values', 'allocator log'])

p('C27', 'Results depend only on the input, and nothing is leaked or misused',
  'Running the same operations on the same input gives the same automata and byte-for-byte the same printed output (fsm_print, and ast_print as ABNF or PCRE), whatever the contents of freshly allocated memory and the addresses it lies at. Every operation stays within the memory it owns, memory taken from a caller-supplied allocator is returned to that allocator, and releasing the objects an operation returned (or that it consumed) releases everything it allocated.',
  ['inputs', 'configurations'], 'every input x allocator behaviour (contents, placement)',
  'tests run once with one allocator and no memory checker, and do not compare runs.',
  ['src/libfsm', 'src/libre', 'src/adt'],
  [('explicit initialisation', 'src/libfsm/fsm.c, state.c'), ('ordering by content rather than address', 'src/adt'), ('free functions', 'fsm_free and friends')],
  observe=['fsm_print output', 'allocator log'])

p('C28', 'Captured positions are those of the path through the automaton',
  'When a capture is defined over a path of a deterministic automaton without epsilon transitions or cycles longer than one state, executing an input that follows the path from its first state to its last reports the byte offsets at which the path is left and last reached, and a capture whose path the input did not complete has no position. This also holds after the automaton is cloned, trimmed, shuffled, determinised or minimised (as long as minimisation merges no states) or loses a state, and a union reports the captures of the operand whose path was followed under the ids it announces.',
  ['inputs', 'histories'], 'every automaton, capture path and byte string',
  'tests/capture has 11 fixed programs.',
  ['src/libfsm/capture.c', 'src/libfsm/exec.c', 'src/libfsm/determinise.c', 'src/libfsm/minimise.c'],
  [('capture actions on states: start, extend, commit', 'src/libfsm/capture.c'), ('remapping on transformation', 'src/libfsm/determinise.c det_copy_capture_actions')],
  observe=['fsm_exec captures'])

p('C29', 'The command line tools report what the library computes',
  'The re, fsm and rx programs combine the patterns or automata they are given as their options say (union, concatenation, ids by argument or line, flags, transformations in order) and their exit status, matched ids, declined list and printed automata are those of the corresponding library operations. Wrong usage and unsupported patterns give the documented non-zero status.',
  ['inputs', 'configurations'], 'every argument list, pattern file and input text',
  'tests drive the tools with fixed arguments.',
  ['src/re/main.c', 'src/fsm/main.c', 'src/rx/main.c'],
  [('option handling and per-file ids', 'src/re/main.c, src/rx/main.c, src/fsm/main.c')],
  observe=['exit status', 'standard output'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P))
