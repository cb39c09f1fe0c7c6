TRUST = " Trusted: the reference model in the harness and the offline stand-ins for crates that are missing here (grammar builder, bit matrix), which the repository's own tests pass against."
NAIVE = "property-based testing against a naive reference over generated grammars and inputs"

prop("C01", "Recognition decides exactly the language of the grammar",
 "For every context-free grammar without infinitely ambiguous cycles and every token sequence, reading the sequence through the recognizer ends in a finished state if and only if the grammar derives the sequence, including grammars with left, right and middle recursion, ambiguity, nullable symbols, unit rules, long rules, unused symbols and any numbering of symbols.",
 ["programs", "inputs"], "All grammars of that class, all finite token sequences over the grammar's terminals.",
 "The recognizer's tests fix about ten grammars and one accepted input each; nothing checks rejection, other rule shapes or numberings, and none of them run in the offline build.",
 [REC, HEAP, PRED, DG, V2],
 [("completion and prediction passes", REC), ("completion order through a heap", HEAP), ("grammar tables", DG)],
 NAIVE, "Random search over small grammars (up to about 8 nonterminals) with inputs of up to 60 tokens, and over larger ones (up to several hundred symbols, long rules, chains) with inputs of up to 600 tokens, compared with a span-based reference that shares no code with the repository." + TRUST)

prop("C02", "Every location reports exactly whether the prefix can continue or end here",
 "While tokens are read one at a time without lookahead hints, each location accepts the token if and only if the prefix read so far followed by that token can be extended to a sentence, and after each accepted token the parse is reported as finished if and only if the prefix itself is a sentence.",
 ["programs", "inputs", "histories"], "All grammars as in C01, all token sequences, every location of each.",
 "Tests look at the verdict after the last token of a sentence; locations in between and the exact failing token are never checked.",
 [REC, PRED, DG], [("scan and completion", REC), ("prediction rows", PRED), ("prediction matrix", DG)],
 NAIVE, "As C01, with the verdict compared at every location against a reference chart." + TRUST)

prop("C03", "Lookahead hints never change the result",
 "Announcing the token that is actually read next (or the end of input) before a location is closed, at any subset of locations, changes neither acceptance nor rejection of any later token, nor the finished state at the end, nor the set of parse trees delivered; a hint that is replaced or taken back before the token of its location is read has no effect.",
 ["programs", "inputs", "configurations"], "All grammars as in C01, all inputs, all subsets of locations that get a correct hint.",
 "One test counts items with a hint for a single grammar; that hints lose no parse for other grammars is not checked.",
 [REC, LA, DG], [("pruning of completions by hint", REC), ("hint state", LA), ("FIRST/FOLLOW tables", DG)],
 "differential property-based testing: hinted run against unhinted run and reference",
 "Compares hinted and unhinted runs of generated cases, and both with the reference." + TRUST)

prop("C04", "The parse forest contains exactly the derivation trees",
 "For every accepted input, expanding the forest delivered to the forest builder yields every derivation tree of the input under the original grammar exactly once and nothing else, with original rule identities, children in order, each leaf carrying the value its token was read with, and omitted empty symbols put back at their positions.",
 ["programs", "inputs"], "All grammars as in C01 and all accepted inputs, ambiguous ones included.",
 "Tests evaluate a few unambiguous sentences; no test enumerates the trees of an ambiguous input.",
 [REC, DG, GR], [("forest construction calls", REC), ("deduplicated grouping of summands", HEAP), ("rule origins and eliminated empty symbols", DG)],
 "property-based testing: forest expansion against an independent tree enumerator",
 "Compares the multiset of trees of generated cases with an independent enumerator (up to a few hundred trees per input)." + TRUST)

prop("C05", "Evaluating an unambiguous parse performs exactly its derivation",
 "For every input with exactly one derivation, evaluating the finished parse with either forest implementation returns one value, computed by calling the user's functions once per tree node, bottom-up, with the rule's action number, arguments left to right, token values as read, and values of omitted empty symbols at their positions.",
 ["programs", "inputs"], "All grammars as in C01, all inputs with one derivation, both forest implementations.",
 "Tests evaluate a handful of arithmetic and nulling examples.",
 [SB, ST, CB, CT, CG], [("evaluation of the simple forest", ST), ("evaluation of the compact forest", CT), ("restored empty symbols", SB)],
 "property-based testing: symbolic evaluation against the reference derivation tree",
 "Symbolic evaluation of generated unambiguous parses compared with the reference tree." + TRUST)

prop("C06", "Evaluating an ambiguous parse returns every alternative exactly once",
 "When an input's only ambiguity lies between alternative derivations of the whole input by the start symbol, evaluating the finished parse with either forest implementation returns one value per derivation tree, each equal to that tree's own evaluation.",
 ["programs", "inputs"], "All grammars as in C01 and inputs whose ambiguity is confined to the alternatives at the root.",
 "Only one ambiguous example exists, and its evaluation test is broken upstream.",
 [ST, CT, SB, CB], [("sum nodes", ST), ("summand runs", CT)],
 "property-based testing: symbolic evaluation against all reference trees",
 "Multiset comparison of evaluation results with the reference trees; ambiguity below the root is outside of the statement (see DESIGN.md)." + TRUST)

prop("C07", "Both forest implementations evaluate every parse identically",
 "For every grammar and accepted input, the simple and the compact forest evaluate the finished parse to the same values (in any order of alternatives), and perform the same calls with the same arguments.",
 ["programs", "inputs"], "All grammars as in C01 and all accepted non-empty inputs, ambiguous ones included.",
 "Each forest implementation is tested on its own examples only.",
 [SB, ST, CB, CT, CG], [("simple forest", SB), ("compact forest", CB), ("byte-encoded nodes", CG)],
 "differential property-based testing between the two implementations",
 "Differential comparison on generated cases; says nothing where both are wrong alike (C05 and C06 do)." + TRUST)

prop("C08", "Nullable symbols keep their place in rules, trees and the empty parse",
 "For every grammar with symbols that derive the empty string, evaluation passes exactly one value for each symbol of a rule's right-hand side, in order, where symbols that matched nothing are represented by the value the user supplies for that symbol; and a parse of the empty input is finished, and evaluates to the start symbol's empty value, exactly when the start symbol derives the empty string.",
 ["programs", "inputs"], "All acyclic grammars with nullable symbols (directly, through chains, several in one rule), all inputs including the empty one.",
 "Tests cover six hand-written nulling grammars with one input each.",
 [DG, GR, SB, ST, CB, CT], [("eliminated symbols of rules", DG), ("intermediate empty rules", SB), ("intermediate empty rules, compact", CB)],
 "property-based testing with nullable-heavy grammars against reference trees",
 "As C05, biased to nullable symbols." + TRUST)

prop("C09", "Compact forest storage returns exactly what was stored",
 "Whatever sequence of leaves, products, and sums of one or many alternatives is stored in the compact forest, with any token values and symbols and any total size, evaluation of any stored node visits exactly the stored structure with the stored values, and node handles stay valid while more nodes are added.",
 ["inputs", "histories"], "All construction sequences through the public forest interface; values and symbols over their whole numeric range; handles beyond the 1, 2 and 3 byte boundaries.",
 "Tests build forests of a few dozen bytes only, so no value or handle ever needs more than one byte.",
 [CG, CB, CT], [("variable-length encoding", CG), ("handles", CB)],
 "model-based property testing of construction histories",
 "Generated construction histories compared with a tree model; a part of them also runs under the Miri interpreter. Sums of several alternatives are evaluated at the top only." + TRUST)

prop("C10", "The set-partitioned array behaves like a list of sets",
 "After any sequence of appending items, sealing sets, popping or shortening the set in progress, clearing, extending by whole sets, collecting and cloning, every finished set, the set in progress, item lookup by position, set boundaries and the counts equal those of a plain list of lists, and every stored item is dropped exactly once.",
 ["histories", "configurations", "inputs"], "All operation sequences, all initial capacities, any item type including zero-sized ones.",
 "The array has no tests of its own.",
 [V2], [("flat storage with set boundaries", V2)],
 "stateful model-based property testing",
 "Long random histories over five item types against a list-of-lists model, plus large builds.")

prop("C11", "Product enumeration yields every combination once, first factor fastest",
 "Enumerating the product of any list of non-empty factors yields every combination of their elements exactly once, with the first factor varying fastest, reports the end exactly after the last combination, and then starts over from the first; every element is a reference to the original.",
 ["inputs", "histories"], "All lists of non-empty factors of elements of any size, added one at a time or together.",
 "The one test enumerates a single 3x2x3 product once.",
 [CP], [("per-factor cursors", CP)],
 "property-based testing against positional arithmetic",
 "Complete enumerations of generated products, element identity checked by address; a part of them also runs under the Miri interpreter.")

prop("C12", "Completions are offered in order, each group once and complete",
 "At every location, completions are offered grouped by symbol and start location; no pair of symbol and start location is ever offered twice, start locations never increase, no alternative is listed twice in its group, and exactly the derivations of that symbol over that span are listed.",
 ["programs", "inputs"], "All grammars as in C01, all symbol numberings, all inputs and locations.",
 "No test observes completion groups; correct grouping depends on symbol numbering, rule order and heap order together.",
 [REC, HEAP, IT, DG], [("heap ordering", HEAP), ("item order", IT), ("symbol renumbering for unit rules", DG)],
 "property-based testing of an invariant over the completion history, with a reference chart",
 "Full completion history of generated runs compared with the reference chart." + TRUST)

prop("C13", "Driving completion by hand equals automatic completion, filters included",
 "Completing a location by taking groups and alternatives one at a time and including all of them gives the same recognition results and the same parse trees as automatic completion; leaving out alternatives or whole groups removes exactly the trees that contain the omitted constituents, and nothing else.",
 ["programs", "inputs", "schedules"], "All grammars as in C01, all inputs, all deterministic choices of which alternatives to omit.",
 "One test drives completion by hand for one input, without omissions.",
 [REC, HEAP, SB, CB], [("group iteration", REC), ("summand collection", SB)],
 "differential and metamorphic property-based testing with a filtered reference",
 "Hand-driven runs with generated filters compared with the reference trees filtered alike." + TRUST)

prop("C14", "A reset recognizer is indistinguishable from a new one",
 "Whatever was read before, including rejected input, unfinished locations and pending hints, after a reset the recognizer behaves exactly like a newly created one for every following input.",
 ["programs", "histories"], "All grammars as in C01, all histories before the reset, all inputs after it.",
 "One test repeats the same accepted input after reset.",
 [REC, LA], [("reset", REC), ("hint state", LA)],
 "differential property-based testing: reset against fresh",
 "Compares every observable of reset and fresh recognizers on generated histories." + TRUST)

prop("C15", "A rejected token leaves the location open for another token",
 "When a location is closed without any acceptable token, closing it reports failure, and reading other tokens at the same location afterwards gives exactly the result that would have been obtained without the rejected attempts.",
 ["programs", "inputs", "histories"], "All grammars as in C01, all inputs, all rejected tokens tried before the right one.",
 "No test reads anything after a rejection.",
 [REC], [("exhaustion check before completion", REC)],
 "metamorphic property-based testing: inserted rejected attempts",
 "Metamorphic comparison on generated cases." + TRUST)

prop("C16", "Parse progress reports exactly the viable dotted rules",
 "At every open location, the reported predicted symbols are exactly the symbols that may start here in some viable continuation, and the reported progress consists of exactly the dotted rules, with their start locations, that are viable after the tokens read so far.",
 ["programs", "inputs"], "All grammars as in C01, all viable prefixes; partially read rules after elimination of empty symbols and splitting of long rules.",
 "Tests never compare progress reports with anything.",
 [REC, EV, PRED, DG], [("predicted row and medial items", REC), ("trace lookup", EV), ("prediction matrix", DG)],
 "property-based testing against a naive Earley chart",
 "Chart comparison at every location of generated cases; start locations are compared only while no Earley set was discarded." + TRUST)

prop("C17", "Events and distances are those attached to the reported positions",
 "The events and minimal distances reported at a location are exactly those that the grammar attaches to the predicted symbols and dotted rules reported as progress at that location.",
 ["programs", "inputs"], "All grammars as in C01 with any assignment of events and distances to rule positions, all viable prefixes.",
 "The event tests are disabled upstream.",
 [EV, DG], [("event lookup", EV), ("event columns", DG)],
 "property-based testing against the annotated grammar", "Generated annotations compared at every location." + TRUST)

prop("C18", "A grammar read back from its serialized form parses identically",
 "Serializing a processed grammar with either supported framework and reading it back gives (as cloning it does) a grammar that answers every query and parses every input exactly like the original.",
 ["programs", "inputs"], "All grammars as in C01, JSON form.",
 "One test serializes one grammar and parses one input.",
 [DG, GR, V2], [("serialized grammar", DG), ("serialized tables", V2)],
 "round-trip property-based testing", "Round trips of generated grammars with both frameworks, all tables and parses compared." + TRUST)

prop("C19", "Symbol numbering does not matter and maps back consistently",
 "Renumbering the symbols of a grammar (by declaring them in another order or declaring unused ones between them) or reordering its rules changes no recognition result and no parse tree, and translating any symbol used by the grammar to the internal numbering and back returns the same symbol.",
 ["programs", "inputs", "configurations"], "All grammars as in C01, all permutations of declarations and rules, any unused symbols.",
 "Every test declares symbols in one order.",
 [DG], [("symbol remapping", DG)],
 "metamorphic property-based testing: permuted declarations", "Permuted variants of generated grammars compared on inputs and trees." + TRUST)

prop("C20", "Precomputed grammar tables are exactly what the rules imply",
 "For every processed grammar, the tables consulted while parsing (which symbols a symbol predicts, which rules a symbol can start and in which order, FIRST and FOLLOW sets, left-hand sides, rule origins and dropped empty symbols, position before end of input) are exactly those implied by its rules, and the same when asked through a reference to the grammar.",
 ["programs"], "All grammars as in C01.",
 "Tables are only exercised through a few parses.",
 [DG, GR], [("prediction matrix", DG), ("completion tables", DG), ("FIRST and FOLLOW matrix", DG)],
 "property-based testing: tables recomputed independently from the rules", "All tables of generated grammars recomputed by definition." + TRUST)

prop("C21", "Several tokens read at one location are parsed as alternatives",
 "When several different tokens are read at one location, recognition succeeds and delivers parse trees exactly as if every choice of one token per location had been parsed separately and the results united.",
 ["programs", "inputs", "schedules"], "All grammars as in C01, all sequences of token sets, any order of reading within a location.",
 "No test reads more than one token per location.",
 [REC], [("scan and completion", REC)],
 "metamorphic property-based testing: lattice against the union of its paths", "Generated lattices compared with all their paths." + TRUST)

prop("C22", "Capacities, hints about size and forest choice do not affect results",
 "Capacity settings, memory limits, initial forest capacities and the choice of forest implementation (or none) affect no recognition result, no progress report and no tree.",
 ["configurations", "programs", "inputs"], "All grammars as in C01, all inputs, all values of the tuning parameters.",
 "All tests use the default settings.",
 [HINT, REC, V2, SB, CB], [("capacity policy", HINT), ("forest capacities", SB)],
 "differential property-based testing across configurations", "Generated configurations compared with the default one." + TRUST)

prop("C23", "The convenience parsing functions agree with step-by-step parsing",
 "The one-call parsing functions (token list, list of terminal names, text through the character map) report success or an unfinished parse exactly when step-by-step parsing of the same tokens ends so, and otherwise an error that names the first token that no sentence continues with or, since the token list functions look one token ahead, the one just before it; unused symbols and unknown names are reported as errors too, and an error names the token and position, or the word, that it is about.",
 ["programs", "inputs"], "All grammars as in C01, all token lists, name lists (unknown names included) and texts over any character map.",
 "Two tests parse accepted inputs.",
 [PA], [("token list parsing", PA), ("name lookup", PA), ("character map parsing", PA)],
 "differential property-based testing against the reference", "Generated calls compared with the reference verdict and failing position." + TRUST)

prop("C24", "Discarding unreachable history keeps memory bounded and loses nothing",
 "Earley sets later than every start location still pending are discarded, so that inputs which keep returning to a state where nothing recent is pending (left-recursive lists of delimited items) keep a bounded number of sets at any length, and discarding never changes a later result; after each location no more sets are kept than tokens were read.",
 ["programs", "inputs"], "Left-recursive and other grammars with bounded pending context, inputs of thousands of tokens; all grammars as in C01 for the second half.",
 "The benchmark inputs are long, but nothing checks what is retained.",
 [REC, V2], [("removal of unreachable sets", REC), ("truncation of sets", V2)],
 "property-based testing of bounds and results on long inputs", "Work and retained sets counted on generated long inputs, results compared with the reference." + TRUST)

prop("C25", "Truncating keeps the chosen prefix of sets and the set in progress",
 "Truncating the set-partitioned array to a number of finished sets keeps exactly the first that many finished sets and the whole set in progress, unchanged and in order, and all later operations behave as if the removed sets had never existed.",
 ["histories", "inputs"], "All arrays, all numbers of sets to keep, truncations repeated and interleaved with all other operations.",
 "The array has no tests; truncation happens in the recognizer only for particular inputs.",
 [V2], [("truncate", V2)],
 "stateful model-based property testing", "Random histories against a list-of-lists model.")

prop("C26", "The set-partitioned array survives serialization unchanged",
 "Serializing the set-partitioned array with either supported framework and reading it back gives an array with the same finished sets, the same set in progress and the same behaviour under all further operations.",
 ["histories", "inputs"], "All arrays reachable by any operations, numeric, text, list and tuple items, JSON and other forms.",
 "One test outside the offline build serializes a grammar that contains such an array.",
 [V2], [("serde and miniserde representations", V2)],
 "round-trip property-based testing followed by model-based continuation", "Round trips of random arrays, then random continuation against the model.")

prop("C27", "A product enumerator can be extended, reused and cleared at any point",
 "At any point of an enumeration, adding one factor, adding several factors or clearing leaves an enumerator whose current combination keeps the positions of the earlier factors and starts the new ones at their first elements, and which continues from there exactly as positional counting prescribes.",
 ["histories"], "All interleavings of adding factors, advancing and clearing, non-empty factors of elements of any size.",
 "The one test adds all factors once to a new enumerator.",
 [CP], [("push, extend, clear", CP)],
 "stateful model-based property testing", "Random histories against positional counting; a part of them also runs under the Miri interpreter.")

prop("C28", "The example arithmetic grammars accept exactly arithmetic expressions",
 "The bundled arithmetic grammars together with their tokenizers accept exactly the well-formed expressions over digits, the four operators and (with precedence) parentheses, and the parse of the precedence grammar groups operators by the usual precedence, left-associatively; the bundled evaluators compute exactly the arithmetic values of those groupings.",
 ["inputs"], "All strings over the token alphabet.",
 "Two bundled example inputs each.",
 [EX1, EX2], [("precedence grammar", EX1), ("ambiguous grammar", EX2)],
 "property-based testing against an independent expression parser", "Generated expressions and mutations compared with a hand-written parser." + TRUST)

prop("C29", "Finished nodes stay valid and can be evaluated any time, repeatedly",
 "A finished node obtained after any prefix keeps denoting exactly the parses of that prefix for as long as the forest lives: however much more is read, whichever other nodes are evaluated before it and however often, evaluating it gives the values that a parse of that prefix alone gives, with either forest implementation.",
 ["programs", "inputs", "histories"], "All grammars as in C01, all inputs with several finished prefixes, any order and repetition of evaluations, during reading and after it.",
 "Tests evaluate one node once, right after the last token.",
 [SB, ST, CB, CT, CG, REC], [("evaluation state of the simple forest", ST), ("evaluation state of the compact forest", CT), ("shared graph", SB), ("byte store", CG)],
 "property-based testing: schedules of evaluation against the reference and against separate parses", "Generated schedules of evaluation, each value list compared with the reference trees of the prefix and with a separate parse of it." + TRUST)

prop("C30", "Work and memory stay within Earley's bounds",
 "For unambiguous grammars that keep bounded context (left-recursive lists of bounded items) the recognizer spends a bounded number of grammar queries, forest calls and retained items per token however long the input is, and for bracket languages nested to any depth too; for any grammar, the queries spent are within a constant factor of the constituents found, weighted by the grammar transitions of each and the logarithm of the number of items in play.",
 ["programs", "inputs"], "Left-recursive list grammars with periodic inputs of hundreds of tokens, nested bracket grammars, and all grammars as in C01 for the second half.",
 "Benchmarks measure a few grammars; no test fails when work becomes superlinear.",
 [REC, HEAP, PRED, V2, DG], [("completion passes", REC), ("binary search of medial items", REC), ("completion order through a heap", HEAP), ("retained sets", V2)],
 "property-based testing: counted work against a bound and against earlier periods of the same input", "Queries and calls are counted through the public grammar and forest interfaces; processor time is not judged. Right recursion is outside of the linear half (Leo's algorithm is not implemented)." + TRUST)

prop("C31", "Processing and parsing are deterministic",
 "Processing the same grammar twice gives tables whose serialized forms are equal, and parsing the same input with the same grammar (or with a clone or a second processing of it) makes the same sequence of forest calls, progress reports and values, in the same order, every time.",
 ["programs", "inputs"], "All grammars as in C01, all inputs.",
 "Tests run every parse once and compare counts.",
 [DG, GR, REC, ST, CT], [("table construction", DG), ("recognition", REC), ("evaluation", ST)],
 "metamorphic property-based testing: repeated runs compared call by call", "Repeated processing and parsing of generated cases in one process, compared exactly." + TRUST)

prop("C32", "A custom parse forest receives a well-formed bottom-up construction",
 "Any forest implementation plugged into the recognizer sees a well-formed construction: every ambiguity node is begun, receives one or more alternatives and is closed with the symbol and start location its alternatives belong to; every alternative is a rule of that symbol over earlier nodes of the symbols the rule asks for, adjacent and spanning from the start location to the current one; every token read makes exactly one leaf with its symbol, value and location.",
 ["programs", "inputs", "configurations"], "All grammars as in C01, all inputs, with and without lookahead hints.",
 "Tests plug in the two bundled forests, which ignore most of what they are told.",
 [REC, "gearley-forest/src/lib.rs", IT, DG], [("sums and products", REC), ("leaves", REC), ("alternatives", IT)],
 "property-based testing: an instrumented forest that checks the call protocol", "A checking forest is plugged into parses of generated cases." + TRUST)

prop("C33", "Tracing and printing never disturb a parse",
 "With the tracing feature on and a logger that formats every message, and with every public value printed, cloned and compared at any moment of a parse, nothing panics, and recognition, forests, progress reports and values are the same as without tracing.",
 ["programs", "inputs", "configurations"], "All grammars as in C01, all inputs, the printable public types, logger on.",
 "No test turns the tracing feature on or prints anything.",
 [REC, DG, V2, GR], [("trace messages of the recognizer", REC), ("table dumps", DG), ("sub-matrix logging", DG)],
 "property-based testing: the other checks' oracles with the tracing feature on", "The engine compiled with its tracing feature; generated cases compared with the same reference as the other checks." + TRUST)
