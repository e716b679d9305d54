#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts are diffable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": mech}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

A = "rustfst/src/algorithms/"
p("C01", "Every weight type obeys the semiring laws it declares",
  "For every weight type and all of its values, addition is associative and commutative with zero as identity, multiplication is associative with one as identity and zero as annihilator, multiplication distributes over addition on the sides the type declares, and each declared property (commutative, idempotent, path) really holds. Dividing a product by one of its factors and multiplying back restores the product, reversal turns products around and reversing twice is the identity, and approximate equality and quantization are consistent with the weight's value.",
  ["inputs"], "all triples of values of each weight type, including zero, one, infinities, empty/long strings and nested products",
  "The tests evaluate a handful of constants per type; the laws are universally quantified over triples of values and the interesting ones are mixed with zero/infinite/empty values.",
  ["rustfst/src/semirings/"],
  "plus_assign/times_assign/divide/reverse/properties/quantize/approx_equal of each Semiring implementation, compared with an independent model of the algebra",
  observe_at="Semiring, WeaklyDivisibleSemiring, StarSemiring, WeightQuantize trait methods")
p("C02", "Editing a transducer follows a plain labelled-graph model",
  "After any sequence of edits (adding, deleting and reordering states and transitions, setting or deleting start and final weights, bulk edits and edits through mutable iterators) the transducer contains exactly the states, transitions, weights and epsilon counts that the same edits produce on a plain labelled graph. An edit naming a state that does not exist is reported as an error and changes nothing, and editing a clone never changes the original or the reverse.",
  ["inputs", "histories"], "all finite edit histories, with valid and invalid state ids, over one transducer and its clones",
  "Tests run a few fixed edit scripts; renumbering on deletion, shared (copy-on-write) transition lists and cached epsilon counts go wrong only on particular sequences of edits.",
  ["rustfst/src/fst_impls/vector_fst/mutable_fst.rs", "rustfst/src/fst_impls/vector_fst/allocable_fst.rs", "rustfst/src/trs_iter_mut.rs", "rustfst/src/fst_traits/mutable_fst.rs", "rustfst/src/trs.rs"],
  "VectorFst state vector with shared TrsVec per state, niepsilons/noepsilons counters and property cache",
  observe_at="every Fst/CoreFst/ExpandedFst accessor after each edit")
p("C03", "Known structural properties are always true of the transducer",
  "Whenever a transducer (edited by hand, produced by any algorithm, loaded, or computed on demand) reports a structural property as known, for example acceptor, epsilon-free, label-sorted, deterministic, acyclic, unweighted, topologically sorted, accessible, coaccessible or a linear string, then that property really has that truth value. Asking for a property to be computed yields the true answer.",
  ["inputs", "histories"], "all transducers reachable through any history of edits and algorithm calls",
  "Properties are propagated incrementally by dozens of per-operation rules; tests check some rules on a few machines, while a wrong rule shows only when a particular prior knowledge meets a particular edit.",
  ["rustfst/src/fst_properties/mutate_properties.rs", "rustfst/src/fst_properties/properties.rs", "rustfst/src/fst_properties/compute_fst_properties.rs", "rustfst/src/fst_impls/vector_fst/mutable_fst.rs", "rustfst/src/trs_iter_mut.rs", A],
  "property bit mask stored with each FST and the mutate_properties transfer functions",
  observe_at="Fst::properties after each operation; compute_and_update_properties")
p("C04", "Union, concatenation and closure denote the rational operations",
  "Union, concatenation and (star or plus) closure produce a transducer whose weighted relation is respectively the sum, the Cauchy product and the sum of the powers of the operands' relations. The in-place and on-demand variants denote the same relation, including when an operand is empty, has no start state or has transitions into its start state.",
  ["inputs", "configurations"], "all pairs of transducers over each semiring, all variants of each operation",
  "Tests compare with a stored reference output on about 20 fixed machines; operands with missing starts, cycles through the start or weights on final states are barely sampled.",
  [A + "union/", A + "concat/", A + "closure/", A + "replace/"],
  "epsilon-transition gluing with state offsets in the static versions and replace-based grammars in the lazy versions")
p("C05", "Composition denotes relational composition under every filter",
  "Composing two transducers yields, for every pair of strings, the sum over all middle strings of the product of the two weights, with each pair of matching paths counted exactly once. This holds whichever epsilon-handling filter, matcher, look-ahead option, trimming option or on-demand/static variant is used, provided its documented input requirements (such as label-sortedness) are met.",
  ["inputs", "configurations"], "all pairs of transducers with matching sorted sides x all filters, matchers, look-ahead stacks and lazy/static variants",
  "The tests compare composition outputs on about 20 fixed pairs; redundant or lost epsilon paths depend on which states have epsilons on either side and on finality, which the fixed pairs do not cover.",
  [A + "compose/"],
  "compose filter states, matcher iteration including implicit epsilon loops, label-reachability look-ahead and weight/label pushing filters")
p("C06", "Determinization gives an equivalent deterministic machine",
  "Determinizing an acceptor (or a functional transducer) for which it terminates gives a machine with at most one transition per input label at each state whose weighted relation equals that of the input, with no more states than there are distinct reachable weighted subsets (plus one). In disambiguating mode each input keeps exactly one best output, and an input that does not meet the requirements of the requested mode is refused with an error rather than turned into a different relation.",
  ["inputs", "configurations"], "all determinizable weighted acceptors and transducers, each determinization mode and semiring",
  "Tests run stored acyclic or small machines; subset residual weights, duplicated transitions, common divisors and output-string residuals fail only for specific weight/label coincidences.",
  [A + "determinize/", A + "factor_weight/", A + "weight_converters/", "rustfst/src/semirings/gallic_weight.rs"],
  "weighted subset construction with common divisors, Gallic encoding of outputs and factorization")
p("C07", "Epsilon removal keeps the relation and leaves no epsilons",
  "Removing epsilons from a transducer that has a start state produces one with the same weighted relation and no transition that is epsilon on both sides. The static and on-demand versions agree, whatever the epsilon structure (chains, diamonds, cycles, epsilons into final states), and the static result keeps only useful states.",
  ["inputs", "configurations"], "all transducers whose epsilon closures converge in their semiring, static and lazy",
  "Tests use about 20 fixed machines; correctness depends on the order in which epsilon strongly connected components are processed.",
  [A + "rm_epsilon/", A + "rm_final_epsilon.rs", A + "queues/"],
  "per-state epsilon closure through shortest-distance with SCC-based queue and in-place arc rewriting")
p("C08", "Minimization gives an equivalent machine with the fewest states",
  "Minimizing a deterministic acceptor (unweighted or weighted, cyclic or acyclic) yields an equivalent machine in which no two states have the same weighted future: an unweighted result has the fewest states possible, and a weighted one at most one more (an initial state carrying the total weight). Minimizing a deterministic transducer keeps the relation, and minimization with the non-deterministic option keeps the relation of any input.",
  ["inputs", "configurations"], "all deterministic acceptors/transducers, and non-deterministic ones with the option on, over each divisible semiring",
  "Tests compare state counts against stored outputs for about 20 machines; partition refinement errors need specific transition and label orders.",
  [A + "minimize.rs", A + "partition.rs", A + "push.rs", A + "encode/"],
  "weight pushing + encoding + acyclic height-based or Hopcroft cyclic partition refinement, then state merging")
p("C09", "Pushing redistributes weights and labels without changing the relation",
  "Pushing weights and/or labels towards the initial or final states, and reweighting by any potential, keep the weight of every successful path (up to the total weight when its removal is requested). After pushing to the initial state each state's outgoing weights sum to one, after pushing to the final states the same holds in the reversed machine, and after pushing labels the common output prefix (or suffix) has moved to the requested side.",
  ["inputs", "configurations"], "all trim transducers over divisible semirings, all combinations of push options and directions, all potentials",
  "Tests compare with stored outputs on fixed machines; zero potentials, unreachable states, final weights and start self-loops are corner cases of the formulas.",
  [A + "push.rs", A + "reweight.rs", A + "shortest_distance.rs"],
  "reweight formulas using shortest-distance potentials; Gallic pushing for labels")
p("C10", "Shortest distances equal the sum over all paths",
  "The distance computed for each state equals the sum of the weights of all paths from the start to it (or from it to the final states in the reversed direction), in every semiring and for any cyclic or acyclic machine on which the sum converges. Pairwise distances equal the sum over all paths between the two states.",
  ["inputs"], "all transducers with convergent cycles, each semiring, both directions",
  "Tests compare on fixed machines mostly in the tropical semiring; enqueueing/relaxation mistakes need particular loops and non-idempotent weights.",
  [A + "shortest_distance.rs", A + "all_pairs_shortest_distance.rs", A + "queues/", A + "visitors/scc_visitors.rs"],
  "generic relaxation with per-state residual sums and automatically chosen queue disciplines")
p("C11", "Shortest path returns the n best paths with their true weights",
  "The n-shortest-paths result contains exactly min(n, number of paths) successful paths of the input, each with its labels and weight, and their weights are the n smallest ones in order. With the unique option no two returned paths carry the same input string and the strings kept are the best ones.",
  ["inputs", "configurations"], "all transducers over path semirings with non-negative cycles, all n, unique or not",
  "Tests use fixed machines and n in a small range; ties, final states with outgoing transitions, zero-weight cycles and fewer than n paths are not covered systematically.",
  [A + "shortest_path.rs", A + "reverse.rs", A + "queues/"],
  "single best via relaxation with parents; n-best via reversed machine with A* style heap; unique via lazy determinization")
p("C12", "Replacement expands calls exactly as the grammar prescribes",
  "Replacing non-terminal labels by transducers yields the relation obtained by recursively substituting each called transducer at the call site, with the configured labels on the call and return transitions. The result is the same for the static and the on-demand version, and a label that names no replacement is kept as an ordinary label.",
  ["inputs", "configurations"], "all acyclic (and tail-recursive) grammars of transducers, all call/return label configurations",
  "Tests use three hand-written grammars; stack-prefix sharing and call/return label modes multiply.",
  [A + "replace/"],
  "prefix-stack state table, call and return arc computation")
p("C13", "Trimming and state reordering keep exactly what they promise",
  "Trimming keeps exactly the states lying on some path from the start to a final state, with all their transitions, and changes nothing else. Topological sorting renumbers an acyclic machine so that every transition goes forward (and refuses to alter a cyclic one), state sorting applies exactly the requested renumbering, condensation maps each strongly connected component to one state, and transition sorting permutes each state's transitions into the requested order.",
  ["inputs"], "all transducers, including empty ones, ones without start and ones with unreachable, dead or self-looping states",
  "Tests compare with stored outputs on fixed machines that are mostly already trim.",
  [A + "connect.rs", A + "top_sort.rs", A + "state_sort.rs", A + "condense.rs", A + "tr_sort.rs", A + "dfs_visit.rs", A + "visitors/scc_visitors.rs", A + "tr_filters.rs"],
  "DFS visitor with SCC low-link bookkeeping; in-place state permutation")
p("C14", "Reversal, inversion, projection and label maps act path by path",
  "Reversal relates reversed strings with reversed weights; inversion swaps input and output; projection keeps one side on both; relabelling replaces each label by its image on the requested sides; transition mapping applies the mapper to every transition and final weight. Merging (or deduplicating) parallel transitions sums (or unifies) the weights of transitions with equal labels and destination and touches nothing else, and adding a super-final state or moving final epsilons keeps the relation.",
  ["inputs"], "all transducers over each semiring, all mappers and label maps",
  "Tests compare with stored outputs for one or two parameters per machine.",
  [A + "reverse.rs", A + "inversion.rs", A + "projection.rs", A + "relabel_pairs.rs", A + "tr_map.rs", A + "tr_mappers/", A + "tr_sum.rs", A + "tr_unique.rs", A + "add_super_final_state.rs", A + "rm_final_epsilon.rs"],
  "per-state transition rewriting")
p("C15", "Encoding, weight conversion and factoring are lossless",
  "Encoding labels gives an acceptor, encoding weights gives an unweighted machine, and decoding restores the original relation, with equal (label, weight) combinations always and only sharing the same code; an epsilon added after encoding decodes to epsilon. Converting weights to the combined string-and-weight form and back, and factoring composite weights into chains of transitions, keep the relation.",
  ["inputs", "configurations"], "all transducers, all encode types, all factor options and Gallic variants",
  "Tests check fixed machines; label collisions in the encode table and multi-symbol factors appear only with particular label/weight combinations.",
  [A + "encode/", A + "weight_convert.rs", A + "weight_converters/", A + "factor_weight/"],
  "encode table bijection; to/from Gallic mappers; factor iterators with state table")
p("C16", "Saving then loading restores the same transducer",
  "Writing a transducer or a symbol table to the binary or text format (in memory or to a file) and reading it back restores the same states, start, transitions, final weights and symbol tables, for both the mutable and the constant representation and in either direction between them. The in-memory and on-disk forms are identical, the binary layout is OpenFst's, and a save that cannot be completed reports an error. (The text format carries neither symbol tables nor states that no line mentions, and a final weight equal to the semiring's zero means not final.)",
  ["inputs"], "all transducers with and without symbol tables, all weight values that the format can carry, all label and symbol values",
  "Tests round-trip a few fixed machines; infinite and fractional weights, missing starts, large labels, empty machines and unusual symbols are each rare.",
  ["rustfst/src/fst_impls/vector_fst/serializable_fst.rs", "rustfst/src/fst_impls/const_fst/serializable_fst.rs", "rustfst/src/fst_impls/vector_fst/parse_const.rs", "rustfst/src/parsers/", "rustfst/src/symbol_table.rs", "rustfst/src/fst_traits/serializable_fst.rs"],
  "OpenFst-compatible header + state/arc records, text AT&T format, symbol table formats")
p("C17", "Loading arbitrary bytes or text never crashes and never yields a bad machine",
  "For any byte sequence or text, loading a transducer or a symbol table either returns an error or returns an object whose start state and all transition destinations exist and which can be traversed safely. Loading never panics, aborts, reads out of bounds or consumes resources out of proportion to the input's size (for text: and to the largest state number it names). A text containing a line that cannot be understood is rejected as a whole, never silently cut short.",
  ["inputs", "fault_sequences"], "all byte strings: truncations, bit flips, field edits and concatenations of valid files, and random ones",
  "Tests load only valid files.",
  ["rustfst/src/parsers/", "rustfst/src/fst_impls/vector_fst/serializable_fst.rs", "rustfst/src/fst_impls/const_fst/serializable_fst.rs", "rustfst/src/symbol_table.rs"],
  "nom parsers driven by counts and offsets read from the header")
p("C18", "On-demand machines are the same for every access order and thread schedule",
  "A transducer computed on demand shows the same states, transitions, final weights and start no matter in which order, how often, through which cache or from how many threads it is explored, and equals the eagerly computed result. Once a state's content has been observed it never changes, and concurrent exploration has no data race.",
  ["schedules", "inputs", "histories", "configurations"], "all access sequences and thread interleavings over lazy compose, concat, union, closure, replace, determinize, epsilon removal and factoring, with every cache",
  "Tests expand lazily-built machines once, in one order, on one thread.",
  [A + "lazy/", A + "compose/compose_fst.rs", A + "replace/", A + "rm_epsilon/rm_epsilon_fst.rs", A + "determinize/determinize_fsa.rs", A + "factor_weight/factor_weight_fst.rs"],
  "mutex-protected caches and state tables with check-then-compute",
  observe_at="CoreFst/Fst accessors of LazyFst and LazyFst2 while other threads run")
p("C19", "A saved on-demand cache resumes the same machine",
  "Saving the cache and state tables of a partially explored on-demand transducer, loading them back and continuing the exploration gives the same machine as exploring without interruption, whatever part had been explored, also when other threads explore it during the save; a save that cannot be completed reports an error. A cache put in front of another cache answers exactly as the cache behind it would.",
  ["inputs", "histories", "crash_points"], "all partial exploration histories before the save, for each lazy operation and cache type that can be saved",
  "Tests save one fully expanded cache.",
  [A + "lazy/cache/", A + "lazy/state_table.rs", A + "lazy/lazy_fst.rs", A + "lazy/lazy_fst_2.rs", A + "lazy/fst_op.rs"],
  "SerializableLazyFst / SerializableCache / SerializableOpStateTable")
p("C20", "A symbol table is a stable two-way mapping",
  "After any sequence of additions and merges, a symbol table maps each symbol to one label and back to the same symbol, labels are dense and never change once given, adding a known symbol changes nothing, and epsilon keeps label 0 when the table was created with it. Lookups and iteration agree with each other, and saving and loading keep the mapping.",
  ["inputs", "histories"], "all sequences of add/merge/serialize operations over arbitrary symbols",
  "Tests add a handful of symbols.",
  ["rustfst/src/symbol_table.rs", "rustfst/src/parsers/text_symt/", "rustfst/src/parsers/bin_symt/"],
  "bimap of label/symbol with next free label")
p("C21", "Paths enumerated, tested and sampled are exactly the machine's paths",
  "Enumerating the paths of an acyclic transducer yields each successful path exactly once with its labels and weight, and the string view shows the symbols of those labels. Building a machine from label sequences accepts exactly those sequences with the given weight, testing a path for membership in a machine without input-and-output-epsilon cycles answers yes exactly when the machine has it, decoding a linear machine gives back its labels, and randomly generated paths are always successful paths of the machine, every one of which can be drawn.",
  ["inputs"], "all acyclic transducers (any transducer for sampling), all label sequences, all random seeds",
  "Tests enumerate a few small machines.",
  ["rustfst/src/fst_traits/paths_iterator.rs", "rustfst/src/fst_traits/string_paths_iterator.rs", "rustfst/src/fst_path.rs", "rustfst/src/string_path.rs", "rustfst/src/utils/", A + "randgen/", "rustfst/src/fst_impls/arc.rs"],
  "breadth-first path queue; path membership search; random state sampling")
p("C22", "Equality and isomorphism answers are correct",
  "Two transducers compare equal exactly when they have the same start, states, transitions in order and final weights (weights compared within the usual tolerance), whatever history produced them. The isomorphism test answers yes exactly when a one-to-one renumbering of the states reachable from the start maps one machine onto the other up to transition order; it may refuse with an error, and never answers wrongly, when some state has several transitions with the same labels and weight.",
  ["inputs", "histories"], "all pairs of transducers, including renumbered, nearly-identical and merged-state variants",
  "Tests try a few hand-made pairs.",
  [A + "isomorphic.rs", "rustfst/src/fst_impls/vector_fst/data_structure.rs", "rustfst/src/fst_impls/const_fst/data_structure.rs", "rustfst/src/tr.rs", "rustfst/src/trs.rs"],
  "pairing search over states with sorted transitions; derived PartialEq")
p("C23", "The constant form and all views agree with the mutable form",
  "Converting a transducer to the constant representation and back (and to any other stored representation) keeps states, transitions in order, final weights, start, symbol tables and known properties. In every representation all accessors, checked and unchecked, counts and iterators agree with one another, and asking about a state that does not exist is an error, not a crash; a drawing shows exactly the machine's states and transitions.",
  ["inputs"], "all transducers, all accessors, all state ids",
  "Tests convert fixed machines and compare a few accessors.",
  ["rustfst/src/fst_impls/const_fst/", "rustfst/src/fst_impls/vector_fst/", "rustfst/src/fst_impls/arc.rs", "rustfst/src/trs.rs", A + "fst_convert.rs", "rustfst/src/fst_traits/"],
  "flat transition array with (position, count) per state; iterator implementations")
p("C24", "Optimization keeps the relation",
  "Optimizing an acceptor or a transducer keeps its weighted relation and leaves no two parallel transitions with the same labels; an acyclic epsilon-free acceptor known as such comes out deterministic and trim. Attached symbol tables survive.",
  ["inputs"], "all transducers over path semirings, with and without known properties",
  "Tests optimize a few fixed machines.",
  [A + "optimize.rs", A + "encode/", A + "determinize/", A + "minimize.rs"],
  "property-driven sequence of epsilon removal, merging, encoding, determinization and minimization")
p("C25", "The C interface behaves like the library and is memory safe",
  "Each C-interface function returns a success code and the same result as the corresponding library call, or an error code with a retrievable message; invalid arguments such as nonexistent states never crash the process. Handles stay valid until destroyed, and creating, using and destroying handles in any order causes no invalid memory access, double free or leak.",
  ["inputs", "histories"], "all sequences of foreign calls respecting handle ownership",
  "The Rust tests do not call the C interface; the Python tests call each function once or twice.",
  ["rustfst-ffi/src/"],
  "opaque CFst/CTr/CSymbolTable wrappers, catch_unwind/ffi_convert wrappers, last-error storage")
p("C26", "Command-line tools equal the library call on the same files",
  "Each command reads its input files, writes an output file whose content is what the corresponding library algorithm gives with the same options, and exits with success; on unreadable or invalid input it exits with failure and does not write a wrong output. The options documented for a command have the documented effect.",
  ["inputs", "configurations"], "all commands, options and input machines",
  "There are no tests of the command-line programs.",
  ["rustfst-cli/src/"],
  "clap front-end and unary/binary algorithm drivers")
p("C27", "Ordinary use of the safe interface causes no undefined behaviour",
  "No sequence of calls to the safe interface on well-formed transducers leads to out-of-bounds access, use of freed or uninitialised memory, invalid aliasing or any other undefined behaviour inside the library, although it uses unchecked accesses internally.",
  ["inputs", "histories"], "all algorithms and edit histories on well-formed machines",
  "Out-of-bounds unchecked reads usually go unnoticed in a test run; no sanitizer or interpreter is part of the test suite.",
  ["rustfst/src/"],
  "get_unchecked / *_unchecked accessors, unsafe_unwrap, iterators over raw pointers, Arc::make_mut / get_mut_unchecked")
p("C28", "Python objects behave like the library they wrap",
  "Python transducers, symbol tables, iterators and algorithms give the same results as the library does for the same calls, errors surface as Python exceptions, and objects may be copied, compared, pickled to and from bytes and dropped in any order without corrupting one another.",
  ["inputs", "histories"], "all call sequences through the Python package",
  "The Python tests call each function on one example and are not part of the stable Rust test list.",
  ["rustfst-python/rustfst/", "rustfst-ffi/src/"],
  "ctypes wrappers with finalizers around the C interface")
p("C29", "Symbol tables stay attached to the right side",
  "Every operation leaves on its result the input and output symbol tables that belong there: operations that keep the two sides keep both tables, inversion swaps them, projection duplicates the kept side, composition takes the input table of the first and the output table of the second operand, and in-place edits never lose them.",
  ["inputs", "configurations"], "all operations and variants on machines with none, one or two attached tables",
  "Only a couple of tests look at the tables after an operation.",
  [A, "rustfst/src/fst_traits/fst.rs"],
  "set_symts_from_fst / symbol-table swapping at the end of each algorithm")
p("C30", "A Graphviz drawing shows exactly the machine",
  "Drawing a machine that has a start state writes a well-formed DOT graph with every state and every transition exactly once: final states and the start state are marked, labels are the symbols of the attached tables (or the label numbers), whatever characters the symbols contain, weights appear as the drawing options ask, and the layout options given are in effect. A label missing from an attached table is an error.",
  ["inputs", "configurations"], "all machines, symbol tables and drawing options",
  "The tests do not look at drawings.",
  ["rustfst/src/fst_traits/serializable_fst.rs", "rustfst/src/drawing_config.rs"],
  "SerializableFst::draw writing one node line per state and one edge line per transition")
p("C31", "State queues release what was put in, in the order of their discipline",
  "For every queue discipline and every history of enqueue, dequeue, head, update, clear and is_empty calls, a state comes out exactly as often as the discipline holds it, never one that was not put in; is_empty and an absent head say exactly that nothing is held; and the order is that of the discipline: first-in-first-out, last-in-first-out, state number, topological order, best weight first, component by component. The transition filters keep exactly the transitions they name.",
  ["inputs", "histories"], "all queues and call histories",
  "Three queues have one unit test each; the others have none.",
  [A + "queues/", A + "tr_filters.rs"],
  "Queue trait implementations with front/back windows over enqueued flags")
p("C32", "Matchers and reachability indexes answer exactly",
  "Asked for a label at a state, a matcher lists exactly the matching transitions (plus the implicit epsilon loop for epsilon): the sorted matcher those carrying the label, the sigma matcher also the sigma transitions rewritten for every allowed label, the multi-epsilon matcher its registered labels as epsilons. The state and label reachability indexes and their interval sets answer yes exactly for what can be reached, on cyclic and acyclic machines, before and after relabelling.",
  ["inputs", "configurations", "histories"], "all machines, labels, sides, matcher options and label-set histories",
  "The tests cover one interval set, one reachability machine and a few sigma compositions.",
  [A + "compose/matchers/", A + "compose/interval_set.rs", A + "compose/state_reachable.rs", A + "compose/label_reachable.rs"],
  "binary search over sorted transitions, iterator hand-over between labels, interval sets numbered in DFS order")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
