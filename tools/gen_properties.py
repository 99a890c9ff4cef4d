#!/usr/bin/env python3
"""Writes properties.jsonl (the table below is the single source)."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PM, PN, PP, UT = "src/psdd_manager.cpp", "src/psdd_node.cpp", "src/psdd_parameter.cpp", "src/psdd_unique_table.cpp"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = {"id": id, "title": title, "statement": " ".join(statement.split()),
         "quantifier": {"over": over, "text": " ".join(text.split())},
         "why_tests_cant": " ".join(why.split()),
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

prop("P01", "Converting an SDD to a PSDD preserves its models",
 """Converting any SDD into a PSDD (over the whole vtree, over a same-shaped vtree with a one-to-one renaming of variables,
 or into a sub-vtree given as a vtree node or as a set of variables) yields a PSDD that accepts exactly the models of the SDD,
 over exactly the variables of the target vtree. A false SDD yields the null PSDD and a true SDD the PSDD accepting every
 assignment. The SDD, its manager and its vtree are left as they were, so converting again gives the same PSDD.""",
 ["inputs"], """Every Boolean function, every vtree shape with permuted or sparse variable indices, every one-to-one renaming,
 every sub-vtree, every flag index; SDD managers with a history of earlier conversions.""",
 "Tests convert a handful of small functions and look at one model count; the property quantifies over all functions, vtrees and mappings.",
 [PM], [("ConvertSddToPsdd", PM), ("FromSdd (sub-vtree and variable-set overloads)", PM), ("GetPsddManagerFromSddVtree", PM), ("GetTrueNode / NormalizePsddNode", PM)],
 ["support of the returned PSDD by full-assignment evaluation, consistency and model count"])

prop("P02", "Compiling a CNF yields exactly its satisfying assignments",
 """Compiling a CNF, given as a list of clauses or read from a DIMACS file (comment and header lines, blank lines, and clauses
 terminated by 0, of which the last may be missing, however they are laid out on lines), yields a PSDD that accepts exactly the assignments of the manager's variables
 satisfying every clause. An unsatisfiable CNF, including one with an empty clause, yields the null PSDD, and a CNF without clauses accepts everything.
 Reading a file produces the same clauses as giving them directly and leaves no file open.""",
 ["inputs"], "Every set of clauses over the manager's variables (unit, empty, tautological, repeated literals and clauses), every vtree, every file layout of it.",
 "No existing test compiles or reads a CNF file at all.",
 ["src/cnf.cpp", PM], [("CNF::CNF(filename)", "src/cnf.cpp"), ("ConstructSddFromCnf / CNF::Compile", "src/cnf.cpp")],
 ["CNF::clauses, support of CNF::Compile's result"])

prop("P03", "Evaluation equals the sum over all completions",
 """Evaluating a normalised PSDD on a partial assignment returns the total probability of all complete assignments extending it:
 the probability of the assignment itself when complete, and 1 when nothing is assigned. Values of unassigned variables never matter,
 and neither do variables outside the PSDD. The result stays accurate for distributions over hundreds of variables whose probabilities are far below the smallest double,
 and the overloads taking a root and a node list agree.""",
 ["inputs"], "Every normalised PSDD (any vtree, support and parameters, including zero and extreme ones), every subset of assigned variables and every values of them.",
 "Tests evaluate a few complete assignments of small PSDDs; partial assignments and extreme parameters are not sampled.",
 [PN, PP], [("psdd_node_util::Evaluate", PN), ("log-space arithmetic", PP)], ["returned probability"])

prop("P04", "Marginals are the exact single-variable marginals",
 """For a normalised PSDD the marginals report, for every variable of its vtree and no other, the exact probability that the variable is false and that it is true,
 as obtained by summing the joint distribution. The two values of a variable sum to 1, and a value that never occurs in the support gets probability 0.
 Asking again gives the same answer.""",
 ["inputs"], "Every normalised PSDD, including shared sub-structures reached along many paths and zero or extreme parameters.",
 "No existing test calls the marginal computation.",
 [PN], [("psdd_node_util::GetMarginals", PN)], ["returned map"])

prop("P05", "MPE returns a most probable complete assignment and its value",
 """The MPE query on a PSDD returns a complete assignment of its variables that no other assignment beats in probability, together with that assignment's probability.
 The returned assignment sets no variable outside the PSDD and has positive probability whenever any assignment has.
 The overloads taking a root and a node list agree, and asking again gives the same answer.""",
 ["inputs"], "Every normalised PSDD and every product of one with evidence; ties, near-ties (up to the library's parameter precision of about 1e-7 in log space per comparison), zero and extreme parameters.",
 "One MPE test checks one cardinality-constrained instance.",
 [PN], [("psdd_node_util::GetMPESolution", PN)], ["returned assignment and probability against exhaustive search"])

prop("P06", "Consistency tests agree with the support",
 """Asking whether a PSDD is consistent with a complete or partial assignment answers yes exactly when some assignment accepted by the PSDD's structure extends it.
 All ways of asking agree: a map of values, an assignment of the first k variables, a mask with values on a root or on a node list, and activation of the nodes by a complete assignment.
 Variables that do not belong to the PSDD are ignored.""",
 ["inputs"], "Every PSDD, every partial assignment, repeated queries on nodes shared between PSDDs.",
 "Tests call one form on few assignments; agreement between forms and partial assignments are not tested.",
 [PN], [("PsddNode::IsConsistent overloads", PN), ("psdd_node_util::IsConsistent", PN), ("psdd_node_util::SetActivationFlag", PN)], ["returned booleans, activation flags"])

prop("P07", "Model counting is exact for any number of variables",
 """The model count of a PSDD is exactly the number of complete assignments its structure accepts, as an integer of unbounded size.
 It depends on the structure only: parameters, flag index, manager and an equal structure built another way do not change it.""",
 ["inputs"], "Every PSDD structure, from a single variable to hundreds of variables with counts far beyond 64 bits.",
 "Tests count a few small instances that fit in machine integers.",
 [PN], [("psdd_node_util::ModelCount", PN)], ["returned integer"])

prop("P08", "Multiplying PSDDs gives the normalised pointwise product",
 """Multiplying two PSDDs with strictly positive parameters over the same vtree returns a PSDD and a constant such that, for every assignment, the constant times the result's
 probability equals the product of the operands' probabilities; the result is normalised, so the constant is the sum of the products.
 If no assignment is accepted by both operands, or an operand is null, the result is null with constant 0.
 The operands are left unchanged, and multiplication is commutative and associative as a function of the distributions.""",
 ["inputs"], "Every pair of PSDDs over one vtree with strictly positive parameters (normalised or with the all-one parameters of a converted formula), equal operands, any mix of flag indices, chains of products.",
 "Four tests multiply small fixed instances.",
 [PM], [("PsddManager::Multiply / MultiplyWithCache", PM)], ["Evaluate on the result and the returned constant"])

prop("P09", "Parameter learning gives the smoothed maximum-likelihood parameters",
 """Learning returns a normalised PSDD with the given structure in which every parameter is (count + alpha) / (total count + alpha times the number of alternatives), where a record counts at a node exactly when
 the structure routes it there; records the structure does not accept count nowhere.
 The result does not depend on the order of the records, on the parameters of the given structure or on earlier learning runs, and the given structure is unchanged.
 With alpha 0 and every context reached it is the maximum-likelihood estimate.""",
 ["inputs", "histories"], "Every structure, every multiset of records (including none, inconsistent ones, more than 64), every alpha >= 0 for which the estimate is defined, repeated learning on one structure.",
 "Two tests learn on one parity structure; routing in large or shared structures, inconsistent data and repetition are not sampled.",
 [PM], [("PsddManager::LearnPsddParameters", PM)], ["parameters of the returned nodes against independently routed counts"],
 [("data counts / batched values", "scratch state on the structure's nodes", "include/psdd/psdd_node.h")])

prop("P10", "Sampling parameters keeps the support and normalises every node",
 """Sampling parameters for one or several PSDDs returns PSDDs accepting exactly the same assignments, with every node's parameters positive and summing to 1, carrying the requested flag.
 Several roots, in any order, sharing nodes, or one contained in another, yield one result per root in the order given, and a node shared by several roots receives one set of parameters.
 Equal generator seeds give equal results and the given PSDDs are unchanged.""",
 ["inputs"], "Every structure and list of roots, every generator of positive numbers (uniform, gamma), every flag index.",
 "No existing test samples parameters for several roots, and none checks support.",
 [PM, "src/random_double_generator.cpp", PN], [("SampleParameters / SampleParametersForMultiplePsdds", PM), ("SerializePsddNodes (multi-root)", PN)], ["returned nodes"])

prop("P11", "Direct sampling draws complete assignments from the distribution",
 """Drawing from a normalised PSDD yields a complete assignment of its variables that has positive probability, setting no other variable, and assignments occur with their probabilities.
 This holds for every value the random source can produce, including the ends of its interval, and for every interval of the source.
 Equal seeds give equal draws.""",
 ["inputs", "schedules"], "Every normalised PSDD, every uniform source over any interval, every sequence of values it returns.",
 "No existing test draws samples.",
 [PN], [("DirectSample of literal, decision and top nodes", PN)], ["drawn assignments against the joint distribution"])

prop("P12", "Writing a PSDD to a file and reading it back preserves it",
 """Writing a PSDD to a file and reading the file into a manager over an equal vtree gives a PSDD with the same support, model count and (to the six decimals the format carries per log-parameter) the same distribution, also for parameters equal to zero.
 The file lists every node once, children before parents with the root last, in the documented syntax, with a correct node count.
 Reading the same file again into the same manager gives the same node. No file is left open.""",
 ["inputs"], "Every PSDD (any structure, vtree, parameters including 0 and very small ones, one-node PSDDs), every flag index.",
 "No existing test writes and reads PSDD files with generated content.",
 [PN, PM], [("WritePsddToFile", PN), ("ReadPsddFile", PM)], ["file content; reread PSDD"])

prop("P13", "Loading and normalising across managers preserves the distribution",
 """Loading a PSDD into the same or another manager, whose vtree contains the PSDD's vtree as an equal part or refines it by additional variables, keeps the distribution on the original variables.
 Lifting a PSDD to an ancestor vtree node leaves every added variable unconstrained with neutral weight, so each extension of an assignment keeps the assignment's weight.
 The given PSDD and its manager are unaffected.""",
 ["inputs", "histories"], "Every PSDD, every vtree obtained from its vtree by adding variables around or between its parts, every target node above it, same or different manager.",
 "One load test covers one instance.",
 [PM], [("LoadPsddNode", PM), ("NormalizePsddNode", PM), ("GetConformedPsddDecisionNode", PM), ("GetTrueNode", PM)], ["Evaluate over extended assignments"])

prop("P14", "Equal nodes are shared and different nodes never merged",
 """Within a manager, asking for a node equal to a live one (same kind, flag, variable or elements in any order, and parameters equal to the library's precision) returns that same node.
 Nodes that differ in sign, variable, flag, elements or any parameter beyond that precision are different nodes, each reporting exactly what was asked for.
 Comparing nodes of a kind with == agrees with this, and nodes that are equal have equal hash values.
 Consequently repeating any construction in the same manager returns the identical root.""",
 ["inputs", "histories"], "Every sequence of node requests and constructions on one manager: literals, tops with any two parameters, decisions in any element order, any flag indices, near-equal parameters.",
 "Three tests request one node of each kind.",
 [UT, PM, PN], [("unique table and its ordering", UT), ("operator== / hash of nodes", PN)], ["node identity and accessors"])

prop("P15", "Deleting unused nodes never affects the ones in use",
 """After deleting unused nodes, every PSDD passed as in use is untouched: same distribution, answers and files, and constructions that arrive at one of its nodes still return that node.
 Nodes no used root reaches are forgotten, and everything can still be built, multiplied and queried correctly afterwards, however often deletion is repeated.
 Deleting by flag in a node table likewise keeps exactly the nodes carrying one of the given flags.""",
 ["histories"], "Every history of constructions, products and deletions with every choice of roots kept (none, some, shared, nested).",
 "Deletion is marked 'TODO: testing this function' in the source; no test calls it.",
 [UT, PM], [("DeleteUnusedPsddNodes", UT), ("DeletePsddNodesWithoutFlagIndexes", UT), ("GetCoveredPsddNodes", PN)], ["kept roots before and after; identity of reconstructions"])

prop("P16", "Every PSDD produced is structurally well formed",
 """Every PSDD returned by conversion, compilation, multiplication, learning, sampling, loading or reading respects its vtree: each decision's alternatives pair a node of the left child with a node of the right child,
 the left parts are satisfiable, mutually exclusive and the alternatives non-empty, and leaves carry their own variable.
 Products, learned and sampled PSDDs have parameters summing to 1 at every node.
 Every node of the result carries the requested flag.""",
 ["inputs", "histories"], "Every operation of the library that returns a PSDD, over every input in its domain and pipelines of several operations.",
 "Tests look at results through single counts or values, never at node-level invariants.",
 [PM, PN, "src/cnf.cpp"], [("all constructions in the manager", PM)], ["walk over the returned nodes"])

prop("P17", "No operation changes what an existing PSDD means",
 """After any sequence of constructions, products, learning, sampling, loading, file writing, queries and draws on one or several managers, every PSDD obtained earlier still denotes the same distribution with the same nodes and parameters.
 Every query gives the same answer whenever and however often it is asked, whatever was asked before it, also when PSDDs share nodes.
 Queries leave the nodes ready for the next operation.""",
 ["histories"], "Every interleaving of library operations over a pool of PSDDs sharing nodes in one or several managers.",
 "Each test runs one operation on fresh objects; interactions through per-node scratch state are never exercised.",
 [PM, PN, UT], [("user data, activation flags, data counts and batched values reset after use", PN)], ["repeat of all queries on all earlier roots after every step"],
 [("user_data_, activation_flag_, batched values, data counts", "per-node scratch state shared by all operations", "include/psdd/psdd_node.h")])

prop("P18", "Probability arithmetic follows real arithmetic in log space",
 """Adding, multiplying and dividing parameters agrees with real arithmetic on non-negative numbers to floating-point accuracy for logarithms up to a billion in magnitude, with zero neutral for addition and absorbing for multiplication and 1 neutral for multiplication; compound assignment gives the same value as the binary operator.
 Two parameters compare equal when their logarithms fall in the same 1e-7 cell and never when they differ by more than 2e-7; less-than and greater-than order the others by value, exactly one of the three relations holds, and equal ones hash equal.
 This holds for values however they were computed.""",
 ["inputs"], "All parameters from decimals and logs, including zero, one, extremely small and large ones, and every expression over them.",
 "No existing test exercises the parameter type directly.",
 [PP], [("operators of PsddParameter", PP)], ["parameter(), comparisons, hash_value()"])

prop("P19", "Compiling a graphical model gives its normalised distribution",
 """Each of the three network compilation strategies returns a normalised PSDD and a constant such that the constant times the PSDD's probability equals the product of all factors for every assignment, when every variable occurs in some factor;
 compiling a single factor likewise represents that factor.
 This holds for any vtree over the variables, any order of variables inside a factor, any number of factors and any clean-up frequency.
 A model in which every assignment has weight 0 yields the null PSDD with constant 0.""",
 ["inputs", "configurations"], "Every binary network of factors over one or more variables (zeros in factors included), every vtree over its variables, all three strategies, every clean-up frequency >= 1.",
 "The network tests need libraries that are not present and are not run; no test checks values.",
 ["src/pgm_compiler.cpp", PM], [("compile_factor", "src/pgm_compiler.cpp"), ("compile_network, compile_network_with_vtree, compile_network_dc", "src/pgm_compiler.cpp")], ["Evaluate on the result times the constant against the factor product"])

prop("P20", "Reading a UAI file recovers the network it describes",
 """Reading a UAI network file recovers the network kind, the number of variables and factors, every factor's scope in file order (variables numbered from 1) and every table entry in file order.
 Layout does not matter: tables may spread over several lines, blank lines may separate them, and numbers may be in any decimal or scientific notation; no file is left open.""",
 ["inputs"], "Every binary network and every such layout of its file.",
 "Tests that read networks are not run here and check only the vtree.",
 ["src/uai_network.cpp"], [("UaiNetwork::read_file", "src/uai_network.cpp")], ["accessors of the network"])

prop("P21", "Vtrees built from networks cover exactly the network's variables",
 """The min-fill, join-tree and hypergraph-partitioning constructions return a full binary vtree with correct node positions whose leaves are exactly the network's variables, each once, whatever valid ordering, decomposition or partition the underlying graph library supplies.
 Compiling the network over such a vtree gives the network's distribution.
 Whenever the left child of a node of such a vtree is not a single variable, no factor links a variable on the left with one on the right.
 The question put to the library is the network's own (variables linked as the factors link them; for partitioning, factors linked as the variables link them), and the vtree is as narrow as the answer: the variables outside an internal node that share a factor with one below it are no more than the width of the ordering plus one (min-fill) or the largest bag (join tree).""",
 ["inputs", "schedules"], "Every network (for the hypergraph construction and for compiling, one in which each variable occurs in a factor), every elimination ordering, tree decomposition or partition the external libraries may return.",
 "These tests need libhtd/libkahypar, which are absent, so they never run here.",
 ["src/minfill_vtree.cpp", "src/jointree_vtree.cpp", "src/hypergraph_decomposition_vtree.cpp"],
 [("MinFillVtree::ConstructVtree", "src/minfill_vtree.cpp"), ("JointreeVtree::ConstructVtree", "src/jointree_vtree.cpp"), ("HypergraphDecompositionVtree::ConstructVtree", "src/hypergraph_decomposition_vtree.cpp")],
 ["returned vtree"])

prop("P22", "Vtree utilities copy, project, list and locate faithfully",
 """Copying a vtree (optionally renaming variables) gives a separate vtree of the same shape and left-to-right order; projecting onto a non-empty subset keeps exactly those variables with the relative nesting and order of the original.
 Listing visits every node once with parents before children, and variables under a node exactly those of its leaves (left to right in the leaf traversal); looking up a variable set returns the node whose leaves are exactly that set, or null if there is none.
 The original vtree is left unchanged and every vtree produced has correct positions, parents and counts.""",
 ["inputs"], "Every vtree shape, variable numbering, renaming, subset and node.",
 "Three tests use one vtree each.",
 [PN], [("vtree_util functions", PN)], ["returned vtrees against an independent tree model"])

prop("P23", "The inference program answers as exhaustive enumeration would",
 """Run on a PSDD file, its vtree file and optionally a CNF evidence file, the inference program prints the marginals of every variable and a most probable assignment with its probability, conditioned on the evidence, for the requested queries.
 If no accepted assignment satisfies the evidence, it prints UNSATISFIED instead and exits normally.
 Variables are listed in increasing order.""",
 ["inputs"], "Every PSDD file (with zero parameters only when there is no evidence), every vtree, every CNF evidence (contradictory, redundant, empty) and every combination of queries.",
 "No test runs the program.",
 ["psdd_inference_main.cpp", "src/cnf.cpp", PM, PN], [("main", "psdd_inference_main.cpp")], ["standard output of the program"])

prop("P24", "The network compiler program writes a PSDD of the network",
 """Run on a UAI file with a vtree file or a vtree method, the compiler program writes a PSDD file and a vtree file from which the network's normalised distribution is recovered, and prints the logarithm of the network's partition function and the number of nodes.
 Marginals and most probable assignments obtained from these files with the inference program are those of the network.""",
 ["inputs", "configurations"], "Every binary network with positive partition function in which every variable occurs, every vtree over its variables and every vtree method, any file and directory names.",
 "The program cannot be linked here without libhtd/libkahypar and no test runs it.",
 ["uai_compiler.cpp", "src/pgm_compiler.cpp", "src/uai_network.cpp", PN, PM], [("main", "uai_compiler.cpp")], ["written files and standard output"])

prop("P25", "Datasets count their records and survive a file round trip",
 """A dataset holds each distinct record with its multiplicity: the multiplicities add up to the data size, and the entropy figure is the mean log relative frequency of the records.
 Reading a CSV file of zeros and ones gives one record per line, counted exactly, with the number of columns as variable count, replacing whatever the dataset held before; writing and reading back preserves every multiplicity and leaves no file open.""",
 ["inputs", "histories"], "Every multiset of binary records of any width (over 64 and thousands of columns included), every order, reuse of one dataset object.",
 "No existing test touches datasets.",
 ["src/binary_data.cpp", "src/csvparser.c"], [("BinaryData::ReadFile / WriteFile / AddRecord / CalculateEntropy", "src/binary_data.cpp")], ["data(), data_size(), variable_size(), files"])

prop("P26", "Sparse JSON data loads exactly the valid examples",
 """Loading a sparse JSON dataset yields one record per valid example (an array of variable indices between 1 and the declared number of variables) with exactly the listed variables true, counting repeated examples.
 Examples that are not arrays or contain anything else are skipped without affecting the others.
 A document without the required fields is rejected with null; no file is left open.""",
 ["inputs"], "Every JSON document with or without the fields, with any mixture of valid examples and invalid ones (non-arrays, strings, nulls, fractional, zero, negative or too large indices).",
 "No existing test loads JSON data.",
 ["src/binary_data.cpp"], [("BinaryData::ReadSparseDataJsonFile", "src/binary_data.cpp")], ["returned dataset"])

prop("P27", "CSV parsing recovers quoted fields and is safe on any bytes",
 """Parsing a well-formed CSV text (fields quoted with doubled quotes where needed, any accepted delimiter, any field and row sizes, with or without a header or a final newline, LF or CRLF ends) returns exactly its rows and fields, then reports the end.
 Parsing from a file and from a string give the same result.
 On arbitrary input the parser neither reads nor writes outside its buffers, and terminates; unsupported delimiters and missing inputs are reported as errors; a parser that was destroyed leaves no file open.""",
 ["inputs"], "Every table of fields without carriage returns, every encoding choice, and every byte string without NUL.",
 "No existing test calls the CSV parser.",
 ["src/csvparser.c"], [("_CsvParser_getRow", "src/csvparser.c")], ["rows, error message, AddressSanitizer"])

prop("P28", "A PSDD's support converts back to the same SDD",
 """Converting a PSDD to an SDD under any one-to-one variable renaming gives the Boolean function accepting exactly the assignments the PSDD's structure accepts.
 Converting an SDD to a PSDD and back, over the same vtree, returns the original SDD node.""",
 ["inputs"], "Every PSDD (converted, sampled, multiplied or built node by node) and every target SDD manager and renaming.",
 "No existing test performs this conversion.",
 [PN, PM], [("ConvertPsddNodeToSddNode", PN)], ["truth table of the returned SDD; node identity"])

prop("P29", "Node listings are complete, ordered and duplicate-free",
 """Listing the nodes of one or several roots gives every node reachable from them exactly once and nothing else, each node before its children, and the set of covered nodes is the same set.
 A listing of one root starts with that root.
 The reported size of a PSDD is the sum over its distinct decision nodes of their alternatives minus one plus the number of its distinct unconstrained-variable nodes.""",
 ["inputs"], "Every PSDD and every list of roots, with repetitions, shared parts and roots contained in others, in every order.",
 "Tests use listings of single roots only as an input to other functions.",
 [PN], [("SerializePsddNodes", PN), ("GetCoveredPsddNodes", PN), ("GetPsddSize", PN)], ["returned lists and numbers against an independent traversal"])

prop("P30", "Random sources and sampled parameters follow their distributions",
 """A uniform source reports its interval and yields values inside it, uniformly distributed; a gamma source yields non-negative values of the gamma distribution with the given shape and scale; successive values do not depend on each other.
 Sources made alike yield the same sequence, whatever other sources are used in between.
 Sampling parameters draws every parameter separately: each node's parameters are, up to normalisation, values drawn from the given generator, and no value is used for two parameters.""",
 ["inputs", "histories"], "Every interval, shape, scale and seed; every structure and list of roots; every generator of positive numbers.",
 "No existing test looks at the values of a source or at sampled parameters.",
 ["src/random_double_generator.cpp", PM], [("random sources", "src/random_double_generator.cpp"), ("SampleParametersForMultiplePsdds", PM)], ["generated values; parameters of returned nodes"])

prop("P31", "Missing or cut-off input files are refused, failed writes reported",
 """Reading a PSDD, CNF, UAI, CSV or JSON file that does not exist ends in an error (a failure status, an exception or a null result), never in an empty or partial object.
 A PSDD, UAI or JSON file cut off before its last entry is refused likewise, and reading it always ends; one that only lost white space at its end is read as the whole file.
 Writing a PSDD or a dataset where no file can be written ends in an error.
 The inference program given a missing or cut-off file, and the compiler program given one or without a place for its results, exit with a failure status and give no answer and no PSDD for it.""",
 ["inputs", "fault_sequences"], "Every file, every byte at which it may be cut, every reason for which a name cannot be opened or written (missing, dangling link, directory, full device, too long).",
 "No existing test gives a reader anything but a complete file.",
 [PM, PN, "src/cnf.cpp", "src/uai_network.cpp", "src/binary_data.cpp", "psdd_inference_main.cpp", "uai_compiler.cpp"], [("PsddManager::ReadPsddFile", PM), ("UaiNetwork::read_file", "src/uai_network.cpp"), ("CNF::CNF(const char *)", "src/cnf.cpp"), ("BinaryData::ReadFile / WriteFile", "src/binary_data.cpp"), ("WritePsddToFile", PN)], ["exit statuses, returned objects, output of the programs"])

prop("P32", "Results depend on nothing but the calls made",
 """The same sequence of calls with the same arguments (and the same seeds of random sources) yields the same results to the last bit, however often,
 where in memory and after whatever unrelated work in other managers it is played: the same node and flag indices, parameters, orders of elements and of listings,
 model counts, probabilities, marginals, most probable assignments, drawn assignments and written files, and the same PSDD for a network compiled over the same vtree.""",
 ["inputs", "histories"], "Every sequence of constructions, products, conversions, learnings, samplings, drawings, file operations, deletions and queries on a manager, every network with every compilation strategy, every placement of objects in memory, every unrelated earlier work.",
 "A test runs once in a process of its own, at the addresses it happens to get, and compares with one expected value; none compares two plays of the same calls.",
 [UT, PM, PN, "src/pgm_compiler.cpp"], [("PsddUniqueTable (order of elements, node numbers)", UT), ("SerializePsddNodes (orders)", PN), ("PsddManager (loading, learning, sampling)", PM), ("PgmCompiler", "src/pgm_compiler.cpp")],
 ["accessors, returned values and files of several plays"])

prop("P33", "Effort and results follow the number of distinct nodes, not of paths",
 """Nodes shared by many parents are treated once. On a PSDD whose nodes are reached along exponentially many paths, every query (evaluation, marginals, most probable
 assignment, consistency in each of its forms, model count, size, listings, activation), every construction (loading, learning, sampling parameters, products including null ones, lifting, true nodes), every conversion
 and file operation and every deletion still ends in a time that follows the number of nodes (pairs of nodes for products), gives the right answer, and yields no more nodes than
 sharing needs: a loaded PSDD as many as the original, a learned, sampled, re-read or file representation no more, a product no more than there are pairs of nodes with a common model, a lifted one or one brought back from an SDD no more than one per vtree node in addition.""",
 ["inputs"], "Every PSDD with shared nodes over every vtree, however large the number of paths (2^n and beyond), every parameter and assignment.",
 "The existing tests use functions of a few variables, on which an operation that follows paths rather than nodes is as fast as one that does not.",
 [PN, PM], [("PsddDecisionNode::IsConsistent", PN), ("PsddManager::Multiply", PM), ("SerializePsddNodes", PN), ("LoadPsddNode / LearnPsddParameters / ReadPsddFile", PM), ("ConvertPsddNodeToSddNode", PN)],
 ["answers, numbers of nodes, CPU time with a wide limit"])

prop("P34", "Nodes report exactly what they were made from and what was recorded on them",
 """A node made with any of its constructors reports its kind, index, flag index, vtree node, literal or variable, elements with their parameters, exactly as given.
 Counts raised on a node, its user data, activation flag and batched values and contexts are those last recorded on that very node, counter by counter; resetting counts clears all of that node's counters
 and nothing else. Neither equality nor the hash value of a node changes through anything recorded on it.""",
 ["inputs", "histories"], "Every node kind, constructor, index and flag (to the ends of their types), parameter, number of elements; every sequence of records and resets on several nodes.",
 "The existing tests never read most of these fields back, and never after a record on another node or counter.",
 [PN, "include/psdd/psdd_node.h"], [("PsddLiteralNode, PsddTopNode, PsddDecisionNode", PN), ("IncrementDataCount / ResetDataCount", PN), ("set_user_data, SetActivationFlag, batched values", "include/psdd/psdd_node.h")],
 ["accessors of the nodes"])

prop("P35", "Work with separate managers does not interfere",
 """Operations on one manager and its PSDDs, compilations, datasets and files yield what they yield alone, and leave behind what they leave alone, whatever another thread does with other managers, PSDDs,
 datasets and differently named files between any two of their steps: the same nodes, numbers, parameters, orders, answers and written files, without a crash.""",
 ["inputs", "histories", "schedules"], "Every two histories of operations on a manager each, and compilations of a network each, every interleaving of their steps.",
 "The existing tests use one thread.",
 [PM, PN, UT, "src/pgm_compiler.cpp", "src/uai_network.cpp", "src/cnf.cpp", "src/csvparser.c", "src/binary_data.cpp"], [("PsddManager", PM), ("psdd_node_util", PN), ("PsddUniqueTable", UT), ("readers and writers", "src/csvparser.c"), ("PgmCompiler", "src/pgm_compiler.cpp")],
 ["accessors, returned values and files of both histories"])

prop("P36", "Work that leaves nothing new behind keeps no memory",
 """A process may repeat any work for as long as it likes: queries, listings, draws, files read or written, datasets, texts of records, vtree utilities, networks and their vtrees, and constructions whose nodes
 the manager already has. Done again with the same arguments, with the objects it returns given back to the caller's side of the interface, each of them leaves no more memory in use than before, on every path: also for
 false results, rejected records, missing files and texts given up half-way. A manager without nodes of its own gives back everything when it is deleted.""",
 ["inputs", "histories"], "Every PSDD, SDD, CNF, dataset, text, vtree and network; every one of the listed operations on it, any number of times.",
 "The existing tests call everything once and do not look at memory.",
 [PM, PN, UT, "src/pgm_compiler.cpp", "src/uai_network.cpp", "src/cnf.cpp", "src/csvparser.c", "src/binary_data.cpp", "src/jointree_vtree.cpp", "src/minfill_vtree.cpp", "src/hypergraph_decomposition_vtree.cpp"],
 [("GetMPESolution, GetMarginals and the other queries", PN), ("ConvertSddToPsdd / FromSdd", PM), ("PsddUniqueTable::GetUniqueNode", UT), ("CsvParser_*", "src/csvparser.c"), ("PgmCompiler", "src/pgm_compiler.cpp")],
 ["bytes allocated and not freed"])

with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
ids = [d["id"] for d in P]; assert len(set(ids)) == len(ids)
for d in P: assert len(d["title"]) <= 80, d["id"]
if __name__ == "__main__":
    try:
        import jsonschema
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for d in P: jsonschema.validate(d, s)
        print("valid", len(P))
    except ImportError: print(len(P))
