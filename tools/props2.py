NYB = "check under construction"
XP = "lib/Feature/FeatureModelParser.cpp"; XW = "lib/Feature/FeatureModelWriter.cpp"
CP = "include/vara/Feature/ConstraintParser.h"; CB = "include/vara/Feature/ConstraintBuilder.h"
CH = "include/vara/Feature/Constraint.h"; Z3 = "lib/Solver/Z3Solver.cpp"
prop("C05", "Writing a feature model to XML and reading it back preserves it",
     "For every model whose root carries the reserved root name, writing it as XML and reading the result yields an equivalent model: same name, commit, features, kinds, optionality, values, step functions, output strings, source locations, tree, alternative groups and constraints. The output is accepted by the XML verifier, and writing twice gives the same text.",
     ["inputs"], "all models up to a size with attribute and constraint variants", "Tests round-trip a few files and compare little.",
     [XW, XP, "include/vara/Feature/FeatureModelWriter.h"], [("FeatureModelXmlWriter", XW), ("FeatureModelXmlParser", XP)], ["written XML", "re-read model"],
     technique='exhaustive enumeration of models (trees with groups, attribute and constraint variants), each written and read back',
     note='Exhaustive for the model sizes and variants given in the evidence; or groups and partial alternatives are compared through the constraints that spell them in XML.')
prop("C06", "Reading an XML model builds exactly the model the document describes",
     "For every well-formed document of the feature model language, the reader yields a model with exactly the described features, attributes, parents, alternative groups and constraints, whatever the order of options and whichever of the equivalent notations is used.",
     ["inputs"], "all documents of a bounded grammar", "Tests read a few dozen fixed files.",
     [XP, "lib/Feature/XmlConstants.h"], [("FeatureModelXmlParser", XP)], ["model delivered by the reader"],
     technique='exhaustive enumeration of documents (bounded grammar, several notations), each read by the real reader and compared with its denotation',
     note='Exhaustive for the document families given in the evidence; trusts the reference denotation in src/c06.cpp.')
prop("C07", "Malformed model documents are rejected and never crash the readers",
     "Whatever bytes are given to the model readers (XML and SXFM), they terminate without crashing; documents that are not well formed, violate the document type (elements, order, attributes) or have another root element than a model are rejected by verifying and by loading alike; XML documents whose options name parents or children that do not exist, are ambiguous or form a cycle, or that declare an option twice, do not load; all others load with every feature below its parent.",
     ["inputs", "fault_sequences"], "all single faults (deletion, duplication, truncation, substitution) of seed documents", "Tests contain a handful of malformed files.",
     [XP], [("DTD validation", XP)], ["verdict of verify and load"], 
     technique='exhaustive enumeration of faults (bytes, elements, attributes, texts, references; combinations of them) of model documents against a reference validator',
     note='Exhaustive for the seed documents, faults and combinations given in the evidence; whether a text is well-formed XML is taken from libxml2; entities and deep nesting are out of scope.')
prop("C08", "Constraint text is parsed according to the documented grammar",
     "For every text, the constraint parser yields exactly the expression that the text denotes, or rejects the text if it is not an expression; it never crashes. Unary ! and ~ bind tightest, then * /, + -, < <= > >=, = !=, &, | ^ or, => ->, <=> <->; binary operators associate to the left, parentheses override, blanks only separate; integers may be negative or scientific and saturate at 64 bits.",
     ["inputs"], "all token sequences up to a length", "Tests parse about fifty fixed texts.",
     [CP], [("ConstraintLexer, ConstraintParser", CP)], ["constraint tree"], 
     technique='exhaustive enumeration of texts (token, character and byte sequences) against a reference grammar',
     note='Exhaustive for the alphabets and lengths given in the evidence; trusts the stratified reference grammar in src/cx.h.')
prop("C09", "Printing, parsing and cloning constraints preserve their meaning",
     "For every constraint, a clone has the same structure and shares nothing with the original, visiting reaches every operand once and in order, and the printed text parses back to an expression with the same meaning; the HTML form is that text, escaped.",
     ["inputs"], "all constraint trees up to a depth", "Tests print and clone a few constraints.",
     [CH, CP, "lib/Feature/Constraint.cpp"], [("toString, clone, accept", CH)], ["printed text, clone, re-parsed tree"], 
     technique='exhaustive enumeration of constraint trees, each cloned, visited, printed and re-parsed',
     note='Exhaustive for the leaves and depths given in the evidence.')
prop("C10", "The constraint builder delivers the expression its call sequence spells",
     "For every sequence of builder calls, the builder delivers exactly the expression that the calls spell under operator precedence and parentheses, and nothing if the calls do not spell an expression.",
     ["histories"], "all call sequences up to a length", "Tests use a few call chains.",
     [CB], [("ConstraintBuilder", CB)], ["built constraint or null"], 
     technique='exhaustive enumeration of builder call sequences against a reference grammar',
     note='Exhaustive for the call alphabets and lengths given in the evidence; nothing is claimed after a failed build.')
prop("C11", "The solver enumerates exactly the valid configurations of feature trees",
     "For every feature model of optional, mandatory and grouped binary features, the solver enumerates each configuration permitted by root, parent-child, mandatory, alternative and or rules exactly once and no other, and reports a model without any as unsatisfiable.",
     ["inputs"], "all feature trees up to a size", "Tests count the configurations of a few models.",
     [Z3, "include/vara/Solver/ConfigurationFactory.h", "lib/Solver/SolverFactory.cpp"], [("Z3Solver", Z3)], ["enumerated configurations"], 
     technique='exhaustive enumeration of feature trees; the configurations the solver enumerates are compared with an exhaustive enumeration of all assignments',
     note='Exhaustive for the tree sizes, flags and groups given in the evidence; trusts the reference semantics in src/sol.h.')
prop("C12", "The solver gives boolean, numeric and mixed constraints their semantics",
     "For every model with well-typed boolean, numeric or mixed constraints, the enumerated configurations are exactly those of the feature tree that satisfy every constraint; in mixed constraints a binary feature counts as 1 or 0 where a number is needed, one that requires all features holds wherever one of its binary features is not selected, and a negated one holds where its expression does not.",
     ["inputs"], "all constraints up to a depth over small models", "Tests check a few constraints.",
     [Z3], [("SolverConstraintVisitor", Z3)], ["enumerated configurations"], 
     technique='exhaustive enumeration of constraints up to a depth over small models; the configurations the solver enumerates are compared with an exhaustive evaluation of all assignments',
     note='Exhaustive for the operators, atoms and depths given in the evidence; division only by non-zero literals; trusts src/sol.h.')
prop("C13", "Numeric features take exactly the values of their list or stepped range",
     "A numeric feature takes exactly its listed values, or the values from the lower bound reached by repeatedly applying its step function up to the upper bound, where results are truncated to integers and the range ends where its step function stops growing; step functions are read from text as written and computed accordingly, and texts that are not step functions are rejected.",
     ["inputs"], "all step texts over a token alphabet, all small ranges", "Tests parse a few step functions and one range.",
     ["include/vara/Feature/StepFunctionParser.h", "include/vara/Feature/StepFunction.h", Z3], [("StepFunctionParser", "include/vara/Feature/StepFunctionParser.h")], ["values of enumerated configurations"], 
     technique='exhaustive enumeration of step function texts, ranges and value lists, compared with a reference parser and direct evaluation',
     note='Exhaustive for the alphabets, lengths and ranges given in the evidence.')
prop("C14", "All ways of querying the configuration space agree",
     "Asking whether a model is valid, counting, listing all or the first n configurations and iterating over them all describe the same set of configurations, for every model; a model without any is reported as unsatisfiable by each of them, and no query changes the model.",
     ["inputs", "histories"], "all models up to a size, all n", "Tests query a few models one way each.",
     ["include/vara/Solver/ConfigurationFactory.h"], [("ConfigurationFactory", "include/vara/Solver/ConfigurationFactory.h")], ["results of the queries"], 
     technique='exhaustive enumeration of models and query parameters, every query compared with the reference set of configurations',
     note='Exhaustive for the models and numbers given in the evidence.')
prop("C15", "Merging two models yields their union or nothing and changes neither",
     "Merging keeps every feature of both models exactly once under the parent it had, with the attributes, groups and constraints of the first model and the locations of both; features only the second has are added with all of their attributes. It fails, without crashing, exactly if the roots or the parents of equally named features differ or, merging strictly, their kind, optionality, values, step function, output string or being in a group. Neither input changes.",
     ["inputs"], "all pairs of small models, strict and non-strict", "Tests merge a few pairs.",
     ["lib/Feature/FeatureModelTransaction.cpp"], [("mergeFeatureModels", "lib/Feature/FeatureModelTransaction.cpp")], ["merged model"], 
     technique='exhaustive enumeration of pairs of small models, each merged and compared with a reference merge',
     note='Exhaustive for the pairs of models given in the evidence; alternative versus or groups and non-strict merging of a root with an equally named non-root are left open.')
prop("C16", "Bulk removal removes exactly the removable requested features",
     "Removing a list of features removes exactly the requested features that can be removed: in recursive mode every known feature except the root with everything below it, otherwise requested features that are leaves, repeatedly. Root and unknown features are returned; repetitions and the order of the requests do not matter. The helpers for single edits do what the transaction of that edit does.",
     ["inputs"], "all trees up to a size, all request lists", "Tests use a few lists.",
     ["lib/Feature/FeatureModelTransaction.cpp"], [("removeFeatures", "lib/Feature/FeatureModelTransaction.cpp")], ["model and returned features"], 
     technique='exhaustive enumeration of models, request lists and single edits, each compared with a reference model',
     note='Exhaustive for the tree sizes, groups, request lists and edits given in the evidence.')
prop("C17", "Configurations keep their options and survive the JSON round trip",
     "A configuration reports exactly the options set on it, in lookup, iteration and typed access (true and false in any case are truth values, 64 bit integers are numbers, everything else is text), and writing it as JSON and reading it back yields an equal, independent configuration. Documents that are not JSON objects of texts are rejected without crashing.",
     ["inputs", "histories"], "all option sequences over a small alphabet", "Tests use one or two configurations.",
     ["include/vara/Configuration/Configuration.h", "lib/Configuration/Configuration.cpp"], [("Configuration", "lib/Configuration/Configuration.cpp")], ["options, JSON text"], 
     technique='exhaustive enumeration of option texts, call sequences and JSON documents (token sequences, single and double faults), compared with a reference configuration and reader',
     note='Exhaustive for the alphabets and lengths given in the evidence; trusts the reference JSON reader in src/c17.cpp.')
prop("C18", "Traversal and ordering follow the depth-first order of the tree",
     "Iterating over a model visits each feature exactly once in depth-first order with siblings by case-insensitive name, in every model whose names differ in more than case; comparing features and ordered feature vectors agree with that order however they are filled, and the child features and groups of a node within a depth are those of the tree.",
     ["inputs", "histories"], "all trees up to a size, all namings and insertion orders", "Tests look at a few trees.",
     [FMH, "lib/Feature/Feature.cpp", "lib/Feature/OrderedFeatureVector.cpp"], [("DFSIterator, operator<", FMH)], ["iteration order"], 
     technique='exhaustive enumeration of trees, groups, namings and insertion orders, all traversals and comparisons against the reference order',
     note='Exhaustive for the tree sizes and names given in the evidence; the order of names that are equal up to case is free.')
prop("C19", "Reading an SXFM model builds exactly the model the document describes",
     "For every SXFM document in the supported subset the reader yields exactly the described features, kinds, alternative and or groups and CNF constraints, with identifiers denoting their features and names for anonymous groups. Documents with wrong indentation, unknown or missing types, not exactly one root at the top, unsupported cardinalities, repeated names, or constraints that cannot be parsed or mention unknown features are rejected without crashing.",
     ["inputs"], "all feature trees of a bounded SXFM grammar", "Tests read a few files.",
     [XP, "lib/Feature/SxfmConstants.h"], [("FeatureModelSxfmParser", XP)], ["model"], 
     technique='exhaustive enumeration of SXFM documents (all feature trees up to a size in several notations, constraint texts, faulty trees), each read by the real reader and compared with a reference reader',
     note='Exhaustive for the grammars, catalogues and lengths given in the evidence; documents between the documented notation and definite errors may be rejected or read as any consistent model.')
prop("C20", "Solver sessions answer for exactly the features and constraints added",
     "After any sequence of adding features, relationships and constraints and of querying, a solver's answers are those for exactly what was added successfully: each remaining valid configuration is delivered once, then UNSAT. Features added twice or before their parent, groups and constraints over features that are unknown or of the wrong type, removing features and asking for satisfiability during an enumeration are reported as errors without side effects.",
     ["histories"], "all call sequences up to a length", "Tests use one fixed order.",
     ["include/vara/Solver/Solver.h", Z3], [("Z3Solver", Z3)], ["results of the calls"], 
     technique='explicit-state BFS over solver sessions on a reference session, every call from every state replayed on the real solver and followed by a complete enumeration',
     note='Exhaustive for the calls and depths given in the evidence; trusts the reference session in src/c20.cpp.')
prop("C21", "The graph export shows exactly the features, groups and edges of the model",
     "The exported DOT graph is well-formed and has exactly one node per feature and group and one edge per parent-child link, marked as optional or mandatory, for every model; labels show the name, output string, constraints and locations of each feature, whatever characters they contain. Exporting does not change the model.",
     ["inputs"], "all models up to a size", "Tests compare one graph.",
     [FMH, XW], [("GraphWriter", FMH)], ["DOT text"], 
     technique='exhaustive enumeration of models and texts, each exported, the DOT text read back by an independent parser and compared with the model',
     note='Exhaustive for the trees, constraints and texts given in the evidence; layout and node identifiers are free.')
prop("C22", "Written sample sets list exactly the given configurations",
     "Writing a sample set yields, for every list of configurations, a YAML document that lists under consecutive numbers exactly the output strings of the features selected in each configuration, in the order of the model and with the values of numeric features; features without output string or not mentioned in a configuration are left out.",
     ["inputs"], "all small configuration lists", "The writer has no tests.",
     ["lib/Sampling/SampleSetWriter.cpp"], [("SampleSetWriter", "lib/Sampling/SampleSetWriter.cpp")], ["written text"], 
     technique='exhaustive enumeration of small models and configuration lists, each written and read back with independent parsers',
     note='Exhaustive for the models, output strings and lists given in the evidence.')
prop("C23", "Reading a sample set yields exactly the listed configurations",
     "Reading a sample set for a model yields one configuration for each row of the file, the last row first. Each has exactly the features of the model that the file has a column for: binary features and the root deselected where the cell is 0 and selected otherwise, numeric features with the value of the cell. Columns that are no features are ignored. Neither the model nor the file changes, and the configurations do not need them any more.",
     ["inputs"], "all small models x column sets x cells", "The only test of the reader needs libraries that are absent here.",
     ["lib/Sampling/SampleSetParser.cpp"], [("SampleSetParser", "lib/Sampling/SampleSetParser.cpp")], ["configurations"],
     technique='exhaustive enumeration of small models, sets and orders of columns and cells, each file read by the real reader and compared with the reference',
     note='Exhaustive for the models, columns, cells and rows given in the evidence; the absent CSV library is replaced by standin/csv.hpp.')
prop("C24", "The feature model builder delivers exactly the described model",
     "For every sequence of builder calls, building yields exactly the described model, in whatever order features, edges, metadata, groups and constraints were given: every feature below the parent its last edge names, or below the root; groups over the features that are direct children in the end; the last metadata. Contradictory descriptions (names given twice, unknown names, an edge from a feature to itself or one of its ancestors, a second root) yield nothing. Moving the builder changes nothing.",
     ["histories"], "all sequences of builder calls up to a length", "Tests use a few fixed sequences.",
     ["include/vara/Feature/FeatureModelBuilder.h", "lib/Feature/FeatureModelBuilder.cpp"], [("FeatureModelBuilder", "include/vara/Feature/FeatureModelBuilder.h")], ["built model"],
     technique='exhaustive enumeration of builder call sequences, with the builder plain, moved or assigned half way, each built model compared with a reference model and checked for consistency',
     note='Exhaustive for the call alphabets and lengths given in the evidence; trusts the reference edit semantics in src/ref.h and src/tx.h.')
prop("C25", "Source ranges are compared, ordered, edited and printed part by part",
     "Two source ranges are equal exactly if path, start, end, category, member offset and revisions are; positions are ordered by line, then column; a text is a member offset exactly if something follows its last \"::\", and is split into classes and member there. Printing shows path, positions and member. Copies are independent. Adding, removing and updating locations of a feature changes exactly the first equal location and reports whether there was one.",
     ["inputs", "histories"], "all pairs of ranges and all edit sequences over a small domain", "Tests compare a few ranges and never revisions.",
     ["include/vara/Feature/FeatureSourceRange.h", "include/vara/Feature/Feature.h"], [("FeatureSourceRange", "include/vara/Feature/FeatureSourceRange.h")], ["comparison results, accessors, text"],
     technique='exhaustive enumeration of positions, member texts, ranges, pairs of ranges and location edit sequences, compared with plain tuples and lists',
     note='Exhaustive for the value domains and lengths given in the evidence.')
prop("C26", "The command line viewer reports, prints and draws the model of a file",
     "Whatever file is given, fm-viewer succeeds exactly if the model is valid and its output can be written: -verify only checks the file and exits, -dump prints every feature with its attributes once, -o writes the graph of the model to the file, otherwise the graph is handed to the requested or default viewer. On failure it says so, exits unsuccessfully and neither writes nor shows anything. The document is never changed.",
     ["inputs"], "documents x command lines", "The tool has no tests.",
     ["tools/fm-viewer/FeatureModelViewer.cpp", "lib/Feature/Feature.cpp", "lib/Feature/FeatureModel.cpp"], [("main", "tools/fm-viewer/FeatureModelViewer.cpp")], ["exit status, printed text, files, started viewers"],
     technique='exhaustive enumeration of documents (all small trees in several styles, faulty files) and command lines, each run as a real process in a scratch directory with recording viewers',
     note='Exhaustive for the documents and command lines given in the evidence; the content of graphs is decided by C21.')
PB = "bindings/python/vara-feature/"
prop("C27", "The Python module mirrors the library and keeps what it hands out alive",
     "Whatever a Python program builds, reads, edits, iterates, compares or prints through the vara_feature module, it observes exactly what the same calls of the C++ library yield: kinds, names, optionality, values, step functions, output strings, locations, parents, children, groups, constraints and written files, and None where there is nothing. Models, features, locations and constraints stay valid and unchanged as long as the program refers to them, whatever other references it drops.",
     ["inputs", "histories"], "walks over handles with every other reference dropped, and all short call sequences", "The Python tests keep everything alive and compare a few attributes.",
     [PB + f for f in ("pybind_Feature.cpp", "pybind_FeatureModel.cpp", "pybind_FeatureModelBuilder.cpp", "pybind_FeatureSourceRange.cpp", "pybind_Constraint.cpp", "pybind_FeatureModelXmlWriter.cpp", "pybind_common.h")],
     [("init_feature_module", PB + "pybind_Feature.cpp"), ("init_feature_model_module", PB + "pybind_FeatureModel.cpp"), ("init_feature_model_builder_module", PB + "pybind_FeatureModelBuilder.cpp")], ["what Python shows", "address sanitizer"],
     technique='exhaustive enumeration of walks over handles and of Python call sequences, each run in an embedded interpreter under the address sanitizer and compared with the same calls of the C++ library',
     note='Exhaustive for the walks, call alphabets and lengths given in the evidence; the C++ library is decided by the other checks.')
UT = "include/vara/Utils/"
prop("C28", "Results and errors carry exactly what they hold, however they are passed on",
     "A result of the library holds either a value or an error: it is true exactly for a value, shows that value or error as often as it is read, hands it over when it is extracted, and keeps it unchanged when the result, value or error is copied, moved, assigned, captured or passed by value. Each error code prints the fixed sentence that describes it. Iterators over owned objects visit each object once, in order, with both kinds of increments.",
     ["histories"], "all sequences of operations on two results up to a length, for all kinds of values the library uses", "Tests construct and read a result once and never copy one.",
     [UT + "Result.h", UT + "UniqueIterator.h", "include/vara/Feature/Error.h", "include/vara/Solver/Error.h"], [("Result", UT + "Result.h")], ["values, errors, truth, text"],
     technique='exhaustive enumeration of operation sequences on two results and of iterator steps, read after every operation and compared with plain values',
     note='Exhaustive for the value types, operations and lengths given in the evidence.')
CG = "tools/config-generator/ConfigurationGenerator.cpp"
prop("C29", "The configuration generator writes the configurations of a model or sample set",
     "For a valid model config-generator replaces the output file (configurations.yml unless told otherwise) by the list of all valid configurations, or, if asked to use a sample set, by those of the sample set, the last row first, each as the output strings of the selected features. If there is nothing to list or the output is empty nothing is written. If the model is invalid or has no valid configuration, no sample set is given, sampling is asked for, or the output cannot be written, it says so, exits unsuccessfully and writes nothing.",
     ["inputs"], "documents x command lines", "The tool is not built and has no tests.",
     [CG, "lib/Sampling/SampleSetWriter.cpp", "include/vara/Solver/ConfigurationFactory.h"], [("main", CG)], ["exit status, printed text, files"],
     technique='exhaustive enumeration of documents (all small trees with constraints in several styles, faulty files) and command lines, each run as a real process in a scratch directory and compared with a reference enumeration of the valid configurations',
     note='Exhaustive for the documents and command lines given in the evidence; the absent CSV library is replaced by standin/csv.hpp.')

prop("C30", "Casts tell every kind of node apart, and visitors reach every operand",
     "In every constraint tree each node knows its parent and root and is cast successfully to exactly its own class. A visitor reaches every operand exactly once, left before right, through the overload for the node it meets, and whatever it answers for other operands; the verdict is true exactly if it is for all operands; redefining an overload cuts off exactly what is below such nodes. Features of every kind, roots and groups of a model and its clones are likewise cast to exactly their class.",
     ["inputs"], "constraint trees and models x casts and visitors", "Tests visit few constraints and cast few of the classes.",
     ["include/vara/Feature/Constraint.h", "lib/Feature/Constraint.cpp", "include/vara/Feature/Feature.h", "include/vara/Feature/Relationship.h"], [("ConstraintVisitor", "include/vara/Feature/Constraint.h"), ("classof", "include/vara/Feature/Feature.h")], ["results of casts, order of visits, verdicts"],
     technique='exhaustive enumeration of constraint trees and small models on the real code: every cast at every node, and visitors that redefine seven sets of overloads with every pattern of verdicts, compared with a reference traversal',
     note='Exhaustive up to the depths and sizes given in the evidence.')
