ONLINE = "TLA+ spec checked by TLC; every transition of the state graph replayed online into the real generator"
CHECKS = {
 "C10": ("TLA+ CppOwn.tla (TLC): state machine of wrappers, released pointers, a Rust container and references; every transition of its state graph replayed into real generated wrapper objects under AddressSanitizer",
         "Exhaustive over the graph with 2 wrappers, 1 released pointer, 1 container, 1 reference and 2 values, for move-only, Copy and SmartPtrCopy (Rc<RefCell>, Arc<Mutex>) classes with std; a part of it with Boost (evidence has the counts). Self-move of a wrapper is a precondition violation (assert in the code) and excluded."),
 "C11": ("TLA+ CppSeq.tla (TLC): state machine of two containers, a sequence kept in Rust and a single element; every transition of its state graph replayed into real generated containers under AddressSanitizer, with every way of iterating compared after each step",
         "Exhaustive over the graph with at most 4 (thorough 5) elements alive at a time for Foo, an over-aligned Foo, u8, i32, f64, user-defined access containers and strings; parts of it for the other primitives and for Boost (counts in the evidence). Zero-sized element classes and self-move excluded."),
 "C12": ("TLA+ Values.tla and Args.tla (TLC): byte-level values with the encoding of each language defined in the specification (round trip and totality model-checked); every crossing and every call of the enumerated signatures is replayed into generated code, values compared on both sides under AddressSanitizer",
         "25 simple types with boundary and pattern values (all values of 1-byte types, all pairs of 14 boundary code points for strings) plus seeded ones; argument positions: all ordered pairs of 8 (thorough 15) types and seeded signatures of up to 7 arguments over static methods, methods, constructors and callbacks; std and Boost. Known finding: a string view with null data."),
 "C13": ("TLA+ Compound.tla (TLC): values of compound types crossing in every direction (argument, result, callback argument, callback result, echo, kept and given back); every transition replayed into generated code, values and object identities compared on both sides under AddressSanitizer",
         "102 types built of Option, Result, pairs, triples, vectors over 16 leaf types, two leaf values each, vectors of up to 2 (thorough 3) elements, std and Boost; every transition. Type nestings outside this list are not covered; Option<&str> beside Option<String> in one project is refused by flapigen, so two fixtures are used."),
 "C14": ("TLA+ CppCallback.tla (TLC): state machine of C++ callback objects, owning and lent C callback structs, Rust slots and calls from the main and other threads; every transition replayed into generated callback code under AddressSanitizer, and under ThreadSanitizer",
         "Exhaustive over the graph with 2 callback objects and 2 Rust slots (counts in the evidence), std and Boost; calls from other threads are joined inside one step, parallel calls are checked for data races by TSAN, not exhaustively scheduled."),
 "C15": ("TLA+ SmartPtr.tla (TLC): state machine of handles that share objects behind smart pointers, calls, nested calls and a pointer kept by Rust; every transition replayed into generated code, values seen through every handle, counts and lock state compared after each step, under AddressSanitizer",
         "Exhaustive over the graph with 3 handles of two classes and 3 (thorough 4) objects for ten kinds of self type paired with each other, with std; a part of it with Boost. A kind with RwLock needs a user rule and is not covered."),
 "J20": ("TLA+ JavaOwn.tla (TLC): state machine of Java variables, wrappers, Rust objects and one kept by Rust, with delete, finalisation of any unreachable wrapper and garbage collection (also in the middle of a call, in compiled code); every transition replayed into generated Java classes and JNI glue in a JVM, with freed Rust memory poisoned",
         "Exhaustive over the graph with 2 wrappers and 2 objects (thorough 3 and 3, plus random walks) for eight classes (move-only, fallible constructor, Box, Copy, Rc<RefCell> and Arc<Mutex> with and without SmartPtrCopy, Arc); collections during a call for the two ways of fencing. Excluded: calls on an emptied wrapper, one wrapper passed twice by value. Known finding: the receiver of a call is not fenced."),
 "J21": ("TLA+ Values.tla and Args.tla (TLC): every crossing of a set of values (integers as byte sequences with their mathematical value, IEEE floats, UTF-8/UTF-16 strings, dates) and every call of a set of signatures, with the arriving bytes or the refusal computed by the specification; all replayed in a JVM",
         "19 simple types in every supported direction (argument, result, callback argument and result): all 8-bit values, boundary patterns and seeded values for wider types, strings over 14 boundary code points in all pairs plus seeded longer ones; refused values (out of range, unpaired surrogates, dates before the epoch) sampled, each in its own JVM, which must end by a panic before the Rust function runs. 160 (thorough 500) signatures of static and instance methods, constructors and callbacks. Wider types are sampled, not exhausted."),
 "J22": ("TLA+ Compound.tla (TLC): state machine of compound values sent, returned, passed to and returned from callbacks, kept and given back, with object conservation; every transition replayed into generated Java classes and JNI glue in a JVM",
         "62 types built of Option, Result, Vec and slices over up to 19 leaf types, two leaf values each (messages with zero and supplementary characters included), arrays of up to 2 (thorough 3) elements; every transition. Only nestings which flapigen supports for Java."),
 "J23": ("TLA+ JavaCallback.tla (TLC): state machine of Java callback objects kept by Rust and by Java variables, calls and releases from four kinds of threads, exceptions, nested calls, replacement during a call, and attachment of a Rust thread; every transition replayed in a JVM with forced collections and weak references, and partly under -Xcheck:jni",
         "Exhaustive over the graph with 3 (thorough 4) objects, 2 Rust slots and a Java variable (45,000, thorough 115,000 transitions), two unrelated implementing classes with decoy overloads, six methods. Two parallel callers are started together, not exhaustively scheduled. The value which Rust gets from a throwing method is specified only for primitive results (0); other results cannot be declared for Java callbacks."),
 "J24": ("TLA+ SmartPtr.tla (TLC): state machine of handles that share objects behind smart pointers, calls, nested calls and a pointer kept by Rust; every transition replayed into generated Java classes and JNI glue in a JVM, with freed Rust memory poisoned",
         "Exhaustive over the graph with 3 handles of two classes and 3 (thorough 4) objects for eleven kinds of self type, each paired with its neighbour. The glue is compiled with edition 2018 (see DESIGN.md for boxed trait objects)."),
 "G01": ("TLA+ FileSync.tla (TLC) + model-based online testing of the real generator along the whole TLC state graph",
         "FileSync's synchronisation, no-rewrite and delete-scope properties are model-checked exhaustively for the finite set of descriptions; the real generator is then driven through every (state,input) pair of that graph (budget permitting: the evidence gives the count) and its files, modification times and deletions are compared with the specification. Trusts: the file contents per description are abstracted to classes measured in an empty directory."),
 "G02": ("TLA+ Accept.tla enumerates (in)valid descriptions with verdicts (TLC) + FileSync.tla failing-run histories replayed into the real generator",
         "All descriptions with at most 2 (thorough: 3) deviating features of the described classes, with a verdict by rules in the spec; each is rendered and given to the real generator. Histories mixing failing and good runs are replayed from the TLC graph. Bounded by the feature table of Accept.tla."),
 "G07": ("TLA+ Api.tla (TLC): from the description of a class, enum or callback the specification computes the members which the Java and the C++ type must have; every enumerated description is generated, compiled and reflected (java.lang.reflect, clang's AST) and compared member by member",
         "Descriptions: all combinations of member kind, access, alias, derived name and flags for one member, all argument and result types, all ordered pairs of argument types, pairs of members with 13 parameter lists, all enums of up to 4 of 4 names, callbacks with one and two methods over all types, seeded classes of 3 to 6 members; quick samples 3600 for Java and 1800 for C++, thorough up to all 10,000. Six Java packages. Overloading in C++ and overloads with callback arguments are refused or unsupported and excluded by the specification."),
 "G08": ("TLA+ Symbols.tla (TLC): the naming rules of the JNI specification (checked to be invertible), applied to the native methods reflected from generated classes; linked symbols, parameter kinds and results are compared with what the compiled glue exports; the C declarations of generated headers with the exported functions",
         "The generated classes of Api.tla (overloads by alias, underscores, digits, six packages) in groups of 450 classes: quick 6 groups for Java (8,000 native methods) and 4 for C++, thorough all. Symbols are read from the linked library (nm), Rust signatures by the compiler (type names, sizes), C ones by clang. ASCII names only."),
 "G09": ("TLA+ TypeMap.tla (TLC): types with registered conversion rules as stages x -> a*x+b; for every crossing the specification computes the values both sides see and which stages run in which order; every transition replayed into generated C++ and into a JVM, whose conversion code logs each stage",
         "Seeded sets of rules, quick 2 (thorough 16) for each of C++17, C++ with Boost, Java with and without null annotations (alternating in quick): C++ about 41 types with 88 registered rules, Java 24 with 68, over two type map files and the description, three values each, all positions; rules with foreign code per option, C structs with and without foreign code, generic types of the user, closures whose argument C++ receives as a future (resolved at once, later, or never before Rust calls); the variables of rules get random names that can be prefixes of each other, their code contains non-ASCII text and literals with separators, compared when they run. Every transition of the graphs is replayed (quick about 270,000). Java: callbacks only with rules without Java code, generic rules only outwards, which is what flapigen accepts. Generic rules are not nested around statement-form rules. Python has no user rules."),
 "G10": ("TLA+ Describe.tla (TLC) reads a description token by token and computes where each Rust item, body, piece of foreign_code and doc line has to arrive and what calls return; all short descriptions and long random ones are generated, the glue parsed (syn), the documentation read by javac's, clang's and Python's own tools, and the code compiled and run",
         "All files of up to 6 (thorough 7) tokens over 10 kinds (macro heads, members with and without inline bodies, foreign_code, doc comments, Rust items; Python has fewer), in seeded samples; long random files split over up to four sources; 30 kinds of Rust items (generics, unions, raw strings, macros, labels ...), 5 forms of doc comments with about 60 odd texts (comment ends, unicode escapes, backslashes, trigraphs, HTML, blank lines). Quick: 250 files each for Java and C++, 150 for Python; counts in the evidence. Attributes on flapigen's own macros are not described. Python: no inline bodies, no documentation of enum items."),
 "G03": ("TLA+ Determ.tla (TLC): every history of runs (inputs, parallel runs, new processes, working directories, directory contents, failed runs) up to the memory bound, each replayed into the real generator with the outcome given by the input alone; TLA+ Split.tla: every ordered partition of an item list into files",
         "Ten (thorough eleven) inputs of three languages and several options; every transition of the graph with memory 1 (thorough 2), time-limited in quick (counts in the evidence); all partitions of 7 items into up to 5 (thorough 6) files, empty ones included. Outcomes are byte-compared with one fresh run in an empty directory. Nondeterminism is detected when it shows in one of these runs."),
 "G06": ("TLA+ Attrs.tla (TLC) enumerates attribute/registration combinations; call log and file contents of the real generator compared",
         "Exhaustive over all uses of two attribute names on a fixed description (2 classes, 1 enum, 4 methods), up to 2 (thorough 3) uses and all registrations; budget-limited in quick, count in the evidence."),
 "G04": ("TLA+ ConvGraph.tla (TLC): every rule graph over the bound with its shortest distances; each graph is given to the real generator and the chains in the glue are compared, a sample is compiled and executed",
         "All graphs over 12 candidate rules on 3+2 types (4096) and seed-chosen long graphs with 7 types, both directions, Java and C++; budget-limited in quick (count in the evidence). Concrete rules only."),
 "G05": ("TLA+ Rules.tla (TLC): every registration history up to length 3 with the rules in force; replayed into the real generator, which rule produced each conversion is read from the glue",
         "Histories of at most 3 registrations over 8 pairs, 3 sources, plain and backend rules, overrides of built-in rules; type-map id clashes; budget-limited in quick."),
 "P30": ("TLA+ PyOwn.tla (TLC): state machine of Python variables, wrappers, garbage cycles, Rust objects and one kept by Rust; every transition replayed into the generated extension module in CPython, with values, identities, drops, owner counts and lock states compared after each step and freed Rust memory poisoned",
         "Exhaustive over the graph with 2 wrappers and 2 objects (thorough 3 and 3 plus random walks) for nine classes (Mutex with and without Clone, Copy, declared Mutex, Box with and without Clone, Arc, Arc<Mutex> with and without Clone). Objects are used from one Python thread, Rust's own thread uses the kept object. Known finding: one locked object given twice to a call hangs."),
 "P31": ("TLA+ Values.tla, Args.tla, Compound.tla and PyKinds.tla (TLC): every crossing of a set of values, signatures, compound values and values of a wrong kind, with the arriving value or the refusal computed by the specification; all replayed in CPython",
         "Simple types with boundary and seeded values (integers beyond the range, unknown enum numbers, unpaired surrogates), signatures with up to 7 arguments, compound types of Option, Result, Vec, slices and tuples, and all pairs of declared type and given kind of value. Wider types are sampled."),
}
NA = {}
