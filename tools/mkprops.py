import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="macroslib/src/"
p("G01","Output tree is synchronised with the last successful run",
 "After a successful generator run every generated file, Rust glue and foreign, has exactly the content that the same run would give in an empty directory, whatever earlier runs or hand edits left there. A file whose content already is right is not written (its modification time is kept). With the remove-not-generated option exactly those regular files directly in the output directory that have the language's generated extension (.java; .h and .hpp) and are not outputs of this run are deleted, and without the option nothing is deleted; files of other extensions, other directories and sub-directories are never touched.",
 ["histories","configurations"],"every sequence of generator runs with changing inputs and options, interleaved with edits, deletions and foreign files in the output directory",
 "tests generate once into a fresh directory; none runs a second generation over an existing tree or checks modification times or which files get deleted",
 [S+"file_cache.rs",S+"java_jni/mod.rs",S+"cpp/mod.rs",S+"typemap/utils.rs",S+"lib.rs"],
 [("FileWriteCache::update_file_if_necessary",S+"file_cache.rs"),("remove_files_if",S+"typemap/utils.rs"),("expand_items remove step",S+"java_jni/mod.rs, "+S+"cpp/mod.rs")],
 [("generated_foreign_files","paths written by this run",S+"java_jni/mod.rs")],"the output directory and the Rust destination file after each run")
p("G02","A rejected input fails loudly and leaves earlier outputs in place",
 "A run over an invalid description (malformed macro, method that needs a self type without one, object constructor missing, unknown derive or method attribute, type with no conversion, duplicate conflicting rule, and so on) ends in a panic with a diagnostic, never in a successful return. Such a failed run does not create or modify the Rust destination file and deletes no file from the output directory, so the previous successful result stays usable and a later corrected run succeeds as if the failed one had not happened. A run over a valid description that fails only because the glue cannot be formatted (rustfmt_bindings is on and rustfmt cannot be run) does not create or modify the Rust destination file either.",
 ["histories","inputs"],"every invalid description of the listed kinds at every position in a history of successful and failing runs",
 "tests feed a few invalid inputs once and only check that a panic happens, not what it leaves on disk nor what a following run does",
 [S+"lib.rs",S+"code_parse.rs",S+"error.rs",S+"extension.rs",S+"types.rs",S+"typemap/utils.rs"],
 [("Generator::expand_str writes the glue last",S+"lib.rs"),("panic_on_parse_error",S+"error.rs"),("validate_class",S+"types.rs")],None,"return/panic of Generator::expand and the file tree")
p("G03","Generation is a function of its inputs",
 "Two runs with the same descriptions, rules and options produce byte-identical Rust and foreign files, in whichever process or directory they run, whatever else was generated earlier in the same process, and whatever the output directory contained. Splitting the same items over several source files given in the same order changes no foreign file.",
 ["histories","configurations","programs"],"all histories of runs in one process and across processes, all partitions of a description into ordered source files",
 "tests compare a single run with expected fragments; hash-order or leaked state between runs only shows when runs are repeated and compared in full",
 [S+"lib.rs",S+"typemap.rs",S+"cpp/mod.rs",S+"java_jni/find_cache.rs",S+"source_registry.rs"],
 [("FxHash based maps",S+"typemap.rs"),("Generator owns all state",S+"lib.rs"),("expand_many",S+"lib.rs")],None,"all files written by Generator::expand/expand_many")
p("G04","Type conversion takes a shortest chain of registered rules or is refused",
 "For a method argument or result whose Rust type is not directly known to the foreign language, the generated Java or C++ glue applies a chain of registered conversion rules, each one applied to the type the previous one produced, in call direction, that leads between the Rust type and a type the foreign language knows, and no chain of rules between concrete (non-generic) types with fewer steps exists. A generic rule (<T> W1<T> => W2<T>) serves every type it fits, except a pair of types that has a concrete rule of its own: when some chain of at most six steps exists that needs generic rules, the glue applies a chain of registered rules too. If no chain at all exists generation is refused.",
 ["inputs","programs"],"all sets of r_type/f_type conversion rules (directed graphs, cycles and dead ends included), both directions, all queries",
 "tests use the fixed built-in rules and a handful of paths; shortest-path and no-path behaviour over arbitrary rule graphs is never sampled",
 [S+"typemap.rs",S+"typemap/merge.rs",S+"typemap/parse.rs",S+"typemap/ast.rs",S+"typemap/utils.rs"],
 [("find_conversion_path",S+"typemap.rs"),("try_build_path",S+"typemap.rs"),("map_through_conversion_to_foreign",S+"typemap.rs")],
 [("conv_graph","types and one-step conversions",S+"typemap.rs")],"conversion statements in the generated Rust glue, and success/failure of the run")
p("G05","The latest rule wins and rules accumulate",
 "A conversion rule given later, by merge_type_map or in a description, for a pair of Rust types that already has one replaces it, and rules for other pairs stay in force. Two foreign_typemap rules of one source that give one foreign type a conversion with foreign-side code for different Rust types in the same direction are refused, and so is a second type map with an id already used; the built-in rules stay in force for everything not overridden.",
 ["inputs","histories"],"all sequences of rule registrations over a small set of types, with overrides at every position",
 "tests cover single overrides of fixed types; the effect of a sequence of registrations is not explored",
 [S+"typemap/merge.rs",S+"typemap/parse.rs",S+"source_registry.rs",S+"lib.rs"],
 [("TypeMap::merge / merge_conv_rule",S+"typemap/merge.rs"),("validate_rule_rewrite",S+"typemap/merge.rs"),("SourceRegistry::register",S+"source_registry.rs")],None,"generated glue and success/failure of the run")
p("G06","Attribute callbacks run exactly once per use and see the full code",
 "In Java and C++ a registered class, enum or method attribute callback is called exactly once per generated file (one for a class; for a C++ enum the C header and the C++ header) for every class, enum or method carrying that attribute, with the right class, enum and method name (and variant), after the complete foreign code of that item has been generated, and never for others; what it writes into the buffer is what ends up in the file. An attribute without a registered callback makes the run fail; registering a name twice or a reserved class name panics.",
 ["inputs","configurations"],"all combinations of registered callbacks and attributes on several classes, enums and methods, for Java and C++",
 "tests use one callback on one class; multiplicity, order and buffer content across several items are not checked",
 [S+"extension.rs",S+"java_jni/fclass.rs",S+"java_jni/fenum.rs",S+"cpp/fclass.rs",S+"cpp/fenum.rs",S+"lib.rs"],
 [("extend_foreign_class / extend_foreign_enum",S+"extension.rs"),("register_*_attribute_callback",S+"lib.rs")],None,"callback invocations and generated foreign files")
p("G07","The generated foreign API mirrors the description",
 "For every class the generated Java or C++ class has exactly one constructor per declared constructor and exactly one method per declared method, with the declared (or alias, or camel-case derived) name, the declared access level, static or instance as declared, and parameters and result whose foreign types correspond in order to the declared Rust types; an enum has exactly the declared constants in order, and a callback interface exactly the declared methods. Nothing else callable is public besides the documented object-management members.",
 ["programs","inputs"],"all class, enum and callback descriptions over the supported type vocabulary, with overloads, aliases and access modifiers",
 "tests check fragments of the output for fixed examples; completeness and absence of extra, missing, swapped or renamed members over arbitrary descriptions is not checked",
 [S+"code_parse.rs",S+"types.rs",S+"java_jni/fclass.rs",S+"java_jni/java_code.rs",S+"cpp/fclass.rs",S+"cpp/cpp_code.rs",S+"java_jni/finterface.rs",S+"cpp/finterface.rs"],
 [("do_parse_foreigner_class",S+"code_parse.rs"),("java generate",S+"java_jni/fclass.rs"),("cpp generate",S+"cpp/fclass.rs")],None,"reflection over compiled Java classes; compiled use of C++ headers")
p("G08","Every native Java method has exactly one exported Rust entry point",
 "For every native method of every generated Java class the Rust glue exports exactly one function under the name the JNI rules give to that method (escaped package, class and method, plus the escaped signature when overloaded), with a matching parameter list, and no two of them collide; nothing is exported for methods the Java side does not declare. Likewise each C declaration in the generated C++ headers has exactly one exported Rust function of that name.",
 ["programs","inputs"],"all descriptions with overloaded names, underscores, digits and non-trivial packages over the supported type vocabulary",
 "tests link the one fixture crate; a mangling error only shows for particular names, packages or overload signatures",
 [S+"java_jni/rust_code.rs",S+"java_jni/fclass.rs",S+"cpp/fclass.rs"],
 [("generate_jni_func_name",S+"java_jni/rust_code.rs"),("method overload table",S+"java_jni/fclass.rs"),("c_func_name",S+"cpp/fclass.rs")],None,"native methods of the compiled Java classes versus exported functions of the glue; C prototypes versus exported functions")
p("G09","Conversion rules written by the user run exactly as written",
 "A type with user-written conversion rules (foreign_typemap! items in the description or in merged type map files; Rust-side code, foreign-side code, or both; to a built-in type, to another type with such rules, for one instance of a generic type, or generic) is converted at every crossing by the code of the rules in force for its direction, each exactly once and in call order: into Rust the foreign-side code and then the Rust-side code of the rule (of the type a rule leads to first), out of Rust the other way round. This holds (with the code of the option set, where foreign-side code is given per configuration option) in every position: argument and result of functions, methods and constructors, the success value of a Result, inside Option, pairs and generic types of the user, arguments and results of callbacks, and values passed to closures; a missing value or an error runs no conversion code of the value. For each type and direction the rule registered last is in force.",
 ["inputs","programs"],"all mixes of rule kinds, registration layers and positions of use, over all values tried",
 "the tests look for fragments of generated text for a handful of rules and never run generated C++ with rules of their own",
 [S+"typemap.rs",S+"typemap/merge.rs",S+"typemap/typemap_macro.rs",S+"typemap/ty.rs",S+"java_jni/map_type.rs",S+"cpp/map_type.rs",S+"cpp/fclass.rs",S+"cpp/finterface.rs",S+"java_jni/fclass.rs"],
 [("merge of rules",S+"typemap/merge.rs"),("expand_ftype / expand_rtype",S+"typemap/typemap_macro.rs"),("java map_type",S+"java_jni/map_type.rs"),("cpp map_type",S+"cpp/map_type.rs")],None,"values and the order of executed conversion steps seen by a C++ program or a JVM")
p("G10","What the user wrote in a description arrives as written, where it belongs",
 "Rust items outside of flapigen's macros arrive in the Rust glue unchanged, each once and in the order of the files and items; the body of an inline function runs when its generated counterpart is called (with its own arguments, also where a function of the same name exists), and other functions call exactly the Rust function they name. The foreign_code of a class arrives in that class, complete and in order. Doc comments (of classes, constructors, functions, enums, enum items, callbacks and their functions, in any form Rust allows, any text) arrive line by line as documentation of the counterpart of what they document (Python: of classes and functions) and of nothing else, and no text in them changes the code.",
 ["inputs","programs"],"all short files of macros, members, doc comments and Rust items in any order, and long files with random texts, split over several files",
 "the tests look for fragments of output for fixed descriptions with harmless texts",
 [S+"code_parse.rs",S+"lib.rs",S+"java_jni/java_code.rs",S+"java_jni/fclass.rs",S+"java_jni/fenum.rs",S+"java_jni/finterface.rs",S+"cpp/cpp_code.rs",S+"cpp/fclass.rs",S+"cpp/fenum.rs",S+"cpp/finterface.rs",S+"python/mod.rs",S+"extension.rs"],
 [("expand_str / items outside of macros",S+"lib.rs"),("parse_doc_comments",S+"code_parse.rs"),("doc_comments_to_java_comments",S+"java_jni/java_code.rs"),("doc_comments_to_c_comments",S+"cpp/cpp_code.rs")],None,"parsed items of the glue, results of executed code, documentation as the javac/clang parsers and Python see it")
p("C10","C++ object wrappers own each Rust object exactly once",
 "Through any sequence of construction, move, copy, assignment (also to itself), release, adoption, by-value, reference and Option passing, and destruction of generated C++ wrapper objects, every Rust object is dropped exactly once, when its last owner goes away, and never used after that. A moved-from or released wrapper owns nothing, a non-owning Ref wrapper never drops, a Copy class copies the value so that the copies are independent, and a SmartPtrCopy class shares one object.",
 ["histories","programs"],"all bounded interleavings of wrapper operations over several variables and classes of each ownership kind",
 "the C++ suite needs an absent gtest and is not among the running tests; even it exercises a few linear histories",
 [S+"cpp/fclass.rs",S+"cpp/map_class_self_type.rs",S+"cpp/cpp-include.rs"],
 [("generated class wrapper: move/copy/release/free_mem",S+"cpp/fclass.rs"),("register_typemap_for_self_type",S+"cpp/map_class_self_type.rs"),("box_object / unpack",S+"cpp/cpp-include.rs")],
 [("self_","pointer held by the C++ wrapper",S+"cpp/fclass.rs")],"Rust-side drop log and values read through the wrappers")
p("C11","C++ containers behave as sequences and own their elements once",
 "RustVec, RustForeignVec, RustSlice, RustForeignSlice and the Vec/slice access types returned to or passed from C++ behave as the Rust sequence they stand for under size, empty, index, iteration, iterator arithmetic, push, remove, clear, move and mutation through a mutable slice. This holds for vectors, slices and strings from Rust, for default constructed and for moved-from ones (which are empty and usable), for elements of any non-zero size and alignment; each element is dropped exactly once, when the one container holding it is destroyed, cleared or overwritten or the element is removed. (Moving a container into itself is not covered.)",
 ["histories","inputs"],"all bounded sequences of container operations, lengths from zero up, for primitive and object elements",
 "not run at all by the running tests; the upstream C++ tests touch only a few lengths and never the moved-from or default states",
 [S+"cpp/rust_vec_impl.hpp",S+"cpp/rust_foreign_vec_impl.hpp",S+"cpp/rust_foreign_slice_impl.hpp",S+"cpp/rust_foreign_slice_iter.hpp",S+"cpp/rust_slice_tmpl.hpp",S+"cpp/cpp-include.rs"],
 [("RustForeignVec",S+"cpp/rust_foreign_vec_impl.hpp"),("RustVec",S+"cpp/rust_vec_impl.hpp"),("CRustForeignVec::*",S+"cpp/cpp-include.rs")],None,"values observed from C++ and the Rust-side drop log")
p("C12","C++ value conversions are lossless in both directions",
 "Every value of each supported primitive type (bool, all fixed-width integers, usize/isize, floats, C integer types), string (empty, embedded NUL, multi-byte), path, enum and repr(C) struct passed from C++ to Rust arrives as the same value, in the declared argument position, and every value returned or passed to a callback arrives in C++ as the same value, in every standard-library or Boost configuration.",
 ["inputs","configurations"],"all boundary values of every type, in every argument position, both directions, the std and the Boost string-view, optional and variant configurations",
 "the running tests never execute C++ conversions except a small example",
 [S+"cpp/cpp-include.rs",S+"cpp/map_type.rs",S+"cpp/cpp_code.rs",S+"cpp/fenum.rs",S+"cpp/rust_str.hpp"],
 [("primitive and string rules",S+"cpp/cpp-include.rs"),("convert_args",S+"cpp/cpp_code.rs"),("generate_enum",S+"cpp/fenum.rs")],None,"values logged by Rust and by C++")
p("C13","C++ Option, Result and tuple conversions keep the case and the payload",
 "An Option, Result or tuple crossing between C++ and Rust in either direction keeps its case (Some/None, Ok/Err), its payload value and its component order, for every supported payload type, and the payload's ownership is transferred exactly once: nothing leaks and nothing is dropped twice, whichever case is taken and whether or not the C++ side inspects it.",
 ["inputs","configurations","histories"],"all cases of all supported payload types, standard and Boost flavours, and all orders of inspecting, moving and discarding the result",
 "not executed by the running tests",
 [S+"cpp/cpp-include.rs",S+"cpp/map_type.rs"],
 [("Option/Result/tuple foreign_typemap rules",S+"cpp/cpp-include.rs")],None,"values observed on both sides and the Rust-side drop log")
p("C14","C++ callbacks live exactly as long as Rust holds them",
 "A C++ callback object handed to Rust by unique pointer is destroyed exactly once, when Rust drops it, and is never called afterwards; one handed over by reference is never destroyed by Rust. Every call from Rust reaches the method that corresponds in the description, on that object, with the arguments in order and unchanged, and returns its result to Rust.",
 ["histories","schedules"],"all bounded histories of creating, passing, storing, replacing, calling and dropping callbacks from one or several threads",
 "not executed by the running tests, which only compare generated text",
 [S+"cpp/finterface.rs",S+"cpp/cpp-include.rs"],
 [("generate_interface: C struct of function pointers, opaque and deref",S+"cpp/finterface.rs")],
 [("opaque","pointer to the C++ object",S+"cpp/finterface.rs")],"C++ destructor log, call log and Rust results")
p("C15","C++ methods act on the one shared object behind a smart pointer",
 "For classes whose constructor returns a plain value, Box, Rc, Arc, RefCell, Mutex, Rc<RefCell>, Rc<Mutex>, Arc<Mutex> or a boxed trait object, every method call and every reference argument acts on the object the wrapper was created for: changes made through one handle are seen through all handles sharing it and through no other, borrows and locks taken for a call are released when the call returns, and reference counts return to their earlier value.",
 ["histories","programs"],"all bounded sequences of calls, copies and argument passing over handles of every self-type kind",
 "not executed by the running tests",
 [S+"cpp/map_class_self_type.rs",S+"cpp/cpp-include.rs",S+"cpp/fclass.rs",S+"typemap.rs"],
 [("register_typemap_for_self_type",S+"cpp/map_class_self_type.rs"),("swig_deref rules",S+"cpp/cpp-include.rs")],None,"values read through handles, lock state and counts logged by Rust")
p("J20","Java object wrappers own each Rust object exactly once",
 "Through any sequence of construction (also failing), method calls, argument passing by reference, by value and as Option, returning, delete() and garbage collection of generated Java objects, every Rust object is dropped at most once, exactly once if its wrapper is deleted, finalised or moved out, and never used after that. Passing a non-copy object by value empties the Java wrapper, so that a later delete or finalisation does nothing; a Copy or SmartPtrCopy argument (outside Option, which always takes the object) leaves the caller's wrapper usable.",
 ["histories","schedules"],"all bounded histories of wrapper operations over several objects of each ownership kind, including finalisation at any point after an object becomes unreachable",
 "tests run fixed scripts and one drop counter; they do not explore orders of delete, move and finalisation",
 [S+"java_jni/fclass.rs",S+"java_jni/map_class_self_type.rs",S+"java_jni/jni-include.rs"],
 [("generated delete/finalize/mNativeObj",S+"java_jni/fclass.rs"),("register_typemap_for_self_type",S+"java_jni/map_class_self_type.rs"),("SwigForeignClass box/unbox",S+"java_jni/jni-include.rs")],
 [("mNativeObj","native pointer, 0 once moved out or deleted",S+"java_jni/fclass.rs")],"Rust-side drop log and values read through the wrappers")
p("J21","Java value conversions are lossless or refused",
 "Every value of each supported primitive type, string (empty, embedded NUL, supplementary characters), path, date/time (to the millisecond) and enum crosses between Java and Rust in each supported direction unchanged and in the declared argument position; unsigned Rust types are carried in the next wider Java type, and a Java value outside the Rust type's range never reaches Rust as a different in-range value.",
 ["inputs"],"all boundary values of every type in every argument position, both directions, in methods and callbacks",
 "tests try one or two ordinary values per type; boundary and out-of-range values are not tried",
 [S+"java_jni/jni-include.rs",S+"java_jni/map_type.rs",S+"java_jni/fclass.rs",S+"java_jni/fenum.rs"],
 [("integer, string and enum rules",S+"java_jni/jni-include.rs"),("generate_enum",S+"java_jni/fenum.rs")],None,"values logged by Rust and by Java")
p("J22","Java Option, Result and array conversions keep the case and the payload",
 "An Option, Result, Vec or slice crossing between Java and Rust keeps presence, success or failure, length, order and every payload value, for every supported payload type: None is an empty Optional or null, Err throws an exception carrying the error's message and returns nothing, and Java callers see no leftover exception otherwise. Payload ownership is transferred exactly once in every case.",
 ["inputs","histories"],"all cases and lengths for all supported payload types, in sequences that mix successes and failures",
 "tests try one value per case; mixtures after a failure, empty and null cases for every payload type are not covered",
 [S+"java_jni/jni-include.rs",S+"java_jni/map_type.rs",S+"java_jni/fclass.rs"],
 [("Option/Result/Vec rules",S+"java_jni/jni-include.rs"),("jni_throw_exception",S+"java_jni/jni-include.rs")],None,"values observed on both sides, exceptions, Rust-side drop log")
p("J23","Java callbacks dispatch correctly from any thread and are released once",
 "A Java callback stored by Rust stays reachable until Rust drops it and becomes collectable after that. A call from any Rust thread, attached to the VM or not, reaches the corresponding Java method of that object exactly once with the arguments in order, returns its result, leaves the thread attached exactly if it was attached before, and an exception thrown by the Java method does not stay pending in the calling thread nor break later calls.",
 ["schedules","histories"],"all bounded histories of registering, calling from several threads, throwing, replacing and dropping callbacks",
 "tests make a few calls from one extra thread and never check attachment, release or exceptions",
 [S+"java_jni/finterface.rs",S+"java_jni/jni-include.rs",S+"java_jni/find_cache.rs"],
 [("JavaCallback::get_jni_env / Drop",S+"java_jni/jni-include.rs"),("generate_interface",S+"java_jni/finterface.rs"),("JNI_OnLoad method cache",S+"java_jni/rust_code.rs")],
 [("this","global reference to the Java object",S+"java_jni/jni-include.rs")],"Java call log, thread attachment probes, weak references")
p("J24","Java methods act on the one shared object behind a smart pointer",
 "For classes whose constructor returns a plain value, Box, Rc, Arc, Rc<RefCell>, Arc<Mutex> or similar, every method call and every reference argument acts on the object the Java wrapper was created for: changes made through one handle are seen through all handles sharing it and through no other, borrows and locks are released when the call returns, and reference counts return to their earlier value once wrappers are deleted.",
 ["histories","programs"],"all bounded sequences of calls, returned handles and argument passing over handles of every self-type kind",
 "tests make single calls on one handle",
 [S+"java_jni/map_class_self_type.rs",S+"java_jni/jni-include.rs",S+"typemap.rs"],
 [("register_typemap_for_self_type",S+"java_jni/map_class_self_type.rs"),("swig_deref rules",S+"java_jni/jni-include.rs")],None,"values read through handles, lock state and counts logged by Rust")
p("P30","Python objects share, copy and release Rust objects as declared",
 "Through any sequence of construction, method calls, argument passing and deletion of Python objects, each Rust object is dropped exactly once, when the last Python or Rust owner goes away; classes behind Arc or Arc<Mutex> share one object between Python and Rust, and passing or returning a Clone or Copy class by value, or returning one by reference, makes an independent copy that leaves the original usable. Changes made through one handle are seen exactly by the handles sharing the object, and locks taken for a call are released when it returns.",
 ["histories","programs"],"all bounded histories over objects of every storage kind (Mutex, Box, Arc, Arc<Mutex>)",
 "tests run a short fixed script and never look at drops or at sharing histories",
 [S+"python/mod.rs"],
 [("storage_smart_pointer_for_class",S+"python/mod.rs"),("generate_deref_for_*",S+"python/mod.rs"),("if_exported_class_generate_return_conversion",S+"python/mod.rs")],None,"Rust-side drop log and values read from Python")
p("P31","Python value conversions keep value, case and order or raise",
 "Every value of the supported types (bool, integers, floats, strings, enums, Option, Vec, slices, tuples, Result) crosses between Python and Rust in both directions unchanged and in the declared argument position. An integer outside the Rust type's range, a number that is no enum constant, a string with an unpaired surrogate or a value of the wrong kind raises a Python exception and the Rust function is not called; an Err result raises the module's Error with the error text and its chain of causes, and later calls work normally.",
 ["inputs","histories"],"all boundary and out-of-range values of every type in every argument position, in sequences mixing failures and successes",
 "tests try one ordinary value per type and one error",
 [S+"python/mod.rs",S+"python/python-include.rs"],
 [("generate_conversion_for_argument/return",S+"python/mod.rs"),("swig_collect_error_message",S+"python/python-include.rs")],None,"values logged by Rust and by Python, exceptions")
ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=x["statement"].count(". ")+1
    assert n<=3,(x["id"],n)
open("/verif/properties.jsonl","w").write("\n".join(json.dumps(x) for x in P)+"\n")
print(len(P))
