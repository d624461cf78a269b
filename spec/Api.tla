---------------------------------- MODULE Api ----------------------------------
(* Which members a described class must have in Java and in C++.                                          *)
(* The description of a class: [camel, clone, try, ms]: the derive flags, whether the constructors are fallible, and the    *)
(* members in order. A member: [k, acc, words, alias, args, ret] with k one of ctor, static, ref (&self),         *)
(* mut (&mut self), words the parts of its Rust name.                                                             *)
(* The description of an enum: [items], its constants in order; of a callback: [fns], each [name, args, ret].     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Opt, View, Var,     \* the C++ templates in use: std:: or boost::
          Extra               \* further descriptions (chosen by a seed)

VARIABLE d

(* ------------------------------------------------------------------------------------------- types *)
None == "-"
OptOf(x) == Opt \o "<" \o x \o ">"
VarOf(x, y) == Var \o "<" \o x \o ", " \o y \o ">"
Same(r, j, c) == [r |-> r, ji |-> j, jo |-> j, ci |-> c, co |-> c]
(* Rust, Java argument and result, C++ argument and result; "@" stands for the Java package *)
T == [ bool |-> Same("bool", "boolean", "bool"), i8 |-> Same("i8", "byte", "int8_t"), u8 |-> Same("u8", "short", "uint8_t"),
       i16 |-> Same("i16", "short", "int16_t"), u16 |-> Same("u16", "int", "uint16_t"), i32 |-> Same("i32", "int", "int32_t"),
       u32 |-> Same("u32", "long", "uint32_t"), i64 |-> Same("i64", "long", "int64_t"), u64 |-> Same("u64", "long", "uint64_t"),
       f32 |-> Same("f32", "float", "float"), f64 |-> Same("f64", "double", "double"),
       isize |-> Same("isize", None, "intptr_t"), usize |-> Same("usize", None, "uintptr_t"),
       str |-> Same("&str", "java.lang.String", View), string |-> [r |-> "String", ji |-> None, jo |-> "java.lang.String", ci |-> None, co |-> "RustString"],
       en |-> Same("En", "@.En", "En"),
       oref |-> [r |-> "&Restruct", ji |-> "@.Restruct", jo |-> None, ci |-> "const Restruct &", co |-> "RestructRef"],
       omut |-> [r |-> "&mut Restruct", ji |-> "@.Restruct", jo |-> None, ci |-> "Restruct &", co |-> None],
       own |-> Same("Restruct", "@.Restruct", "Restruct"), cp |-> Same("C_p", "@.C_p", "C_p"),
       ar |-> Same("Arc<Mutex<Ar>>", "@.Ar", "Ar"), arref |-> [r |-> "&Ar", ji |-> "@.Ar", jo |-> None, ci |-> "const Ar &", co |-> None],
       opti32 |-> [r |-> "Option<i32>", ji |-> "java.lang.Integer", jo |-> "java.util.OptionalInt", ci |-> OptOf("int32_t"), co |-> OptOf("int32_t")],
       opti64 |-> [r |-> "Option<i64>", ji |-> "java.lang.Long", jo |-> "java.util.OptionalLong", ci |-> OptOf("int64_t"), co |-> OptOf("int64_t")],
       optf64 |-> [r |-> "Option<f64>", ji |-> "java.lang.Double", jo |-> "java.util.OptionalDouble", ci |-> OptOf("double"), co |-> OptOf("double")],
       opten |-> [r |-> "Option<En>", ji |-> "@.En", jo |-> "java.util.Optional<@.En>", ci |-> OptOf("En"), co |-> OptOf("En")],
       optstr |-> [r |-> "Option<&str>", ji |-> "java.lang.String", jo |-> None, ci |-> OptOf(View), co |-> OptOf(View)],
       optref |-> [r |-> "Option<&Restruct>", ji |-> "@.Restruct", jo |-> None, ci |-> "const Restruct *", co |-> None],
       optown |-> [r |-> "Option<Restruct>", ji |-> None, jo |-> "java.util.Optional<@.Restruct>", ci |-> OptOf("Restruct"), co |-> OptOf("Restruct")],
       cb |-> [r |-> "Box<dyn Obs>", ji |-> "@.Obs", jo |-> None, ci |-> "std::unique_ptr<Obs>", co |-> None],
       sli32 |-> [r |-> "&[i32]", ji |-> "int[]", jo |-> "int[]", ci |-> "RustSlice<const int32_t>", co |-> "RustSlice<const int32_t>"],
       veci32 |-> [r |-> "Vec<i32>", ji |-> None, jo |-> "int[]", ci |-> "RustVeci32", co |-> "RustVeci32"],
       veccp |-> Same("Vec<C_p>", "@.C_p[]", "RustForeignVecC_p"),
       resi32 |-> [r |-> "Result<i32, String>", ji |-> None, jo |-> "int", ci |-> None, co |-> VarOf("int32_t", "RustString")],
       resunit |-> [r |-> "Result<(), String>", ji |-> None, jo |-> "void", ci |-> None, co |-> OptOf("RustString")],
       resown |-> [r |-> "Result<Restruct, String>", ji |-> None, jo |-> "@.Restruct", ci |-> None, co |-> VarOf("Restruct", "RustString")],
       unit |-> [r |-> "()", ji |-> None, jo |-> "void", ci |-> None, co |-> "void"] ]
Types == DOMAIN T
Throws == {"resi32", "resunit", "resown"}
Args == {t \in Types : T[t].ji # None \/ T[t].ci # None}
Rets == {t \in Types : T[t].jo # None \/ T[t].co # None}

(* ------------------------------------------------------------------------------------------- names *)
Caps == [get |-> "Get", value |-> "Value", x1 |-> "X1", a |-> "A", set |-> "Set", up |-> "Up"]
RECURSIVE Join(_), Tails(_)
Join(w) == IF Len(w) = 1 THEN w[1] ELSE w[1] \o "_" \o Join(Tail(w))
Tails(w) == IF w = <<>> THEN "" ELSE Caps[w[1]] \o Tails(Tail(w))
Camel(w) == w[1] \o Tails(Tail(w))
(* the name given explicitly, or made of the Rust name *)
Name(x, m) == IF m.alias # "" THEN m.alias ELSE IF x.camel THEN Camel(m.words) ELSE Join(m.words)

(* -------------------------------------------------------------------------------------- expected API *)
Ctors(x) == SelectSeq(x.ms, LAMBDA m : m.k = "ctor")
Meths(x) == SelectSeq(x.ms, LAMBDA m : m.k # "ctor")
NeedsSelf(x) == x.clone \/ \E i \in DOMAIN x.ms : x.ms[i].k # "static"
(* an object type without constructors is written with an empty private one *)
Dummy(x) == NeedsSelf(x) /\ Ctors(x) = <<>>
Map(s, f(_)) == [i \in DOMAIN s |-> f(s[i])]
J(m) == Map(m.args, LAMBDA t : T[t].ji)
C(m) == Map(m.args, LAMBDA t : T[t].ci)
CloneM == <<[k |-> "ref", acc |-> "public", words |-> <<"clone">>, alias |-> "", args |-> <<>>, ret |-> "self"]>>
All(x) == Meths(x) \o (IF x.clone THEN CloneM ELSE <<>>)
JRet(m) == IF m.ret = "self" THEN "@.Self" ELSE T[m.ret].jo
CRet(m) == IF m.ret = "self" THEN "Self" ELSE T[m.ret].co
(* annotations, when asked for: an argument is Nullable when it is an Option; every other reference is NonNull, results always *)
Primitive == {"bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "isize", "usize", "resi32", "unit", "resunit"}
Optional == {"opti32", "opti64", "optf64", "opten", "optstr", "optref", "optown"}
NullArg(t) == IF t \in Primitive THEN "" ELSE IF t \in Optional THEN "Nullable" ELSE "NonNull"
(* enums and arrays are left out in results *)
Plain == {"en", "sli32", "veci32"}
NullRes(t) == IF t \in Primitive \cup Plain THEN "" ELSE "NonNull"
NullArgs(m) == Map(m.args, NullArg)
Java(x) == [ctors |-> Map(Ctors(x), LAMBDA m : [acc |-> m.acc, args |-> J(m), nargs |-> NullArgs(m), throws |-> x.try])
                      \o (IF Dummy(x) \/ ~NeedsSelf(x) THEN <<[acc |-> "private", args |-> <<>>, nargs |-> <<>>, throws |-> FALSE]>> ELSE <<>>),
            methods |-> Map(All(x), LAMBDA m : [name |-> Name(x, m), acc |-> m.acc, static |-> m.k = "static", args |-> J(m), ret |-> JRet(m),
                                                               nargs |-> NullArgs(m), nret |-> IF m.ret = "self" THEN "NonNull" ELSE NullRes(m.ret), throws |-> m.ret \in Throws]),
            managed |-> NeedsSelf(x)]
Cpp(x) == [ctors |-> Map(Ctors(x), LAMBDA m : [acc |-> m.acc, args |-> C(m)])
                     \o (IF Dummy(x) THEN <<[acc |-> "private", args |-> <<>>]>> ELSE <<>>),
           methods |-> Map(All(x), LAMBDA m : [name |-> Name(x, m), acc |-> m.acc, static |-> m.k = "static", const |-> m.k = "ref", args |-> C(m), ret |-> CRet(m)]),
           managed |-> NeedsSelf(x)]

Overloads(ms, f(_)) == \E i, j \in DOMAIN ms : i < j /\ f(ms[i]) = f(ms[j])
(* what a native function takes: the pointer of the object first, numbers and pointers *)
Narrow(t) == IF t \in {"u32", "i64", "u64", "oref", "omut", "own", "cp", "ar", "arref", "optref"} THEN "J" ELSE IF t \in {"u16", "i32", "en"} THEN "I" ELSE IF t \in {"u8", "i16"} THEN "S" ELSE T[t].ji
Native(m) == (IF m.k \in {"ref", "mut"} THEN <<"J">> ELSE <<>>) \o Map(m.args, Narrow)
Key(x, m) == IF m.k = "ctor" \/ (m.k = "static" /\ Name(x, m) = "init") THEN <<"init">> ELSE <<"fn", Name(x, m)>>
JavaOk(x) == /\ \A i \in DOMAIN x.ms : (\A a \in DOMAIN x.ms[i].args : T[x.ms[i].args[a]].ji # None) /\ T[x.ms[i].ret].jo # None
             /\ NeedsSelf(x) => \A i \in DOMAIN x.ms : x.ms[i].k # "ctor" /\ x.ms[i].args = <<>> => Name(x, x.ms[i]) # "delete"
             /\ ~Overloads(Java(x).ctors, LAMBDA m : m.args)
             /\ ~Overloads(Java(x).methods, LAMBDA m : <<m.name, m.args>>)
             (* the native functions behind overloads must differ, too *)
             /\ \A i, j \in DOMAIN x.ms : i # j /\ Key(x, x.ms[i]) = Key(x, x.ms[j]) => Native(x.ms[i]) # Native(x.ms[j])
             (* reserved: the destructor's native function do_delete(long), the constructors' init(..) *)
             /\ NeedsSelf(x) => \A i \in DOMAIN x.ms : ~(x.ms[i].k # "ctor" /\ Name(x, x.ms[i]) = "delete" /\ Native(x.ms[i]) = <<"J">>)
             /\ \A i, j \in DOMAIN x.ms : x.ms[i].k \in {"ref", "mut"} /\ Name(x, x.ms[i]) = "init" /\ x.ms[j].k = "ctor" => Map(x.ms[i].args, Narrow) # Native(x.ms[j])
             (* an overloaded function cannot take a callback: flapigen refuses it *)
             /\ \A i, j \in DOMAIN x.ms : (i # j \/ (Dummy(x) /\ Key(x, x.ms[i]) = <<"init">>) \/ (NeedsSelf(x) /\ Key(x, x.ms[i]) = <<"fn", "delete">>)) /\ Key(x, x.ms[i]) = Key(x, x.ms[j]) => \A a \in DOMAIN x.ms[i].args : x.ms[i].args[a] # "cb"
(* overloading is by alias; the C functions behind C++ members are named after them, so there is none in C++ *)
CppOk(x) == /\ \A i \in DOMAIN x.ms : (\A a \in DOMAIN x.ms[i].args : T[x.ms[i].args[a]].ci # None) /\ T[x.ms[i].ret].co # None
            /\ ~Overloads(Cpp(x).ctors, LAMBDA m : m.args)
            /\ ~Overloads(x.ms, LAMBDA m : Name(x, m))
            /\ \A i \in DOMAIN x.ms : Name(x, x.ms[i]) # "delete"
            /\ ~x.try

(* -------------------------------------------------------------------------------------- descriptions *)
Kinds == {"ctor", "static", "ref", "mut"}
Accs == {"public", "protected", "private"}
Words == {<<"get">>, <<"get", "value">>, <<"a", "x1", "set">>, <<"set", "a">>}
M(k, acc, words, alias, args, ret) == [k |-> k, acc |-> acc, words |-> words, alias |-> IF k = "ctor" THEN "" ELSE alias, args |-> args, ret |-> IF k = "ctor" THEN "unit" ELSE ret]
Cls(camel, clone, try, ms) == [camel |-> camel, clone |-> clone, try |-> try, ms |-> ms]
Shapes == {Cls(camel, clone, try, <<M(k, acc, w, al, <<"i32">>, "i64")>>) : camel, clone, try \in BOOLEAN, k \in Kinds, acc \in Accs, w \in Words, al \in {"", "other", "get_up"}}
OneArg == {Cls(FALSE, FALSE, FALSE, <<M(k, "public", <<"get">>, "", <<t>>, "unit")>>) : k \in Kinds, t \in Args}
Placed == {Cls(FALSE, FALSE, FALSE, <<M("static", "public", <<"get">>, "", <<t, u>>, "unit")>>) : t, u \in Args}
OneRet == {Cls(FALSE, FALSE, FALSE, <<M(k, "public", <<"get">>, "", <<>>, t)>>) : k \in Kinds \ {"ctor"}, t \in Rets}
Lists == {<<>>, <<"i32">>, <<"i64">>, <<"en">>, <<"str">>, <<"own">>, <<"opti32">>, <<"cb">>, <<"sli32">>, <<"veccp">>, <<"i32", "str">>, <<"str", "i32">>, <<"ar", "cb">>, <<"opti64", "oref">>}
Pairs == {Cls(FALSE, FALSE, FALSE, <<M(k, "public", <<"get">>, "", a, "unit"), M(l, "public", IF n = "get" /\ k # "ctor" /\ l # "ctor" THEN <<"set">> ELSE <<"up">>, n, b, "unit")>>) :
             k, l \in {"ctor", "static", "ref"}, n \in {"get", "other", "delete", "init"}, a, b \in Lists}
Universe == Shapes \cup OneArg \cup Placed \cup OneRet \cup Pairs \cup Extra

(* ---------------------------------------------------------------------------------- enums, callbacks *)
Distinct(S, n) == {s \in [1 .. n -> S] : \A i, j \in 1 .. n : i # j => s[i] # s[j]}
Enums == {[items |-> s] : s \in UNION {Distinct({"Zz", "B1", "C_c", "aA"}, n) : n \in 1 .. 4}}
(* a callback's arguments come from Rust and its result goes to Rust; Java can receive and send less *)
Simple == {"bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"}
JArg(t) == IF t \in Simple \cup {"str", "string", "en", "own", "cp", "ar", "sli32", "veci32", "veccp"} THEN T[t].jo ELSE IF t \in {"isize", "usize"} THEN "long" ELSE None
JRes(t) == IF t \in Simple \cup {"unit"} THEN T[t].jo ELSE IF t = "usize" THEN "long" ELSE None
CArg(t) == CASE t \in {"oref", "omut"} -> "RestructRef" [] t = "optref" -> OptOf("RestructRef") [] t = "optstr" -> T[t].ci [] t \in {"arref", "cb", "unit"} -> None [] OTHER -> T[t].co
CRes(t) == CASE t \in {"cb", "oref", "omut", "arref", "optref"} -> None [] t = "string" -> View [] t = "resi32" -> VarOf("int32_t", View) [] t = "resunit" -> OptOf(View) [] t = "resown" -> VarOf("Restruct", View) [] T[t].ci = None -> T[t].co [] OTHER -> T[t].ci
F(n, a, r) == [name |-> n, mut |-> FALSE, args |-> a, ret |-> r]
FM(n, mu, a, r) == [name |-> n, mut |-> mu, args |-> a, ret |-> r]
Cbs == {[fns |-> <<F("onA", <<t>>, "unit")>>] : t \in Types} \cup {[fns |-> <<F("on_b", <<>>, t)>>] : t \in Types} \cup {[fns |-> <<F("a", <<t, u>>, "unit"), F("b", <<u>>, "i32")>>] : t, u \in Types}
       \cup {[fns |-> <<FM(n[1], mu[1], <<"i32", "str">>, "unit"), FM(n[2], mu[2], <<"str", "i32", "f64">>, "i64"), FM(n[3], mu[3], <<>>, r)>>] :
             n \in Distinct({"z", "onA", "m_1", "get"}, 3), r \in {"bool", "unit"}, mu \in [1 .. 3 -> BOOLEAN]}
JFns(x) == Map(x.fns, LAMBDA f : [name |-> f.name, args |-> Map(f.args, JArg), ret |-> JRes(f.ret), nargs |-> Map(f.args, NullArg), nret |-> NullRes(f.ret)])
CFns(x) == Map(x.fns, LAMBDA f : [name |-> f.name, const |-> ~f.mut, args |-> Map(f.args, CArg), ret |-> CRes(f.ret)])
Full(fs) == \A i \in DOMAIN fs : fs[i].ret # None /\ \A a \in DOMAIN fs[i].args : fs[i].args[a] # None

Init == d \in Universe \cup Enums \cup Cbs
IsClass(x) == "ms" \in DOMAIN x
Next == UNCHANGED d
Spec == Init /\ [][Next]_d

(* every declared member has exactly one counterpart, of its own access, and nothing else is there *)
Total == IsClass(d) =>
         /\ Len(Java(d).methods) = Len(Meths(d)) + (IF d.clone THEN 1 ELSE 0)
         /\ Len(Cpp(d).methods) = Len(Java(d).methods)
         /\ {m \in {Java(d).ctors[i] : i \in DOMAIN Java(d).ctors} : m.acc = "public"} = {[acc |-> "public", args |-> J(m), nargs |-> NullArgs(m), throws |-> d.try] : m \in {x \in {Ctors(d)[i] : i \in DOMAIN Ctors(d)} : x.acc = "public"}}
Emit == PrintT("D " \o ToJson(IF IsClass(d) THEN [d |-> d, java |-> Java(d), cpp |-> Cpp(d), jok |-> JavaOk(d), cok |-> CppOk(d)]
                               ELSE IF "items" \in DOMAIN d THEN [d |-> d, java |-> d.items, cpp |-> d.items, jok |-> TRUE, cok |-> TRUE]
                               ELSE [d |-> d, java |-> JFns(d), cpp |-> CFns(d), jok |-> Full(JFns(d)), cok |-> Full(CFns(d))]))
================================================================================
