-------------------------------- MODULE Symbols --------------------------------
(* Which exported function a native Java method is linked to, and what that function takes: the naming rules of      *)
(* the JNI specification (chapter 2, "Resolving Native Method Names"). Texts are sequences of one-character           *)
(* strings; a character outside ASCII is given by its four hexadecimal digits.                                         *)
(* Mode "rules" enumerates native methods over a small alphabet and checks that the rules lose nothing;                *)
(* mode "recorded" walks through native methods reflected from generated classes and what the glue exports:              *)
(* File is [exported |-> <<name..>>, classes |-> <<[cls, ms |-> <<[name, args, ret]..>>]..>>].                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode, File, Alphabet, Len1, Len2

VARIABLE x

(* ------------------------------------------------------------------------------------------- rules *)
Hex(c) == [k \in 1 .. 4 |-> SubSeq(c, k, k)]
Esc(c) == CASE c = "_" -> <<"_", "1">> [] c = ";" -> <<"_", "2">> [] c = "[" -> <<"_", "3">> [] c \in {"/", "."} -> <<"_">> [] Len(c) = 4 -> <<"_", "0">> \o Hex(c) [] OTHER -> <<c>>
RECURSIVE Mangle(_, _), Args(_, _), Str(_, _)
Mangle(s, k) == IF k > Len(s) THEN <<>> ELSE Esc(s[k]) \o Mangle(s, k + 1)
Args(as, k) == IF k > Len(as) THEN <<>> ELSE Mangle(as[k], 1) \o Args(as, k + 1)
Short(cls, m) == Mangle(cls, 1) \o <<"_">> \o Mangle(m.name, 1)
Long(cls, m) == Short(cls, m) \o <<"_", "_">> \o Args(m.args, 1)
Str(s, k) == IF k > Len(s) THEN "" ELSE s[k] \o Str(s, k + 1)
Symbol(s) == "Java_" \o Str(s, 1)

(* the machine looks for the short name first *)
Linked(cls, m, exp) == IF Symbol(Short(cls, m)) \in exp THEN Symbol(Short(cls, m)) ELSE IF Symbol(Long(cls, m)) \in exp THEN Symbol(Long(cls, m)) ELSE ""
Overloaded(ms, k) == \E j \in DOMAIN ms : j # k /\ ms[j].name = ms[k].name
Name(cls, ms, k) == Symbol(IF Overloaded(ms, k) THEN Long(cls, ms[k]) ELSE Short(cls, ms[k]))

(* what a parameter of the descriptor is in Rust *)
Kind(a) == CASE a[1] = "Z" -> "u8" [] a[1] = "B" -> "i8" [] a[1] = "C" -> "u16" [] a[1] = "S" -> "i16" [] a[1] = "I" -> "i32" [] a[1] = "J" -> "i64" [] a[1] = "F" -> "f32"
             [] a[1] = "D" -> "f64" [] a[1] = "V" -> "()" [] a[1] \in {"L", "["} -> "*"
Kinds(m) == [args |-> <<"*", "*">> \o [k \in DOMAIN m.args |-> Kind(m.args[k])], ret |-> Kind(m.ret)]

(* ---------------------------------------------------------------------------- mode "rules": decoding *)
Words(n) == UNION {{s \in [1 .. k -> Alphabet] : s[1] \notin {"0", "1", "2", "3"}} : k \in 1 .. n}
Sigs == {<<>>, <<<<"I">>>>, <<<<"[", "I">>>>, <<<<"L", "a", ";">>>>, <<<<"L", "a", "/", "_", ";">>, <<"J">>>>, <<<<"[", "[", "L", "00fc", ";">>>>}
Texts == IF Mode = "rules" THEN {[cls |-> p \o <<"/">> \o c, m |-> [name |-> n, args |-> g, ret |-> <<"V">>]] : p \in Words(1), c \in Words(Len1), n \in Words(Len2), g \in Sigs} ELSE {}
(* reads a name back: "/" for the borders, "(" where the descriptor begins *)
RECURSIVE Read(_, _), Flat(_, _)
Read(s, k) == IF k > Len(s) THEN <<>>
              ELSE IF s[k] # "_" THEN <<s[k]>> \o Read(s, k + 1)
              ELSE CASE s[k + 1] = "1" -> <<"_">> \o Read(s, k + 2) [] s[k + 1] = "2" -> <<";">> \o Read(s, k + 2) [] s[k + 1] = "3" -> <<"[">> \o Read(s, k + 2)
                     [] s[k + 1] = "0" -> <<s[k + 2] \o s[k + 3] \o s[k + 4] \o s[k + 5]>> \o Read(s, k + 6)
                     [] s[k + 1] = "_" /\ (k + 2 > Len(s) \/ s[k + 2] \notin {"0", "1"}) -> <<"(">> \o Read(s, k + 2)
                     [] OTHER -> <<"/">> \o Read(s, k + 1)
Flat(as, k) == IF k > Len(as) THEN <<>> ELSE as[k] \o Flat(as, k + 1)
Decodes == Mode = "rules" => LET c == x.cls  m == x.m IN
           /\ Read(Short(c, m), 1) = c \o <<"/">> \o m.name
           /\ Read(Long(c, m), 1) = c \o <<"/">> \o m.name \o <<"(">> \o Flat(m.args, 1)

(* ----------------------------------------------------------------------------------- mode "recorded" *)
Rec == JsonDeserialize(File)
Exp == {Rec.exported[k] : k \in DOMAIN Rec.exported}
Verdict(c) == [cls |-> c.cls, ms |-> [k \in DOMAIN c.ms |-> [name |-> Name(c.cls, c.ms, k), linked |-> Linked(c.cls, c.ms[k], Exp), kinds |-> Kinds(c.ms[k])]]]

Init == x \in Texts \cup (IF Mode = "rules" THEN {} ELSE {Rec.classes[k] : k \in DOMAIN Rec.classes})
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Emit == Mode = "rules" \/ PrintT("D " \o ToJson(Verdict(x)))
================================================================================
