------------------------------- MODULE PyKinds --------------------------------
(* Which kinds of Python objects stand for a value of a Rust type, and calls with arguments of   *)
(* other kinds: they raise an exception and the Rust function does not run.                         *)
(* Types are as in Compound.tla. Mode "kind": object `kd` is given to a function with one argument     *)
(* of type TypeSeq[k]. Mode "call": in a call of signature k the arguments at `bad` are of another         *)
(* kind (0: the last argument is missing, 99: one argument too many).                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS TypeSeq, Sigs     \* Sigs: sequence of numbers of arguments
VARIABLES mode, k, kd, bad, called
vars == <<mode, k, kd, bad, called>>

Classes == {"Foo", "Cp", "Ar", "Sh", "Bx", "Bc"}
Seqs == [list |-> <<>>, tuple |-> <<>>, intlist |-> <<"int", "two">>, strlist |-> <<"str">>, mixlist |-> <<"int", "str", "none">>, half |-> <<"int", "float">>, str |-> <<"str">>, bytes |-> <<"byte">>]
Kinds == {"none", "true", "int", "big", "float", "dict", "object", "type"} \cup Classes \cup DOMAIN Seqs
Of == [ref |-> "Foo", rcp |-> "Cp", rar |-> "Ar", rsh |-> "Sh", rint |-> "i32", rstring |-> "string", ren |-> "En"]
Ints == {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize"}
RECURSIVE Takes(_, _)
Takes(t, o) ==
    LET n == IF Len(t) = 1 /\ t[1] \in DOMAIN Of THEN Of[t[1]] ELSE t[1]
    IN CASE n = "bool" -> o = "true"
         [] n \in Ints -> o \in {"int", "two", "true", "byte"}
         [] n = "En" -> o \in {"int", "two", "true"}       \* the constants are 0, 1 and 2
         [] n = "Ex" -> o \in {"int", "true"}              \* 0, 1, 7 and 70000; the byte is 120
         [] n \in {"f32", "f64"} -> o \in {"int", "two", "true", "big", "float", "byte"}
         [] n \in {"str", "string"} -> o = "str"
         [] n \in Classes -> o = n
         [] n = "opt" -> o = "none" \/ Takes(t[2], o)
         [] n \in {"vec", "slice"} -> o \in DOMAIN Seqs /\ \A i \in 1..Len(Seqs[o]) : Takes(t[2], Seqs[o][i])
Init == /\ called = FALSE
        /\ \/ mode = "kind" /\ k \in 1..Len(TypeSeq) /\ kd \in Kinds /\ bad = {}
           \/ mode = "call" /\ k \in 1..Len(Sigs) /\ kd = "" /\ bad \in {{i, j} : i, j \in 1..Sigs[k]} \cup {{0}, {99}}
Call == /\ ~called /\ mode = "kind" /\ Takes(TypeSeq[k], kd) /\ called' = TRUE /\ UNCHANGED <<mode, k, kd, bad>>
Next == Call
Spec == Init /\ [][Next]_vars
NotCalled == mode = "call" => ~called
Emit == PrintT("D " \o ToJson([mode |-> mode, k |-> k, kd |-> kd, bad |-> bad, called |-> mode = "kind" /\ Takes(TypeSeq[k], kd)]))
=============================================================================
