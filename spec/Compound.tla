------------------------------- MODULE Compound -------------------------------
(* Values of compound types (Option, Result, tuples, vectors, objects inside) crossing   *)
(* the language border.                                                                     *)
(* A type is a sequence <<"opt", T>>, <<"pair", T, U>>, <<"tri", T, U, W>>, <<"res", T, E>>,    *)
(* <<"resu", E>> (Result<(), E>), <<"vec", T>> or a leaf <<name>>. A value is NONE/SOME, a tuple,   *)
(* OK/ERR or the number of a leaf value. k: the type under test, r: the value of that type which        *)
(* Rust keeps (<<>> = none).                                                                                *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANTS TypeSeq,      \* the types
          NoIn, NoOut,  \* types (numbers) which the language does not support in that direction
          NoCbIn, NoCbOut,  \* the same for callback results and arguments
          NoCb,         \* the language has no callbacks
          MaxVec,       \* length of the vectors
          Long          \* length of one long vector of each type (0: none)

VARIABLES k, r, act
vars == <<k, r, act>>

Leaf(t) == Len(t) = 1
Borrowed == {"str", "ref", "bytes", "path", "rint", "rstring", "ren", "rcp", "rar", "rsh"}
Objects == {"Foo", "Cp", "Ar", "Sh", "Bx", "Bc"}
RECURSIVE Owned(_), Vals(_), Objs(_, _)
Owned(t) == IF Leaf(t) THEN t[1] \notin Borrowed ELSE t[1] # "slice" /\ \A i \in 2..Len(t) : Owned(t[i])
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
Vals(t) ==
    CASE t[1] = "unit" -> {1}
      [] Leaf(t) -> {1, 2}
      [] t[1] = "opt" -> {[c |-> "N"]} \cup {[c |-> "S", v |-> x] : x \in Vals(t[2])}
      [] t[1] = "pair" -> {[c |-> "P", v |-> x, w |-> y] : x \in Vals(t[2]), y \in Vals(t[3])}
      [] t[1] = "tri" -> {[c |-> "T", v |-> x, w |-> y, z |-> u] : x \in Vals(t[2]), y \in Vals(t[3]), u \in Vals(t[4])}
      [] t[1] = "res" -> {[c |-> "O", v |-> x] : x \in Vals(t[2])} \cup {[c |-> "E", v |-> x] : x \in Vals(t[3])}
      [] t[1] = "resu" -> {[c |-> "U"]} \cup {[c |-> "E", v |-> x] : x \in Vals(t[2])}
      [] t[1] \in {"vec", "slice"} -> {[c |-> "V", v |-> x] : x \in Seqs(Vals(t[2]), MaxVec)}
(* a long vector: element i is the second one for some i, without a period below 21 *)
Odd(n) == {i \in 1..n : i % 3 = 0 \/ i % 7 = 1}
Longs(t) == IF t[1] \in {"vec", "slice"} /\ Long > 0 THEN LET x == CHOOSE x \in Vals(t[2]) : TRUE IN {[c |-> "L", n |-> Long, v |-> x, w |-> CHOOSE y \in Vals(t[2]) : Vals(t[2]) = {x} \/ y # x]} ELSE {}
All(t) == Vals(t) \cup Longs(t)
(* number of objects inside a value *)
Objs(t, x) ==
    CASE Leaf(t) -> IF t[1] \in Objects THEN 1 ELSE 0
      [] t[1] \in {"opt", "res", "resu"} -> (CASE x.c \in {"N", "U"} -> 0
                                             [] x.c \in {"S", "O"} -> Objs(t[2], x.v)
                                             [] x.c = "E" -> Objs(t[Len(t)], x.v))
      [] t[1] = "pair" -> Objs(t[2], x.v) + Objs(t[3], x.w)
      [] t[1] = "tri" -> Objs(t[2], x.v) + Objs(t[3], x.w) + Objs(t[4], x.z)
      [] t[1] \in {"vec", "slice"} /\ x.c = "L" -> LET o == Cardinality(Odd(x.n)) IN (x.n - o) * Objs(t[2], x.v) + o * Objs(t[2], x.w)
      [] t[1] \in {"vec", "slice"} /\ x.c = "V" -> IF x.v = <<>> THEN 0 ELSE LET h[i \in 1..Len(x.v)] == Objs(t[2], x.v[i]) + (IF i = 1 THEN 0 ELSE h[i - 1]) IN h[Len(x.v)]

T == TypeSeq[k]
N(x) == IF x = <<>> THEN 0 ELSE Objs(T, x[1])
Init == k \in 1..Len(TypeSeq) /\ r = <<>> /\ act = [op |-> "init"]

(* born: objects created in this step, r2: what Rust keeps, seen: the value that must arrive on the other side *)
Step(op, seen, born, r2) ==
    /\ r' = r2 /\ k' = k
    /\ act' = [op |-> op, v |-> seen, born |-> born, dropped |-> N(r) + born - N(r2)]

Keep(x) == IF Owned(T) THEN <<x>> ELSE r
Out(x) == k \notin NoOut /\ Step("out", x, Objs(T, x), r)
Discard(x) == k \notin NoOut /\ Step("discard", x, Objs(T, x), r)
Moved(x) == k \notin NoOut /\ Step("moved", x, Objs(T, x), r)
In(x) == k \notin NoIn /\ Step("in", x, Objs(T, x), Keep(x))
Give == k \notin NoOut /\ r # <<>> /\ Step("give", r[1], 0, <<>>)
Echo(x) == k \notin NoOut /\ k \notin NoIn /\ Step("echo", x, Objs(T, x), r)
CbArg(x) == ~NoCb /\ k \notin NoCbOut /\ Step("cbarg", x, Objs(T, x), r)
CbRet(x) == ~NoCb /\ k \notin NoCbIn /\ Step("cbret", x, Objs(T, x), Keep(x))
CbEcho(x) == ~NoCb /\ k \notin NoCbOut /\ k \notin NoCbIn /\ Owned(T) /\ Step("cbecho", x, Objs(T, x), r)
DropR == r # <<>> /\ Step("dropr", r[1], 0, <<>>)

Next == \/ \E x \in All(T) : Out(x) \/ Discard(x) \/ Moved(x) \/ In(x) \/ Echo(x) \/ CbArg(x) \/ CbRet(x) \/ CbEcho(x)
        \/ Give \/ DropR
Spec == Init /\ [][Next]_vars

(* objects exist exactly while they are inside the kept value *)
Conserved == [][act'.dropped >= 0 /\ N(r') = N(r) + act'.born - act'.dropped]_vars
(* what Rust keeps is what was sent *)
Lossless == [][act'.op \in {"in", "cbret"} /\ Owned(T) => r' = <<act'.v>>]_vars
TypeOK == r = <<>> \/ r[1] \in All(T)
NothingBorrowed == r # <<>> => Owned(T)

St == [k |-> k, r |-> r]
view == St
EmitInit == (TLCGet("level") > 1) \/ PrintT("I " \o ToJson(St))
EmitEdge == PrintT("E " \o ToJson([f |-> St, a |-> act', t |-> St']))
===============================================================================
