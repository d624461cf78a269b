--------------------------------- MODULE Split --------------------------------
(* Every way of writing a list of items to source files in the same order: files may be empty.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Items, MaxFiles
VARIABLE cut
(* file k holds the items cut[k-1]+1 .. cut[k] *)
Cuts == UNION {{c \in [1..k -> 0..Items] : c[k] = Items /\ \A i \in 1..(k - 1) : c[i] <= c[i + 1]} : k \in 1..MaxFiles}
File(c, k) == LET lo == IF k = 1 THEN 0 ELSE c[k - 1] IN [i \in 1..(c[k] - lo) |-> lo + i]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Files(c) == [k \in DOMAIN c |-> File(c, k)]
Init == cut \in Cuts
Next == UNCHANGED cut
Spec == Init /\ [][Next]_cut
(* nothing is lost, doubled or reordered *)
SameItems == Cat(Files(cut)) = [i \in 1..Items |-> i]
Emit == PrintT("D " \o ToJson([files |-> Files(cut), out |-> 1]))
===============================================================================
