------------------------------ MODULE ConvGraph ------------------------------
(* Conversion between Rust types as a path search over registered rules.      *)
(* g is a set of rules <<x, y>> ("x is converted to y"); Known are the types   *)
(* the foreign language has. The search expands one step at a time; `lay` gives *)
(* each type reached so far the number of steps to the nearest known type.     *)
(* (Results are converted along rules; arguments against them: the harness     *)
(* mirrors the graph for the argument direction.)                               *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANTS Types, Known, Cand
VARIABLES g, lay, fin

None == 99
Nodes == Types \cup Known

Init == /\ g \in SUBSET Cand
        /\ lay = [n \in Nodes |-> IF n \in Known THEN 0 ELSE None]
        /\ fin = FALSE

Depth == CHOOSE d \in {lay[n] : n \in Nodes} \ {None} : \A n \in Nodes : lay[n] = None \/ lay[n] <= d
New == {n \in Types : lay[n] = None /\ \E m \in Nodes : <<n, m>> \in g /\ lay[m] # None}

Expand == /\ ~fin /\ New # {}
          /\ lay' = [n \in Nodes |-> IF n \in New THEN Depth + 1 ELSE lay[n]]
          /\ UNCHANGED <<g, fin>>
Finish == /\ ~fin /\ New = {} /\ fin' = TRUE /\ UNCHANGED <<g, lay>>
Next == Expand \/ Finish
Spec == Init /\ [][Next]_<<g, lay, fin>>

(* every finite distance is witnessed by a rule to a type one step nearer ...   *)
Witness == \A n \in Types : lay[n] # None => \E m \in Nodes : <<n, m>> \in g /\ lay[m] = lay[n] - 1
(* ... no rule offers a shorter way ...                                          *)
Shortest == fin => \A e \in g : e[1] \in Types /\ lay[e[2]] # None => lay[e[1]] <= lay[e[2]] + 1
(* ... and a type without distance has no chain at all                           *)
Unreachable == fin => \A e \in g : e[1] \in Types /\ lay[e[1]] = None => lay[e[2]] = None

Emit == fin => PrintT("D " \o ToJson([g |-> g, d |-> lay]))
=============================================================================
