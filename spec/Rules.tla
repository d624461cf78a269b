-------------------------------- MODULE Rules --------------------------------
(* Registration of conversion rules. Sources are given in order: the built-in  *)
(* map (source 0), user maps (1, 2) by merge_type_map, the description (3).     *)
(* A rule is for a pair of Rust types; `cur` is the registration (position in   *)
(* hist, 0 = built-in or absent) in force for each pair. A rule may be plain or  *)
(* "backend" (it carries data only the language backend understands, e.g. a      *)
(* configuration option): both kinds obey the same order.                        *)
(* In mode "ids" only the identifiers of the merged maps matter.                  *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANTS MaxLen, Pairs, BackendPairs, Builtin, Foreign, Ids, BuiltinIds
VARIABLES mode, hist, cur, ids

vars == <<mode, hist, cur, ids>>
(* a pair of Foreign has a rule for results (o) and one for arguments (i), each with code of the foreign language *)
Keys == (Pairs \ Foreign) \cup {p \o d : p \in Foreign, d \in {"o", "i"}}
Cover(p, f) == IF p \in Foreign THEN {p \o d : d \in CASE f = "out" -> {"o"} [] f = "in" -> {"i"} [] OTHER -> {"o", "i"}} ELSE {p}
Forms(p) == IF p \in Foreign THEN {"out", "in", "both"} ELSE IF p \in BackendPairs THEN {"plain", "backend"} ELSE {"plain"}

Init == /\ mode \in {"rules", "ids"}
        /\ hist = <<>> /\ cur = [k \in Keys |-> 0] /\ ids = <<>>

Register(src, p, form) ==
    /\ mode = "rules" /\ Len(hist) < MaxLen
    /\ hist # <<>> => src >= hist[Len(hist)].src
    /\ hist' = Append(hist, [src |-> src, pair |-> p, form |-> form])
    /\ cur' = [k \in Keys |-> IF k \in Cover(p, form) THEN Len(hist) + 1 ELSE cur[k]]
    /\ UNCHANGED <<mode, ids>>

AddId(i) == /\ mode = "ids" /\ Len(ids) < 3 /\ ids' = Append(ids, i) /\ UNCHANGED <<mode, hist, cur>>

Next == \/ \E s \in 1..3, p \in Pairs : \E f \in Forms(p) : Register(s, p, f)
        \/ \E i \in Ids : AddId(i)
Spec == Init /\ [][Next]_vars

(* ---- verdicts ---- *)
(* Foreign: pairs whose rules give one and the same foreign type a conversion: two of them in one source and direction contradict each other *)
Dirs(r) == IF r.form = "out" THEN {"o"} ELSE IF r.form = "in" THEN {"i"} ELSE {"o", "i"}
Two(i, j) == i < j /\ hist[i].src = hist[j].src /\ hist[i].pair \in Foreign /\ hist[j].pair \in Foreign /\ Dirs(hist[i]) \cap Dirs(hist[j]) # {}
Conflict == \E i, j \in 1..Len(hist) : Two(i, j) /\ hist[i].pair # hist[j].pair
Repeated == \E i, j \in 1..Len(hist) : Two(i, j) /\ hist[i].pair = hist[j].pair
IdsClash == \/ \E i \in 1..Len(ids) : ids[i] \in BuiltinIds
            \/ \E i, j \in 1..Len(ids) : i # j /\ ids[i] = ids[j]

Has(p) == cur[p] > 0 \/ p \in Builtin
Step(p) == [pair |-> p, v |-> cur[p]]
(* the chain each query must use: <<>> = none exists *)
Query(q) ==
    CASE q = "T1" -> IF Has("t1k") THEN <<Step("t1k")>> ELSE IF Has("t1t2") /\ Has("t2k") THEN <<Step("t1t2"), Step("t2k")>> ELSE <<>>
      [] q = "T2" -> IF Has("t2k") THEN <<Step("t2k")>> ELSE <<>>
      [] q = "U1" -> IF Has("u1k") THEN <<Step("u1k")>> ELSE <<>>
      [] q = "BP" -> <<Step("bp")>>
      [] q = "BD" -> <<Step("bd")>>
      [] q = "M1" -> IF Has("m1o") THEN <<Step("m1o")>> ELSE <<>>
      [] q = "M2" -> IF Has("m2o") THEN <<Step("m2o")>> ELSE <<>>
      [] q = "N1" -> IF Has("m1i") THEN <<Step("m1i")>> ELSE <<>>
      [] q = "N2" -> IF Has("m2i") THEN <<Step("m2i")>> ELSE <<>>
Queries == {"T1", "T2", "U1", "BP", "BD", "M1", "M2", "N1", "N2"}
(* whose code the foreign side runs: that of the rule the foreign type was given last (0: not specified) *)
Last(S) == IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
Owner(d) == Last({i \in 1..Len(hist) : hist[i].pair \in Foreign /\ d \in Dirs(hist[i])})
Code(p, d) == LET o == Owner(d) IN IF o # 0 /\ hist[o].pair = p THEN o ELSE 0
Codes == [M1 |-> Code("m1", "o"), M2 |-> Code("m2", "o"), N1 |-> Code("m1", "i"), N2 |-> Code("m2", "i")]

(* ---- checked on the model ---- *)
LastWins == \A i \in 1..Len(hist) : \A k \in Cover(hist[i].pair, hist[i].form) : cur[k] >= i /\ hist[cur[k]].pair = hist[i].pair
OthersKeep == [][\A k \in Keys : (hist' # hist /\ k \notin Cover(hist'[Len(hist')].pair, hist'[Len(hist')].form)) => cur'[k] = cur[k]]_vars
(* the code on the two sides of a boundary is of one rule *)
Matches == \A q \in {"M1", "M2", "N1", "N2"} : Codes[q] # 0 => Query(q)[1].v = Codes[q]

Emit == PrintT("D " \o ToJson([mode |-> mode, hist |-> hist, ids |-> ids, conflict |-> Conflict, repeated |-> Repeated, clash |-> IdsClash,
                               q |-> [x \in Queries |-> Query(x)], codes |-> Codes]))
=============================================================================
