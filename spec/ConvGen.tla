------------------------------- MODULE ConvGen -------------------------------
(* Conversion chains when some of the rules are generic.  A type is a family   *)
(* applied to a parameter, W<P>; a generic rule <<w1, w2>> converts W1<P> to    *)
(* W2<P> for every P, a concrete rule converts one W<P> to one W'<P'> or to a   *)
(* type known to the foreign language.                                          *)
(*   lay   steps to the nearest known type over all the rules                   *)
(*   clay  the same over the concrete rules alone                               *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANTS Fam, Par, Known,
          GCand, CCand,        \* candidate generic and concrete rules
          GFix, CFix           \* rules in every graph
VARIABLES gg, cg, lay, clay, fin

None == 99
Ty(w, p) == <<w, p>>
Types == Fam \X Par
Kn == {<<k, "">> : k \in Known}
Nodes == Types \cup Kn

GEdges == {<<Ty(e[1], p), Ty(e[2], p)>> : e \in gg, p \in Par}
All == GEdges \cup cg
(* the rule for a pair: the concrete one when there is one                      *)
RuleOf(e) == IF e \in cg THEN "concrete" ELSE "generic"

Zero == [n \in Nodes |-> IF n \in Kn THEN 0 ELSE None]
Init == /\ gg \in {GFix \cup s : s \in SUBSET GCand}
        /\ cg \in {CFix \cup s : s \in SUBSET CCand}
        /\ lay = Zero /\ clay = Zero /\ fin = FALSE

Top(l) == CHOOSE d \in {l[n] : n \in Nodes} \ {None} : \A n \in Nodes : l[n] = None \/ l[n] <= d
New(l, E) == {n \in Types : l[n] = None /\ \E m \in Nodes : <<n, m>> \in E /\ l[m] # None}
Grow(l, E) == [n \in Nodes |-> IF n \in New(l, E) THEN Top(l) + 1 ELSE l[n]]

Expand == /\ ~fin /\ (New(lay, All) # {} \/ New(clay, cg) # {})
          /\ lay' = Grow(lay, All) /\ clay' = Grow(clay, cg)
          /\ UNCHANGED <<gg, cg, fin>>
Finish == /\ ~fin /\ New(lay, All) = {} /\ New(clay, cg) = {} /\ fin' = TRUE
          /\ UNCHANGED <<gg, cg, lay, clay>>
Next == Expand \/ Finish
Spec == Init /\ [][Next]_<<gg, cg, lay, clay, fin>>

Witness == \A n \in Types : lay[n] # None => \E m \in Nodes : <<n, m>> \in All /\ lay[m] = lay[n] - 1
Shortest == fin => \A e \in All : lay[e[2]] # None => lay[e[1]] <= lay[e[2]] + 1
Unreachable == fin => \A e \in All : lay[e[1]] = None => lay[e[2]] = None
(* generic rules only add ways                                                  *)
Adds == fin => \A n \in Types : lay[n] <= clay[n]

Name(n) == IF n[2] = "" THEN n[1] ELSE n[1] \o "x" \o n[2]
Emit == fin => PrintT("D " \o ToJson([gg |-> gg, cg |-> {<<Name(e[1]), Name(e[2])>> : e \in cg},
                                      lay |-> [n \in {Name(m) : m \in Types} |-> lay[CHOOSE m \in Types : Name(m) = n]],
                                      clay |-> [n \in {Name(m) : m \in Types} |-> clay[CHOOSE m \in Types : Name(m) = n]]]))
=============================================================================
