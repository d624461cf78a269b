-------------------------------- MODULE Attrs --------------------------------
(* Attribute callbacks during one generator run (G06).                       *)
(* The initial state chooses who carries which attribute and what is         *)
(* registered; the run then generates the items in order and calls back.     *)
(* Attribute names are shared by the three kinds on purpose: a callback      *)
(* registered for one kind must not serve another.                           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Names,     \* attribute names, e.g. {"X", "Y"}
          Items,     \* <<[item |-> "K1", kind |-> "class", methods |-> <<"new", "m1">>], ...>>
          MaxUses    \* how many attributes are attached in all

Slots == UNION { {<<i, 0>>} \cup { <<i, m>> : m \in 1..Len(Items[i].methods) } : i \in 1..Len(Items) }
Kinds == {"class", "enum", "method"}

VARIABLES on,        \* [Slots -> SUBSET Names]
          reg,       \* [Kinds -> SUBSET Names]
          pc,        \* next item
          calls,     \* calls made so far
          ok

vars == <<on, reg, pc, calls, ok>>

RECURSIVE Order(_)
Order(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : TRUE IN <<x>> \o Order(s \ {x})

Uses == { <<s, n>> : s \in Slots, n \in Names }

Init == /\ \E U \in { {} } \cup { {a} : a \in Uses } \cup { {a, b} : a, b \in Uses } \cup
                (IF MaxUses < 3 THEN {} ELSE { {a, b, c} : a, b, c \in Uses }) :
             on = [s \in Slots |-> { n \in Names : <<s, n>> \in U }]
        /\ reg \in [Kinds -> SUBSET Names]
        /\ pc = 1 /\ calls = <<>> /\ ok = TRUE

(* all (kind, attribute, method) uses of item i, in the order of the text    *)
ItemUses(i) ==
    LET it == Items[i]
        own == [k \in 1..Cardinality(on[<<i, 0>>]) |-> [kind |-> it.kind, attr |-> Order(on[<<i, 0>>])[k], item |-> it.item, method |-> ""]]
        RECURSIVE M(_)
        M(m) == IF m > Len(it.methods) THEN <<>>
                ELSE [k \in 1..Cardinality(on[<<i, m>>]) |-> [kind |-> "method", attr |-> Order(on[<<i, m>>])[k], item |-> it.item, method |-> it.methods[m]]]
                     \o M(m + 1)
    IN own \o M(1)

Known(u) == u.attr \in reg[u.kind]

Process ==
    /\ ok /\ pc <= Len(Items)
    /\ IF \A k \in 1..Len(ItemUses(pc)) : Known(ItemUses(pc)[k])
       THEN /\ calls' = calls \o ItemUses(pc) /\ pc' = pc + 1 /\ ok' = ok
       ELSE /\ ok' = FALSE /\ UNCHANGED <<calls, pc>>
    /\ UNCHANGED <<on, reg>>

Next == Process
Spec == Init /\ [][Next]_vars

Done == ~ok \/ pc > Len(Items)

(* G06 on the model: a finished run has called exactly the carried attributes *)
Count(u) == Cardinality({ k \in 1..Len(calls) : calls[k] = u })
CallOf(s, n) == [kind |-> IF s[2] = 0 THEN Items[s[1]].kind ELSE "method", attr |-> n, item |-> Items[s[1]].item,
                 method |-> IF s[2] = 0 THEN "" ELSE Items[s[1]].methods[s[2]]]
ExactlyOnce == (Done /\ ok) => \A s \in Slots, n \in Names : Count(CallOf(s, n)) = (IF n \in on[s] THEN 1 ELSE 0)
OnlyRegistered == \A k \in 1..Len(calls) : calls[k].attr \in reg[calls[k].kind]
RefusedIffUnknown == Done => (ok <=> \A s \in Slots : \A n \in on[s] : CallOf(s, n).attr \in reg[CallOf(s, n).kind])

UseSeq == LET RECURSIVE A(_) A(i) == IF i > Len(Items) THEN <<>> ELSE ItemUses(i) \o A(i + 1) IN A(1)
Emit == Done => PrintT("D " \o ToJson([uses |-> UseSeq, reg |-> reg, ok |-> ok, calls |-> calls]))
=============================================================================
