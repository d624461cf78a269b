-------------------------------- MODULE Args --------------------------------
(* Calls with several arguments: the value given at a position arrives at that position, once,  *)
(* and the result is that of the position which the function returns.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Sigs          \* sequence of [n |-> number of arguments, ret |-> position or 0, alt |-> sequence of BOOLEAN: two values are tried in every
                        \* combination, vecs |-> further tuples of values, such that any two positions are told apart by one of them]
VARIABLES s, sent, got, result, pc
vars == <<s, sent, got, result, pc>>
None == 0
Init == /\ s \in 1..Len(Sigs)
        /\ sent \in {[i \in 1..Sigs[s].n |-> IF Sigs[s].alt[i] THEN f[i] ELSE 1] : f \in [{i \in 1..Sigs[s].n : Sigs[s].alt[i]} -> {1, 2}]} \cup Sigs[s].vecs
        /\ got = [i \in 1..Sigs[s].n |-> None] /\ result = None /\ pc = 1
Pass == /\ pc <= Sigs[s].n /\ got' = [got EXCEPT ![pc] = sent[pc]] /\ pc' = pc + 1 /\ UNCHANGED <<s, sent, result>>
Return == /\ pc = Sigs[s].n + 1 /\ pc' = pc + 1
          /\ result' = IF Sigs[s].ret = 0 THEN None ELSE got[Sigs[s].ret]
          /\ UNCHANGED <<s, sent, got>>
Next == Pass \/ Return
Spec == Init /\ [][Next]_vars
Done == pc = Sigs[s].n + 2
InPlace == \A i \in 1..Sigs[s].n : got[i] \in {None, sent[i]}
Complete == Done => got = sent /\ (Sigs[s].ret # 0 => result = sent[Sigs[s].ret])
(* no two arguments can be exchanged without notice *)
TellsApart == \A k \in 1..Len(Sigs) : \A i, j \in 1..Sigs[k].n : i < j => (Sigs[k].alt[i] \/ Sigs[k].alt[j] \/ \E v \in Sigs[k].vecs : v[i] # v[j])
ASSUME TellsApart
Emit == Done => PrintT("D " \o ToJson([s |-> s, v |-> got, r |-> result]))
=============================================================================
