------------------------------ MODULE CppCallback ------------------------------
(* Callback objects of C++ that Rust calls.                                             *)
(* slot[s] is the object which Rust holds at place s, kept[s] whether Rust owns it (got by    *)
(* unique pointer) or only borrows it; mine is an object which C++ itself owns. cnt[i] is the    *)
(* state of object i (-1: it does not exist), advanced by the mutating method m.                   *)
(* Every action says which methods of which objects must run, in order, on which thread, with          *)
(* which results, and which objects must be destroyed by the end of the step.                               *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANTS MaxId, MaxCnt

VARIABLES slot, kept, mine, cnt, act
vars == <<slot, kept, mine, cnt, act>>

P == {0, 1}
Ids == 1..MaxId
Alive == {i \in Ids : cnt[i] >= 0}
Fresh == {i \in Ids : cnt[i] = -1 /\ \A j \in Ids : j < i => cnt[j] # -1}
(* read-only: a(x, y), f(object), e(); mutating: m(x) *)
Methods == {"a", "f", "e", "m"}
C(i, m, th) == [i |-> i, m |-> m, th |-> th]
Bump(c, i, n) == [c EXCEPT ![i] = (@ + n) % (MaxCnt + 1)]
After(c, i, m) == IF m = "m" THEN Bump(c, i, 1) ELSE c

Init == /\ slot = [s \in P |-> 0] /\ kept = [s \in P |-> TRUE] /\ mine = 0
        /\ cnt = [i \in Ids |-> -1] /\ act = [op |-> "init"]

Owned(sl, k, mi) == {sl[s] : s \in {q \in P : k[q]}} \cup {mi}
(* a step with its calls; objects without an owner die *)
Step(a, calls, sl, k, mi, c) ==
    LET dead == {i \in Ids : c[i] >= 0 /\ i \notin Owned(sl, k, mi)}
    IN /\ slot' = sl /\ kept' = [s \in P |-> k[s] \/ sl[s] = 0] /\ mine' = mi
       /\ cnt' = [i \in Ids |-> IF i \in dead THEN -1 ELSE c[i]]
       /\ act' = a @@ [calls |-> calls, dead |-> dead]
Same(a, calls, c) == Step(a, calls, slot, kept, mine, c)

(* how: "box": Box<dyn Cb>; "struct": the C structure by value, owning *)
Set(s, how) == \E i \in Fresh : Step([op |-> "set", s |-> s, how |-> how, new |-> i], <<>>, [slot EXCEPT ![s] = i], [kept EXCEPT ![s] = TRUE], mine, [cnt EXCEPT ![i] = 0])
Make == /\ mine = 0
        /\ \E i \in Fresh : Step([op |-> "make", new |-> i], <<>>, slot, kept, i, [cnt EXCEPT ![i] = 0])
Lend(s) == mine # 0 /\ Step([op |-> "lend", s |-> s], <<>>, [slot EXCEPT ![s] = mine], [kept EXCEPT ![s] = FALSE], mine, cnt)
Unmake == /\ mine # 0 /\ \A s \in P : slot[s] # mine
          /\ Step([op |-> "unmake"], <<>>, slot, kept, 0, cnt)
(* passed to a function that calls it n times and lets it go *)
Once(n, m) == \E i \in Fresh : Same([op |-> "once", n |-> n, m |-> m, new |-> i, ret |-> IF n = 0 THEN -1 ELSE IF m = "m" THEN n % (MaxCnt + 1) ELSE 0],
                                    [j \in 1..n |-> C(i, m, 0)], [cnt EXCEPT ![i] = IF m = "m" THEN n % (MaxCnt + 1) ELSE 0])
(* how: "ref": by reference, "mut": by mutable reference *)
With(n, m, how) == /\ mine # 0 /\ (how = "ref" => m # "m")
                   /\ LET c == IF m = "m" THEN Bump(cnt, mine, n) ELSE cnt
                      IN Same([op |-> "with", n |-> n, m |-> m, how |-> how, ret |-> IF n = 0 THEN -1 ELSE c[mine]], [j \in 1..n |-> C(mine, m, 0)], c)
(* the C structure is handed to methods of another callback, which call a and m through it *)
PassOwn == \E i \in Fresh : Same([op |-> "pass", how |-> "own", new |-> i, ret |-> 1 % (MaxCnt + 1)], <<C(i, "a", 0), C(i, "m", 0)>>, [cnt EXCEPT ![i] = 1])
PassRef == mine # 0 /\ LET c == Bump(cnt, mine, 1)
                       IN Same([op |-> "pass", how |-> "ref", ret |-> cnt[mine] * 10 + c[mine]], <<C(mine, "a", 0), C(mine, "m", 0)>>, c)
(* th: 1 on a new thread *)
Call(s, m, th) == /\ slot[s] # 0
                  /\ LET c == After(cnt, slot[s], m)
                     IN Same([op |-> "call", s |-> s, m |-> m, t |-> th, ret |-> c[slot[s]]], <<C(slot[s], m, th)>>, c)
Swap == slot[0] # slot[1] /\ Step([op |-> "swap"], <<>>, [s \in P |-> slot[1 - s]], [s \in P |-> kept[1 - s]], mine, cnt)
(* th = 2: dropped while Rust unwinds *)
Clear(s, th) == slot[s] # 0 /\ Step([op |-> "clear", s |-> s, t |-> th], <<>>, [slot EXCEPT ![s] = 0], kept, mine, cnt)
(* both at the same time on two threads, n times each *)
Par(m, n) == /\ slot[0] # 0 /\ slot[1] # 0 /\ slot[0] # slot[1]
             /\ LET c == IF m = "m" THEN Bump(Bump(cnt, slot[0], n), slot[1], n) ELSE cnt
                IN Same([op |-> "par", m |-> m, n |-> n, objs |-> slot, ret |-> c[slot[0]] * 10 + c[slot[1]]], <<>>, c)
(* while slot s runs method a, C++ has Rust call method m of the other slot, or replace or clear it *)
Nest(s, m) == /\ slot[s] # 0 /\ slot[1 - s] # 0 /\ slot[s] # slot[1 - s]
              /\ LET c == After(cnt, slot[1 - s], m)
                 IN Same([op |-> "nest", s |-> s, m |-> m, ret |-> cnt[slot[s]]], <<C(slot[s], "a", 0), C(slot[1 - s], m, 0)>>, c)
NestSet(s) == /\ slot[s] # 0
              /\ \E i \in Fresh : Step([op |-> "nestset", s |-> s, new |-> i, ret |-> cnt[slot[s]]], <<C(slot[s], "a", 0)>>,
                                       [slot EXCEPT ![1 - s] = i], [kept EXCEPT ![1 - s] = TRUE], mine, [cnt EXCEPT ![i] = 0])

Next == \/ \E s \in P : \/ \E h \in {"box", "struct"} : Set(s, h)
                        \/ Lend(s) \/ NestSet(s)
                        \/ Clear(s, 2) \/ \E th \in {0, 1} : Clear(s, th) \/ \E m \in Methods : Call(s, m, th)
                        \/ \E m \in Methods : Nest(s, m)
        \/ Make \/ Unmake \/ Swap \/ PassOwn \/ PassRef
        \/ \E m \in Methods, n \in {0, 1, 2} : Once(n, m) \/ With(n, m, "ref") \/ With(n, m, "mut")
        \/ \E m \in {"a", "m"} : Par(m, 5)
Spec == Init /\ [][Next]_vars

TypeOK == /\ slot \in [P -> Ids \cup {0}] /\ kept \in [P -> BOOLEAN] /\ mine \in Ids \cup {0} /\ cnt \in [Ids -> -1..MaxCnt]
(* whatever Rust can call exists, and whatever exists has an owner *)
NeverDangling == \A s \in P : slot[s] # 0 => cnt[slot[s]] >= 0
NoLeak == Alive = Owned(slot, kept, mine) \ {0}
OneOwner == slot[0] # 0 /\ slot[0] = slot[1] => ~kept[0] /\ ~kept[1]
(* borrowed objects are never destroyed by Rust *)
Borrowed == \A s \in P : ~kept[s] => slot[s] = mine
CalledAlive == [][\A j \in 1..Len(act'.calls) : act'.calls[j].i \in Alive \/ ("new" \in DOMAIN act' /\ act'.calls[j].i = act'.new)]_vars

St == [slot |-> slot, kept |-> kept, mine |-> mine, cnt |-> cnt]
view == St
EmitInit == (TLCGet("level") > 1) \/ PrintT("I " \o ToJson(St))
EmitEdge == PrintT("E " \o ToJson([f |-> St, a |-> act', t |-> St']))
===============================================================================
