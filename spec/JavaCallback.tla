------------------------------ MODULE JavaCallback ------------------------------
(* Java objects that Rust calls back.                                                           *)
(* slot[s] is the object which Rust keeps at place s; var is the one which a Java variable holds.  *)
(* Several places may hold the same object. cnt[i]: state of object i (-1: it does not exist),      *)
(* advanced by the methods m and x; x ends by throwing. att: the Rust worker thread has attached       *)
(* itself to the VM.                                                                                     *)
(* An object lives as long as something holds it; it is collectable from then on.                            *)
(* Threads: 0 the Java thread which runs the history, 1 a new Rust thread, 2 the Rust worker,                    *)
(* 3 a new Java thread.                                                                                             *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANTS MaxId, MaxCnt

VARIABLES slot, var, cnt, att, act
vars == <<slot, var, cnt, att, act>>

P == {0, 1}
Ids == 1..MaxId
Threads == 0..3
Alive == {i \in Ids : cnt[i] >= 0}
Fresh == {i \in Ids : cnt[i] = -1 /\ \A j \in Ids : j < i => cnt[j] # -1}
(* a returns the state, m advances it and returns it, x advances it and throws, v (no result) throws,     *)
(* f takes an object, a string, an array and returns its sum                                                   *)
Methods == {"a", "m", "x", "v", "f", "e"}
C(i, m, th) == [i |-> i, m |-> m, th |-> th]
Bump(c, i, n) == [c EXCEPT ![i] = (@ + n) % (MaxCnt + 1)]
After(c, i, m, n) == IF m \in {"m", "x"} THEN Bump(c, i, n) ELSE c
(* what Rust gets from the call which left the state c *)
Ret(c, i, m) == CASE m \in {"a", "m", "f"} -> 10 + c[i] [] m \in {"x"} -> 0 [] m \in {"e", "v"} -> -2
Threw(m, n) == IF m \in {"x", "v"} THEN n ELSE 0

Init == /\ slot = [s \in P |-> 0] /\ var = 0 /\ att = FALSE
        /\ cnt = [i \in Ids |-> -1] /\ act = [op |-> "init"]

Held(sl, v) == {sl[s] : s \in P} \cup {v}
Step(a, calls, sl, v, c, at) ==
    LET dead == {i \in Ids : c[i] >= 0 /\ i \notin Held(sl, v)}
    IN /\ slot' = sl /\ var' = v /\ att' = at
       /\ cnt' = [i \in Ids |-> IF i \in dead THEN -1 ELSE c[i]]
       /\ act' = a @@ [calls |-> calls, dead |-> dead]
Same(a, calls, c) == Step(a, calls, slot, var, c, att)

(* to: "var" or a slot *)
Make == \E i \in Fresh : Step([op |-> "make", new |-> i], <<>>, slot, i, [cnt EXCEPT ![i] = 0], att)
Unmake == var # 0 /\ Step([op |-> "unmake"], <<>>, slot, 0, cnt, att)
Set(s) == \E i \in Fresh : Step([op |-> "set", s |-> s, new |-> i], <<>>, [slot EXCEPT ![s] = i], var, [cnt EXCEPT ![i] = 0], att)
SetVar(s) == var # 0 /\ Step([op |-> "setvar", s |-> s], <<>>, [slot EXCEPT ![s] = var], var, cnt, att)
Attach == ~att /\ Step([op |-> "attach"], <<>>, slot, var, cnt, TRUE)
Detach == att /\ Step([op |-> "detach"], <<>>, slot, var, cnt, FALSE)
(* passed to a function that calls it n times and lets it go *)
Once(n, m) == \E i \in Fresh : LET c == After([cnt EXCEPT ![i] = 0], i, m, n)
                               IN Same([op |-> "once", n |-> n, m |-> m, new |-> i, ret |-> IF n = 0 THEN -1 ELSE Ret(c, i, m), threw |-> Threw(m, n)], [j \in 1..n |-> C(i, m, 0)], c)
Call(s, m, th) == /\ slot[s] # 0
                  /\ LET c == After(cnt, slot[s], m, 1)
                     IN Same([op |-> "call", s |-> s, m |-> m, t |-> th, ret |-> Ret(c, slot[s], m), threw |-> Threw(m, 1)], <<C(slot[s], m, th)>>, c)
(* method m, then a, on one thread without returning to Java in between *)
Twice(s, m, th) == /\ slot[s] # 0
                   /\ LET c == After(cnt, slot[s], m, 1)
                      IN Same([op |-> "twice", s |-> s, m |-> m, t |-> th, ret |-> Ret(c, slot[s], "a"), threw |-> Threw(m, 1)], <<C(slot[s], m, th), C(slot[s], "a", th)>>, c)
Swap == slot[0] # slot[1] /\ Step([op |-> "swap"], <<>>, [s \in P |-> slot[1 - s]], var, cnt, att)
Clear(s, th) == slot[s] # 0 /\ Step([op |-> "clear", s |-> s, t |-> th], <<>>, [slot EXCEPT ![s] = 0], var, cnt, att)
(* both at the same time on two threads, n times each *)
Par(m, n, th) == /\ slot[0] # 0 /\ slot[1] # 0 /\ slot[0] # slot[1]
                 /\ LET c == After(After(cnt, slot[0], m, n), slot[1], m, n)
                    IN Same([op |-> "par", m |-> m, n |-> n, t |-> th, objs |-> slot, ret |-> Ret(c, slot[0], m) * 100 + Ret(c, slot[1], m), threw |-> 2 * Threw(m, n)], <<>>, c)
(* while slot s runs method a on thread th, Java has Rust call method m of the other slot, or replace or clear it *)
Nest(s, m, th) == /\ slot[s] # 0 /\ slot[1 - s] # 0 /\ slot[s] # slot[1 - s]
                  /\ LET c == After(cnt, slot[1 - s], m, 1)
                     IN Same([op |-> "nest", s |-> s, m |-> m, t |-> th, ret |-> Ret(cnt, slot[s], "a"), threw |-> Threw(m, 1)], <<C(slot[s], "a", th), C(slot[1 - s], m, th)>>, c)
NestSet(s, th) == /\ slot[s] # 0
                  /\ \E i \in Fresh : Step([op |-> "nestset", s |-> s, t |-> th, new |-> i, ret |-> Ret(cnt, slot[s], "a")], <<C(slot[s], "a", th)>>,
                                           [slot EXCEPT ![1 - s] = i], var, [cnt EXCEPT ![i] = 0], att)
NestClear(s, th) == /\ slot[s] # 0 /\ slot[1 - s] # 0
                    /\ Step([op |-> "nestclear", s |-> s, t |-> th, ret |-> Ret(cnt, slot[s], "a")], <<C(slot[s], "a", th)>>, [slot EXCEPT ![1 - s] = 0], var, cnt, att)

Next == \/ \E s \in P : \/ Set(s) \/ SetVar(s)
                        \/ \E th \in Threads : \/ Clear(s, th) \/ NestSet(s, th) \/ NestClear(s, th)
                                               \/ \E m \in Methods : Call(s, m, th)
                                               \/ \E m \in {"x", "v"} : Twice(s, m, th)
                                               \/ \E m \in {"m", "x"} : Nest(s, m, th)
        \/ Make \/ Unmake \/ Swap \/ Attach \/ Detach
        \/ \E m \in Methods, n \in {0, 1, 2} : Once(n, m)
        \/ \E m \in {"m", "x", "f"}, th \in {1, 3} : Par(m, 5, th)
Spec == Init /\ [][Next]_vars

TypeOK == /\ slot \in [P -> Ids \cup {0}] /\ var \in Ids \cup {0} /\ cnt \in [Ids -> -1..MaxCnt] /\ att \in BOOLEAN
NeverDangling == \A s \in P : slot[s] # 0 => cnt[slot[s]] >= 0
Collectable == Alive = Held(slot, var) \ {0}
CalledAlive == [][\A j \in 1..Len(act'.calls) : act'.calls[j].i \in Alive \/ ("new" \in DOMAIN act' /\ act'.calls[j].i = act'.new)]_vars
(* a callback leaves every thread as it was *)
Attachment == [][att' # att => act'.op \in {"attach", "detach"}]_vars

St == [slot |-> slot, var |-> var, cnt |-> cnt, att |-> att]
view == St
EmitInit == (TLCGet("level") > 1) \/ PrintT("I " \o ToJson(St))
EmitEdge == PrintT("E " \o ToJson([f |-> St, a |-> act', t |-> St']))
===============================================================================
