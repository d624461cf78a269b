------------------------------- MODULE JavaOwn --------------------------------
(* Java wrapper objects and the Rust objects they own.                                        *)
(* var[s]: the wrapper which Java variable s refers to (0: null). wr[w]: the Rust object which    *)
(* wrapper w owns, 0: it is empty (deleted or moved out), -1: there is no such wrapper.              *)
(* hold: the object which Rust keeps itself. val[o]: the value of object o, -1: it does not exist.       *)
(* Arg: what passing by value does to the caller's wrapper ("move": empties it, "clone": Rust gets          *)
(* a copy, "share": Rust gets one more pointer to the same object); an Option argument always empties          *)
(* it. Dup: what Rust gives when asked for a second pointer to the object it keeps.                               *)
(* Unreachable wrappers can be finalised at any time, one at a time (Fin) or all (Gc).                               *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANTS Arg, Dup, CanFail, Lock, HasVec, HasOptRef, MaxW, MaxO, V, Slow

VARIABLES var, wr, hold, val, act
vars == <<var, wr, hold, val, act>>

Vs == {"A", "B"}
Ws == 1..MaxW
Os == 1..MaxO
FreshW == {w \in Ws : wr[w] = -1 /\ \A x \in Ws : x < w => wr[x] # -1}
FreshO(vv) == {o \in Os : vv[o] = -1 /\ \A x \in Os : x < o => vv[x] # -1}
Unreach(vr, ww) == {w \in Ws : ww[w] # -1 /\ \A s \in Vs : vr[s] # w}
Garbage == Unreach(var, wr)
Full(s) == var[s] # 0 /\ wr[var[s]] > 0
O(s) == wr[var[s]]

Init == /\ var = [s \in Vs |-> 0] /\ wr = [w \in Ws |-> -1] /\ hold = 0 /\ val = [o \in Os |-> -1]
        /\ act = [op |-> "init"]

Owners(o, ww, hh) == {w \in Ws : ww[w] = o} \cup (IF hh = o THEN {0} ELSE {})
(* a: the action; tmp: how many temporary objects Rust makes and drops during the step *)
Step(a, vr, ww, hh, vv, tmp) ==
    LET dead == {o \in Os : vv[o] >= 0 /\ Owners(o, ww, hh) = {}}
    IN /\ var' = vr /\ wr' = ww /\ hold' = hh /\ val' = [o \in Os |-> IF o \in dead THEN -1 ELSE vv[o]]
       /\ act' = a @@ [dead |-> dead, tmp |-> tmp]
Same(a, vv) == Step(a, var, wr, hold, vv, 0)

New(s) == \E v \in V, w \in FreshW, o \in FreshO(val) :
              Step([op |-> "new", s |-> s, v |-> v, w |-> <<w>>, obj |-> <<o>>], [var EXCEPT ![s] = w], [wr EXCEPT ![w] = o], hold, [val EXCEPT ![o] = v], 0)
NewFail(s) == CanFail /\ Same([op |-> "newfail", s |-> s, exc |-> TRUE], val)
Get(s, how) == Full(s) /\ (how = "opt" => HasOptRef) /\ Same([op |-> "get", s |-> s, how |-> how, ret |-> val[O(s)]], val)
Set(s, how) == Full(s) /\ \E v \in V : Same([op |-> "set", s |-> s, how |-> how, v |-> v], [val EXCEPT ![O(s)] = v])
GetNone == HasOptRef /\ Same([op |-> "getnone", ret |-> -5], val)
Two(s, t) == Full(s) /\ Full(t) /\ (O(s) = O(t) => ~Lock) /\ Same([op |-> "two", s |-> s, t |-> t, ret |-> val[O(s)] * 10 + val[O(t)]], val)
(* after passing variable s by value *)
Passed(s, how) == IF Arg = "move" \/ how = "opt" THEN [wr EXCEPT ![var[s]] = 0] ELSE wr
Tmp(how) == IF Arg = "clone" /\ how # "opt" THEN 1 ELSE 0
Consume(s, how) == Full(s) /\ Step([op |-> "consume", s |-> s, how |-> how, ret |-> val[O(s)], exc |-> how = "err"], var, Passed(s, how), hold, val, Tmp(how))
ConsumeNone == Same([op |-> "consumenone", ret |-> -5], val)
Consume2(s, t) == /\ Full(s) /\ Full(t) /\ var[s] # var[t]
                  /\ Step([op |-> "consume2", s |-> s, t |-> t, ret |-> val[O(s)] * 10 + val[O(t)]], var,
                          IF Arg = "move" THEN [wr EXCEPT ![var[s]] = 0, ![var[t]] = 0] ELSE wr, hold, val, 2 * Tmp("val"))
Store(s, how) == /\ Full(s)
                 /\ IF Arg = "clone" /\ how # "opt"
                    THEN \E o \in FreshO(val) : Step([op |-> "store", s |-> s, how |-> how, obj |-> <<o>>], var, wr, o, [val EXCEPT ![o] = val[O(s)]], 0)
                    ELSE Step([op |-> "store", s |-> s, how |-> how], var, Passed(s, how), O(s), val, 0)
StoreNone == hold # 0 /\ Step([op |-> "storenone"], var, wr, 0, val, 0)
(* Rust gives its object away *)
Take(s, how) == /\ hold # 0
                /\ \E w \in FreshW : Step([op |-> "take", s |-> s, how |-> how, w |-> <<w>>], [var EXCEPT ![s] = w], [wr EXCEPT ![w] = hold], 0, val, 0)
TakeNone(s) == hold = 0 /\ Step([op |-> "take", s |-> s, how |-> "opt"], [var EXCEPT ![s] = 0], wr, 0, val, 0)
TakeErr(s) == Same([op |-> "takeerr", s |-> s, exc |-> TRUE], val)
Second(s) == /\ hold # 0 /\ Dup # "none"
             /\ \E w \in FreshW :
                  IF Dup = "clone"
                  THEN \E o \in FreshO(val) : Step([op |-> "second", s |-> s, w |-> <<w>>, obj |-> <<o>>], [var EXCEPT ![s] = w], [wr EXCEPT ![w] = o], hold, [val EXCEPT ![o] = val[hold]], 0)
                  ELSE Step([op |-> "second", s |-> s, w |-> <<w>>], [var EXCEPT ![s] = w], [wr EXCEPT ![w] = hold], hold, val, 0)
(* given away and back in one call *)
Pass(s, t, how) == /\ Full(s)
              /\ \E w \in FreshW :
                   LET w1 == Passed(s, how)
                   IN IF Arg = "clone" /\ how # "opt"
                      THEN \E o \in FreshO(val) : Step([op |-> "pass", s |-> s, t |-> t, how |-> how, w |-> <<w>>, obj |-> <<o>>], [var EXCEPT ![t] = w], [w1 EXCEPT ![w] = o], hold, [val EXCEPT ![o] = val[O(s)]], 0)
                      ELSE Step([op |-> "pass", s |-> s, t |-> t, how |-> how, w |-> <<w>>], [var EXCEPT ![t] = w], [w1 EXCEPT ![w] = O(s)], hold, val, 0)
(* an array of two new objects *)
Make2 == /\ HasVec
         /\ \E w1, w2 \in Ws, o1, o2 \in Os, v1, v2 \in V :
              /\ w1 < w2 /\ o1 < o2 /\ wr[w1] = -1 /\ wr[w2] = -1 /\ val[o1] = -1 /\ val[o2] = -1
              /\ \A x \in Ws : x < w2 /\ x # w1 => wr[x] # -1
              /\ \A x \in Os : x < o2 /\ x # o1 => val[x] # -1
              /\ Step([op |-> "make2", v |-> v1, v2 |-> v2, w |-> <<w1, w2>>, obj |-> <<o1, o2>>], [s \in Vs |-> IF s = "A" THEN w1 ELSE w2], [wr EXCEPT ![w1] = o1, ![w2] = o2], hold,
                      [val EXCEPT ![o1] = v1, ![o2] = v2], 0)
(* a Java callback gets the object which Rust kept *)
CbArg(s) == /\ hold # 0
            /\ \E w \in FreshW : Step([op |-> "cbarg", s |-> s, w |-> <<w>>], [var EXCEPT ![s] = w], [wr EXCEPT ![w] = hold], 0, val, 0)
Alias == var["A"] # var["B"] /\ var["B"] # 0 /\ Step([op |-> "alias"], [var EXCEPT !["A"] = var["B"]], wr, hold, val, 0)
Null(s) == var[s] # 0 /\ Step([op |-> "null", s |-> s], [var EXCEPT ![s] = 0], wr, hold, val, 0)
Delete(s) == var[s] # 0 /\ Step([op |-> "delete", s |-> s], var, [wr EXCEPT ![var[s]] = 0], hold, val, 0)
(* a reachable wrapper is never finalised; one that is unreachable can be at any time *)
Fin(w) == w \in Garbage /\ Step([op |-> "fin", w |-> <<w>>], var, [wr EXCEPT ![w] = -1], hold, val, 0)
Gc == Garbage # {} /\ Step([op |-> "gc", ws |-> Garbage], var, [w \in Ws |-> IF w \in Garbage THEN -1 ELSE wr[w]], hold, val, 0)

(* A call during which Java collects all garbage. Its objects belong to wrappers which nothing but the *)
(* running call refers to: they stay alive until it returns, and are collected after it.                  *)
SlowTmp(how) == CASE how \in {"two", "make"} -> 2 [] OTHER -> 1
SlowRet(how, v1, v2) == CASE how = "two" -> v1 * 1010 + v2 * 101 [] how = "self2" -> val[O("A")] * 1010 + v1 * 101 [] OTHER -> v1 * 11
SlowCall(how) == /\ how = "opt" => HasOptRef
                 /\ how = "self2" => Full("A")
                 /\ \E v1, v2 \in V :
                      Step([op |-> "slow", how |-> how, v |-> v1, v2 |-> v2, ret |-> SlowRet(how, v1, v2), ws |-> Garbage], var,
                           [w \in Ws |-> IF w \in Garbage THEN -1 ELSE wr[w]], hold, val, SlowTmp(how))
NextSlow == \/ \E how \in {"self", "self2", "arg", "mut", "two", "opt", "make", "ctor"} : SlowCall(how)
            \/ \E s \in Vs : New(s) \/ Null(s)

NextAll ==
    \/ \E s \in Vs : \/ New(s) \/ NewFail(s) \/ Null(s) \/ Delete(s) \/ TakeNone(s) \/ TakeErr(s) \/ Second(s) \/ CbArg(s)
                     \/ \E how \in {"self", "arg", "opt"} : Get(s, how)
                     \/ \E how \in {"self", "arg"} : Set(s, how)
                     \/ \E how \in {"val", "opt", "err"} : Consume(s, how)
                     \/ \E how \in {"val", "opt"} : Store(s, how)
                     \/ \E how \in {"val", "opt", "ok"} : Take(s, how)
                     \/ \E t \in Vs : Two(s, t) \/ Consume2(s, t) \/ (\E how \in {"val", "opt"} : Pass(s, t, how))
    \/ GetNone \/ ConsumeNone \/ StoreNone \/ Make2 \/ Alias \/ Gc
    \/ \E w \in Ws : Fin(w)
Next == IF Slow THEN NextSlow ELSE NextAll
Spec == Init /\ [][Next]_vars

TypeOK == var \in [Vs -> {0} \cup Ws] /\ wr \in [Ws -> {-1, 0} \cup Os] /\ hold \in {0} \cup Os /\ val \in [Os -> V \cup {-1}]
NoDangling == /\ \A s \in Vs : var[s] # 0 => wr[var[s]] # -1
              /\ \A w \in Ws : wr[w] > 0 => val[wr[w]] >= 0
              /\ hold # 0 => val[hold] >= 0
NoLeak == \A o \in Os : val[o] >= 0 => Owners(o, wr, hold) # {}
OneOwner == (Arg # "share" /\ Dup # "share") => \A o \in Os : Cardinality(Owners(o, wr, hold)) <= 1
(* finalisation never touches what Java can still reach *)
FinHarmless == [][act'.op \in {"fin", "gc"} => \A s \in Vs : var[s] # 0 => wr'[var[s]] = wr[var[s]] /\ (wr[var[s]] > 0 => val'[wr[var[s]]] = val[wr[var[s]]])]_vars
(* references leave ownership alone *)
RefsKeep == [][act'.op \in {"get", "set", "two"} => wr' = wr /\ hold' = hold /\ act'.dead = {}]_vars

St == [var |-> var, wr |-> wr, hold |-> hold, val |-> val]
view == St
EmitInit == (TLCGet("level") > 1) \/ PrintT("I " \o ToJson(St))
EmitEdge == PrintT("E " \o ToJson([f |-> St, a |-> act', t |-> St']))
===============================================================================
