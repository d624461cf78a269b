------------------------------- MODULE SmartPtr --------------------------------
(* Foreign handles that share Rust objects behind smart pointers, and the calls made through them.  *)
(* h[i] is the object of handle i (0: empty), cls[i] its class ("a" or "b"), kept the object of        *)
(* class a which Rust itself keeps, val[o] the value of object o (-1: it does not exist).                *)
(* Kind[c]: share: handles may share one object; copy: passing a handle by value leaves it usable;          *)
(* cell: "none", "refcell" (one object may be borrowed several times for reading), "mutex" (only once).       *)
(* OptMoves: an object passed as Option by value is moved even when the class can be copied.                   *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANTS Handles, Cls, Kind, MaxId, V, OptMoves

VARIABLES h, kept, val, act
vars == <<h, kept, val, act>>

Ids == 1..MaxId
Alive == {o \in Ids : val[o] >= 0}
Fresh == {o \in Ids : val[o] = -1 /\ \A j \in Ids : j < o => val[j] # -1}
Owners(o, hh, kk) == Cardinality({i \in Handles : hh[i] = o}) + (IF kk = o THEN 1 ELSE 0)
KA == Kind["a"]
K(i) == Kind[Cls[i]]

Init == h = [i \in Handles |-> 0] /\ kept = 0 /\ val = [o \in Ids |-> -1] /\ act = [op |-> "init"]

Step(a, hh, kk, vv) ==
    LET dead == {o \in Ids : vv[o] >= 0 /\ Owners(o, hh, kk) = 0}
    IN /\ h' = hh /\ kept' = kk /\ val' = [o \in Ids |-> IF o \in dead THEN -1 ELSE vv[o]]
       /\ act' = a @@ [dead |-> dead]
Same(a, vv) == Step(a, h, kept, vv)

New(i) == \E v \in V, o \in Fresh : Step([op |-> "new", i |-> i, v |-> v, obj |-> o], [h EXCEPT ![i] = o], kept, [val EXCEPT ![o] = v])
Drop(i) == h[i] # 0 /\ Step([op |-> "drop", i |-> i], [h EXCEPT ![i] = 0], kept, val)
(* copy construction or assignment of handles, where the class can be copied *)
Copy(i, j) == /\ K(i).copy /\ Cls[i] = Cls[j] /\ i # j /\ h[j] # 0
              /\ Step([op |-> "copy", i |-> i, j |-> j], [h EXCEPT ![i] = h[j]], kept, val)
(* calls: m(&self) and f(&T); &mut self and &mut T *)
Get(i, how) == h[i] # 0 /\ Same([op |-> "get", i |-> i, how |-> how, ret |-> val[h[i]]], val)
Set(i, how) == h[i] # 0 /\ \E v \in V : Same([op |-> "set", i |-> i, how |-> how, v |-> v, ret |-> val[h[i]]], [val EXCEPT ![h[i]] = v])
(* two objects in one call; the same object twice only where Rust allows it *)
TwoOk(i, j) == h[i] # 0 /\ h[j] # 0 /\ (h[i] = h[j] => K(i).cell # "mutex")
Two(i, j, how) == TwoOk(i, j) /\ Same([op |-> "two", i |-> i, j |-> j, how |-> how, ret |-> val[h[i]] * 10 + val[h[j]]], val)
Distinct(i, j) == h[i] # 0 /\ h[j] # 0 /\ h[i] # h[j]
Xfer(i, j) == Distinct(i, j) /\ Same([op |-> "xfer", i |-> i, j |-> j, ret |-> val[h[i]]], [val EXCEPT ![h[i]] = val[h[j]]])
Swap(i, j) == Distinct(i, j) /\ Same([op |-> "swap", i |-> i, j |-> j, ret |-> val[h[i]] * 10 + val[h[j]]],
                                     [val EXCEPT ![h[i]] = val[h[j]], ![h[j]] = val[h[i]]])
(* handle i's method runs foreign code, which calls handle j *)
NestGet(i, j) == TwoOk(i, j) /\ Same([op |-> "nestget", i |-> i, j |-> j, ret |-> val[h[i]] * 10 + val[h[j]]], val)
NestSet(i, j) == Distinct(i, j) /\ \E v \in V : Same([op |-> "nestset", i |-> i, j |-> j, v |-> v, ret |-> val[h[i]] * 10 + val[h[j]]], [val EXCEPT ![h[j]] = v])
(* a new object made from this one *)
Dup(i, j) == h[i] # 0 /\ Cls[i] = Cls[j] /\ \E o \in Fresh : Step([op |-> "dup", i |-> j, j |-> i, obj |-> o], [h EXCEPT ![j] = o], kept, [val EXCEPT ![o] = val[h[i]]])
(* Rust's own pointer (class a) *)
A(i) == Cls[i] = "a"
Keep(i, how) == /\ A(i) /\ h[i] # 0
                /\ Step([op |-> "keep", i |-> i, how |-> how], IF KA.copy /\ ~(OptMoves /\ how = "opt") THEN h ELSE [h EXCEPT ![i] = 0], h[i], val)
KeepNone == kept # 0 /\ Step([op |-> "keepnone"], h, 0, val)
Kept(i, how) == /\ A(i) /\ (how = "val" => kept # 0)
                /\ Step([op |-> "kept", i |-> i, how |-> how], [h EXCEPT ![i] = kept], IF KA.share THEN kept ELSE 0, val)
KeptGet == kept # 0 /\ Same([op |-> "keptget", ret |-> val[kept]], val)
KeptSet == kept # 0 /\ \E v \in V : Same([op |-> "keptset", v |-> v, ret |-> val[kept]], [val EXCEPT ![kept] = v])

Next == \/ \E i \in Handles : \/ New(i) \/ Drop(i)
                              \/ \E how \in {"self", "arg"} : Get(i, how) \/ Set(i, how)
                              \/ Set(i, "inline")
                              \/ \E j \in Handles : \/ Copy(i, j) \/ Xfer(i, j) \/ Swap(i, j) \/ NestGet(i, j) \/ NestSet(i, j) \/ Dup(i, j)
                                                    \/ \E how \in {"self", "arg"} : Two(i, j, how)
                              \/ \E how \in {"val", "opt"} : Keep(i, how) \/ Kept(i, how)
        \/ KeepNone \/ KeptGet \/ KeptSet
Spec == Init /\ [][Next]_vars

TypeOK == h \in [Handles -> Ids \cup {0}] /\ kept \in Ids \cup {0} /\ val \in [Ids -> V \cup {-1}]
NoDangling == (\A i \in Handles : h[i] # 0 => h[i] \in Alive) /\ (kept # 0 => kept \in Alive)
NoLeak == \A o \in Alive : Owners(o, h, kept) > 0
OneClass == \A i, j \in Handles : h[i] # 0 /\ h[i] = h[j] => Cls[i] = Cls[j]
Unshared == \A o \in Alive : ~KA.share /\ (\E i \in Handles : A(i) /\ h[i] = o) => Owners(o, h, kept) = 1
(* a call through one handle changes the object of that handle only *)
Local == [][\A o \in Ids : val[o] >= 0 /\ val'[o] >= 0 /\ val'[o] # val[o]
            => \/ act'.op = "keptset" /\ o = kept
               \/ act'.op \in {"set", "xfer", "swap"} /\ o = h[act'.i]
               \/ act'.op \in {"swap", "nestset"} /\ o = h[act'.j]]_vars

St == [h |-> h, kept |-> kept, val |-> val]
view == St
EmitInit == (TLCGet("level") > 1) \/ PrintT("I " \o ToJson(St))
EmitEdge == PrintT("E " \o ToJson([f |-> St, a |-> act', t |-> St']))
===============================================================================
