-------------------------------- MODULE PyOwn ---------------------------------
(* Python objects and the Rust objects behind them.                                              *)
(* var[s]: the Python object which variable s refers to (0: None). wr[w]: the Rust object behind     *)
(* Python object w, -1: there is no such Python object. cyc: a Python object which only a cycle of      *)
(* garbage refers to. hold: the Rust object which Rust keeps itself. val[o]: its value, -1: none.          *)
(* A Python object goes away with the last reference to it, one in a cycle when garbage is collected.        *)
(* Shared: Python objects and Rust share Rust objects; CanClone: the class can be copied; Lock: one              *)
(* object cannot be used twice in a call; Bad: a call with a wrong argument leaves everything as it was.          *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANTS Shared, CanClone, Lock, PtrArg, PtrRet, MaxW, MaxO, V

VARIABLES var, wr, cyc, hold, val, act
vars == <<var, wr, cyc, hold, val, act>>
Vs == {"A", "B"}
Ws == 1..MaxW
Os == 1..MaxO
Free == {w \in Ws : wr[w] = -1}
FreshW == {w \in Free : \A x \in Free : w <= x}
FreshO(vv) == {o \in Os : vv[o] = -1 /\ \A x \in Os : x < o => vv[x] # -1}
O(s) == wr[var[s]]

Init == /\ var = [s \in Vs |-> 0] /\ wr = [w \in Ws |-> -1] /\ cyc = 0 /\ hold = 0 /\ val = [o \in Os |-> -1]
        /\ act = [op |-> "init"]
(* vr, ww, cc, hh, vv: the state before unreferenced things go away; tmp: temporary copies made and dropped *)
Step(a, vr, ww, cc, hh, vv, tmp) ==
    LET w2 == [w \in Ws |-> IF w = cc \/ \E s \in Vs : vr[s] = w THEN ww[w] ELSE -1]
        dead == {o \in Os : vv[o] >= 0 /\ hh # o /\ \A w \in Ws : w2[w] # o}
        v2 == [o \in Os |-> IF o \in dead THEN -1 ELSE vv[o]]
    IN /\ var' = vr /\ wr' = w2 /\ cyc' = cc /\ hold' = hh /\ val' = v2
       /\ act' = a @@ [dead |-> dead, tmp |-> tmp,
                       own |-> [o \in Os |-> IF v2[o] = -1 THEN 0 ELSE Cardinality({w \in Ws : w2[w] = o}) + (IF hh = o THEN 1 ELSE 0)]]
Same(a, vv, tmp) == Step(a, var, wr, cyc, hold, vv, tmp)

(* how an object is passed: the receiver, &T or &mut T, the pointer by reference or value, by value, as Option *)
Hows == {"self", "arg"} \cup (IF PtrArg THEN {"ptr"} ELSE {}) \cup (IF Shared THEN {"own", "opt"} ELSE {}) \cup (IF CanClone THEN {"val", "optval"} ELSE {})
Copies(how) == IF how \in {"val", "optval"} THEN 1 ELSE 0
(* a new Python object in variable s for an existing Rust object *)
Wrap(a, s, o, hh) == \E w \in FreshW : Step(a, [var EXCEPT ![s] = w], [wr EXCEPT ![w] = o], cyc, hh, val, 0)
(* the same for a new Rust object with value v *)
Make(a, s, v, hh) == \E w \in FreshW, o \in FreshO(val) : Step(a @@ [obj |-> <<o>>], [var EXCEPT ![s] = w], [wr EXCEPT ![w] = o], cyc, hh, [val EXCEPT ![o] = v], 0)

New(s) == \E v \in V : Make([op |-> "new", s |-> s, v |-> v], s, v, hold)
Get(s, how) == var[s] # 0 /\ Same([op |-> "get", s |-> s, how |-> how, ret |-> val[O(s)]], val, Copies(how))
GetNone(how) == how \in Hows \cap {"opt", "optval"} /\ Same([op |-> "getnone", how |-> how, ret |-> -5], val, 0)
Set(s, how) == var[s] # 0 /\ \E v \in V : Same([op |-> "set", s |-> s, how |-> how, v |-> v, ret |-> val[O(s)]], [val EXCEPT ![O(s)] = v], 0)
(* setting a copy changes nothing else *)
SetCopy(s) == CanClone /\ var[s] # 0 /\ \E v \in V : Same([op |-> "setcopy", s |-> s, v |-> v, ret |-> val[O(s)]], val, 1)
Two(s, t, how) == /\ var[s] # 0 /\ var[t] # 0 /\ (O(s) = O(t) => ~Lock \/ how = "own")
                  /\ how \in {"mix", "val"} => CanClone
                  /\ Same([op |-> "two", s |-> s, t |-> t, how |-> how, ret |-> val[O(s)] * 10 + val[O(t)]], val, CASE how = "val" -> 2 [] how = "mix" -> 1 [] OTHER -> 0)
Sum(s, t, how) == /\ var[s] # 0 /\ var[t] # 0 
                  /\ Same([op |-> "sum", s |-> s, t |-> t, how |-> how, ret |-> val[O(s)] * 10 + val[O(t)]], val, IF how = "ptrs" THEN 0 ELSE 2)
(* a call with an argument that is refused *)
Bad(s, how) == var[s] # 0 /\ Same([op |-> "bad", s |-> s, how |-> how, exc |-> TRUE], val, 0)
(* the module's Error *)
Err(s) == var[s] # 0 /\ Same([op |-> "err", s |-> s, exc |-> TRUE, ret |-> val[O(s)]], val, 0)
(* copies and further pointers *)
Copy(s, t, how) == CanClone /\ var[s] # 0 /\ (how \in {"me", "dup"} => ~Shared) /\ Make([op |-> "copy", s |-> s, t |-> t, how |-> how], t, val[O(s)], hold)
Share(s, t, how) == Shared /\ var[s] # 0 /\ Wrap([op |-> "share", s |-> s, t |-> t, how |-> how], t, O(s), hold)
Alias == var["A"] # var["B"] /\ var["B"] # 0 /\ Step([op |-> "alias"], [var EXCEPT !["A"] = var["B"]], wr, cyc, hold, val, 0)
Del(s) == var[s] # 0 /\ Step([op |-> "del", s |-> s], [var EXCEPT ![s] = 0], wr, cyc, hold, val, 0)
(* what only a cycle refers to stays until it is collected *)
Cycle(s) == var[s] # 0 /\ cyc = 0 /\ Step([op |-> "cycle", s |-> s], [var EXCEPT ![s] = 0], wr, var[s], hold, val, 0)
Gc == Step([op |-> "gc"], var, wr, 0, hold, val, 0)

(* Rust's own object *)
HoldNew == \E v \in V, o \in FreshO(val) : Step([op |-> "holdnew", v |-> v, obj |-> <<o>>], var, wr, cyc, o, [val EXCEPT ![o] = v], 0)
HoldDrop == hold # 0 /\ Step([op |-> "holddrop"], var, wr, cyc, 0, val, 0)
HoldSet(how) == hold # 0 /\ \E v \in V : Same([op |-> "holdset", how |-> how, v |-> v, ret |-> val[hold]], [val EXCEPT ![hold] = v], 0)
Keep(s, how) == /\ var[s] # 0
                /\ \/ Shared /\ how \in {"own", "ref", "opt"} /\ Step([op |-> "keep", s |-> s, how |-> how], var, wr, cyc, O(s), val, 0)
                   \/ CanClone /\ how \in {"val", "optval"} /\ \E o \in FreshO(val) : Step([op |-> "keep", s |-> s, how |-> how, obj |-> <<o>>], var, wr, cyc, o, [val EXCEPT ![o] = val[O(s)]], 0)
KeepNone(how) == how \in Hows \cap {"opt", "optval"} /\ Step([op |-> "keepnone", how |-> how], var, wr, cyc, 0, val, 0)
TakeHows == {"val", "opt", "ok", "tuple"} \cup (IF PtrRet THEN {"ptr"} ELSE {})
Take(s, how) == hold # 0 /\ Wrap([op |-> "take", s |-> s, how |-> how], s, hold, 0)
TakeNone(s) == hold = 0 /\ Step([op |-> "takenone", s |-> s], [var EXCEPT ![s] = 0], wr, cyc, hold, val, 0)
Peek(s, how) == hold # 0 /\ Shared /\ Wrap([op |-> "peek", s |-> s, how |-> how], s, hold, hold)
PeekCopy(s, how) == hold # 0 /\ CanClone /\ ~Shared /\ Make([op |-> "peekcopy", s |-> s, how |-> how], s, val[hold], hold)
(* two new objects in one result *)
Make2(how) == \E w1, w2 \in Free, o1, o2 \in Os, v1, v2 \in V :
                /\ w1 < w2 /\ o1 < o2 /\ val[o1] = -1 /\ val[o2] = -1
                /\ \A x \in Free : x < w2 => x = w1
                /\ \A x \in Os : x < o2 /\ val[x] = -1 => x = o1
                /\ Step([op |-> "make2", how |-> how, v |-> v1, v2 |-> v2, obj |-> <<o1, o2>>], [s \in Vs |-> IF s = "A" THEN w1 ELSE w2], [wr EXCEPT ![w1] = o1, ![w2] = o2], cyc, hold,
                        [val EXCEPT ![o1] = v1, ![o2] = v2], 0)

Next == \/ \E s \in Vs : \/ New(s) \/ SetCopy(s) \/ Err(s) \/ Del(s) \/ Cycle(s) \/ TakeNone(s)
                         \/ \E how \in Hows : Get(s, how)
                         \/ \E how \in {"self", "arg"} : Set(s, how) \/ Bad(s, how)
                         \/ PtrArg /\ Bad(s, "ptr")
                         \/ \E how \in {"own", "ref", "opt", "val", "optval"} : Keep(s, how)
                         \/ \E how \in TakeHows : Take(s, how)
                         \/ \E how \in {"own", "ref", "opt"} : Peek(s, how)
                         \/ \E how \in {"ref", "refopt", "refres"} : PeekCopy(s, how)
                         \/ \E t \in Vs : \/ \E how \in {"self", "arg", "mix"} : Two(s, t, how)
                                          \/ Shared /\ Two(s, t, "own")
                                          \/ CanClone /\ (Two(s, t, "val") \/ Sum(s, t, "vec") \/ Sum(s, t, "slice"))
                                          \/ Shared /\ Sum(s, t, "ptrs")
                                          \/ \E how \in {"val", "me", "dup", "clone"} : Copy(s, t, how)
                                          \/ \E how \in {"own", "ref", "opt"} : Share(s, t, how)
        \/ Alias \/ Gc \/ HoldNew \/ HoldDrop \/ GetNone("opt") \/ GetNone("optval") \/ KeepNone("opt") \/ KeepNone("optval")
        \/ HoldSet("here") \/ HoldSet("thread")
        \/ Make2("tuple") \/ Make2("vec")
Spec == Init /\ [][Next]_vars

TypeOK == var \in [Vs -> Ws \cup {0}] /\ wr \in [Ws -> Os \cup {-1}] /\ hold \in Os \cup {0} /\ cyc \in Ws \cup {0}
Alive == {o \in Os : val[o] >= 0}
NoDangling == (\A w \in Ws : wr[w] # -1 => wr[w] \in Alive) /\ (hold # 0 => hold \in Alive) /\ (\A s \in Vs : var[s] # 0 => wr[var[s]] # -1)
NoLeak == \A o \in Alive : hold = o \/ \E w \in Ws : wr[w] = o
NoGarbage == \A w \in Ws : wr[w] # -1 => cyc = w \/ \E s \in Vs : var[s] = w
Unshared == ~Shared => \A w, x \in Ws : wr[w] # -1 /\ wr[w] = wr[x] => w = x
(* a change is seen exactly by those sharing the object *)
Local == [][\A o \in Os : val[o] >= 0 /\ val'[o] >= 0 /\ val[o] # val'[o] =>
                 \/ act'.op = "holdset" /\ o = hold
                 \/ act'.op = "set" /\ o = O(act'.s)
                 \/ act'.op \notin {"holdset", "set"} /\ o \notin act'.dead /\ "obj" \in DOMAIN act']_vars
CopyLeavesOriginal == [][act'.op \in {"copy", "setcopy", "get", "two", "sum", "bad", "err", "peekcopy"} => \A w \in Ws : (w = cyc \/ (\E s \in Vs : var'[s] = w /\ var[s] = w)) => wr'[w] = wr[w]]_vars

St == [var |-> var, wr |-> wr, cyc |-> cyc, hold |-> hold, val |-> val]
view == St
EmitInit == (TLCGet("level") > 1) \/ PrintT("I " \o ToJson(St))
EmitEdge == PrintT("E " \o ToJson([f |-> St, a |-> act', t |-> St']))
===============================================================================
