-------------------------------- MODULE CppOwn --------------------------------
(* Ownership of Rust objects through generated C++ wrapper objects.            *)
(* Slots are C++ wrapper variables (own[s] = the object they own, 0 = nothing),  *)
(* raw is a released pointer, hold a Rust container, ref a non-owning wrapper or  *)
(* reference to an object (0 = not usable: nothing, or its object moved or died).  *)
(* val[i] = -1: object i does not exist. An object dies exactly in the step in      *)
(* which its last owner goes away.                                                  *)
(* Kind: "plain" (move only), "copy" (copies are new objects), "shared" (copies      *)
(* share the object).                                                                 *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANTS Kind, SlotSeq, Vals, MaxId

VARIABLES own, raw, hold, ref, val, act
vars == <<own, raw, hold, ref, val, act>>

Slots == {SlotSeq[i] : i \in 1..Len(SlotSeq)}
Ids == 1..MaxId
Free == -1
Fresh == {i \in Ids : val[i] = Free /\ \A j \in Ids : j < i => val[j] # Free}
Owned(o, r, h) == {o[s] : s \in Slots} \cup {r, h}

Init == /\ own = [s \in Slots |-> 0] /\ raw = 0 /\ hold = 0 /\ ref = 0
        /\ val = [i \in Ids |-> Free] /\ act = [op |-> "init"]

(* Objects are renumbered after every step in the order A, B, .., raw, hold, so that histories which differ only in        *)
(* object names meet; act.from tells which object (old numbering, act.id for a new one) is now at each place.              *)
Renum(o, r, h) ==
    LET cand == [i \in 1..(Len(SlotSeq) + 2) |-> IF i <= Len(SlotSeq) THEN o[SlotSeq[i]] ELSE IF i = Len(SlotSeq) + 1 THEN r ELSE h]
        firsts == {i \in DOMAIN cand : cand[i] # 0 /\ \A j \in 1..(i - 1) : cand[j] # cand[i]}
    IN [x \in 0..MaxId |-> IF \E i \in firsts : cand[i] = x
                           THEN Cardinality({j \in firsts : j <= (CHOOSE i \in firsts : cand[i] = x)}) ELSE 0]

(* commit a step: new owners o, r, h; candidate values v; rf the candidate reference *)
Step(a, o, r, h, rf, v) ==
    LET alive == Owned(o, r, h)
        m == Renum(o, r, h)
    IN /\ own' = [s \in Slots |-> m[o[s]]] /\ raw' = m[r] /\ hold' = m[h]
       /\ ref' = m[rf]
       /\ val' = [i \in Ids |-> IF \E x \in Ids : m[x] = i THEN v[CHOOSE x \in Ids : m[x] = i] ELSE Free]
       /\ act' = a @@ [drops |-> {i \in Ids : (val[i] # Free \/ v[i] # Free) /\ i \notin alive},
                       from |-> [own |-> o, raw |-> r, hold |-> h]]

With(f, s, x) == [f EXCEPT ![s] = x]
Plain == Kind = "plain"
Copy == Kind = "copy"
Shared == Kind = "shared"

New(s, v) == \E i \in Fresh : Step([op |-> "new", s |-> s, v |-> v, id |-> i], With(own, s, i), raw, hold, ref, With(val, i, v))
(* a Rust function that makes one: returned by value or as Option (Some / None) *)
Make(s, v) == \E i \in Fresh : Step([op |-> "make", s |-> s, v |-> v, id |-> i], With(own, s, i), raw, hold, ref, With(val, i, v))
MakeOpt(s, v) == \E i \in Fresh : Step([op |-> "makeOpt", s |-> s, v |-> v, id |-> i], With(own, s, i), raw, hold, ref, With(val, i, v))
MakeNone(s) == Step([op |-> "makeNone", s |-> s, ret |-> 0], own, raw, hold, ref, val)
(* an Option result that nobody looks at, and a plain result *)
Ignore(v, op) == \E i \in Fresh : Step([op |-> op, v |-> v, id |-> i], own, raw, hold, ref, With(val, i, v))
MoveAssign(s, t) == s # t /\ Step([op |-> "moveAssign", s |-> s, t |-> t], With(With(own, s, own[t]), t, 0), raw, hold, ref, val)
MoveCtor(s, t) == s # t /\ Step([op |-> "moveCtor", s |-> s, t |-> t], With(With(own, s, own[t]), t, 0), raw, hold, ref, val)
Swap(s, t) == s # t /\ Step([op |-> "swap", s |-> s, t |-> t], With(With(own, s, own[t]), t, own[s]), raw, hold, ref, val)
Destroy(s) == Step([op |-> "destroy", s |-> s], With(own, s, 0), raw, hold, ref, val)
Scope(s) == Step([op |-> "scope", s |-> s], With(own, s, 0), raw, hold, ref, val)   \* moved into a local that goes out of scope
Release(s) == raw = 0 /\ Step([op |-> "release", s |-> s], With(own, s, 0), own[s], hold, ref, val)
Adopt(s) == raw # 0 /\ Step([op |-> "adopt", s |-> s], With(own, s, raw), 0, hold, ref, val)

(* copies *)
CopyOf(s, t, op) ==
    \/ /\ Copy /\ own[t] # 0
       /\ \E i \in Fresh : Step([op |-> op, s |-> s, t |-> t, id |-> i], With(own, s, i), raw, hold, ref, With(val, i, val[own[t]]))
    \/ /\ (Shared \/ (Copy /\ own[t] = 0))
       /\ Step([op |-> op, s |-> s, t |-> t], With(own, s, own[t]), raw, hold, ref, val)
CopyAssign(s, t) == s # t /\ CopyOf(s, t, "copyAssign")
CopyCtor(s, t) == s # t /\ CopyOf(s, t, "copyCtor")
CopySelf(s) == ~Plain /\ Step([op |-> "copySelf", s |-> s], own, raw, hold, ref, val)

(* methods and references *)
Get(s) == own[s] # 0 /\ Step([op |-> "get", s |-> s, ret |-> val[own[s]]], own, raw, hold, ref, val)
Set(s, v) == own[s] # 0 /\ val[own[s]] # v /\ Step([op |-> "set", s |-> s, v |-> v], own, raw, hold, ref, With(val, own[s], v))
Same(s, t) == own[s] # 0 /\ own[t] # 0 /\ Step([op |-> "same", s |-> s, t |-> t, ret |-> IF own[s] = own[t] THEN 1 ELSE 0], own, raw, hold, ref, val)
Peek(s) == own[s] # 0 /\ Step([op |-> "peek", s |-> s, ret |-> val[own[s]]], own, raw, hold, ref, val)
Poke(s, v) == own[s] # 0 /\ val[own[s]] # v /\ Step([op |-> "poke", s |-> s, v |-> v], own, raw, hold, ref, With(val, own[s], v))
OptRef(s) == ~Shared /\ own[s] # 0 /\ Step([op |-> "optRef", s |-> s, ret |-> val[own[s]]], own, raw, hold, ref, val)
OptRefNone == ~Shared /\ Step([op |-> "optRefNone", ret |-> -5], own, raw, hold, ref, val)
AsRef(s, op) == own[s] # 0 /\ Step([op |-> op, s |-> s], own, raw, hold, own[s], val)
ReadRef == ref # 0 /\ Step([op |-> "readRef", ret |-> val[ref]], own, raw, hold, ref, val)
PassRef == ref # 0 /\ Step([op |-> "passRef", ret |-> val[ref]], own, raw, hold, ref, val)
MoveRef == ref # 0 /\ Step([op |-> "moveRef", ret |-> val[ref]], own, raw, hold, 0, val)
DropRef == Step([op |-> "dropRef"], own, raw, hold, 0, val)

(* by value: the object moves into Rust, which drops it, gives it back or keeps it.                                   *)
(* A plain or copied object changes its address when it moves (the reference is no longer usable); a shared one stays. *)
RefAfter(i) == IF ref = i /\ ~Shared THEN 0 ELSE ref
Consume(s, op) == own[s] # 0 /\ Step([op |-> op, s |-> s, ret |-> val[own[s]]], With(own, s, 0), raw, hold, RefAfter(own[s]), val)
OptNone == Step([op |-> "optNone", ret |-> -5], own, raw, hold, ref, val)
Pass(s, t, op) == own[s] # 0 /\ Step([op |-> op, s |-> s, t |-> t], With(With(own, s, 0), t, own[s]), raw, hold, RefAfter(own[s]), val)
Put(s) == own[s] # 0 /\ Step([op |-> "put", s |-> s], With(own, s, 0), raw, own[s], RefAfter(own[s]), val)
Take(s) == hold # 0 /\ Step([op |-> "take", s |-> s], With(own, s, hold), raw, 0, RefAfter(hold), val)
TakeNone(s) == hold = 0 /\ Step([op |-> "takeNone", s |-> s, ret |-> 0], own, raw, hold, ref, val)
Replace(s) == own[s] # 0 /\ hold # 0 /\ Step([op |-> "replace", s |-> s], With(own, s, hold), raw, own[s],
                 IF Shared \/ ref \notin {own[s], hold} THEN ref ELSE 0, val)
HoldDrop == Step([op |-> "holdDrop"], own, raw, 0, RefAfter(hold), val)
HoldMove == Step([op |-> "holdMove"], own, raw, hold, ref, val)   \* the C++ object of the container is moved
(* passing an lvalue by value copies *)
ConsumeCopy(s, op) ==
    /\ own[s] # 0
    /\ \/ Copy /\ \E i \in Fresh : Step([op |-> op, s |-> s, id |-> i, ret |-> val[own[s]]], own, raw, hold, ref, With(val, i, val[own[s]]))
       \/ Shared /\ Step([op |-> op, s |-> s, ret |-> val[own[s]]], own, raw, hold, ref, val)
PutCopy(s) ==
    /\ own[s] # 0
    /\ \/ Copy /\ \E i \in Fresh : Step([op |-> "putCopy", s |-> s, id |-> i], own, raw, i, RefAfter(hold), With(val, i, val[own[s]]))
       \/ Shared /\ Step([op |-> "putCopy", s |-> s], own, raw, own[s], ref, val)
(* references to what Rust holds *)
HoldGet == hold # 0 /\ ~Shared /\ Step([op |-> "holdGet", ret |-> val[hold]], own, raw, hold, hold, val)
HoldGetOpt == hold # 0 /\ ~Shared /\ Step([op |-> "holdGetOpt", ret |-> val[hold]], own, raw, hold, hold, val)
HoldGetNone == hold = 0 /\ ~Shared /\ Step([op |-> "holdGetNone", ret |-> 0], own, raw, hold, ref, val)
(* a further owner of the shared object *)
HoldShare(s) == hold # 0 /\ Shared /\ Step([op |-> "holdShare", s |-> s], With(own, s, hold), raw, hold, ref, val)

Next ==
    \/ \E s \in Slots, v \in Vals : New(s, v) \/ Make(s, v) \/ MakeOpt(s, v) \/ Set(s, v) \/ Poke(s, v)
    \/ \E v \in Vals, op \in {"ignoreOpt", "ignore"} : Ignore(v, op)
    \/ \E s, t \in Slots : \/ MoveAssign(s, t) \/ MoveCtor(s, t) \/ Swap(s, t) \/ Same(s, t)
                           \/ Pass(s, t, "pass") \/ Pass(s, t, "passOpt")
                           \/ (~Plain /\ (CopyAssign(s, t) \/ CopyCtor(s, t)))
    \/ \E s \in Slots : \/ MakeNone(s) \/ Destroy(s) \/ Scope(s) \/ Release(s) \/ Adopt(s) \/ CopySelf(s) \/ Get(s) \/ Peek(s)
                        \/ OptRef(s) \/ AsRef(s, "asRref") \/ AsRef(s, "asCref")
                        \/ Consume(s, "consume") \/ Consume(s, "consumeOpt")
                        \/ Put(s) \/ Take(s) \/ TakeNone(s) \/ Replace(s) \/ HoldShare(s)
                        \/ (~Plain /\ (ConsumeCopy(s, "consumeCopy") \/ ConsumeCopy(s, "consumeOptCopy") \/ PutCopy(s)))
    \/ OptRefNone \/ ReadRef \/ PassRef \/ MoveRef \/ DropRef \/ OptNone \/ HoldDrop \/ HoldMove
    \/ HoldGet \/ HoldGetOpt \/ HoldGetNone

Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
Owners(i) == Cardinality({s \in Slots : own[s] = i}) + (IF raw = i THEN 1 ELSE 0) + (IF hold = i THEN 1 ELSE 0)
(* an object exists exactly as long as it has an owner; only shared objects have several *)
OwnedIffAlive == \A i \in Ids : (val[i] # Free) <=> Owners(i) > 0
SingleOwner == ~Shared => \A i \in Ids : Owners(i) <= 1
RefAlive == ref # 0 => val[ref] # Free
(* every object that disappears is reported as dropped, once, and nothing else is *)
Before == {i \in Ids : val[i] # Free}
NewId == IF "id" \in DOMAIN act' THEN {act'.id} ELSE {}
DropsExact == [][act'.drops = (Before \cup NewId) \ ({act'.from.own[s] : s \in Slots} \cup {act'.from.raw, act'.from.hold})]_vars
(* Rust values change only by set and poke, and only of that object *)
ValuesKept == [][\A s \in Slots : act'.op \notin {"set", "poke"} /\ act'.from.own[s] \in Before
                    => val'[own'[s]] = val[act'.from.own[s]]]_vars

St == [own |-> own, raw |-> raw, hold |-> hold, ref |-> ref, val |-> val]
view == St
EmitInit == (TLCGet("level") > 1) \/ PrintT("I " \o ToJson(St))
EmitEdge == PrintT("E " \o ToJson([f |-> St, a |-> act', t |-> St']))
===============================================================================
