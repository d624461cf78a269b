-------------------------------- MODULE CppSeq --------------------------------
(* C++ containers over Rust sequences.                                              *)
(* q[s]: what container variable s stands for (sequence of element ids), hold: a       *)
(* sequence kept by Rust (seen from C++ as slices), e: one element owned by C++ alone   *)
(* (0 = none), val[i] = -1: element i does not exist. tag[s] = "z": an empty container    *)
(* which C++ made (default, moved-from, cleared), "r": one that came from Rust.              *)
(* Kind: "object" (RustForeignVec/-Slice), "prim" (RustVec/RustSlice), "access" (containers    *)
(* of user rules: RustVecAccess/RustSliceAccess), "str" (RustString).                             *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json

CONSTANTS Kind, SlotSeq, Vals, MaxTotal, MaxMake

VARIABLES q, tag, hold, e, val, act
vars == <<q, tag, hold, e, val, act>>

Slots == {SlotSeq[i] : i \in 1..Len(SlotSeq)}
MaxId == MaxTotal + MaxMake
Ids == 1..MaxId
Free == -1
Object == Kind = "object"
Prim == Kind = "prim"
Access == Kind = "access"
Str == Kind = "str"

RECURSIVE ConcatAll(_, _)
ConcatAll(f, i) == IF i > Len(SlotSeq) THEN <<>> ELSE f[SlotSeq[i]] \o ConcatAll(f, i + 1)
AllOf(f, h, x) == ConcatAll(f, 1) \o h \o (IF x = 0 THEN <<>> ELSE <<x>>)
Range(s) == {s[i] : i \in 1..Len(s)}

Init == /\ q = [s \in Slots |-> <<>>] /\ tag = [s \in Slots |-> "z"] /\ hold = <<>> /\ e = 0
        /\ val = [i \in Ids |-> Free] /\ act = [op |-> "init"]

IndexIn(L, x) == IF \E i \in 1..Len(L) : L[i] = x THEN CHOOSE i \in 1..Len(L) : L[i] = x ELSE 0
(* commit: new contents f, h, x with values v; elements are renumbered in the order of the places *)
Step(a, f, tg, h, x, v) ==
    LET L == AllOf(f, h, x)
    IN /\ Len(L) <= MaxTotal
       /\ q' = [s \in Slots |-> [i \in 1..Len(f[s]) |-> IndexIn(L, f[s][i])]]
       /\ tag' = [s \in Slots |-> IF f[s] # <<>> THEN "r" ELSE tg[s]]
       /\ hold' = [i \in 1..Len(h) |-> IndexIn(L, h[i])]
       /\ e' = IndexIn(L, x)
       /\ val' = [i \in Ids |-> IF i <= Len(L) THEN v[L[i]] ELSE Free]
       /\ act' = a @@ [drops |-> {i \in Ids : (val[i] # Free \/ v[i] # Free) /\ i \notin Range(L)},
                       from |-> [q |-> f, hold |-> h, e |-> x]]

With(f, s, x) == [f EXCEPT ![s] = x]
(* n fresh ids, smallest first *)
RECURSIVE Take(_, _)
Take(S, n) == IF n = 0 THEN <<>> ELSE LET m == CHOOSE i \in S : \A j \in S : i <= j IN <<m>> \o Take(S \ {m}, n - 1)
FreeIds == {i \in Ids : val[i] = Free}
NewIds(n) == Take(FreeIds, n)
Can(n) == Cardinality(FreeIds) >= n
Put(ids, vs) == [i \in Ids |-> IF IndexIn(ids, i) # 0 THEN vs[IndexIn(ids, i)] ELSE val[i]]
Seqs == UNION {[1..n -> Vals] : n \in 0..MaxMake}
ValsOf(ids) == [i \in 1..Len(ids) |-> val[ids[i]]]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Hash(_)
Hash(vs) == IF vs = <<>> THEN 0 ELSE Hash(SubSeq(vs, 1, Len(vs) - 1)) * 3 + vs[Len(vs)] + 1
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Make(s, vs) == Can(Len(vs)) /\ LET n == NewIds(Len(vs)) IN
    Step([op |-> "make", s |-> s, vs |-> vs, ids |-> n], With(q, s, n), With(tag, s, "r"), hold, e, Put(n, vs))
MakeHold(vs) == ~Str /\ Can(Len(vs)) /\ LET n == NewIds(Len(vs)) IN
    Step([op |-> "makeHold", vs |-> vs, ids |-> n], q, tag, n, e, Put(n, vs))
Default(s) == Step([op |-> "default", s |-> s], With(q, s, <<>>), With(tag, s, "z"), hold, e, val)
Move(s, t, op) == s # t /\ Step([op |-> op, s |-> s, t |-> t], With(With(q, s, q[t]), t, <<>>), With(With(tag, s, tag[t]), t, "z"), hold, e, val)
Swap(s, t) == s # t /\ Step([op |-> "swap", s |-> s, t |-> t], With(With(q, s, q[t]), t, q[s]), With(With(tag, s, tag[t]), t, tag[s]), hold, e, val)
Scope(s) == Step([op |-> "scope", s |-> s], With(q, s, <<>>), With(tag, s, "z"), hold, e, val)
Clear(s) == (Object \/ Prim) /\ Step([op |-> "clear", s |-> s], With(q, s, <<>>), With(tag, s, "z"), hold, e, val)
Rewrap(s) == (Object \/ Prim) /\ Step([op |-> "rewrap", s |-> s], q, tag, hold, e, val)

(* copies: only strings *)
CopyTo(s, t, op) == Str /\ s # t /\ Can(Len(q[t])) /\ LET n == NewIds(Len(q[t])) IN
    Step([op |-> op, s |-> s, t |-> t, ids |-> n], With(q, s, n), With(tag, s, IF n = <<>> THEN tag[t] ELSE "r"), hold, e, Put(n, ValsOf(q[t])))
CopySelf(s) == Str /\ Step([op |-> "copySelf", s |-> s], q, tag, hold, e, val)

(* single elements *)
NewE(v) == Object /\ Can(1) /\ LET n == NewIds(1) IN Step([op |-> "newE", v |-> v, ids |-> n], q, tag, hold, n[1], Put(n, <<v>>))
DropE == e # 0 /\ Step([op |-> "dropE"], q, tag, hold, 0, val)
PushE(s) == e # 0 /\ Step([op |-> "pushE", s |-> s], With(q, s, Append(q[s], e)), tag, hold, 0, val)
PushNew(s, v) == Object /\ Can(1) /\ LET n == NewIds(1) IN
    Step([op |-> "pushNew", s |-> s, v |-> v, ids |-> n], With(q, s, Append(q[s], n[1])), tag, hold, e, Put(n, <<v>>))
Remove(s, i) == Object /\ i <= Len(q[s]) /\ Step([op |-> "remove", s |-> s, i |-> i], With(q, s, Cut(q[s], i)), With(tag, s, "r"), hold, q[s][i], val)
RemoveDrop(s, i) == Object /\ i <= Len(q[s]) /\ Step([op |-> "removeDrop", s |-> s, i |-> i], With(q, s, Cut(q[s], i)), With(tag, s, "r"), hold, e, val)

(* to and from Rust *)
PutHold(s) == (Object \/ Prim) /\ Step([op |-> "put", s |-> s], With(q, s, <<>>), With(tag, s, "z"), q[s], e, val)
TakeHold(s) == (Object \/ Prim) /\ Step([op |-> "take", s |-> s], With(q, s, hold), With(tag, s, "r"), <<>>, e, val)
Consume(s) == (Object \/ Prim) /\ Step([op |-> "consume", s |-> s, ret |-> Hash(ValsOf(q[s]))], With(q, s, <<>>), With(tag, s, "z"), hold, e, val)
Pass(s, t, op) == (Object \/ Prim) /\ LET c == IF op = "passRev" THEN Rev(q[s]) ELSE q[s] IN
    Step([op |-> op, s |-> s, t |-> t], With(With(q, s, <<>>), t, c), With(With(tag, s, "z"), t, "r"), hold, e, val)

(* slices *)
Sum(s) == Object /\ Step([op |-> "sum", s |-> s, ret |-> Hash(ValsOf(q[s]))], q, tag, hold, e, val)
SumDefault == Object /\ Step([op |-> "sumDefault", ret |-> 0], q, tag, hold, e, val)
SumHold == (Object \/ Prim) /\ Step([op |-> "sumHold", ret |-> Hash(ValsOf(hold))], q, tag, hold, e, val)
SumMoved == (Object \/ Prim) /\ Step([op |-> "sumMoved", ret |-> 0], q, tag, hold, e, val)
Bump(s, i, v) == Object /\ i <= Len(q[s]) /\ val[q[s][i]] # v /\ Step([op |-> "bump", s |-> s, i |-> i, v |-> v], q, tag, hold, e, With(val, q[s][i], v))
BumpHold(i, v) == (Object \/ Prim) /\ i <= Len(hold) /\ val[hold[i]] # v /\ Step([op |-> "bumpHold", i |-> i, v |-> v], q, tag, hold, e, With(val, hold[i], v))
(* C++ writes through an iterator / a mutable slice *)
Poke(s, i, v) == Prim /\ i <= Len(q[s]) /\ val[q[s][i]] # v /\ Step([op |-> "poke", s |-> s, i |-> i, v |-> v], q, tag, hold, e, With(val, q[s][i], v))
PokeHold(i, v) == Prim /\ i <= Len(hold) /\ val[hold[i]] # v /\ Step([op |-> "pokeHold", i |-> i, v |-> v], q, tag, hold, e, With(val, hold[i], v))
(* arrays of C++ *)
SumArr(vs) == Prim /\ Step([op |-> "sumArr", vs |-> vs, ret |-> Hash(vs)], q, tag, hold, e, val)
BumpArr(vs, i, v) == Prim /\ i <= Len(vs) /\ Step([op |-> "bumpArr", vs |-> vs, i |-> i, v |-> v, ret |-> Hash([vs EXCEPT ![i] = v])], q, tag, hold, e, val)
RevArr(vs) == Prim /\ Step([op |-> "revArr", vs |-> vs, ret |-> Hash(Rev(vs))], q, tag, hold, e, val)
NullArr == Prim /\ Step([op |-> "nullArr", ret |-> 0], q, tag, hold, e, val)

Next ==
    \/ \E s \in Slots, vs \in Seqs : Make(s, vs)
    \/ \E vs \in Seqs : MakeHold(vs) \/ SumArr(vs) \/ RevArr(vs)
    \/ \E s, t \in Slots : Move(s, t, "moveAssign") \/ Move(s, t, "moveCtor") \/ Swap(s, t) \/ Pass(s, t, "pass") \/ Pass(s, t, "passRev")
                           \/ CopyTo(s, t, "copyAssign") \/ CopyTo(s, t, "copyCtor")
    \/ \E s \in Slots : Default(s) \/ Scope(s) \/ Clear(s) \/ Rewrap(s) \/ CopySelf(s) \/ PushE(s) \/ PutHold(s) \/ TakeHold(s) \/ Consume(s) \/ Sum(s)
    \/ \E s \in Slots, v \in Vals : PushNew(s, v)
    \/ \E v \in Vals : NewE(v)
    \/ \E s \in Slots, i \in 1..MaxTotal : Remove(s, i) \/ RemoveDrop(s, i)
    \/ \E i \in 1..MaxTotal, v \in Vals : BumpHold(i, v) \/ PokeHold(i, v)
    \/ \E s \in Slots, i \in 1..MaxTotal, v \in Vals : Bump(s, i, v) \/ Poke(s, i, v)
    \/ \E vs \in Seqs, i \in 1..MaxMake, v \in Vals : BumpArr(vs, i, v)
    \/ DropE \/ SumDefault \/ SumHold \/ SumMoved \/ NullArr

Spec == Init /\ [][Next]_vars

-------------------------------------------------------------------------------
(* every existing element is in exactly one place, once *)
Places == AllOf(q, hold, e)
OnePlace == /\ \A i \in Ids : val[i] # Free <=> i \in Range(Places)
            /\ Cardinality(Range(Places)) = Len(Places)
(* an element that leaves all places is dropped in that step, nothing else is *)
NewOf(a) == IF "ids" \in DOMAIN a THEN Range(a.ids) ELSE {}
DropsExact == [][act'.drops = ((Range(Places) \cup NewOf(act')) \ Range(AllOf(act'.from.q, act'.from.hold, act'.from.e)))]_vars
(* containers other than the ones named by the step keep their elements in order *)
Untouched == [][\A s \in Slots : ~("s" \in DOMAIN act' /\ act'.s = s) /\ ~("t" \in DOMAIN act' /\ act'.t = s) => act'.from.q[s] = q[s]]_vars
(* moved-from containers are empty *)
MovedEmpty == [][act'.op \in {"moveAssign", "moveCtor"} => q'[act'.t] = <<>> /\ act'.from.q[act'.s] = q[act'.t]]_vars

St == [q |-> q, tag |-> tag, hold |-> hold, e |-> e, val |-> val]
view == St
EmitInit == (TLCGet("level") > 1) \/ PrintT("I " \o ToJson(St))
EmitEdge == PrintT("E " \o ToJson([f |-> St, a |-> act', t |-> St']))
===============================================================================
