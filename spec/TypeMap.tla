------------------------------ MODULE TypeMap ------------------------------
(* Conversion rules written by the user. A type has, per direction, rules given in a sequence of         *)
(* registrations; the last one is in force. A rule has code on the Rust side and may have code on the      *)
(* foreign side. A value which crosses passes the stages in force, each once, in call direction:             *)
(* into Rust the foreign code first, out of Rust the Rust code first. A rule may lead to another type            *)
(* with rules (Via). Generic rules pass the value of their parameter (wr) or keep its case (opt, pair).           *)
(* A rule may have no Rust code (a C struct that both sides share) and foreign code under an option: what runs    *)
(* is the code whose option is set. A closure argument which the C++ side gets as a future passes its value out,  *)
(* at once or when Rust calls it later.                                                                              *)
(* Each stage is a function x |-> a*x + b (no two of them commute) and leaves its number in a log.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Exprs,        \* types under test: <<"m", k>>, <<"so", k>> (rules for the Option of k), <<"wr", e>>, <<"opt", e>>, <<"pair", e, f>>, <<"duo", e, f>>
          Parts,        \* per k the registered rules in order: [d |-> "in" / "out", r |-> <<id, a, b>> or <<>>, f |-> [option |-> <<id, a, b>>] (option "": always)]
          Config,       \* the options that are set
          Via,          \* per k 0 or the type which its rules lead to
          Base,         \* per k the values tried
          Futures,      \* closure arguments are tried
          NoIn, NoCbArg, NoCbRet, NoRes, NoCb   \* expressions (numbers) not supported in a position

VARIABLES e, kept, pend, act      \* pend: a future whose closure Rust has kept
vars == <<e, kept, pend, act>>

(* ---- the rules in force *)
Last(k, d) == CHOOSE i \in 1..Len(Parts[k]) : Parts[k][i].d = d /\ \A j \in 1..Len(Parts[k]) : Parts[k][j].d = d => j <= i
(* foreign code: the last rule which has some for an option that is set *)
Code(k, d) == LET c == {i \in 1..Len(Parts[k]) : Parts[k][i].d = d /\ DOMAIN Parts[k][i].f \cap Config # {}} IN
              IF c = {} THEN <<>> ELSE LET f == Parts[k][CHOOSE i \in c : \A j \in c : j <= i].f IN f[CHOOSE o \in DOMAIN f \cap Config : TRUE]
RuleT == [k \in 1..Len(Parts) |-> [d \in {"in", "out"} |-> [r |-> Parts[k][Last(k, d)].r, f |-> Code(k, d)]]]
Rule(k, d) == RuleT[k][d]
Fn(s, x) == IF s = <<>> THEN x ELSE (s[2] * x) + s[3]
Id(s) == IF s = <<>> THEN <<>> ELSE <<s[1]>>
RECURSIVE OutM(_, _), InM(_, _), Out(_, _), In(_, _), Vals(_)
(* result: the value, the numbers of the Rust stages and of the foreign stages in the order in which they run *)
OutM(k, x) ==
    LET q == Rule(k, "out")  y == Fn(q.r, x) IN
    IF Via[k] # 0 THEN LET z == OutM(Via[k], y) IN [v |-> z.v, r |-> Id(q.r) \o z.r, f |-> z.f]
    ELSE [v |-> Fn(q.f, y), r |-> Id(q.r), f |-> Id(q.f)]
InM(k, x) ==
    LET q == Rule(k, "in") IN
    IF Via[k] # 0 THEN LET z == InM(Via[k], x) IN [v |-> Fn(q.r, z.v), r |-> z.r \o Id(q.r), f |-> z.f]
    ELSE [v |-> Fn(q.r, Fn(q.f, x)), r |-> Id(q.r), f |-> Id(q.f)]
NONE == [c |-> "N"]
Some(z) == [v |-> [c |-> "S", v |-> z.v], r |-> z.r, f |-> z.f]
Nothing == [v |-> NONE, r |-> <<>>, f |-> <<>>]
Two(y, z) == [v |-> [c |-> "P", v |-> y.v, w |-> z.v], r |-> y.r \o z.r, f |-> y.f \o z.f]
Out(t, x) == CASE t[1] = "m" -> OutM(t[2], x)
               [] t[1] = "so" -> IF x = NONE THEN Nothing ELSE Some(OutM(t[2], x.v))
               [] t[1] = "wr" -> Out(t[2], x)
               [] t[1] = "opt" -> IF x = NONE THEN Nothing ELSE Some(Out(t[2], x.v))
               [] t[1] \in {"pair", "duo"} -> Two(Out(t[2], x.v), Out(t[3], x.w))
In(t, x) == CASE t[1] = "m" -> InM(t[2], x)
              [] t[1] = "so" -> IF x = NONE THEN Nothing ELSE Some(InM(t[2], x.v))
              [] t[1] = "wr" -> In(t[2], x)
              [] t[1] = "opt" -> IF x = NONE THEN Nothing ELSE Some(In(t[2], x.v))
              [] t[1] \in {"pair", "duo"} -> Two(In(t[2], x.v), In(t[3], x.w))
Vals(t) == CASE t[1] = "m" -> Base[t[2]]
             [] t[1] = "so" -> {NONE} \cup {[c |-> "S", v |-> x] : x \in Base[t[2]]}
             [] t[1] = "wr" -> Vals(t[2])
             [] t[1] = "opt" -> {NONE} \cup {[c |-> "S", v |-> x] : x \in Vals(t[2])}
             [] t[1] \in {"pair", "duo"} -> {[c |-> "P", v |-> x, w |-> y] : x \in Vals(t[2]), y \in Vals(t[3])}

T == Exprs[e]
ValsT == [i \in 1..Len(Exprs) |-> Vals(Exprs[i])]
InT == [i \in 1..Len(Exprs) |-> [x \in ValsT[i] |-> In(Exprs[i], x)]]
Init == e \in 1..Len(Exprs) /\ kept = <<>> /\ pend = FALSE /\ act = [op |-> "init"]
Z == <<>>
(* sent: values given by the foreign side, rs: values Rust sees, fs: values the foreign side sees;
   the stages that run: foreign and Rust ones on the way in, Rust and foreign ones on the way out *)
Step(op, how, sent, rs, fs, i, o, k2) ==
    /\ kept' = k2 /\ e' = e /\ pend' = IF op = "defer" THEN TRUE ELSE IF op = "fire" THEN FALSE ELSE pend
    /\ act' = [op |-> op, how |-> how, sent |-> sent, rust |-> rs, seen |-> fs, fin |-> i.f, rin |-> i.r, rout |-> o.r, fout |-> o.f]
No == [r |-> Z, f |-> Z]
Send(how, x) == e \notin NoIn /\ LET i == InT[e][x] IN Step("send", how, <<x>>, <<i.v>>, Z, i, No, <<i.v>>)
Pair(how, x, y) == e \notin NoIn /\ LET i == Two(InT[e][x], InT[e][y]) IN Step("two", how, <<x, y>>, <<i.v.v, i.v.w>>, Z, i, No, <<i.v.w>>)
Get(how) == kept # Z /\ (how = "res" => e \notin NoRes) /\ LET o == Out(T, kept[1]) IN Step("get", how, Z, Z, <<o.v>>, No, o, kept)
Fail == e \notin NoRes /\ Step("fail", "res", Z, Z, Z, No, No, kept)
Echo(how, x) == e \notin NoIn /\ LET i == InT[e][x]  o == Out(T, i.v) IN Step("echo", how, <<x>>, <<i.v>>, <<o.v>>, i, o, kept)
CbArg == kept # Z /\ e \notin NoCbArg \cup NoCb /\ LET o == Out(T, kept[1]) IN Step("cbarg", "one", Z, Z, <<o.v>>, No, o, kept)
CbArgs == kept # Z /\ e \notin NoCbArg \cup NoCb /\ LET o == Out(T, kept[1]) IN Step("cbarg", "two", Z, Z, <<o.v, o.v>>, No, [r |-> o.r \o o.r, f |-> o.f \o o.f], kept)
CbRet(x) == e \notin NoCbRet \cup NoCb /\ LET i == InT[e][x] IN Step("cbret", "one", <<x>>, <<i.v>>, Z, i, No, <<i.v>>)

(* the values tried as the second of two: any for plain types, the same or one other for compound ones *)
Second(x) == IF Cardinality(ValsT[e]) <= 4 THEN ValsT[e] ELSE {x, CHOOSE y \in ValsT[e] : y # x}(* a closure which Rust calls: at once, or kept first; the future is ready after that and not before *)
Ready(how) == Futures /\ e \notin NoRes /\ kept # Z /\ LET o == Out(T, kept[1]) IN Step("future", how, Z, Z, <<o.v>>, No, o, kept)
Defer(how) == Futures /\ e \notin NoRes /\ ~pend /\ kept # Z /\ Step("defer", how, Z, Z, Z, No, No, kept)
Fire == pend /\ kept # Z /\ LET o == Out(T, kept[1]) IN Step("fire", "one", Z, Z, <<o.v>>, No, o, kept)

Next == \/ \E x \in ValsT[e] : \/ \E h \in {"static", "method", "mut", "ctor"} : Send(h, x)
                              \/ \E h \in {"static", "method"} : Echo(h, x)
                              \/ CbRet(x)
                              \/ \E y \in Second(x) : Pair("static", x, y) \/ Pair("method", x, y)
        \/ \E h \in {"static", "method", "res"} : Get(h)
        \/ \E h \in {"static", "method"} : Ready(h) \/ Defer(h)
        \/ Fire \/ Fail \/ CbArg \/ CbArgs
Spec == Init /\ [][Next]_vars

(* only rules in force ever run, a stage runs at most as often as values of the type cross *)
Ran(s) == {s[i] : i \in 1..Len(s)}
Ids(d) == UNION {Ran(Id(Rule(k, d).r) \o Id(Rule(k, d).f)) : k \in 1..Len(Parts)}
Force == [d \in {"in", "out"} |-> Ids(d)]
InForce == [][Ran(act'.fin \o act'.rin) \subseteq Force["in"] /\ Ran(act'.fout \o act'.rout) \subseteq Force["out"]]_vars
(* what Rust keeps was sent through the rules in force *)
KeptIsImage == kept # Z => \E x \in ValsT[e] : InT[e][x].v = kept[1]

St == [e |-> e, kept |-> kept, pend |-> pend]
view == St
EmitInit == (TLCGet("level") > 1) \/ PrintT("I " \o ToJson(St))
EmitEdge == PrintT("E " \o ToJson([f |-> St, a |-> act', t |-> St']))
===============================================================================
