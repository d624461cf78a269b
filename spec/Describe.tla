------------------------------ MODULE Describe ------------------------------
(* Reading a description (the Rust file with flapigen's macros) token by token, and where what the user wrote in it has to arrive:      *)
(* Rust items outside the macros in the Rust glue, documentation at the generated counterpart of what it documents, foreign_code of a   *)
(* class in that class, and the body of an inline method (or the function it names) behind the calls of that method.                    *)
(* A token is [k, x, b, n]: its kind and up to three parameters.  Its position in the file is the identity (uid) of what it declares.   *)
(* With Scripts empty every file of up to MaxToks tokens over Alphabet is read; otherwise exactly the files in Scripts.                 *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Scripts, Alphabet, MaxToks, MaxDocs

VARIABLES sc, toks, mode, docs, cur, rust, decls
vars == <<sc, toks, mode, docs, cur, rust, decls>>

NoCur == [k |-> "none", x |-> "", id |-> 0, docs |-> <<>>, ms |-> <<>>, code |-> <<>>]
uid == Len(toks) + 1
Has(kinds) == \E i \in 1..Len(cur.ms) : cur.ms[i].x \in kinds

Init == /\ sc \in IF Scripts = <<>> THEN {0} ELSE 1..Len(Scripts)
        /\ toks = <<>> /\ mode = "top" /\ docs = <<>> /\ cur = NoCur /\ rust = <<>> /\ decls = <<>>

Legal(t) ==
  CASE t.k = "doc" -> Len(docs) + t.n <= MaxDocs
    [] t.k = "rust" -> mode = "top" /\ docs = <<>>
    [] t.k \in {"class", "enum", "callback"} -> mode = "top"
    [] t.k = "fn" -> mode = "class" /\ (t.x \in {"ctor", "m", "mm"} => cur.x = "obj")
    [] t.k = "code" -> mode = "class" /\ docs = <<>>
    [] t.k = "item" -> mode = "enum"
    [] t.k = "on" -> mode = "callback"
    [] t.k = "end" -> mode # "top" /\ docs = <<>> /\ cur.ms # <<>> /\ (mode = "class" => (cur.x = "obj" => Has({"ctor"})))
    [] OTHER -> FALSE

Doc(t) == docs' = docs \o [i \in 1..t.n |-> (uid * 10) + i] /\ UNCHANGED <<mode, cur, rust, decls>>
Pass(t) == rust' = Append(rust, uid) /\ UNCHANGED <<mode, docs, cur, decls>>
Open(t) == /\ mode' = t.k /\ cur' = [k |-> t.k, x |-> t.x, id |-> uid, docs |-> docs, ms |-> <<>>, code |-> <<>>]
           /\ docs' = <<>> /\ UNCHANGED <<rust, decls>>
Member(t) == /\ cur' = [cur EXCEPT !.ms = Append(@, [x |-> t.x, inl |-> t.b, id |-> uid, docs |-> docs])]
             /\ docs' = <<>> /\ UNCHANGED <<mode, rust, decls>>
Code(t) == cur' = [cur EXCEPT !.code = Append(@, uid)] /\ UNCHANGED <<mode, docs, rust, decls>>
Close(t) == decls' = Append(decls, cur) /\ cur' = NoCur /\ mode' = "top" /\ UNCHANGED <<docs, rust>>

Read(t) == /\ Legal(t)
           /\ CASE t.k = "doc" -> Doc(t)
                [] t.k = "rust" -> Pass(t)
                [] t.k \in {"class", "enum", "callback"} -> Open(t)
                [] t.k \in {"fn", "item", "on"} -> Member(t)
                [] t.k = "code" -> Code(t)
                [] t.k = "end" -> Close(t)
           /\ toks' = Append(toks, t) /\ UNCHANGED sc

Next == IF sc = 0 THEN Len(toks) < MaxToks /\ \E t \in Alphabet : Read(t)
        ELSE Len(toks) < Len(Scripts[sc]) /\ Read(Scripts[sc][Len(toks) + 1])
Spec == Init /\ [][Next]_vars
Whole == mode = "top" /\ docs = <<>> /\ IF sc = 0 THEN decls # <<>> \/ rust # <<>> ELSE Len(toks) = Len(Scripts[sc])

(* ---- calls: every constructor of a class makes an object, on which its methods run one after another ---- *)
A(u) == u + 1
B(u) == (2 * u) + 3
Mix(u) == ((1000 * u) + (10 * A(u))) - B(u)
RECURSIVE Run(_, _, _)
Run(ms, i, v) ==
  IF i > Len(ms) THEN <<>>
  ELSE LET m == ms[i] IN
       CASE m.x = "m" -> <<[id |-> m.id, r |-> v + Mix(m.id)]>> \o Run(ms, i + 1, v)
         [] m.x = "mm" -> <<[id |-> m.id, r |-> (2 * (v + A(m.id))) + B(m.id)]>> \o Run(ms, i + 1, v + A(m.id))
         [] OTHER -> Run(ms, i + 1, v)
RECURSIVE Lives(_, _)
Lives(ms, i) == IF i > Len(ms) THEN <<>>
                ELSE (IF ms[i].x = "ctor" THEN Run(ms, 1, Mix(ms[i].id)) ELSE IF ms[i].x = "st" THEN <<[id |-> ms[i].id, r |-> Mix(ms[i].id)]>> ELSE <<>>) \o Lives(ms, i + 1)
RECURSIVE Calls(_)
Calls(i) == IF i > Len(decls) THEN <<>> ELSE (IF decls[i].k = "class" THEN Lives(decls[i].ms, 1) ELSE <<>>) \o Calls(i + 1)

(* ---- invariants: nothing is lost, repeated, reordered or attached to something else ---- *)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
DeclDocs(d) == d.docs \o Flat([i \in 1..Len(d.ms) |-> d.ms[i].docs])
Uids(kinds) == SelectSeq([i \in 1..Len(toks) |-> i], LAMBDA i : toks[i].k \in kinds)
RustKept == rust = Uids({"rust"})
DocsKept == Flat([i \in 1..Len(decls) |-> DeclDocs(decls[i])]) \o DeclDocs(cur) \o docs
            = Flat([i \in 1..Len(toks) |-> IF toks[i].k = "doc" THEN [j \in 1..toks[i].n |-> (i * 10) + j] ELSE <<>>])
CodeKept == Flat([i \in 1..Len(decls) |-> decls[i].code]) \o cur.code = Uids({"code"})
MembersKept == LET Ids(d) == [i \in 1..Len(d.ms) |-> d.ms[i].id]
               IN Flat([i \in 1..Len(decls) |-> Ids(decls[i])]) \o Ids(cur) = Uids({"fn", "item", "on"})
(* the line just before a member, or before an opened declaration, documents it and nothing else *)
Adjacent == \A i \in 2..Len(toks) : toks[i - 1].k = "doc" /\ toks[i].k # "doc" =>
              \E d \in {decls[j] : j \in 1..Len(decls)} \cup {cur} :
                \/ d.id = i /\ d.docs # <<>> /\ d.docs[Len(d.docs)] = ((i - 1) * 10) + toks[i - 1].n
                \/ \E j \in 1..Len(d.ms) : d.ms[j].id = i /\ d.ms[j].docs # <<>> /\ d.ms[j].docs[Len(d.ms[j].docs)] = ((i - 1) * 10) + toks[i - 1].n

Emit == Whole => PrintT("D " \o ToJson([toks |-> toks, rust |-> rust, decls |-> decls, calls |-> Calls(1), sc |-> sc]))
=============================================================================
