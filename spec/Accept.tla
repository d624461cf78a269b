------------------------------- MODULE Accept -------------------------------
(* Which interface descriptions the generator must refuse.                   *)
(* A description is a choice of one value per feature; a description file    *)
(* holds a correct class plus the described class and one more item.         *)
(* TLC enumerates every description that deviates from the plain one in at    *)
(* most MaxDev features, with the verdict; the rules are one conjunct each.   *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json

CONSTANTS Langs, MaxDev, ExtraDev

VARIABLE d

(* Catalogue of items of interface descriptions (harness/common/badfix.py has the text of each).  Every item is *)
(* a class of mistakes or, in the last three sets, a correct neighbour of one.                              *)
(* conversion rules that are not well formed, contradict each other or register what exists already *)
BadRules == {
    "tmDupOut", "tmDupIn", "tmDupSimple", "tmDupForeignOut", "tmDupForeignIn",
    "tmDupForeignSimple", "tmDupOption", "tmDupOptionIn", "tmGenericsDiffer", "tmAliasConcrete",
    "tmNoReprC", "tmNoReprCUnion", "tmFnNotExtern", "tmFnNoMangle", "tmFnExternRust",
    "tmStaticNoMangle", "tmConstInC", "tmTwoC", "tmMacro", "tmPrefix", "tmPrefixIn",
    "tmPrefixSimple", "tmPrefixTwo", "tmInputToOutput", "tmTmpTwice", "tmExtraParam",
    "tmModules", "tmWrongKeyword", "tmWrongParam", "tmNoRustRule", "tmNoRustRuleIn", "tmNames",
    "tmNoOut", "tmNoCode", "tmBothForeign", "tmNotType", "tmNoArrow", "tmGenericUnknownMacro",
    "tmGenericUnknownType", "tmGenericNoParams", "tmGenericManyParams", "tmGenericRustParams",
    "tmGenericTypeParams", "tmGenericAliasUnknown" }
(* enums and callbacks *)
BadItems == {
    "enItemAttr", "enItemDerive", "enItemValue", "enNotEnum", "enNoBody", "enTrailing",
    "enTwice", "cbAttr", "cbDerive", "cbKeyword", "cbEmptySelf", "cbMaybeBound",
    "cbNoSemicolon", "cbDupArg", "cbPattern", "cbUnknownRet", "cbNotPath", "cbTwice",
    "enCbTwice" }
(* classes: syntax, names used twice, types without a conversion, ownership no back-end can express *)
BadClasses == {
    "clTwice", "clTwiceSelf", "clTwiceSelfSame", "clEnumTwice", "clSelfEnumTwice", "clCbTwice",
    "clSelfOnly", "clMethodKeywordNoSelf", "clMethodKeywordNoArgs", "clNoName", "clNotClass",
    "clAccess", "clAliasEmpty", "clAliasNoSemicolon", "clCodeNotString", "clUnclosed",
    "clRefNoClass", "clAttrOnClass", "clDeriveEmptyList", "clTupleUnknown", "clSliceUnknown",
    "clSelfType", "clSelfTwice", "pyByValueArc", "pyRetOwnFromArcMutex", "pyMutexByValue",
    "pyArcOfPlain", "clDummyProtected", "clDummyThenLate" }
(* options, C types and attributes of the Java and C++ back-ends (Python ignores user rules' options and C types) *)
BadTwo == {
    "tmUnknownOption", "tmUnknownOptionIn", "tmCodeOption", "tmTupleStruct", "tmCTypeField",
    "tmTwoRulesSetNow", "clResultUnknown", "clGoodAttributes", "smartPlain" }
(* a reference to, or an owned value out of, what the foreign object shares: Java and Python cannot express it *)
BadBorrow == {
    "pyRetRef", "pyRetRefMutex", "pyRetOwnFromArc", "pyBoxOfArc" }
(* what only Python cannot express *)
BadPython == {
    "tmGoodGeneric", "cbGood", "cbGoodSync", "cbMut", "pyByValue", "pyMutFromArc", "pyMutArc",
    "pyMutArcMutex", "pyMutInt", "pyCtorType", "pyMutMethodArc", "pyMutMethodBox", "pyMutBox",
    "smartGood" }
(* refused in Python; left open in Java and C++ *)
OpenElsewhere == {
    "smartOwnClone", "clSelfUnknown" }
(* C types do not exist in Java *)
BadJava == {
    "tmGoodC" }
(* accepted by every back-end *)
GoodItems == {
    "tmGood", "tmGoodOptions", "tmGoodTmp", "enGood", "enGoodShort", "clGoodMethodKeyword",
    "clGoodAccess" }

Catalogue == BadRules \cup BadItems \cup BadClasses \cup BadTwo \cup BadBorrow \cup BadPython \cup OpenElsewhere \cup BadJava \cup GoodItems

CatRefused(i, l) == \/ i \in BadRules \cup BadItems \cup BadClasses
                    \/ l \in {"java", "cpp"} /\ i \in BadTwo
                    \/ l \in {"java", "python"} /\ i \in BadBorrow
                    \/ l = "python" /\ i \in BadPython \cup OpenElsewhere
                    \/ l = "java" /\ i \in BadJava
CatOpen(i, l) == l # "python" /\ i \in OpenElsewhere

Feature == [
    self   |-> {"plain", "none"},
    ctor   |-> {"one", "none", "two", "twoDiff", "empty", "emptyPublic", "emptyThenOne", "noRet", "withSelf"},
    meth   |-> {"ref", "mut", "static", "none"},
    derive |-> {"none", "Clone", "Copy", "CopyClone", "Smart", "Unknown", "Camel", "Registered"},
    arg    |-> {"named", "dup", "this", "unnamed", "pattern"},
    ty     |-> {"i32", "unknownArg", "unknownRet", "undeclared", "unknownVec", "unknownOpt"},
    attr   |-> {"none", "unknown", "registered"},
    form   |-> {"path", "pathAlias", "inline", "inlineAlias", "ctorAlias", "noSemi", "badKeyword"},
    item   |-> {"none", "enum", "enumNoComma", "cb", "cbNoSelf", "cbNoRecv", "cbSend", "cbBadBound", "cbUnknownTy", "emptyClass",
                "emptyEnum", "emptyTypemap", "syntax", "typemapNoVar", "typemapNoRule", "enumUnknownDerive"},
    extra  |-> {"none"} \cup Catalogue,
    fault  |-> {"none", "noOutDir", "outDirIsFile", "noSource", "sourceNotUtf8", "secondSource"},
    pos    |-> {"last", "first"} ]

Plain == [self |-> "plain", ctor |-> "one", meth |-> "ref", derive |-> "none", arg |-> "named", ty |-> "i32",
          attr |-> "none", form |-> "path", item |-> "none", extra |-> "none", fault |-> "none", pos |-> "last"]

Names == DOMAIN Plain
Dev(x) == Cardinality({n \in Names : x[n] # Plain[n]})

(* all choices with at most MaxDev deviations, built feature by feature *)
RECURSIVE Devs(_, _)
Devs(S, k) == IF k = 0 THEN S
              ELSE Devs(S \cup UNION { UNION { {[x EXCEPT ![n] = v] : v \in Feature[n]} : n \in Names \ {"extra"} } : x \in S }, k - 1)

HasSelf(x)  == x.self = "plain"
HasMethodWithSelf(x) == x.meth \in {"ref", "mut"}
HasMethod(x) == x.meth # "none"
HasClone(x) == x.derive = "CopyClone"
Attributed(l) == l \in {"java", "cpp"}     \* Python has no attribute support

(* Refusal rules *)
R_selfNoCtor(x)    == HasSelf(x) /\ x.ctor = "none"
R_ctorNoSelf(x)    == ~HasSelf(x) /\ x.ctor \notin {"none"}
R_ctorNoRet(x)     == x.ctor = "noRet"
R_ctorSelfArg(x)   == x.ctor = "withSelf"
R_ctorMismatch(x)  == x.ctor = "twoDiff"
R_emptyPublic(x)   == x.ctor \in {"emptyPublic", "emptyThenOne"}
R_methodNoSelf(x)  == HasMethodWithSelf(x) /\ ~HasSelf(x)
R_dupArg(x)        == HasMethod(x) /\ x.arg \in {"dup", "pattern"}
R_thisArg(x, l)    == Attributed(l) /\ HasMethodWithSelf(x) /\ x.arg = "this"
R_unnamedInline(x) == HasMethod(x) /\ x.arg = "unnamed" /\ x.form \in {"inline", "inlineAlias"}
R_inlineAlias(x)   == HasMethod(x) /\ x.form = "inlineAlias"
R_ctorAlias(x)     == x.form = "ctorAlias"
R_syntax(x)        == HasMethod(x) /\ x.form \in {"noSemi", "badKeyword"}
R_type(x)          == HasMethod(x) /\ x.ty # "i32"
R_attr(x, l)       == Attributed(l) /\ HasMethod(x) /\ x.attr = "unknown"
R_derive(x, l)     == Attributed(l) /\ x.derive = "Unknown"
R_copyNoClone(x)   == x.derive = "Copy"
R_smart(x, l)      == Attributed(l) /\ x.derive = "Smart" /\ HasSelf(x)
R_item(x, l)       == \/ x.item \in {"enumNoComma", "emptyClass", "emptyEnum", "emptyTypemap", "syntax", "typemapNoVar", "typemapNoRule"}
                      \/ Attributed(l) /\ x.item \in {"cbNoSelf", "cbNoRecv", "cbBadBound", "cbUnknownTy", "enumUnknownDerive"}

(* the environment of the run: an output directory that is missing or is no directory (Python writes no files there), *)
(* a source file that cannot be read (first or second of two)                                                          *)
R_fault(x, l)      == \/ x.fault \in {"noSource", "sourceNotUtf8", "secondSource"}
                      \/ Attributed(l) /\ x.fault \in {"noOutDir", "outDirIsFile"}

Refused(x, l) ==
    \/ R_selfNoCtor(x) \/ R_ctorNoSelf(x) \/ R_ctorNoRet(x) \/ R_ctorSelfArg(x) \/ R_ctorMismatch(x) \/ R_emptyPublic(x)
    \/ R_methodNoSelf(x) \/ R_dupArg(x) \/ R_thisArg(x, l) \/ R_unnamedInline(x) \/ R_inlineAlias(x) \/ R_ctorAlias(x)
    \/ R_syntax(x) \/ R_type(x) \/ R_attr(x, l) \/ R_derive(x, l) \/ R_copyNoClone(x) \/ R_smart(x, l) \/ R_item(x, l)
    \/ CatRefused(x.extra, l) \/ R_fault(x, l)

(* Plain combinations that are known good: no refusal rule and no feature    *)
(* whose meaning depends on the language.                                    *)
Accepted(x, l) == ~Refused(x, l) /\ ~CatOpen(x.extra, l) /\ x.arg # "this" /\ (l = "python" => x.fault = "none" /\ x.item = "none" /\ x.derive \in {"none", "Clone"} /\ x.attr = "none")

Verdict(x, l) == IF Refused(x, l) THEN "refuse" ELSE IF Accepted(x, l) THEN "accept" ELSE "open"

(* an item of the catalogue is combined with at most ExtraDev - 1 other deviations *)
Init == d \in {x \in Devs({Plain}, MaxDev) : x.extra = "none"}
              \cup {[x EXCEPT !.extra = e] : x \in Devs({Plain}, ExtraDev - 1), e \in Catalogue}
Next == UNCHANGED d
Spec == Init /\ [][Next]_d

TypeOK == \A n \in Names : d[n] \in Feature[n]
(* sanity of the rules: the plain description is accepted everywhere, and a  *)
(* refused description always owes its refusal to one of its deviations      *)
Sane == /\ \A l \in Langs : Verdict(Plain, l) = "accept"
        /\ \A l \in Langs : Refused(d, l) => Dev(d) > 0
Emit == PrintT("D " \o ToJson([d |-> d, v |-> [l \in Langs |-> Verdict(d, l)]]))
=============================================================================
