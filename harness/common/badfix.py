"""Items of Accept.tla: malformed (and similar but correct) rules, enums, callbacks and classes. @L@ and @R@: type names of the foreign language."""

J = {"java": {"@I@": "jint", "@F@": "int", "@G@": "long", "@OA@": "NullAnnotations", "@OB@": "NoNullAnnotations"},
     "cpp": {"@I@": "i32", "@F@": "int32_t", "@G@": "int64_t", "@OA@": "CppVariant::Std17", "@OB@": "CppVariant::Boost"},
     "python": {"@I@": "i32", "@F@": "int", "@G@": "long", "@OA@": "NullAnnotations", "@OB@": "NoNullAnnotations"}}
ROUT = "($p:r_type) Ty1 => @I@ { $out = $p.0; };"
RIN = "($p:r_type) Ty1 <= @I@ { $out = Ty1($p); };"
FOUT = '($p:f_type, unique_prefix = "/*ty1*/"%s) => "/*ty1*/@F@" "$out = $p;";'
FIN = '($p:f_type, unique_prefix = "/*ty1*/"%s) <= "/*ty1*/@F@" "$out = $p;";'
CT = 'define_c_type!(module = "ct1.h"; %s);'
STRUCT = "#[repr(C)] #[derive(Clone, Copy)] pub struct Ct1 { a: i32 }"
GEN = '($p:r_type) <T> Wr1<T> => swig_i_type!(T) { $out = { swig_from_rust_to_i_type!(T, $p.0, w) w }; };'
GENF = '($p:f_type, unique_prefix = "/*wr1*/") => "/*wr1*/swig_f_type!(T)" "%s";'
OKF = "$out = swig_foreign_from_i_type!(T, $p);"
USE = "foreign_class!(class Use1 { fn use1(a: i32) -> Wr1<i32>; });\n"


def tm(*parts):
    return "foreign_typemap!(\n    %s\n);\n" % "\n    ".join(parts)


def cb(body, head="", kind="callback"):
    return "foreign_callback!(%s%s Cb1 {\n    %s\n});\n" % (head, kind, body)


def cl(body, head="", name="Cl1"):
    return "foreign_class!(%sclass %s {\n    %s\n});\n" % (head, name, body)


def en(body, head="", name="En1"):
    return "foreign_enum!(%senum %s { %s });\n" % (head, name, body)


SELF = "self_type %s; constructor %s::new(x: i32) -> %s; "
ITEMS = {
    # -- rules
    "tmGood": tm(ROUT, FOUT % "", RIN, FIN % ""),
    "tmGoodOptions": tm(ROUT, FOUT % ', option = "@OA@"', FOUT % ', option = "@OB@"'),
    "tmGoodGeneric": tm(GEN, GENF % OKF) + USE,
    "tmGoodTmp": tm(RIN, '($p:f_type, $tmp:temporary, unique_prefix = "/*ty1*/") <= "/*ty1*/@F@" "@F@ $tmp = $p; $out = $tmp;";'),
    "tmGoodC": tm(CT % STRUCT),
    "tmDupOut": tm(ROUT, ROUT),
    "tmDupIn": tm(RIN, RIN),
    "tmDupSimple": tm("(r_type) Ty1;", "(r_type) Ty2;"),
    "tmDupForeignOut": tm(ROUT, FOUT % "", FOUT % ""),
    "tmDupForeignIn": tm(RIN, FIN % "", FIN % ""),
    "tmDupForeignSimple": tm("(r_type) Ty1;", '(f_type) "@F@";', '(f_type) "@G@";'),
    "tmDupOption": tm(ROUT, FOUT % ', option = "@OA@"', FOUT % ', option = "@OA@"'),
    "tmDupOptionIn": tm(RIN, FIN % ', option = "@OA@"', FIN % ', option = "@OA@"'),
    "tmUnknownOption": tm(ROUT, FOUT % ', option = "NoSuchOption"'),
    "tmUnknownOptionIn": tm(RIN, FIN % ', option = "NoSuchOption"'),
    "tmCodeOption": tm('foreign_code!(module = "ct1.h"; option = "NoSuchOption" ; "// code");', "(r_type) Ty1;", '(f_type) "@F@";'),
    "tmGenericsDiffer": tm("($p:r_type) <T> Wr1<T> => T { $out = $p.0; };", "($p:r_type) <U> Wr1<U> <= U { $out = Wr1($p); };"),
    "tmAliasConcrete": tm("generic_alias!(Al1 = swig_concat_idents!(a, b));", ROUT),
    "tmNoReprC": tm(CT % "pub struct Ct1 { a: i32 }"),
    "tmNoReprCUnion": tm(CT % "pub union Ct1 { a: i32, b: u32 }"),
    "tmFnNotExtern": tm(CT % STRUCT[:-1] + "}" if 0 else CT % "#[no_mangle] pub fn ct1() {}"),
    "tmFnNoMangle": tm(CT % 'pub extern "C" fn ct1() {}'),
    "tmFnExternRust": tm(CT % '#[no_mangle] pub extern "Rust" fn ct1() {}'),
    "tmStaticNoMangle": tm(CT % "pub static CT1: i32 = 1;"),
    "tmConstInC": tm(CT % "pub const CT1: i32 = 1;"),
    "tmTupleStruct": tm(CT % "#[repr(C)] pub struct Ct1(i32);"),
    "tmTwoC": tm(CT % STRUCT, CT % STRUCT.replace("Ct1", "Ct2")),
    "tmCTypeField": tm(CT % "#[repr(C)] pub struct Ct1 { a: NoSuchType }"),
    "tmMacro": tm("no_such_macro!(a);", ROUT),
    "tmPrefix": tm(ROUT, '($p:f_type, unique_prefix = "/*ty1*/") => "/*ty2*/@F@" "$out = $p;";'),
    "tmPrefixIn": tm(RIN, '($p:f_type, unique_prefix = "/*ty1*/") <= "/*ty2*/@F@" "$out = $p;";'),
    "tmPrefixSimple": tm("(r_type) Ty1;", '(f_type, unique_prefix = "/*ty1*/") "@F@";'),
    "tmPrefixTwo": tm(ROUT, FOUT % "", RIN, '($p:f_type, unique_prefix = "/*ty2*/") <= "/*ty2*/@F@" "$out = $p;";'),
    "tmInputToOutput": tm(ROUT, FOUT % ", input_to_output"),
    "tmTmpTwice": tm(RIN, '($p:f_type, $t:temporary, $t:temporary, unique_prefix = "/*ty1*/") <= "/*ty1*/@F@" "$out = $p;";'),
    "tmExtraParam": tm("($p:r_type, option = \"@OA@\") Ty1 => @I@ { $out = $p.0; };"),
    "tmModules": tm(ROUT, '($p:f_type, req_modules = ["\\"a.h\\"" "\\"b.h\\""]) => "F1" "$out = $p;";'),
    "tmWrongKeyword": tm("($p:x_type) Ty1 => @I@ { $out = $p.0; };"),
    "tmWrongParam": tm(ROUT, FOUT % ", no_such_param"),
    "tmNoRustRule": tm(FOUT % ""),
    "tmNoRustRuleIn": tm(ROUT, FIN % ""),
    "tmNames": tm(ROUT, FOUT % "", RIN, '($p:f_type) <= "F2" "$out = $p;";'),
    "tmNoOut": tm("($p:r_type) Ty1 => @I@ { let a = 1; };"),
    "tmNoCode": tm("($p:r_type) Ty1 => @I@;", RIN),
    "tmBothForeign": tm(ROUT, '($p:f_type) "F1" => "F2" "$out = $p;";'),
    "tmNotType": tm("($p:r_type) 5 => @I@ { $out = 1; };"),
    "tmNoArrow": tm("($p:r_type) Ty1 @I@ { $out = 1; };"),
    "tmGenericUnknownMacro": tm(GEN, GENF % "$out = no_such_macro!(T, $p);") + USE,
    "tmGenericUnknownType": tm(GEN.replace("swig_from_rust_to_i_type!(T,", "swig_from_rust_to_i_type!(U,"), GENF % OKF) + USE,
    "tmGenericNoParams": tm(GEN, GENF % "$out = swig_foreign_from_i_type!(T);") + USE,
    "tmGenericManyParams": tm(GEN, GENF % "$out = swig_foreign_from_i_type!(T, $p, $p);") + USE,
    "tmGenericRustParams": tm(GEN.replace("$p.0, w)", "$p.0)"), GENF % OKF) + USE,
    "tmGenericTypeParams": tm(GEN, GENF.replace("swig_f_type!(T)", "swig_f_type!(T, T, T)") % OKF) + USE,
    "tmGenericAliasUnknown": tm(GEN, GENF.replace("/*wr1*/swig", "/*wr1*/NoSuchAlias!()swig") % OKF) + USE,
    "tmTwoRulesSetNow": tm(ROUT, FOUT % ', option = "CppVariant::Std17"', FOUT % ', option = "CppOptional::Std17"'),
    # -- enums
    "enGood": en("A = En1::A, B = En1::B,"),
    "enGoodShort": en("A, B,"),
    "enItemAttr": en("#[no_such] A = En1::A,"),
    "enItemDerive": en("#[derive(Clone)] A = En1::A,"),
    "enItemValue": en("A = 5,"),
    "enNotEnum": "foreign_enum!(struct En1 { A = En1::A, });\n",
    "enNoBody": "foreign_enum!(enum En1);\n",
    "enTrailing": "foreign_enum!(enum En1 { A = En1::A, } x);\n",
    "enTwice": en("A = En1::A,") + en("A = En1::A,"),
    # -- callbacks
    "cbGood": cb("self_type Tr1; onA = Tr1::on_a(&self, x: i32);"),
    "cbGoodSync": cb("self_type Tr1 + Send + Sync + 'static; onA = Tr1::on_a(&self, x: i32);"),
    "cbMut": cb("self_type Tr1; onA = Tr1::on_a(&mut self, x: i32) -> i32;", kind="interface"),
    "cbAttr": cb("self_type Tr1; #[no_such] onA = Tr1::on_a(&self, x: i32);"),
    "cbDerive": cb("self_type Tr1; onA = Tr1::on_a(&self, x: i32);", head="#[derive(Clone)] "),
    "cbKeyword": cb("self_type Tr1; onA = Tr1::on_a(&self, x: i32);", kind="trait"),
    "cbEmptySelf": cb("self_type ; onA = Tr1::on_a(&self, x: i32);"),
    "cbMaybeBound": cb("self_type Tr1 + ?Sized; onA = Tr1::on_a(&self, x: i32);"),
    "cbNoSemicolon": cb("self_type Tr1; onA = Tr1::on_a(&self, x: i32)"),
    "cbDupArg": cb("self_type Tr1; onA = Tr1::on_a(&self, x: i32, x: i32);"),
    "cbPattern": cb("self_type Tr1; onA = Tr1::on_a(&self, (x, y): (i32, i32));"),
    "cbUnknownRet": cb("self_type Tr1; onA = Tr1::on_a(&self) -> NoSuchType;"),
    "cbNotPath": cb("self_type Tr1; onA = 5(&self);"),
    "cbTwice": cb("self_type Tr1; onA = Tr1::on_a(&self, x: i32);") * 2,
    # -- classes
    "clTwice": cl("fn f1(a: i32) -> i32;") * 2,
    "clTwiceSelf": cl(SELF % (("Cl1",) * 3) + "fn Cl1::m1(&self);") + cl(SELF % (("Cl2",) * 3) + "fn Cl2::m2(&self);"),
    "clTwiceSelfSame": cl(SELF % (("Cl1",) * 3) + "fn Cl1::m1(&self);") + cl(SELF % (("Cl1",) * 3) + "fn Cl1::m2(&self);"),
    "clEnumTwice": cl("fn f1(a: i32) -> i32;") + en("A = Cl1::A,", name="Cl1"),
    "clSelfEnumTwice": cl(SELF % (("Cl1",) * 3) + "fn Cl1::m1(&self);") + en("A = Cl1::A,", name="Cl1"),
    "clCbTwice": cl("fn f1(a: i32) -> i32;", name="Cb1") + cb("self_type Tr1; onA = Tr1::on_a(&self, x: i32);"),
    "enCbTwice": en("A = Cb1::A,", name="Cb1") + cb("self_type Tr1; onA = Tr1::on_a(&self, x: i32);"),
    "clSelfOnly": cl("self_type Cl1;"),
    "clMethodKeywordNoSelf": cl("self_type Cl1; constructor Cl1::new(x: i32) -> Cl1; method Cl1::m(x: i32);"),
    "clMethodKeywordNoArgs": cl("self_type Cl1; constructor Cl1::new(x: i32) -> Cl1; method Cl1::m();"),
    "clGoodMethodKeyword": cl("self_type Cl1; constructor Cl1::new(x: i32) -> Cl1; method Cl1::m(&self, x: i32); static_method Cl1::s(x: i32);"),
    "clNoName": "foreign_class!(class { fn f1(a: i32) -> i32; });\n",
    "clNotClass": "foreign_class!(struct Cl1 { fn f1(a: i32) -> i32; });\n",
    "clAccess": cl("internal fn f1(a: i32) -> i32;"),
    "clGoodAccess": cl("self_type Cl1; constructor Cl1::new(x: i32) -> Cl1; private fn Cl1::m(&self, x: i32); protected fn Cl1::s(x: i32);"),
    "clAliasEmpty": cl("fn f1(a: i32) -> i32; alias ;"),
    "clAliasNoSemicolon": cl("fn f1(a: i32) -> i32; alias f2"),
    "clCodeNotString": cl("foreign_code 5;"),
    "clUnclosed": "foreign_class!(class Cl1 { fn f1(a: i32) -> i32; );\n",
    "clRefNoClass": cl("fn f1(a: &mut NoSuchType);"),
    "clSelfUnknown": cl("self_type Cl1; constructor Cl1::new(x: i32) -> Result<NoSuchType2, String>;"),
    "clAttrOnClass": cl("fn f1(a: i32) -> i32;", head="#[no_such] "),
    "clDeriveEmptyList": cl("fn f1(a: i32) -> i32;", head="#[derive] "),
    "clResultUnknown": cl("fn f1(a: i32) -> Result<i32, NoSuchType>;"),
    "clTupleUnknown": cl("fn f1(a: i32) -> (i32, NoSuchType);"),
    "clSliceUnknown": cl("fn f1(a: &[NoSuchType]);"),
    "clSelfType": cl("self_type 5; constructor Cl1::new(x: i32) -> Cl1;"),
    "clDummyProtected": cl("self_type Cl1; protected constructor = empty; fn Cl1::m(&self);"),
    "clDummyThenLate": cl("self_type Cl1; private constructor = empty; fn Cl1::m(&self); constructor Cl1::new(x: i32) -> Cl1;"),
    "clSelfTwice": cl("self_type Cl1; self_type Cl2; constructor Cl1::new(x: i32) -> Cl1; fn Cl1::m(&self);"),
    "clGoodAttributes": cl("self_type Cl1; #[cfg(all())] constructor Cl1::new(x: i32) -> Cl1;"),
    # -- ownership that the language cannot express
    "pyByValue": cl("self_type Cl1; constructor Cl1::new(x: i32) -> Cl1; fn f2(a: Cl1);"),
    "pyByValueArc": cl("self_type Cl1; constructor Cl1::new(x: i32) -> Arc<Cl1>; fn f2(a: Cl1);"),
    "pyRetRef": cl("self_type Cl1; constructor Cl1::new(x: i32) -> Cl1; fn Cl1::me(&self) -> &Cl1;"),
    "pyRetRefMutex": cl("self_type Cl1; constructor Cl1::new(x: i32) -> Cl1; fn Cl1::me(&self) -> &Mutex<Cl1>;"),
    "pyRetOwnFromArc": cl("self_type Cl1; constructor Cl1::new(x: i32) -> Arc<Cl1>; fn Cl1::me(&self) -> Cl1;"),
    "pyRetOwnFromArcMutex": cl("self_type Cl1; constructor Cl1::new(x: i32) -> Arc<Mutex<Cl1>>; fn Cl1::me(&self) -> Cl1;"),
    "pyMutFromArc": cl("self_type Cl1; constructor Cl1::new(x: i32) -> Arc<Cl1>; fn f2(a: &mut Cl1);"),
    "pyMutArc": cl("self_type Cl1; constructor Cl1::new(x: i32) -> Arc<Cl1>; fn f2(a: &mut Arc<Cl1>);"),
    "pyMutArcMutex": cl("self_type Cl1; constructor Cl1::new(x: i32) -> Arc<Mutex<Cl1>>; fn f2(a: &mut Arc<Mutex<Cl1>>);"),
    "pyMutexByValue": cl("self_type Cl1; constructor Cl1::new(x: i32) -> Cl1; fn f2(a: Mutex<Cl1>);"),
    "pyArcOfPlain": cl("self_type Cl1; constructor Cl1::new(x: i32) -> Cl1; fn f2(a: Arc<Cl1>);"),
    "pyBoxOfArc": cl("self_type Cl1; constructor Cl1::new(x: i32) -> Arc<Cl1>; fn f2() -> Box<Cl1>;"),
    "pyMutInt": cl("fn f2(a: &mut i32);"),
    "pyCtorType": cl("self_type Cl1; constructor Cl2::new(x: i32) -> Cl2;"),
    "pyMutMethodArc": cl("self_type Cl1; constructor Cl1::new(x: i32) -> Arc<Cl1>; fn Cl1::m(&mut self);"),
    "pyMutMethodBox": cl("self_type Cl1; constructor Cl1::new(x: i32) -> Box<Cl1>; fn Cl1::m(&mut self);"),
    "pyMutBox": cl("self_type Cl1; constructor Cl1::new(x: i32) -> Box<Cl1>; fn f2(a: &mut Cl1);"),
    "smartOwnClone": cl("self_type Cl1; constructor Cl1::new(x: i32) -> Rc<Cl1>; fn Cl1::clone(&self) -> Rc<Cl1>;", head="#[derive(SmartPtrCopy)] "),
    "smartPlain": cl("self_type Cl1; constructor Cl1::new(x: i32) -> Cl1;", head="#[derive(SmartPtrCopy)] "),
    "smartGood": cl("self_type Cl1; constructor Cl1::new(x: i32) -> Rc<Cl1>;", head="#[derive(SmartPtrCopy)] "),
}


def text(name, lang):
    t = ITEMS[name]
    for k, v in J[lang].items():
        t = t.replace(k, v)
    return t
