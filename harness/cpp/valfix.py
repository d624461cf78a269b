"""Fixture of types for the value checks: description, Rust side, C++ dispatch."""
NUM = {"u8": "uint8_t", "i8": "int8_t", "u16": "uint16_t", "i16": "int16_t", "u32": "uint32_t", "i32": "int32_t", "u64": "uint64_t", "i64": "int64_t",
       "usize": "uintptr_t", "isize": "intptr_t", "f32": "float", "f64": "double", "bool": "bool",
       "c_char": "char", "c_short": "short", "c_ushort": "unsigned short", "c_int": "int", "c_uint": "unsigned int", "c_long": "long"}
LEAF_RS = {"str": "&str", "string": "String", "ref": "&Foo", "bytes": "&[u8]", "unit": "()", "path": "&Path", "date": "SystemTime", "Ar": "Arc<Mutex<Ar>>"}
LEAF_RS.update({c: "::std::os::raw::" + c for c in NUM if c.startswith("c_")})
# texts of the leaf values 1 and 2
LEAF = {"bool": ["00.", "01."], "u8": ["00.", "fe."], "i16": ["ff7f.", "0080."], "u32": ["fffffffe.", "01000000."], "i64": ["ffffffffffffff7f.", "0807060504030281."],
        "f32": ["000080bf.", "ffff7f7f."], "f64": ["0000000000000080.", "182d4454fb210940."], "usize": ["00000000000000ff.", "0100000000000000."],
        "str": [".", "c3a9007a."], "string": [".", "f09f9880007a."], "path": [".", "2f612ec3a9."], "i8": ["80.", "7f."], "u16": ["ff7f.", "0180."], "i32": ["feffffff.", "01000080."],
        "u64": ["ffffffffffffffff.", "0102030405060708."], "isize": ["0000000000000080.", "f0ffffffffffffff."], "c_char": ["41.", "80."], "c_short": ["0180.", "ff00."],
        "c_ushort": ["0280.", "fe00."], "c_int": ["03000080.", "fdff0000."], "c_uint": ["04000080.", "fcff0000."], "c_long": ["0500000000000080.", "fbffffff00000000."],
        "Ex": ["01.", "03."], "En": ["00.", "02."], "P2": ["ffff.0000000000000080.80.", "0102.182d4454fb210940.7f."],
        "Foo": ["07000000.", "ffffffff."], "Cp": ["08000000.", "00000080."], "ref": ["09000000.", "feffffff."], "bytes": ["V0:", "V3:00.ff.61."], "unit": ["01.", "01."]}
OBJ = ("Foo", "Cp")


BORROWED = {"str", "ref", "bytes", "path", "rint", "rstring", "ren", "rcp", "rar", "rsh"}


def owned(t):
    return t[0] not in BORROWED if len(t) == 1 else t[0] != "slice" and all(owned(x) for x in t[1:])


def leaves(t):
    return {t[0]} if len(t) == 1 else set().union(*[leaves(x) for x in t[1:]])


def rs(t, life="", out=False):
    h = t[0]
    if len(t) == 1:
        return LEAF_RS.get(h, h).replace("&", "&" + life + " " if life else "&")
    a = [rs(x, life) for x in t[1:]]
    return {"opt": "Option<%s>", "pair": "(%s, %s)", "tri": "(%s, %s, %s)", "res": "Result<%s, %s>", "resu": "Result<(), %s>", "vec": "Vec<%s>", "slice": "&" + (life + " " if life else "") + "[%s]"}[h] % tuple(a)


def cpp(t, cfg, d):
    """C++ type, d = "in" (C++ to Rust) or "out"."""
    b, bv, bs = (cfg in ("boost", x) for x in ("mixA", "mixB", "mixA"))
    h = t[0]
    if len(t) == 1:
        if h in NUM:
            return NUM[h]
        if h in ("str", "path") or h == "string" and d == "in":
            return "boost::string_view" if bs else "std::string_view"
        return {"string": "RustString", "ref": "FooRef" if d == "out" else "Foo", "bytes": "RustSlice<const uint8_t>"}.get(h, h)
    if h == "vec":
        e = t[1][0]
        return ("RustForeignVec" if e in OBJ else "RustVec") + e
    a = [cpp(x, cfg, d) for x in t[1:]]
    o, v = "%s::optional<%%s>" % ("boost" if b else "std"), "%s::variant<%%s, %%s>" % ("boost" if bv else "std")
    return {"opt": o, "pair": "std::pair<%s, %s>", "tri": "std::tuple<%s, %s, %s>", "res": v, "resu": "val::ResU<%s::optional<%%s>>" % ("boost" if bv else "std")}[h] % tuple(a)


def longer(v):
    """Long of Compound.tla"""
    return [v["w"] if i % 3 == 0 or i % 7 == 1 else v["v"] for i in range(1, v["n"] + 1)]


def text(t, v):
    h = t[0]
    if len(t) == 1:
        return v if isinstance(v, str) else LEAF[h][v - 1]
    c = v["c"]
    if c in ("N", "U"):
        return c
    if c in ("S", "O"):
        return c + text(t[1], v["v"])
    if c == "E":
        return c + text(t[-1], v["v"])
    if c == "P":
        return "(" + text(t[1], v["v"]) + text(t[2], v["w"])
    if c == "T":
        return "[" + text(t[1], v["v"]) + text(t[2], v["w"]) + text(t[3], v["z"])
    if c == "L":
        v = {"v": longer(v)}
    if c in "VL":
        return "V%d:" % len(v["v"]) + "".join(text(t[1], x) for x in v["v"])
    raise AssertionError(c)


def two(t):
    """Two values of the type, which differ in every component where that is possible."""
    h = t[0]
    if len(t) == 1:
        return [1, 2]
    a = [two(x) for x in t[1:]]
    if h == "opt":
        return [{"c": "N"}, {"c": "S", "v": a[0][1]}] if t[1][0] != "opt" else [{"c": "S", "v": a[0][0]}, {"c": "S", "v": a[0][1]}]
    if h == "pair":
        return [{"c": "P", "v": a[0][i], "w": a[1][1 - i]} for i in (0, 1)]
    if h == "tri":
        return [{"c": "T", "v": a[0][i], "w": a[1][1 - i], "z": a[2][i]} for i in (0, 1)]
    if h == "res":
        return [{"c": "O", "v": a[0][1]}, {"c": "E", "v": a[1][0]}]
    if h == "resu":
        return [{"c": "U"}, {"c": "E", "v": a[0][1]}]
    return [{"c": "V", "v": [a[0][0]]}, {"c": "V", "v": [a[0][1], a[0][0]]}]


BASE_IN = """
foreign_enum!(enum En { Aa, Bb = En::Bb, Cc, });
foreign_enum!(enum Ex { Zz = Ex::Z, Aaa = Ex::A, Mm = Ex::M, Last = Ex::Last, });
foreign_typemap!(
    define_c_type!(module = "p2.h"; #[repr(C)] struct P2 { a: u16, b: f64, c: i8, });
    (r_type) P2;
    (f_type, req_modules = ["\\"p2.h\\""]) "P2";
);
foreign_class!(class Foo {
    self_type Foo;
    constructor Foo::new(v: i32) -> Foo;
    fn Foo::get(&self) -> i32;
    fn Foo::serial(&self) -> u64;
});
foreign_class!(#[derive(Copy, Clone)] class Cp {
    self_type Cp;
    constructor Cp::new(v: i32) -> Cp;
    fn Cp::clone(&self) -> Cp;
    fn Cp::get(&self) -> i32;
    fn Cp::serial(&self) -> u64;
});
"""
BASE_RS = r"""
use std::sync::Mutex;
use std::path::Path;
use val::{Dec, Enc, P};
#[derive(Clone, Copy, Debug)]
pub enum En { Aa, Bb, Cc }
impl Enc for En { fn enc(&self, o: &mut String) { val::put_hex(o, &[match *self { En::Aa => 0, En::Bb => 1, En::Cc => 2 }]) } }
impl Dec for En { fn dec(p: &mut P) -> En { match p.hex::<1>()[0] { 0 => En::Aa, 1 => En::Bb, 2 => En::Cc, x => panic!("{}", x) } } }
// values and order differ from those of the description
#[derive(Clone, Copy, Debug)]
pub enum Ex { M = 70000, Last = 0, Z = 7, A = 1 }
impl Enc for Ex { fn enc(&self, o: &mut String) { val::put_hex(o, &[match *self { Ex::Z => 0, Ex::A => 1, Ex::M => 2, Ex::Last => 3 }]) } }
impl Dec for Ex { fn dec(p: &mut P) -> Ex { match p.hex::<1>()[0] { 0 => Ex::Z, 1 => Ex::A, 2 => Ex::M, 3 => Ex::Last, x => panic!("{}", x) } } }
#[repr(C)] #[derive(Clone, Copy)]
pub struct P2 { a: u16, b: f64, c: i8 }
impl Enc for P2 { fn enc(&self, o: &mut String) { self.a.enc(o); self.b.enc(o); self.c.enc(o) } }
impl Dec for P2 { fn dec(p: &mut P) -> P2 { let a = Dec::dec(p); let b = Dec::dec(p); P2 { a, b, c: Dec::dec(p) } } }
macro_rules! obj { ($C:ident) => {
    impl $C {
        pub fn new(v: i32) -> $C { $C { tok: vf::Tok::new(), v } }
        pub fn get(&self) -> i32 { self.tok.touch(); self.v }
        pub fn serial(&self) -> u64 { self.tok.touch() }
    }
    impl Enc for $C { fn enc(&self, o: &mut String) { val::put_obj(o, self.v, self.tok.touch()) } }
    impl Dec for $C { fn dec(p: &mut P) -> $C { let v = Dec::dec(p); $C::new(v) } }
} }
pub struct Foo { tok: vf::Tok, v: i32 }
obj!(Foo);
#[derive(Clone)]
pub struct Cp { tok: vf::Tok, v: i32 }
obj!(Cp);
impl<'a> Enc for &'a Foo { fn enc(&self, o: &mut String) { (**self).enc(o) } }
impl Dec for &'static Path { fn dec(p: &mut P) -> &'static Path { let s: &'static str = Dec::dec(p); Path::new(s) } }
impl<'a> Enc for &'a Path { fn enc(&self, o: &mut String) { val::put_hex(o, self.to_str().unwrap().as_bytes()) } }
static REFS: Mutex<Vec<Box<Foo>>> = Mutex::new(Vec::new());
impl Dec for &'static Foo { fn dec(p: &mut P) -> &'static Foo {
    let f = Box::new(Foo::dec(p));
    let r: *const Foo = &*f;
    let _g = vf::Guard::new();
    REFS.lock().unwrap_or_else(|e| e.into_inner()).push(f);
    unsafe { &*r }
} }
pub fn drop_refs() { let v = { let _g = vf::Guard::new(); std::mem::take(&mut *REFS.lock().unwrap_or_else(|e| e.into_inner())) }; for f in v { drop(f) } }
pub fn mk_vec_u8(a: &[u8]) -> Vec<u8> { a.to_vec() }
pub struct Cell<T>(Mutex<Option<T>>);
unsafe impl<T> Sync for Cell<T> {}
unsafe impl<T> Send for Cell<T> {}
impl<T> Cell<T> {
    pub const fn new() -> Cell<T> { Cell(Mutex::new(None)) }
    pub fn set(&self, x: T) { let old = { self.0.lock().unwrap_or_else(|e| e.into_inner()).replace(x) }; drop(old) }
    pub fn take(&self) -> Option<T> { self.0.lock().unwrap_or_else(|e| e.into_inner()).take() }
}
"""


ENUMS_IN = """
foreign_enum!(enum En { Aa = En::Aa, Bb, Cc = En::Cc, });
foreign_enum!(enum Ex { Zz = Ex::Z, Aaa = Ex::A, Mm = Ex::M, Last = Ex::Last, });
"""
CLASS_IN = """
foreign_class!(%(der)s class %(C)s {
    self_type %(C)s;
    constructor %(C)s::new%(w)s(v: i32) -> %(P)s;%(clone)s
    fn %(C)s::get(&self) -> i32;
    fn %(C)s::serial(&self) -> u64;
});
"""
BASES = {"cpp": BASE_IN + "foreign_class!(class Mk {\n    fn mk_vec_u8(a: &[u8]) -> Vec<u8>; alias vec_u8;\n    fn drop_refs();\n});\n",
         "java": ENUMS_IN + CLASS_IN % dict(C="Foo", P="Foo", der="", clone="", w="") +
         CLASS_IN % dict(C="Cp", P="Cp", der="#[derive(Copy, Clone)]", clone="\n    fn Cp::clone(&self) -> Cp;", w="") +
         CLASS_IN % dict(C="Ar", P="Arc<Mutex<Ar>>", der="#[derive(SmartPtrCopy)]", clone="", w="_w"),
         "python": ENUMS_IN + CLASS_IN % dict(C="Foo", P="Foo", der="", clone="", w="") +
         CLASS_IN % dict(C="Cp", P="Cp", der="#[derive(Clone)]", clone="\n    fn Cp::clone(&self) -> Cp;", w="") +
         CLASS_IN % dict(C="Ar", P="Arc<Mutex<Ar>>", der="", clone="", w="_w")}
# the Rust side of what only Java and Python use
MORE_RS = """
use std::sync::{Arc, MutexGuard};
use std::time::SystemTime;
pub struct Ar { tok: vf::Tok, v: i32 }
obj!(Ar);
impl Ar { pub fn new_w(v: i32) -> Arc<Mutex<Ar>> { Arc::new(Mutex::new(Ar::new(v))) } }
impl Clone for Foo { fn clone(&self) -> Foo { Foo { tok: self.tok.clone(), v: self.v } } }
"""


def description(types, sigs, no_in=(), no_out=(), no_cb_in=(), no_cb_out=(), lang="cpp"):
    """types: list of types; sigs: list of {"kind", "args": [types], "ret": index or None}."""
    o = BASES[lang]
    for k, t in enumerate(types):
        f, cb = [], []
        T = rs(t)
        if k not in no_in:
            f.append("fn in_%d(x: %s);" % (k, T))
        if k not in no_out:
            f.append("fn out_%d() -> %s;" % (k, T))
            if owned(t):
                f.append("fn give_%d() -> %s;" % (k, T))
        if owned(t):
            f.append("fn dropr_%d();" % k)
        if k not in no_in and k not in no_out:
            f.append("fn echo_%d(x: %s) -> %s;" % (k, T, T))
        if k not in no_cb_out:
            cb.append("onArg = C%d::on_arg(&self, x: %s);" % (k, T))
            f.append("fn cbarg_%d(c: Box<dyn C%d>);" % (k, k))
        if k not in no_cb_in:
            cb.append("onRet = C%d::on_ret(&self) -> %s;" % (k, T))
            f.append("fn cbret_%d(c: Box<dyn C%d>);" % (k, k))
        if k not in no_cb_in and k not in no_cb_out and owned(t):
            cb.append("onEcho = C%d::on_echo(&self, x: %s) -> %s;" % (k, T, T))
            f.append("fn cbecho_%d(c: Box<dyn C%d>);" % (k, k))
        if cb:
            o += "foreign_callback!(callback C%d {\n    self_type C%d;\n    %s\n});\n" % (k, k, "\n    ".join(cb))
        if f:
            o += "foreign_class!(class T%d {\n    %s\n});\n" % (k, "\n    ".join(f))
    for k, s in enumerate(sigs):
        args = ", ".join("%s: %s" % ((s.get("names") or ["a%d" % i for i in range(len(s["args"]))])[i], rs(t)) for i, t in enumerate(s["args"]))
        ret = "" if s["ret"] is None else " -> " + rs(s["args"][s["ret"]])
        kd = s["kind"]
        if kd == "static":
            o += "foreign_class!(class M%d { fn m_%d(%s)%s; alias call; });\n" % (k, k, args, ret)
        elif kd in ("method", "mut"):
            o += "foreign_class!(class M%d { self_type M%d; constructor M%d::new() -> M%d; fn M%d::call(%s, %s)%s; });\n" % (
                k, k, k, k, k, "&self" if kd == "method" else "&mut self", args, ret)
        elif kd == "ctor":
            o += "foreign_class!(class M%d { self_type M%d; constructor M%d::new(%s) -> M%d; });\n" % (k, k, k, args, k)
        elif kd == "cb":
            o += "foreign_callback!(callback D%d { self_type D%d; call = D%d::call(&self, %s)%s; });\n" % (k, k, k, args, ret)
            o += "foreign_class!(class M%d { fn m_%d(c: Box<dyn D%d>); alias call; });\n" % (k, k, k)
    return o


def rust(types, sigs, lang="cpp"):
    o = BASE_RS + ("" if lang == "cpp" else MORE_RS)
    for k, t in enumerate(types):
        T, S = rs(t), rs(t, "'static")
        own = owned(t)
        if own:
            o += "static R%d: Cell<%s> = Cell::new();\n" % (k, T)
            o += "pub fn give_%d() -> %s { R%d.take().expect(\"nothing is kept\") }\npub fn dropr_%d() { drop(R%d.take()) }\n" % (k, T, k, k, k)
        keep = "R%d.set(x)" % k if own else "drop(x)"
        o += "pub fn in_%d(x: %s) { val::seen(\"in\", &x); %s }\n" % (k, T, keep)
        o += "pub fn out_%d() -> %s { let x: %s = val::make(); val::seen(\"out\", &x); x }\n" % (k, S, S)
        o += "pub fn echo_%d(x: %s) -> %s { val::seen(\"in\", &x); x }\n" % (k, T, T) if "'" not in S else \
             "pub fn echo_%d<'a>(x: %s) -> %s { val::seen(\"in\", &x); x }\n" % (k, rs(t, "'a"), rs(t, "'a"))
        o += "pub trait C%d { fn on_arg(&self, x: %s) { unimplemented!() } fn on_ret(&self) -> %s { unimplemented!() } fn on_echo(&self, x: %s) -> %s { unimplemented!() } }\n" % (k, T, T, T, T)
        o += "pub fn cbarg_%d(c: Box<dyn C%d>) { let x: %s = val::make(); val::seen(\"out\", &x); c.on_arg(x) }\n" % (k, k, S)
        o += "pub fn cbret_%d(c: Box<dyn C%d>) { let x = c.on_ret(); val::seen(\"in\", &x); %s }\n" % (k, k, keep)
        if own:
            o += "pub fn cbecho_%d(c: Box<dyn C%d>) { let x: %s = val::make(); val::seen(\"out\", &x); let x = c.on_echo(x); val::seen(\"in\", &x) }\n" % (k, k, S)
    for k, s in enumerate(sigs):
        a = ", ".join("a%d: %s" % (i, rs(t)) for i, t in enumerate(s["args"]))
        r = s["ret"]
        lt = ""
        if r is None:
            rt = ""
        else:
            rt = " -> " + rs(s["args"][r])
            if not owned(s["args"][r]):
                lt, rt = "<'a>", " -> " + rs(s["args"][r], "'a")
                a = ", ".join("a%d: %s" % (i, rs(t, "'a" if i == r else "")) for i, t in enumerate(s["args"]))
        body = " ".join("val::seen(\"a%d\", &a%d);" % (i, i) for i in range(len(s["args"])))
        res = " a%d" % r if r is not None else ""
        kd = s["kind"]
        if kd == "static":
            o += "pub fn m_%d%s(%s)%s { %s%s }\n" % (k, lt, a, rt, body, res)
        elif kd in ("method", "mut"):
            o += "pub struct M%d(u64);\nimpl M%d { pub fn new() -> M%d { M%d(7) }\n pub fn call%s(%s, %s)%s { assert_eq!(self.0, 7); %s%s } }\n" % (
                k, k, k, k, lt, "&self" if kd == "method" else "&mut self", a, rt, body, res)
        elif kd == "ctor":
            o += "pub struct M%d(u64);\nimpl M%d { pub fn new(%s) -> M%d { %s M%d(7) } }\n" % (k, k, a, k, body, k)
        else:
            o += "pub trait D%d { fn call(&self, %s)%s; }\n" % (k, ", ".join("a%d: %s" % (i, rs(t)) for i, t in enumerate(s["args"])), rt.replace("&'a ", "&"))
            mk = "let mut p = val::input(); " + " ".join("let a%d: %s = Dec::dec(&mut p);" % (i, rs(t, "'static")) for i, t in enumerate(s["args"]))
            o += "pub fn m_%d(c: Box<dyn D%d>) { %s %s let r = c.call(%s); %s }\n" % (
                k, k, mk, body, ", ".join("a%d" % i for i in range(len(s["args"]))), "val::seen(\"ret\", &r);" if r is not None else "")
    return o


def cpp_dispatch(types, sigs, cfg, no_in=(), no_out=(), no_cb_in=(), no_cb_out=()):
    """C++ source fragment: includes, codecs of the fixture's classes, and run(Cmd)."""
    inc = ["En.hpp", "Ex.hpp", "Foo.hpp", "Cp.hpp", "Mk.hpp"] + ["T%d.hpp" % k for k in range(len(types))] + ["M%d.hpp" % k for k in range(len(sigs))]
    inc += ["C%d.hpp" % k for k in range(len(types)) if not (k in no_cb_in and k in no_cb_out)] + ["D%d.hpp" % k for k, s in enumerate(sigs) if s["kind"] == "cb"]
    h = "".join('#include "%s"\n' % i for i in inc)
    vecs = sorted({x[1][0] for t in types for x in walk(t) if x[0] == "vec"})
    h += '#include "val.hpp"\nusing namespace NS;\nnamespace val {\n'
    h += "template <> struct Cod<RustString> { static void enc(const RustString &x, std::string &o) { std::string s = x.to_std_string(); hex(o, s.data(), s.size()); } };\n" \
        if any("string" in leaves(t) for t in types + [a for s in sigs for a in s["args"]]) else ""
    if any("P2" in leaves(t) for t in types + [a for s in sigs for a in s["args"]]):
        h += "template <> struct Cod<P2> { static void enc(const P2 &x, std::string &o) { val::enc(x.a, o); val::enc(x.b, o); val::enc(x.c, o); }\n" \
             " static P2 dec(P &p) { P2 r; r.a = val::dec<uint16_t>(p); r.b = val::dec<double>(p); r.c = val::dec<int8_t>(p); return r; } };\n"
    h += "template <bool B> struct Cod<FooWrapper<B>> { static void enc(const FooWrapper<B> &x, std::string &o) { int32_t v = x.get(); hex(o, &v, 4); o.pop_back(); o += '@' + std::to_string(x.serial()) + '.'; }\n" \
         " static FooWrapper<B> dec(P &p) { return FooWrapper<B>(val::dec<int32_t>(p)); } };\n"
    h += "template <bool B> struct Cod<CpWrapper<B>> { static void enc(const CpWrapper<B> &x, std::string &o) { int32_t v = x.get(); hex(o, &v, 4); o.pop_back(); o += '@' + std::to_string(x.serial()) + '.'; }\n" \
         " static CpWrapper<B> dec(P &p) { return CpWrapper<B>(val::dec<int32_t>(p)); } };\n"
    for e in vecs:
        if e in OBJ:
            h += "template <> struct Cod<RustForeignVec%s> { static void enc(const RustForeignVec%s &x, std::string &o) { enc_seq(x, o); }\n" \
                 " static RustForeignVec%s dec(P &p) { p.ch(); size_t n = p.count(); RustForeignVec%s v; for (size_t i = 0; i < n; ++i) v.push(val::dec<%s>(p)); return v; } };\n" % ((e,) * 5)
        else:
            h += "template <> struct Cod<RustVec%s> { static void enc(const RustVec%s &x, std::string &o) { enc_seq(x, o); }\n" % (e, e)
            h += " static RustVec%s dec(P &p) { p.ch(); size_t n = p.count(); std::vector<%s> v; for (size_t i = 0; i < n; ++i) v.push_back(val::dec<%s>(p)); return Mk::vec_u8(RustSlice<const %s>(v.data(), v.size())); } };\n" % (e, NUM[e], NUM[e], NUM[e]) if e == "u8" else "};\n"
    if any("bytes" in leaves(t) for t in types):
        h += "template <> struct Cod<RustSlice<const uint8_t>> { static void enc(const RustSlice<const uint8_t> &x, std::string &o) { enc_seq(x, o); }\n" \
             " static RustSlice<const uint8_t> dec(P &p) { p.ch(); size_t n = p.count(); store().emplace_back(); std::string &s = store().back(); for (size_t i = 0; i < n; ++i) s.push_back((char)val::dec<uint8_t>(p)); return RustSlice<const uint8_t>((const uint8_t *)s.data(), s.size()); } };\n"
    h += "}\n"
    o = ""
    for k, t in enumerate(types):
        ci, co = cpp(t, cfg, "in"), cpp(t, cfg, "out")
        ri, ro = unres(t, ci, cfg), unres(t, co, cfg)
        wrap = (lambda e: "val::ResU<%s>{ %s }" % (ro, e)) if t[0] == "resu" else (lambda e: e)
        un = ".o" if t[0] == "resu" else ""
        ip = t == ["opt", ["ref"]]  # Option<&Foo> argument: a pointer
        if t == ["ref"]:
            pas = "x"
        elif ip:
            pas = "(x ? &*x : nullptr)"
        else:
            pas = "std::move(x%s)" % un
        s = ""
        if k not in no_in:
            s += 'if (op == "in") { auto x = val::dec<%s>(p); say("cpp", x); T%d::in_%d(%s); return; }\n' % (ci, k, k, pas)
            if t[0] in ("str", "string", "path"):
                s += 'if (op == "null") { %s x{}; T%d::in_%d(x); return; }\n' % (ci, k, k)
            if k not in no_out:
                s += 'if (op == "echo") { auto x = val::dec<%s>(p); say("cpp", x); %s y = %s; say("back", y); return; }\n' % (
                    ci, "auto", wrap("T%d::echo_%d(%s)" % (k, k, pas)))
        if k not in no_out:
            s += 'if (op == "out") { vf_put(c[2].data(), c[2].size()); auto y = %s; say("cpp", y); return; }\n' % wrap("T%d::out_%d()" % (k, k))
            s += 'if (op == "discard") { vf_put(c[2].data(), c[2].size()); (void)T%d::out_%d(); return; }\n' % (k, k)
            s += 'if (op == "moved") { vf_put(c[2].data(), c[2].size()); auto x = %s; auto y = std::move(x); say("cpp", y); return; }\n' % wrap("T%d::out_%d()" % (k, k))
            if owned(t):
                s += 'if (op == "give") { auto y = %s; say("cpp", y); return; }\n' % wrap("T%d::give_%d()" % (k, k))
        if owned(t):
            s += 'if (op == "dropr") { T%d::dropr_%d(); return; }\n' % (k, k)
        if not (k in no_cb_in and k in no_cb_out):
            m = "struct CB%d : public C%d {\n" % (k, k)
            if k not in no_cb_out:
                m += "    void onArg(%s x) const noexcept override { %s }\n" % (ro, sayx(t))
                s += 'if (op == "cbarg") { vf_put(c[2].data(), c[2].size()); T%d::cbarg_%d(std::make_unique<CB%d>()); return; }\n' % (k, k, k)
            if k not in no_cb_in:
                rt = ri
                ret = "return std::move(x%s);" % un
                if t == ["ref"]:
                    rt = "const Foo &"
                    ret = "static std::deque<Foo> keep; keep.clear(); keep.push_back(std::move(x)); return keep.back();"
                if ip:
                    rt = "const Foo *"
                    ret = "static %s keep; keep = std::move(x); return keep ? &*keep : nullptr;" % ci
                m += "    %s onRet() const noexcept override { val::P p{ input() }; auto x = val::dec<%s>(p); say(\"cpp\", x); %s }\n" % (rt, ci, ret)
                s += 'if (op == "cbret") { input() = c[2]; T%d::cbret_%d(std::make_unique<CB%d>()); return; }\n' % (k, k, k)
            if k not in no_cb_in and k not in no_cb_out and owned(t):
                if ri == ro:
                    m += "    %s onEcho(%s x) const noexcept override { %s return x; }\n" % (ri, ro, sayx(t))
                else:
                    m += "    %s onEcho(%s x) const noexcept override { std::string s = %s; say_text(\"cpp\", s); val::P p{ strip(s) }; auto y = val::dec<%s>(p); return std::move(y%s); }\n" % (
                        ri, ro, "val::textu(x)" if t[0] == "resu" else "val::text(x)", ci, un)
                s += 'if (op == "cbecho") { vf_put(c[2].data(), c[2].size()); T%d::cbecho_%d(std::make_unique<CB%d>()); return; }\n' % (k, k, k)
            m += "};\n"
            o += m
        o += "static void t_%d(const std::string &op, const vf::Cmd &c) {\n val::P p{ c.size() > 2 ? c[2] : \"\" };\n%s unknown(op); }\n" % (k, s)
    for k, sg in enumerate(sigs):
        a = [(cpp(t, cfg, "in"), cpp(t, cfg, "out"), t) for t in sg["args"]]
        r = sg["ret"]
        if sg["kind"] == "cb":
            rt = "void" if r is None else cpp(sg["args"][r], cfg, "in")
            body = "".join('say("a%d", a%d); ' % (i, i) for i in range(len(a)))
            if r is not None:
                body += "return a%d;" % r if a[r][0] == a[r][1] else "val::P p{ val::text(a%d) }; return val::dec<%s>(p);" % (r, rt)
            o += "struct DB%d : public D%d { %s call(%s) const noexcept override { %s } };\n" % (k, k, rt, ", ".join("%s a%d" % (x[1], i) for i, x in enumerate(a)), body)
            o += "static void m_%d(const vf::Cmd &c) { vf_put(c[2].data(), c[2].size()); M%d::call(std::make_unique<DB%d>()); }\n" % (k, k, k)
        else:
            b = "".join("auto a%d = val::dec<%s>(p); say(\"s%d\", a%d); " % (i, x[0], i, i) for i, x in enumerate(a))
            call = ", ".join("a%d" % i if x[2] == ["ref"] or x[2][0] in NUM else "std::move(a%d)" % i for i, x in enumerate(a))
            pre = "auto r = " if r is not None else ""
            post = 'say("ret", r);' if r is not None else ""
            if sg["kind"] == "static":
                b += "%sM%d::call(%s); %s" % (pre, k, call, post)
            elif sg["kind"] in ("method", "mut"):
                b += "M%d m; %sm.call(%s); %s" % (k, pre, call, post)
            else:
                b += "M%d m{%s};" % (k, call) 
            o += "static void m_%d(const vf::Cmd &c) { val::P p{ c[2] }; %s }\n" % (k, b)
    o += "typedef void (*TF)(const std::string &, const vf::Cmd &);\ntypedef void (*MF)(const vf::Cmd &);\n"
    o += "static TF TFS[] = { %s nullptr };\n" % "".join("t_%d, " % k for k in range(len(types)))
    o += "static MF MFS[] = { %s nullptr };\n" % "".join("m_%d, " % k for k in range(len(sigs)))
    o += "static const bool CANDROP[] = { %s false };\n" % "".join("true, " if owned(t) else "false, " for t in types)
    return h, o


def unres(t, c, cfg):
    """The C++ type in signatures: Result<(), E> is the optional itself."""
    return c[len("val::ResU<"):-1] if t[0] == "resu" else c


def sayx(t):
    return 'say_text("cpp", val::textu(x));' if t[0] == "resu" else 'say("cpp", x);'


def walk(t):
    yield t
    for x in t[1:]:
        yield from walk(x)
