"""Python side of the value fixtures (types as in valfix, with more leaves)."""
import valfix as vx

NUMS = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize"]
SIGNED = {"i8", "i16", "i32", "i64", "isize"}
DISC = {"En": [0, 1, 2], "Ex": [7, 1, 70000, 0]}
# references to plain values, with the leaf they stand for
REFS = {"rint": ("&i32", "i32"), "rstring": ("&String", "string"), "ren": ("&En", "En"), "rcp": ("&Cp", "Cp"), "rar": ("&Arc<Mutex<Ar>>", "Ar"), "rsh": ("&Arc<Sh>", "Sh")}
LEAF_RS = {"er": "Er", "Sh": "Arc<Sh>", "Bx": "Box<Bx>"}
LEAF_RS.update({k: v[0] for k, v in REFS.items()})
# wrapped types which cross as what they wrap
OBJECTS = ("Foo", "Cp", "Ar", "Sh", "Bx", "Bc")
LEAF = dict(vx.LEAF, Ar=["0a000000.", "00000080."], Sh=["0b000000.", "01000080."], Bx=["0c000000.", "02000080."], Bc=["0d000000.", "03000080."],
            er=["V1:.", "V3:c3a90025.f09f9880.0a."], unit=["01.", "01."], string=[".", "f09f9880007ac3a9."], str=[".", "c3a9007af48fbfbf."],
            P2=None)
LEAF.update({k: LEAF[v[1]] for k, v in REFS.items()})
IN_OBJ = {"Cp", "Bc", "Ar", "Sh"}


def setup():
    vx.LEAF_RS.update(LEAF_RS)
    vx.LEAF.update({k: v for k, v in LEAF.items() if v})


def support(t):
    """Directions which flapigen supports for Python: i(n), o(ut)."""
    h = t[0]
    if len(t) == 1:
        if h in ("str", "ref"):
            return "i"
        if h in ("Foo", "Bx", "er", "unit"):
            return "o"
        if h in REFS:
            return "io"
        return "io"
    if h in ("res", "resu", "pair", "tri"):
        return "o"
    sub = support(t[1])
    if t[1][0] in ("str", "ref"):
        return "i" if h == "opt" and t[1][0] == "str" else ""
    if h == "slice" and "o" in sub and t[1][0] in ("Foo", "Bx"):
        return ""
    if t[1][0] in REFS and h != "opt" or h == "opt" and t[1][0] in REFS:
        return sub.replace("i", "")
    return sub


def no(types):
    al = set(range(len(types)))
    return {"no_in": {i for i, t in enumerate(types) if "i" not in support(t)}, "no_out": {i for i, t in enumerate(types) if "o" not in support(t)}, "no_cb_in": al, "no_cb_out": al}


def cps(v):
    return bytes.fromhex(v).decode("utf-8").encode("utf-32-le").hex() + "."


def f64(v):
    import struct
    return struct.pack("<d", struct.unpack("<f", bytes.fromhex(v[:-1]))[0]).hex() + "."


def cv(l, v):
    """Rust text of a leaf value -> Python text."""
    l = REFS[l][1] if l in REFS else l
    if l in ("str", "string"):
        return cps(v[:-1])
    if l == "er":
        return cps(b"\nCaused by:\n".hex().join(v.split(":")[1].split(".")[:-1]))
    if l in NUMS:
        b = bytes.fromhex(v[:-1])
        return b.hex() + ("ff" if l in SIGNED and b[-1] >= 128 else "00") * (10 - len(b)) + "."
    if l == "f32":
        return f64(v)
    if l in DISC:
        return DISC[l][int(v[:-1], 16)].to_bytes(10, "little").hex() + "."
    return v


def text(t, v, py=False):
    h = t[0]
    if len(t) == 1:
        v = v if isinstance(v, str) else LEAF[h][v - 1]
        return cv(h, v) if py else v
    c = v["c"]
    if c in ("N", "U"):
        return c
    if c in ("S", "O"):
        return c + text(t[1], v["v"], py)
    if c == "E":
        return c + text(t[-1], v["v"], py)
    if c == "P":
        return "(" + text(t[1], v["v"], py) + text(t[2], v["w"], py)
    if c == "T":
        return "[" + text(t[1], v["v"], py) + text(t[2], v["w"], py) + text(t[3], v["z"], py)
    if c == "L":
        v = {"v": vx.longer(v)}
    if c in "VL":
        return "V%d:" % len(v["v"]) + "".join(text(t[1], x, py) for x in v["v"])
    raise AssertionError(c)


def ptext(t, v):
    return text(t, v, True)


def decl(c, der, ctor, clone):
    return vx.CLASS_IN % dict(C=c, P=ctor, der="#[derive(Clone)]" if der else "", clone="\n    fn %s::clone(&self) -> %s;" % (c, c) if clone else "", w="_w" if "<" in ctor else "")


vx.BASES["python"] = vx.ENUMS_IN + decl("Foo", False, "Foo", False) + decl("Cp", True, "Cp", True) + decl("Ar", False, "Arc<Mutex<Ar>>", False) + \
    decl("Sh", False, "Arc<Sh>", False) + decl("Bx", False, "Box<Bx>", False) + decl("Bc", True, "Box<Bc>", True)

RUST = """
pub struct Sh { tok: vf::Tok, v: i32 }
obj!(Sh);
impl Sh { pub fn new_w(v: i32) -> Arc<Sh> { Arc::new(Sh::new(v)) } }
impl Enc for Arc<Sh> { fn enc(&self, o: &mut String) { (**self).enc(o) } }
impl Dec for Arc<Sh> { fn dec(p: &mut P) -> Arc<Sh> { Arc::new(Sh::dec(p)) } }
pub struct Bx { tok: vf::Tok, v: i32 }
obj!(Bx);
impl Bx { pub fn new_w(v: i32) -> Box<Bx> { Box::new(Bx::new(v)) } }
impl Enc for Box<Bx> { fn enc(&self, o: &mut String) { (**self).enc(o) } }
impl Dec for Box<Bx> { fn dec(p: &mut P) -> Box<Bx> { Box::new(Bx::dec(p)) } }
#[derive(Clone)]
pub struct Bc { tok: vf::Tok, v: i32 }
obj!(Bc);
impl Bc { pub fn new_w(v: i32) -> Box<Bc> { Box::new(Bc::new(v)) } }
/// an error with its chain of causes
#[derive(Debug)]
pub struct Er { msg: String, src: Option<Box<Er>> }
impl std::fmt::Display for Er { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.msg) } }
impl std::error::Error for Er { fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { self.src.as_ref().map(|x| &**x as _) } }
impl Enc for Er { fn enc(&self, o: &mut String) {
    let mut l = vec![];
    let mut e = Some(self);
    while let Some(x) = e { l.push(x.msg.as_str()); e = x.src.as_deref(); }
    l.as_slice().enc(o)
} }
impl Dec for Er { fn dec(p: &mut P) -> Er {
    let l: Vec<String> = Dec::dec(p);
    let mut r = None;
    for s in l.into_iter().rev() { r = Some(Box::new(Er { msg: s, src: r })); }
    *r.unwrap()
} }
macro_rules! refs { ($($T:ty),*) => { $(
    impl<'a> Enc for &'a $T { fn enc(&self, o: &mut String) { (**self).enc(o) } }
    impl Dec for &'static $T { fn dec(p: &mut P) -> &'static $T { let b: Box<$T> = Box::new(Dec::dec(p)); let r: &'static $T = unsafe { &*(&*b as *const $T) }; keep_ref(b); r } }
)* } }
static PYREFS: Mutex<Vec<SendAny>> = Mutex::new(Vec::new());
pub struct SendAny(Box<dyn std::any::Any>);
unsafe impl Send for SendAny {}
fn keep_ref<T: 'static>(b: Box<T>) { let _g = vf::Guard::new(); let b = SendAny(b); PYREFS.lock().unwrap().push(b) }
#[no_mangle] pub extern "C" fn vf_drop_refs() { let v = { let _g = vf::Guard::new(); std::mem::take(&mut *PYREFS.lock().unwrap()) }; let mut v = v; while let Some(x) = v.pop() { drop(x.0) } let _g = vf::Guard::new(); drop(v) }
refs!(i32, String, En, Cp, Arc<Mutex<Ar>>, Arc<Sh>);
"""


def rust(types, sigs):
    setup()
    return vx.rust(types, sigs, "python") + RUST


def table(types, sigs):
    """What the Python driver needs to know."""
    return {"types": types, "sup": [support(t) for t in types], "owned": [vx.owned(t) for t in types],
            "sigs": [{"kind": s["kind"], "args": s["args"], "ret": None if s["ret"] is None else s["args"][s["ret"]]} for s in sigs]}
