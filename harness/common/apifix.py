"""Renders descriptions of spec/Api.tla: flapigen text and Rust stubs."""
PRELUDE = """
foreign_enum!(enum En { Aa = En::Aa, Bb = En::Bb, Cc = En::Cc, });
foreign_class!(class Restruct { self_type Restruct; constructor Restruct::new() -> Restruct; });
foreign_class!(#[derive(Clone)] class C_p { self_type C_p; constructor C_p::new() -> C_p; fn C_p::clone(&self) -> C_p; });
foreign_class!(class Ar { self_type Ar; constructor Ar::new() -> Arc<Mutex<Ar>>; });
foreign_callback!(callback Obs { self_type Obs; onA = Obs::on_a(&self, x: i32, e: En); on_b = Obs::on_b(&self) -> i32; });
"""
RUST = """
use std::sync::{Arc, Mutex, MutexGuard};
pub enum En { Aa, Bb, Cc }
pub struct Restruct; impl Restruct { pub fn new() -> Restruct { Restruct } }
#[derive(Clone)] pub struct C_p; impl C_p { pub fn new() -> C_p { C_p } }
pub struct Ar; impl Ar { pub fn new() -> Arc<Mutex<Ar>> { Arc::new(Mutex::new(Ar)) } }
pub trait Obs { fn on_a(&self, x: i32, e: En); fn on_b(&self) -> i32; }
"""
R = {"bool": "bool", "i8": "i8", "u8": "u8", "i16": "i16", "u16": "u16", "i32": "i32", "u32": "u32", "i64": "i64", "u64": "u64", "f32": "f32", "f64": "f64", "isize": "isize", "usize": "usize",
     "str": "&str", "string": "String", "en": "En", "oref": "&Restruct", "omut": "&mut Restruct", "own": "Restruct", "cp": "C_p", "ar": "Arc<Mutex<Ar>>", "arref": "&Ar", "opti32": "Option<i32>",
     "opti64": "Option<i64>", "optf64": "Option<f64>", "opten": "Option<En>", "optstr": "Option<&str>", "optref": "Option<&Restruct>", "optown": "Option<Restruct>", "cb": "Box<dyn Obs>", "sli32": "&[i32]",
     "veci32": "Vec<i32>", "veccp": "Vec<C_p>", "resi32": "Result<i32, String>", "resunit": "Result<(), String>", "resown": "Result<Restruct, String>", "unit": "()"}


def cname(i):
    return ("K%d", "K_%d", "K%d_x", "Kü%d")[i % 3] % i


def constant(n, K, lang):
    """C++ enumerators of all enums are in one scope."""
    return n + K if lang == "cpp" else n


def description(ds, names, lang):
    o = [PRELUDE]
    for d, K in zip(ds, names):
        f = []
        if "items" in d:
            o.append("foreign_enum!(enum %s { %s });" % (K, " ".join("%s = %s::V%d," % (constant(n, K, lang), K, (i * 3) % 7) for i, n in enumerate(d["items"]))))
            continue
        if "fns" in d:
            o.append("foreign_callback!(callback %s {\n    self_type T%s;\n    %s\n});" % (K, K, "\n    ".join(
                "%s = T%s::f%d(&%sself%s)%s;" % (m["name"], K, i, "mut " if m["mut"] else "", "".join(", %s: %s" % ("pqrst"[j], R[t]) for j, t in enumerate(m["args"])), "" if m["ret"] == "unit" else " -> " + R[m["ret"]]) for i, m in enumerate(d["fns"]))))
            continue
        ctors = [m for m in d["ms"] if m["k"] == "ctor"]
        if d["clone"] or any(m["k"] != "static" for m in d["ms"]):
            f.append("self_type %s;" % K)
            if not ctors:
                f.append("private constructor = empty;")
        for m in d["ms"]:
            a = ["%s: %s" % ("pqrst"[j], R[t]) for j, t in enumerate(m["args"])]
            n = "%s::%s" % (K, "_".join(m["words"]))
            acc = {"public": "", "protected": "protected ", "private": "private "}[m["acc"]]
            if m["k"] == "ctor":
                f.append("%sconstructor %s(%s) -> %s;" % (acc, n, ", ".join(a), "Result<%s, String>" % K if d["try"] else K))
            else:
                a = {"static": [], "ref": ["&self"], "mut": ["&mut self"]}[m["k"]] + a
                f.append("%sfn %s(%s)%s;%s" % (acc, n, ", ".join(a), "" if m["ret"] == "unit" else " -> " + R[m["ret"]], " alias %s;" % m["alias"] if m["alias"] else ""))
        if d["clone"]:
            f.append("fn %s::clone(&self) -> %s;" % (K, K))
        der = (["Clone"] if d["clone"] else []) + (["camelCaseAliases"] if d["camel"] else [])
        o.append("foreign_class!(%sclass %s {\n    %s\n});" % ("#[derive(%s)] " % ", ".join(der) if der else "", K, "\n    ".join(f)))
    return "\n".join(o) + "\n"


def rust(ds, names):
    o = [RUST]
    for d, K in zip(ds, names):
        if "items" in d:
            o.append("pub enum %s { %s }" % (K, ", ".join("V%d" % ((i * 3) % 7) for i in range(len(d["items"])))))
            continue
        if "fns" in d:
            o.append("pub trait T%s { %s }" % (K, " ".join("fn f%d(&%sself%s)%s;" % (i, "mut " if m["mut"] else "", "".join(", %s: %s" % ("pqrst"[j], R[t]) for j, t in enumerate(m["args"])),
                                                                                "" if m["ret"] == "unit" else " -> " + R[m["ret"]]) for i, m in enumerate(d["fns"]))))
            continue
        o.append("%spub struct %s; impl %s {" % ("#[derive(Clone)] " if d["clone"] else "", K, K))
        for m in d["ms"]:
            a = {"static": [], "ctor": [], "ref": ["&self"], "mut": ["&mut self"]}[m["k"]] + ["%s: %s" % ("pqrst"[j], R[t]) for j, t in enumerate(m["args"])]
            r = ("Result<%s, String>" % K if d["try"] else K) if m["k"] == "ctor" else R[m["ret"]].replace("&", "&'static ")
            o.append("    pub fn %s(%s) -> %s { todo!() }" % ("_".join(m["words"]), ", ".join(a), r))
        o.append("}")
    return "\n".join(o) + "\n"
