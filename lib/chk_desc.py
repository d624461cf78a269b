"""G10: what the user wrote in a description (Rust items, bodies, foreign_code, documentation) arrives where it belongs (spec/Describe.tla)."""
from chk_jni import *
import chk_api

RUST = [l.strip() for l in r"""
fn free@(x: i64) -> i64 { x + @ }
pub fn gen@<T: Clone, const N: usize>(x: &[T; N]) -> Vec<T> where T: PartialEq + 'static { x.iter().cloned().collect() }
#[derive(Debug, Clone, PartialEq)] pub struct Sn@ { pub a: i32, b: Option<Vec<Vec<u8>>> }
struct St@(pub(crate) u8, String);
struct Su@;
/// documented @
#[repr(u8)] #[derive(Clone, Copy)] pub enum En@ { A = 3, B, #[allow(dead_code)] C = b'x' }
union Un@ { a: u32, b: f32 }
const C@: &str = "\"quoted\" \\ \n {} /* no comment */ // none \u{1F600}";
static S@: &[u8] = b"by\0te\xff";
const R@: &str = r#"raw "string" \n"#;
type T@<'a> = Box<dyn FnMut(&'a str, u8) -> Result<(), String> + Send + 'a>;
trait Tr@ { const K: usize = @; type O; fn req(&self) -> Self::O; fn prov(&self) -> usize { Self::K } }
impl std::fmt::Display for Shown@ { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "<{:>5}|{}>", self.0, 'c') } } 
mod inner@ { pub mod deep { pub fn f() -> char { '\'' } } pub use self::deep::f as g; }
use std::collections::{BTreeMap as Map@, HashMap as Hash@};
macro_rules! mac@ { ($($x:expr),* $(,)?) => { 0i64 $(+ $x)* }; }
macro_rules! mab@ { { $a:ident => $b:tt } => { fn $a() -> i64 { $b } } }
thread_local! { static TL@: std::cell::Cell<i64> = std::cell::Cell::new(-1i64); }
thread_local!(static TM@: u8 = 1 << 2 | 0b1000_0000u8 >> 3);
#[cfg(any())] my::foreign_class!{ class Not@ { fn f@(); } }
#[cfg(any())] foreign_klass!(class Nor@ {});
#[cfg(any())] mod absent@ { compile_error!("never"); }
#[inline(always)] pub(crate) unsafe fn un@(p: *const i64) -> i64 { *p }
const fn cf@(x: u64) -> u64 { if x > 1 { x * 2 } else { !x & 0xff_u64 } }
extern "C" { #[link_name = "abs"] fn abs@(x: i32) -> i32; }
pub extern "C" fn ex@(x: f64) -> f64 { -x - 1.5e-3 + 2. * 1e10_f64 }
fn lab@(v: &[Vec<u8>]) -> usize { let mut n = 0; 'o: for x in v { for &y in x.iter().rev() { if y == 0 { continue 'o; } n += 1; if n >= 10 { break 'o; } } } n }
fn cl@() -> impl Fn(i64) -> i64 + Send { let k = @; move |x| -> i64 { match x { i if i < 0 => -i, 0 | 1 => k, 2..=9 => x << 1, _ => { let Some(z) = x.checked_sub(k) else { return 0 }; z } } } }
fn r#loop@(r#type: i64) -> i64 { r#type }
fn fs@() -> String { format!(concat!("{:?}", "{1:02x}"), (1, "a", 'b'), 255) }
fn ge@() -> usize { let v = "1 2".split(' ').map(|s| s.parse::<usize>()).collect::<Result<Vec<_>, _>>().unwrap_or_default(); v.len() & !1 }
""".replace("\n#[repr(u8)]", " \n#[repr(u8)]").split("\n") if l.strip()]
RUST = [x for x in RUST if not x.startswith("///") and "Shown@" not in x] + [
    "/// documented @\n/** and\n twice */\npub struct Shown@(pub u8);",
    "impl std::fmt::Display for Displayed@ { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, \"<{:>5}|{}>\", self.0, 'c') } }"]
EXTRA = {"Displayed@": "struct Displayed@(u8);\n"}
PLAIN = ["", "-", "a, b;", "`code`", "= {x}", "(see [that])"]
ODD = ["*/", "/* x", "C:\\users", "\\u0041", "\\", "\"q\" 'r'", "<b>&amp;</b>", "@param a", "{@code x}", "%d {} $p", "// y", "* z", "?\u00e9\u4e16", "\t", "*/ int i; /*", "#define", "\\\\", "***/", "{", "\"", "r#\"", "/**"]
NOTBLOCK = ("/*", "*/")
BODIES = ["{ %s }", "{ let t = 0i64; t + %s }", "{ let f = |x: i64| -> i64 { x }; f(%s) }", "{ match (%s, \"}{\") { (p, q) if q.len() == 2 => p, _ => -7 } }",
          "{ if a_is(1) { %s } else { -8 } }", "{ { let (u, v) = (%s, '}'); let _ = v; u } }", "{ vec![%s, 0].into_iter().sum::<i64>() }", "{ /* } */ %s // {\n }"]


class Words:
    """Texts for one script: the lines of documentation, names of arguments, bodies; the meaning is only in the words d<line>a, d<line>b."""
    def __init__(self, rng, lang, pfx):
        self.rng, self.lang, self.pfx = rng, lang, pfx
        self.same = {}                  # line -> the line of which it repeats the text
        self.blank = set()              # lines before which there is an empty one

    def line(self, i, block):
        r = self.rng
        odd = r.choice(PLAIN + (ODD if self.lang != "python" or True else []))
        if r.random() < .15:
            return "%sd%da" % (self.pfx, i)
        if block and any(x in odd for x in NOTBLOCK):
            odd = ""
        w = "%sd%da %s %sd%db" % (self.pfx, i, odd, self.pfx, i)
        if r.random() < .25 and not (block and any(x in odd for x in NOTBLOCK)):
            w += r.choice(["\\", " \\", " ", " {", "\"", ";", " \\\\", " ??/", " '", " *"])
        if r.random() < .1 and odd != "*/":
            w = r.choice(["*", "/", "!", "-", "<", "\\"]) * (not block) + " " + w
        return w

    def doc(self, uid, n):
        r, ls = self.rng, [uid * 10 + j for j in range(1, n + 1)]
        how = r.choice(["line", "line", "block", "attr"]) if n > 1 else r.choice(["line", "line", "line", "block", "attr"])
        t = [self.line(i, how == "block") for i in ls]
        for j in range(1, n):
            if r.random() < .15:
                t[j] = t[j - 1]
                self.same[ls[j]] = self.same.get(ls[j - 1], ls[j - 1])
        if how == "block":
            sep = r.choice(["\n", "\n   ", "\n   * "])
            return "    /** %s%s*/\n" % (sep.join(t), r.choice([" ", "\n    "]))
        if how == "attr":
            e = lambda s: s.replace("\\", "\\\\").replace('"', '\\"').replace("\t", "\\t")
            if r.random() < .5:
                return '    #[doc = "%s"]\n' % "\\n".join(map(e, t))
            return "".join('    #[doc = "%s"]\n' % e(x) for x in t)
        if r.random() < .2:
            j = r.randrange(len(t) + 1)
            if 0 < j < len(t):
                self.blank.add(ls[j])
            t.insert(j, "")
        return "".join("    /// %s\n" % x.replace("\t", " ") for x in t)


def mix(u, a="a", b="b"):
    return "%d + 10 * %s - %s" % (1000 * u, a, b)


class Script:
    """One file: the text of the description, the Rust fixture it needs, and the calls of the foreign programs."""
    def __init__(self, rng, lang, n, out):
        self.rng, self.lang, self.n, self.out = rng, lang, n, out
        self.p = "s%d" % n              # names of different scripts differ
        self.desc, self.rust, self.items = [], [], {}
        w = Words(rng, lang, self.p)
        self.same, self.blank = w.same, w.blank
        for i, t in enumerate(out["toks"], 1):
            self.token(i, t, w)
        self.text = "".join(self.desc)

    def nm(self, k, u):
        return "%s%sx%d" % (k.upper() if k in "cek" else k, self.p, u)

    def token(self, u, t, w):
        r, D = self.rng, self.desc.append
        k = t["k"]
        if k == "doc":
            self.pending = getattr(self, "pending", "") + w.doc(u, t["n"])
            return
        docs, self.pending = getattr(self, "pending", ""), ""
        if k == "rust":
            tag = "%s_%d" % (self.p, u)
            src = r.choice(RUST)
            for x, e in EXTRA.items():
                if x in src:
                    self.rust.append(e.replace("@", tag))
            src = re.sub(r"(?<![A-Za-z_])@", str(u), src).replace("@", tag)
            self.items[u] = src
            D(src + "\n")
        elif k in ("class", "enum", "callback"):
            self.kind, self.br = k, r.choice(["()", "{}", "()"])
            self.cur = u
            self.obj = t["x"] == "obj"
            c = self.nm({"class": "c", "enum": "e", "callback": "k"}[k], u)
            mac = {"class": ["foreign_class", "foreign_class", "foreigner_class"], "enum": ["foreign_enum"], "callback": ["foreign_callback", "foreign_interface"]}[k]
            D("%s!%s\n%s%s %s {\n" % (r.choice(mac), self.br[0], docs, "class" if k == "class" else "enum" if k == "enum" else r.choice(["callback", "interface"]), c))
            self.cname = c
            if k == "class":
                if self.obj:
                    D("    self_type %s;\n" % c)
                    self.rust.append("pub struct %s { v: i64 }\n" % c)
                else:
                    self.rust.append("pub struct %s;\n" % c)
                self.nctor = 0
            elif k == "enum":
                self.consts = []
            else:
                D("    self_type %s;\n" % c)
                self.ons = []
        elif k == "fn":
            self.fn(u, t, docs)
        elif k == "code":
            code = {"java": "    public static long code%s_%d() { return %d; }\n", "cpp": "public:\n    static int64_t code%s_%d() noexcept { return %d; }\n"}.get(self.lang, "%s %d %d") % (self.p, u, u)
            lit = 'r#"%s"#' % code if r.random() < .5 else '"%s"' % code.replace("\n", "\\n")
            D("    %s %s;\n" % (r.choice(["foreign_code", "foreign_code", "foreigner_code"]), lit))
        elif k == "item":
            x = self.nm("i", u)
            self.consts.append(x)
            D("%s    %s%s,\n" % (docs, x, "" if r.random() < .4 else " = %s::%s" % (self.cname, x)))
        elif k == "on":
            x = self.nm("on", u)
            self.ons.append(x)
            D("%s    %s = %s::%s(&self, a: i64);\n" % (docs, x, self.cname, x))
        elif k == "end":
            D("}%s%s\n" % (self.br[1], ";" if self.br != "{}" else ""))
            if self.kind == "enum":
                self.rust.append("#[derive(Clone, Copy, Debug, PartialEq)]\npub enum %s { %s }\n" % (self.cname, ", ".join(self.consts)))
            elif self.kind == "callback":
                self.rust.append("pub trait %s { %s }\n" % (self.cname, " ".join("fn %s(&self, a: i64);" % x for x in self.ons)))

    def fn(self, u, t, docs):
        r, D, x, c = self.rng, self.desc.append, t["x"], self.cname
        a, b = r.choice([("a", "b"), ("b", "a"), ("x", "y"), ("p0", "p1"), ("ret", "v"), ("this_", "o"), ("a1", "a0"), ("len", "data")])
        ta, tb = ("i64", "i64") if x != "ctor" else [("i64", "i64"), ("i32", "i64"), ("i64", "i32"), ("i32", "i32")][self.nctor]
        ia, ib = ("%s as i64" % a if ta == "i32" else a), ("%s as i64" % b if tb == "i32" else b)
        e = "%d + 10 * (%s) - (%s)" % (1000 * u, ia, ib)
        f = self.nm("f", u)
        args = "%s: %s, %s: %s" % (a, ta, b, tb)
        slf = {"m": "&self, ", "mm": "&mut self, "}.get(x, "")
        ret = c if x == "ctor" else "i64"
        body = r.choice(BODIES)
        if x == "ctor":
            self.nctor += 1
            full = "{ %s { v: %s } }" % (c, body % e if body.count("{") else e)
        elif x == "st":
            full = body % e
        elif x == "m":
            full = body % ("this.v + %s" % e)
        else:
            full = "{ this.v += %s; %s }" % (ia, body % ("2 * this.v + (%s)" % ib))
        kw = {"ctor": "constructor", "st": r.choice(["fn", "fn", "static_method"]), "m": r.choice(["fn", "fn", "method"]), "mm": "fn"}[x]
        alias = ""
        if t["b"]:
            # a function of the same name is there: the body has to win
            decoy = "%s { v: -5 }" % c if x == "ctor" else "-5"
            self.rust.append("impl %s { fn %s(%s%s) -> %s { %s } }\nfn %s(%s%s) -> %s { %s }\n" % (c, f, slf, args, ret, decoy, f, {"m": "_: &%s, " % c, "mm": "_: &mut %s, " % c}.get(x, ""), args, ret, decoy))
            D("%s    %s %s(%s%s) -> %s %s\n" % (docs, kw, f, slf, args, ret, full))
            return
        if t["n"]:
            alias = " alias %s;" % self.nm("g", u)
        inner = full.replace("this.", "self.")
        if r.random() < .3 and x != "mm":
            path = f
            self.rust.append("fn %s(%s%s) -> %s %s\n" % (f, "this: &%s, " % c if x == "m" else "", args, ret, full))
            if x == "m":
                self.rust.append("impl %s { fn %s(%s%s) -> %s { -6 } }\n" % (c, f, slf, args, ret))
        else:
            path = "%s::%s" % (c, f)
            self.rust.append("impl %s { fn %s(%s%s) -> %s %s }\n" % (c, f, slf, args, ret, inner))
        D("%s    %s %s(%s%s) -> %s;%s\n" % (docs, kw, path, slf, args if r.random() < .8 else "_: %s, _: %s" % (ta, tb), ret, alias))

    def foreign(self, u):
        return self.nm("g" if self.out["toks"][u - 1]["n"] else "f", u)

    def words(self, lines):
        """The words of the lines, in order; where blank[i], an empty line precedes the one with word i."""
        r = Want(x for l in lines for k in (self.same.get(l, l),) for x in ("%sd%da" % (self.p, k), "%sd%db" % (self.p, k)))
        r.blank = {2 * i for i, l in enumerate(lines) if l in self.blank}
        return r


class Want(list):
    blank = ()


def same_lines(text, want):
    """The words as in same_words, and every line on a line of its own, with the empty lines of the description."""
    bad = same_words(text, want)
    if bad:
        return bad
    i, blank = 0, False
    for l in (text or "").split("\n"):
        got = re.findall(r"s\d+d\d+[ab](?![0-9A-Za-z])", l)
        if not got:
            blank = blank or not l.strip(" *\t\r")
            continue
        if i in want.blank and not blank:
            return "lacks the empty line before %s" % got[0]
        if got[0] != want[i] or len(got) > 2 or (len(got) == 2 and got[1] != want[i + 1]):
            return "has the line %s where %s should be" % (got, want[i:i + 2])
        i, blank = i + 2, False
    return None


def same_words(text, want):
    """Each line has the word d<n>a, and d<n>b unless the line is short; nothing else, in order."""
    got = re.findall(r"s\d+d\d+[ab](?![0-9A-Za-z])", text or "")
    need = [x for x in want if x.endswith("a") or x in got]
    return None if got == need else "has %s instead of %s" % (got[:8], [x for x in want if x.endswith("a")][:8])


def collect(node, o):
    if isinstance(node, dict):
        for k, v in node.items():
            if k in ("text", "name", "param", "args") or isinstance(v, (dict, list)):
                collect(v, o)
    elif isinstance(node, list):
        for x in node:
            collect(x, o)
    elif isinstance(node, str):
        o.append(node)
    return o


def comment_of(n):
    return " ".join(" ".join(collect(c, [])) for c in n.get("inner", []) if c["kind"] == "FullComment")


def cpp_docs(src, d):
    """name -> (documentation, [(member, documentation)]) of the classes and enums of the generated headers."""
    p = subprocess.run(["clang++", "-std=c++17", "-fsyntax-only", "-fparse-all-comments", "-w", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=org_examples", "-I", CXX, "-I", d, src], capture_output=True, text=True, timeout=300)
    if p.returncode != 0:
        raise BuildBroken("clang rejects the generated headers", p.stderr[:6000])
    r, dec, i, s = {}, json.JSONDecoder(), 0, p.stdout

    def visit(n):
        k = n.get("kind")
        if k in ("NamespaceDecl", "LinkageSpecDecl", "TranslationUnitDecl"):
            for c in n.get("inner", []):
                visit(c)
        elif k == "ClassTemplateDecl":
            rec = [c for c in n["inner"] if c["kind"] == "CXXRecordDecl"]
            if rec and rec[0].get("completeDefinition"):
                record(rec[0], comment_of(n))
        elif k == "CXXRecordDecl" and n.get("completeDefinition"):
            record(n, comment_of(n))
        elif k == "EnumDecl":
            # (clang also gives a constant the comment of the constant before it)
            with open(os.path.join(d, n["name"] + ".hpp"), "rb") as f:
                text = f.read()
            pos, ms = text.index(b"{", n["range"]["begin"]["offset"]), []
            for c in n.get("inner", []):
                if c["kind"] == "EnumConstantDecl":
                    b, e = c["range"]["begin"]["offset"], c["range"]["end"]
                    ms.append((c["name"], text[pos:b].decode()))
                    pos = e["offset"] + e["tokLen"]
            r[n["name"]] = (comment_of(n), ms)

    def record(n, doc):
        r[n["name"]] = (doc, [("<init>" if c["kind"] == "CXXConstructorDecl" else c.get("name", ""), comment_of(c)) for c in n.get("inner", []) if c["kind"] in ("CXXConstructorDecl", "CXXMethodDecl", "FunctionTemplateDecl")])
    while True:
        i = s.find("{", i)
        if i < 0:
            return r
        o, i = dec.raw_decode(s, i)
        visit(o)


def java_docs(d, files):
    lst = write(os.path.join(d, "doclist"), "\n".join(files) + "\n")
    dd = os.path.join(BUILD, "javadocs")
    with Lock("javadocs"):
        src = os.path.join(JNI, "Docs.java")
        if not os.path.exists(os.path.join(dd, "Docs.class")) or os.path.getmtime(os.path.join(dd, "Docs.class")) < os.path.getmtime(src):
            p = run([os.path.join(JBIN, "javac"), "-nowarn", "-d", dd, src])
            if p.returncode != 0:
                raise ToolError("Docs.java: " + p.stderr[:2000])
    p = run([os.path.join(JBIN, "java"), "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-cp", dd, "Docs", lst], timeout=200)
    bad = [l for l in p.stdout.splitlines() if l.startswith("!")]
    if p.returncode != 0:
        raise ToolError("Docs: " + p.stderr[-2000:])
    if bad:
        raise BuildBroken("the generated Java classes are not Java", "\n".join(bad)[:4000])
    r = {}
    for l in p.stdout.splitlines():
        if l.startswith("@"):
            o = json.loads(l[1:])
            r[o["name"]] = (o["doc"], o["ms"])
    return r


def check_docs(scripts, got, same=same_words):
    for s in scripts:
        for d in s.out["decls"]:
            name = s.nm({"class": "c", "enum": "e", "callback": "k"}[d["k"]], d["id"])
            o = got.get(name + "Wrapper") or got.get(name)
            if o is None:
                return "%s is not among the generated classes" % name
            bad = same(o[0], s.words(d["docs"]))
            if bad:
                return "the documentation of %s %s" % (name, bad)
            want = []
            for m in d["ms"]:
                fn = "<init>" if m["x"] == "ctor" else s.foreign(m["id"]) if d["k"] == "class" else s.nm("i" if d["k"] == "enum" else "on", m["id"])
                want.append((fn, s.words(m["docs"])))
            there = [list(x) for x in o[1]]
            for fn, ws in want:
                c = [x for x in there if x[0] == fn]
                if fn == "<init>" and ws:
                    c = [x for x in c if ws[0] in (x[1] or "")] or c
                if not c:
                    return "%s has no member %s" % (name, fn)
                m = next((x for x in c if not same(x[1], ws)), None)
                if m is None:
                    return "the documentation of %s::%s %s" % (name, fn, same(c[0][1], ws))
                there.remove(m)
            for x in there:
                if same_words(x[1], []):
                    return "the member %s of %s carries documentation of something else: %s" % (x[0], name, x[1][:200])
            codes = [x[0] for x in o[1] if x[0].startswith("code")]
            if codes != ["code%s_%d" % (s.p, u) for u in d["code"]]:
                return "the foreign code in %s is %s, expected %s" % (name, codes, ["code%s_%d" % (s.p, u) for u in d["code"]])
    return None


def rust_items(g, scripts, srcs, glue, d):
    """The Rust items of the sources are in the glue, each once and in order."""
    want = [s.items[u] for s in scripts for u in s.out["rust"]]
    w = write(os.path.join(d, "want.rs"), "\n".join(want))
    a = g(lang="cpp", items=[w, glue])["files"]
    if not isinstance(a[0], list) or len(a[0]) != len(want):
        raise ToolError("the Rust items of the fixture do not parse: %s" % str(a[0])[:500])
    if not isinstance(a[1], list):
        return "the generated Rust code does not parse: %s" % a[1]
    known = set(a[0])
    got = [x for x in a[1] if x in known]
    if got == a[0]:
        return None
    miss = [x for x in a[0] if x not in got]
    return "Rust items outside the macros: %s" % ("missing or changed: %s" % miss[:2] if miss else "order or number differs: %s..." % [(x, y) for x, y in zip(got, a[0]) if x != y][:1])


def lives(s):
    """The calls in the order of the specification's Lives: (object with its constructor's index, or None, [function])."""
    for d in s.out["decls"]:
        if d["k"] != "class":
            continue
        c = s.nm("c", d["id"])
        n = 0
        for m in d["ms"]:
            if m["x"] == "ctor":
                yield c, n, m["id"], [(k["id"], k["x"]) for k in d["ms"] if k["x"] in ("m", "mm")]
                n += 1
            elif m["x"] == "st":
                yield c, None, None, [(m["id"], "st")]


def ab(u, k=0):
    return u + 1, 2 * u + 3


def cpp_program(scripts):
    o = ["#include <cstdio>\n#include <cstdint>\nusing namespace org_examples;\nint main() {\n"]
    for s in scripts:
        for c, n, cu, fns in lives(s):
            o.append("{")
            if n is not None:
                t = [("int64_t", "int64_t"), ("int32_t", "int64_t"), ("int64_t", "int32_t"), ("int32_t", "int32_t")][n]
                o.append("%s o{%s(%d), %s(%d)}; const %s &co = o; (void)co;" % (c, t[0], ab(cu)[0], t[1], ab(cu)[1], c))
            for u, x in fns:
                o.append('printf("%%d %%d %%lld\\n", %d, %d, (long long)%s%s(%d, %d));' % (s.n, u, {"st": c + "::", "m": "co.", "mm": "o."}[x], s.foreign(u), *ab(u)))
            o.append("}\n")
        for d in s.out["decls"]:
            for u in d["code"]:
                o.append('if (%s::code%s_%d() != %d) printf("code %d\\n");\n' % (s.nm("c", d["id"]), s.p, u, u, u))
    return "".join(o) + "}\n"


def java_program(scripts):
    o = ["package com.example;\npublic class Calls { public static void main(String[] a) { System.load(a[0]);\n"]
    k = 0
    body = []
    for s in scripts:
        for c, n, cu, fns in lives(s):
            b = "static void l%d() {" % k
            if n is not None:
                t = [("long", "long"), ("int", "long"), ("long", "int"), ("int", "int")][n]
                b += "%s o = new %s((%s)%d, (%s)%d);" % (c, c, t[0], ab(cu)[0], t[1], ab(cu)[1])
            for u, x in fns:
                b += 'System.out.println(%d + " " + %d + " " + %s%s(%dL, %dL));' % (s.n, u, c + "." if x == "st" else "o.", s.foreign(u), *ab(u))
            body.append(b + "}\n")
            o.append("l%d();\n" % k)
            k += 1
        for d in s.out["decls"]:
            for u in d["code"]:
                o.append('if (%s.code%s_%d() != %d) System.out.println("code %d");\n' % (s.nm("c", d["id"]), s.p, u, u, u))
    return "".join(o) + "}\n" + "".join(body) + "}\n"


def py_program(scripts):
    o = ["import sys, importlib.util\nspec = importlib.util.spec_from_file_location('vfix', sys.argv[1]); vfix = importlib.util.module_from_spec(spec); spec.loader.exec_module(vfix)\nimport json\n"]
    for s in scripts:
        for c, n, cu, fns in lives(s):
            if n is not None:
                o.append("o = vfix.%s(%d, %d)\n" % (c, *ab(cu)))
            for u, x in fns:
                o.append("print(%d, %d, %s.%s(%d, %d))\n" % (s.n, u, "vfix." + c if x == "st" else "o", s.foreign(u), *ab(u)))
        for d in s.out["decls"]:
            c = s.nm("c" if d["k"] == "class" else "e", d["id"])
            o.append("print('@' + json.dumps(['%s', vfix.%s.__doc__, [[k, getattr(vfix.%s, k).__doc__] for k in %r]]))\n" % (c, c, c, [s.foreign(m["id"]) for m in d["ms"] if m["x"] not in ("ctor", "item")]))
    return "".join(o)


def check_calls(scripts, out):
    want = [(s.n, c["id"], c["r"]) for s in scripts for c in s.out["calls"]]
    got = []
    for l in out.splitlines():
        f = l.split()
        if f and f[0] == "code":
            return "the code of the class returns something else (%s)" % l
        if len(f) == 3 and f[0].isdigit():
            got.append(tuple(map(int, f)))
    for w, g in zip(want + [None] * len(got), got + [None] * len(want)):
        if w != g:
            return "call: script, function, value is %s, the specification says %s" % (g, w)
        if w is None:
            break
    return None


def py_docs(scripts, out):
    got = {}
    for l in out.splitlines():
        if l.startswith("@"):
            n, doc, ms = json.loads(l[1:])
            got[n] = (doc, dict(ms))
    for s in scripts:
        for d in s.out["decls"]:
            n = s.nm("c" if d["k"] == "class" else "e", d["id"])
            ctor = next((m["docs"] for m in d["ms"] if m["x"] == "ctor"), [])
            if n not in got:
                return "%s is not there" % n
            bad = same_lines(got[n][0], s.words(d["docs"] + ctor))
            if bad:
                return "the documentation of %s %s" % (n, bad)
            for m in d["ms"]:
                if m["x"] not in ("ctor", "item"):
                    bad = same_lines(got[n][1].get(s.foreign(m["id"])), s.words(m["docs"]))
                    if bad:
                        return "the documentation of %s.%s %s" % (n, s.foreign(m["id"]), bad)
    return None


HELP = "fn a_is(x: i64) -> bool { x == 1 }\n"


def desc_group(ck, lang, n, outs, opts):
    """One project of several source files; returns what differs from the specification."""
    rng = random.Random(ck.rng.random())
    scripts = [Script(rng, lang, i, o) for i, o in enumerate(outs)]
    d = workdir(ck, "desc-%s%d" % (lang, n))
    out = os.path.join(d, "java", "com", "example") if lang == "java" else d
    os.makedirs(out, exist_ok=True)
    srcs = [write(os.path.join(d, "src", "f%d.rs.in" % s.n), s.text) for s in scripts]
    g = Gen(err=False)
    a = g(lang=lang, out=out, dst=os.path.join(d, "glue.rs"), srcs=srcs, many=True, opts=dict({"fence": 0} if lang == "java" else {}, **opts), pkg="vfix" if lang == "python" else "com.example" if lang == "java" else "org_examples")
    if not a["ok"]:
        g.close()
        raise BuildBroken("flapigen refuses the descriptions of group %s%d" % (lang, n), json.dumps(a)[:3000])
    bad = rust_items(g, scripts, srcs, os.path.join(d, "glue.rs"), d)
    g.close()
    if bad:
        return bad, scripts, d
    rust = HELP + "".join("".join(s.rust) for s in scripts)
    if lang == "cpp":
        heads = [f for f in sorted(os.listdir(d)) if re.match(r"[CEK]s\d+x\w*\.hpp$", f) and not f.endswith("_fwd.hpp")]
        heads.sort(key=lambda f: f.endswith("_impl.hpp"))
        src = write(os.path.join(d, "calls.cc"), "".join('#include "%s"\n' % f for f in heads) + cpp_program(scripts))

        def cc():
            p = run(["g++", "-std=c++17", "-O0", "-I", CXX, "-I", d, "-c", "-o", os.path.join(d, "calls.o"), src], timeout=400)
            if p.returncode != 0:
                raise BuildBroken("g++ rejects the program of group cpp%d" % n, p.stderr[:6000])
        got, _, _ = parallel(lambda: cpp_docs(src, d), lambda: rust_lib(ck, d, "desc", text=rust), cc)
        bad = check_docs(scripts, got)
        if bad:
            return bad, scripts, d
        p = run(["g++", "-o", os.path.join(d, "calls"), os.path.join(d, "calls.o"), os.path.join(d, "libvfix.a"), "-lpthread", "-ldl", "-lm"])
        if p.returncode != 0:
            raise BuildBroken("the program of group cpp%d does not link" % n, p.stderr[:6000])
        p = run([os.path.join(d, "calls")], timeout=60)
        bad = check_calls(scripts, p.stdout)
    elif lang == "java":
        files = [os.path.join(out, f) for f in sorted(os.listdir(out)) if f.endswith(".java")]
        bad = check_docs(scripts, java_docs(d, files), same_lines)
        if bad:
            return bad, scripts, d
        parallel(lambda: rust_jni(ck, d, "desc", rust), lambda: javac(ck, d, "desc", {"Calls": java_program(scripts)}))
        p = run(java_cmd(d, "Calls"), timeout=100)
        bad = check_calls(scripts, p.stdout)
    else:
        import chk_py
        chk_py.rust_py(ck, d, "desc", rust)
        prog = write(os.path.join(d, "calls.py"), py_program(scripts))
        p = run(["python3", "-B", prog, os.path.join(d, "vfix.so")], timeout=100)
        bad = check_calls(scripts, p.stdout) or py_docs(scripts, p.stdout)
    if not bad and p.returncode != 0:
        bad = "the program fails: %s" % p.stderr[-800:]
    return bad, scripts, d


T = lambda k, x="", b=False, n=0: {"k": k, "x": x, "b": b, "n": n}


def random_script(rng, lang, small=False):
    """A legal file; whether it is, and what comes of it, is the specification's business."""
    o = []

    def docs(p=.6):
        k = 0
        while rng.random() < p and k < 5:
            n = rng.choice([1, 1, 2, 3]) if k < 3 else 1
            o.append(T("doc", n=n))
            k += n
            p /= 2
    while len(o) < (6 if small else 14):
        w = rng.random()
        if w < .35:
            o.append(T("rust"))
        elif w < .75:
            obj = rng.random() < .75
            docs()
            o.append(T("class", "obj" if obj else "static"))
            ms = [("ctor", rng.random() < .35 and lang != "python") for _ in range(rng.choice([1, 1, 2, 3]) if lang != "python" else 1)] if obj else []
            ms += [(rng.choice(["m", "mm", "st", "m"] if obj else ["st"]), rng.random() < .5 and lang != "python") for _ in range(rng.choice([1, 2, 3]))]
            rng.shuffle(ms)
            for x, b in ms:
                if rng.random() < .25 and lang != "python":
                    o.append(T("code"))
                docs()
                o.append(T("fn", x, b, 0 if b or x == "ctor" else int(rng.random() < .3)))
            if rng.random() < .25 and lang != "python":
                o.append(T("code"))
            o.append(T("end"))
        elif w < .88 or lang == "python":
            docs()
            o.append(T("enum"))
            for _ in range(rng.choice([1, 2, 3])):
                docs()
                o.append(T("item", "item"))
            o.append(T("end"))
        else:
            docs()
            o.append(T("callback"))
            for _ in range(rng.choice([1, 2])):
                docs()
                o.append(T("on", "on"))
            o.append(T("end"))
    return o


def tok(t):
    return '[k |-> "%s", x |-> "%s", b |-> %s, n |-> %d]' % (t["k"], t["x"], "TRUE" if t["b"] else "FALSE", t["n"])


INV = ["RustKept", "DocsKept", "CodeKept", "MembersKept", "Adjacent"]


def alphabet(lang):
    a = [T("rust"), T("doc", n=1), T("doc", n=2), T("class", "obj"), T("class", "static"), T("enum"), T("fn", "ctor"), T("fn", "m"), T("fn", "mm"), T("fn", "st", n=1), T("item", "item"), T("end")]
    return a if lang == "python" else a + [T("callback"), T("on", "on"), T("code"), T("fn", "ctor", True), T("fn", "m", True), T("fn", "mm", True), T("fn", "st", True)]


def g10(ck):
    build_vgen(ck)
    import chk_py
    jobs = []
    depth = {"java": 6, "cpp": 6, "python": 6} if ck.quick else {"java": 7, "cpp": 7, "python": 7}
    per, groups = (50, {"java": 5, "cpp": 5, "python": 3}) if ck.quick else (60, {"java": 16, "cpp": 16, "python": 8})
    free = {}
    for al in ("full", "python"):
        l, st = enumerate_states(ck, "Describe", {"Scripts": "<<>>", "Alphabet": "{%s}" % ", ".join(map(tok, alphabet(al))), "MaxToks": depth["java"], "MaxDocs": 2}, INV, tag="-" + al, timeout=800)
        ck.add_tlc(st)
        free[al] = [x for x in l if x["decls"]]
        ck.log("%d whole files of at most %d tokens (%s), %d states" % (len(l), depth["java"], al, st["states"]))
    for lang, n in groups.items():
        count = n * per * 2 // 3
        l, st = enumerate_states(ck, "Describe", {"Scripts": "<<%s>>" % ", ".join("<<%s>>" % ", ".join(map(tok, random_script(ck.rng, lang))) for _ in range(count)), "Alphabet": "{}", "MaxToks": 0, "MaxDocs": 6}, INV, tag="-s-" + lang)
        ck.add_tlc(st)
        if len(l) != count:
            raise ToolError("%d of %d scripts are files of the specification" % (len(l), count))
        pool = free["python" if lang == "python" else "full"]
        if lang == "python":
            pool = [x for x in pool if all(sum(m["x"] == "ctor" for m in d["ms"]) <= 1 for d in x["decls"])]
        l += ck.rng.sample(pool, min(len(pool), n * per - count))
        ck.rng.shuffle(l)
        for k in range(n):
            opts = {"sep": True} if lang == "cpp" and k % 2 else {}
            jobs.append((lang, k, l[k::n], opts))
    if groups["python"]:
        chk_py.build_deps(ck)
    jobs.sort(key=lambda j: j[1])
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    done = {"java": 0, "cpp": 0, "python": 0, "calls": 0, "docs": 0, "rust_items": 0}

    def worker(_):
        while not ck.violations:
            try:
                lang, k, outs, opts = q.get_nowait()
            except queue.Empty:
                return
            bad, scripts, d = desc_group(ck, lang, k, outs, opts)
            if bad:
                m = re.search(r"s(\d+)(?:_|d|\d)", bad)
                ck.violation("%s: %s" % (lang, bad), {"lang": lang, "opts": opts, "problem": bad, "sources": [s.text for s in scripts][:60]})
                return
            with ck.lock:
                done[lang] += len(scripts)
                done["calls"] += sum(len(s.out["calls"]) for s in scripts)
                done["docs"] += sum(t["n"] for s in scripts for t in s.out["toks"] if t["k"] == "doc")
                done["rust_items"] += sum(len(s.out["rust"]) for s in scripts)
                ck.sample({"lang": lang, "source": scripts[0].text})
            shutil.rmtree(d, ignore_errors=True)
    par(5, worker)
    ck.cov.update(done)
    ck.cov["traces"] = done["java"] + done["cpp"] + done["python"]
    ck.cov["traces_validated_against_impl"] = ck.cov["traces"]
    ck.log("%s" % done)


CHECKS = {"G10": g10}
