"""Checks on the generator's output as a whole: G03 (determinism), G07 (API), G08 (symbols)."""
import subprocess
from chk_jni import *


def G03_inputs():
    """(name, language, options, items): items is the description as a list of texts."""
    import valfix as vx
    import jvalfix as jv
    import chk_py
    sys.path.insert(0, os.path.join(HARNESS, "py"))
    import pyfix as pf
    ct = ctypes()
    ct = [ct[i] for i in val_groups(ct)[0]]
    jt = jtypes()
    pf.setup()
    pt = chk_py.ptypes()
    r = []
    for n, o in (("std", {}), ("boost", {"boost": True}), ("sep", {"sep": True})):
        r.append(("val-" + n, "cpp", o, vx.description(ct[len(r)::6], [])))
    r.append(("val", "java", {"fence": 3, "null_ann": "androidx.annotation.NonNull", "optional_pkg": "java.util"}, vx.description(jt, [], lang="java", **jv.no(jt))))
    r.append(("val", "python", {}, vx.description(pt, [], lang="python", **pf.no(pt))))
    for lang, f in (("cpp", "cpp/own.rs.in"), ("cpp", "cpp/cbk.rs.in"), ("java", "jni/jcb.rs.in")):
        with open(os.path.join(HARNESS, f)) as h:
            r.append((os.path.basename(f)[:3], lang, {}, h.read()))
    return r


# items which all belong together: every kind of item, Rust items between them, a user rule which is used before and after its place
SPLIT = ["""foreign_enum!(enum Color { Red = Color::Red, Blue = Color::Blue, });
""", """pub struct Special(pub i32);
fn helper(x: i32) -> i32 { x }
my_macro!(1, 2);
""", """foreign_class!(class Alpha {
    self_type Alpha;
    constructor Alpha::new(x: i32) -> Alpha;
    fn Alpha::get(&self) -> i32;
    fn Alpha::beta(&self, b: &Beta) -> Special;
    fn Alpha::paint(&self, c: Color) -> Option<i64>;
});
""", """foreign_typemap!(
    ($p:r_type) Special => i32 {
        $out = $p.0;
    };
    ($p:r_type) Special <= i32 {
        $out = Special($p);
    };
);
""", """foreign_class!(#[derive(Clone)] class Beta {
    self_type Beta;
    constructor Beta::new(a: Special, b: f64) -> Beta;
    fn Beta::clone(&self) -> Beta;
    fn Beta::alpha(&self, a: &Alpha, c: &str) -> Color;
    fn beta_all(v: &[i32]) -> Vec<Beta>;
});
""", """foreign_callback!(callback Watcher {
    self_type Watcher;
    onEvent = Watcher::on_event(&self, x: i32, c: Color);
});
""", """foreign_class!(class Gamma {
    fn watch(w: Box<dyn Watcher>) -> Result<Special, String>;
    fn both(a: Option<f32>, s: &str) -> String;
});
"""]
NOCB = {5: """foreign_enum!(enum Other { X = Other::X, Y = Other::Y, });
""", 6: """foreign_class!(class Gamma {
    fn watch(w: Other) -> Result<Special, Error>;
    fn both(a: Option<f32>, s: &str) -> String;
});
""", 1: """fn helper(x: i32) -> i32 { x }
foreign_enum!(enum Special { P = Special::P, });
""", 3: """my_macro!(1, 2);
"""}


def g03(ck):
    build_vgen(ck)
    wd = workdir(ck, "d")
    ins = G03_inputs()
    bad = [("syntax", "java", {}, "foreign_class!(class Broken {\n    fn broken_f(a: i32\n});\n"), ("unresolved", "cpp", {}, SPLIT[0] + SPLIT[4].replace("Alpha", "NoSuch")),
           ("unresolved", "python", {}, SPLIT[0] + "foreign_class!(class Broken {\n    fn broken_f(a: NoSuchType);\n});\n")]
    n_good = len(ins)
    if ck.quick:
        bad = bad[1:]
    all_ = ins + bad
    N = len(all_)

    def place(d, i, s=None):
        """The request for input i in directory d: the sources may lie anywhere too."""
        name, lang, opts, text = all_[i]
        src = write(os.path.join(s or d + "-src", "src", "in.rs.in"), text)
        out = os.path.join(d, "%d" % i)
        os.makedirs(out, exist_ok=True)
        return dict(lang=lang, out=out, dst=os.path.join(out, "glue.rs"), srcs=[src], opts=dict({"fence": 0} if lang == "java" else {}, **opts))
    base = [None] * N

    def measure(i):
        d = os.path.join(wd, "base%d" % i)
        g = Gen()
        a = g(**place(d, i))
        g.close()
        base[i] = tree(os.path.join(d, str(i))) if a["ok"] else None
        if a["ok"] != (i < n_good):
            raise BuildBroken("flapigen %s input %s" % ("accepts" if a["ok"] else "refuses", all_[i][:2]), json.dumps(a)[:3000])
    par(N, measure)
    for i in range(n_good):
        for f, c in base[i].items():
            if wd.encode() in c or b"/verif/" in c:
                ck.violation("%s (%s): %s contains the path of its directory" % (all_[i][0], all_[i][1], f), {"input": i, "file": f})
    ck.log("%d inputs measured, %d files" % (N, sum(len(b) for b in base if b)))

    def diff(i, d):
        got = tree(os.path.join(d, str(i)))
        for f in sorted(set(got) | set(base[i])):
            x, y = got.get(f), base[i].get(f)
            if x != y:
                if x is None or y is None:
                    return "file %s is %s" % (f, "missing" if x is None else "new")
                xs, ys = x.split(b"\n"), y.split(b"\n")
                k = next((j for j, (p, q) in enumerate(zip(xs, ys)) if p != q), min(len(xs), len(ys)))
                return "%s differs at line %d: %r instead of %r" % (f, k + 1, b"\n".join(xs[k:k + 1])[:200], b"\n".join(ys[k:k + 1])[:200])
        return None
    st = explore(ck, "Determ", {"N": N, "Bad": set(range(n_good + 1, N + 1)), "Mem": 1 if ck.quick else 2}, ["TypeOK"], ["Function", "Others"], view="view", mem="4g")
    ck.add_tlc(st)
    # the directories hold what the last good run left of *that* input's files: every input has its own place in a directory, and the previous one's files are
    # copied over its own first when they have the same names, so that a run meets files of another input
    g = Graph(st["edges"], st["init"])
    walks = g.tours(ck.rng, maxlen=14, limit=4000 if ck.quick else 60000)
    ck.rng.shuffle(walks)
    deadline = time.time() + (40 if ck.quick else 600)
    q = queue.Queue()
    [q.put(w) for w in walks]
    stats = {"runs": 0, "restarts": 0, "parallel": 0, "steps": 0, "histories": 0}
    lk = threading.Lock()
    envs = [{}, {"HOME": "/nonexistent", "TZ": "Asia/Tokyo", "LANG": "C"}, {"LANG": "tr_TR.UTF-8", "LC_ALL": "tr_TR.UTF-8", "TZ": "UTC", "USER": "someone", "RUST_LOG": "off"},
            {"OUT_DIR": "/tmp", "CARGO_MANIFEST_DIR": "/", "CARGO_PKG_NAME": "other", "PROFILE": "release", "TARGET": "i686-unknown-linux-gnu"}]

    def worker(k):
        rng = random.Random(ck.rng.random())
        root = os.path.join(wd, "w%d" % k, rng.choice(["x", "ünï cödé", "a.b"]))
        gen = None
        while time.time() < deadline and not ck.violations:
            try:
                w = q.get_nowait()
            except queue.Empty:
                break
            shutil.rmtree(root, ignore_errors=True)
            os.makedirs(root)
            with lk:
                stats["histories"] += 1

            def fresh():
                os.makedirs(os.path.join(root, "cwd"), exist_ok=True)
                return Gen(cwd=rng.choice([None, "/", os.path.join(root, "cwd")]), extra_env=rng.choice(envs))
            if gen:
                gen.close()
            gen = fresh()
            hist = []
            for a, s in w:
                if time.time() > deadline:
                    break
                op = a["op"]
                hist.append({x: a[x] for x in a if x[0] != "_"})
                if op == "restart":
                    gen.close()
                    gen = fresh()
                elif op == "wipe":
                    shutil.rmtree(os.path.join(root, "1"), ignore_errors=True)
                else:
                    jobs = [(a["i"] - 1, 1)] + ([(a["j"] - 1, 2)] if op == "both" else [])
                    reqs = []
                    for i, d in jobs:
                        dd = os.path.join(root, str(d))
                        r = place(dd, i, os.path.join(root, "src%d" % d))
                        # files of the other input in this directory
                        for j in range(n_good):
                            p = os.path.join(dd, str(j))
                            if j != i and os.path.isdir(p) and i < n_good:
                                for f, c in tree(p).items():
                                    if f in base[i] and rng.random() < .5:
                                        with open(os.path.join(dd, str(i), f), "wb") as h:
                                            h.write(c)
                        reqs.append(r)
                    an = gen(both=reqs)["all"] if op == "both" else [gen(**reqs[0])]
                    for (i, d), r in zip(jobs, an):
                        m = None
                        if r["ok"] != (i < n_good):
                            m = "the run %s" % ("succeeds" if r["ok"] else "fails: " + str(r["panic"])[:300])
                        elif r["ok"]:
                            m = diff(i, os.path.join(root, str(d)))
                        if m:
                            ck.violation("input %s (%s) after other runs: %s" % (all_[i][0], all_[i][1], m), {"input": all_[i][:3], "history": hist})
                            return
                        for j in range(N):
                            if j != i:
                                shutil.rmtree(os.path.join(root, str(d), str(j)), ignore_errors=True)
                    with lk:
                        stats["runs"] += len(jobs)
                        stats["parallel"] += op == "both"
                with lk:
                    stats["steps"] += 1
                    stats["restarts"] += op == "restart"
                    ck.sample(hist[-1])
        if gen:
            gen.close()
    par(8, worker)
    ck.cov.update({"histories_" + k if k != "histories" else k: v for k, v in stats.items()})
    ck.cov["traces"] = ck.cov.get("traces", 0) + stats["histories"]
    ck.log("%d transitions, %s" % (g.n, stats))
    if ck.violations:
        return
    g03_split(ck, wd)


def g03_split(ck, wd):
    cuts, st = enumerate_states(ck, "Split", {"Items": len(SPLIT), "MaxFiles": 5 if ck.quick else 6}, ["SameItems"])
    ck.add_tlc(st)
    cuts = [c["files"] for c in cuts]
    ck.rng.shuffle(cuts)
    q = queue.Queue()
    deadline = time.time() + (25 if ck.quick else 200)
    base = {}
    langs = ("cpp", "java", "python")
    items = {l: [NOCB.get(k, t) if l == "python" else t for k, t in enumerate(SPLIT)] for l in langs}

    def run(g, d, lang, files, many=None):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(os.path.join(d, "out"))
        srcs = [write(os.path.join(d, "s%d" % k, "x%d.rs.in" % (7 - k)), "".join(items[lang][i - 1] for i in f)) for k, f in enumerate(files)]
        o = os.path.join(d, "out")
        a = g(lang=lang, out=o, dst=os.path.join(d, "glue.rs"), srcs=srcs, opts={"fence": 0} if lang == "java" else {}, many=many if many is not None else len(srcs) > 1)
        if not a["ok"]:
            return a["panic"]
        r = tree(o)
        if lang == "python":
            # everything that Python sees is in the Rust file: its generated items, in any order of files
            with open(os.path.join(d, "glue.rs")) as h:
                r["glue.rs"] = h.read()
        return r
    g = Gen()
    for l in langs:
        base[l] = run(g, os.path.join(wd, "sp-" + l), l, [list(range(1, len(SPLIT) + 1))], many=False)
        if not isinstance(base[l], dict):
            raise BuildBroken("flapigen refuses the items of Split (%s)" % l, str(base[l])[:3000])
    g.close()
    for c in cuts:
        for l in langs:
            q.put((l, c))
    n = [0]
    lk = threading.Lock()

    def worker(k):
        g = Gen()
        while time.time() < deadline and not ck.violations:
            try:
                l, c = q.get_nowait()
            except queue.Empty:
                break
            r = run(g, os.path.join(wd, "spw%d" % k), l, c, many=True)
            with lk:
                n[0] += 1
            if r != base[l]:
                if not isinstance(r, dict):
                    m = "refused: %s" % str(r)[:300]
                else:
                    m = "files %s differ" % [f for f in sorted(set(r) | set(base[l])) if r.get(f) != base[l].get(f)]
                ck.violation("%s: the items split over files %s: %s" % (l, c, m), {"lang": l, "files": c, "items": items[l]})
        g.close()
    par(8, worker)
    ck.cov["splits"] = [n[0], len(cuts) * len(langs)]
    ck.log("%d of %d splits" % (n[0], len(cuts) * len(langs)))




# ------------------------------------------------------------------------------------------------ G07: members
def api_descs(ck, boost=False, extra=()):
    p = "boost::%s" if boost else "std::%s"
    l, st = enumerate_states(ck, "Api", {"Opt": '"%s"' % (p % "optional"), "View": '"%s"' % (p % "string_view"), "Var": '"%s"' % (p % "variant"), "Extra": "{%s}" % ", ".join(extra)}, ["Total"],
                             tag="-b" if boost else "")
    ck.add_tlc(st)
    return l


def api_extra(rng, n):
    """Random classes of 3 to 6 members for spec/Api.tla."""
    import apifix as af
    words = [("get",), ("get", "value"), ("a", "x1", "set"), ("set", "a"), ("up",), ("up", "x1"), ("value",), ("x1", "up", "get")]
    ins = [t for t in af.R if t not in ("resi32", "resunit", "resown", "unit", "veci32", "string", "optown", "optref", "isize", "usize")]
    outs = [t for t in af.R if t not in ("oref", "omut", "arref", "optref", "cb", "optstr", "isize", "usize")]
    r = []
    for _ in range(n):
        ws = rng.sample(words, rng.randint(3, 6))
        camel, clone, tr = rng.random() < .4, rng.random() < .3, rng.random() < .15
        ms = []
        for w in ws:
            k = rng.choice(["ctor", "static", "ref", "ref", "mut"])
            ms.append(tlarec({"k": S(k), "acc": S(rng.choice(["public", "public", "protected", "private"])), "words": "<<%s>>" % ", ".join('"%s"' % x for x in w),
                              "alias": S(rng.choice(["", "", "", "other", "get_up", "xAlias", "get"])) if k != "ctor" else S(""),
                              "args": "<<%s>>" % ", ".join('"%s"' % rng.choice(ins) for _ in range(rng.choice([0, 1, 2, 3, 4, 5]))), "ret": S(rng.choice(outs)) if k != "ctor" else S("unit")}))
        r.append(tlarec({"camel": camel, "clone": clone, "try": tr, "ms": "<<%s>>" % ", ".join(ms)}))
    return r


def tlarec(r):
    return "[%s]" % ", ".join("%s |-> %s" % (k, v if isinstance(v, str) and not isinstance(v, S) else tla(v)) for k, v in r.items())


class Group:
    """Some described classes, generated as one project."""
    def __init__(self, ck, lang, n, items, pkg="com.example", opts=None, wd="api"):
        import apifix as af
        self.lang, self.items, self.pkg, self.opts = lang, items, pkg, opts or {}
        self.names = [af.cname(i) for i in range(len(items))]
        self.d = workdir(ck, "%s-%s%d" % (wd, lang, n))
        self.ds = [x["d"] for x in items]
        text = af.description(self.ds, self.names, lang)
        self.out = os.path.join(self.d, "java", *pkg.split(".")) if lang == "java" else os.path.join(self.d, "h")
        os.makedirs(self.out)
        src = write(os.path.join(self.d, "src", "api.rs.in"), text)
        g = Gen(err=False)
        a = g(lang=lang, out=self.out, dst=os.path.join(self.d, "glue.rs"), srcs=[src], opts=dict({"fence": 0} if lang == "java" else {}, **self.opts), pkg=pkg if lang == "java" else "org_examples")
        g.close()
        if not a["ok"]:
            raise BuildBroken("flapigen refuses the classes of group %d (%s)" % (n, lang), json.dumps(a)[:3000])

    def javac(self, refl=True):
        if self.opts.get("null_pkg"):
            null_annotations(os.path.join(self.d, "java"), self.opts["null_pkg"])
        if refl:
            write(os.path.join(self.d, "java", "Refl.java"), jsource("Refl"))
        files = []
        for r, _, fs in os.walk(os.path.join(self.d, "java")):
            files += [os.path.join(r, f) for f in fs if f.endswith(".java")]
        lst = write(os.path.join(self.d, "files"), "\n".join(sorted(files)))
        p = run([os.path.join(JBIN, "javac"), "-nowarn", "-Xlint:none", "-encoding", "UTF-8", "-h", os.path.join(self.d, "jh"), "-d", os.path.join(self.d, "classes"), "-J-XX:TieredStopAtLevel=1",
                 "-J-XX:+UseSerialGC", "@" + lst], timeout=600)
        if p.returncode != 0:
            raise BuildBroken("javac rejects the generated classes", p.stderr[:6000])

    def reflect(self):
        names = [self.pkg + "." + n for n in self.names + ["En", "Restruct", "C_p", "Ar", "Obs"]]
        p = subprocess.run([os.path.join(JBIN, "java"), "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Dfile.encoding=UTF-8", "-Xshare:auto", "-cp", os.path.join(self.d, "classes"), "Refl"],
                           input="\n".join(names) + "\n", capture_output=True, text=True, timeout=300, encoding="utf-8")
        r = {}
        for l in p.stdout.splitlines():
            if l.startswith("@"):
                o = json.loads(l[1:])
                r[o["name"][len(self.pkg) + 1:]] = o
        if p.returncode != 0 or len(r) != len(names):
            raise BuildBroken("the generated Java classes cannot be loaded", p.stderr[:4000])
        return r


def multi(l):
    return sorted(json.dumps(x, sort_keys=True) for x in l)


def sets(what, want, got, exact=True):
    w, g = multi(want), multi(got)
    for x in w:
        if x in g:
            g.remove(x)
        else:
            return "%s missing: %s (there: %s)" % (what, x, g[:6])
    if exact and g:
        return "%s not described: %s" % (what, g[0])


def nulls(m, on):
    """The annotations of a specified member."""
    r = {"nargs": m["nargs"] if on else [""] * len(m["args"])}
    if "nret" in m:
        r["nret"] = m["nret"] if on else ""
    return r


def java_members(x, o, name, pkg, null=False):
    """Compares one reflected class with spec/Api.tla's expectation."""
    sub = lambda t: t.replace("@.Self", pkg + "." + name).replace("@.", pkg + ".")
    E = x["java"]
    ann = lambda m: nulls(m, null)
    ctors = [dict(ann(c), acc=c["acc"], args=[sub(a) for a in c["args"]], throws=c["throws"]) for c in E["ctors"]]
    meths = [dict(ann(m), name=m["name"], acc=m["acc"], static=m["static"], args=[sub(a) for a in m["args"]], ret=sub(m["ret"]), throws=m["throws"]) for m in E["methods"]]
    if E["managed"]:
        none = {"nargs": [], "nret": ""}
        meths += [{**none, "name": "delete", "acc": "public", "static": False, "args": [], "ret": "void", "throws": False}, {**none, "name": "finalize", "acc": "protected", "static": False, "args": [], "ret": "void", "throws": True}]
    cut = lambda l, ks: [{k: m[k] for k in ks} for m in l]
    gc = cut(o["ctors"], ("acc", "args", "throws", "nargs"))
    gm = cut(o["methods"], ("name", "acc", "static", "args", "ret", "throws", "nargs", "nret"))
    vis = lambda l: [m for m in l if m["acc"] in ("public", "protected")]
    pri = lambda l: [m for m in l if m["acc"] == "private"]
    m = sets("constructor", vis(ctors), vis(gc)) or sets("private constructor", pri(ctors), pri(gc), E["managed"] is False) or sets("method", vis(meths), vis(gm)) or sets("private method", pri(meths), pri(gm), False)
    if not m and (o["acc"] != "public" or o["interface"] or o["enum"]):
        m = "the class is not a public class"
    if not m and o["super"] != "java.lang.Object":
        m = "the class extends %s" % o["super"]
    if not m and [f for f in o["fields"] if f["acc"] in ("public", "protected")]:
        m = "field not described: %s" % o["fields"]
    return m


def java_other(x, o, pkg, null=False):
    """The same for an enum or a callback."""
    if "items" in x["d"]:
        if not o["enum"] or o["acc"] != "public":
            return "it is not a public enum"
        if o["constants"] != x["java"]:
            return "constants are %s" % o["constants"]
        return sets("field", [], [f for f in o["fields"] if f["acc"] in ("public", "protected")])
    want = [dict(nulls(m, null), name=m["name"], args=[a.replace("@.", pkg + ".") for a in m["args"]], ret=m["ret"]) for m in x["java"]]
    if not o["interface"] or o["acc"] != "public":
        return "it is not a public interface"
    return sets("callback method", want, [{k: m[k] for k in ("name", "args", "ret", "nargs", "nret")} for m in o["methods"] if m["abstract"]]) or sets("member", [], [m for m in o["methods"] if not m["abstract"]] + o["fields"])


def clang_ast(d, inc, name, flt=None, lang="c++"):
    """The clang AST of the declarations in #include's."""
    src = write(os.path.join(d, name + (".cpp" if lang == "c++" else ".c")), inc)
    p = subprocess.run(["clang++" if lang == "c++" else "clang", *(["-std=c++17"] if lang == "c++" else []), "-x", lang, "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", *(["-Xclang", "-ast-dump-filter=" + flt] if flt else []),
                        "-I", os.path.join(d, "h"), src], capture_output=True, text=True, timeout=600)
    if p.returncode != 0:
        raise BuildBroken("clang rejects the generated headers", p.stderr[:6000])
    dec, i, docs, s = json.JSONDecoder(), 0, [], p.stdout
    while True:
        i = s.find("{", i)
        if i < 0:
            return docs
        o, i = dec.raw_decode(s, i)
        docs.append(o)


def norm(t):
    t = re.sub(r"\b(org_examples|struct|class|enum)\b(::| )", lambda m: "" , t)
    t = re.sub(r"\s+", " ", t).strip()
    return re.sub(r"\s*([&*<>,])\s*", r"\1", t)


def cpp_record(r):
    """Members of a clang record: (kind, name, access, static, const, args, ret)."""
    acc = "private" if r["tagUsed"] == "class" else "public"
    o = []
    for m in r.get("inner", []):
        if m["kind"] == "AccessSpecDecl":
            acc = m["access"]
            continue
        if m.get("isImplicit") or m.get("explicitlyDeleted"):
            continue
        k = m["kind"]
        if k == "FunctionTemplateDecl":
            o.append({"kind": k, "name": m["name"], "acc": acc, "static": False, "const": False, "args": [], "ret": "", "pure": False, "virtual": False})
            continue
        if k not in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl", "FieldDecl", "VarDecl"):
            continue
        q = m["type"]["qualType"]
        args = [norm(p["type"]["qualType"]) for p in m.get("inner", []) if p["kind"] == "ParmVarDecl"]
        const = bool(re.search(r"\)\s*const\b", q)) if k == "CXXMethodDecl" else False
        ret = norm(q[:q.index("(")]) if "(" in q else norm(q)
        o.append({"kind": k, "name": m.get("name", ""), "acc": acc, "static": m.get("storageClass") == "static", "const": const, "args": args, "ret": ret, "pure": bool(m.get("pure")), "virtual": bool(m.get("virtual"))})
    return o


MANAGED = {"release", "as_rref", "as_cref", "operator="}


def cpp_members(x, ms, name):
    E = x["cpp"]
    sub = lambda t: norm(name if t == "Self" else t)
    ctors = [{"acc": c["acc"], "args": [sub(a) for a in c["args"]]} for c in E["ctors"]]
    meths = [{"name": m["name"], "acc": m["acc"], "static": m["static"], "const": m["const"], "args": [sub(a) for a in m["args"]], "ret": sub(m["ret"])} for m in E["methods"]]
    W = name + "Wrapper"
    own = lambda a: len(a) == 1 and (W in a[0] or a[0] == "SelfType")
    gc = [{"acc": m["acc"], "args": m["args"]} for m in ms if m["kind"] == "CXXConstructorDecl" and not own(m["args"])]
    gm = [{k: m[k] for k in ("name", "acc", "static", "const", "args", "ret")} for m in ms if m["kind"] == "CXXMethodDecl" and not (E["managed"] and m["name"] in MANAGED)]
    other = [m for m in ms if m["acc"] != "private" and (m["kind"] in ("FieldDecl", "VarDecl", "FunctionTemplateDecl") or m["kind"] == "CXXConversionDecl" and not E["managed"])]
    vis = lambda l: [m for m in l if m["acc"] != "private"]
    pri = lambda l: [m for m in l if m["acc"] == "private"]
    return (sets("constructor", vis(ctors), vis(gc)) or sets("private constructor", pri(ctors), pri(gc), False) or sets("method", vis(meths), vis(gm)) or sets("private method", pri(meths), pri(gm), False)
            or sets("member", [], other))


def enum_value(e):
    for x in e.get("inner", []):
        if "value" in x:
            return int(x["value"])
        v = enum_value(x)
        if v is not None:
            return v


def cpp_group(g, k, lo, hi, bad):
    docs = clang_ast(g.d, "".join('#include "%s.hpp"\n' % n for n in g.names[lo:hi]), "tu%d" % k, "org_examples")
    recs, cbs, enums = {}, {}, {}
    for o in docs:
        for c in o.get("inner", []):
            if c["kind"] == "ClassTemplateDecl":
                for r in c["inner"]:
                    if r["kind"] == "CXXRecordDecl" and r.get("completeDefinition"):
                        recs[c["name"]] = cpp_record(r)
            elif c["kind"] == "CXXRecordDecl" and c.get("completeDefinition"):
                cbs[c.get("name")] = cpp_record(c)
            elif c["kind"] == "EnumDecl" and c.get("inner"):
                enums[c.get("name")] = [(e["name"], enum_value(e)) for e in c["inner"] if e["kind"] == "EnumConstantDecl"]
    for x, n in zip(g.items[lo:hi], g.names[lo:hi]):
        if "ms" in x["d"]:
            m = "there is no class" if n + "Wrapper" not in recs else cpp_members(x, recs[n + "Wrapper"], n)
        elif "items" in x["d"]:
            want = [(e + n, i) for i, e in enumerate(x["cpp"])]
            m = None if enums.get(n) == want else "the enumerators are %s" % enums.get(n)
        elif n not in cbs:
            m = "there is no class"
        else:
            m = (sets("callback method", [{"name": m["name"], "const": m["const"], "args": [norm(a) for a in m["args"]], "ret": norm(m["ret"])} for m in x["cpp"]],
                      [{k: m[k] for k in ("name", "const", "args", "ret")} for m in cbs[n] if m["pure"] and m["acc"] == "public"])
                 or sets("member", [], [m["name"] for m in cbs[n] if not m["pure"] and m["acc"] == "public" and m["kind"] != "CXXDestructorDecl" and m["name"] not in ("to_c_interface", "reference_to_c_interface")]))
        if m:
            bad.append((x["d"], m))


PKGS = ["com.example", "a_b.c1_d", "org.x2", "p", "vf.q_.r__s", "u.J.L"]


def g07(ck):
    build_vgen(ck)
    extra = api_extra(ck.rng, 400 if ck.quick else 3000)
    l = api_descs(ck, extra=extra)
    ck.log("%d descriptions" % len(l))
    ck.rng.shuffle(l)
    jl, cl = [x for x in l if x["jok"]], [x for x in l if x["cok"]]
    weight = lambda x: ck.rng.random() + (.7 if len(x["d"].get("ms", x["d"].get("fns", ()))) == 2 else 0)
    jl.sort(key=weight)
    cl.sort(key=weight)
    if ck.quick:
        jl, cl = jl[:3600], cl[:1800]
    js = 450
    jg = [(n, jl[n * js:(n + 1) * js]) for n in range((len(jl) + js - 1) // js)]
    cs = 200 if ck.quick else 400
    cg = [(n, cl[n * cs:(n + 1) * cs]) for n in range((len(cl) + cs - 1) // cs)]
    jobs = queue.Queue()
    bl = []
    if not ck.quick:
        bl = [x for x in api_descs(ck, boost=True, extra=extra) if x["cok"]]
        ck.rng.shuffle(bl)
        bl.sort(key=weight)
        bl = bl[:3000]
    bg = [(100 + n, bl[n * cs:(n + 1) * cs]) for n in range((len(bl) + cs - 1) // cs)]
    for a, b in zip(jg + [None] * len(cg), cg + bg + [None] * len(jg)):
        if a:
            jobs.put(("java",) + a)
        if b:
            jobs.put(("cpp",) + b)
    done = {"java": 0, "cpp": 0}

    def one(lang, n, items):
        bad = []
        if lang == "java":
            null = n % 2 == 1
            g = Group(ck, lang, n, items, PKGS[n % len(PKGS)], opts={"null_pkg": ["annot", "com.x.annotation"][n // 2 % 2]} if null else {})
            g.javac()
            r = g.reflect()
            for x, nm in zip(items, g.names):
                m = (java_members(x, r[nm], nm, g.pkg, null) if "ms" in x["d"] else java_other(x, r[nm], g.pkg, null))
                if m:
                    bad.append((x["d"], m))
        else:
            g = Group(ck, lang, n, items, opts={"boost": True} if n >= 100 else {})
            for k, lo in enumerate(range(0, len(items), 100)):
                cpp_group(g, k, lo, min(lo + 100, len(items)), bad)
        for d, m in bad[:5]:
            ck.violation("%s: %s: %s" % (lang, json.dumps(d), m), {"lang": lang, "description": d, "problem": m})
        done[lang] += len(items)
        ck.sample({"lang": lang, "description": items[0]["d"]})
        shutil.rmtree(g.d, ignore_errors=True)

    def worker(k):
        while not ck.violations:
            try:
                j = jobs.get_nowait()
            except queue.Empty:
                return
            one(*j)
    par(7, worker)
    ck.cov.update({"classes_java": done["java"], "classes_cpp": done["cpp"], "descriptions": len(l)})
    ck.cov["traces"] = done["java"] + done["cpp"]
    ck.log("%s" % done)





# --------------------------------------------------------------------------- G08: names and signatures of the exported functions
SIGS = """
pub trait Abi { fn abi() -> String; }
fn one<T>() -> String { format!("{}|{}|{}", std::any::type_name::<T>(), std::mem::size_of::<T>(), std::mem::align_of::<T>()) }
macro_rules! abi { ($($a:ident)*) => { impl<R, $($a),*> Abi for extern "C" fn($($a),*) -> R { fn abi() -> String { let v: Vec<String> = vec![one::<R>(), $(one::<$a>()),*]; v.join("!") } } }; }
macro_rules! all { ($h:ident $($t:ident)*) => { abi!($h $($t)*); all!($($t)*); }; () => { abi!(); }; }
all!(A B C D E F G H I J K L M N O P Q);
fn abi_of<F: Abi>(_: F) -> String { F::abi() }
#[no_mangle]
pub extern "C" fn vf_signatures() {
    use std::io::Write;
    let mut o = std::io::stdout().lock();
    for (n, s) in [%s] { writeln!(o, "{} {}", n, s()).unwrap(); }
    o.flush().unwrap();
}
"""


def rust_sigs(g, arities, text):
    """Builds the glue as a shared library; returns (exported names, name -> [(type, size, align)], result first)."""
    fns = ", ".join('("%s", (|| abi_of(%s as extern "C" fn(%s) -> _)) as fn() -> String)' % (n, n, ", ".join("_" * k)) for n, k in sorted(arities.items()))
    with open(os.path.join(g.d, "glue.rs"), encoding="utf-8") as f:
        glue = f.read()
    lib = write(os.path.join(g.d, "lib.rs"), "#![allow(warnings)]\n" + text + glue + SIGS % fns)
    so = os.path.join(g.d, "libapi.so")
    p = run(["rustc", "--edition", "2021", "--crate-type", "cdylib", "--crate-name", "api", "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "codegen-units=4", "-o", so, lib], timeout=800)
    if p.returncode != 0:
        raise BuildBroken("rustc rejects the glue of group %s" % g.d, "\n".join(x[:300] for x in p.stderr.splitlines())[:6000])
    p = run(["nm", "-D", "--defined-only", so], timeout=100)
    names = [l.split()[-1] for l in p.stdout.splitlines() if len(l.split()) >= 3 and l.split()[-2] in "TW"]
    p = subprocess.run([sys.executable, "-c", "import ctypes, sys; ctypes.CDLL(sys.argv[1]).vf_signatures()", so], capture_output=True, text=True, timeout=100)
    if p.returncode != 0:
        raise BuildBroken("the library of group %s cannot be loaded" % g.d, p.stderr[:2000])
    sig = {}
    for l in p.stdout.splitlines():
        n, s = l.split(" ", 1)
        sig[n] = [(t, int(a), int(b)) for t, a, b in (x.rsplit("|", 2) for x in s.split("!"))]
    names.remove("vf_signatures")
    return names, sig


def jrust():
    with open(os.path.join(JNI, "jni_h.rs")) as f:
        return LOGMOD + f.read() + "pub mod vfjni { pub fn loud(_: String) {} }\n"


def chars(s):
    return [c if ord(c) < 128 else "%04x" % u for c in s for u in ([ord(c)] if ord(c) < 65536 else list(struct.unpack("<2H", c.encode("utf-16-le"))))]


def descriptor(d):
    """A method descriptor's arguments and result."""
    l = re.findall(r"\[*(?:[ZBCSIJFDV]|L[^;]*;)", d)
    return l[:-1], l[-1]


def rust_kind(t):
    return "*" if t.startswith(("*mut ", "*const ")) else {"bool": "u8"}.get(t, t)


def g08_java(ck, n, items, pkg, bad, cov):
    import apifix as af
    g = Group(ck, "java", n, items, pkg, wd="sym")
    g.javac()
    r = g.reflect()
    classes, arity = [], {}
    with open(os.path.join(g.d, "glue.rs"), encoding="utf-8") as f:
        there = set(re.findall(r"\bfn\s+(Java_\w+)", f.read()))
    jh = set()
    for h in os.listdir(os.path.join(g.d, "jh")):
        with open(os.path.join(g.d, "jh", h)) as f:
            jh |= set(re.findall(r"JNICALL\s+(Java_\w+)", f.read()))
    natives = []
    for c in sorted(r):
        ms = [m for m in r[c]["methods"] if m["native"]]
        if ms:
            ms.sort(key=lambda m: (m["name"], m["desc"]))
            l = []
            for m in ms:
                a, ret = descriptor(m["desc"])
                l.append({"name": chars(m["name"]), "args": [chars(x) for x in a], "ret": chars(ret)})
            classes.append({"cls": chars((pkg + "." + c).replace(".", "/")), "ms": l})
            natives.append((c, ms))
    rec = os.path.join(g.d, "rec.json")

    def ask(exported, tag):
        write(rec, json.dumps({"exported": sorted(exported), "classes": classes}))
        return enumerate_states(ck, "Symbols", dict(SYM0, Mode='"recorded"', File='"%s"' % rec), [], tag="-%d%s" % (n, tag))
    v, st = ask(there, "a")
    byc = {"".join(x["cls"]): x for x in v}
    flat = []
    for (c, ms), cl in zip(natives, classes):
        for m, e in zip(ms, byc["".join(cl["cls"])]["ms"]):
            flat.append((c, m, e))
    want = {e["name"] for _, _, e in flat}
    if want != jh:
        raise ToolError("spec/Symbols.tla and javac -h disagree: %s" % sorted(want ^ jh)[:4])
    miss = [(c, m) for c, m, e in flat if not e["linked"]]
    if miss:
        bad.append(("%s.%s%s" % (pkg, miss[0][0], miss[0][1]["name"]), "the native method %s %s has no exported function" % (miss[0][1]["name"], miss[0][1]["desc"]), {"missing": len(miss)}))
        return
    names, sig = rust_sigs(g, {e["linked"]: len(e["kinds"]["args"]) for _, _, e in flat}, jrust() + af.rust(g.ds, g.names))
    exp = [x for x in names if x.startswith("Java_")]
    v, st = ask(exp, "b")
    ck.add_tlc(st)
    byc = {"".join(x["cls"]): x for x in v}
    seen = {}
    for (c, ms), cl in zip(natives, classes):
        for m, e in zip(ms, byc["".join(cl["cls"])]["ms"]):
            at, l = "%s.%s.%s%s" % (pkg, c, m["name"], m["desc"]), e["linked"]
            if not l:
                bad.append((at, "no exported function", {}))
            elif l in seen:
                bad.append((at, "is linked to the same function %s as %s" % (l, seen[l]), {}))
            else:
                seen[l] = at
                # a transparent wrapper of a pointer counts as one
                got = [k if k in SCALARS or k == "*" else "*" if (sz, al) == (8, 8) else t for t, sz, al in sig[l] for k in [rust_kind(t)]]
                got = {"args": got[1:], "ret": got[0]}
                if got != e["kinds"]:
                    bad.append((at, "the exported function takes %s, declared are %s" % (got, e["kinds"]), {}))
    for x in exp:
        if x not in seen:
            bad.append((x, "exported, but no native method is linked to it", {}))
    for x in names:
        if not x.startswith("Java_") and x not in ("JNI_OnLoad", "JNI_OnUnload"):
            cov["other"].add(x)
    cov["java"] += len(seen)
    shutil.rmtree(g.d, ignore_errors=True)


SYM0 = {"Mode": '"rules"', "File": '""', "Alphabet": '{"a", "_", "0", "1", "3", "00fc"}', "Len1": 2, "Len2": 2}


def c_kind(t, sizes):
    t = re.sub(r"\b(const|volatile|enum)\b", "", t).strip()
    t = re.sub(r"\s+", " ", t)
    if t.endswith("*") or "(*)" in t:
        return "*"
    return {"int8_t": "i8", "uint8_t": "u8", "int16_t": "i16", "uint16_t": "u16", "int32_t": "i32", "uint32_t": "u32", "int64_t": "i64", "uint64_t": "u64", "float": "f32", "double": "f64", "uintptr_t": "usize", "intptr_t": "isize",
            "size_t": "usize", "char": "i8", "_Bool": "bool", "bool": "bool", "int": "i32", "unsigned int": "u32", "void": "()"}.get(t) or "%s" % (sizes.get(t, t),)


CABI = """
#include <cstdio>
#include <type_traits>
template<class T> void one() {
    using U = std::remove_cv_t<T>;
    if constexpr (std::is_void_v<U>) printf("()");
    else if constexpr (std::is_pointer_v<U>) printf("*");
    else if constexpr (std::is_same_v<U, bool>) printf("bool");
    else if constexpr (std::is_same_v<U, uintptr_t> && VF_SIZE) printf("usize");
    else if constexpr (std::is_integral_v<U>) printf("%c%zu", std::is_signed_v<U> ? 'i' : 'u', 8 * sizeof(U));
    else if constexpr (std::is_floating_point_v<U>) printf("f%zu", 8 * sizeof(U));
    else if constexpr (std::is_enum_v<U>) printf("u%zu", 8 * sizeof(U));
    else printf("%zu/%zu", sizeof(U), alignof(U));
    printf(" ");
}
template<class F> struct Abi;
template<class R, class... A> struct Abi<R(A...)> { static void out(const char *n) { printf("%s ", n); one<R>(); (one<A>(), ...); puts(""); } };
template<class R, class... A> struct Abi<R(A...) noexcept> : Abi<R(A...)> {};
"""


def c_functions(g, flags=()):
    """The functions which the generated headers declare with C linkage: name -> ([result, parameters..], times)."""
    hd = os.path.join(g.d, "h")
    hs = sorted(f for f in os.listdir(hd) if f.endswith(".hpp"))
    hs = [h for h in hs if h[:-4] in set(g.names) | {"En", "Restruct", "C_p", "Ar", "Obs"}]
    inc = "".join('#include "%s"\n' % h for h in hs)
    src = write(os.path.join(g.d, "decls.cpp"), inc)
    p = run(["clang-query", "-c", "set output print", "-c", "match functionDecl(isExternC(), isExpansionInFileMatching(\"%s/[^/]*$\"), unless(isDefinition()))" % re.escape(hd), src, "--", "-std=c++17", "-w", "-I", hd], timeout=600)
    if p.returncode != 0 or "error:" in p.stderr:
        raise BuildBroken("clang rejects the generated headers", p.stderr[:6000])
    times = {}
    for m in re.finditer(r'Binding for "root":\n([^\n]*)\n', p.stdout):
        l = m.group(1).replace('extern "C"', "")
        n = re.search(r"(\w+)\s*\(", l).group(1)
        times[n] = times.get(n, 0) + 1
    n = int(re.findall(r"(\d+) match", p.stdout)[-1])
    if n != sum(times.values()) or not n:
        raise ToolError("clang-query: %d matches, %d read" % (n, sum(times.values())))
    src = write(os.path.join(g.d, "cabi.cpp"), inc + CABI.replace("VF_SIZE", "0") + "int main() {\n%s}\n" % "".join('Abi<decltype(::%s)>::out("%s");\n' % (f, f) for f in sorted(times)))
    # nothing is called: the declarations need no definitions
    p = run(["clang++", "-std=c++17", "-w", "-O0", "-I", hd, "-Wl,--unresolved-symbols=ignore-all", "-o", os.path.join(g.d, "cabi"), src, *flags], timeout=600)
    if p.returncode != 0:
        raise BuildBroken("clang rejects the generated headers", p.stderr[:6000])
    out = run([os.path.join(g.d, "cabi")], timeout=60).stdout
    r = {}
    for l in out.splitlines():
        n, *k = l.split()
        r[n] = (k, times[n])
    return r


def g08_cpp(ck, n, items, bad, cov, opts=None):
    import apifix as af
    g = Group(ck, "cpp", n, items, opts=opts, wd="sym")
    decl = c_functions(g)
    with open(os.path.join(g.d, "glue.rs"), encoding="utf-8") as f:
        there = set(re.findall(r"\bfn\s+(\w+)", f.read()))
    for f in sorted(set(decl) - there):
        bad.append((f, "declared in a generated C header, but the glue does not define it", {}))
    names, sig = rust_sigs(g, {f: len(d[0]) - 1 for f, d in decl.items() if f in there}, af.rust(g.ds, g.names))

    def rkind(t, sz, al):
        k = rust_kind(t) if t != "bool" else t
        return {"usize": "u64", "isize": "i64", "char": "u32"}.get(k, k) if k in SCALARS or k == "*" else "%d/%d" % (sz, al)
    exp = set(names)
    for f, (k, times) in sorted(decl.items()):
        if f not in there:
            continue
        got = [rkind(*x) for x in sig[f]]
        if f not in exp:
            bad.append((f, "declared in a generated C header, but not exported", {}))
        elif got != k:
            bad.append((f, "is declared in C as %s and defined in Rust as %s (%s)" % (k, got, sig[f]), {}))
        cov["cpp"] += 1
    for f in sorted(exp - set(decl)):
        cov["other"].add(f)
    shutil.rmtree(g.d, ignore_errors=True)


SCALARS = {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "usize", "isize", "bool", "()"}


def g08(ck):
    build_vgen(ck)
    st = enumerate_states(ck, "Symbols", SYM0 if ck.quick else dict(SYM0, Len1=3, Len2=3, Alphabet='{"a", "_", "0", "1", "00fc"}'), ["Decodes"], tag="-rules", timeout=800)[1]
    ck.add_tlc(st)
    ck.log("the naming rules decode, %d names" % st["states"])
    l = api_descs(ck, extra=api_extra(ck.rng, 600 if ck.quick else 3000))
    ck.rng.shuffle(l)
    # overloads are what makes names interesting: pairs and the random classes first
    l.sort(key=lambda x: ck.rng.random() + (0 if len(x["d"].get("ms", ())) > 1 else .5))
    jl, cl = [x for x in l if x["jok"]], [x for x in l if x["cok"] and "items" not in x["d"] and not ("fns" in x["d"] and ck.quick and ck.rng.random() < .5)]
    js, cs = (450, 300) if ck.quick else (600, 500)
    jn, cn = (6, 4) if ck.quick else (100, 100)
    jobs = queue.Queue()
    for n in range(max(jn, cn)):
        if n < jn and jl[n * js:(n + 1) * js]:
            jobs.put(("java", n, jl[n * js:(n + 1) * js]))
        if n < cn and cl[n * cs:(n + 1) * cs]:
            jobs.put(("cpp", n, cl[n * cs:(n + 1) * cs]))
    cov = {"java": 0, "cpp": 0, "other": set()}

    def worker(k):
        while not ck.violations:
            try:
                lang, n, items = jobs.get_nowait()
            except queue.Empty:
                return
            bad = []
            if lang == "java":
                g08_java(ck, n, items, PKGS[n % len(PKGS)], bad, cov)
            else:
                g08_cpp(ck, n, items, bad, cov, {"boost": True} if n % 2 else None)
            for at, m, x in bad[:5]:
                ck.violation("%s: %s: %s" % (lang, at, m), dict({"lang": lang, "at": at, "problem": m, "package": PKGS[n % len(PKGS)]}, **x))
            ck.sample({"lang": lang, "description": items[0]["d"]})
    par(6, worker)
    if not ck.violations:
        for x in sorted(cov["other"]):
            ck.violation("exported without a foreign declaration: " + x, {"symbol": x})
    ck.cov.update({"natives": cov["java"], "c_functions": cov["cpp"], "packages": PKGS})
    ck.cov["traces"] = cov["java"] + cov["cpp"]
    ck.log("%d native methods, %d C functions" % (cov["java"], cov["cpp"]))


CHECKS = {"G03": g03, "G07": g07, "G08": g08}
