"""Checks on the Java side (J20..J24): Rust fixture -> vgen -> rustc cdylib + javac -> Java driver -> replay of TLC behaviours."""
from concurrent.futures import ThreadPoolExecutor
from chk_cpp import *

JNI = os.path.join(HARNESS, "jni")
JBIN = os.path.join(JAVA_HOME, "bin")
JOPTS = {"fence": 0}
NULLOPTS = {"fence": 0, "null_pkg": "org.annot"}


def gen_java(ck, name, text, tag="", opts=JOPTS, pkg="com.example", maps=()):
    d = workdir(ck, name + tag)
    jd = os.path.join(d, "java")
    out = os.path.join(jd, *pkg.split("."))
    os.makedirs(out)
    src = write(os.path.join(d, "src", name + ".rs.in"), text)
    g = Gen(err=False)
    a = g(lang="java", out=out, dst=os.path.join(d, "glue.rs"), srcs=[src], opts=dict(opts), maps=[list(m) for m in maps], pkg=pkg)
    g.close()
    if not a["ok"]:
        raise BuildBroken("flapigen refuses fixture %s%s" % (name, tag), json.dumps(a)[:3000])
    return d


LOGMOD = """
#[allow(unused_macros, unused_imports)]
mod log {
    macro_rules! quiet { ($($t:tt)*) => { if false { let _ = format!($($t)*); } } }
    macro_rules! loud { ($($t:tt)*) => { $crate::vfjni::loud(format!($($t)*)) } }
    pub(crate) use quiet as debug;
    pub(crate) use quiet as trace;
    pub(crate) use quiet as info;
    pub(crate) use loud as warn;
    pub(crate) use loud as error;
}
"""


def rust_jni(ck, d, name, text, cfgs=("vf_quarantine",), edition="2021"):
    parts = ["#![allow(warnings)]", LOGMOD]
    for f in (os.path.join(CXX, "common.rs"), os.path.join(JNI, "jni_h.rs"), os.path.join(JNI, "vfjni.rs")):
        with open(f) as h:
            parts.append(h.read())
    with open(os.path.join(d, "glue.rs")) as h:
        glue = h.read()
    lib = write(os.path.join(d, "lib.rs"), "\n".join(parts + [text, glue]))
    out = os.path.join(d, "libvfix.so")
    cmd = ["rustc", "--edition", edition, "--crate-type", "cdylib", "--crate-name", "vfix", "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "debug-assertions=on"]
    for c in cfgs:
        cmd += ["--cfg", c]
    p = run(cmd + ["-o", out, lib], timeout=600)
    if p.returncode != 0:
        raise BuildBroken("rustc rejects the glue of fixture " + name, p.stderr[:8000])
    return out


def null_annotations(jd, pkg):
    """Stubs of the annotations that the generated classes import."""
    for a in ("NonNull", "Nullable"):
        write(os.path.join(jd, *pkg.split("."), a + ".java"), "package %s;\nimport java.lang.annotation.*;\n@Retention(RetentionPolicy.RUNTIME)\npublic @interface %s {}\n" % (pkg, a))


def javac(ck, d, name, sources):
    """Compiles generated classes and the driver sources {class: text}."""
    jd = os.path.join(d, "java")
    for c, t in sources.items():
        write(os.path.join(jd, "com", "example", c + ".java"), t)
    files = []
    for r, _, fs in os.walk(jd):
        files += [os.path.join(r, f) for f in fs if f.endswith(".java")]
    p = run([os.path.join(JBIN, "javac"), "-nowarn", "-Xlint:none", "-encoding", "UTF-8", "-d", os.path.join(d, "classes"), "-J-XX:TieredStopAtLevel=1",
             "-J-XX:+UseSerialGC"] + sorted(files), timeout=600)
    if p.returncode != 0:
        raise BuildBroken("javac rejects the classes of fixture " + name, p.stderr[:8000])


def java_cmd(d, main, *args, jvm=()):
    return [os.path.join(JBIN, "java"), "-XX:+UseSerialGC", "-Xmx192m", "-Xms32m", "-XX:TieredStopAtLevel=1", "-Xshare:auto", "--add-opens", "java.base/java.lang.ref=ALL-UNNAMED", "-XX:-UsePerfData", "-ea"] + list(jvm) + [
            "-cp", os.path.join(d, "classes"), "com.example." + main, os.path.join(d, "libvfix.so"), *args]


def jsource(name):
    with open(os.path.join(JNI, name + ".java")) as f:
        return f.read()


def build_jni(ck, name, desc, rust, sources, tag="", opts=JOPTS, edition="2021", maps=()):
    d = gen_java(ck, name, desc, tag, opts, maps=maps)
    if opts.get("null_pkg"):
        null_annotations(os.path.join(d, "java"), opts["null_pkg"])
    src = {"Vf": jsource("Vf")}
    src.update(sources)
    parallel(lambda: rust_jni(ck, d, name, rust, edition=edition), lambda: javac(ck, d, name, src))
    return d


# ------------------------------------------------------------------------------------------------ J24: smart pointers
SP_RUST = """
#[no_mangle]
pub extern "C" fn Java_com_example_Sp%s_probes(env: *mut JNIEnv, _: jclass) -> jstring { let _g = vf::Guard::new(); let s = probes(); vfjni::jstr(env, &s) }
"""


def j24(ck):
    import spfix as sp
    build_vgen(ck)
    kinds = ["plain", "rc", "mutex", "arcmutex", "box", "rcref", "refcell", "arc", "dyn", "rcmutex", "plainz"]
    pairs = [(k, kinds[i + 1]) for i, k in enumerate(kinds[:-1])]
    srcs = {}
    tmpl = jsource("Sp")
    for i, (a, b) in enumerate(pairs):
        t = tmpl.replace("@N@", str(i)).replace("@A@", sp.cname(a)).replace("@B@", sp.cname(b)).replace("@CA@", "true" if sp.KIND[a][2] else "false")
        for k, m in ((a, "//A"), (b, "//B")):
            if sp.KIND[k][2]:
                t = t.replace(m, "")
        srcs["Sp%d" % i] = t
    rust = sp.rust(kinds) + "".join(SP_RUST % i for i in range(len(pairs)))
    graphs, d = parallel(lambda: ptr_models(ck, pairs, sp.KIND, 3 if ck.quick else 4, optmoves=True),
                         lambda: build_jni(ck, "sp", sp.description(kinds), rust, srcs, edition="2018"))
    ck.log("models explored, drivers built")
    for i, p in enumerate(pairs):
        g = graphs[p]
        walks = g.tours(ck.rng, maxlen=120)
        unc = g.uncovered
        if not ck.quick:
            walks += g.random_walks(ck.rng, 300, 200)
        n0 = ck.cov.get("replayed_steps", 0)
        replay_cmp(ck, java_cmd(d, "Sp%d" % i), walks, ptr_line, lambda: PtrCompare(p), "classes %s and %s" % p, n=8)
        ck.log("%s/%s: %d transitions, %d left, %d steps" % (*p, g.n, unc, ck.cov["replayed_steps"] - n0))
        ck.cov.setdefault("transitions_replayed", {})["%s/%s" % p] = [g.n - unc, g.n]
        if i < 4:
            ck.sample({"classes": p, "history": [ptr_line(a) for a, s in walks[0][:12]]})
        if ck.violations:
            return


# ------------------------------------------------------------------------------------------------ J20: ownership
sys.path.insert(0, JNI)


class JavaOwnCompare:
    def __init__(self, ck=None, fence=""):
        self.ck, self.fence = ck, fence

    def start(self):
        self.map, self.gone = {}, set()

    def step(self, a, st, obs):
        if a["op"] == "slow" and a["how"] == "self" and obs["bad"] and all("used but not alive" in b for b in obs["bad"]):
            # known finding: the receiver of a call is not kept. The rest of the step is compared all the same.
            self.ck.violation("the receiver of a method call is freed during the call (fences: %s)" % self.fence, {"action": a, "observed": obs}, "receiver-not-fenced")
            obs = dict(obs, bad=[], ret=a["ret"])
        if obs["bad"]:
            return "; ".join(obs["bad"])
        if obs["msg"]:
            return obs["msg"]
        if bool(obs["exc"]) != a.get("exc", False):
            return "exception %r, specified %s" % (obs["exc"], a.get("exc", False))
        if a.get("exc"):
            want = {"newfail": "java.lang.Exception: bad", "takeerr": "java.lang.Exception: no \u00e9 100%", "consume": "java.lang.Exception: gone %%d %s" % a.get("ret")}[a["op"]]
            if not obs["exc"].startswith(want):
                return "exception %r, specified %r" % (obs["exc"], want)
        elif "ret" in a and obs["ret"] != a["ret"]:
            return "returned %s, specified %s" % (obs["ret"], a["ret"])
        m = dict(self.map)
        new = set(a.get("obj", ()))
        places = []
        for s in ("A", "B"):
            w, got = st["var"][s], obs[s]
            if (w == 0) != (got is None):
                return "variable %s is %s, specified %s" % (s, "null" if got is None else "not null", "null" if w == 0 else "a wrapper")
            if w:
                places.append(("the wrapper in %s" % s, st["wr"][w - 1], got))
        if obs["same"] != (st["var"]["A"] == st["var"]["B"]):
            return "the variables refer to %s wrapper(s)" % ("one" if obs["same"] else "two")
        places.append(("the object kept by Rust", st["hold"], obs["hold"]))
        for n, o, (ser, v) in places:
            if (o == 0) != (ser == 0):
                return "%s %s, specified the opposite" % (n, "is empty" if ser == 0 else "holds an object")
            if o == 0:
                continue
            if o in new and o not in m:
                if ser in m.values() or ser in self.gone:
                    return "%s is an old object, specified a new one" % n
                m[o] = ser
            if m[o] != ser:
                return "%s is another object than specified" % n
            if v != st["val"][o - 1]:
                return "%s has value %s, specified %s" % (n, v, st["val"][o - 1])
        drops = set(obs["drops"])
        dead = {m[o] for o in a["dead"] if o in m}
        if len(drops) != len(obs["drops"]):
            return "an object is dropped twice"
        if not dead <= drops:
            return "objects %s dropped, specified %s" % (sorted(drops), sorted(dead))
        extra = drops - dead
        unnamed = sum(1 for o in a["dead"] if o not in m)
        if len(extra) != a["tmp"] + unnamed or extra & (set(m.values()) | self.gone):
            return "objects %s dropped, specified %s and %d temporaries" % (sorted(drops), sorted(dead), a["tmp"])
        for o in a["dead"]:
            m.pop(o, None)
        self.gone |= drops
        if sorted(obs["live"]) != sorted(m.values()):
            return "live objects %s, specified %s" % (sorted(obs["live"]), sorted(m.values()))
        self.map = m
        return None


def jown_line(a):
    w = list(a.get("w", a.get("ws", []))) + [0, 0]
    if a["op"] in ("gc", "slow"):
        w = w[:-2]
    return " ".join(str(x) for x in [a["op"], a.get("s", "-"), a.get("t", "-"), a.get("how", "-"), a.get("v", 0), a.get("v2", 0), *w])


COMPILED = ["-XX:-TieredCompilation", "-Xcomp", "-XX:CompileCommand=quiet", "-XX:CompileCommand=compileonly,com.example.*::*"]


def j20(ck):
    """Replays JavaOwn.tla. With Slow, the JVM compiles the generated classes at once, so that a wrapper is unreachable
    as soon as the language allows; how to keep it (fences) is generated in two ways, both are run."""
    import ownfix as of
    build_vgen(ck)
    tmpl = jsource("Own")
    combos = {}
    for C, (P, der, arg, dup, lock) in of.CLS.items():
        combos.setdefault((arg, dup, C == "Fr", lock, C in of.VEC, C in of.OPTREF), []).append(C)
    names = list(combos)
    mw, mo = (2, 2) if ck.quick else (3, 3)

    def ex(i, slow):
        arg, dup, fail, lock, vec, optref = names[i]
        return lambda: explore(ck, "JavaOwn", {"Arg": S(arg), "Dup": S(dup), "CanFail": fail, "Lock": lock, "HasVec": vec, "HasOptRef": optref, "MaxW": 2 if slow else mw,
                                               "MaxO": 2 if slow else mo, "V": "{0, 1}", "Slow": slow},
                               ["TypeOK", "NoDangling", "NoLeak", "OneOwner"], ["FinHarmless", "RefsKeep"], view="view", tag="-%d%s" % (i, "s" if slow else ""), mem="3g")

    def bd(fence):
        return lambda: build_jni(ck, "own", of.description(), of.rust(), {"Own" + C: of.driver(C, tmpl) for C in of.CLS}, tag="-f%d" % fence, opts=dict({"fence": fence}, **({"null_pkg": "com.example.nulls"} if fence else {})))
    sel = [i for i, n in enumerate(names) if n[5]] + [[i for i, n in enumerate(names) if n[0] == "share"][0]]
    res = parallel(bd(0), bd(8), *([ex(i, False) for i in range(len(names))] + [ex(i, True) for i in sel]))
    ds = res[:2]
    ck.log("models explored, drivers built")

    def one(C, st, slow):
        # a freed lock or counter behind a shared pointer would hang or end the process: the known finding is shown on one class
        g = Graph([e for e in st["edges"] if not (e["a"]["op"] == "slow" and e["a"]["how"] == "self" and C != "Foo")], st["init"])
        walks = g.tours(ck.rng, maxlen=80)
        unc = g.uncovered
        if not ck.quick and not slow:
            walks += g.random_walks(ck.rng, 300, 200)
        for d, f in zip(ds, ("Std", "generated")) if slow else [(ds[ck.rng.randrange(2)], "-")]:
            n0 = ck.cov.get("replayed_steps", 0)
            what = "class %s" % C + (", fences: %s" % f if slow else "")
            replay_cmp(ck, java_cmd(d, "Own" + C, jvm=COMPILED if slow else ()), walks, jown_line, lambda: JavaOwnCompare(ck, f), what, n=8)
            ck.log("%s: %d transitions, %d left, %d steps" % (what, g.n, unc, ck.cov["replayed_steps"] - n0))
            ck.cov.setdefault("transitions_replayed", {})[what] = [g.n - unc, g.n]
        ck.sample({"class": C, "history": [jown_line(a) for a, s in walks[0][:12]]})

    for n, st in zip(names, res[2:]):
        ck.add_tlc(st)
        for C in combos[n]:
            one(C, st, False)
            if ck.violations:
                return
    for i, st in zip(sel, res[2 + len(names):]):
        ck.add_tlc(st)
        for C in combos[names[i]]:
            one(C, st, True)
            if ck.violations:
                return


# ------------------------------------------------------------------------------------------------ J21: values, J22: compound values
VAL_RS = """
#[no_mangle]
pub extern "C" fn Java_com_example_Val_put(env: *mut JNIEnv, _: jclass, s: jstring) {
    unsafe {
        let n = (**env).GetStringUTFLength.unwrap()(env, s) as usize;
        let p = (**env).GetStringUTFChars.unwrap()(env, s, ::std::ptr::null_mut());
        val::set_input(std::slice::from_raw_parts(p as *const u8, n));
        (**env).ReleaseStringUTFChars.unwrap()(env, s, p);
    }
}
"""


def jval_build(ck, types, sigs, name="val", tag="", opts=JOPTS):
    import valfix as vx
    import jvalfix as jv
    with open(os.path.join(HARNESS, "common", "val.rs")) as h:
        rust = h.read() + VAL_RS + vx.rust(types, sigs, "java")
    return build_jni(ck, name, vx.description(types, sigs, lang="java", **jv.no(types)), rust, {"Val": jsource("Val"), "Dr": jv.dispatch(types, sigs)}, tag, opts)


JSIMPLE = ["bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "f32", "f64", "str", "string", "path", "En", "Ex", "date"]
# extra options for a JVM which is expected to die
DYING = ["-XX:ErrorFile=/dev/null", "-XX:-CreateCoredumpOnCrash"]


def j21(ck):
    import valfix as vx
    import jvalfix as jv
    build_vgen(ck)
    types = [[t] for t in JSIMPLE]
    pos = [t for t in JSIMPLE if "i" in jv.support([t])] + ["Foo", "Cp", "ref"]
    cbbad = [t for t in pos if "c" not in jv.support([t])]
    sigs = pick_sigs(ck, pos, {"static": (), "method": (), "mut": (), "ctor": (), "cb": cbbad},
                     {"static": ("path", "ref"), "method": ("path", "ref"), "mut": ("path", "ref"), "cb": [t for t in pos if "r" not in jv.support([t])]},
                     160 if ck.quick else 500, ["u8", "i64", "f64", "string", "En", "Foo"] if ck.quick else
                     ["bool", "u8", "i16", "u32", "i64", "f32", "f64", "str", "string", "path", "En", "Foo", "Cp", "ref"])
    (cases, st), (calls, st2), d, ds = parallel(
        lambda: values_cases(ck, "java", JSIMPLE), lambda: args_cases(ck, sigs, 4 if ck.quick else 6),
        lambda: jval_build(ck, types, []), lambda: jval_build(ck, [], sigs, "sig", opts=NULLOPTS))
    ck.add_tlc(st)
    ck.add_tlc(st2)
    ck.log("%d crossings, %d calls, drivers built" % (len(cases), len(calls)))
    byt, refused = {}, []
    for c in cases:
        if c["y"] == [-1]:
            refused.append(c)
        elif jv.support([c["t"]]) and not (c["d"] == "in" and "i" not in jv.support([c["t"]])):
            byt.setdefault((c["t"], c["d"]), []).append(c)
    walks = []
    for (t, d_), cs in sorted(byt.items()):
        k = JSIMPLE.index(t)
        sup = jv.support([t])
        own = vx.owned([t])
        ck.rng.shuffle(cs)
        for j in range(0, len(cs), 40):
            w = []
            for c in cs[j:j + 40]:
                x, y = hexs(c["x"], t), hexs(c["y"], t)
                if d_ == "out":
                    ops, v = ["out"] * ("o" in sup) + ["moved", "discard"] * ("o" in sup and ck.rng.random() < .3) + ["cbarg"] * ("c" in sup) + ["cbecho"] * ("c" in sup and "r" in sup and own), (x, y)
                else:
                    ops, v = ["in"] + ["echo"] * ("o" in sup) + ["cbret"] * ("r" in sup) + ["give"] * (own and "o" in sup), (y, x)
                for op in ops:
                    w.append(({"op": op, "v": v, "_i": k, "_k": k + 1, "dropped": 0}, {"k": k + 1, "r": []}))
            if w:
                walks.append(w)
    ck.rng.shuffle(walks)
    rt, jt = (lambda t, v: v[0]), (lambda t, v: v[1])
    swalks = [[({"op": "sig", "s": c["s"], "v": c["v"]}, c) for c in calls[j:j + 40]] for j in range(0, len(calls), 40)]
    rleaf = lambda t, v: jv.text(t, vx.two(t)[v - 1])
    jleaf = lambda t, v: jv.jtext(t, vx.two(t)[v - 1])

    def sline(a):
        s = sigs[a["s"] - 1]
        return "sig %d %s" % (a["s"] - 1, "".join((rleaf if s["kind"] == "cb" else jleaf)(t, v) for t, v in zip(s["args"], a["v"])))
    line = compound_line(types, rt, jt)
    replay_cmp(ck, java_cmd(d, "Dr"), walks, line, lambda: CompoundCompare(types, rt, jt), "values", n=8)
    replay_cmp(ck, java_cmd(ds, "Dr"), swalks, sline, lambda: SigCompare(sigs, rleaf, jleaf), "argument positions", n=8)
    ck.log("%d steps" % ck.cov["replayed_steps"])
    ck.rng.shuffle(refused)
    todo = []
    for t in JSIMPLE:
        for d_ in ("in", "out"):
            todo += [c for c in refused if c["t"] == t and c["d"] == d_][:6 if ck.quick else 60]

    def refuse(c):
        t, sup = c["t"], jv.support([c["t"]])
        op = ck_choice(c, ["in"] + ["cbret"] * ("r" in sup) if c["d"] == "in" else ["out"] * ("o" in sup) + ["cbarg"] * ("c" in sup))
        ln = "%s %d %s" % (op, JSIMPLE.index(t), hexs(c["x"], t))
        ans, rc, err, to = drive(java_cmd(d, "Dr", jvm=DYING), ["reset", ln, "reset"], timeout=60, extra_env={"VF_TRACE": "1"})
        seen = [x for x in err.splitlines() if x.startswith("seen in")]
        return c, ln, len(ans) == 1 and rc not in (0, 102) and not to and not seen and "panicked" in err, ans, rc, err
    with ThreadPoolExecutor(8) as ex:
        outcomes = list(ex.map(refuse, todo))
    for c, ln, good, ans, rc, err in outcomes:
        ck.cov["replayed_steps"] += 1
        if not good:
            ck.violation("the value %s of type %s (%s) has no counterpart on the other side and is not refused: answers %s, exit %s" % (hexs(c["x"]), c["t"], c["d"], ans[1:], rc),
                         {"line": ln, "case": c, "stderr": err[-600:]})
            break
    ck.cov.update(crossings=len(cases), refused=len(refused), refused_replayed=len(todo), signatures=len(sigs), calls=len(calls))
    ck.log("%d of %d refused values" % (len(todo), len(refused)))
    for w in walks[:1]:
        ck.sample({"history": [line(a) for a, s in w[:12]]})
    for w in swalks[:1]:
        ck.sample({"history": [sline(a) for a, s in w[:12]]})


def ck_choice(c, l):
    return l[sum(c["x"]) % len(l)]


def jtypes():
    nums = [[x] for x in ("i8", "i16", "i32", "i64", "f32", "f64")]
    obj = [["Foo"], ["Cp"], ["Ar"]]
    o = [["opt", x] for x in nums + [["En"], ["string"], ["str"], ["ref"]] + obj]
    leaves = [[x] for x in ("bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "f32", "f64", "str", "string", "En")] + obj
    o += [["res", x, ["string"]] for x in leaves] + [["res", x, ["str"]] for x in leaves[::4]]
    o += [["res", ["opt", x], ["string"]] for x in (["i32"], ["f64"], ["Foo"], ["string"])]
    o += [["res", ["vec", x], ["string"]] for x in (["i32"], ["i8"], ["string"], ["Foo"])]
    o += [["resu", ["string"]], ["resu", ["str"]]]
    o += [["vec", x] for x in nums + [["string"]] + obj]
    o += [["slice", x] for x in nums]
    return o


def j22(ck):
    import valfix as vx
    import jvalfix as jv
    build_vgen(ck)
    types = jtypes()
    no = jv.no(types)
    nm = {"no_in": "NoIn", "no_out": "NoOut", "no_cb_in": "NoCbIn", "no_cb_out": "NoCbOut"}
    cs = {"TypeSeq": "<<%s>>" % ", ".join(map(tla_type, types)), "NoCb": "FALSE", "MaxVec": 2 if ck.quick else 3, "Long": 600}
    cs.update({nm[k]: "{%s}" % ", ".join(str(i + 1) for i in sorted(v)) for k, v in no.items()})
    # compound values among several arguments
    pos = [t for t in types if "i" in jv.support(t)]
    noret = [t for t in pos if "o" not in jv.support(t) or not vx.owned(t)]
    sigs = pick_sigs(ck, pos + ["i64", "u8", "Foo", "string"] * (len(pos) // 6), {"static": (), "method": (), "mut": (), "ctor": (), "cb": [t for t in pos if "c" not in jv.support(t)]},
                     {x: noret + [t for t in pos if "r" not in jv.support(t)] * (x == "cb") + ["Foo", "string"] * (x == "cb") for x in ("static", "method", "mut", "cb")},
                     len(pos) + (60 if ck.quick else 200), maxlen=5, long=False)
    st, (cases, vst), (calls, ast), d, dn = parallel(lambda: explore(ck, "Compound", cs, ["TypeOK", "NothingBorrowed"], ["Conserved", "Lossless"], view="view"), lambda: values_cases(ck, "java", JSIMPLE),
                                       lambda: args_cases(ck, sigs, 3),
                                       lambda: jval_build(ck, types, sigs), lambda: jval_build(ck, types, sigs, tag="-null", opts=NULLOPTS))
    ck.add_tlc(st)
    ck.add_tlc(ast)
    ck.add_tlc(vst)
    ck.log("model explored, driver built")
    g = Graph(st["edges"], st["init"])
    walks = g.tours(ck.rng, maxlen=50)
    unc = g.uncovered
    if not ck.quick:
        walks += g.random_walks(ck.rng, 3000, 60)
    walks = [[(dict(a, _k=s["k"], _i=s["k"] - 1), s) for a, s in w] for w in walks]
    line = compound_line(types, jv.text, jv.jtext)
    rleaf = lambda t, v: jv.text(t, vx.two(t)[v - 1])
    jleaf = lambda t, v: jv.jtext(t, vx.two(t)[v - 1])
    swalks = [[({"op": "sig", "s": c["s"], "v": c["v"]}, c) for c in calls[j:j + 40]] for j in range(0, len(calls), 40)]

    def sline(a):
        s = sigs[a["s"] - 1]
        return "sig %d %s" % (a["s"] - 1, "".join((rleaf if s["kind"] == "cb" else jleaf)(t, v) for t, v in zip(s["args"], a["v"])))
    sup = lambda k, t: jv.support(t)
    ops = lambda k, t: ["in"] * ("i" in sup(k, t)) + ["out"] * ("o" in sup(k, t)) + ["echo"] * ("i" in sup(k, t) and "o" in sup(k, t)) + ["cbarg"] * ("c" in sup(k, t))
    wr = wrapped(ck, "java", types, cases, ops)
    for x, what in ((d, ""), (dn, " (null annotations)")):
        replay_cmp(ck, java_cmd(x, "Dr"), walks, line, lambda: CompoundCompare(types, jv.text, jv.jtext), "compound values" + what, n=8)
        replay_cmp(ck, java_cmd(x, "Dr"), wr, compound_line(types, *PAIR), lambda: CompoundCompare(types, *PAIR), "values inside compound ones" + what, n=8)
        replay_cmp(ck, java_cmd(x, "Dr"), swalks, sline, lambda: SigCompare(sigs, rleaf, jleaf), "compound values among arguments" + what, n=8)
    ck.log("%d types: %d transitions, %d left, %d steps" % (len(types), g.n, unc, ck.cov["replayed_steps"]))
    ck.cov["transitions_replayed"] = [g.n - unc, g.n]
    ck.cov.update(types=len(types), signatures=len(sigs), calls=len(calls))
    for w in walks[:2]:
        ck.sample({"type": types[w[0][1]["k"] - 1], "history": [line(a) for a, s in w[:12]]})


# ------------------------------------------------------------------------------------------------ J23: callbacks
class JavaCallbackCompare(CallbackCompare):
    def step(self, a, st, obs):
        if obs["bad"]:
            return "; ".join(obs["bad"])
        if obs["msg"]:
            return "the call ended with " + obs["msg"]
        ev = [e.split() for e in obs["ev"]]
        if any(e[0] != "call" for e in ev):
            return "callback saw: %s" % obs["ev"]
        m = self.map
        if "new" in a:
            if obs["new"] in self.dead or obs["new"] in m.values() or not obs["new"]:
                raise ToolError("the driver made no new object: %s" % obs)
            m[a["new"]] = obs["new"]
        calls = [(int(e[1]), e[2], int(e[3])) for e in ev]
        th = lambda t: 1 if t == 2 and not st["att"] else t
        if a["op"] == "par":
            for s in (0, 1):
                k = m[a["objs"][str(s)] if isinstance(a["objs"], dict) else a["objs"][s]]
                if [c for c in calls if c[0] == k] != [(k, a["m"], a["t"])] * a["n"]:
                    return "object %d got the calls %s, specified %d of %s on a thread of kind %d" % (k, calls, a["n"], a["m"], a["t"])
            if len(calls) != 2 * a["n"]:
                return "calls of other objects: %s" % calls
        else:
            want = [(m[c["i"]], c["m"], th(c["th"])) for c in a["calls"]]
            if calls != want:
                return "calls %s, specified %s (object, method, thread)" % (calls, want)
        if obs["ret"] != a.get("ret", -3):
            return "Rust got %s, specified %s" % (obs["ret"], a.get("ret", -3))
        if any(x != "threw" for x in obs["log"]):
            return "Rust logs %s" % obs["log"]
        self.dead |= {m[i] for i in a["dead"]}
        self.map = {i: x for i, x in m.items() if st["cnt"][i - 1] >= 0}
        if "gc" in a.get("_flags", "gc") and sorted(obs["alive"]) != sorted(self.map.values()):
            return "callback objects %s are reachable, specified %s" % (obs["alive"], sorted(self.map.values()))
        if obs["live"]:
            return "Rust objects %s are left after the call" % obs["live"]
        return None


def jcb_line(a):
    return " ".join([a["op"], a["_flags"]] + [str(a[k]) for k in {"set": ("s",), "setvar": ("s",), "once": ("n", "m"), "call": ("s", "m", "t"), "twice": ("s", "m", "t"), "clear": ("s", "t"),
                                                                  "par": ("m", "n", "t"), "nest": ("s", "m", "t"), "nestset": ("s", "t"), "nestclear": ("s", "t")}.get(a["op"], ())])


def j23(ck):
    build_vgen(ck)
    mc = 1
    with open(os.path.join(JNI, "jcb.rs.in")) as f:
        desc = f.read()
    with open(os.path.join(JNI, "jcb.rs")) as f:
        rust = f.read()
    st, d = parallel(lambda: explore(ck, "JavaCallback", {"MaxId": 3 if ck.quick else 4, "MaxCnt": mc}, ["TypeOK", "NeverDangling", "Collectable"], ["CalledAlive", "Attachment"], view="view"),
                     lambda: build_jni(ck, "jcb", desc, rust, {"Jcb": jsource("Jcb").replace("@MOD@", str(mc + 1))}))
    ck.add_tlc(st)
    g = Graph(st["edges"], st["init"])
    ck.log("model explored (%d transitions), driver built" % g.n)
    walks = g.tours(ck.rng, maxlen=200)
    unc = g.uncovered
    if not ck.quick:
        walks += g.random_walks(ck.rng, 300, 300)
    walks = [[(dict(a, _flags="gc" if a["dead"] or ck.rng.random() < .1 else "-"), s) for a, s in w] for w in walks]
    replay_cmp(ck, java_cmd(d, "Jcb"), walks, jcb_line, JavaCallbackCompare, "callbacks", n=8, timeout=600)
    ck.log("%d transitions, %d left, %d steps" % (g.n, unc, ck.cov["replayed_steps"]))
    if not ck.violations:
        # the same under the JVM's own checking of the JNI rules
        some = ck.rng.sample(walks, min(len(walks), 16))
        replay_cmp(ck, java_cmd(d, "Jcb", jvm=["-Xcheck:jni"] + DYING), some, jcb_line, JavaCallbackCompare, "callbacks with checked JNI", n=8, timeout=600)
    ck.cov["transitions_replayed"] = [g.n - unc, g.n]
    ck.sample({"history": [jcb_line(a) for a, s in walks[0][:15]]})


CHECKS = {"J20": j20, "J21": j21, "J22": j22, "J23": j23, "J24": j24}
