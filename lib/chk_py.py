"""Checks on the Python side (P30, P31): Rust fixture -> vgen -> rustc (Python extension module) -> Python driver -> replay of TLC behaviours."""
import glob
from chk_cpp import *

PYH = os.path.join(HARNESS, "py")
sys.path.insert(0, PYH)
DEPS = os.path.join(BUILD, "pydeps")


def build_deps(ck):
    with Lock("pydeps"):
        p = cargo(["build"], "py", extra_env={"CARGO_TARGET_DIR": DEPS})
    if p.returncode != 0:
        raise ToolError("the cpython crate does not build:\n" + p.stderr[-3000:])


def gen_py(ck, name, text, tag=""):
    d = workdir(ck, name + tag)
    src = write(os.path.join(d, "src", name + ".rs.in"), text)
    g = Gen(err=False)
    a = g(lang="python", out=d, dst=os.path.join(d, "glue.rs"), srcs=[src], opts={}, pkg="vfix")
    g.close()
    if not a["ok"]:
        raise BuildBroken("flapigen refuses fixture %s%s" % (name, tag), json.dumps(a)[:3000])
    return d


def rust_py(ck, d, name, text):
    parts = ["#![allow(warnings)]"]
    with open(os.path.join(CXX, "common.rs")) as h:
        parts.append(h.read())
    with open(os.path.join(d, "glue.rs")) as h:
        glue = h.read()
    lib = write(os.path.join(d, "lib.rs"), "\n".join(parts + [text, glue]))
    rl = glob.glob(os.path.join(DEPS, "debug", "deps", "libcpython-*.rlib"))
    if len(rl) != 1:
        raise ToolError("no single libcpython rlib: %s" % rl)
    p = run(["rustc", "--edition", "2021", "--crate-type", "cdylib", "--crate-name", "vfix", "-C", "debuginfo=0", "-C", "opt-level=0", "-C", "debug-assertions=on", "--cfg", "vf_quarantine",
             "--extern", "cpython=" + rl[0], "-L", "dependency=" + os.path.join(DEPS, "debug", "deps"), "-o", os.path.join(d, "vfix.so"), lib], timeout=600)
    if p.returncode != 0:
        raise BuildBroken("rustc rejects the glue of fixture " + name, p.stderr[:8000])


def build_py(ck, name, desc, rust, tag=""):
    d = gen_py(ck, name, desc, tag)
    rust_py(ck, d, name, rust)
    return d


def py_cmd(d, driver):
    return ["python3", "-B", os.path.join(PYH, driver + ".py"), os.path.join(d, "vfix.so")]


def pyval_build(ck, types, sigs, name="val", tag=""):
    import valfix as vx
    import pyfix as pf
    pf.setup()
    with open(os.path.join(HARNESS, "common", "val.rs")) as h:
        rust = h.read() + pf.rust(types, sigs)
    d = build_py(ck, name, vx.description(types, sigs, lang="python", **pf.no(types)), rust, tag)
    write(os.path.join(d, "table.json"), json.dumps(pf.table(types, sigs)))
    return d


# ------------------------------------------------------------------------------------------------ P31: values and errors
PSIMPLE = ["bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "f32", "f64", "str", "string", "En", "Ex", "er"]


def ptypes():
    nums = [[x] for x in ("i8", "u16", "i32", "u32", "i64", "u64", "usize", "f32", "f64", "bool")]
    obj = [["Foo"], ["Cp"], ["Ar"], ["Sh"], ["Bx"], ["Bc"]]
    er = ["er"]
    o = obj + [["ref"], ["rint"], ["rstring"], ["ren"], ["rcp"], ["rar"], ["rsh"], ["unit"]]
    o += [["opt", x] for x in nums + [["string"], ["str"], ["En"], ["Ex"], ["rcp"]] + obj]
    o += [["vec", x] for x in nums + [["string"], ["Ex"], ["rcp"], ["u8"]] + obj]
    o += [["slice", x] for x in nums + [["string"], ["En"], ["u8"]]] 
    o += [["res", x, er] for x in nums + [["string"], ["Ex"], ["rcp"]] + obj]
    o += [["pair", ["i32"], ["string"]], ["pair", ["Ex"], ["Foo"]], ["pair", ["Cp"], ["Ar"]], ["pair", ["string"], ["string"]], ["tri", ["i32"], ["f64"], ["bool"]], ["tri", ["string"], ["Sh"], ["En"]],
          ["tri", ["Foo"], ["Foo"], ["Foo"]]]
    o += [["opt", ["vec", x]] for x in (["i32"], ["string"], ["Cp"], ["Ar"])]
    o += [["vec", ["opt", x]] for x in (["i32"], ["string"], ["Bc"], ["Ex"])]
    o += [["vec", ["vec", x]] for x in (["u8"], ["string"], ["Sh"])]
    o += [["slice", ["opt", ["i32"]]], ["slice", ["vec", ["u8"]]]]
    o += [["opt", ["pair", ["i32"], ["Cp"]]], ["vec", ["pair", ["Ex"], ["string"]]], ["res", ["pair", ["i32"], ["Foo"]], er], ["res", ["opt", ["Cp"]], er], ["res", ["vec", ["string"]], er],
          ["opt", ["res", ["i32"], er]], ["vec", ["res", ["Ex"], er]], ["pair", ["vec", ["i32"]], ["opt", ["En"]]], ["pair", ["pair", ["i32"], ["bool"]], ["Ex"]], ["pair", ["res", ["i32"], er], ["i32"]],
          ["res", ["res", ["i32"], er], er]]
    return o


class PyCompound(CompoundCompare):
    """An error anywhere inside a value is raised: Python sees it alone."""
    def __init__(self, types):
        import pyfix as pf
        super().__init__(types, pf.text, lambda t, v: first_error(t, v) or pf.ptext(t, v))


def first_error(t, v):
    """The text of the error met first when the parts of the value are converted in order."""
    import pyfix as pf
    if len(t) == 1:
        return None
    c = v["c"]
    if c == "E":
        return "E" + pf.ptext(t[-1], v["v"])
    if c in "VL":
        for x in v["v"] if c == "V" else (v["w"], v["v"]):
            r = first_error(t[1], x)
            if r:
                return r
        return None
    parts = [(t[i + 1], v[f]) for i, f in enumerate(("v", "w", "z")) if f in v]
    for u, x in parts:
        r = first_error(u, x)
        if r:
            return r
    return None


def p31(ck):
    import valfix as vx
    import pyfix as pf
    pf.setup()
    parallel(lambda: build_vgen(ck), lambda: build_deps(ck))
    simple = [["resu", [t]] if t == "er" else [t] for t in PSIMPLE]
    types = ptypes()
    pos = [t for t in PSIMPLE if "i" in pf.support([t]) and t != "er"] + ["Cp", "Bc", "Ar", "Sh", "ref", "rint", "rstring", "rcp"]
    noret = ("str", "ref")
    sigs = pick_sigs(ck, pos, {"static": (), "method": (), "mut": (), "ctor": ()}, {"static": noret, "method": noret, "mut": noret},
                     160 if ck.quick else 500, ["u8", "i64", "f64", "string", "Ex", "ref"] if ck.quick else
                     ["bool", "u8", "i16", "u32", "i64", "f32", "f64", "str", "string", "En", "Ex", "ref", "Cp", "Ar", "rint"])
    # compound values among several arguments
    cpos = [t for t in types if len(t) > 1 and "i" in pf.support(t)]
    cnoret = [t for t in cpos if "o" not in pf.support(t) or not vx.owned(t)] + ["ref", "str"]
    sigs += pick_sigs(ck, cpos + ["i64", "u8", "string", "Cp", "ref"] * (len(cpos) // 8), {"static": (), "method": (), "mut": (), "ctor": ()}, {x: cnoret for x in ("static", "method", "mut")},
                      len(cpos) + (60 if ck.quick else 200), maxlen=5, long=False)
    no = pf.no(types)
    nm = {"no_in": "NoIn", "no_out": "NoOut"}
    cs = {"TypeSeq": "<<%s>>" % ", ".join(map(tla_type, types)), "NoCb": "TRUE", "MaxVec": 2 if ck.quick else 3, "Long": 600, "NoCbIn": "{}", "NoCbOut": "{}"}
    cs.update({nm[k]: "{%s}" % ", ".join(str(i + 1) for i in sorted(no[k])) for k in nm})
    ktypes = [t for t in simple + types if "i" in pf.support(t)]
    kcs = {"TypeSeq": "<<%s>>" % ", ".join(map(tla_type, ktypes)), "Sigs": "<<%s>>" % ", ".join(str(len(s["args"])) for s in sigs)}
    (cases, st), (calls, st2), st3, (kinds, st4), d, ds = parallel(
        lambda: values_cases(ck, "python", PSIMPLE), lambda: args_cases(ck, sigs, 4 if ck.quick else 6),
        lambda: explore(ck, "Compound", cs, ["TypeOK", "NothingBorrowed"], ["Conserved", "Lossless"], view="view"),
        lambda: enumerate_states(ck, "PyKinds", kcs, ["NotCalled"]),
        lambda: pyval_build(ck, simple + types, []), lambda: pyval_build(ck, [], sigs, "sig"))
    for s in (st, st2, st3, st4):
        ck.add_tlc(s)
    ck.log("%d crossings, %d calls, %d kinds, drivers built" % (len(cases), len(calls), len(kinds)))
    # simple values, those which are refused among the others
    walks = []
    byt = {}
    for c in cases:
        byt.setdefault((c["t"], c["d"]), []).append(c)
    for (t, dr), l in sorted(byt.items()):
        k = PSIMPLE.index(t)
        sup = pf.support(simple[k])
        own = vx.owned([t])
        if ("i" if dr == "in" else "o") not in sup:
            continue
        ck.rng.shuffle(l)
        for j in range(0, len(l), 40):
            w = []
            for c in l[j:j + 40]:
                x, y = "", hexs(c["y"])
                if t != "er":
                    x = hexs(c["x"])
                else:
                    x, y = "EV%d:" % len(c["x"]) + "".join(hexs(z) for z in c["x"]), "E" + y
                if c["y"] == [-1]:
                    if dr == "out":
                        raise ToolError("Python refuses a Rust value: %s" % c)
                    w += [({"op": op, "v": (None, x), "_i": k, "_k": k + 1, "refused": True, "dropped": 0}, {"k": k + 1, "r": []}) for op in ["in"] + ["echo"] * ("o" in sup)]
                    continue
                if dr == "out":
                    ops, v = ["out"] + ["moved", "discard"] * (ck.rng.random() < .3), (x, y)
                else:
                    ops, v = ["in"] + ["echo"] * ("o" in sup) + ["give"] * (own and "o" in sup), (y, x)
                w += [({"op": op, "v": v, "_i": k, "_k": k + 1, "dropped": 0}, {"k": k + 1, "r": []}) for op in ops]
            walks.append(w)
    rt, pt = (lambda t, v: v[0]), (lambda t, v: v[1])
    line = compound_line(simple, rt, pt)

    class Simple(CompoundCompare):
        def step(self, a, st, obs):
            if a.get("refused"):
                if obs["exc"] not in ("OverflowError", "TypeError", "ValueError", "UnicodeEncodeError") or obs["log"] or obs["bad"] or obs["live"]:
                    return "%s stands for no value of the Rust type and is not refused with an exception: %s" % (a["v"][1], obs)
                return None
            return super().step(a, st, obs)
    rawline = lambda a: ("%s %d %s" % (a["op"], a["_i"], a["v"][1]) if a.get("refused") else line(a))
    g = Graph(st3["edges"], st3["init"])
    cw = g.tours(ck.rng, maxlen=50)
    unc = g.uncovered
    if not ck.quick:
        cw += g.random_walks(ck.rng, 3000, 60)
    cw = [[(dict(a, _k=s["k"], _i=s["k"] - 1 + len(simple)), s) for a, s in w] for w in cw]
    cline = compound_line(types, pf.text, pf.ptext)
    ck.rng.shuffle(walks)
    replay_cmp(ck, py_cmd(d, "val"), walks, rawline, lambda: Simple(simple, rt, pt), "values", n=8)
    ck.log("%d steps" % ck.cov["replayed_steps"])
    replay_cmp(ck, py_cmd(d, "val"), cw, cline, lambda: PyCompound(types), "compound values", n=8)
    ck.log("%d types: %d transitions, %d left, %d steps" % (len(types), g.n, unc, ck.cov["replayed_steps"]))
    ops = lambda k, t: ["in"] * ("i" in pf.support(t)) + ["out"] * ("o" in pf.support(t)) + ["echo"] * (pf.support(t) == "io")
    wr = [[(dict(a, _i=a["_i"] + len(simple)), s) for a, s in w] for w in wrapped(ck, "python", types, cases, ops)]
    replay_cmp(ck, py_cmd(d, "val"), wr, compound_line(types, *PAIR), lambda: CompoundCompare(types, *PAIR), "values inside compound ones", n=8)
    # kinds of objects, mixed with values
    tno = [i for i, t in enumerate(simple + types) if "i" in pf.support(t)]
    kw = [({"op": "kind", "_i": tno[c["k"] - 1], "kd": c["kd"], "called": c["called"], "t": ktypes[c["k"] - 1]}, None) for c in kinds if c["mode"] == "kind"]
    ck.rng.shuffle(kw)

    class Kind:
        def start(self):
            pass

        def step(self, a, st, obs):
            if obs["bad"]:
                return "; ".join(obs["bad"])
            if a["called"] != (len(obs["log"]) == 1 and obs["exc"] == ""):
                return "an object of kind %s for %s: specified %s, observed %s" % (a["kd"], a["t"], "to be taken" if a["called"] else "an exception", obs)
            if not a["called"] and (obs["log"] or obs["exc"] not in ("TypeError", "OverflowError", "ValueError")):
                return "an object of kind %s for %s: exception %r, Rust saw %s" % (a["kd"], a["t"], obs["exc"], obs["log"])
            return None
    kwalks = [kw[j:j + 60] for j in range(0, len(kw), 60)]
    replay_cmp(ck, py_cmd(d, "val"), kwalks, lambda a: "kind %d %s" % (a["_i"], a["kd"]), Kind, "kinds of objects", n=8)
    # calls
    rleaf, pleaf = (lambda t, v: pf.text(t, vx.two(t)[v - 1])), (lambda t, v: pf.ptext(t, vx.two(t)[v - 1]))
    bad = [c for c in kinds if c["mode"] == "call"]
    cl = [({"op": "sig", "s": c["s"], "v": c["v"]}, c) for c in calls] + [({"op": "kindsig", "s": c["k"], "bad": sorted(c["bad"]), "v": [ck.rng.choice((1, 2)) for _ in sigs[c["k"] - 1]["args"]]}, None) for c in bad]
    ck.rng.shuffle(cl)

    def sline(a):
        s = sigs[a["s"] - 1]
        v = "".join(pleaf(t, v) for t, v in zip(s["args"], a["v"]))
        if a["op"] == "sig":
            return "sig %d %s" % (a["s"] - 1, v)
        return "kindsig %d %s %s" % (a["s"] - 1, v, " ".join({0: "-1", 99: "-2"}.get(b, str(b - 1)) for b in a["bad"]))

    class PySig(SigCompare):
        def step(self, a, st, obs):
            if a["op"] == "sig":
                return super().step(a, st, obs)
            if obs["bad"]:
                return "; ".join(obs["bad"])
            if obs["log"] or obs["exc"] != "TypeError" or obs["live"]:
                return "a call with wrong arguments at %s of %s: exception %r, Rust saw %s, objects left: %s" % (a["bad"], sigs[a["s"] - 1], obs["exc"], obs["log"], obs["live"])
            return None
    replay_cmp(ck, py_cmd(ds, "val"), [cl[j:j + 40] for j in range(0, len(cl), 40)], sline, lambda: PySig(sigs, rleaf, pleaf), "argument positions", n=8)
    ck.cov.update(crossings=len(cases), types=len(types) + len(simple), kinds=len(kw), signatures=len(sigs), calls=len(calls), wrong_calls=len(bad))
    ck.cov["transitions_replayed"] = [g.n - unc, g.n]
    ck.log("%d steps" % ck.cov["replayed_steps"])
    for w in walks[:1]:
        ck.sample({"history": [rawline(a) for a, s in w[:12]]})
    for w in cw[:1]:
        ck.sample({"history": [cline(a) for a, s in w[:12]]})
    ck.sample({"history": [sline(a) for a, s in cl[:12]]})


# ------------------------------------------------------------------------------------------------ P30: ownership
class PyOwnCompare:
    def start(self):
        self.map, self.gone = {}, set()

    def step(self, a, st, obs):
        if obs["bad"]:
            return "; ".join(obs["bad"])
        want = {"bad": "ValueError", "err": "Error gone %s\nCaused by:\nbecause \u00e9" % a.get("ret")}.get(a["op"], "")
        if obs["exc"] != want:
            return "exception %r, specified %r" % (obs["exc"], want)
        ret = None if a.get("exc") else 7 if a["op"] == "take" and a["how"] == "tuple" else a.get("ret")
        if obs["ret"] != ret:
            return "returned %s, specified %s" % (obs["ret"], ret)
        m = dict(self.map)
        new = set(a.get("obj", ()))
        places = []
        for s in ("A", "B"):
            w, got = st["var"][s], obs[s]
            if (w == 0) != (got is None):
                return "variable %s is %s, specified %s" % (s, "None" if got is None else "an object", "None" if w == 0 else "an object")
            if w:
                places.append(("the object in %s" % s, st["wr"][w - 1], got))
        if obs["same"] != (st["var"]["A"] == st["var"]["B"]):
            return "the variables refer to %s Python object(s)" % ("one" if obs["same"] else "two")
        places.append(("the object kept by Rust", st["hold"], obs["hold"]))
        for n, o, (ser, v) in places:
            if (o == 0) != (ser == 0):
                return "%s: %s, specified the opposite" % (n, "nothing" if ser == 0 else "there is one")
            if o == 0:
                continue
            if o in new and o not in m:
                if ser in m.values() or ser in self.gone:
                    return "%s is an old object, specified a new one" % n
                m[o] = ser
            if m[o] != ser:
                return "%s is another object than specified" % n
            if v != st["val"][o - 1]:
                return "%s has value %s, specified %s" % (n, v, st["val"][o - 1])
        drops = set(obs["drops"])
        dead = {m[o] for o in a["dead"] if o in m}
        if len(drops) != len(obs["drops"]):
            return "an object is dropped twice"
        if not dead <= drops:
            return "objects %s dropped, specified %s" % (sorted(drops), sorted(dead))
        extra = drops - dead
        if len(extra) != a["tmp"] + sum(1 for o in a["dead"] if o not in m) or extra & (set(m.values()) | self.gone):
            return "objects %s dropped, specified %s and %d temporary copies" % (sorted(drops), sorted(dead), a["tmp"])
        for o in a["dead"]:
            m.pop(o, None)
        self.gone |= drops
        if sorted(obs["live"]) != sorted(m.values()):
            return "live objects %s, specified %s" % (sorted(obs["live"]), sorted(m.values()))
        inv = {x: o for o, x in m.items()}
        own = a["own"]
        for ser, strong, weak, free in obs["counts"]:
            if not free:
                return "the lock of object %d is still held after the call" % ser
            if ser not in inv or strong != own[inv[ser] - 1] or weak:
                return "object %d has %d owners, specified %s" % (ser, strong, own[inv[ser] - 1] if ser in inv else 0)
        self.map = m
        return None


def pown_line(a):
    return " ".join(str(x) for x in [a["op"], a.get("s", "-"), a.get("t", "-"), a.get("how", "-"), a.get("v", 0), a.get("v2", 0)])


def p30(ck):
    import ownfix as of
    parallel(lambda: build_vgen(ck), lambda: build_deps(ck))
    combos = {}
    for C in of.CLS:
        combos.setdefault(tuple(of.props(C).items()), []).append(C)
    names = list(combos)
    mw, mo = (2, 2) if ck.quick else (3, 3)

    def ex(i):
        return lambda: explore(ck, "PyOwn", dict({k: v for k, v in names[i]}, MaxW=mw, MaxO=mo, V="{0, 1}"), ["TypeOK", "NoDangling", "NoLeak", "NoGarbage", "Unshared"], ["Local", "CopyLeavesOriginal"],
                               view="view", tag="-%d" % i, mem="3g")
    d, *sts = parallel(lambda: build_py(ck, "own", of.description(), of.rust()), *[ex(i) for i in range(len(names))])
    ck.log("models explored, driver built")
    for n, st in zip(names, sts):
        ck.add_tlc(st)
        g = Graph(st["edges"], st["init"])
        for C in combos[n]:
            walks = g.tours(ck.rng, maxlen=80, limit=60000 if ck.quick else None)
            unc = g.uncovered
            if not ck.quick:
                walks += g.random_walks(ck.rng, 300, 200)
            n0 = ck.cov.get("replayed_steps", 0)
            replay_cmp(ck, py_cmd(d, "own") + [C], walks, pown_line, PyOwnCompare, "class %s" % C, n=8, timeout=100 if ck.quick else 600)
            ck.log("%s: %d transitions, %d left, %d steps" % (C, g.n, unc, ck.cov["replayed_steps"] - n0))
            ck.cov.setdefault("transitions_replayed", {})[C] = [g.n - unc, g.n]
            ck.sample({"class": C, "history": [pown_line(a) for a, s in walks[0][:12]]})
            if ck.violations:
                return
    # a locked object given twice to one call: the call never returns (known finding)
    for C, line in (("Mx", "two A A arg 0 0"), ("Cy", "two A A val 0 0"), ("Am", "two A A self 0 0")):
        ans, rc, err, late = drive(py_cmd(d, "own") + [C], ["reset", "new A - - 1 0", line], 4)
        if late:
            ck.violation("class %s: '%s' with one object given twice does not return" % (C, line), {"class": C, "history": ["new A 1", line]}, signature="same-object-twice")
        elif ans[-1]["ret"] != 11:
            ck.violation("class %s: '%s' with one object given twice returns %s" % (C, line, ans[-1]["ret"]), {"class": C, "history": ["new A 1", line]})


CHECKS = {"P30": p30, "P31": p31}
