"""Checks on the C++ side (C10..C15): Rust fixture -> vgen -> rustc staticlib + generated headers -> C++ driver -> replay of TLC behaviours."""
from chk_gen import *

CXX = os.path.join(HARNESS, "cpp")
ASAN = {"ASAN_OPTIONS": "detect_leaks=0:max_free_fill_size=4096:free_fill_byte=221:detect_stack_use_after_return=1", "RUST_BACKTRACE": "0"}


def gen_cpp(ck, name, tag="", opts=None, maps=(), text=None):
    """Run the generator on harness/cpp/NAME.rs.in; returns the directory with headers and glue.rs."""
    d = workdir(ck, name + tag)
    src = os.path.join(CXX, name + ".rs.in")
    if text is not None:
        src = write(os.path.join(d, "src", name + ".rs.in"), text)
    g = Gen(err=False)
    a = g(lang="cpp", out=d, dst=os.path.join(d, "glue.rs"), srcs=[src], opts=opts or {}, maps=[list(m) for m in maps])
    g.close()
    if not a["ok"]:
        raise BuildBroken("flapigen refuses fixture %s%s" % (name, tag), json.dumps(a)[:3000])
    return d


def rust_lib(ck, d, name, edition="2021", opt="0", text=None):
    parts = []
    for f in ("common.rs", name + ".rs"):
        if f != "common.rs" and text is not None:
            parts.append(text)
            continue
        with open(os.path.join(CXX, f)) as h:
            parts.append(h.read())
    with open(os.path.join(d, "glue.rs")) as h:
        glue = h.read()
    lib = os.path.join(d, "lib.rs")
    write(lib, "#![allow(warnings)]\n" + "\n".join(parts) + "\n" + glue)
    p = run(["rustc", "--edition", edition, "--crate-type", "staticlib", "--crate-name", "vfix", "-C", "debuginfo=0", "-C", "opt-level=" + opt,
             "-C", "debug-assertions=on", "-o", os.path.join(d, "libvfix.a"), lib], timeout=600)
    if p.returncode != 0:
        raise BuildBroken("rustc rejects the glue of fixture " + name, p.stderr)


def cpp_driver(ck, d, name, exe="drv", flags=(), cxx="g++", san=("-fsanitize=address",)):
    out = os.path.join(d, exe)
    cmd = [cxx, "-std=c++17", "-O1", "-g1", *san, "-fno-omit-frame-pointer", "-DNS=org_examples", *flags, "-I", CXX, "-I", d,
           os.path.join(CXX, name + ".cpp")]
    o = run(cmd + ["-c", "-o", out + ".o"], timeout=600)
    if o.returncode != 0:
        raise BuildBroken("%s rejects the generated headers of fixture %s" % (cxx, name), o.stderr[:6000])
    for f in sorted(os.listdir(d)):
        if f.endswith(".cpp"):
            raise ToolError("unexpected C++ source among the generated files: " + f)
    p = run([cxx, *san, "-o", out, out + ".o", os.path.join(d, "libvfix.a"), "-lpthread", "-ldl", "-lm"], timeout=600)
    if p.returncode != 0:
        raise BuildBroken("the program of fixture %s does not link" % name, p.stderr[:6000])
    return out


def build_cpp(ck, name, tag="", opts=None, flags=(), cxx="g++", maps=(), src=None, desc=None, rust=None, includes=None, san=("-fsanitize=address",)):
    """vgen -> rustc -> g++ -> driver executable. desc/rust: texts instead of harness/cpp/NAME.rs.in and NAME.rs;
    includes: classes whose headers go into NAME_includes.hpp."""
    d = gen_cpp(ck, name, tag, opts, maps, desc)
    rust_lib(ck, d, name, text=rust)
    if includes:
        write(os.path.join(d, name + "_includes.hpp"), "".join('#include "%s.hpp"\n' % c for c in includes))
    return cpp_driver(ck, d, src or name, flags=flags, cxx=cxx, san=san)


CONFIGS = {"std17": ({}, ["-DOPTNS=std", "-DVARNS=std", "-DSV=std::string_view"]),
           "boost": ({"boost": True}, ["-DOPTNS=boost", "-DVARNS=boost", "-DSV=boost::string_view", "-DBOOST=1", "-DBOOSTOPT=1"])}
# some of the types from the standard library, the others from boost
MIX = {"mixA": ({"boost_opt": True, "boost_str": True}, ["-DOPTNS=boost", "-DVARNS=std", "-DSV=boost::string_view", "-DBOOST=1", "-DBOOSTOPT=1"]),
       "mixB": ({"boost_var": True}, ["-DOPTNS=std", "-DVARNS=boost", "-DSV=std::string_view", "-DBOOST=1"])}
ANY = dict(CONFIGS, **MIX)
sys.path.insert(0, CXX)
sys.path.insert(0, os.path.join(HARNESS, "common"))


def parallel(*fns):
    res = [None] * len(fns)

    def w(i):
        res[i] = fns[i]()
    par(len(fns), w)
    return res


# ------------------------------------------------------------------------------------------------ C10: ownership
class OwnCompare:
    """Keeps model id <-> serial of the real object along one walk and compares each step."""
    def __init__(self, slots, copy):
        self.slots, self.copy = slots, copy
        self.cur = None

    def start(self):
        self.map, self.seen = {}, set()

    def step(self, a, st, obs):
        f = a["from"]
        prev = dict(self.map)
        places = [("own[%s]" % s, f["own"][s], obs["own"][i], st["own"][s], obs["val"][i]) for i, s in enumerate(self.slots)]
        places += [("raw", f["raw"], obs["raw"], st["raw"], obs["rawval"]), ("container", f["hold"], obs["hold"], st["hold"], obs["holdval"])]
        if obs["bad"]:
            return "; ".join(obs["bad"])
        new = {}
        nid = a.get("id")
        if nid is not None:
            prev[nid] = None
        for n, i, ser, ni, v in places:
            if i == 0:
                if ser != 0:
                    return "%s holds an object, the specification says nothing" % n
                continue
            if ser == 0:
                return "%s holds nothing, the specification says an object" % n
            want = prev.get(i)
            if want is None:
                if ser in self.seen:
                    return "%s holds an object that existed before, the specification says a new one" % n
                prev[i] = ser
            elif want != ser:
                return "%s holds another object than specified" % n
            new[ni] = ser
            if v != st["val"][ni - 1]:
                return "%s has value %s, specified %s" % (n, v, st["val"][ni - 1])
        drops = list(obs["drops"])
        exp = [prev.get(i) for i in a["drops"]]
        if len(drops) != len(set(drops)):
            return "an object is dropped twice"
        anon = sum(1 for x in exp if x is None)
        known = {x for x in exp if x is not None}
        if not known <= set(drops):
            return "not every object that lost its last owner was dropped: dropped %s" % drops
        extra = set(drops) - known
        if any(x in self.seen or x in new.values() for x in extra):
            return "an object that still has an owner (or was dropped before) was dropped"
        if len(extra) < anon or (len(extra) > anon and not self.copy):
            return "%d objects dropped, specified %d" % (len(drops), len(a["drops"]))
        if sorted(obs["live"]) != sorted(set(new.values())):
            return "live Rust objects %s, owned ones %s" % (obs["live"], sorted(set(new.values())))
        if "ret" in a and obs["ret"] != a["ret"]:
            return "returned %s, specified %s" % (obs["ret"], a["ret"])
        if st["ref"] != 0:
            if obs.get("ref") != new.get(st["ref"]):
                return "the reference denotes another object"
            if obs["refval"] != st["val"][st["ref"] - 1]:
                return "through the reference: value %s, specified %s" % (obs["refval"], st["val"][st["ref"] - 1])
        self.map = new
        self.seen |= set(drops) | set(new.values())
        return None


def end_clean(obs):
    m = []
    if obs.get("live"):
        m.append("objects %s are still alive" % obs["live"])
    if len(set(obs["drops"])) != len(obs["drops"]):
        m.append("an object is dropped twice")
    if obs["bad"]:
        m.append("; ".join(obs["bad"]))
    if obs.get("allocs"):
        m.append("%d Rust allocations are not freed" % obs["allocs"])
    return "; ".join(m) or None


def own_line(a, st):
    w = [a["op"]]
    for k in ("s", "t"):
        if k in a:
            w.append(a[k])
    if "v" in a:
        w.append(str(a["v"]))
    w.append("ref" if st["ref"] != 0 else "-")
    return " ".join(w)


def replay_own(ck, exe, cls, walks, what, copy, timeout, slots=("A", "B")):
    """Splits the walks over processes."""
    n = 4
    parts = [walks[i::n] for i in range(n)]

    def job(i):
        cmp_ = OwnCompare(slots, copy)
        state = {"w": None}

        def compare(a, st, obs):
            if a.get("_first"):
                cmp_.start()
            return cmp_.step(a, st, obs)
        if parts[i]:
            # mark first steps
            ws = [[(dict(a, _first=True) if j == 0 else a, s) for j, (a, s) in enumerate(w)] for w in parts[i]]
            lines = {id(a): own_line(a, s) for w in ws for a, s in w}
            replay_walks(ck, [exe, cls], ws, lambda a: lines[id(a)], compare, extra_env=ASAN, timeout=timeout, what=what,
                         end_check=end_clean)
    par(n, job)


def c10(ck):
    build_vgen(ck)
    V = "{0, 1}"
    cfgs = list(CONFIGS)
    kinds = [("plain", ["Foo"]), ("copy", ["Cp"]), ("shared", ["Rr", "Am"])]
    maxid = 5

    def ex(kind):
        return lambda: explore(ck, "CppOwn", {"Kind": S(kind), "SlotSeq": '<<"A", "B">>', "Vals": V, "MaxId": maxid},
                               ["OwnedIffAlive", "SingleOwner", "RefAlive"], ["DropsExact", "ValuesKept"], view="view", tag="-" + kind)
    res = parallel(*[ex(k) for k, _ in kinds], *[lambda c=c: build_cpp(ck, "own", "-" + c, *CONFIGS[c]) for c in cfgs])
    ck.log("models explored, drivers built")
    exes = dict(zip(cfgs, res[3:]))
    jobs = []
    for (kind, classes), st in zip(kinds, res[:3]):
        ck.add_tlc(st)
        g = Graph(st["edges"], st["init"])
        for ci, cls in enumerate(classes):
            for c in cfgs:
                lim = None if (c == "std17") else (12000 if ck.quick else None)
                jobs.append((kind, cls, c, g, lim))
    for kind, cls, c, g, lim in jobs:
        walks = g.tours(ck.rng, maxlen=60, limit=lim)
        if not ck.quick:
            walks += g.random_walks(ck.rng, 2000, 60)
        n0 = ck.cov.get("replayed_steps", 0)
        replay_own(ck, exes[c], cls, walks, "class %s (%s)" % (cls, c), kind != "plain", 300)
        ck.log("%s %s: %d transitions, %d left, %d steps" % (cls, c, g.n, g.uncovered, ck.cov["replayed_steps"] - n0))
        ck.cov.setdefault("transitions_replayed", {})["%s-%s" % (cls, c)] = [g.n - g.uncovered, g.n]
        for w in walks[:1]:
            ck.sample({"class": cls, "history": [own_line(a, s) for a, s in w[:12]]})
        if ck.violations:
            break
    if not ck.quick and not ck.violations:
        for kind, cls in (("plain", "Foo"), ("copy", "Cp")):
            st = explore(ck, "CppOwn", {"Kind": S(kind), "SlotSeq": '<<"A", "B", "C">>', "Vals": V, "MaxId": 6},
                         ["OwnedIffAlive", "SingleOwner", "RefAlive"], ["DropsExact", "ValuesKept"], view="view", tag="-3-" + kind, mem="8g", timeout=1500)
            ck.add_tlc(st)
            g = Graph(st["edges"], st["init"])
            st.clear()
            walks = g.tours(ck.rng, maxlen=80, limit=400000)
            ck.log("%s with 3 slots: %d transitions, %d left" % (cls, g.n, g.uncovered))
            replay_own(ck, exes["std17"], cls, walks, "class %s (3 wrappers)" % cls, kind != "plain", 900, ("A", "B", "C"))
            ck.cov["transitions_replayed"]["%s-3" % cls] = [g.n - g.uncovered, g.n]


# ------------------------------------------------------------------------------------------------ C11: containers
CT = {"u8": "uint8_t", "i8": "int8_t", "u16": "uint16_t", "i16": "int16_t", "u32": "uint32_t", "i32": "int32_t", "u64": "uint64_t", "i64": "int64_t",
      "usize": "uintptr_t", "isize": "intptr_t", "f32": "float", "f64": "double"}


def seq_build(ck, cfg):
    import seq_fixture as sf
    opts, flags = ANY[cfg]
    classes = sf.OBJ + ["Hold" + c for c in sf.OBJ] + ["P" + t for t in sf.PRIM] + ["Hold" + t for t in sf.PRIM] + ["Arcd", "HoldArcd", "Str"]
    return build_cpp(ck, "seq", "-" + cfg, opts, list(flags) + ["-DOBJS=" + " ".join("O(%s)" % c for c in sf.OBJ),
                     "-DPRIMS=" + " ".join("P(%s, %s)" % (t, CT[t]) for t in sf.PRIM),
                     "-DVIEWFN=" + ("to_boost_string_view" if cfg == "boost" else "to_string_view")],
                     desc=sf.fixture(), rust=sf.rust(), includes=classes)


def seq_line(a):
    sl = {"A": 0, "B": 1}
    vs = list(a.get("vs", []))
    return " ".join(str(x) for x in [a["op"], sl.get(a.get("s"), 0), sl.get(a.get("t"), 0), a.get("i", 0), a.get("v", 0), len(vs), *(vs + [0, 0])[:2]])


class SeqCompare:
    """Elements with identity: model ids <-> serials of real objects; without: values only."""
    def __init__(self, ident):
        self.ident = ident

    def start(self):
        self.map, self.seen = {}, set()

    def step(self, a, st, obs):
        if obs["bad"]:
            return "; ".join(obs["bad"])
        if obs["err"]:
            return obs["err"]
        f = a["from"]
        places = [("container A", f["q"]["A"], obs["q"][0], st["q"]["A"]), ("container B", f["q"]["B"], obs["q"][1], st["q"]["B"]),
                  ("the sequence in Rust", f["hold"], obs["hold"], st["hold"])]
        if self.ident:
            places.append(("the single element", [f["e"]] if f["e"] else [], [obs["e"]] if obs["e"] else [], [st["e"]] if st["e"] else []))
        prev = dict(self.map)
        for i in a.get("ids", []):
            prev[i] = None
        new = {}
        for n, old, got, now in places:
            if len(old) != len(got):
                return "%s has %d elements, specified %d" % (n, len(got), len(old))
            for k, (i, x, ni) in enumerate(zip(old, got, now)):
                v = x[1] if self.ident else x
                if v != st["val"][ni - 1]:
                    return "%s[%d] has value %s, specified %s" % (n, k, v, st["val"][ni - 1])
                if self.ident:
                    ser = x[0]
                    if prev[i] is None:
                        if ser in self.seen:
                            return "%s[%d] is an old element, specified a new one" % (n, k)
                        prev[i] = ser
                    elif prev[i] != ser:
                        return "%s[%d] is another element than specified" % (n, k)
                    new[ni] = ser
        if "ret" in a and obs["ret"] != a["ret"]:
            return "returned %s, specified %s" % (obs["ret"], a["ret"])
        if self.ident:
            drops = list(obs["drops"])
            exp = [prev.get(i) for i in a["drops"]]
            known = {x for x in exp if x is not None}
            if len(drops) != len(set(drops)) or len(drops) != len(exp) or not known <= set(drops) or (set(drops) - known) & (self.seen | set(new.values())):
                return "elements dropped: %s, specified: %s" % (drops, exp)
            if sorted(obs["live"]) != sorted(new.values()):
                return "live elements %s, specified %s" % (obs["live"], sorted(new.values()))
            self.map = new
            self.seen |= set(drops) | set(new.values())
        return None


def replay_cmp(ck, cmd, walks, to_line, make_cmp, what, n=4, timeout=300, end=end_clean, extra_env=None, signature=None):
    """Splits walks over n processes; make_cmp() gives an object with start() (new walk) and step(action, state, obs)."""
    parts = [walks[i::n] for i in range(n)]

    def job(i):
        if not parts[i]:
            return
        c = make_cmp()

        def compare(a, st, obs):
            if a.get("_first"):
                c.start()
            return c.step(a, st, obs)
        ws = [[(dict(a, _first=True) if j == 0 else a, s) for j, (a, s) in enumerate(w)] for w in parts[i]]
        replay_walks(ck, cmd, ws, to_line, compare, extra_env=dict(ASAN, **(extra_env or {})), timeout=timeout, what=what, end_check=end, signature=signature)
    par(n, job)


def c11(ck):
    import seq_fixture as sf
    build_vgen(ck)
    tot = 4 if ck.quick else 5
    kinds = ["object", "prim", "access", "str"]

    def ex(kind):
        return lambda: explore(ck, "CppSeq", {"Kind": S(kind), "SlotSeq": '<<"A", "B">>', "Vals": "{0, 1}", "MaxTotal": tot if kind != "object" or ck.quick else 4, "MaxMake": 2},
                               ["OnePlace"], ["DropsExact", "Untouched", "MovedEmpty"], view="view", tag="-" + kind)
    res = parallel(*[ex(k) for k in kinds], lambda: seq_build(ck, "std17"), lambda: seq_build(ck, "boost"))
    ck.log("models explored, drivers built")
    graphs = {}
    for k, st in zip(kinds, res):
        ck.add_tlc(st)
        graphs[k] = Graph(st["edges"], st["init"])
    exes = {"std17": res[4], "boost": res[5]}
    jobs = [("object", "Foo", "std17", None), ("object", "Big", "std17", None), ("object", "Tiny", "std17", 15000), ("access", "Arcd", "std17", None),
            ("str", "Str", "std17", None), ("str", "Str", "boost", None), ("object", "Foo", "boost", 10000)]
    jobs += [("prim", t, "std17", None if t in ("i32", "u8", "f64") or not ck.quick else 4000) for t in sf.PRIM]
    for kind, cls, cfg, lim in jobs:
        g = graphs[kind]
        walks = g.tours(ck.rng, maxlen=60, limit=lim)
        unc = g.uncovered
        if not ck.quick:
            walks += g.random_walks(ck.rng, 1000, 80)
        n0 = ck.cov.get("replayed_steps", 0)
        replay_cmp(ck, [exes[cfg], cls], walks, seq_line, lambda: SeqCompare(kind in ("object", "access")), "%s containers of %s (%s)" % (kind, cls, cfg))
        ck.log("%s %s: %d transitions, %d left, %d steps" % (cls, cfg, g.n, unc, ck.cov["replayed_steps"] - n0))
        ck.cov.setdefault("transitions_replayed", {})["%s-%s" % (cls, cfg)] = [g.n - unc, g.n]
        for w in walks[:1]:
            ck.sample({"class": cls, "history": [seq_line(a) for a, s in w[:12]]})
        if ck.violations:
            break


# ------------------------------------------------------------------------------------------------ C13: compound values
def ctypes():
    """The compound types under test (numbered as in Compound's TypeSeq)."""
    L = lambda *a: [[x] for x in a]
    leaf = L("bool", "u8", "i16", "u32", "i64", "f32", "f64", "usize", "str", "string", "En", "P2", "Foo", "Cp", "ref", "bytes")
    T = [["opt", l] for l in leaf]
    T += [["vec", ["u8"]], ["vec", ["Foo"]], ["opt", ["vec", ["u8"]]], ["opt", ["vec", ["Foo"]]], ["opt", ["opt", ["i64"]]], ["opt", ["pair", ["i64"], ["Foo"]]],
          ["opt", ["opt", ["Foo"]]]]
    pl = L("i64", "string", "str", "En", "Foo", "P2", "bool", "Cp")
    T += [["pair", a, b] for i, a in enumerate(pl) for j, b in enumerate(pl) if (i * 3 + j) % 2 == 0]
    T += [["pair", ["i64"], ["opt", ["Foo"]]], ["pair", ["vec", ["Foo"]], ["i64"]], ["pair", ["pair", ["u8"], ["Foo"]], ["string"]],
          ["tri", ["i64"], ["Foo"], ["En"]], ["tri", ["string"], ["bool"], ["f64"]], ["tri", ["Foo"], ["Cp"], ["Foo"]],
          ["tri", ["pair", ["u8"], ["i16"]], ["opt", ["i64"]], ["Foo"]]]
    # tuples as the later members of tuples, and beside containers
    T += [["pair", ["u8"], ["pair", ["u8"], ["u8"]]], ["pair", ["string"], ["pair", ["string"], ["Foo"]]], ["pair", ["pair", ["i64"], ["i64"]], ["pair", ["i64"], ["i64"]]],
          ["tri", ["u8"], ["pair", ["u8"], ["u8"]], ["u8"]], ["tri", ["string"], ["string"], ["tri", ["string"], ["En"], ["string"]]],
          ["pair", ["u32"], ["tri", ["u32"], ["u32"], ["u32"]]], ["pair", ["vec", ["u8"]], ["vec", ["u8"]]], ["pair", ["opt", ["i64"]], ["pair", ["opt", ["i64"]], ["vec", ["u8"]]]],
          ["opt", ["pair", ["u8"], ["pair", ["u8"], ["u8"]]]], ["res", ["pair", ["u8"], ["pair", ["u8"], ["u8"]]], ["string"]]]
    T += [["res", a, b] for a in L("i64", "string", "bool", "En", "Foo", "P2", "f32") + [["vec", ["Foo"]], ["vec", ["u8"]], ["opt", ["Foo"]], ["opt", ["i64"]],
          ["pair", ["i64"], ["Foo"]]] for b in L("string", "En", "Foo") if a != b]
    T += [["resu", a] for a in L("string", "En", "Foo", "str", "i64")] + [["res", ["res", ["Foo"], ["En"]], ["string"]], ["opt", ["res", ["Foo"], ["string"]]]]
    return T


def tla_type(t):
    return "<<%s>>" % ", ".join([tla(S(t[0]))] + [tla_type(x) for x in t[1:]])


def val_build(ck, cfg, types, sigs, name="val", tag="", **no):
    import valfix as vx
    opts, flags = ANY[cfg]
    d = gen_cpp(ck, name, "-" + cfg + tag, opts, text=vx.description(types, sigs, **no))
    with open(os.path.join(HARNESS, "common", "val.rs")) as h:
        rust_lib(ck, d, name, text=h.read() + vx.rust(types, sigs))
    h, o = vx.cpp_dispatch(types, sigs, cfg, **no)
    write(os.path.join(d, "val_head.inc"), h)
    write(os.path.join(d, "val_body.inc"), o)
    return cpp_driver(ck, d, "val", flags=flags)


def val_groups(types, cfg="std17"):
    """Splits the types so that no C++ type stands for two Rust types of one fixture: flapigen refuses Option<&str> beside Option<String>."""
    import valfix as vx
    groups = []
    for k, t in enumerate(types):
        names = {}
        for x in vx.walk(t):
            if len(x) > 1:
                names[vx.cpp(x, cfg, "in")] = json.dumps(x)
        for idx, seen in groups:
            if all(seen.get(n, r) == r for n, r in names.items()):
                break
        else:
            idx, seen = [], {}
            groups.append((idx, seen))
        idx.append(k)
        seen.update(names)
    return [g[0] for g in groups]


def vx_leaves(t):
    import valfix
    return valfix.leaves(t)


def strip_ids(s):
    return re.sub(r"@\d+", "", s)


class CompoundCompare:
    def __init__(self, types, text, ftext=None):
        self.types, self.text, self.ftext = types, text, ftext or text

    def start(self):
        self.kept = {}

    def step(self, a, st, obs):
        t = self.types[st["k"] - 1]
        if obs["bad"]:
            return "; ".join(obs["bad"])
        if obs.get("msg"):
            return obs["msg"]
        exp, fexp = self.text(t, a["v"]), self.ftext(t, a["v"])
        op = a["op"]
        said = [x.split(" ", 1) for x in obs["said"]]
        log = [x.split(" ", 1) for x in obs["log"]]
        want = {"in": (["cpp"], ["in"]), "out": (["cpp"], ["out"]), "moved": (["cpp"], ["out"]), "discard": ([], ["out"]), "give": (["cpp"], []), "echo": (["cpp", "back"], ["in"]), "cbarg": (["cpp"], ["out"]),
                "cbret": (["cpp"], ["in"]), "cbecho": (["cpp"], ["out", "in"]), "dropr": ([], [])}[op]
        if [x[0] for x in said] != want[0] or [x[0] for x in log] != want[1]:
            return "observed %s in the foreign language and %s in Rust, expected one each of %s" % (said, log, want)
        for side, l, e in (("the foreign language", said, fexp), ("Rust", log, exp)):
            for w, got in l:
                if strip_ids(got) != e:
                    return "%s (%s) sees %s, sent was %s" % (side, w, got, e)
        clones = vx_leaves(t) & {"Cp", "ref", "Bc", "rcp", "rar", "rsh"} or (op == "cbecho" and not all(x[1] == log[0][1] for x in log))
        ids = {" ".join(re.findall(r"@(\d+)", x[1])) for x in said + log}
        if not clones and len(ids) > 1:
            return "objects change their identity on the way: %s" % sorted(ids)
        drops = list(obs["drops"])
        if len(drops) != len(set(drops)):
            return "an object is dropped twice: %s" % drops
        if not clones and len(drops) != a["dropped"]:
            return "%d objects dropped, specified %d" % (len(drops), a["dropped"])
        k = st["k"]
        if op in ("in", "cbret") and st["r"]:
            self.kept[k] = [int(x) for x in re.findall(r"@(\d+)", log[0][1])]
        elif not st["r"]:
            self.kept[k] = []
        live = sorted(obs["live"])
        if live != sorted(x for l in self.kept.values() for x in l):
            return "live objects %s, specified: only those Rust keeps, %s" % (live, self.kept)
        return None


def compound_line(types, text, ftext=None):
    def line(a):
        f = ftext or text
        return "%s %d %s" % (a["op"], a["_i"], (f if a["op"] in ("in", "echo", "cbret") else text)(types[a["_k"] - 1], a["v"]))
    return line


def wrapped(ck, lang, types, cases, ops):
    """Crossings of spec/Values.tla inside the compound types: every component keeps its value, however it is nested.
    ops(t) gives the operations of a type; the result is a list of walks whose values are pairs (Rust text, foreign text)."""
    import valfix as vx
    rng = ck.rng
    vals = {}
    for c in cases:
        if c["d"] == "out" and c["y"] != [-1] and c["t"] != "er":
            vals.setdefault(c["t"], []).append((hexs(c["x"], c["t"]), hexs(c["y"], c["t"])))
    for l in vals.values():
        l.sort()
        rng.shuffle(l)
    used = dict.fromkeys(vals, 0)

    def leaf(t):
        if t == "bytes":
            b = [rng.randrange(256) for _ in range(rng.choice([0, 1, 2, 7, 8, 255, 300]))]
            x = "V%d:" % len(b) + "".join("%02x." % y for y in b)
            return x, x
        l = vals[t]
        used[t] += 1
        return l[used[t] % len(l)]

    def gen(t):
        h = t[0]
        if len(t) == 1:
            return leaf(h)
        if h == "opt":
            parts = ("N", []) if rng.random() < .08 else ("S", [t[1]])
        elif h == "res":
            parts = ("E", [t[2]]) if t[2] != ["er"] and rng.random() < .3 else ("O", [t[1]])
        elif h == "resu":
            parts = ("U", []) if t[1] == ["er"] or rng.random() < .1 else ("E", [t[1]])
        elif h in ("vec", "slice"):
            n = rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 9, 16, 17, 31, 40])
            parts = ("V%d:" % n, [t[1]] * n)
        else:
            parts = ({"pair": "(", "tri": "["}[h], t[1:])
        l = [gen(x) for x in parts[1]]
        return parts[0] + "".join(r for r, f in l), parts[0] + "".join(f for r, f in l)
    walks, n = [], 0
    for k, t in enumerate(types):
        ls = vx.leaves(t) - {"er"}
        if len(t) == 1 or not ls or not all(x in vals or x == "bytes" for x in ls):
            continue
        direct = all(len(x) == 1 for x in t[1:]) and t[0] in ("opt", "res", "resu")
        most = max(len(vals.get(x, "1")) for x in ls)
        count = min(most + most // 8, 330 if ck.quick else 10 ** 9) if direct else 40 if ck.quick else 600
        vs = [gen(t) for _ in range(count)]
        n += count
        for j in range(0, count, 40):
            w = [({"op": o, "v": v, "_i": k, "_k": k + 1, "dropped": 0}, {"k": k + 1, "r": []}) for v in vs[j:j + 40] for o in ops(k, t)]
            if w:
                walks.append(w)
    rng.shuffle(walks)
    ck.cov["wrapped"] = ck.cov.get("wrapped", 0) + n
    return walks


PAIR = (lambda t, v: v[0], lambda t, v: v[1])


def c13(ck):
    import valfix as vx
    build_vgen(ck)
    types = ctypes()
    no_cb_in = {i for i, t in enumerate(types) if t == ["opt", ["ref"]]}
    cs = {"TypeSeq": "<<%s>>" % ", ".join(map(tla_type, types)), "NoIn": "{}", "NoOut": "{}", "NoCbOut": "{}", "NoCb": "FALSE", "MaxVec": 2 if ck.quick else 3, "Long": 600,
          "NoCbIn": "{%s}" % ", ".join(str(i + 1) for i in no_cb_in)}
    groups = val_groups(types)
    jobs = [(cfg, n, idx) for cfg in CONFIGS for n, idx in enumerate(groups)]
    jobs += [(cfg, n, idx) for cfg in MIX for n, idx in enumerate(groups) if not ck.quick or n == ("mixA", "mixB").index(cfg)]

    # compound values among several arguments
    sigs = []
    for idx in groups:
        pos = [types[i] for i in idx if types[i][0] != "resu" and "ref" not in vx.leaves(types[i])]
        bad = [t for t in pos if not vx.owned(t)]
        sigs.append(pick_sigs(ck, pos + ["i64", "u8", "Foo"] * (len(pos) // 6), {"static": (), "method": (), "mut": (), "ctor": (), "cb": ()},
                              {x: bad + ["Foo"] * (x == "cb") for x in ("static", "method", "mut", "cb")}, len(pos) + (40 if ck.quick else 120) * (len(pos) > 6), maxlen=5, long=False))
    allsigs = [s for l in sigs for s in l]

    def build(cfg, n, idx):
        return lambda: val_build(ck, cfg, [types[i] for i in idx], sigs[n], tag="-%d" % n, no_cb_in={idx.index(i) for i in no_cb_in if i in idx})
    st, (cases, vst), (calls, ast), *exes = parallel(
        lambda: explore(ck, "Compound", cs, ["TypeOK", "NothingBorrowed"], ["Conserved", "Lossless"], view="view"), lambda: values_cases(ck, "cpp", SIMPLE),
        lambda: args_cases(ck, allsigs, 3), *[build(*j) for j in jobs])
    ck.add_tlc(st)
    ck.add_tlc(vst)
    ck.add_tlc(ast)
    leaf = lambda t, v: vx.text(t, vx.two(t)[v - 1])
    ck.log("model explored, %d drivers built" % len(exes))
    for (cfg, n, idx), exe in zip(jobs, exes):
        num = {k + 1: i for i, k in enumerate(idx)}
        sub = [s for s in st["init"] if s["k"] in num]
        g = Graph([e for e in st["edges"] if e["f"]["k"] in num], sub)
        walks = g.tours(ck.rng, maxlen=50)
        if not ck.quick:
            walks += g.random_walks(ck.rng, 3000, 60)
        walks = [[(dict(a, _k=s["k"], _i=num[s["k"]]), s) for a, s in w] for w in walks]
        n0 = ck.cov.get("replayed_steps", 0)
        replay_cmp(ck, [exe], walks, compound_line(types, vx.text), lambda: CompoundCompare(types, vx.text), "compound values (%s)" % cfg)
        sub = [types[i] for i in idx]
        ops = lambda k, t: ["in", "echo", "out"] + ["cbarg"] + ["cbret"] * (idx[k] not in no_cb_in) + ["cbecho", "give"] * vx.owned(t)
        replay_cmp(ck, [exe], wrapped(ck, "cpp", sub, cases, ops), compound_line(sub, *PAIR), lambda: CompoundCompare(sub, *PAIR), "values inside compound ones (%s)" % cfg)
        lo = sum(map(len, sigs[:n]))
        cl = [({"op": "sig", "s": c["s"] - lo, "v": c["v"]}, dict(c, s=c["s"] - lo)) for c in calls if lo < c["s"] <= lo + len(sigs[n])]
        sline = (lambda l: lambda a: "sig %d %s" % (a["s"] - 1, "".join(leaf(t, v) for t, v in zip(l[a["s"] - 1]["args"], a["v"]))))(sigs[n])
        replay_cmp(ck, [exe], [cl[j:j + 40] for j in range(0, len(cl), 40)], sline, lambda: SigCompare(sigs[n], leaf), "compound values among arguments (%s)" % cfg)
        ck.log("%s, %d types: %d transitions, %d left, %d steps" % (cfg, len(idx), g.n, g.uncovered, ck.cov["replayed_steps"] - n0))
        ck.cov.setdefault("transitions_replayed", {})["%s-%d" % (cfg, n)] = [g.n - g.uncovered, g.n]
        for w in walks[:1]:
            ck.sample({"type": types[w[0][1]["k"] - 1], "history": [compound_line(types, vx.text)(a) for a, s in w[:12]]})
        if ck.violations:
            break
    ck.cov.update(types=len(types), signatures=len(allsigs), calls=len(calls))


# ------------------------------------------------------------------------------------------------ C12: simple values
SIMPLE = ["bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "f32", "f64", "c_char", "c_short", "c_ushort", "c_int", "c_uint", "c_long",
          "str", "string", "path", "En", "Ex", "P2"]
INTS = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "usize": 8, "isize": 8, "c_char": 1, "c_short": 2, "c_ushort": 2, "c_int": 4,
        "c_uint": 4, "c_long": 8}


def seeded_values(rng, n):
    """Extra constant of Values: n random values per integer and float type; and strings of special lengths."""
    extra = {t: {tuple(rng.randrange(256) for _ in range(w)) for _ in range(n)} for t, w in INTS.items()}
    extra["f32"] = {(a, b, rng.randrange(128), rng.randrange(127) + 128 * rng.randrange(2)) for a, b in [(rng.randrange(256), rng.randrange(256)) for _ in range(n)]}
    extra["f64"] = {tuple(rng.randrange(256) for _ in range(7)) + (rng.randrange(127) + 128 * rng.randrange(2),) for _ in range(n)}
    cps = [0, 9, 97, 127, 128, 233, 2047, 2048, 55295, 57344, 65279, 65535, 65536, 128512, 1114111]
    strs = set()
    for ln in (3, 4, 7, 8, 15, 16, 17, 22, 23, 24, 31, 32, 33, 64, 255, 256) + tuple(rng.randrange(3, 40) for _ in range(n)):
        strs.add(tuple(rng.choice(cps) if rng.random() < .5 else rng.randrange(32, 127) for _ in range(ln)))
    return {k: {tla(list(v)) for v in vs} for k, vs in extra.items()}, {tla(list(v)) for v in strs}


def values_cases(ck, lang, types):
    extra, strs = seeded_values(ck.rng, 20 if ck.quick else 150)
    ex = "[n \\in {%s} |-> CASE %s]" % (", ".join('"%s"' % k for k in sorted(extra)), " [] ".join('n = "%s" -> {%s}' % (k, ", ".join(sorted(v))) for k, v in sorted(extra.items())))
    cs = {"Lang": S(lang), "Types": {S(t) for t in types}, "Extra": ex, "Strings": "{%s}" % ", ".join(sorted(strs))}
    return enumerate_states(ck, "Values", cs, ["RoundTrip", "Total", "WellFormed"])


def hexs(b, t=None):
    if t == "P2":
        return hexs(b[:2]) + hexs(b[2:10]) + hexs(b[10:])
    return "".join("%02x" % x for x in b) + "."


ARG_NAMES = "ret ret0 ret1 convRet convRet0 conv_ret conv_ret0 opaque opaque0 pi pi0 result res tmp obj p data len name value o x e err p0 p1 p2 cap this_ slice ok inner out v".split()


def arg_names(rng, n):
    """Names of n arguments: plain ones, those the generator itself likes to use, its numbered ones out of order, and unnamed arguments."""
    w = rng.random()
    own = ["a%d" % i for i in range(n)]
    if w < .35:
        return own
    if w < .55:
        rng.shuffle(own)
        return own
    pool = ARG_NAMES + ["a%d" % i for i in range(n)] + ["a%d0" % i for i in range(n)] + ["a_%d" % i for i in range(n)]
    names = rng.sample(sorted(set(pool)), n)
    if w > .85:
        names = [x if rng.random() < .5 else "_" for x in names]
    return names


def pick_sigs(ck, pos, kinds, norets, quick_n, all_pairs_of=(), maxlen=7, long=True):
    """Signatures: all ordered pairs of all_pairs_of, and seeded ones of other lengths. kinds: name -> types not usable as argument there."""
    rng = ck.rng
    sigs = []

    def add(args):
        ks = sorted(k for k, bad in kinds.items() if not any(a in bad for a in args))
        k = ks[len(sigs) % len(ks)]
        rets = [i for i, a in enumerate(args) if a not in norets.get(k, ())]
        r = rng.choice(rets) if rets and k != "ctor" and rng.random() < .6 else None
        sigs.append({"kind": k, "args": [[a] if isinstance(a, str) else a for a in args], "ret": r, "names": arg_names(rng, len(args))})
    for a in all_pairs_of:
        for b in all_pairs_of:
            add([a, b])
    for a in pos:
        add([a])
    while len(sigs) < quick_n:
        n = rng.randint(11, 13) if long and rng.random() < .06 else rng.randint(3, maxlen)
        few = rng.sample(pos, 2) if rng.random() < .3 else pos
        add([rng.choice(few) for _ in range(n)])
    return sigs


def args_cases(ck, sigs, alt, tag=""):
    bits = lambda n: "{%s}" % ", ".join(tla([1 + ((i >> b ^ f) & 1) for i in range(n)]) for b in range((n - 1).bit_length()) for f in (0, 1))
    cs = {"Sigs": "<<%s>>" % ", ".join("[n |-> %d, ret |-> %d, alt |-> %s, vecs |-> %s]" % (
        len(s["args"]), 0 if s["ret"] is None else s["ret"] + 1, tla([i < alt for i in range(len(s["args"]))]), bits(len(s["args"]))) for s in sigs)}
    return enumerate_states(ck, "Args", cs, ["InPlace", "Complete"], tag=tag)


class SigCompare:
    def __init__(self, sigs, leaf, fleaf=None):
        self.sigs, self.leaf, self.fleaf = sigs, leaf, fleaf or leaf

    def start(self):
        pass

    def step(self, a, st, obs):
        if obs["bad"]:
            return "; ".join(obs["bad"])
        if obs.get("msg"):
            return obs["msg"]
        s = self.sigs[st["s"] - 1]
        exp = [self.leaf(t, v) for t, v in zip(s["args"], st["v"])]
        fexp = [self.fleaf(t, v) for t, v in zip(s["args"], st["v"])]
        ret = [] if not st["r"] else ["ret " + (self.leaf if s["kind"] == "cb" else self.fleaf)(s["args"][s["ret"]], st["r"])]
        log = [strip_ids(x) for x in obs["log"]]
        said = [strip_ids(x) for x in obs["said"]]
        if s["kind"] == "cb":
            want = (["a%d %s" % (i, x) for i, x in enumerate(exp)], ["a%d %s" % (i, x) for i, x in enumerate(fexp)])
            log, want2 = [x for x in log if x[:3] != "ret"], ret
            got2 = [strip_ids(x) for x in obs["log"] if x[:3] == "ret"]
        else:
            want = (["a%d %s" % (i, x) for i, x in enumerate(exp)], ["s%d %s" % (i, x) for i, x in enumerate(fexp)])
            said, want2 = [x for x in said if x[:3] != "ret"], ret
            got2 = [strip_ids(x) for x in obs["said"] if x[:3] == "ret"]
        if log != want[0]:
            return "Rust sees the arguments %s, sent were %s (%s)" % (log, want[0], s)
        if said != want[1]:
            return "the other side sees the arguments %s, sent were %s (%s)" % (said, want[1], s)
        if got2 != want2:
            return "result %s, specified %s (%s)" % (got2, want2, s)
        for x in obs["log"] + obs["said"]:
            if x.startswith("ret ") and "@" in x and len(s["args"][s["ret"]]) == 1 and s["args"][s["ret"]][0] not in ("Cp", "Bc", "rcp") and s["kind"] != "cb":
                if x.split("@")[1] not in [y.split("@")[1] for y in obs["log"] if "@" in y]:
                    return "the returned object is not the one passed: %s" % obs
        if obs["live"]:
            return "objects are left after the call: %s" % obs["live"]
        return None


def c12(ck):
    import valfix as vx
    build_vgen(ck)
    types = [[t] for t in SIMPLE]
    no = dict(no_out={SIMPLE.index("path")}, no_cb_out={SIMPLE.index("path")})
    pos = SIMPLE + ["Foo", "Cp", "ref"]
    sigs = pick_sigs(ck, pos, {"static": (), "method": (), "mut": (), "ctor": (), "cb": ("path",)}, {"static": ("path",), "method": ("path",), "mut": ("path",), "cb": ("path", "ref")},
                     260 if ck.quick else 700, ["u8", "i16", "f64", "str", "string", "En", "Foo", "P2"] if ck.quick else
                     ["bool", "u8", "i16", "u32", "i64", "f32", "f64", "str", "string", "path", "En", "P2", "Foo", "Cp", "ref"])
    (cases, st), (calls, st2), *exes = parallel(
        lambda: values_cases(ck, "cpp", SIMPLE), lambda: args_cases(ck, sigs, 4 if ck.quick else 7),
        *[(lambda c: lambda: val_build(ck, c, types, [], **no))(c) for c in CONFIGS],
        *[(lambda c: lambda: val_build(ck, c, [], sigs, tag="-sig"))(c) for c in CONFIGS])
    ck.add_tlc(st)
    ck.add_tlc(st2)
    ck.log("%d crossings, %d calls, drivers built" % (len(cases), len(calls)))
    byt = {}
    for c in cases:
        byt.setdefault((c["t"], c["d"]), []).append(c)
    walks = []
    for (t, d), cs in sorted(byt.items()):
        k = SIMPLE.index(t)
        ck.rng.shuffle(cs)
        for j in range(0, len(cs), 40):
            w = []
            for c in cs[j:j + 40]:
                v = hexs(c["x"], t)
                ops = ["out", "moved", "discard", "cbarg"] if d == "out" else ["in", "echo", "cbret"] + (["cbecho", "give"] if vx.owned([t]) else [])
                for op in ops:
                    if t == "path" and op not in ("in", "cbret"):
                        continue
                    w.append(({"op": op, "v": v, "_i": k, "_k": k + 1, "dropped": 0}, {"k": k + 1, "r": []}))
            if w:
                walks.append(w)
    ck.rng.shuffle(walks)
    swalks = []
    for j in range(0, len(calls), 40):
        swalks.append([({"op": "sig", "s": c["s"], "v": c["v"]}, c) for c in calls[j:j + 40]])
    leaf = lambda t, v: vx.text(t, vx.two(t)[v - 1])
    line = lambda a: "sig %d %s" % (a["s"] - 1, "".join(leaf(t, v) for t, v in zip(sigs[a["s"] - 1]["args"], a["v"])))
    for i, cfg in enumerate(CONFIGS):
        n0 = ck.cov.get("replayed_steps", 0)
        replay_cmp(ck, [exes[i]], walks, compound_line(types, vx.text), lambda: CompoundCompare(types, vx.text), "values (%s)" % cfg)
        replay_cmp(ck, [exes[len(CONFIGS) + i]], swalks, line, lambda: SigCompare(sigs, leaf), "argument positions (%s)" % cfg)
        ck.log("%s: %d steps" % (cfg, ck.cov["replayed_steps"] - n0))
        if ck.violations:
            break
        null_view(ck, exes[i], cfg)
    ck.cov.update(crossings=len(cases), signatures=len(sigs), calls=len(calls))
    for w in walks[:1] + swalks[:1]:
        ck.sample({"history": [compound_line(types, vx.text)(a) if a["op"] != "sig" else line(a) for a, s in w[:12]]})


def null_view(ck, exe, cfg):
    """Default constructed string views (null data) as &str, String and &Path."""
    for t in ("str", "string", "path"):
        k = SIMPLE.index(t)
        ans, rc, err, to = drive([exe], ["null %d" % k, "reset"], timeout=60, extra_env=ASAN)
        good = len(ans) == 2 and rc == 0 and json.loads(ans[0])["log"] == ["in ."]
        ck.cov["replayed_steps"] += 1
        if not good:
            what = "null string_view as %s argument (%s)" % (t, cfg)
            ck.violation("an empty string view with null data does not arrive as the empty string: exit %s, %s" % (rc, err[-400:]),
                         {"input": what, "stderr": err[-800:]}, signature=what)


# ------------------------------------------------------------------------------------------------ C14: callbacks
class CallbackCompare:
    """Model ids <-> serials of the callback objects."""
    def start(self):
        self.map, self.dead = {}, set()

    def step(self, a, st, obs):
        if obs["bad"]:
            return "; ".join(obs["bad"])
        ev = [e.split() for e in obs["ev"]]
        m = dict(self.map)
        if "new" in a:
            if obs["new"] in self.dead or obs["new"] in m.values() or not obs["new"]:
                raise ToolError("the driver made no new object: %s" % obs)
            m[a["new"]] = obs["new"]
        calls = [(int(e[1]), e[2], int(e[3])) for e in ev if e[0] == "call"]
        dels = [int(e[1]) for e in ev if e[0] == "del"]
        other = [e for e in ev if e[0] not in ("call", "del")]
        if other:
            return "callback saw: %s" % other
        if a["op"] == "par":
            for s in (0, 1):
                k = m[a["objs"][str(s)] if isinstance(a["objs"], dict) else a["objs"][s]]
                got = [c for c in calls if c[0] == k]
                want = [(k, a["m"], 1 if s == 0 else 0)] * a["n"]
                if got != want:
                    return "object %d got the calls %s, specified %s" % (k, got, want)
            if len(calls) != 2 * a["n"]:
                return "calls of other objects: %s" % calls
        else:
            want = [(m[c["i"]], c["m"], c["th"]) for c in a["calls"]]
            if calls != want:
                return "calls %s, specified %s (object, method, thread)" % (calls, want)
        if "ret" in a and obs["ret"] != a["ret"]:
            return "Rust got %s, specified %s" % (obs["ret"], a["ret"])
        dead = sorted(m[i] for i in a["dead"])
        if sorted(dels) != dead:
            return "callback objects %s destroyed, specified %s" % (sorted(dels), dead)
        last = max([i for i, e in enumerate(ev) if e[0] == "call"] or [-1])
        gone = set()
        for e in ev:
            if e[0] == "del":
                gone.add(e[1])
            elif e[1] in gone:
                return "object %s is called after its destruction" % e[1]
        self.dead |= set(dels)
        self.map = {i: x for i, x in m.items() if st["cnt"][i - 1] >= 0}
        if sorted(obs["alive"]) != sorted(self.map.values()):
            return "callback objects %s exist, specified %s" % (obs["alive"], sorted(self.map.values()))
        if obs["live"]:
            return "Rust objects %s are left after the call" % obs["live"]
        return None


def cbk_line(a):
    return " ".join([a["op"]] + [str(a[k]) for k in {"set": ("s", "how"), "lend": ("s",), "once": ("n", "m"), "with": ("n", "m", "how"), "call": ("s", "m", "t"),
                                                     "clear": ("s", "t"), "par": ("m", "n"), "nest": ("s", "m"), "nestset": ("s",), "pass": ("how",)}.get(a["op"], ())])


def c14(ck):
    build_vgen(ck)
    mc = 2
    jobs = {c: (o, f + ["-DMODULUS=%d" % (mc + 1)]) for c, (o, f) in CONFIGS.items()}

    def mk(c):
        o, f = jobs[c]
        return lambda: build_cpp(ck, "cbk", "-" + c, o, f)

    def mkt():
        o, f = jobs["std17"]
        return build_cpp(ck, "cbk", "-tsan", o, f, san=("-fsanitize=thread",))
    st, e1, e2, e3 = parallel(lambda: explore(ck, "CppCallback", {"MaxId": 4 if ck.quick else 5, "MaxCnt": mc}, ["TypeOK", "NeverDangling", "NoLeak", "OneOwner", "Borrowed"], ["CalledAlive"], view="view"),
                              mk("std17"), mk("boost"), mkt)
    ck.add_tlc(st)
    g = Graph(st["edges"], st["init"])
    ck.log("model explored (%d transitions), drivers built" % g.n)
    for cfg, exe, env_ in (("std17", e1, {}), ("boost", e2, {}), ("std17-tsan", e3, {"TSAN_OPTIONS": "exitcode=66 halt_on_error=1"})):
        walks = g.tours(ck.rng, maxlen=200)
        if not ck.quick:
            walks += g.random_walks(ck.rng, 400, 300)
        n0 = ck.cov.get("replayed_steps", 0)
        replay_cmp(ck, [exe], walks, cbk_line, CallbackCompare, "callbacks (%s)" % cfg, n=8, extra_env=env_, timeout=600)
        ck.log("%s: %d transitions, %d left, %d steps" % (cfg, g.n, g.uncovered, ck.cov["replayed_steps"] - n0))
        ck.cov.setdefault("transitions_replayed", {})[cfg] = [g.n - g.uncovered, g.n]
        for w in walks[:1]:
            ck.sample({"history": [cbk_line(a) for a, s in w[:15]]})
        if ck.violations:
            break


# ------------------------------------------------------------------------------------------------ C15: smart pointers
class PtrCompare:
    """SmartPtr.tla: object identity, values through every handle, counts and locks; share: class a has counts."""
    def __init__(self, kinds):
        self.kinds = kinds

    def start(self):
        self.map, self.gone = {}, set()

    def step(self, a, st, obs):
        if obs["bad"]:
            return "; ".join(obs["bad"])
        if "err" in obs:
            raise ToolError(obs["err"])
        if obs.get("msg"):
            return obs["msg"]
        if "ret" in a and obs["ret"] != a["ret"]:
            return "returned %s, specified %s" % (obs["ret"], a["ret"])
        m = dict(self.map)
        places = [("handle %d" % (i + 1), o, obs["h"][i]) for i, o in enumerate(st["h"])] + [("the pointer kept by Rust", st["kept"], obs["kept"])]
        for n, o, (ser, v) in places:
            if (o == 0) != (ser == 0):
                return "%s %s, specified the opposite" % (n, "is empty" if ser == 0 else "holds an object")
            if o == 0:
                continue
            if a.get("obj") == o and o not in m:
                if ser in m.values() or ser in self.gone:
                    return "%s holds an old object, specified a new one" % n
                m[o] = ser
            if m[o] != ser:
                return "%s holds another object than specified" % n
            if v != st["val"][o - 1]:
                return "%s sees value %s, specified %s" % (n, v, st["val"][o - 1])
        dead = sorted(m[o] for o in a["dead"] if o in m)
        if sorted(obs["drops"]) != dead:
            return "objects %s dropped, specified %s" % (sorted(obs["drops"]), dead)
        for o in a["dead"]:
            self.gone.add(m.pop(o, None))
        live = sorted(m.values())
        if sorted(obs["live"]) != live:
            return "live objects %s, specified %s" % (sorted(obs["live"]), live)
        pr = {p[0]: p for p in obs["probe"]}
        for o, ser in m.items():
            if ser not in pr:
                continue
            n = sum(1 for x in st["h"] if x == o) + (st["kept"] == o)
            _, strong, weak, free = pr[ser]
            if strong != n or weak != 0:
                return "object %d has count %d (weak %d), %d owners exist" % (ser, strong, weak, n)
            if not free:
                return "the lock of object %d is still held after the call" % ser
        self.map = m
        return None


def ptr_line(a):
    return "%s %s %s %s %s" % (a["op"], a.get("i", 0), a.get("j", 0), a.get("v", 0), a.get("how", "-"))


def ptr_models(ck, pairs, kindtab, maxid, tag="", optmoves=False):
    """One model per combination of (share, copy, cell) of the two classes."""
    def con(k):
        _, share, copy, cell = kindtab[k]
        return "[share |-> %s, copy |-> %s, cell |-> %s]" % (tla(share), tla(copy), tla(S(cell)))
    combos = {}
    for p in pairs:
        combos.setdefault((con(p[0]), con(p[1])), []).append(p)
    hs = "1..3"
    cls = '<<"a", "a", "b">>'
    names = list(combos)

    def ex(i):
        ka, kb = names[i]
        return lambda: explore(ck, "SmartPtr", {"Handles": hs, "Cls": cls, "Kind": '[c \\in {"a", "b"} |-> IF c = "a" THEN %s ELSE %s]' % (ka, kb), "MaxId": maxid, "V": "{0, 1}", "OptMoves": optmoves},
                               ["TypeOK", "NoDangling", "NoLeak", "OneClass", "Unshared"], ["Local"], view="view", tag="%s-%d" % (tag, i), mem="2g")
    sts = parallel(*[ex(i) for i in range(len(names))])
    res = {}
    for n, st in zip(names, sts):
        ck.add_tlc(st)
        g = Graph(st["edges"], st["init"])
        for p in combos[n]:
            res[p] = g
    return res


def sp_build(ck, cfg, kinds):
    import spfix as sp
    opts, flags = ANY[cfg]
    d = gen_cpp(ck, "sp", "-" + cfg, opts, text=sp.description(kinds))
    rust_lib(ck, d, "sp", text=sp.rust(kinds))
    write(os.path.join(d, "sp_includes.hpp"), "".join('#include "%s.hpp"\n' % c for c in ["NCb"] + [sp.cname(k) for k in kinds]))
    b = lambda k: "true" if sp.KIND[k][2] else "false"
    write(os.path.join(d, "sp_cases.inc"), "".join("    case %d: return run<%s, %s, %s, %s>();\n" % (
        i, sp.cname(k), sp.cname(kinds[i + 1]), b(k), b(kinds[i + 1])) for i, k in enumerate(kinds[:-1])))
    return cpp_driver(ck, d, "sp", flags=list(flags) + ["-DOPT=%s::optional" % ("boost" if cfg == "boost" else "std")])


def c15(ck):
    import spfix as sp
    build_vgen(ck)
    kinds = ["plain", "rc", "mutex", "arcmutex", "box", "rcref", "refcell", "arc", "dyn", "rcmutex", "plainz"]
    pairs = [(k, kinds[i + 1]) for i, k in enumerate(kinds[:-1])]
    graphs, e1, e2 = parallel(lambda: ptr_models(ck, pairs, sp.KIND, 3 if ck.quick else 4), lambda: sp_build(ck, "std17", kinds), lambda: sp_build(ck, "boost", kinds))
    ck.log("models explored, drivers built")
    for cfg, exe in (("std17", e1), ("boost", e2)):
        for i, p in enumerate(pairs):
            g = graphs[p]
            walks = g.tours(ck.rng, maxlen=120, limit=None if cfg == "std17" or not ck.quick else 3000)
            unc = g.uncovered
            if not ck.quick:
                walks += g.random_walks(ck.rng, 300, 200)
            n0 = ck.cov.get("replayed_steps", 0)
            replay_cmp(ck, [exe, str(i)], walks, ptr_line, lambda: PtrCompare(p), "classes %s and %s (%s)" % (*p, cfg), n=8)
            ck.log("%s/%s %s: %d transitions, %d left, %d steps" % (*p, cfg, g.n, unc, ck.cov["replayed_steps"] - n0))
            ck.cov.setdefault("transitions_replayed", {})["%s/%s-%s" % (*p, cfg)] = [g.n - unc, g.n]
            if i < 4:
                ck.sample({"classes": p, "history": [ptr_line(a) for a, s in walks[0][:12]]})
            if ck.violations:
                return


CHECKS = {"C10": c10, "C11": c11, "C12": c12, "C13": c13, "C14": c14, "C15": c15}
