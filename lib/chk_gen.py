"""Checks on the generator itself (G01..G08), driven through flapigen's public Generator API (harness/gen)."""
import hashlib, json, os, queue, random, re, shutil, subprocess, sys, threading, time
from vf import *
sys.path.insert(0, os.path.join(VERIF, "harness", "common"))
import badfix

VGEN = os.path.join(BUILD, "target", "debug", "vgen")
T0 = 1_000_000_000  # mtime given to every file before a run


def build_vgen(ck):
    with Lock("vgen"):
        p = cargo(["build"], "gen")
    if p.returncode != 0:
        raise ToolError("vgen does not build:\n" + p.stderr[-3000:])
    ck.log("vgen built")


class Gen:
    """One vgen process."""
    def __init__(self, cwd=None, err=False, extra_env=None):
        self.cwd, self.err, self.env = cwd, err, dict(env(), **(extra_env or {}))
        self.start()

    def start(self):
        self.p = subprocess.Popen([VGEN], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=None if self.err else subprocess.DEVNULL, env=self.env, cwd=self.cwd)

    def __call__(self, timeout=300, **req):
        for r in req.get("both", [req]):
            r.setdefault("pkg", "com.example" if r["lang"] == "java" else "org_examples")
        self.p.stdin.write((json.dumps(req) + "\n").encode())
        self.p.stdin.flush()
        t = threading.Timer(timeout, self.p.kill)
        t.start()
        try:
            for raw in self.p.stdout:
                if raw.startswith(b"@"):
                    return json.loads(raw[1:])
        finally:
            t.cancel()
        rc = self.p.wait()
        self.start()
        return {"ok": False, "panic": "", "calls": [], "died": rc}

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(10)
        except Exception:
            self.p.kill()


def workdir(ck, name):
    d = os.path.join(BUILD, "work", ck.pid + "-" + name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        f.write(s)
    return p


def tree(d):
    r = {}
    for base, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(base, f)
            with open(p, "rb") as h:
                r[os.path.relpath(p, d)] = h.read()
    return r


def par(n, fn):
    """Run fn(i) for i in range(n) in threads; re-raise the first exception."""
    errs = []

    def w(i):
        try:
            fn(i)
        except BaseException as e:
            errs.append(e)
    ts = [threading.Thread(target=w, args=(i,)) for i in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise errs[0]


# ------------------------------------------------------------------------------------------------ G01 / G02: FileSync
SC_DOC = "\n".join("    /// Line %d of a comment that makes the generated file longer than one block of any buffer." % i for i in range(120)) + "\n"
SC_A1 = """
foreign_class!(
""" + SC_DOC + """class Alpha {
    self_type Alpha;
    constructor Alpha::new(x: i32) -> Alpha;
    fn Alpha::get(&self) -> i32;
});
"""
SC_A2 = """
foreign_class!(
""" + SC_DOC + """class Alpha {
    self_type Alpha;
    constructor Alpha::new(x: i32) -> Alpha;
    fn Alpha::get(&self) -> i32;
    fn Alpha::set(&mut self, v: i32);
});
"""
SC_A3 = """
foreign_class!(class Alpha {
    self_type Alpha;
    constructor Alpha::new(x: i64) -> Alpha;
});
"""
SC_B = """
foreign_class!(class Beta {
    fn beta_f(a: i32, b: f64) -> f64;
});
"""
SC_COLOR = """
foreign_enum!(enum Color { Red = Color::Red, Blue = Color::Blue, });
"""
SC_CB = """
foreign_callback!(callback Watcher {
    self_type Watcher;
    onEvent = Watcher::on_event(&self, x: i32);
});
"""
SC_BROKEN = """
foreign_class!(class Broken {
    fn broken_f(a: NoSuchType);
});
"""
SC_SYNTAX = """
foreign_class!(class Broken {
    fn broken_f(a: i32
});
"""
FS_DESCS = {
    "java": [SC_A1 + SC_COLOR, SC_A2 + SC_B, SC_A1 + SC_CB, SC_A3 + SC_BROKEN, SC_SYNTAX],
    "cpp": [SC_A1 + SC_COLOR, SC_A2 + SC_B, SC_A1 + SC_CB, SC_A3 + SC_BROKEN, SC_SYNTAX],
    "python": [SC_A1 + SC_COLOR, SC_A2 + SC_B, SC_A1, SC_A3 + SC_BROKEN, SC_SYNTAX],
}
FS_BAD = [4, 5]
FS_USER = {
    "java": [("out/Stale.java", True), ("out/note.txt", False), ("out/Tool.java2", False), ("out/Alpha.javac", False), ("out/Alpha.java.orig", False),
             ("out/Alpha.JAVA", False), ("out/java", False), ("out/Alpha_java", False), ("out/Alpha.jav", False), ("out/Alpha.java~", False), ("out/.java", False), ("out/sub/Alpha.java", False), ("out/Alpha.hpp", False)],
    "cpp": [("out/Stale.hpp", True), ("out/old_c.h", True), ("out/sub/Alpha.hpp", False), ("out/note.txt", False), ("out/Stale.java", False),
            ("out/Alpha.hpp.orig", False), ("out/Alpha.hh", False), ("out/Alpha.hxx", False), ("out/Alpha.hpp2", False), ("out/Alpha.cpp", False),
            ("out/Alpha.c", False), ("out/h", False), ("out/hpp", False), ("out/Alpha.h~", False), ("out/Alpha.HPP", False), ("out/Alpha_hpp", False), ("out/.hpp", False)],
    "python": [("out/Stale.py", False), ("out/Stale.java", False), ("out/Stale.hpp", False)],
}
KINDS = ["other", "late", "middle", "early", "append", "cut", "empty", "half", "crlf", "space", "double"]
USER = b"user content\n"


def exts_of(lang):
    return {"java": (".java",), "cpp": (".h", ".hpp"), "python": ()}[lang]


class FsBox:
    """One directory pair + one generator: executes the FileSync actions and reports what changed."""
    def __init__(self, root, lang, descs, cls, opts=None, extra=None, nofmt=()):
        self.root, self.lang, self.descs, self.cls, self.opts, self.extra = root, lang, descs, cls, opts or {}, extra or {}
        self.g = Gen()
        self.nofmt = nofmt     # descriptions for which rustfmt cannot be run
        self.g2 = Gen(extra_env={"PATH": "/nonexistent"}) if nofmt else None

    def close(self):
        self.g.close()
        if self.g2:
            self.g2.close()

    def reset(self):
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(os.path.join(self.root, "out"))
        os.makedirs(os.path.join(self.root, "rs"))

    def p(self, f):
        return os.path.join(self.root, f)

    def snapshot(self):
        r = {}
        for f, c in tree(self.root).items():
            r[f] = self.cls(f, c)
        return r

    def run(self, d, rm):
        for f in tree(self.root):
            os.utime(self.p(f), (T0, T0))
        before = tree(self.root)
        g = self.g2 if d in self.nofmt else self.g
        a = g(lang=self.lang, out=self.p("out"), dst=self.p("rs/glue.rs"), srcs=[self.descs[d - 1]], remove=rm,
              opts=self.opts, **self.extra)
        after = tree(self.root)
        wr = sorted(f for f in after if os.stat(self.p(f)).st_mtime != T0)
        return {"ok": a["ok"], "written": wr, "disk": {f: self.cls(f, c) for f, c in after.items()}, "panic": a["panic"][:300],
                "gone": sorted(set(before) - set(after))}


def edited(c, kind):
    """The bytes c of a file after a hand edit of the given kind."""
    n = len(c)

    def flip(i):
        i = min(max(i, 0), n - 1)
        return c[:i] + (b"#" if c[i:i + 1] != b"#" else b"%") + c[i + 1:]
    return {"other": lambda: b"// edited by hand\n", "late": lambda: flip(n - 2), "middle": lambda: flip(n * 3 // 4), "early": lambda: flip(1),
            "append": lambda: c + b"\n", "cut": lambda: c[:-1], "empty": lambda: b"", "half": lambda: c[:n // 2], "crlf": lambda: c.replace(b"\n", b"\r\n"),
            "space": lambda: b" " + c, "double": lambda: c + c}[kind]()


def filesync(ck, lang, fail_mode, budget, workers, max_env=1, opts=None, extra=None, tag=""):
    wd = workdir(ck, "fs-" + lang + tag)
    texts = FS_DESCS[lang]
    fsbad, nofmt = list(FS_BAD), ()
    if extra and extra.get("rustfmt"):
        # a good description for which rustfmt cannot be run: the run fails after the foreign files were generated
        texts = texts + [texts[1]]
        fsbad.append(len(texts))
        nofmt = (len(texts),)
    descs = [write(os.path.join(wd, "src", "d%d.rs.in" % i), s) for i, s in enumerate(texts)]
    classes = {}
    lock = threading.Lock()
    edits = set()

    def cls(f, c):
        if (f, c) in edits:
            return 1000
        if c == USER:
            return 1001
        with lock:
            return classes.setdefault((f, c), len([1 for k in classes if k[0] == f]) + 1)
    # the table: what each description gives in an empty directory
    box = FsBox(os.path.join(wd, "fresh"), lang, descs, cls, opts, extra, nofmt)
    outs = []
    for d in range(1, len(descs) + 1):
        box.reset()
        o = box.run(d, False)
        if d in fsbad:
            if o["ok"]:
                ck.violation("an invalid description was accepted (%s description %d)" % (lang, d), {"lang": lang, "description": texts[d - 1]})
                return
            if "rs/glue.rs" in o["disk"]:
                ck.violation("a failing run created the Rust destination file (%s description %d)" % (lang, d), {"lang": lang, "description": texts[d - 1], "obs": o})
                return
        elif not o["ok"]:
            raise BuildBroken("%s generation of description %d" % (lang, d), o["panic"])
        outs.append(o["disk"])
    box.close()
    allf = sorted(set(f for o in outs for f in o))
    good = [i for i in range(len(outs)) if i + 1 not in fsbad]
    # Files that no environment step touches and that have the same presence/content pattern behave alike: one model
    # file stands for the group, every member is compared.
    editable = [f for f in allf if f in ("rs/glue.rs", "out/Alpha.java", "out/Alpha.hpp")]
    groups = {}
    for f in allf:
        pat = tuple(o.get(f, 0) for o in outs)
        inext = os.path.dirname(f) == "out" and f.endswith(exts_of(lang))
        groups.setdefault((f if f in editable else "", pat, inext), []).append(f)
    members = {fs[0]: fs for fs in groups.values()}
    for inext in (True, False):
        us = [u for u, e in FS_USER[lang] if e == inext]
        if us:
            members[us[0]] = us
    users = [u for u in members if u in [x for x, _ in FS_USER[lang]]]
    files = sorted(members)
    every = sorted(f for fs in members.values() for f in fs)
    genext = [f for f in files if os.path.dirname(f) == "out" and f.endswith(exts_of(lang))]
    table = [{S(f): o.get(f, 0) for f in files} for o in outs]
    st = explore(ck, "FileSync", {"Out": table, "Files": set(S(f) for f in files), "GenExt": set(S(f) for f in genext),
                                  "Editable": set(S(f) for f in editable), "UserFiles": set(S(u) for u in users), "MaxEnv": max_env,
                                  "Kinds": {S(k) for k in KINDS}, "Dst": S("rs/glue.rs"), "Bad": set(fsbad) - set(nofmt), "EnvBad": set(nofmt)},
                 invariants=["TypeOK"], properties=["Synced", "NoRewrite", "DeleteScope", "Idempotent", "FailKeeps"], view="view", tag="-" + lang + tag)
    ck.add_tlc(st)
    g = Graph(st["edges"], st["init"])

    def inp(a):
        return (a["op"], a.get("d", 0), a.get("rm", False), a.get("f", ""), a.get("k", ""))
    on = Online(g, inp)
    deadline = time.time() + budget
    ck.log("FileSync %s%s: %d states, %d inputs" % (lang, tag, len(g.out), on.total))

    def worker(i):
        rng = random.Random(ck.seed * 77 + i)
        b = FsBox(os.path.join(wd, "w%d" % i), lang, descs, cls, opts, extra, nofmt)

        def execute(inp_, a):
            if inp_ is None:
                b.reset()
                return None
            op, d, rm, f, k = inp_
            if op == "run":
                return b.run(d, rm)
            for m in members[f]:
                p = b.p(m)
                if op == "rm":
                    os.remove(p)
                else:
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    c = USER
                    if op == "edit":
                        with open(p, "rb") as h:
                            c = edited(h.read(), k)
                        while (m, c) in classes:
                            c += b"\n"
                        edits.add((m, c))
                    with open(p, "wb") as h:
                        h.write(c)
            return {"disk": b.snapshot()}

        def matches(a, t, o):
            exp = {m: t["disk"][f] for f in files for m in members[f]}
            for f in sorted(set(every) | set(o["disk"])):
                if o["disk"].get(f, 0) != exp.get(f, 0):
                    return "file %s has content class %s, expected %s" % (f, o["disk"].get(f, 0), exp.get(f, 0))
            if a["op"] == "run":
                if o["ok"] != a["ok"]:
                    return "run ok=%s, expected %s (%s)" % (o["ok"], a["ok"], o["panic"][:200])
                w = sorted(m for f in a["written"] for m in members[f])
                if o["written"] != w:
                    return "written files %s, expected %s" % (o["written"], w)
            return None

        def bad(msg, hist, exp, obs):
            ck.violation("%s output tree: %s" % (lang, msg), {"lang": lang, "descriptions": texts, "history": hist, "expected": exp, "observed": obs})
        k = on.walk(rng, execute, matches, bad, deadline=deadline, restart_every=400)
        b.close()
        return k
    par(workers, worker)
    ck.cov["replayed_steps"] = ck.cov.get("replayed_steps", 0) + on.steps
    ck.cov["traces_validated_against_impl"] += workers
    ck.cov.setdefault("inputs_covered", {})[lang + tag] = "%d of %d" % (on.total - on.left(), on.total)
    ck.sample({"lang": lang, "outputs_of_description_1": outs[0]})
    if outs and on.steps == 0:
        raise ToolError("nothing replayed")
    shutil.rmtree(wd, ignore_errors=True)


def g01(ck):
    build_vgen(ck)
    q = ck.quick
    for lang in ("java", "cpp", "python"):
        filesync(ck, lang, False, {"java": 14, "cpp": 14, "python": 8}[lang] if q else 300, 8, max_env=1 if q else 2)
    filesync(ck, "java", False, 6 if q else 150, 8, max_env=1, extra={"rustfmt": True}, tag="-fmt")
    if not q:
        filesync(ck, "cpp", False, 200, 8, opts={"sep": True, "boost": True}, tag="-sep")



# ------------------------------------------------------------------------------------------------ G02: refusal
def render_accept(d, lang):
    """Source text of a description of spec/Accept.tla."""
    ret = {"unknownRet": "NoSuchType"}.get(d["ty"], "i32")
    t = {"unknownArg": "NoSuchType", "undeclared": "&Undeclared", "unknownVec": "Vec<NoSuchType>", "unknownOpt": "Option<NoSuchType>"}.get(d["ty"], "i32")
    args = {"named": "a: %s, b: i32", "dup": "a: %s, a: i32", "this": "a: %s, this: i32", "unnamed": "_: %s, b: i32", "pattern": "a: %s, (b, c): i32"}[d["arg"]] % t
    recv = {"ref": "&self, ", "mut": "&mut self, "}.get(d["meth"], "")
    L = []
    if d["self"] == "plain":
        L.append("self_type Thing;")
    alias = " alias other;" if d["form"] == "ctorAlias" else ""
    L += {"one": ["constructor Thing::new(x: i32) -> Thing;" + alias], "none": [],
          "two": ["constructor Thing::new(x: i32) -> Thing;" + alias, "constructor Thing::new2(x: f64) -> Thing;"],
          "twoDiff": ["constructor Thing::new(x: i32) -> Thing;" + alias, "constructor Thing::new2(x: f64) -> Rc<Thing>;"],
          "empty": ["private constructor = empty;" + alias], "emptyPublic": ["constructor = empty;" + alias],
          "emptyThenOne": ["private constructor = empty;", "constructor Thing::new(x: i32) -> Thing;" + alias],
          "noRet": ["constructor Thing::new(x: i32);" + alias], "withSelf": ["constructor Thing::new(&self, x: i32) -> Thing;" + alias]}[d["ctor"]]
    if d["form"] == "ctorAlias" and d["ctor"] == "none":
        L.append("constructor Thing::new(x: i32) -> Thing; alias other;")
    if d["meth"] != "none":
        attr = {"none": "", "unknown": "#[unknown_attr] ", "registered": "#[reg_attr] "}[d["attr"]]
        sig = "fn Thing::m(%s%s) -> %s" % (recv, args, ret)
        L.append(attr + {"path": sig + ";", "pathAlias": sig + "; alias mm;", "ctorAlias": sig + ";", "inline": sig + " { a + b }",
                         "inlineAlias": sig + " { a + b } alias mm;", "noSemi": sig, "badKeyword": "func" + sig[2:] + ";"}[d["form"]])
    if d["derive"] == "CopyClone":
        L.append("fn Thing::clone(&self) -> Thing;")
    der = {"none": "", "Clone": "#[derive(Clone)]\n", "Copy": "#[derive(Copy)]\n", "CopyClone": "#[derive(Copy, Clone)]\n", "Smart": "#[derive(SmartPtrCopy)]\n",
           "Unknown": "#[derive(NoSuchDerive)]\n", "Camel": "#[derive(camelCaseAliases)]\n", "Registered": "#[derive(RegDerive)]\n"}[d["derive"]]
    cls = "foreign_class!(%sclass Thing {\n    %s\n});\n" % (der, "\n    ".join(L))
    cb = "foreign_callback!(callback Cb {\n %s\n});\n"
    item = {"none": "", "enum": "foreign_enum!(enum En { A = En::A, B = En::B, });\n", "enumNoComma": "foreign_enum!(enum En { A = En::A, B = En::B });\n",
            "cb": cb % "self_type Tr; onA = Tr::on_a(&self, x: i32);", "cbNoSelf": cb % "onA = Tr::on_a(&self, x: i32);",
            "cbNoRecv": cb % "self_type Tr; onA = Tr::on_a(x: i32);", "cbSend": cb % "self_type Tr + Send; onA = Tr::on_a(&self, x: i32);",
            "cbBadBound": cb % "self_type Tr + Debug; onA = Tr::on_a(&self, x: i32);", "cbUnknownTy": cb % "self_type Tr; onA = Tr::on_a(&self, x: NoSuchType);",
            "emptyClass": "foreign_class!();\n", "emptyEnum": "foreign_enum!();\n", "emptyTypemap": "foreign_typemap!();\n",
            "syntax": "fn broken( { \n", "typemapNoVar": "foreign_typemap!( (r_type) Foo1 => i32 { $out = 1; }; );\n",
            "typemapNoRule": "foreign_typemap!( nonsense );\n", "enumUnknownDerive": "foreign_enum!(#[derive(NoSuch)] enum En { A = En::A, B = En::B, });\n"}[d["item"]]
    if d["extra"] != "none":
        item += badfix.text(d["extra"], lang)
    return (item + cls) if d["pos"] == "first" else (cls + item)


def g02(ck):
    build_vgen(ck)
    langs = ["java", "cpp", "python"]
    descs, st = enumerate_states(ck, "Accept", {"Langs": {S(l) for l in langs}, "MaxDev": 2 if ck.quick else 3, "ExtraDev": 1 if ck.quick else 2}, ["TypeOK", "Sane"])
    ck.add_tlc(st)
    wd = workdir(ck, "acc")
    jobs = [(l, x["d"], x["v"][l]) for x in descs for l in langs if x["v"][l] != "open"]
    ck.rng.shuffle(jobs)
    singles = [j for j in jobs if sum(1 for k in j[1] if j[1][k] != PLAIN[k]) <= 1]
    jobs = singles + [j for j in jobs if j not in singles]
    deadline = time.time() + (24 if ck.quick else 500)
    q = queue.Queue()
    [q.put(j) for j in jobs]
    stats = {"refuse": 0, "accept": 0, "accepted_but_refused_by_generator": 0}
    lk = threading.Lock()

    def worker(i):
        g = Gen()
        state = {}
        for l in langs:
            root = os.path.join(wd, "w%d-%s" % (i, l))
            os.makedirs(os.path.join(root, "out"))
            good = write(os.path.join(root, "good.rs.in"), SC_A1 + SC_COLOR)
            a = g(lang=l, out=root + "/out", dst=root + "/glue.rs", srcs=[good], remove=False)
            if not a["ok"]:
                raise BuildBroken("good description (%s)" % l, a["panic"])
            for n in ("Stale.java", "stale.hpp", "stale.h"):
                write(os.path.join(root, "out", n), "stale")
            for f in tree(root):
                os.utime(os.path.join(root, f), (T0, T0))
            state[l] = (root, tree(root), good)
        while time.time() < deadline or not done_singles():
            try:
                l, d, v = q.get_nowait()
            except queue.Empty:
                break
            root, before, good = state[l]
            src = render_accept(d, l)
            alpha = "foreign_class!(class Prev {\n    fn prev_f(a: i32) -> i32;\n});\n"
            f = write(os.path.join(root, "try.rs.in"), alpha + src)
            if v == "accept":
                out2 = os.path.join(root, "acc")
                shutil.rmtree(out2, ignore_errors=True)
                os.makedirs(out2)
                a = g(lang=l, out=out2, dst=out2 + "/glue.rs", srcs=[f], remove=False, class_cbs=["RegDerive"] if l != "python" else [],
                      method_cbs=["reg_attr"] if l != "python" else [])
                shutil.rmtree(out2, ignore_errors=True)
                with lk:
                    stats["accept"] += 1
                    stats["accepted_but_refused_by_generator"] += 0 if a["ok"] else 1
                continue
            fault = d["fault"]
            if fault == "sourceNotUtf8":
                with open(f, "ab") as h:
                    h.write(b"// \xff\xfe\n")
            a = g(lang=l, out=root + {"noOutDir": "/nodir", "outDirIsFile": "/good.rs.in"}.get(fault, "/out"),
                  dst=root + "/glue.rs",
                  srcs={"noSource": [root + "/absent.rs.in"], "secondSource": [f, root + "/absent.rs.in"]}.get(fault, [f]), remove=True, class_cbs=["RegDerive"] if l != "python" else [],
                  method_cbs=["reg_attr"] if l != "python" else [])
            os.remove(f)
            after = tree(root)
            dev = {k: d[k] for k in d if d[k] != PLAIN[k]}
            rep = {"lang": l, "description": d, "source": alpha + src, "answer": a["panic"][:400]}
            if a.get("died") is not None:
                ck.violation("%s: the generator process died (%s) on the invalid description %s instead of reporting" % (l, a["died"], dev), rep, "died:%s:%s" % (l, json.dumps(dev, sort_keys=True)))
            elif a["ok"]:
                ck.violation("%s: the invalid description %s was accepted" % (l, dev), rep, "accepted:%s:%s" % (l, json.dumps(dev, sort_keys=True)))
            elif not a["panic"].strip():
                ck.violation("%s: refusal of %s carries no diagnostic" % (l, dev), rep)
            gone = sorted(set(before) - set(after))
            if gone:
                ck.violation("%s: the failing run on %s deleted %s" % (l, dev, gone), rep)
            if after.get("glue.rs") != before["glue.rs"] or os.stat(root + "/glue.rs").st_mtime != T0:
                ck.violation("%s: the failing run on %s touched the Rust destination file" % (l, dev), rep)
            with lk:
                stats["refuse"] += 1
            # back to the previous good result: extra files go, the later good run gives the old outputs again
            for n in set(after) - set(before):
                os.remove(os.path.join(root, n))
            if stats["refuse"] % 7 == 0 or gone or a["ok"] or after.get("glue.rs") != before["glue.rs"]:
                g(lang=l, out=root + "/out", dst=root + "/glue.rs", srcs=[good], remove=False)
                now = tree(root)
                bad = [n for n in before if now.get(n) != before[n] and not n.startswith("out/Stale") and not n.startswith("out/stale")]
                if bad:
                    ck.violation("%s: a good run after the failed one on %s gives different files %s" % (l, dev, bad), rep)
                for n, c in before.items():
                    with open(os.path.join(root, n), "wb") as h:
                        h.write(c)
                for n in tree(root):
                    os.utime(os.path.join(root, n), (T0, T0))
            if len(ck.violations) > 5:
                break
        g.close()
    nsing = len(singles)

    def done_singles():
        return stats["refuse"] + stats["accept"] >= nsing
    par(8, worker)
    ck.cov["descriptions"] = dict(stats, enumerated=len(jobs))
    ck.cov["traces_validated_against_impl"] += stats["refuse"] + stats["accept"]
    if stats["accept"] == 0 or stats["accepted_but_refused_by_generator"] * 2 > stats["accept"]:
        raise BuildBroken("most correct descriptions are refused", json.dumps(stats))
    ck.sample(render_accept(descs[len(descs) // 2]["d"], "java"))
    shutil.rmtree(wd, ignore_errors=True)
    # histories in which failing runs alternate with good ones and with edits
    for lang in ("java", "cpp"):
        filesync(ck, lang, True, 6 if ck.quick else 120, 8, max_env=0 if ck.quick else 1, tag="-fail")
    for lang in ("java", "cpp", "python"):
        filesync(ck, lang, True, 4 if ck.quick else 60, 8, max_env=0, extra={"rustfmt": True}, tag="-fmt")



# ------------------------------------------------------------------------------------------------ G06: attribute callbacks
ATTR_ITEMS = [{"item": "K1", "kind": "class", "methods": ["K1new", "m1", "aliased"]}, {"item": "E1", "kind": "enum", "methods": []},
              {"item": "K2", "kind": "class", "methods": ["s1"]}]


def render_attrs(uses, extra_derive=""):
    at = {}
    for u in uses:
        at.setdefault((u["item"], u["method"]), []).append(u["attr"])

    def der(item, fixed=()):
        l = list(fixed) + at.get((item, ""), [])
        return "#[derive(%s)]\n" % ", ".join(l) if l else ""

    def ma(item, m):
        return "".join("#[%s] " % a for a in at.get((item, m), []))
    return """
foreign_class!(%sclass K1 {
    self_type K1;
    %sconstructor K1::new(x: i32) -> K1;
    %sfn K1::m1(&self, a: i32) -> i32;
    %sfn K1::m2(&mut self, a: i64); alias aliased;
});
foreign_enum!(%senum E1 { P = E1::P, Q = E1::Q, });
foreign_class!(%sclass K2 {
    %sfn s1(a: bool) -> bool;
});
""" % (der("K1", ["Clone"]), ma("K1", "K1new"), ma("K1", "m1"), ma("K1", "aliased"), der("E1"), der("K2"), ma("K2", "s1"))


CB_RE = re.compile(r"\n//CB:(\w+):(\w+):(\w+):(\w*)\n")
ATTR_FILES = {"java": {"K1": ["K1.java"], "E1": ["E1.java"], "K2": ["K2.java"]},
              "cpp": {"K1": ["K1.hpp"], "K2": ["K2.hpp"], "E1": ["c_E1.h", "E1.hpp"]}}


def g06(ck):
    build_vgen(ck)
    runs, st = enumerate_states(ck, "Attrs", {"Names": {S("X"), S("Y")}, "MaxUses": 2 if ck.quick else 3,
                                              "Items": [{"item": S(i["item"]), "kind": S(i["kind"]), "methods": [S(m) for m in i["methods"]]} for i in ATTR_ITEMS]},
                                ["ExactlyOnce", "OnlyRegistered", "RefusedIffUnknown"])
    ck.add_tlc(st)
    wd = workdir(ck, "attrs")
    langs = ("java", "cpp")
    base = {}
    g = Gen()
    for l in langs:
        o = os.path.join(wd, "base-" + l)
        os.makedirs(o)
        a = g(lang=l, out=o, dst=o + "/glue.rs", srcs=[write(os.path.join(wd, "base.rs.in"), render_attrs([]))])
        if not a["ok"]:
            raise BuildBroken("plain description (%s)" % l, a["panic"])
        base[l] = {n: c.decode() for n, c in tree(o).items()}
        for it, fs in ATTR_FILES[l].items():
            for f in fs:
                if f not in base[l]:
                    raise ToolError("no file %s; have %s" % (f, sorted(base[l])))
    g.close()
    uniq = {key(r): r for r in runs}
    jobs = [(l, r) for r in uniq.values() for l in langs]
    ck.rng.shuffle(jobs)
    jobs.sort(key=lambda j: len(j[1]["uses"]) > 1)   # single uses first
    deadline = time.time() + (25 if ck.quick else 500)
    q = queue.Queue()
    [q.put(j) for j in jobs]
    n = [0, 0]
    lk = threading.Lock()

    def worker(i):
        g = Gen()
        while time.time() < deadline and len(ck.violations) < 6:
            try:
                l, r = q.get_nowait()
            except queue.Empty:
                break
            o = os.path.join(wd, "w%d" % i)
            shutil.rmtree(o, ignore_errors=True)
            os.makedirs(o)
            src = write(os.path.join(wd, "w%d.rs.in" % i), render_attrs(r["uses"]))
            a = g(lang=l, out=o, dst=o + "/glue.rs", srcs=[src], class_cbs=r["reg"]["class"], enum_cbs=r["reg"]["enum"], method_cbs=r["reg"]["method"])
            rep = {"lang": l, "source": render_attrs(r["uses"]), "registered": r["reg"], "expected": {"ok": r["ok"], "calls": r["calls"]}, "observed": {"ok": a["ok"], "panic": a["panic"][:300], "calls": [{k: c[k] for k in c if k != "code"} for c in a["calls"]]}}
            with lk:
                n[0] += 1
            if a["ok"] != r["ok"]:
                ck.violation("%s: run %s although %s" % (l, "succeeded" if a["ok"] else "failed", "an attribute has no callback" if not r["ok"] else "every attribute has a callback"), rep)
                continue
            if not r["ok"]:
                continue
            files = tree(o)
            nf = {it: len(fs) for it, fs in ATTR_FILES[l].items()}
            exp = {}
            for c in r["calls"]:
                k = (c["kind"], c["attr"], c["item"], "new" if c["method"] == "K1new" else c["method"])
                exp[k] = exp.get(k, 0) + nf[c["item"]]
            got = {}
            for c in a["calls"]:
                k = (c["kind"], c["attr"], c["name"], c["method"])
                got[k] = got.get(k, 0) + 1
                v = {"new": "constructor", "m1": "method", "aliased": "method", "s1": "static"}.get(c["method"], "")
                if c["kind"] == "method" and c["variant"] != v:
                    ck.violation("%s: callback for %s got method variant %s" % (l, k, c["variant"]), rep)
            if exp != got:
                ck.violation("%s: callbacks %s, expected %s" % (l, got, exp), rep)
                continue
            # each call sees the complete code of its file with the additions of the calls before it
            seen = {}
            for c in a["calls"]:
                plain = CB_RE.sub("", c["code"])
                cand = [f for f in ATTR_FILES[l].get(c["name"], []) if base[l][f] == plain]
                if not cand:
                    ck.violation("%s: callback %s:%s on %s does not see the complete generated code" % (l, c["kind"], c["attr"], c["name"]), rep)
                    break
                f = cand[0]
                if [x for x in CB_RE.findall(c["code"])] != seen.get(f, []):
                    ck.violation("%s: callback on %s does not see the additions of earlier callbacks" % (l, f), rep)
                    break
                seen.setdefault(f, []).append((c["kind"], c["attr"], c["name"], c["method"]))
            else:
                for f, c in files.items():
                    if f.endswith(".rs"):
                        continue
                    c = c.decode()
                    if CB_RE.sub("", c) != base[l].get(f) or CB_RE.findall(c) != seen.get(f, []):
                        ck.violation("%s: file %s does not hold what the callbacks wrote" % (l, f), rep)
                        break
                with lk:
                    n[1] += len(a["calls"])
        g.close()
    par(8, worker)
    # registration itself
    g = Gen()
    src = write(os.path.join(wd, "plain.rs.in"), render_attrs([]))
    for l in langs:
        for what, kw in (("class name registered twice", {"class_cbs": ["X", "X"]}), ("enum name registered twice", {"enum_cbs": ["X", "X"]}),
                         ("method name registered twice", {"method_cbs": ["X", "X"]}),
                         *[("reserved class name %s" % r, {"class_cbs": [r]}) for r in ("Clone", "Copy", "SmartPtrCopy", "PlainClass", "camelCaseAliases")]):
            o = os.path.join(wd, "regs")
            shutil.rmtree(o, ignore_errors=True)
            os.makedirs(o)
            a = g(lang=l, out=o, dst=o + "/glue.rs", srcs=[src], **kw)
            n[0] += 1
            if a["ok"] or os.path.exists(o + "/glue.rs"):
                ck.violation("%s: %s was not refused" % (l, what), kw)
    g.close()
    ck.cov["traces_validated_against_impl"] += n[0]
    ck.cov["callback_invocations_checked"] = n[1]
    ck.cov["combinations"] = "%d of %d" % (n[0], len(jobs))
    ck.sample({"uses": jobs[-1][1]["uses"], "reg": jobs[-1][1]["reg"]})
    if n[1] == 0 and not ck.violations:
        raise ToolError("no callback observed")
    shutil.rmtree(wd, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ G04: conversion graphs
KNOWN = {"K1": "i32", "K2": "f64"}
CNV_RE = re.compile(r"\bcnv_([A-Za-z0-9]+)_to_([A-Za-z0-9]+)\s*\(")


def rtype(n):
    return KNOWN.get(n, n)


def conv_rules(edges, pfx, ret=True):
    """Rules for the graph in result direction (types T..) or mirrored for arguments (types U..)."""
    out = []
    for x, y in edges:
        if ret:
            a, b = [n if n in KNOWN else pfx + n for n in (x, y)]
            out.append("foreign_typemap!(($p:r_type) %s => %s { $out = cnv_%s_to_%s($p); };);\n" % (rtype(a), rtype(b), a, b))
        else:
            a, b = [n if n in KNOWN else pfx + n.replace("T", "U") for n in (y, x)]
            out.append("foreign_typemap!(($p:r_type) %s <= %s { $out = cnv_%s_to_%s($p); };);\n" % (rtype(b), rtype(a), a, b))
    return out


def fn_bodies(glue):
    """C name -> text of the exported function."""
    r = {}
    for part in re.split(r"#\s*\[\s*no_mangle\s*\]", glue)[1:]:
        m = re.search(r"\bfn\s+(\w+)", part)
        if m:
            r[m.group(1)] = part
    return r


def chain_problem(chain, start, known_end, dist, ret):
    """None if `chain` [(x,y)..] is a chain of `dist` steps between start and a known type."""
    for (a, b), (c, d) in zip(chain, chain[1:]):
        if b != c:
            return "steps %s do not follow each other" % (chain,)
    if len(chain) != dist:
        return "chain %s has %d steps, the shortest has %d" % (chain, len(chain), dist)
    if chain:
        a, b = (chain[0][0], chain[-1][1]) if ret else (chain[-1][1], chain[0][0])
        if a != start or b not in KNOWN:
            return "chain %s does not connect %s with a known type" % (chain, start)
    return None


def g04(ck):
    build_vgen(ck)
    wd = workdir(ck, "conv")
    T = ["T1", "T2", "T3"]
    full = [(a, b) for a in T for b in T + list(KNOWN) if a != b]
    models = [("small", T, full)]
    rng = random.Random(ck.seed * 31 + 4)
    for i in range(1 if ck.quick else 8):
        t = ["T%d" % k for k in range(1, 8)]
        # a long backbone, shortcuts, and back edges
        perm = t[:]
        rng.shuffle(perm)
        bb = list(zip(perm, perm[1:])) + [(perm[-1], "K1")]
        rest = [(a, b) for a in t for b in t + list(KNOWN) if a != b and (a, b) not in bb]
        models.append(("long%d" % i, t, bb + rng.sample(rest, 4 if ck.quick else 5)))
    jobs = []
    graphs = []
    for name, t, cand in models:
        ds, st = enumerate_states(ck, "ConvGraph", {"Types": set(map(S, t)), "Known": set(map(S, KNOWN)), "Cand": set((S(a), S(b)) for a, b in cand)},
                                  ["Witness", "Shortest", "Unreachable"], tag="-" + name)
        ck.add_tlc(st)
        graphs += [(name, d) for d in ds]
        ck.log("%s: %d graphs" % (name, len(ds)))
    order = list(range(len(graphs)))
    rng.shuffle(order)
    small = [i for i in order if graphs[i][0] == "small"]
    long_ = [i for i in order if graphs[i][0] != "small"]
    # interleave so that a budget cut leaves a sample of both
    order = [x for p in zip(small, long_) for x in p] + small[len(long_):] + long_[len(small):]
    q = queue.Queue()
    for i in order:
        for l in ("java", "cpp"):
            q.put((i, l))
    total = q.qsize()
    deadline = time.time() + (28 if ck.quick else 700)
    lk = threading.Lock()
    n = {"runs": 0, "queries": 0, "refusals": 0, "steps": 0, "longest": 0}

    def worker(w):
        g = Gen()
        out = os.path.join(wd, "w%d" % w)
        src = out + ".rs.in"
        r = random.Random(ck.seed * 97 + w)

        def run(lang, decls, rules):
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            rules = rules[:]
            r.shuffle(rules)
            k = r.randrange(len(rules) + 1)
            body = "foreign_class!(class Q {\n%s});\n" % "".join("    fn %s;\n" % d for d in decls)
            write(src, "".join(rules[k:]) + body)
            a = g(lang=lang, out=out, dst=out + "/glue.rs", srcs=[src], maps=[["user_rules", "".join(rules[:k])]] if k else [])
            return a, "// merge_type_map:\n" + "".join(rules[:k]) + "// description:\n" + "".join(rules[k:]) + body
        while time.time() < deadline and len(ck.violations) < 6:
            try:
                i, lang = q.get_nowait()
            except queue.Empty:
                break
            name, d = graphs[i]
            edges = [tuple(e) for e in d["g"]]
            dist = {t: v for t, v in d["d"].items() if t not in KNOWN}
            good = [t for t in dist if dist[t] != 99]
            bad = [t for t in dist if dist[t] == 99]
            rules = conv_rules(edges, "", True) + conv_rules(edges, "", False)
            if good:
                decls = ["r_%s() -> %s" % (t, t) for t in good] + ["a_%s(a: %s)" % (t, t.replace("T", "U")) for t in good]
                decls.append("b_b(a: %s, b: bool, c: %s) -> %s" % (good[0].replace("T", "U"), good[-1].replace("T", "U"), good[0]))
                r.shuffle(decls)
                a, text = run(lang, decls, rules)
                rep = {"lang": lang, "source": text, "distances": dist}
                with lk:
                    n["runs"] += 1
                if not a["ok"]:
                    ck.violation("%s: rules %s connect %s, but generation is refused: %s" % (lang, edges, good, a["panic"][-300:]), rep)
                    continue
                with open(out + "/glue.rs") as f:
                    bodies = fn_bodies(f.read())
                for dcl in decls:
                    fn = dcl.split("(")[0]
                    exported = ("Q_" + fn) if lang == "cpp" else "Java_com_example_Q_" + fn.replace("_", "_1")
                    if exported not in bodies:
                        cands = [k for k in bodies if k.endswith(fn) or k.endswith(fn.replace("_", "_1"))]
                        if len(cands) != 1:
                            raise ToolError("no exported function for %s among %s" % (fn, sorted(bodies)[:50]))
                        exported = cands[0]
                    steps = CNV_RE.findall(bodies[exported])
                    call = re.search(r"(?<!fn )\b%s\s*\(" % fn, bodies[exported])
                    if not call:
                        raise ToolError("no call of %s in %s" % (fn, bodies[exported][:500]))
                    if fn.startswith("r_"):
                        parts = [(steps, fn[2:], True)]
                    elif fn.startswith("a_"):
                        parts = [(steps, fn[2:].replace("T", "U"), False)]
                    else:
                        before = CNV_RE.findall(bodies[exported][:call.start()])
                        after = CNV_RE.findall(bodies[exported][call.start():])
                        k = dist[good[0]]
                        parts = [(before[:k], good[0].replace("T", "U"), False), (before[k:], good[-1].replace("T", "U"), False), (after, good[0], True)]
                    for ch, start, ret in parts:
                        m = chain_problem(ch, start, KNOWN, dist[start.replace("U", "T")], ret)
                        if m:
                            ck.violation("%s: %s of %s: %s" % (lang, "result" if ret else "argument", start, m), dict(rep, function=bodies[exported][:1500]))
                        with lk:
                            n["queries"] += 1
                            n["steps"] += len(ch)
                            n["longest"] = max(n["longest"], len(ch))
            # a refusal costs a search over all generic rules: most of the budget goes to the chains
            picks = bad if not ck.quick else ([r.choice(bad)] if bad and r.random() < 0.1 else [])
            for t in picks:
                for dcl in (["u() -> %s" % t, "u(a: %s)" % t.replace("T", "U")] if not ck.quick else [r.choice(["u() -> %s" % t, "u(a: %s)" % t.replace("T", "U")])]):
                    a, text = run(lang, [dcl], rules)
                    with lk:
                        n["refusals"] += 1
                    if a["ok"]:
                        ck.violation("%s: no chain for %s with rules %s, but generation succeeded" % (lang, dcl, edges), {"lang": lang, "source": text})
        g.close()
    par(8, worker)
    ck.cov["graph_runs"] = "%d of %d" % (total - q.qsize(), total)
    ck.cov["conversions"] = n
    ck.cov["traces_validated_against_impl"] += n["queries"] + n["refusals"]
    if not ck.violations and (n["queries"] < 100 or n["longest"] < 4):
        raise ToolError("too little exercised: %s" % n)
    g04_generic(ck, wd, 14 if ck.quick else 200)
    g04_executed(ck, wd, [graphs[i][1] for i in order[:120 if ck.quick else 600]])
    shutil.rmtree(wd, ignore_errors=True)


def gen_rules(d, ret):
    """Rules of a graph of spec/ConvGen.tla, in result direction or mirrored for arguments (families V.. for W..)."""
    out = []

    def ty(n):
        if n in KNOWN:
            return KNOWN[n]
        w, p = n.split("x")
        return "%s<%s>" % (w if ret else w.replace("W", "V"), p)

    def nm(n):
        return n if n in KNOWN or ret else n.replace("W", "V")
    for a, b in d["gg"]:
        if ret:
            out.append("foreign_typemap!(($p:r_type) <T> %s<T> => %s<T> { $out = gnv_%s_to_%s($p); };);\n" % (a, b, a, b))
        else:
            a, b = a.replace("W", "V"), b.replace("W", "V")
            out.append("foreign_typemap!(($p:r_type) <T> %s<T> <= %s<T> { $out = gnv_%s_to_%s($p); };);\n" % (a, b, b, a))
    for x, y in d["cg"]:
        if ret:
            out.append("foreign_typemap!(($p:r_type) %s => %s { $out = cnv_%s_to_%s($p); };);\n" % (ty(x), ty(y), nm(x), nm(y)))
        else:
            out.append("foreign_typemap!(($p:r_type) %s <= %s { $out = cnv_%s_to_%s($p); };);\n" % (ty(x), ty(y), nm(y), nm(x)))
    return out


GNV_RE = re.compile(r"(?<!fn )\b([cg])nv_(\w+?)_to_(\w+?)\s*\(")


def g04_generic(ck, wd, budget):
    """Chains that need generic rules: accepted and made of registered rules, concrete ones first; refused when there is none."""
    rng = random.Random(ck.seed * 53 + 1)
    fam, par_ = ["W1", "W2", "W3"], ["P1", "P2"]
    gall = [(a, b) for a in fam for b in fam if a != b]
    nodes = ["%sx%s" % (w, p) for w in fam for p in par_]
    call = [(a, b) for a in nodes for b in nodes + list(KNOWN) if a != b]

    def pr(n):
        return (S(n), S("")) if n in KNOWN else tuple(S(x) for x in n.split("x"))
    models = []
    for i in range(2 if ck.quick else 10):
        # one rule into the known types at least, few enough to leave types that only generic rules connect
        fix = [(rng.choice(nodes), rng.choice(list(KNOWN)))]
        models.append(("g%d" % i, fam, par_, gall, [e for e in rng.sample(call, 5 if ck.quick else 6) if e not in fix], [], fix))
    for i in range(1 if ck.quick else 4):
        f = ["W%d" % k for k in range(1, 7)]
        perm = f[:]
        rng.shuffle(perm)
        bb = list(zip(perm, perm[1:]))
        ln = ["%sx%s" % (w, p) for w in f for p in par_]
        rest = [(a, b) for a in f for b in f if a != b and (a, b) not in bb]
        lc = [(a, b) for a in ln for b in ln + list(KNOWN) if a != b and a != perm[-1] + "xP1"]
        models.append(("l%d" % i, f, par_, rng.sample(rest, 3), rng.sample(lc, 3), bb, [(perm[-1] + "xP1", "K1")]))
    graphs = []
    for name, f, p, gc, cc, gf, cf in models:
        ds, st = enumerate_states(ck, "ConvGen", {"Fam": {S(x) for x in f}, "Par": {S(x) for x in p}, "Known": {S(k) for k in KNOWN},
                                                  "GCand": {(S(a), S(b)) for a, b in gc}, "CCand": {(pr(a), pr(b)) for a, b in cc},
                                                  "GFix": {(S(a), S(b)) for a, b in gf}, "CFix": {(pr(a), pr(b)) for a, b in cf}},
                                  ["Witness", "Shortest", "Unreachable", "Adds"], tag="-" + name)
        ck.add_tlc(st)
        graphs.append(ds)
        rng.shuffle(ds)
    q = queue.Queue()
    for i in range(max(map(len, graphs))):
        for ds in graphs:
            if i < len(ds):
                q.put(ds[i])
    total = q.qsize()
    deadline = time.time() + budget
    lk = threading.Lock()
    n = {"graphs": 0, "chains": 0, "generic_steps": 0, "concrete_over_generic": 0, "refusals": 0, "longest": 0}

    def worker(w):
        g = Gen()
        out = os.path.join(wd, "gw%d" % w)
        src = out + ".rs.in"
        r = random.Random(ck.seed * 89 + w)
        while time.time() < deadline and len(ck.violations) < 6:
            try:
                d = q.get_nowait()
            except queue.Empty:
                break
            lang = r.choice(("java", "cpp"))
            gset = {tuple(e) for e in d["gg"]}
            cset = {tuple(e) for e in d["cg"]}
            good = [t for t in d["lay"] if d["lay"][t] <= 6]   # seven steps are searched, the one between i32 and jint included
            bad = [t for t in d["lay"] if d["lay"][t] == 99]
            rules = gen_rules(d, True) + gen_rules(d, False)
            r.shuffle(rules)
            cut = r.randrange(len(rules) + 1)

            def go(decls):
                shutil.rmtree(out, ignore_errors=True)
                os.makedirs(out)
                body = "foreign_class!(class Q {\n%s});\n" % "".join("    fn %s;\n" % x for x in decls)
                write(src, "".join(rules[cut:]) + body)
                a = g(lang=lang, out=out, dst=out + "/glue.rs", srcs=[src], maps=[["user_rules", "".join(rules[:cut])]] if cut else [])
                return a, "// merge_type_map:\n" + "".join(rules[:cut]) + "// description:\n" + "".join(rules[cut:]) + body
            tyr = {t: "%s<%s>" % tuple(t.split("x")) for t in d["lay"]}
            tyv = {t: tyr[t].replace("W", "V") for t in tyr}
            if good:
                decls = ["r_%s() -> %s" % (t, tyr[t]) for t in good] + ["a_%s(a: %s)" % (t, tyv[t]) for t in good]
                r.shuffle(decls)
                a, text = go(decls)
                rep = {"lang": lang, "source": text, "distances": d["lay"], "concrete_distances": d["clay"]}
                if not a["ok"]:
                    ck.violation("%s: chains exist for %s (generic rules %s, concrete rules %s), but generation is refused: %s" %
                                 (lang, good, sorted(gset), sorted(cset), a["panic"][-300:]), rep)
                    continue
                with open(out + "/glue.rs") as f:
                    bodies = fn_bodies(f.read())
                for dcl in decls:
                    fn = dcl.split("(")[0]
                    t = fn[2:]
                    ret = fn[0] == "r"
                    c = [k for k in bodies if k.endswith(fn) or k.endswith(fn.replace("_", "_1"))]
                    if len(c) != 1:
                        raise ToolError("no exported function for %s" % fn)
                    steps = GNV_RE.findall(bodies[c[0]])
                    if not ret:
                        steps = [(k, y.replace("V", "W"), x.replace("V", "W")) for k, x, y in reversed(steps)]
                    cur, msg = t, None
                    for k, x, y in steps:
                        if k == "g":
                            wx, px = cur.split("x") if "x" in cur else (cur, "")
                            if wx != x or (x, y) not in gset:
                                msg = "the generic step %s -> %s does not apply to %s" % (x, y, cur)
                                break
                            nxt = y + "x" + px
                            if (cur, nxt) in cset:
                                msg = "the generic rule is used for %s -> %s, which has a rule of its own" % (cur, nxt)
                                break
                        else:
                            nxt = y
                            if x != cur or (x, y) not in cset:
                                msg = "the step %s -> %s does not apply to %s" % (x, y, cur)
                                break
                            if "x" in nxt and cur.split("x")[1] == nxt.split("x")[1] and (cur.split("x")[0], nxt.split("x")[0]) in gset:
                                with lk:
                                    n["concrete_over_generic"] += 1
                        cur = nxt
                    if msg is None and cur not in KNOWN:
                        msg = "the chain ends in %s" % cur
                    if msg is None and not d["lay"][t] <= len(steps):
                        raise ToolError("chain shorter than the model's: %s %s" % (t, steps))
                    if msg is None and d["clay"][t] != 99 and len(steps) > d["clay"][t]:
                        msg = "chain of %d steps, concrete rules alone give %d" % (len(steps), d["clay"][t])
                    if msg:
                        ck.violation("%s: %s of %s: %s (chain %s)" % (lang, "result" if ret else "argument", t, msg, steps), dict(rep, function=bodies[c[0]][:1500]))
                    with lk:
                        n["chains"] += 1
                        n["generic_steps"] += sum(1 for s_ in steps if s_[0] == "g")
                        n["longest"] = max(n["longest"], len(steps))
            if bad and (not ck.quick or r.random() < 0.1):
                t = r.choice(bad)
                dcl = r.choice(["u() -> " + tyr[t], "u(a: %s)" % tyv[t]])
                a, text = go([dcl])
                with lk:
                    n["refusals"] += 1
                if a["ok"]:
                    ck.violation("%s: no chain for %s with generic rules %s and concrete rules %s, but generation succeeded" % (lang, dcl, sorted(gset), sorted(cset)), {"lang": lang, "source": text})
            with lk:
                n["graphs"] += 1
        g.close()
    par(8, worker)
    ck.cov["generic_rules"] = dict(n, enumerated=total)
    ck.cov["traces_validated_against_impl"] += n["chains"] + n["refusals"]
    if not ck.violations and (n["chains"] < 40 or n["generic_steps"] < 20):
        raise ToolError("too little exercised: %s" % n)


def g04_executed(ck, wd, ds):
    """The C++ glue of many graphs at once, compiled and called: every conversion that runs is logged."""
    import ctypes
    rules, decls, types, cnv, expect = [], [], set(), set(), {}
    for i, d in enumerate(ds):
        p = "G%d" % i
        edges = [tuple(e) for e in d["g"]]
        for ret in (True, False):
            rules += conv_rules(edges, p, ret)
            for x, y in edges:
                a, b = (x, y) if ret else (y.replace("T", "U"), x.replace("T", "U"))
                cnv.add(tuple(n if n in KNOWN else p + n for n in (a, b)))
        for t, v in d["d"].items():
            if t in KNOWN or v == 99:
                continue
            decls.append("r_%s%s() -> %s%s" % (p, t, p, t))
            expect["r_%s%s" % (p, t)] = (p + t, v, True)
            u = t.replace("T", "U")
            decls.append("a_%s%s(a: %s%s)" % (p, u, p, u))
            expect["a_%s%s" % (p, u)] = (p + u, v, False)
    types = sorted(set(n for e in cnv for n in e if n not in KNOWN) | set(e[0] for e in expect.values()))
    src = write(os.path.join(wd, "exec.rs.in"), "".join(rules) + "foreign_class!(class Q {\n%s});\n" % "".join("    fn %s;\n" % d for d in decls))
    out = os.path.join(wd, "exec")
    os.makedirs(out)
    g = Gen()
    a = g(lang="cpp", out=out, dst=out + "/glue.rs", srcs=[src], timeout=300)
    g.close()
    if not a["ok"]:
        ck.violation("cpp: a description whose conversions all exist is refused: %s" % a["panic"][-500:], {"source": src})
        return
    dflt = {"i32": "7i32", "f64": "7f64"}
    L = ["#![allow(warnings)]\n", "static LOG: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());\n",
         "fn log(s: &str) { LOG.lock().unwrap().push_str(s); LOG.lock().unwrap().push(' '); }\n",
         "#[no_mangle] pub extern \"C\" fn take_log(buf: *mut u8, cap: usize) -> usize { let mut l = LOG.lock().unwrap(); let n = l.len().min(cap);"
         " unsafe { std::ptr::copy_nonoverlapping(l.as_ptr(), buf, n) }; l.clear(); n }\n"]
    L += ["pub struct %s;\n" % t for t in types]
    for x, y in sorted(cnv):
        L.append("fn cnv_%s_to_%s(_p: %s) -> %s { log(\"%s>%s\"); %s }\n" % (x, y, rtype(x), rtype(y), x, y, dflt.get(rtype(y), y)))
    for fn, (t, v, ret) in expect.items():
        L.append("fn %s(%s) %s { log(\"CALL\"); %s }\n" % (fn, "" if ret else "_a: " + t, "-> " + t if ret else "", t if ret else ""))
    with open(out + "/glue.rs") as f:
        L.append(f.read())
    lib = write(os.path.join(out, "lib.rs"), "".join(L))
    p = run(["rustc", "--edition", "2021", "--crate-type", "cdylib", "-C", "debuginfo=0", "-o", out + "/libexec.so", lib], timeout=400)
    if p.returncode != 0:
        raise BuildBroken("rustc on the glue of the conversion graphs", p.stderr[:3000])
    dll = ctypes.CDLL(out + "/libexec.so")
    buf = ctypes.create_string_buffer(65536)
    dll.take_log.restype = ctypes.c_size_t
    dll.take_log.argtypes = [ctypes.c_char_p, ctypes.c_size_t]
    # whether the argument is an int or a double is decided by the chain: declared in the generated C header
    hdr = open(os.path.join(out, "c_Q.h")).read()
    for fn, (t, v, ret) in expect.items():
        m = re.search(r"(\w+)\s+Q_%s\s*\(([^)]*)\)" % fn, hdr)
        if not m:
            raise ToolError("no declaration of Q_%s" % fn)
        f = getattr(dll, "Q_" + fn)
        f.restype = {"int32_t": ctypes.c_int32, "double": ctypes.c_double, "void": None}[m.group(1)]
        if not ret:
            f.argtypes = [ctypes.c_double if m.group(2).strip().startswith("double") else ctypes.c_int32]
        res = f() if ret else f(7)
        nlog = dll.take_log(buf, 65536)
        log = buf.raw[:nlog].decode().split()
        chain = [tuple(x.split(">")) for x in log if x != "CALL"]
        msg = chain_problem(chain, t, KNOWN, v, ret)
        if log.count("CALL") != 1 or (log[-1] != "CALL" if not ret else log[0] != "CALL"):
            msg = "the Rust function is not called once at its place: %s" % log
        if msg is None and ret and res != 7:
            msg = "the value of the last conversion does not arrive (%r)" % res
        if msg:
            ck.violation("cpp, executed: %s %s: %s" % ("result" if ret else "argument", t, msg), {"source": open(src).read()[:20000], "log": log})
        ck.cov["executed_conversions"] = ck.cov.get("executed_conversions", 0) + 1
    ck.cov["traces_validated_against_impl"] += len(expect)


# ------------------------------------------------------------------------------------------------ G05: rule registration
RULE_LANG = {
    "java": {"k": "jint", "kf": "int", "opts": ("NoNullAnnotations", "NullAnnotations"), "bp": ("bool", "jboolean"), "bd": ("SystemTime", "jlong"),
             "mo": '($p:f_type) => "MyF" "$out = MyF.make_w%d($p);";', "mi": '($p:f_type) <= "MyF" "$out = $p.back_w%d();";', "builtin": "jni-include.rs"},
    "cpp": {"k": "i32", "kf": "int32_t", "opts": ("CppOptional::Std17", "CppOptional::Boost"), "bp": ("bool", "::std::os::raw::c_char"),
            "bd": ("&str", "CRustStrView"), "mo": '($p:f_type) => "MyF" "MyF::make_w%d($p)";', "mi": '($p:f_type) <= "MyF" "$p.back_w%d()";', "builtin": "cpp-include.rs"},
}
RULE_Q = {"T1": "q_t1() -> T1", "T2": "q_t2() -> T2", "U1": "q_u1(a: U1)", "BP": "q_bp() -> %s", "BD": "q_bd() -> %s", "M1": "q_m1() -> M1", "M2": "q_m2() -> M2",
          "N1": "q_n1(a: M1)", "N2": "q_n2(a: M2)"}


def render_rule(lang, r, v):
    L = RULE_LANG[lang]
    a, b = {"t1k": ("T1", L["k"]), "t1t2": ("T1", "T2"), "t2k": ("T2", L["k"]), "u1k": ("U1", L["k"]), "bp": L["bp"], "bd": L["bd"],
            "m1": ("M1", L["k"]), "m2": ("M2", L["k"])}[r["pair"]]
    arrow = "<=" if r["pair"] == "u1k" else "=>"
    body = "($p:r_type) %s %s %s { $out = cnv_%s_v%d($p); };" % (a, arrow, b, r["pair"], v)
    if r["form"] == "backend":
        body += "".join('($p:f_type, option = "%s") %s "%s";' % (o, arrow, L["kf"]) for o in L["opts"])
    if r["pair"] in ("m1", "m2"):
        out, in_ = r["form"] in ("out", "both"), r["form"] in ("in", "both")
        body = ("($p:r_type) %s => %s { $out = cnv_%so_v%d($p); };" % (a, b, r["pair"], v) if out else "") + ("($p:r_type) %s <= %s { $out = cnv_%si_v%d($p); };" % (a, b, r["pair"], v) if in_ else "")
        body += (L["mo"] % v if out else "") + (L["mi"] % v if in_ else "")
    return "foreign_typemap!(%s);\n" % body


def g05(ck):
    build_vgen(ck)
    wd = workdir(ck, "rules")
    pairs = {S(x) for x in ("t1k", "t1t2", "t2k", "u1k", "bp", "bd", "m1", "m2")}
    ds, st = enumerate_states(ck, "Rules", {"MaxLen": 3, "Pairs": pairs, "BackendPairs": {S("t1k"), S("t2k"), S("u1k")}, "Builtin": {S("bp"), S("bd")},
                                            "Foreign": {S("m1"), S("m2")}, "Ids": {S("a"), S("b"), S("BUILTIN")}, "BuiltinIds": {S("BUILTIN")}},
                              ["LastWins", "Matches"], timeout=300)
    ck.add_tlc(st)
    # the step property on a smaller instance (no printing)
    st = explore(ck, "Rules", {"MaxLen": 2, "Pairs": pairs, "BackendPairs": {S("t1k")}, "Builtin": {S("bp")}, "Foreign": {S("m1"), S("m2")},
                               "Ids": {S("a"), S("b")}, "BuiltinIds": {S("b")}}, ["LastWins", "Matches"], ["OthersKeep"], emit=False, tag="-step")
    ck.add_tlc(st)
    rng = random.Random(ck.seed * 53)

    def interest(d):
        # overrides of one pair first
        ps = [r["pair"] for r in d["hist"]]
        return (0 if d["mode"] == "ids" or len(ps) < 2 else 1 if len(set(ps)) < len(ps) else 2 if d["conflict"] else 3, rng.random())
    ds.sort(key=interest)
    # a quarter of the budget each for: short histories and ids; overrides; conflicts; the rest
    classes = {}
    for d in ds:
        classes.setdefault(interest(d)[0], []).append(d)
    order = classes.pop(0, [])
    rest = [classes[k] for k in sorted(classes)]
    while any(rest):
        for c in rest:
            if c:
                order.append(c.pop())
    q = queue.Queue()
    for d in order:
        for l in ("java", "cpp"):
            q.put((d, l))
    total = q.qsize()
    deadline = time.time() + (30 if ck.quick else 600)
    lk = threading.Lock()
    n = {"runs": 0, "chains": 0, "refusals": 0}

    def worker(w):
        g = Gen()
        out = os.path.join(wd, "w%d" % w)
        src = out + ".rs.in"
        r = random.Random(ck.seed * 11 + w)
        while time.time() < deadline and len(ck.violations) < 6:
            try:
                d, lang = q.get_nowait()
            except queue.Empty:
                break
            L = RULE_LANG[lang]

            def run_(desc, maps):
                shutil.rmtree(out, ignore_errors=True)
                os.makedirs(out)
                write(src, desc)
                return g(lang=lang, out=out, dst=out + "/glue.rs", srcs=[src], maps=maps)
            if d["mode"] == "ids":
                maps = [[L["builtin"] if i == "BUILTIN" else i, "foreign_typemap!(($p:r_type) X%d => %s { $out = x($p); };);" % (k, L["k"])] for k, i in enumerate(d["ids"])]
                a = run_("foreign_class!(class Q { fn q(a: bool); });", maps)
                if a["ok"] == d["clash"]:
                    ck.violation("%s: merging type maps with ids %s %s" % (lang, d["ids"], "is accepted" if a["ok"] else "is refused: " + a["panic"][:200]), {"maps": maps})
                with lk:
                    n["runs"] += 1
                continue
            if d["repeated"]:
                continue
            text = {1: "", 2: "", 3: ""}
            for i, rule in enumerate(d["hist"]):
                text[rule["src"]] += render_rule(lang, rule, i + 1)
            maps = [["map%d" % k, text[k]] for k in (1, 2) if text[k]]
            sig = lambda x: RULE_Q[x] % L[x.lower()][0] if x in ("BP", "BD") else RULE_Q[x]
            good = [x for x in sorted(d["q"]) if d["q"][x]]
            bad = [x for x in sorted(d["q"]) if not d["q"][x]]
            cls = "foreign_class!(class Q {\n%s});\n" % "".join("    fn %s;\n" % sig(x) for x in good)
            # where the class stands among the rules of the description must not matter
            desc = cls + text[3] if r.random() < 0.3 else text[3] + cls
            a = run_(desc, maps)
            rep = {"lang": lang, "history": d["hist"], "maps": maps, "description": desc}
            with lk:
                n["runs"] += 1
            if d["conflict"]:
                with lk:
                    n["refusals"] += 1
                if a["ok"]:
                    ck.violation("%s: two rules of one source give the foreign type MyF to different Rust types, not refused: %s" % (lang, d["hist"]), rep)
                continue
            if not a["ok"]:
                ck.violation("%s: rules %s are refused: %s" % (lang, d["hist"], a["panic"][-300:]), rep)
                continue
            with open(out + "/glue.rs") as f:
                bodies = fn_bodies(f.read())
            for x in good:
                fn = sig(x).split("(")[0]
                c = [v for k, v in bodies.items() if k.endswith(fn) or k.endswith(fn.replace("_", "_1"))]
                if len(c) != 1:
                    raise ToolError("no exported function for %s among %s" % (fn, sorted(bodies)[:50]))
                got = [(p_, int(v)) for p_, v in re.findall(r"\bcnv_(\w+?)_v(\d+)\s*\(", c[0])]
                exp = [(s_["pair"], s_["v"]) for s_ in d["q"][x] if s_["v"]]
                with lk:
                    n["chains"] += 1
                code = d["codes"].get(x, 0)
                if code:
                    ft = open(os.path.join(out, "Q.java" if lang == "java" else "Q.hpp")).read()
                    # the text of the method: from its name up to the next query's (the native and C functions are renamed)
                    seen = sorted(set(int(v) for part in re.split(r"(?=\bq_[a-z]+\d?\b)", re.sub(r"\b(Q_|do_)(?=q_)", "\\1x", ft)) if part.startswith(fn) for v in re.findall(r"_w(\d+)\b", part)))
                    with lk:
                        n["foreign_code"] = n.get("foreign_code", 0) + 1
                    if seen != [code]:
                        ck.violation("%s: after the registrations %s the %s code of %s is that of the rules %s, expected %d" % (lang, d["hist"], lang, fn, seen, code), dict(rep, foreign=ft[:3000]))
                if got != exp:
                    ck.violation("%s: after the registrations %s the glue of %s uses the rules %s, expected %s" % (lang, d["hist"], fn, got, exp), dict(rep, function=c[0][:1500]))
            if bad and r.random() < (0.02 if ck.quick else 0.1):
                x = r.choice(bad)
                a = run_(text[3] + "foreign_class!(class Q { fn %s; });\n" % sig(x), maps)
                with lk:
                    n["refusals"] += 1
                if a["ok"]:
                    ck.violation("%s: no chain for %s after %s, but generation succeeded" % (lang, x, d["hist"]), rep)
        g.close()
    par(8, worker)
    ck.cov["runs"] = dict(n, of=total, left=q.qsize())
    ck.cov["traces_validated_against_impl"] += n["runs"]
    ck.sample(order[-1])
    if n["chains"] < 200 and not ck.violations:
        raise ToolError("too little exercised %s" % n)
    shutil.rmtree(wd, ignore_errors=True)


PLAIN = {"self": "plain", "ctor": "one", "meth": "ref", "derive": "none", "arg": "named", "ty": "i32", "attr": "none", "form": "path", "item": "none", "pos": "last", "extra": "none", "fault": "none"}
CHECKS = {"G01": g01, "G02": g02, "G04": g04, "G05": g05, "G06": g06}
