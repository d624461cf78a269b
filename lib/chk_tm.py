"""G09: conversion rules written by the user (type map files, foreign_typemap! items), executed in C++ and in a JVM."""
import random
from chk_jni import *


def text(t, v):
    """A value of TypeMap.tla as the drivers read and write it."""
    if t[0] in ("wr",):
        return text(t[1], v)
    if t[0] == "m":
        return str(v)
    if t[0] in ("pair", "duo"):
        return "(%s,%s)" % (text(t[1], v["v"]), text(t[2], v["w"]))
    if v["c"] == "N":
        return "N"
    return "S" + text(["m", 0] if t[0] == "so" else t[1], v["v"])


class TmCompare:
    def __init__(self, es):
        self.es = es

    def start(self):
        pass

    def step(self, a, st, obs):
        if obs["bad"]:
            return "; ".join(obs["bad"])
        t = self.es[st["e"] - 1]
        said = ["error no"] if a["op"] == "fail" else [text(t, v) for v in a["seen"]]
        if obs["said"] != said:
            return "the foreign side sees %s, specified %s" % (obs["said"], said)
        log = [x.split("@")[0].strip() for x in obs["log"]]
        want = [(["f %d" % i for i in a["fin"]], "foreign code on the way in"), (["r %d" % i for i in a["rin"]], "Rust code on the way in"),
                (["saw " + text(t, v) for v in a["rust"]], "values in Rust"),
                (["r %d" % i for i in a["rout"]], "Rust code on the way out"), (["f %d" % i for i in a["fout"]], "foreign code on the way out")]
        if len(log) != sum(len(w) for w, _ in want):
            return "conversion steps %s, specified %s" % (log, [w for w, _ in want])
        i = 0
        for w, name in want:
            got = log[i:i + len(w)]
            i += len(w)
            if (got if name == "values in Rust" else sorted(got)) != (w if name == "values in Rust" else sorted(w)):
                return "%s: %s, specified %s (all: %s)" % (name, got, w, log)
        return None


def tm_line(es):
    def f(a):
        e = a["_e"]
        t = es[e - 1]
        return " ".join([a["op"], a["how"], str(e)] + [text(t, v) for v in a["sent"]])
    return f


def tm_one(ck, lang, cfg, n, tag, rng):
    sys.path.insert(0, os.path.join(HARNESS, "common"))
    import tmfix as tm
    ms, es = tm.choose(rng, lang, n)
    lim = tm.limits(ms, es, lang)
    m1, m2, desc = tm.description(rng, ms, es, lang)
    maps = [["m1", m1], ["m2", m2]]
    option = {S({"null": "NullAnnotations", "nonull": "NoNullAnnotations"}[cfg])} if lang == "java" else {
        S("Cpp%s::%s" % (f, "Boost" if cfg in ("boost", x) else "Std17")) for f, x in (("Variant", "mixB"), ("Optional", "mixA"), ("StrView", "mixA"))}
    tag = "-" + cfg + tag

    def model():
        nest = lambda t: [S(t[0])] + [x if isinstance(x, int) else nest(x) for x in t[1:]]
        parts = [["[d |-> %s, r |-> %s, f |-> %s]" % (tla(S(p["d"])), tla(p["r"]), tla(p["f"])) for p in m["parts"]] for m in ms]
        return explore(ck, "TypeMap", {"Exprs": [nest(t) for t in es], "Parts": parts, "Via": [m["via"] for m in ms], "Base": [set(m["base"]) for m in ms], "Config": {S("")} | option, "Futures": lang == "cpp",
                                       **{k: set(v) for k, v in zip(("NoIn", "NoCbArg", "NoCbRet", "NoRes", "NoCb"), lim)}},
                       ["KeptIsImage"], ["InForce"], view="view", tag=tag)

    def build():
        if lang == "java":
            d = build_jni(ck, "tm", desc, tm.rust(ms, es, "java") + tm.JAVA_RS, tm.java(ms, es), tag, NULLOPTS if cfg == "null" else JOPTS, maps=maps)
            return java_cmd(d, "TmDrv")
        d = gen_cpp(ck, "tm", tag, ANY[cfg][0], maps, desc)
        write(os.path.join(d, "tm.hpp"), tm.cpp_header(ms))
        head, body = tm.cpp_dispatch(ms, es)
        write(os.path.join(d, "tm_head.inc"), head)
        write(os.path.join(d, "tm_body.inc"), body)
        rust_lib(ck, d, "tm", text=tm.rust(ms, es, "cpp") + tm.CPP_RS)
        return [cpp_driver(ck, d, "tm", flags=ANY[cfg][1])]
    st, cmd = parallel(model, build)
    ck.add_tlc(st)
    g = Graph(st["edges"], st["init"])
    walks = g.tours(rng, maxlen=80)
    unc = g.uncovered
    walks = [[(dict(a, _e=s["e"]), s) for a, s in w] for w in walks]
    n0 = ck.cov.get("replayed_steps", 0)
    replay_cmp(ck, cmd, walks, tm_line(es), lambda: TmCompare(es), "rules of the user (%s)" % cfg, n=4)
    ck.log("%s: %d types, %d rules, %d transitions, %d left, %d steps" % (tag[1:], len(es), sum(len(m["parts"]) for m in ms), g.n, unc, ck.cov["replayed_steps"] - n0))
    ck.cov.setdefault("transitions_replayed", {})[tag[1:]] = [g.n - unc, g.n]
    ck.sample({"configuration": cfg, "type map": m1[:400], "history": [tm_line(es)(a) for a, s in walks[0][:10]]})


def g09(ck):
    build_vgen(ck)
    n = 4 if ck.quick else 7
    for i in range(2 if ck.quick else 16):
        jobs = [("cpp", ("std17", "mixA")[i % 2]), ("cpp", ("boost", "mixB")[i % 2]), ("java", "null" if i % 2 else "nonull")]
        parallel(*[(lambda l, c, r: lambda: tm_one(ck, l, c, n, "-%d" % i, r))(l, c, random.Random(ck.rng.random())) for l, c in jobs])


CHECKS = {"G09": g09}
