"""Driver for values: codecs are chosen by the type descriptions in table.json."""
import gc, json, os, struct, sys
import pydrv as vf
from pydrv import vfix
D = os.path.dirname(os.path.abspath(sys.argv[1]))
TAB = json.load(open(os.path.join(D, "table.json")))
REFS = {"rint": "i32", "rstring": "string", "ren": "En", "rcp": "Cp", "rar": "Ar", "rsh": "Sh"}
OBJ = ("Foo", "Cp", "Ar", "Sh", "Bx", "Bc", "ref")
INT = ("u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "isize", "En", "Ex")
CONST = {"En": {getattr(vfix.En, n): n for n in ("Aa", "Bb", "Cc")}, "Ex": {getattr(vfix.Ex, n): n for n in ("Zz", "Aaa", "Mm", "Last")}}


class P:
    def __init__(self, s):
        self.s, self.i = s, 0

    def ch(self):
        self.i += 1
        return self.s[self.i - 1]

    def to(self, c):
        j = self.s.index(c, self.i)
        r = self.s[self.i:j]
        self.i = j + 1
        return r


def hx(b):
    return b.hex() + "."


def enc(t, x):
    h = REFS.get(t[0], t[0])
    if len(t) == 1:
        if h in INT:
            if type(x) is not int:
                return "kind:%r" % (x,)
            if h in CONST and x not in CONST[h]:
                return "no constant %d" % x
            return hx(x.to_bytes(10, "little", signed=True))
        if h == "bool":
            return hx(bytes([x])) if type(x) is bool else "kind:%r" % (x,)
        if h in ("f32", "f64"):
            return hx(struct.pack("<d", x)) if type(x) is float else "kind:%r" % (x,)
        if h in ("str", "string"):
            return hx(x.encode("utf-32-le", "surrogatepass")) if type(x) is str else "kind:%r" % (x,)
        if h == "unit":
            return "01." if x is None else "kind:%r" % (x,)
        if h in OBJ:
            c = getattr(vfix, "Foo" if h == "ref" else h)
            if type(x) is not c:
                return "kind:%r" % (x,)
            return x.get().to_bytes(4, "little", signed=True).hex() + "@%d." % x.serial()
        raise AssertionError(h)
    if h == "opt":
        return "N" if x is None else "S" + enc(t[1], x)
    if h in ("vec", "slice"):
        return "V%d:" % len(x) + "".join(enc(t[1], y) for y in x) if type(x) is list else "kind:%r" % (x,)
    if h in ("pair", "tri"):
        if type(x) is not tuple or len(x) != len(t) - 1:
            return "kind:%r" % (x,)
        return "([" [h == "tri"] + "".join(enc(u, y) for u, y in zip(t[1:], x))
    if h == "res":
        return "O" + enc(t[1], x)
    if h == "resu":
        return "U" if x is None else "kind:%r" % (x,)
    raise AssertionError(t)


def dec(t, p):
    h = REFS.get(t[0], t[0])
    if len(t) == 1:
        b = p.to(".")
        b = bytes.fromhex(b) if h not in OBJ else b
        if h in INT:
            return int.from_bytes(b, "little", signed=True)
        if h == "bool":
            return b != b"\0"
        if h in ("f32", "f64"):
            return struct.unpack("<d", b)[0]
        if h in ("str", "string"):
            return b.decode("utf-32-le", "surrogatepass")
        if h in OBJ:
            return getattr(vfix, "Foo" if h == "ref" else h)(int.from_bytes(bytes.fromhex(b), "little", signed=True))
        raise AssertionError(h)
    if h == "opt":
        return None if p.ch() == "N" else dec(t[1], p)
    if h in ("vec", "slice"):
        p.ch()
        return [dec(t[1], p) for _ in range(int(p.to(":")))]
    raise AssertionError(t)


# what stands for a value of another kind
KINDS = {"none": lambda: None, "true": lambda: True, "int": lambda: 1, "big": lambda: 1 << 80, "float": lambda: 1.5, "str": lambda: "x", "bytes": lambda: b"x", "list": lambda: [], "tuple": lambda: (),
         "dict": lambda: {}, "object": lambda: object(), "intlist": lambda: [1, 2], "strlist": lambda: ["x"], "mixlist": lambda: [1, "x", None], "type": lambda: vfix.Foo, "half": lambda: [1, 1.5],
         **{c: (lambda c=c: getattr(vfix, c)(1)) for c in ("Foo", "Cp", "Ar", "Sh", "Bx", "Bc")}}
said = []


def hastype(t, pred):
    return pred(t) or any(hastype(u, pred) for u in t[1:])


def exc(e):
    return "%s" % type(e).__name__


def call(t, f, *args):
    """Calls f; a module Error is the error case of a result."""
    try:
        return "v", f(*args)
    except vfix.Error as e:
        if not hastype(t, lambda u: u[0] in ("res", "resu")):
            raise
        m = e.args[0] if len(e.args) == 1 else "?%r" % (e.args,)
        return "e", "E" + hx(m.encode("utf-32-le", "surrogatepass"))


def fin(t, r):
    return r[1] if r[0] == "e" else enc(t, r[1])


def step(c):
    said.clear()
    o = {"said": said, "msg": "", "exc": ""}
    try:
        if c[0] == "sig":
            sig(int(c[1]), c[2])
        elif c[0] == "kind":
            kind(int(c[1]), c[2])
        elif c[0] == "kindsig":
            kindsig(int(c[1]), c[2], [int(x) for x in c[3:]])
        else:
            typ(c[0], int(c[1]), c[2] if len(c) > 2 else "")
    except AssertionError:
        raise
    except BaseException as e:
        o["exc"] = exc(e)
        o["msg"] = "%s: %s" % (exc(e), e)
        del e
    vf.L.vf_drop_refs()
    return o


def typ(op, k, v):
    t = TAB["types"][k]
    T = getattr(vfix, "T%d" % k)
    g = lambda n: getattr(T, "%s_%d" % (n, k))
    if op in ("in", "echo"):
        x = dec(t, P(v))
        said.append("cpp " + enc(t, x))
        if op == "in":
            g("in")(x)
            return
        r = call(t, g("echo"), x)
        said.append("back " + fin(t, r))
    elif op in ("out", "moved", "discard"):
        vf.put(v)
        r = call(t, g("out"))
        if op == "moved":
            gc.collect()
        if op != "discard":
            said.append("cpp " + fin(t, r))
    elif op == "give":
        r = call(t, g("give"))
        said.append("cpp " + fin(t, r))
    elif op == "dropr":
        g("dropr")()
    else:
        raise AssertionError(op)


def kind(k, name):
    getattr(getattr(vfix, "T%d" % k), "in_%d" % k)(KINDS[name]())


def target(k):
    s = TAB["sigs"][k]
    C = getattr(vfix, "M%d" % k)
    if s["kind"] == "static":
        return C.call
    if s["kind"] == "ctor":
        return C
    return C().call


def sig(k, v):
    s = TAB["sigs"][k]
    p = P(v)
    a = []
    for i, t in enumerate(s["args"]):
        x = dec(t, p)
        a.append(x)
        said.append("s%d %s" % (i, enc(t, x)))
    r = target(k)(*a)
    if s["ret"] is not None:
        said.append("ret " + enc(s["ret"], r))


def kindsig(k, v, bad):
    """A call where the arguments at the positions bad are of a wrong kind or left out (the last one)."""
    s = TAB["sigs"][k]
    p = P(v)
    a = [dec(t, p) for t in s["args"]]
    f = target(k)
    for b in bad:
        if b == -1:
            a.pop()
        elif b == -2:
            a.append(1)
        else:
            a[b] = object()
    f(*a)


def clean():
    for k, t in enumerate(TAB["types"]):
        if TAB["owned"][k]:
            getattr(getattr(vfix, "T%d" % k), "dropr_%d" % k)()
    vf.L.vf_drop_refs()


vf.loop(step, clean)
