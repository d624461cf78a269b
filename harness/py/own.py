"""Driver for ownership: variables A and B of one class."""
import gc, json, sys
import pydrv as vf
from pydrv import vfix, L, BUF
NAME = sys.argv[2]
C = getattr(vfix, NAME)
V = {"A": None, "B": None}
GARBAGE = []
HAS = lambda n: hasattr(C, n)


def f(name):
    return getattr(C, name)


def ex(fn):
    try:
        return fn(), ""
    except vfix.Error as e:
        return None, "Error " + "|".join(map(str, e.args))
    except BaseException as e:
        return None, type(e).__name__


def step(c):
    op, s, t, how, v, v2 = c[0], c[1], c[2], c[3], int(c[4]), int(c[5])
    x = V.get(s)
    r, e = None, ""
    if op == "new":
        V[s] = C(v)
    elif op == "get":
        r = x.get() if how == "self" else f("get_" + how)(x)
    elif op == "getnone":
        r = f("get_" + how)(None)
    elif op == "set":
        r = x.set(v) if how == "self" else f("set_arg")(x, v)
    elif op == "setcopy":
        r = f("setcopy")(x, v)
    elif op == "two":
        y = V[t]
        r = x.two_self(y) if how == "self" else x.two_mix(y) if how == "mix" else f("two_" + how)(x, y)
        del y
    elif op == "sum":
        r = f("sum_" + how)([x, V[t]] if v2 == 0 else (x, V[t]))
    elif op == "bad":
        r, e = ex(lambda: x.bad_self(4) if how == "self" else f("bad_" + how)(x, 4))
    elif op == "err":
        r, e = ex(lambda: x.err())
    elif op == "copy":
        V[t] = x.copy_me() if how == "me" else x.dup() if how == "dup" else f("copy_" + how)(x)
    elif op == "share":
        V[t] = f("share_" + how)(x)
    elif op == "alias":
        V["A"] = V["B"]
    elif op == "del":
        V[s] = None
    elif op == "cycle":
        l = [x]
        l.append(l)
        V[s] = None
        del l
    elif op == "gc":
        gc.collect()
    elif op == "holdnew":
        f("holdnew")(v)
    elif op == "holddrop":
        f("holddrop")()
    elif op == "holdset":
        r = f("holdset_" + how)(v)
    elif op == "keep":
        f("keep_" + how)(x)
    elif op == "keepnone":
        f("keep_" + how)(None)
    elif op == "take":
        z = f("take_" + how)()
        if how == "tuple":
            r, z = z
        V[s] = z
        del z
    elif op == "takenone":
        V[s] = f("take_opt")()
    elif op in ("peek", "peekcopy"):
        V[s] = f(op + "_" + how)()
    elif op == "make2":
        z = f("make2_" + how)(v, v2)
        V["A"], V["B"] = z
        del z
    else:
        raise AssertionError(op)
    del x
    o = {"ret": r, "exc": e, "msg": "", "A": obs("A"), "B": obs("B"), "same": V["A"] is V["B"], "hold": [f("hold_id")(), f("hold_get")()] if f("hold_has")() else [0, 0]}
    n = L.vf_probes(BUF, len(BUF))
    o["counts"] = json.loads(BUF.raw[:n].decode())
    return o


def obs(s):
    x = V[s]
    if x is None:
        return None
    if type(x) is not C:
        return [-1, -1]
    return [x.id(), x.get()]


def clean():
    V["A"] = V["B"] = None
    f("holddrop")()
    gc.collect()
    L.vf_probes(BUF, len(BUF))


vf.loop(step, clean)
