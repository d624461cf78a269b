"""Shared by the Python drivers: loads the module, asks the Rust side for its report, answers requests."""
import ctypes, gc, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[1])))
gc.disable()
import vfix
L = ctypes.CDLL(os.path.abspath(sys.argv[1]))
L.vf_report.restype = L.vf_allocs.restype = ctypes.c_size_t
BUF = ctypes.create_string_buffer(1 << 20)


def report():
    n = L.vf_report(BUF, len(BUF))
    return json.loads("{" + BUF.raw[:n].decode("utf-8", "surrogatepass") + "}")


def put(s):
    b = s.encode()
    L.vf_put(b, ctypes.c_size_t(len(b)))


def out(o):
    sys.stdout.write("@" + json.dumps(o) + "\n")
    sys.stdout.flush()


def loop(step, clean, fresh=None):
    base = None
    for line in sys.stdin:
        c = line.rstrip("\n").split(" ")
        if c[0] == "reset":
            clean()
            gc.collect()
            o = report()
            a = L.vf_allocs()
            o["allocs"] = 0 if base is None else a - base
            L.vf_reset()
            base = L.vf_allocs()
            if fresh:
                fresh()
        else:
            o = step(c)
            o.update(report())
        out(o)
