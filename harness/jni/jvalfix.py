"""Java side of the value fixtures (types as in valfix)."""
import valfix as vx

NUMW = {"bool": 1, "u8": 2, "i8": 1, "u16": 4, "i16": 2, "u32": 8, "i32": 4, "u64": 8, "i64": 8, "usize": 8, "isize": 8}
SIGNED = {"i8", "i16", "i32", "i64", "isize"}
JT = {"bool": "boolean", "u8": "short", "i8": "byte", "u16": "int", "i16": "short", "u32": "long", "i32": "int", "u64": "long", "i64": "long", "usize": "long", "isize": "long",
      "f32": "float", "f64": "double", "str": "String", "string": "String", "path": "String", "date": "java.util.Date", "ref": "Foo", "unit": "void"}
BOX = {"i8": "Byte", "i16": "Short", "i32": "Integer", "i64": "Long", "f32": "Float", "f64": "Double"}
OPT = {"i8": ("Int", 1), "i16": ("Int", 2), "i32": ("Int", 4), "i64": ("Long", 8), "f32": ("Double", 4), "f64": ("Double", 8)}
LEAF = dict(vx.LEAF, u64=["ffffffffffffff7f.", "0102030405060708."], usize=["00000000000000ff."[:-3] + "7f.", "0100000000000000."], date=["0000000000000000.", "e90300007c010000."],
            Ar=["0a000000.", "00000080."], unit=["01.", "01."],
            string=[".", "f09f9880007ac3a9."], str=[".", "c3a9007af48fbfbf."])
PRIM = ["bool", "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize", "f32", "f64"]


def support(t):
    """Directions which flapigen supports for Java: i(n), o(ut), c(allback argument), r(esult of a callback)."""
    h = t[0]
    if len(t) == 1:
        if h in PRIM:
            return "iocr"
        return {"isize": "oc", "str": "ioc", "string": "ioc", "En": "ioc", "Ex": "ioc", "Foo": "ioc", "Cp": "ioc", "Ar": "ioc", "path": "i", "ref": "i", "date": "o", "unit": ""}[h]
    if h == "opt":
        return {"string": "o", "str": "i", "ref": "i"}.get(t[1][0], "io")
    if h in ("res", "resu"):
        return "o"
    if h == "slice":
        return "ioc"
    if h == "vec":
        return {"string": "o", "Cp": "ioc"}.get(t[1][0], "oc")
    raise AssertionError(t)


def no(types):
    return {n: {i for i, t in enumerate(types) if f not in support(t)} for n, f in (("no_in", "i"), ("no_out", "o"), ("no_cb_in", "r"), ("no_cb_out", "c"))}


def cv(l, v):
    """Rust text of a leaf value -> Java text."""
    if l in ("str", "string", "path"):
        return bytes.fromhex(v[:-1]).decode("utf-8").encode("utf-16-le").hex() + "."
    if l in NUMW:
        b = bytes.fromhex(v[:-1])
        return b.hex() + ("ff" if l in SIGNED and b[-1] >= 128 else "00") * (NUMW[l] - len(b)) + "."
    return v


def text(t, v, lang="rust"):
    h = t[0]
    if len(t) == 1:
        v = LEAF[h][v - 1]
        return cv(h, v) if lang == "java" else v
    c = v["c"]
    if c in ("N", "U"):
        return c
    if c in ("S", "O"):
        return c + text(t[1], v["v"], lang)
    if c == "E":
        return c + text(t[-1], v["v"], lang)
    if c == "L":
        v = {"v": vx.longer(v)}
    if c in "VL":
        return "V%d:" % len(v["v"]) + "".join(text(t[1], x, lang) for x in v["v"])
    raise AssertionError(c)


def jtext(t, v):
    return text(t, v, "java")


def jtype(t, d):
    h = t[0]
    if len(t) == 1:
        return JT.get(h, h)
    if h == "opt":
        x = t[1][0]
        if d == "in":
            return BOX.get(x, JT.get(x, x))
        return "java.util.Optional" + OPT[x][0] if x in OPT else "java.util.Optional<%s>" % JT.get(x, x)
    if h in ("vec", "slice"):
        return JT.get(t[1][0], t[1][0]) + "[]"
    if h == "res":
        return jtype(t[1], d)
    if h == "resu":
        return "void"


def cod(l):
    return {"str": "Val.string", "path": "Val.string", "ref": "Foo"}.get(l, l if l in ("Foo", "Cp", "Ar", "En", "Ex") else "Val." + l)


def dcod(l):
    return {"str": "Val.d_string", "string": "Val.d_string", "path": "Val.d_string", "ref": "d_Foo"}.get(l, "d_" + l if l in ("Foo", "Cp", "Ar", "En", "Ex") else "Val.d_" + l)


def enc(t, x, d, depth=0):
    """Statements that append the text of expression x to o."""
    h = t[0]
    if len(t) == 1:
        return "%s(%s, o); " % (cod(h), x)
    if h == "opt":
        l = t[1][0]
        if d == "in":
            return "if (%s == null) o.append('N'); else { o.append('S'); %s(%s, o); } " % (x, cod(l), x)
        if l in OPT:
            k, w = OPT[l]
            g = "%s.getAs%s()" % (x, k)
            e = "Val.narrowf(%s, o);" % g if l == "f32" else "Val.f64(%s, o);" % g if l == "f64" else "Val.narrow(%s, %d, o);" % (g, w)
            return "if (!%s.isPresent()) o.append('N'); else { o.append('S'); %s } " % (x, e)
        return "if (!%s.isPresent()) o.append('N'); else { o.append('S'); %s(%s.get(), o); } " % (x, cod(l), x)
    if h in ("vec", "slice"):
        return "o.append(\"V\" + %s.length + \":\"); for (%s y%d : %s) { %s } " % (x, jtype(t[1], d), depth, x, enc(t[1], "y%d" % depth, d, depth + 1))
    if h == "res":
        return "o.append('O'); " + enc(t[1], x, d, depth)
    raise AssertionError(t)


def dec(t):
    """Java expression (needs P p)."""
    h = t[0]
    if len(t) == 1:
        return dcod(h) + "(p)"
    if h == "opt":
        b = jtype(t, "in")
        return "p.ch() == 'N' ? null : (%s) %s(p)" % (b, dcod(t[1][0]))
    raise AssertionError(t)


def dispatch(types, sigs, name="Dr"):
    o = ["package com.example;", "import com.example.Val.P;", "public final class %s implements Vf.Driver {" % name,
         "    static final StringBuilder said = new StringBuilder();", "    static final java.util.List<Object> objs = new java.util.ArrayList<>();", "    static String input;",
         '    static void say(String w, String s) { if (said.length() > 0) said.append(\',\'); said.append(Vf.quote(w + " " + s)); }']
    for e, vs in (("En", ["Aa", "Bb", "Cc"]), ("Ex", ["Zz", "Aaa", "Mm", "Last"])):
        o.append("    static void %s(%s x, StringBuilder o) { Val.num(x == null ? 99 : %s : 98, 1, o); }" % (e, e, " : ".join("x == %s.%s ? %d" % (e, v, i) for i, v in enumerate(vs))))
        o.append("    static %s d_%s(P p) { switch ((int) p.num(1)) { %s default: throw new IllegalArgumentException(); } }" % (e, e, " ".join("case %d: return %s.%s;" % (i, e, v) for i, v in enumerate(vs))))
    for c in ("Foo", "Cp", "Ar"):
        o.append("    static void %s(%s x, StringBuilder o) { objs.add(x); if (x.mNativeObj == 0) { o.append(\"empty \"); return; } Val.hex(x.get(), 4, o); o.append('@').append(x.serial()).append('.'); }" % (c, c))
        o.append("    static %s d_%s(P p) { %s x = new %s((int) p.num(4)); objs.add(x); return x; }" % (c, c, c, c))
    for k, t in enumerate(types):
        ti, to = jtype(t, "in"), jtype(t, "out")
        sup = support(t)
        res = t[0] in ("res", "resu")
        if "i" in sup or "r" in sup:
            o.append("    static String enci_%d(%s x) { StringBuilder o = new StringBuilder(); %sreturn o.toString(); }" % (k, ti, enc(t, "x", "in")))
            if t[0] in ("vec", "slice"):
                o.append("    static %s dec_%d(P p) { p.ch(); %s r = new %s[p.count()]; for (int i = 0; i < r.length; ++i) r[i] = %s; return r; }" % (ti, k, ti, ti[:-2], dec(t[1])))
            else:
                o.append("    static %s dec_%d(P p) { return %s; }" % (ti, k, dec(t)))
        if ("o" in sup or "c" in sup) and t[0] != "resu":
            o.append("    static String enco_%d(%s x) { StringBuilder o = new StringBuilder(); %sreturn o.toString(); }" % (k, to, enc(t, "x", "out")))

        def call(e, tag="cpp"):
            if t[0] == "resu":
                return 'String s; try { %s; s = "U"; } catch (Exception e) { s = Val.exc(e); } say("%s", s);' % (e, tag)
            if res:
                return 'String s; try { s = enco_%d(%s); } catch (Exception e) { s = Val.exc(e); } say("%s", s);' % (k, e, tag)
            return 'say("%s", enco_%d(%s));' % (tag, k, e)

        b = []
        T = "T%d." % k
        if "i" in sup:
            b.append('case "in": { %s x = dec_%d(p); say("cpp", enci_%d(x)); %sin_%d(x); break; }' % (ti, k, k, T, k))
            if "o" in sup:
                b.append('case "echo": { %s x = dec_%d(p); say("cpp", enci_%d(x)); %s break; }' % (ti, k, k, call("%secho_%d(x)" % (T, k), "back")))
        if "o" in sup:
            b.append('case "out": { Val.put(v); %s break; }' % call("%sout_%d()" % (T, k)))
            if res:
                b.append('case "moved": { Val.put(v); %s break; }' % call("%sout_%d()" % (T, k)))
                b.append('case "discard": { Val.put(v); try { %sout_%d(); } catch (Exception e) { } break; }' % (T, k))
            else:
                b.append('case "moved": { Val.put(v); %s x = %sout_%d(); if ((++n & 15) == 0) Vf.gc(); say("cpp", enco_%d(x)); break; }' % (to, T, k, k))
                b.append('case "discard": { Val.put(v); %sout_%d(); break; }' % (T, k))
            if vx.owned(t):
                b.append('case "give": { %s break; }' % call("%sgive_%d()" % (T, k)))
        if vx.owned(t):
            b.append('case "dropr": { %sdropr_%d(); break; }' % (T, k))
        cb = []
        if "c" in sup:
            cb.append('public void onArg(%s x) { say("cpp", enco_%d(x)); }' % (to, k))
            b.append('case "cbarg": { Val.put(v); %scbarg_%d(new CB%d()); break; }' % (T, k, k))
        if "r" in sup:
            cb.append('public %s onRet() { %s x = dec_%d(new P(input)); say("cpp", enci_%d(x)); return x; }' % (ti, ti, k, k))
            b.append('case "cbret": { input = v; %scbret_%d(new CB%d()); break; }' % (T, k, k))
        if "c" in sup and "r" in sup and vx.owned(t):
            cb.append('public %s onEcho(%s x) { say("cpp", enco_%d(x)); return x; }' % (ti, to, k))
            b.append('case "cbecho": { Val.put(v); %scbecho_%d(new CB%d()); break; }' % (T, k, k))
        if cb:
            o.append("    static final class CB%d implements C%d {\n        %s\n    }" % (k, k, "\n        ".join(cb)))
        o.append("    void t_%d(String op, String v) throws Throwable {\n        P p = new P(v);\n        switch (op) {\n        %s\n        default: throw new IllegalArgumentException(op); } }" % (k, "\n        ".join(b)))
    for k, s in enumerate(sigs):
        at = s["args"]
        r = s["ret"]
        if s["kind"] == "cb":
            rt = "void" if r is None else jtype(at[r], "in")
            o.append("    static final class DB%d implements D%d { public %s call(%s) { StringBuilder o; %s %s } }" % (
                k, k, rt, ", ".join("%s a%d" % (jtype(t, "out"), i) for i, t in enumerate(at)),
                "".join('o = new StringBuilder(); %ssay("a%d", o.toString()); ' % (enc(t, "a%d" % i, "out"), i) for i, t in enumerate(at)), "" if r is None else "return a%d;" % r))
            o.append("    void m_%d(String v) throws Throwable { Val.put(v); M%d.call(new DB%d()); }" % (k, k, k))
            continue
        b = "P p = new P(v); StringBuilder o; "
        for i, t in enumerate(at):
            if t[0] in ("vec", "slice"):
                ti = jtype(t, "in")
                b += "p.ch(); %s a%d = new %s[p.count()]; for (int i = 0; i < a%d.length; ++i) a%d[i] = %s; o = new StringBuilder(); %ssay(\"s%d\", o.toString()); " % (
                    ti, i, ti[:-2], i, i, dec(t[1]), enc(t, "a%d" % i, "in"), i)
                continue
            b += '%s a%d = %s; o = new StringBuilder(); %ssay("s%d", o.toString()); ' % (jtype(t, "in"), i, dec(t), enc(t, "a%d" % i, "in"), i)
        args = ", ".join("a%d" % i for i in range(len(at)))
        pre = "%s r = " % jtype(at[r], "out") if r is not None else ""
        post = 'o = new StringBuilder(); %ssay("ret", o.toString()); ' % enc(at[r], "r", "out") if r is not None else ""
        if s["kind"] == "static":
            b += "%sM%d.call(%s); %s" % (pre, k, args, post)
        elif s["kind"] == "ctor":
            b += "M%d m = new M%d(%s); m.delete();" % (k, k, args)
        else:
            b += "M%d m = new M%d(); %sm.call(%s); %sm.delete();" % (k, k, pre, args, post)
        o.append("    void m_%d(String v) throws Throwable { %s }" % (k, b))
    o.append("    int n = 0;")
    o.append("    void type(int k, String op, String v) throws Throwable { switch (k) { %s default: throw new IllegalArgumentException(); } }" % " ".join("case %d: t_%d(op, v); break;" % (k, k) for k in range(len(types))))
    o.append("    void sig(int k, String v) throws Throwable { switch (k) { %s default: throw new IllegalArgumentException(); } }" % " ".join("case %d: m_%d(v); break;" % (k, k) for k in range(len(sigs))))
    o.append("""    public String step(String[] c) throws Throwable {
        said.setLength(0);
        String err = "";
        try {
            if (c[0].equals("sig"))
                sig(Integer.parseInt(c[1]), c[2]);
            else
                type(Integer.parseInt(c[1]), c[0], c.length > 2 ? c[2] : "");
        } catch (IllegalArgumentException e) {
            throw e;
        } catch (Exception e) {
            err = Vf.str(e);
        }
        rel();
        if (c[0].equals("discard"))
            Vf.gc();
        return "\\"said\\":[" + said + "],\\"msg\\":" + Vf.quote(err);
    }
    static void rel() {
        for (Object x : objs) {
            if (x instanceof Foo) ((Foo) x).delete();
            else if (x instanceof Cp) ((Cp) x).delete();
            else ((Ar) x).delete();
        }
        objs.clear();
    }
    public void clean() throws Throwable { @CLEAN@ }
    public void fresh() { }
    public static void main(String[] args) throws Throwable {
        System.load(args[0]);
        Vf.loop(new %s());
    }
}
""".replace("@CLEAN@", " ".join("T%d.dropr_%d();" % (k, k) for k, t in enumerate(types) if vx.owned(t))) % name)
    return "\n".join(o)
