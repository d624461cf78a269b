"""Fixture of TypeMap.tla: types with conversion rules written by the user, in type map files and in the description."""

import re

KINDS = ("code", "rust", "wide", "pre", "via", "bool", "u16", "so", "cst", "lat", "codec")
FAMILY = [("Cpp%s::Std17" % x, "Cpp%s::Boost" % x) for x in ("Variant", "Optional", "StrView")]


def opts(rng, lang):
    return rng.choice(FAMILY) if lang == "cpp" else ("NoNullAnnotations", "NullAnnotations")



VARS = ("p", "p", "x", "o", "ou", "out_", "outer", "pp", "v1")
LITERALS = ("a,b", "x ,y", ",,c", " (z)", "grö", "ße", " – ok", "€", "d, ,e", "f  g", "h)", "(i", "!(j)", "swig_", "k!")


def fnv(x):
    h = 0xcbf29ce484222325
    for b in x.encode():
        h = (h ^ b) * 0x100000001b3 % 2**64
    return h


def lit(rng):
    """A statement for Rust code of a rule: a literal inside of macro call has to arrive as written."""
    x = "".join(rng.sample(LITERALS, rng.randint(1, 4)))
    return 'lit(%s!("%s"), %d);' % (rng.choice(("concat", "concat ", "std::concat", "idem")), x, fnv(x))


def names(rng, text, *temps):
    """The variables of a rule get other names, which can be prefixes of each other."""
    new = rng.sample(sorted(set(VARS)), 1 + len(temps))
    for old, n in zip(("p",) + temps, new):
        text = re.sub(r"\$%s\b" % old, "$@" + n, text)
    return text.replace("$@", "$")


def choose(rng, lang, n):
    """Types [{kind, via, stmt, parts}], expressions. A part: {d, layer, r, f}; stages (id, a, b)."""
    ms, ids = [], [0]

    def stage(ident=False):
        ids[0] += 1
        return (ids[0], 1, 0) if ident else (ids[0], rng.choice((2, 3, 5)), rng.randint(1, 4))

    def parts(kind):
        ps = []
        ident = kind == "bool"
        if kind == "cst":
            l = rng.choice((1, 2, 3))
            return [{"d": d, "layer": l, "r": (), "f": {}} for d in ("in", "out")]
        for d in ("in", "out"):
            for l in sorted(rng.sample((1, 2, 3), rng.choice((1, 1, 2, 2, 3)))):
                f = {}
                if kind in ("code", "wide", "pre", "so", "codec"):
                    f = {o: stage() for o in (opts(rng, lang) if kind in ("code", "pre", "codec") and rng.random() < .3 else ("",))}
                if len(f) > 1 and any(q["d"] == d for q in ps) and rng.random() < .4:
                    del f[rng.choice(sorted(f))]     # foreign code for one configuration only: in the other one that of the earlier rule stays
                ps.append({"d": d, "layer": l, "r": stage(ident), "f": f})
        ps.sort(key=lambda p: p["layer"])
        return ps

    def add(kind, via=0, stmt=False):
        ms.append({"kind": kind, "via": via, "stmt": stmt, "parts": parts(kind), "base": [0, 1] if kind == "bool" else [0, 1, 2]})
        return len(ms)
    code = [add("code", stmt=i % 3 == 2 and rng.choice(["i", "io"])) for i in range(n)]
    rust = [add("rust") for i in range(n // 2 + 1)]
    wide = [add("wide", stmt=i % 2 == 1 and rng.choice(["i", "io"])) for i in range(2)]
    pre = [add("pre") for i in range(2)]
    via = [add("via", rng.choice(code)), add("via", rng.choice(rust)), add("via", rng.choice(wide))]
    via.append(add("via", via[0]))
    ov = [add("bool")] + ([add("u16")] if lang == "java" else [])
    if lang == "cpp":
        code += [add("codec") for i in range(2)]
        rust += [add("lat") for i in range(2)] + [add("cst") for i in range(2)]
        via.append(add("via", rng.choice(rust[-4:-2] + code[-2:])))
    so = [add("so") for i in range(2)]
    for k in so:
        ms[k - 1]["of"] = rng.choice(code[:n])
    if ms[so[0] - 1]["of"] == ms[so[1] - 1]["of"]:
        ms[so[1] - 1]["of"] = rng.choice([c for c in code[:n] if c != ms[so[0] - 1]["of"]])
    special = {ms[k - 1]["of"] for k in so}
    es = [["m", k] for k in code + rust + wide + pre + via + ov] + [["so", k] for k in so]
    plain = [k for k in code + rust + pre + via + ov if k not in special]
    if lang == "cpp":
        # what is a statement on the C++ side cannot be nested
        def is_stmt(k):
            return ms[k - 1]["stmt"] or (ms[k - 1]["via"] and is_stmt(ms[k - 1]["via"]))
        plain = [k for k in plain if not is_stmt(k)]
        es += [["opt", ["m", k]] for k in rng.sample(plain, 3)] + [["wr", ["m", k]] for k in rng.sample(plain, 3)] + [["wr", ["opt", ["m", rng.choice(plain)]]], ["opt", ["wr", ["m", rng.choice(plain)]]]]
        es += [["pair", ["m", rng.choice(plain)], ["m", rng.choice(plain)]] for i in range(3)] + [["pair", ["so", so[0]], ["opt", ["m", rng.choice(plain)]]]]
        es += [["duo", ["m", rng.choice(plain)], ["m", rng.choice(plain)]] for i in range(3)]
        es += [["duo", ["pair", ["m", rng.choice(plain)], ["m", rng.choice(plain)]], ["m", rng.choice(plain)]], ["opt", ["duo", ["m", rng.choice(plain)], ["wr", ["m", rng.choice(plain)]]]]]
        seen, r = {}, []
        for t in es:
            if all(seen.setdefault(fkey(ms, u), u) == u for u in subs(t) if u[0] in ("opt", "pair", "duo")):
                r.append(t)
        es = r
    else:
        es += [["wr", ["m", k]] for k in rng.sample(plain, 3)] + [["wr", ["wr", ["m", rng.choice(plain)]]], ["wr", ["so", so[0]]]]
    return ms, es


def leaves(t):
    return [t[1]] if t[0] in ("m", "so") else [x for u in t[1:] for x in leaves(u)]


def fkey(ms, t, d="out"):
    """Stands for the name of the foreign type: generic rules are not expanded twice for types which share it."""
    if t[0] == "m":
        k = t[1]
        while ms[k - 1]["via"]:
            k = ms[k - 1]["via"]
        return ms[k - 1]["kind"] if ms[k - 1]["kind"] in ("rust", "bool") else k
    if t[0] == "so":
        return ("so", t[1])
    if t[0] == "wr":
        return ("wr", repr(t[1]))
    return tuple([t[0]] + [fkey(ms, u) for u in t[1:]])


def subs(t):
    return [t] + [x for u in t[1:] if isinstance(u, list) for x in subs(u)]


def limits(ms, es, lang):
    """NoIn, NoCbArg, NoCbRet, NoRes, NoCb: numbers of expressions."""
    no_in, no_arg, no_ret, no_res, no_cb = set(), set(), set(), set(), set()
    keys = set()
    for i, t in enumerate(es, 1):
        kinds = set()
        for k in leaves(t):
            while k:
                kinds.add((ms[k - 1]["kind"], ms[k - 1]["stmt"]))
                k = ms[k - 1]["via"]
        if lang == "cpp":
            if any(s == "io" for a, s in kinds):
                no_arg.add(i)    # an argument of a callback or what a Result has: expressions only
                no_res.add(i)
            if fkey(ms, t) in keys:
                no_res.add(i)
            keys.add(fkey(ms, t))
        if lang == "java":
            if t[0] == "wr":
                no_in.add(i)     # no foreign code for the opposite direction of a generic rule
            if t[0] == "wr" or any(a in ("code", "wide", "pre", "so") for a, s in kinds):
                no_cb.add(i)     # callbacks: only conversions without Java code
        elif any(s for a, s in kinds):
            no_ret.add(i)        # statements are no expressions: not usable for what a callback returns
    return no_in, no_arg, no_ret, no_res, no_cb


def rtype(ms, t):
    if t[0] == "m":
        return {"bool": "bool", "u16": "u16"}.get(ms[t[1] - 1]["kind"], "M%d" % t[1])
    if t[0] == "so":
        return "Option<M%d>" % ms[t[1] - 1]["of"]
    if t[0] == "pair":
        return "(%s, %s)" % (rtype(ms, t[1]), rtype(ms, t[2]))
    if t[0] == "duo":
        return "Duo<%s, %s>" % (rtype(ms, t[1]), rtype(ms, t[2]))
    return "%s<%s>" % ({"opt": "Option", "wr": "Wr"}[t[0]], rtype(ms, t[1]))


def rule(rng, ms, k, ps, lang):
    """The text of the macros which define the parts ps of type k, all of one layer."""
    m = ms[k - 1]
    J, kd = lang == "java", m["kind"]
    I = "jint" if J else "i32"
    me = rtype(ms, ["so" if kd == "so" else "m", k])
    req = "" if J else ', req_modules = ["\\"tm.hpp\\""]'
    FSTAGE = "@S@"       # stands for the numbers of a stage
    fst = lambda s, x: "%s(%s, %s)" % ("com.example.Tm.st" if J else "utm::st", s, x)
    rst = lambda s, x: "st(%d, %d, %d, %s)" % (tuple(s) + (x,))
    F = ("com.example.F%d" if J else "utm::F%d") % k
    blocks = []
    if kd == "cst":
        return ('foreign_typemap!(\n    define_c_type!(module = "D%d.h"; #[repr(C)] #[derive(Clone, Copy)] pub struct M%d { pub a: i8, pub b: i64, pub c: i16, });\n'
                '    (r_type) M%d;\n    (f_type) "M%d";\n);\n' % (k, k, k, k))
    head = ""
    if kd in ("lat", "codec") and ps[0] is m["parts"][0]:
        head = 'foreign_typemap!(\n    define_c_type!(module = "CM%d.h"; #[repr(C)] #[derive(Clone, Copy)] pub struct CM%d { a: i16, b: i32, c: u8, });\n%s);\n' % (k, k, fcode(k) if kd == "codec" else "")
    for p in ps:
        o, r = p["d"] == "out", p["r"]
        rt, ft = "", ""
        f = FSTAGE
        arrow = "=>" if o else "<="
        if kd == "via":
            v = rtype(ms, ["m", m["via"]])
            rt = "%s { $out = %s(%s); };" % (v, v if o else me, rst(r, "$p.0"))
        elif kd == "bool":
            c = "jboolean" if J else "::std::os::raw::c_char"
            rt = "%s { $out = %s; };" % (c, rst(r, "$p as i32") + " as " + c if o else rst(r, "$p as i32") + " != 0")
        elif kd == "u16":
            rt = "jint { $out = %s; };" % (rst(r, "$p as i32") if o else rst(r, "$p") + " as u16")
        elif kd == "so":
            of = "M%d" % m["of"]
            rt = "%s { $out = %s; };" % (I, "match $p { None => -1, Some(x) => %s }" % rst(r, "x.0") if o else "if $p == -1 { None } else { Some(%s(%s)) }" % (of, rst(r, "$p")))
            u = "/*so%d%s*/" % (k, p["d"])
            if J and o:
                ft = '($p:f_type, unique_prefix = "%s") => "%sjava.util.OptionalInt" "$out; if ($p == -1) { $out = java.util.OptionalInt.empty(); } else { $out = java.util.OptionalInt.of(%s); }";' % (u, u, fst(f, "$p"))
            elif J:
                ft = '($p:f_type, unique_prefix = "%s") <= "%sInteger" "$out = ($p == null) ? -1 : %s;";' % (u, u, fst(f, "$p"))
            elif o:
                ft = '($p:f_type, unique_prefix = "%s"%s) => "%sstd::optional<int>" "$p == -1 ? std::optional<int>() : std::optional<int>(%s)";' % (u, req, u, fst(f, "$p"))
            else:
                ft = '($p:f_type, unique_prefix = "%s"%s) <= "%sstd::optional<int>" "$p ? %s : -1";' % (u, req, u, fst(f, "*$p"))
        else:
            i = I
            if kd == "wide":
                i = (("jlong" if J else "i64") if o else ("jshort" if J else "i16"))
            rt = "%s { $out = %s; };" % (i, rst(r, "$p.0") + (" as " + i if kd == "wide" else "") if o else "%s(%s)" % (me, rst(r, "$p as i32" if kd == "wide" else "$p")))
            if kd in ("lat", "codec"):
                S = "CM%d" % k
                rt = "%s { $out = %s; };" % (S, "%s { a: 7, b: %s, c: 9 }" % (S, rst(r, "$p.0")) if o else "{ cst($p.a == 7 && $p.c == 9); %s(%s) }" % (me, rst(r, "$p.b")))
                req = ', req_modules = ["\\"tm.hpp\\"", "\\"CM%d.h\\""]' % k
                pre, T, out, inn = "", F, "%s{%s}" % (F, fst(f, "cm%d_b($p.b)" % k if kd == "codec" else "$p.b")), "%s{7, %s, 9}" % (S, fst(f, "cm%d_b($p.v)" % k if kd == "codec" else "$p.v"))
            if kd == "code":
                pre, T, val = "", F, "$p.v"
                new = "new %s(%s)" if J else "%s{%s}"
                out = new % (F, fst(f, "$p"))
                inn = fst(f, val)
            elif kd == "pre":
                pre, T = "/*pre%d*/" % k, "int" if J else "int32_t"
                out = inn = fst(f, "$p")
            elif kd == "wide" and o:
                pre, T = "/*w%do*/" % k, "long" if J else "int64_t"
                out = ("(long) " if J else "int64_t") + ("(%s)" % fst(f, "(int) $p" if J else "int($p)"))
            elif kd == "wide":
                pre, T = "/*w%di*/" % k, F
                inn = ("(short) " if J else "int16_t") + ("(%s)" % fst(f, "$p.v"))
            if kd not in ("rust", "lat"):
                code = out if o else inn
                if J or m["stmt"] == "io" or (m["stmt"] and not o):
                    code = "$out = %s;" % code
                up = (', unique_prefix = "%s"' % pre if pre else "") + "@O@"
                ft = '($p:f_type%s%s) %s "%s%s" "%s";' % (up, req, arrow, pre, T, code)
        fts = [ft.replace("@S@", "%d, %d, %d" % tuple(st)).replace("@O@", ', option = "%s"' % opt if opt else "") for opt, st in p["f"].items()] if ft else []
        if len(fts) == 2 and rng.random() < .4:
            blocks += [(["($p:r_type) %s %s %s" % (me, arrow, rt)], [x]) for x in fts]
        else:
            blocks.append((["($p:r_type) %s %s %s" % (me, arrow, rt)], fts))
    if len(blocks) == 2 and len(ps) == 2 and kd in ("code", "rust", "pre", "via", "bool", "u16", "lat", "codec") and rng.random() < .6:
        if rng.random() < .5:
            blocks.reverse()
        blocks = [(blocks[0][0] + blocks[1][0], blocks[0][1] + blocks[1][1])]
    if rng.random() < .5:
        blocks = [([x.replace("{ $out", "{ %s $out" % lit(rng), 1) for x in a], b) for a, b in blocks]
    return head + "".join("foreign_typemap!(\n    %s\n);\n" % "\n    ".join(names(rng, x) for x in a + b) for a, b in blocks)


def fcode(k):
    """Foreign code of a rule: in order, for the option that is set."""
    c = '    foreign_code!(module = "CM%d.h";%s r#"\n/* what the code of the rules of this type needs on the other side */\ninline int32_t cm%d_%s(int32_t x) { return %s; }\n"#);\n'
    return c % (k, "", k, "a", "x + 1") + "".join(c % (k, ' option = "%s";' % o, k, "b", "cm%d_a(x) - 1" % k) for o in FAMILY[k % 3])


LIT = '''fn lit(x: &str, h: u64) {
    let mut n = 0xcbf29ce484222325u64;
    for b in x.bytes() { n = (n ^ b as u64).wrapping_mul(0x100000001b3); }
    if n != h { vlog!("literal changed") }
}
'''
DUO = '''foreign_typemap!(
    generic_alias!(CDuo = swig_concat_idents!(CDuo, swig_i_type!(T1), swig_i_type!(T2)));
    generic_alias!(CDuoModule = swig_concat_idents!(duo, swig_i_type!(T1), swig_i_type!(T2)));
    define_c_type!(
        module = "CDuoModule!().h";
        #[repr(C)]
        #[derive(Clone, Copy)]
        pub struct CDuo!() { x: swig_i_type!(T1), y: swig_i_type!(T2), }
    );
    foreign_code!(module = "CDuoModule!().h"; r#"
/* the parts of a pair as C sees it, for the code of the rule */
inline const swig_i_type!(T1) &duo_x(const CDuo!() &p) { return p.x; }
"#);
    foreign_code!(module = "CDuoModule!().h"; r#"
/* the parts of a pair as C sees it, for the code of the rule */
inline const swig_i_type!(T2) &duo_y(const CDuo!() &p) { return duo_x(p), p.y; }
"#);
    ($p:r_type) <T1, T2> Duo<T1, T2> => CDuo!() {
        let duo_ = $p; @LIT@
        $out = CDuo!() { x: { swig_from_rust_to_i_type!(T1, duo_.0, x) x }, y: { swig_from_rust_to_i_type!(T2, duo_.1, y) y } };
    };
    ($p:f_type, req_modules = ["\\"tm.hpp\\"", "\\"CDuoModule!().h\\""]) => "utm::Duo<swig_f_type!(T1), swig_f_type!(T2)>"
        "/* größe – € (x,,y) */ utm::Duo<swig_f_type!(T1), swig_f_type!(T2)>{ swig_foreign_from_i_type!(T1, duo_x($p)), swig_foreign_from_i_type!(T2, duo_y($p)) }";
    ($p:r_type) <T1, T2> Duo<T1, T2> <= CDuo!() {
        let duo_ = $p; @LIT@
        $out = Duo({ swig_from_i_type_to_rust!(T1, duo_.x, x) x }, { swig_from_i_type_to_rust!(T2, duo_.y, y) y });
    };
    ($p:f_type, req_modules = ["\\"tm.hpp\\"", "\\"CDuoModule!().h\\""]) <= "utm::Duo<swig_f_type!(T1), swig_f_type!(T2)>"
        "CDuo!() { /* ∅, é! */ swig_foreign_to_i_type!(T1, $p.a), swig_foreign_to_i_type!(T2, $p.b) }";
);
'''
FUT = '''foreign_typemap!(
    generic_alias!(CFnOnce = swig_concat_idents!(CFnOnce, swig_i_type!(T, output)));
    define_c_type!(
        module = "CFnOnce!().h";
        #[repr(C)]
        pub struct CFnOnce!() {
            cb: extern "C" fn(swig_i_type!(T, output), *mut ::std::os::raw::c_void),
            ctx: *mut ::std::os::raw::c_void,
        });
    ($p:r_type) <T> impl FnOnce(T) <= CFnOnce!()
    {
        $out_no_type = move |inner_: swig_subst_type!(T)| {
            let _ = & $p;
            swig_from_rust_to_i_type!(T, inner_, inner_)
            ($p.cb)(inner_, $p.ctx);
        };
    };
    ($p:f_type, $tmp:temporary, $other:temporary, input_to_output, req_modules = ["\\"CFnOnce!().h\\"", "<future>"]) <= "std::future<swig_f_type!(T, output)>"
        r#"
        auto $tmp = new std::promise<swig_f_type!(T, output)>;
        auto $p = $tmp->get_future();
        $out;
        $out.ctx = $tmp;
        $out.cb = [](swig_i_type!(T, output) arg, void *opaque) {
            auto arg_cpp = swig_foreign_from_i_type!(T, arg);
            auto $other = static_cast<std::promise<swig_f_type!(T, output)> *>(opaque);
            $other->set_value(std::move(arg_cpp));
            delete $other;
        };
"#;
);
'''


def description(rng, ms, es, lang):
    """(text of type map 1, of type map 2, of the description)"""
    texts = {1: [], 2: [], 3: []}
    for l in texts:
        for k in range(1, len(ms) + 1):
            ps = [p for p in ms[k - 1]["parts"] if p["layer"] == l]
            if ps:
                texts[l].append(rule(rng, ms, k, ps, lang))
        rng.shuffle(texts[l])
    texts[rng.choice((1, 2, 3))].append(LIT)     # a function of a type map file is there in the glue
    u = "/*Wr<swig_subst_type!(T)>*/"
    w = ['($p:r_type) <T> Wr<T> => swig_i_type!(T) { $out = { swig_from_rust_to_i_type!(T, $p.0, wr_) wr_ }; };',
         '($p:f_type, unique_prefix = "%s") => "%sswig_f_type!(T)" "swig_foreign_from_i_type!(T, $p)";' % (u, u)]
    if lang == "cpp":
        w += ['($p:r_type) <T> Wr<T> <= swig_i_type!(T) { $out = { swig_from_i_type_to_rust!(T, $p, wr_) Wr(wr_) }; };',
              '($p:f_type, unique_prefix = "%s") <= "%sswig_f_type!(T)" "swig_foreign_to_i_type!(T, $p)";' % (u, u)]
    w = [names(rng, x.replace("{ $out = {", "{ %s $out = {" % lit(rng))) for x in w]
    texts[rng.choice((1, 2, 3))].append("foreign_typemap!(\n    %s\n);\n" % "\n    ".join(w))
    if lang == "cpp":
        texts[rng.choice((1, 2, 3))].append(re.sub("@LIT@", lambda m: lit(rng), names(rng, DUO)))
        texts[rng.choice((1, 2, 3))].append(names(rng, FUT, "tmp", "other"))
    no_in, no_arg, no_ret, no_res, no_cb = limits(ms, es, lang)
    o = ""
    for i, t in enumerate(es, 1):
        T = rtype(ms, t)
        f = ["constructor U%d::new() -> U%d;" % (i, i), "fn s_out_%d() -> %s; alias sOut;" % (i, T), "fn U%d::m_out(&self) -> %s;" % (i, T)]
        if lang == "cpp" and i not in no_res:
            c, n = rng.sample(("tmp", "p0", "p1", "ret", "a0", "a1", "c", "x", "arg", "promise", "opaque", "n", "_"), 2)
            f += ["fn s_fut_%d(%s: i32, %s: impl FnOnce(%s)); alias sFut;" % (i, n, c, T), "fn U%d::m_fut(&self, %s: impl FnOnce(%s), %s: i32);" % (i, c, T, n),
                  "fn s_defer_%d(%s: impl FnOnce(%s)); alias sDefer;" % (i, c, T), "fn U%d::m_defer(&mut self, %s: i32, %s: impl FnOnce(%s), _: i32);" % (i, n, c, T), "fn fire_%d(); alias fire;" % i]
        if i not in no_res:
            f.append("fn U%d::res(&mut self, ok: i32) -> Result<%s, String>;" % (i, T))
        if i not in no_in:
            f += ["fn s_in_%d(a: %s); alias sIn;" % (i, T), "fn U%d::m_in(&self, a: %s);" % (i, T), "fn U%d::mut_in(&mut self, n: i32, a: %s) -> i32;" % (i, T),
                  "fn U%d::m_two(&self, a: %s, b: %s);" % (i, T, T), "fn s_two_%d(a: %s, n: i32, b: %s); alias sTwo;" % (i, T, T), "fn s_echo_%d(a: %s) -> %s; alias sEcho;" % (i, T, T),
                  "fn U%d::m_echo(&self, a: %s) -> %s;" % (i, T, T)]
            o += "foreign_class!(class T%d { self_type T%d; constructor T%d::new(a: %s) -> T%d; });\n" % (i, i, i, T, i)
        cb = []
        if i not in no_arg | no_cb:
            cb += ["onOne = C%d::on_one(&self, a: %s);" % (i, T), "onTwo = C%d::on_two(&self, a: %s, n: i32, b: %s);" % (i, T, T)]
            f.append("fn cb_arg_%d(c: Box<dyn C%d>, n: i32); alias cbArg;" % (i, i))
        if i not in no_ret | no_cb and i not in no_in:
            cb.append("onRet = C%d::on_ret(&self) -> %s;" % (i, T))
            f.append("fn cb_ret_%d(c: Box<dyn C%d>); alias cbRet;" % (i, i))
        if cb:
            o += "foreign_callback!(callback C%d { self_type C%d; %s });\n" % (i, i, " ".join(cb))
        o += "foreign_class!(class U%d {\n    self_type U%d;\n    %s\n});\n" % (i, i, "\n    ".join(f))
    return "".join(texts[1]), "".join(texts[2]), "".join(texts[3]) + o


BASE = """
use std::cell::RefCell;
pub fn st(id: i32, a: i32, b: i32, x: i32) -> i32 { vlog!("r {}", id); a.wrapping_mul(x).wrapping_add(b) }
#[derive(Clone, Copy)]
pub struct Wr<T>(pub T);
pub trait Tm { fn t(&self) -> String; }
impl Tm for bool { fn t(&self) -> String { (*self as i32).to_string() } }
impl Tm for u16 { fn t(&self) -> String { self.to_string() } }
impl<T: Tm> Tm for Wr<T> { fn t(&self) -> String { self.0.t() } }
impl<T: Tm> Tm for Option<T> { fn t(&self) -> String { match self { None => "N".into(), Some(x) => format!("S{}", x.t()) } } }
impl<T: Tm, U: Tm> Tm for (T, U) { fn t(&self) -> String { format!("({},{})", self.0.t(), self.1.t()) } }
#[derive(Clone, Copy)]
pub struct Duo<T, U>(pub T, pub U);
impl<T: Tm, U: Tm> Tm for Duo<T, U> { fn t(&self) -> String { format!("({},{})", self.0.t(), self.1.t()) } }
macro_rules! idem { ($x:expr) => { $x } }
pub fn cst(ok: bool) { if !ok { vlog!("a field of a C struct has changed") } }
pub fn saw<T: Tm>(x: &T) { let _g = vf::Guard::new(); let s = x.t(); vlog!("saw {}", s); drop(s) }
"""


FUT_RS = """thread_local! { static F%(i)d: RefCell<Option<Box<dyn FnOnce(%(T)s)>>> = RefCell::new(None); }
pub fn s_fut_%(i)d(n: i32, f: impl FnOnce(%(T)s)) { assert_eq!(n, 81); f(kept_%(i)d()) }
pub fn defer_%(i)d(f: impl FnOnce(%(T)s) + 'static) { F%(i)d.with(|x| { let old = x.replace(Some(Box::new(f))); assert!(old.is_none()) }) }
pub fn s_defer_%(i)d(f: impl FnOnce(%(T)s) + 'static) { defer_%(i)d(f) }
pub fn fire_%(i)d() { let f = F%(i)d.with(|x| x.take()).expect("no closure"); f(kept_%(i)d()) }
impl U%(i)d {
    pub fn m_fut(&self, f: impl FnOnce(%(T)s), n: i32) { assert_eq!(n, 82); f(kept_%(i)d()) }
    pub fn m_defer(&mut self, n: i32, f: impl FnOnce(%(T)s) + 'static, m: i32) { assert_eq!((n, m), (83, 84)); defer_%(i)d(f) }
}
"""


def rust(ms, es, lang):
    o = BASE
    for k, m in enumerate(ms, 1):
        if m["kind"] == "cst":
            o += "#[repr(C)]\n#[derive(Clone, Copy)]\npub struct M%d { pub a: i8, pub b: i64, pub c: i16 }\n" % k
            o += "impl Tm for M%d { fn t(&self) -> String { if self.b == 3 * self.a as i64 && self.c == self.a as i16 - 1 { self.a.to_string() } else { format!(\"bad({},{},{})\", self.a, self.b, self.c) } } }\n" % k
        elif m["kind"] in ("lat", "codec"):
            o += "#[repr(C)]\n#[derive(Clone, Copy)]\npub struct CM%d { pub a: i16, pub b: i32, pub c: u8 }\n" % k
        if m["kind"] not in ("cst", "bool", "u16", "so"):
            o += "#[derive(Clone, Copy)]\npub struct M%d(pub i32);\nimpl Tm for M%d { fn t(&self) -> String { self.0.to_string() } }\n" % (k, k)
    no_in, no_arg, no_ret, no_res, no_cb = limits(ms, es, lang)
    for i, t in enumerate(es, 1):
        d = {"i": i, "T": rtype(ms, t)}
        o += """thread_local! { static K%(i)d: std::cell::Cell<Option<%(T)s>> = const { std::cell::Cell::new(None) }; }
fn keep_%(i)d(a: %(T)s) { saw(&a); K%(i)d.with(|k| k.set(Some(a))) }
fn kept_%(i)d() -> %(T)s { K%(i)d.with(|k| k.get()).expect("nothing is kept") }
pub struct U%(i)d;
impl U%(i)d {
    pub fn new() -> U%(i)d { U%(i)d }
    pub fn m_out(&self) -> %(T)s { kept_%(i)d() }
    pub fn m_in(&self, a: %(T)s) { keep_%(i)d(a) }
    pub fn mut_in(&mut self, n: i32, a: %(T)s) -> i32 { keep_%(i)d(a); n + 1 }
    pub fn m_two(&self, a: %(T)s, b: %(T)s) { saw(&a); keep_%(i)d(b) }
    pub fn m_echo(&self, a: %(T)s) -> %(T)s { saw(&a); a }
    pub fn res(&mut self, ok: i32) -> Result<%(T)s, String> { if ok == 1 { Ok(kept_%(i)d()) } else { Err("no".into()) } }
}
pub fn s_out_%(i)d() -> %(T)s { kept_%(i)d() }
pub fn s_in_%(i)d(a: %(T)s) { keep_%(i)d(a) }
pub fn s_two_%(i)d(a: %(T)s, n: i32, b: %(T)s) { assert_eq!(n, 77); saw(&a); keep_%(i)d(b) }
pub fn s_echo_%(i)d(a: %(T)s) -> %(T)s { saw(&a); a }
@FUT@pub struct T%(i)d;
impl T%(i)d { pub fn new(a: %(T)s) -> T%(i)d { keep_%(i)d(a); T%(i)d } }
""".replace("@FUT@", FUT_RS if lang == "cpp" and i not in no_res else "") % d
        cb = []
        if i not in no_arg | no_cb:
            cb += ["fn on_one(&self, a: %(T)s);" % d, "fn on_two(&self, a: %(T)s, n: i32, b: %(T)s);" % d]
            o += "pub fn cb_arg_%(i)d(c: Box<dyn C%(i)d>, n: i32) { if n == 1 { c.on_one(kept_%(i)d()) } else { c.on_two(kept_%(i)d(), 78, kept_%(i)d()) } }\n" % d
        if i not in no_ret | no_cb and i not in no_in:
            cb.append("fn on_ret(&self) -> %(T)s;" % d)
            o += "pub fn cb_ret_%(i)d(c: Box<dyn C%(i)d>) { keep_%(i)d(c.on_ret()) }\n" % d
        if cb:
            o += "pub trait C%d { %s }\n" % (i, " ".join(cb))
    return o


# ------------------------------------------------------------------ C++
def cpp_header(ms):
    o = "#pragma once\n#include <cstdint>\n#include <optional>\nextern \"C\" void tm_log(int id);\nnamespace utm {\n"
    o += "inline int st(int id, int a, int b, int x) { tm_log(id); return a * x + b; }\n"
    for k, m in enumerate(ms, 1):
        if m["kind"] in ("code", "wide", "codec"):
            o += "struct F%d { int v; };\n" % k
    o += "template <class A, class B> struct Duo { A a; B b; };\n"
    return o + "}\n"


CPP_RS = """
#[no_mangle]
pub extern "C" fn tm_log(id: i32) { vlog!("f {}", id); }
"""
JAVA_RS = """
#[no_mangle]
pub extern "C" fn Java_com_example_Tm_log(_: *mut JNIEnv, _: jclass, id: jint) { vlog!("f {}", id); }
"""


def cpp_dispatch(ms, es):
    """Texts tm_head.inc, tm_body.inc."""
    no_in, no_arg, no_ret, no_res, no_cb = limits(ms, es, "cpp")
    h = ""
    for i in range(1, len(es) + 1):
        h += '#include "U%d.hpp"\n' % i + ('#include "T%d.hpp"\n' % i if i not in no_in else "")
    h += "namespace tmv {\n"
    for k, m in enumerate(ms, 1):
        if m["kind"] == "cst":
            h += "inline std::string text(const ::M%d &x) { return x.b == 3 * x.a && x.c == x.a - 1 ? std::to_string(x.a) : \"bad fields\"; }\ninline void mk(Src &s, ::M%d &x) { x.a = int8_t(s.num()); x.b = 3 * x.a; x.c = int16_t(x.a - 1); }\n" % (k, k)
        if m["kind"] == "lat":
            h += "inline std::string text(const ::CM%d &x) { return x.a == 7 && x.c == 9 ? std::to_string(x.b) : \"bad fields\"; }\ninline void mk(Src &s, ::CM%d &x) { x.a = 7; x.b = s.num(); x.c = 9; }\n" % (k, k)
        if m["kind"] in ("code", "wide", "codec"):
            h += "inline std::string text(const utm::F%d &x) { return std::to_string(x.v); }\ninline void mk(Src &s, utm::F%d &x) { x.v = s.num(); }\n" % (k, k)
    h += "}\n"
    o = ""
    for i, t in enumerate(es, 1):
        a = i not in no_arg | no_cb
        r = i not in no_ret | no_cb and i not in no_in
        T = None
        o += "static void run_%d(const std::string &op, const std::string &how, const vf::Cmd &c)\n{\n" % i
        if i not in no_in:
            o += """    typedef tmv::Arg<decltype(&U%(i)d::sIn)>::type A;
    auto val = [&](size_t n) { return tmv::make<A>(c[n]); };
    if (op == "send" && how == "static") return U%(i)d::sIn(val(3));
    if (op == "send" && how == "method") { U%(i)d u; return u.m_in(val(3)); }
    if (op == "send" && how == "mut") { U%(i)d u; if (u.mut_in(41, val(3)) != 42) say("wrong result"); return; }
    if (op == "send" && how == "ctor") { T%(i)d t(val(3)); return; }
    if (op == "two" && how == "method") { U%(i)d u; return u.m_two(val(3), val(4)); }
    if (op == "two") return U%(i)d::sTwo(val(3), 77, val(4));
    if (op == "echo" && how == "method") { U%(i)d u; return say(tmv::text(u.m_echo(val(3)))); }
    if (op == "echo") return say(tmv::text(U%(i)d::sEcho(val(3))));
""" % {"i": i}
        o += """    if (op == "get" && how == "static") return say(tmv::text(U%(i)d::sOut()));
    if (op == "get" && how == "method") { U%(i)d u; return say(tmv::text(u.m_out())); }
""" % {"i": i}
        if i not in no_res:
            o += """    static std::unique_ptr<decltype(U%(i)d::sDefer())> pend;
    if (op == "reset") { if (pend) { U%(i)d::fire(); pend.reset(); } return; }
    if (op == "future" && how == "static") return said_future(U%(i)d::sFut(81));
    if (op == "future") { U%(i)d u; return said_future(u.m_fut(82)); }
    if (op == "defer" && how == "static") { pend = std::make_unique<decltype(U%(i)d::sDefer())>(U%(i)d::sDefer()); if (ready(*pend)) say("ready too early"); return; }
    if (op == "defer") { U%(i)d u; pend = std::make_unique<decltype(U%(i)d::sDefer())>(u.m_defer(83, 84)); if (ready(*pend)) say("ready too early"); return; }
    if (op == "fire") { if (ready(*pend)) say("ready too early"); U%(i)d::fire(); said_future(std::move(*pend)); pend.reset(); return; }
""" % {"i": i}
        if i not in no_res:
            o += """    if (op == "get" || op == "fail") {
        U%(i)d u;
        auto r = u.res(op == "get" ? 1 : 0);
        return said_result(r);
    }
""" % {"i": i}
        o += "    cb_%d(op, how, c);\n}\n" % i
        pre = ""
        if a or r:
            pre += "struct Cb%d final : C%d {\n    const vf::Cmd &c;\n    explicit Cb%d(const vf::Cmd &c_) : c(c_) {}\n" % (i, i, i)
            if a:
                pre += "    void onOne(tmv::Arg<decltype(&C%(i)d::onOne)>::type a) const noexcept override { say(tmv::text(a)); }\n" % {"i": i}
                pre += "    void onTwo(tmv::Arg<decltype(&C%(i)d::onOne)>::type a, int32_t n, tmv::Arg<decltype(&C%(i)d::onOne)>::type b) const noexcept override { if (n != 78) say(\"wrong number\"); say(tmv::text(a)); say(tmv::text(b)); }\n" % {"i": i}
            if r:
                pre += "    tmv::Ret<decltype(&C%(i)d::onRet)>::type onRet() const noexcept override { return tmv::make<tmv::Ret<decltype(&C%(i)d::onRet)>::type>(c[3]); }\n" % {"i": i}
            pre += "};\n"
        pre += "static void cb_%d(const std::string &op, const std::string &how, const vf::Cmd &c)\n{\n" % i
        if a:
            pre += '    if (op == "cbarg") return U%(i)d::cbArg(std::make_unique<Cb%(i)d>(c), how == "one" ? 1 : 2);\n' % {"i": i}
        if r:
            pre += '    if (op == "cbret") return U%(i)d::cbRet(std::make_unique<Cb%(i)d>(c));\n' % {"i": i}
        pre += '    if (op == "reset") return;\n    unknown(op);\n}\n'
        j = o.rindex("static void run_%d" % i)
        o = o[:j] + pre + o[j:]
    o += "typedef void (*Run)(const std::string &, const std::string &, const vf::Cmd &);\nstatic const Run RUN[] = { nullptr%s };\n" % "".join(", run_%d" % i for i in range(1, len(es) + 1))
    return h, o


# ------------------------------------------------------------------ Java
def jclass(ms, t, d):
    """(Java type, text -> value expression, value -> text expression) in direction d."""
    if t[0] == "wr":
        return jclass(ms, t[1], d)
    k = t[1]
    while ms[k - 1]["via"]:
        k = ms[k - 1]["via"]
    kd = ms[k - 1]["kind"]
    if kd == "code" or (kd == "wide" and d == "in"):
        return "F%d" % k, "new F%d(Integer.parseInt(%%s))" % k, "String.valueOf(%s.v)"
    if kd == "wide":
        return "long", "Long.parseLong(%s)", "String.valueOf(%s)"
    if kd == "bool":
        return "boolean", '%s.equals("1")', '(%s ? "1" : "0")'
    if kd == "so":
        return ("Integer" if d == "in" else "java.util.OptionalInt"), "Tm.opt(%s)", "Tm.text(%s)"
    return "int", "Integer.parseInt(%s)", "String.valueOf(%s)"


def java(ms, es):
    """{class: text}"""
    no_in, no_arg, no_ret, no_res, no_cb = limits(ms, es, "java")
    src = {"Tm": """package com.example;
public final class Tm {
    static native void log(int id);
    public static int st(int id, int a, int b, int x) { log(id); return a * x + b; }
    static Integer opt(String s) { return s.equals("N") ? null : Integer.valueOf(s.substring(1)); }
    static String text(java.util.OptionalInt x) { return x.isPresent() ? "S" + x.getAsInt() : "N"; }
}
"""}
    for k, m in enumerate(ms, 1):
        if m["kind"] in ("code", "wide"):
            src["F%d" % k] = "package com.example;\npublic final class F%d { public final int v; public F%d(int x) { v = x; } }\n" % (k, k)
    o = ""
    cases = ""
    for i, t in enumerate(es, 1):
        it, imk, _ = jclass(ms, t, "in")
        ot, _, otx = jclass(ms, t, "out")
        val = lambda n: imk % ("c[%d]" % n)
        say = lambda x: "{ %s r = %s; say(%s); return; }" % (ot, x, otx % "r")
        o += "    static void run%d(String op, String how, String[] c) throws Exception {\n        U%d u = new U%d();\n" % (i, i, i)
        L = []
        if i not in no_in:
            L += ['if (op.equals("send") && how.equals("static")) { U%d.sIn(%s); return; }' % (i, val(3)),
                  'if (op.equals("send") && how.equals("method")) { u.m_in(%s); return; }' % val(3),
                  'if (op.equals("send") && how.equals("mut")) { if (u.mut_in(41, %s) != 42) say("wrong result"); return; }' % val(3),
                  'if (op.equals("send") && how.equals("ctor")) { new T%d(%s); return; }' % (i, val(3)),
                  'if (op.equals("two") && how.equals("method")) { u.m_two(%s, %s); return; }' % (val(3), val(4)),
                  'if (op.equals("two")) { U%d.sTwo(%s, 77, %s); return; }' % (i, val(3), val(4)),
                  'if (op.equals("echo") && how.equals("method")) ' + say("u.m_echo(%s)" % val(3)),
                  'if (op.equals("echo")) ' + say("U%d.sEcho(%s)" % (i, val(3)))]
        L += ['if (op.equals("get") && how.equals("static")) ' + say("U%d.sOut()" % i), 'if (op.equals("get") && how.equals("method")) ' + say("u.m_out()")]
        if i not in no_res:
            L += ['if (op.equals("get") || op.equals("fail")) try { %s } catch (Exception e) { say("error " + e.getMessage()); return; }' % say('u.res(op.equals("get") ? 1 : 0)')]
        a = i not in no_arg | no_cb
        r = i not in no_ret | no_cb and i not in no_in
        if a or r:
            b = ""
            if a:
                b += "public void onOne(%s r) { say(%s); } public void onTwo(%s r, int n, %s q) { if (n != 78) say(\"wrong number\"); say(%s); say(%s); } " % (ot, otx % "r", ot, ot, otx % "r", otx % "q")
            if r:
                b += "public %s onRet() { return %s; } " % (it, val(3))
            mk = "new C%d() { %s}" % (i, b)
            if a:
                L.append('if (op.equals("cbarg")) { U%d.cbArg(%s, how.equals("one") ? 1 : 2); return; }' % (i, mk))
            if r:
                L.append('if (op.equals("cbret")) { U%d.cbRet(%s); return; }' % (i, mk))
        L.append('throw new IllegalStateException(op);')
        o += "".join("        %s\n" % x for x in L) + "    }\n"
        cases += "                    case %d: run%d(c[0], c[1], c); break;\n" % (i, i)
    src["TmDrv"] = """package com.example;
import java.util.*;
public final class TmDrv {
    static List<String> said = new ArrayList<>();
    static void say(String s) { said.add(Vf.quote(s)); }
%s
    public static void main(String[] a) throws Throwable {
        System.load(a[0]);
        Vf.loop(new Vf.Driver() {
            public String step(String[] c) throws Throwable {
                said.clear();
                switch (Integer.parseInt(c[2])) {
%s                    default: throw new IllegalStateException(c[2]);
                }
                return "\\"said\\":[" + String.join(",", said) + "]";
            }
            public void clean() {}
            public void fresh() {}
        });
    }
}
""" % (o, cases)
    return src
