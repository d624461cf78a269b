"""Fixture for PyOwn.tla: a class per way of storing the Rust object."""
# class -> (pointer returned by the constructor, Clone)
CLS = {"Mx": ("%s", False), "Mc": ("%s", True), "Mp": ("Mutex<%s>", False), "Bx": ("Box<%s>", False), "Bc": ("Box<%s>", True), "Sh": ("Arc<%s>", False),
       "Am": ("Arc<Mutex<%s>>", False), "Ac": ("Arc<Mutex<%s>>", True), "Cy": ("%s", "Copy")}


def props(c):
    p, clone = CLS[c]
    shared = "Arc" in p
    lock = "Box" not in p and p != "Arc<%s>"
    return {"Shared": shared, "CanClone": bool(clone), "Lock": lock, "PtrArg": shared or lock, "PtrRet": not shared}


def forms(c):
    """(what functions return and keep, the pointer by reference, second form of result)"""
    p, clone = CLS[c]
    k = props(c)
    if k["Shared"]:
        return p % c, p % c, None
    if k["Lock"]:
        return c, "Mutex<%s>" % c, "Mutex<%s>" % c
    return c, None, "Box<%s>" % c


def description():
    o = ["foreign_enum!(enum En { Aa = En::Aa, Bb = En::Bb, Cc = En::Cc, });"]
    for c, (p, clone) in CLS.items():
        k = props(c)
        R, A, R2 = forms(c)
        mut = "mut " if k["Lock"] else ""
        f = ["self_type %s;" % c, "constructor %s::new_w(v: i32) -> %s;" % (c, p % c),
             "fn %s::get(&self) -> i32;" % c, "fn %s::id(&self) -> i32;" % c, "fn %s::set(&%sself, v: i32) -> i32;" % (c, mut), "fn %s::bad(&%sself, e: En) -> i32; alias bad_self;" % (c, mut),
             "fn %s::two(&self, o: &%s) -> i32; alias two_self;" % (c, c), "fn %s::err(&self) -> Result<i32, Er>;" % c]
        if k["CanClone"]:
            f += ["fn %s::mix(&self, o: %s) -> i32; alias two_mix;" % (c, c)]
            if not k["Shared"]:
                f += ["fn %s::me(&self) -> &%s; alias copy_me;" % (c, c), "fn %s::clone(&self) -> %s; alias dup;" % (c, c)]

        def st(name, args, ret=""):
            f.append("fn %s_%s(%s)%s; alias %s;" % (c.lower(), name, args, " -> " + ret if ret else "", name))
        st("get_arg", "a: &" + c, "i32")
        st("set_arg", "a: &%s%s, v: i32" % (mut, c), "i32")
        st("bad_arg", "a: &%s%s, e: En" % (mut, c), "i32")
        st("two_arg", "a: &%s, b: &%s" % (c, c), "i32")
        if k["PtrArg"]:
            st("get_ptr", "a: &" + A, "i32")
            st("bad_ptr", "a: &%s, e: En" % A, "i32")
        if k["Shared"]:
            st("get_own", "a: " + R, "i32")
            st("get_opt", "a: Option<%s>" % R, "i32")
            st("two_own", "a: %s, b: %s" % (R, R), "i32")
            st("sum_ptrs", "a: Vec<%s>" % R, "i32")
            st("share_own", "a: " + R, R)
            st("share_ref", "a: &" + R, "&" + R)
            st("share_opt", "a: Option<%s>" % R, "Option<%s>" % R)
            st("keep_own", "a: " + R)
            st("keep_ref", "a: &" + R)
            st("keep_opt", "a: Option<%s>" % R)
            st("peek_own", "", R)
            st("peek_ref", "", "&" + R)
            st("peek_opt", "", "Option<%s>" % R)
        if k["CanClone"]:
            st("get_val", "a: " + c, "i32")
            st("get_optval", "a: Option<%s>" % c, "i32")
            st("setcopy", "a: %s, v: i32" % c, "i32")
            st("two_val", "a: %s, b: %s" % (c, c), "i32")
            st("sum_vec", "a: Vec<%s>" % c, "i32")
            st("sum_slice", "a: &[%s]" % c, "i32")
            st("copy_val", "a: " + c, R)
            st("copy_clone", "a: &" + c, R)
            st("keep_val", "a: " + c)
            st("keep_optval", "a: Option<%s>" % c)
            if not k["Shared"]:
                st("peekcopy_ref", "", "&" + c)
                st("peekcopy_refopt", "", "Option<&%s>" % c)
                st("peekcopy_refres", "", "Result<&%s, Er>" % c)
        st("holdnew", "v: i32")
        st("holddrop", "")
        st("holdset_here", "v: i32", "i32")
        st("holdset_thread", "v: i32", "i32")
        st("hold_get", "", "i32")
        st("hold_id", "", "i32")
        st("hold_has", "", "bool")
        st("take_val", "", R)
        if R2:
            st("take_ptr", "", R2)
        st("take_opt", "", "Option<%s>" % R)
        st("take_ok", "", "Result<%s, Er>" % R)
        st("take_tuple", "", "(i32, %s)" % R)
        st("make2_tuple", "v: i32, w: i32", "(%s, %s)" % (R, R))
        st("make2_vec", "v: i32, w: i32", "Vec<%s>" % R)
        o.append("foreign_class!(%s class %s {\n    %s\n});" % ("#[derive(%s)]" % (clone if clone == "Copy" else "Clone") if clone else "", c, "\n    ".join(f)))
    return "\n".join(o) + "\n"


HEAD = """
use std::sync::{Arc, Mutex};
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
#[derive(Clone, Copy, Debug)]
pub enum En { Aa = 3, Bb = 5, Cc = 900 }
#[derive(Debug)]
pub struct Er(String, Option<Box<Er>>);
impl std::fmt::Display for Er { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "{}", self.0) } }
impl std::error::Error for Er { fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { self.1.as_ref().map(|x| &**x as _) } }
// counts and locks of the living shared objects
static PROBES: Mutex<Vec<Box<dyn Fn() -> Option<String> + Send>>> = Mutex::new(Vec::new());
#[no_mangle]
pub extern "C" fn vf_probes(buf: *mut u8, cap: usize) -> usize {
    let _g = vf::Guard::new();
    let mut r = Vec::new();
    PROBES.lock().unwrap().retain(|f| match f() { Some(s) => { r.push(s); true } None => false });
    let s = format!("[{}]", r.join(","));
    let n = s.len().min(cap);
    unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), buf, n) };
    n
}
"""
BODY = r"""
pub struct @C@ { pad: u8, tok: vf::Tok, v: AtomicI32 }
impl Clone for @C@ { fn clone(&self) -> @C@ { @C@ { pad: 1, tok: self.tok.clone(), v: AtomicI32::new(self.get()) } } }
impl @C@ {
    pub fn mk(v: i32) -> @C@ { @C@ { pad: 1, tok: vf::Tok::new(), v: AtomicI32::new(v) } }
    pub fn get(&self) -> i32 { self.tok.touch(); self.v.load(SeqCst) }
    pub fn id(&self) -> i32 { self.tok.touch() as i32 }
    pub fn put(&self, v: i32) -> i32 { self.tok.touch(); self.v.swap(v, SeqCst) }
    pub fn set(&@MUT@self, v: i32) -> i32 { self.put(v) }
    pub fn bad(&@MUT@self, e: En) -> i32 { self.put(99); panic!("called with {:?}", e) }
    pub fn two(&self, o: &@C@) -> i32 { self.get() * 10 + o.get() }
    pub fn mix(&self, o: @C@) -> i32 { let r = self.get() * 10 + o.get(); o.put(77); r }
    pub fn err(&self) -> Result<i32, Er> { Err(Er(format!("gone {}", self.get()), Some(Box::new(Er("because é".into(), None))))) }
    pub fn me(&self) -> &@C@ { self }
    pub fn new_w(v: i32) -> @P@ { w_@c@_@FORM@(@C@::mk(v)) }
}
static H_@c@: Mutex<Option<@R@>> = Mutex::new(None);
fn w_@c@_plain(x: @C@) -> @C@ { x }
fn w_@c@_mutex(x: @C@) -> Mutex<@C@> { Mutex::new(x) }
fn w_@c@_box(x: @C@) -> Box<@C@> { Box::new(x) }
fn w_@c@_arc(x: @C@) -> Arc<@C@> { let id = x.id(); let r = Arc::new(x); let w = Arc::downgrade(&r); let _g = vf::Guard::new();
    PROBES.lock().unwrap().push(Box::new(move || w.upgrade().map(|m| format!("[{},{},{},1]", id, Arc::strong_count(&m) - 1, Arc::weak_count(&m) - 1)))); r }
fn w_@c@_arcmutex(x: @C@) -> Arc<Mutex<@C@>> { let id = x.id(); let r = Arc::new(Mutex::new(x)); let w = Arc::downgrade(&r); let _g = vf::Guard::new();
    PROBES.lock().unwrap().push(Box::new(move || w.upgrade().map(|m| { let f = m.try_lock().is_ok() as i32; format!("[{},{},{},{}]", id, Arc::strong_count(&m) - 1, Arc::weak_count(&m) - 1, f) }))); r }
pub fn @c@_get_arg(a: &@C@) -> i32 { a.get() }
pub fn @c@_set_arg(a: &@MUT@@C@, v: i32) -> i32 { a.set(v) }
pub fn @c@_bad_arg(a: &@MUT@@C@, e: En) -> i32 { a.bad(e) }
pub fn @c@_two_arg(a: &@C@, b: &@C@) -> i32 { a.get() * 10 + b.get() }
pub fn @c@_get_val(a: @C@) -> i32 { let r = a.get(); a.put(66); r }
pub fn @c@_get_optval(a: Option<@C@>) -> i32 { match a { Some(a) => @c@_get_val(a), None => -5 } }
pub fn @c@_setcopy(mut a: @C@, v: i32) -> i32 { a.put(v) }
pub fn @c@_two_val(a: @C@, b: @C@) -> i32 { let r = a.get() * 10 + b.get(); a.put(55); b.put(44); r }
pub fn @c@_sum_slice(a: &[@C@]) -> i32 { let mut r = 0; for x in a { r = r * 10 + x.get(); x.put(33) ; } r }
pub fn @c@_sum_vec(a: Vec<@C@>) -> i32 { @c@_sum_slice(&a) }
pub fn @c@_copy_val(a: @C@) -> @R@ { w_@c@_@RF@(a) }
pub fn @c@_copy_clone(a: &@C@) -> @R@ { w_@c@_@RF@(a.clone()) }
pub fn @c@_keep(x: Option<@R@>) { let old = { let mut g = H_@c@.lock().unwrap(); std::mem::replace(&mut *g, x) }; drop(old) }
pub fn @c@_keep_val(a: @C@) { @c@_keep(Some(w_@c@_@RF@(a))) }
pub fn @c@_keep_optval(a: Option<@C@>) { @c@_keep(a.map(w_@c@_@RF@)) }
pub fn @c@_holdnew(v: i32) { @c@_keep(Some(w_@c@_@RF@(@C@::mk(v)))) }
pub fn @c@_holddrop() { @c@_keep(None) }
fn @c@_with<T>(f: impl FnOnce(&@C@) -> T) -> T { let mut g = H_@c@.lock().unwrap(); let p = g.as_mut().unwrap(); let r = { @ACC@ }; r }
pub fn @c@_holdset_here(v: i32) -> i32 { @c@_with(|x| x.put(v)) }
pub fn @c@_holdset_thread(v: i32) -> i32 { let _g = vf::Guard::new(); let r = std::thread::spawn(move || { let _g = vf::Guard::new(); @c@_with(|x| x.put(v)) }).join().unwrap(); r }
pub fn @c@_hold_get() -> i32 { @c@_with(|x| x.get()) }
pub fn @c@_hold_id() -> i32 { @c@_with(|x| x.id()) }
pub fn @c@_hold_has() -> bool { H_@c@.lock().unwrap().is_some() }
pub fn @c@_take_opt() -> Option<@R@> { H_@c@.lock().unwrap().take() }
pub fn @c@_take_val() -> @R@ { @c@_take_opt().unwrap() }
pub fn @c@_take_ok() -> Result<@R@, Er> { Ok(@c@_take_val()) }
pub fn @c@_take_tuple() -> (i32, @R@) { let x = @c@_take_val(); (7, x) }
pub fn @c@_make2_tuple(v: i32, w: i32) -> (@R@, @R@) { (w_@c@_@RF@(@C@::mk(v)), w_@c@_@RF@(@C@::mk(w))) }
pub fn @c@_make2_vec(v: i32, w: i32) -> Vec<@R@> { let mut r = Vec::with_capacity(5); r.push(w_@c@_@RF@(@C@::mk(v))); r.push(w_@c@_@RF@(@C@::mk(w))); r }
"""
SHARED = r"""
pub fn @c@_val(a: &@R@) -> i32 { @GET@ }
pub fn @c@_get_ptr(a: &@R@) -> i32 { @c@_val(a) }
pub fn @c@_bad_ptr(a: &@R@, e: En) -> i32 { panic!("called") }
pub fn @c@_get_own(a: @R@) -> i32 { @c@_val(&a) }
pub fn @c@_get_opt(a: Option<@R@>) -> i32 { match a { Some(a) => @c@_val(&a), None => -5 } }
pub fn @c@_two_own(a: @R@, b: @R@) -> i32 { @c@_val(&a) * 10 + @c@_val(&b) }
pub fn @c@_sum_ptrs(a: Vec<@R@>) -> i32 { a.iter().fold(0, |r, x| r * 10 + @c@_val(x)) }
pub fn @c@_share_own(a: @R@) -> @R@ { a }
pub fn @c@_share_ref(a: &@R@) -> &@R@ { a }
pub fn @c@_share_opt(a: Option<@R@>) -> Option<@R@> { a }
pub fn @c@_keep_own(a: @R@) { @c@_keep(Some(a)) }
pub fn @c@_keep_ref(a: &@R@) { @c@_keep(Some(a.clone())) }
pub fn @c@_keep_opt(a: Option<@R@>) { @c@_keep(a) }
pub fn @c@_peek_opt() -> Option<@R@> { H_@c@.lock().unwrap().clone() }
pub fn @c@_peek_own() -> @R@ { @c@_peek_opt().unwrap() }
pub fn @c@_peek_ref() -> &'static @R@ { unsafe { &*(H_@c@.lock().unwrap().as_ref().unwrap() as *const @R@) } }
"""
OWNED = r"""
pub fn @c@_take_ptr() -> @R2@ { w_@c@_@RF2@(@c@_take_val()) }
pub fn @c@_get_ptr(a: &Mutex<@C@>) -> i32 { a.lock().unwrap().get() }
pub fn @c@_bad_ptr(a: &Mutex<@C@>, e: En) -> i32 { panic!("called") }
pub fn @c@_peekcopy_ref() -> &'static @C@ { unsafe { &*(H_@c@.lock().unwrap().as_ref().unwrap() as *const @C@) } }
pub fn @c@_peekcopy_refopt() -> Option<&'static @C@> { Some(@c@_peekcopy_ref()) }
pub fn @c@_peekcopy_refres() -> Result<&'static @C@, Er> { Ok(@c@_peekcopy_ref()) }
"""


def rust():
    o = HEAD
    for c, (p, clone) in CLS.items():
        k = props(c)
        R, A, R2 = forms(c)
        frm = {"%s": "plain", "Mutex<%s>": "mutex", "Box<%s>": "box", "Arc<%s>": "arc", "Arc<Mutex<%s>>": "arcmutex"}
        rf = frm[R.replace(c, "%s")]
        acc = {"plain": "f(p)", "arc": "f(p)", "arcmutex": "f(&p.lock().unwrap())"}[rf]
        b = BODY + (SHARED if k["Shared"] else OWNED)
        if R2:
            b = b.replace("@R2@", R2).replace("@RF2@", frm[R2.replace(c, "%s")])
        o += b.replace("@R@", R).replace("@P@", p % c).replace("@FORM@", frm[p]).replace("@RF@", rf).replace("@ACC@", acc).replace("@MUT@", "mut " if k["Lock"] else "") \
            .replace("@GET@", "a.get()" if rf == "arc" else "a.lock().unwrap().get()").replace("@C@", c).replace("@c@", c.lower())
    return o
