"""Fixture for SmartPtr.tla: one class per kind of self type; class k also takes the class after it as argument."""
# name -> (pointer type of X, share, copy, cell)
KIND = {"plain": ("%s", False, False, "none"), "box": ("Box<%s>", False, False, "none"), "rc": ("Rc<%s>", True, True, "none"), "arc": ("Arc<%s>", True, True, "none"),
        "rcref": ("Rc<RefCell<%s>>", True, True, "refcell"), "arcmutex": ("Arc<Mutex<%s>>", True, True, "mutex"), "rcmutex": ("Rc<Mutex<%s>>", True, True, "mutex"),
        "mutex": ("Mutex<%s>", False, False, "mutex"), "refcell": ("RefCell<%s>", False, False, "refcell"), "dyn": ("Box<Box<%s>>", False, False, "none"),
        "plainz": ("%s", False, False, "none"), "rwlock": ("Arc<RwLock<%s>>", True, True, "refcell")}


def cname(k):
    return "S" + k.capitalize()


def ty(k):
    return "dyn T%s" % k if k == "dyn" else cname(k)


def ptr(k):
    return KIND[k][0] % ty(k)


def callee(k):
    return "T" + k if k == "dyn" else cname(k)


def description(kinds, nocopy=(), feats=None):
    """feats(k) -> set of features left out"""
    feats = feats or (lambda k: set())
    out = ["foreign_callback!(callback NCb { self_type NCb; run = NCb::run(&self) -> i32; });"]
    for n, k in enumerate(kinds):
        last = n + 1 == len(kinds)
        q = k if last else kinds[n + 1]
        X, T, C = cname(k), ty(k), callee(k)
        no = feats(k)
        L = ["foreign_class!(%sclass %s {" % ("#[derive(SmartPtrCopy)]\n" if KIND[k][2] and k not in nocopy else "", X),
             "    self_type %s;" % T,
             "    constructor mk_%s(v: i32) -> %s;" % (k, ptr(k)),
             "    fn %s::get(&self) -> i32;" % C,
             "    fn %s::id(&self) -> i32;" % C,
             "    fn %s::set(&mut self, v: i32) -> i32;" % C,
             "    fn inl(&mut self, v: i32) -> i32 { let old = this.get(); this.set(v); old }",
             "    fn nest(&self, cb: Box<dyn NCb>) -> i32 { let r = this.get(); r * 10 + cb.run() }",
             "    fn two(&self, o: &%s) -> i32 { this.get() * 10 + o.get() }" % T,
             "    fn xfer(&mut self, o: &%s) -> i32 { this.set(o.get()) }" % T,
             "    fn two_q(&self, o: &%s) -> i32 { this.get() * 10 + o.get() }" % ty(q),
             "    fn xfer_q(&mut self, o: &%s) -> i32 { this.set(o.get()) }" % ty(q),
             "    fn twr_q(o: &%s, a: &%s) -> i32 { o.get() * 10 + a.get() }" % (ty(q), T),
             "    fn xfr_q(o: &mut %s, a: &%s) -> i32 { o.set(a.get()) }" % (ty(q), T),
             "    fn dup(&self) -> %s { mk_%s(this.get()) }" % (ptr(k), k),
             "    fn arg_get(a: &%s) -> i32 { a.get() }" % T,
             "    fn arg_set(a: &mut %s, v: i32) -> i32 { a.set(v) }" % T,
             "    fn arg_two(a: &%s, b: &%s) -> i32 { a.get() * 10 + b.get() }" % (T, T),
             "    fn swap(a: &mut %s, b: &mut %s) -> i32 { let (x, y) = (a.get(), b.get()); a.set(y); b.set(x); x * 10 + y }" % (T, T),
             "    fn swap_q(a: &mut %s, b: &mut %s) -> i32 { let (x, y) = (a.get(), b.get()); a.set(y); b.set(x); x * 10 + y }" % (T, ty(q)),
             "    fn share(x: %s) -> %s { x }" % (ptr(k), ptr(k)) if KIND[k][2] and k not in nocopy else "",
             "    fn keep(x: %s) { keep_%s(Some(x)) }" % (ptr(k), k),
             "    fn keep_opt(x: Option<%s>) { keep_%s(x) }" % (ptr(k), k),
             "    fn kept() -> %s { kept_%s().unwrap() }" % (ptr(k), k),
             "    fn kept_opt() -> Option<%s> { kept_%s() }" % (ptr(k), k),
             "    fn kept_get() -> i32 { with_%s(|x| x.get()) }" % k,
             "    fn kept_id() -> i32 { with_%s(|x| x.id()) }" % k,
             "    fn kept_has() -> bool { has_%s() }" % k,
             "    fn kept_set(v: i32) -> i32 { with_%s(|x| x.set(v)) }" % k]
        L = [l for l in L if not (last and "_q(" in l)]
        L = [l for l in L if not any(" %s(" % f in l or "::%s(" % f in l for f in no)]
        out.append("\n".join(L + ["});"]))
    return "\n".join(out) + "\n"


def rust(kinds):
    out = ["""
use std::rc::Rc;
use std::cell::{Cell, Ref, RefCell, RefMut};
use std::sync::{Arc, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard};
pub trait NCb { fn run(&self) -> i32; }
pub struct Inner { tok: vf::Tok, v: Cell<i32> }
impl Inner {
    fn new(v: i32) -> Inner { Inner { tok: vf::Tok::new(), v: Cell::new(v) } }
    pub fn get(&self) -> i32 { self.tok.touch(); self.v.get() }
    pub fn id(&self) -> i32 { self.tok.touch() as i32 }
    pub fn set(&mut self, v: i32) -> i32 { self.tok.touch(); self.v.replace(v) }
}
// the state of the counts and locks of one object, asked for after every step
thread_local! { static PROBES: RefCell<Vec<Box<dyn Fn() -> Option<String>>>> = RefCell::new(Vec::new()); }
pub fn probes() -> String {
    let _g = vf::Guard::new();
    PROBES.with(|p| {
        let mut r = Vec::new();
        p.borrow_mut().retain(|f| match f() { Some(s) => { r.push(s); true } None => false });
        r.join(",")
    })
}
#[no_mangle]
pub extern "C" fn vf_probes(buf: *mut u8, cap: usize) -> usize {
    let _g = vf::Guard::new();
    let s = probes();
    let n = s.len().min(cap);
    unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), buf, n) };
    n
}
"""]
    for k in kinds:
        X, P, T = cname(k), ptr(k), ty(k)
        if k == "dyn":
            out.append("""
pub trait Tdyn { fn get(&self) -> i32; fn id(&self) -> i32; fn set(&mut self, v: i32) -> i32; }
struct D1(Inner); struct D2(u64, Inner, i32);
impl Tdyn for D1 { fn get(&self) -> i32 { self.0.get() } fn id(&self) -> i32 { self.0.id() } fn set(&mut self, v: i32) -> i32 { self.0.set(v) } }
impl Tdyn for D2 { fn get(&self) -> i32 { self.1.get() - self.2 } fn id(&self) -> i32 { self.1.id() } fn set(&mut self, v: i32) -> i32 { let k = self.2; self.1.set(v + k) - k } }
""")
            mk = "if v % 2 == 0 { Box::new(Box::new(D1(Inner::new(v))) as Box<dyn Tdyn>) } else { Box::new(Box::new(D2(9, Inner::new(v + 5), 5)) as Box<dyn Tdyn>) }"
            probe = ""
        else:
            out.append("pub struct %s { pad: u16, x: Inner }\nimpl %s {\n  pub fn get(&self) -> i32 { self.x.get() }\n  pub fn id(&self) -> i32 { self.x.id() }\n"
                       "  pub fn set(&mut self, v: i32) -> i32 { self.x.set(v) }\n}" % (X, X))
            new = "%s { pad: 7, x: Inner::new(v) }" % X
            mk, rest = new, P.replace(X, "@")
            for w in ("Rc", "Arc", "Box", "RefCell", "Mutex", "RwLock"):
                pass
            # from the inside out
            for w in reversed(P[:P.index(X)].split("<")[:-1]):
                mk = "%s::new(%s)" % (w, mk)
            probe = ""
            if KIND[k][1]:
                w = P[:P.index("<")]
                free = {"none": "1", "refcell": "m.try_borrow_mut().is_ok() as i32", "mutex": "m.try_lock().is_ok() as i32"}[KIND[k][3]]
                if k == "rwlock":
                    free = "m.try_write().is_ok() as i32"
                probe = """
    { let _g = vf::Guard::new();
      let w = %s::downgrade(&r); let id = %s;
      PROBES.with(|p| p.borrow_mut().push(Box::new(move || w.upgrade().map(|m| { let free = %s; format!("[{},{},{},{}]", id, %s::strong_count(&m) - 1, %s::weak_count(&m) - 1, free) })))); }""" % (
                    w, {"none": "r.id()", "refcell": "r.borrow().id()", "mutex": "r.lock().unwrap().id()"}[KIND[k][3]] if k != "rwlock" else "r.read().unwrap().id()", free, w, w)
        out.append("pub fn mk_%s(v: i32) -> %s {\n    let r: %s = %s;%s\n    r\n}" % (k, P, P, mk, probe))
        share = KIND[k][1]
        out.append("thread_local! { static K_%s: RefCell<Option<%s>> = RefCell::new(None); }" % (k, P))
        out.append("pub fn keep_%s(x: Option<%s>) { let old = K_%s.with(|c| c.replace(x)); drop(old); }" % (k, P, k))
        out.append("pub fn kept_%s() -> Option<%s> { K_%s.with(|c| %s) }" % (k, P, k, "c.borrow().clone()" if share else "c.borrow_mut().take()"))
        out.append("pub fn has_%s() -> bool { K_%s.with(|c| c.borrow().is_some()) }" % (k, k))
        acc = {"plain": "f(p)", "plainz": "f(p)", "box": "f(p)", "dyn": "f(&mut ***p)", "rc": "f(unsafe { &mut *(Rc::as_ptr(p) as *mut %s) })" % X, "arc": "f(unsafe { &mut *(Arc::as_ptr(p) as *mut %s) })" % X,
               "rcref": "f(&mut *p.borrow_mut())", "refcell": "f(&mut *p.borrow_mut())", "rwlock": "f(&mut *p.write().unwrap())"}.get(k, "f(&mut *p.lock().unwrap())")
        out.append("fn with_%s<R>(f: impl FnOnce(&mut %s) -> R) -> R { K_%s.with(|c| { let mut g = c.borrow_mut(); let p = g.as_mut().unwrap(); let x = %s; x }) }" % (k, T, k, acc))
    return "\n".join(out) + "\n"
