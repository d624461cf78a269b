"""Fixture for JavaOwn.tla: name -> (pointer type, derive, Arg, Dup, lock)."""
CLS = {"Foo": ("Foo", "", "move", "none", False), "Fr": ("Fr", "", "move", "none", False), "Bx": ("Box<Bx>", "", "move", "none", False),
       "Cp": ("Cp", "#[derive(Clone, Copy)]", "clone", "clone", False), "Cl": ("Cl", "#[derive(Clone)]", "move", "clone", False),
       "Rr": ("Rc<RefCell<Rr>>", "#[derive(SmartPtrCopy)]", "share", "share", False), "Am": ("Arc<Mutex<Am>>", "#[derive(SmartPtrCopy)]", "share", "share", True),
       "Rp": ("Rc<RefCell<Rp>>", "", "move", "share", False), "Ar": ("Arc<Ar>", "", "move", "share", False)}
VEC = {"Foo", "Cl", "Cp", "Rr", "Am", "Rp", "Ar", "Bx", "Fr"}
OPTREF = {"Foo", "Fr", "Cp", "Cl"}


def description():
    out = []
    for C, (P, der, arg, dup, lock) in CLS.items():
        ret = "Result<%s, String>" % P if C == "Fr" else P
        out.append("""
foreign_class!(%(der)s class %(C)s {
    self_type %(C)s;
    constructor %(C)s::new(v: i32) -> %(ret)s;
    %(clone)s
    fn %(C)s::get(&self) -> i32;
    fn %(C)s::id(&self) -> i32;
    fn %(C)s::set(&mut self, v: i32);
    fn %(C)s::arg_get(k: i32, a: &%(C)s) -> i32;
    fn %(C)s::arg_set(a: &mut %(C)s, v: i32);
    %(optref)s
    fn %(C)s::two(a: &%(C)s, b: &%(C)s) -> i32;
    fn %(C)s::consume(a: %(P)s) -> i32;
    fn %(C)s::consume_opt(a: Option<%(P)s>) -> i32;
    fn %(C)s::consume_err(a: %(P)s) -> Result<i32, String>;
    fn %(C)s::consume2(a: %(P)s, b: %(P)s) -> i32;
    fn %(C)s::pass(a: %(P)s) -> %(P)s;
    fn %(C)s::pass_opt(a: Option<%(P)s>) -> Option<%(P)s>;
    fn %(C)s::store(a: %(P)s);
    fn %(C)s::store_opt(a: Option<%(P)s>);
    fn %(C)s::take() -> %(P)s;
    fn %(C)s::take_opt() -> Option<%(P)s>;
    fn %(C)s::take_res(ok: bool) -> Result<%(P)s, String>;
    %(second)s
    %(vec)s
    fn %(C)s::slow_self(&self, cb: Box<dyn Slow>) -> i32;
    fn %(C)s::slow_arg(a: &%(C)s, cb: Box<dyn Slow>) -> i32;
    fn %(C)s::slow_mut(a: &mut %(C)s, cb: Box<dyn Slow>) -> i32;
    fn %(C)s::slow_two(a: &%(C)s, b: &%(C)s, cb: Box<dyn Slow>) -> i32;
    fn %(C)s::slow_self2(&self, k: i32, b: &%(C)s, cb: Box<dyn Slow>) -> i32;
    %(slowopt)s
    fn %(C)s::slow_new(a: &%(C)s, cb: Box<dyn Slow>) -> %(ret)s;
    fn %(C)s::hold_id() -> i32;
    fn %(C)s::hold_val() -> i32;
});
foreign_class!(class N%(C)s { self_type N%(C)s; constructor N%(C)s::new(a: &%(C)s, cb: Box<dyn Slow>) -> N%(C)s; fn N%(C)s::get(&self) -> i32; });
foreign_callback!(callback Cb%(C)s { self_type Cb%(C)s; got = Cb%(C)s::got(&self, k: i32, x: %(P)s); });
foreign_class!(class X%(C)s { fn %(C)s::cbarg(cb: Box<dyn Cb%(C)s>); });""" % dict(C=C, P=P, der=der, ret=ret, clone="fn %s::clone(&self) -> %s;" % (C, C) if C in ("Cp", "Cl") else "",
              optref="fn %s::opt_get(a: Option<&%s>) -> i32;" % (C, C) if C in OPTREF else "",
              slowopt="fn %s::slow_opt(a: Option<&%s>, cb: Box<dyn Slow>) -> i32;" % (C, C) if C in OPTREF else "",
              second="fn %s::second() -> %s;" % (C, P) if dup != "none" else "", vec="fn %s::make2(v: i32, w: i32) -> Vec<%s>;" % (C, P) if C in VEC else ""))
    return "foreign_callback!(callback Slow { self_type Slow; run = Slow::run(&self) -> i32; });\n" + "\n".join(out) + "\n"


def rust():
    out = ["""
use std::rc::Rc;
use std::cell::{Cell, Ref, RefCell, RefMut};
use std::sync::{Arc, Mutex, MutexGuard};
pub trait Slow { fn run(&self) -> i32; }
"""]
    for C, (P, der, arg, dup, lock) in CLS.items():
        mk = "%s::bare(v)" % C
        for w in reversed(P[:P.rindex(C)].split("<")[:-1]):
            mk = "%s::new(%s)" % (w, mk)
        acc = "a.borrow()" if "RefCell" in P else "a.lock().unwrap()" if "Mutex" in P else "a"
        out.append("""
pub trait Cb%(C)s { fn got(&self, k: i32, x: %(P)s); }
pub struct N%(C)s(i32);
impl N%(C)s { pub fn new(a: &%(C)s, cb: Box<dyn Slow>) -> N%(C)s { N%(C)s(%(C)s::slow_arg(a, cb)) } pub fn get(&self) -> i32 { self.0 } }
pub struct %(C)s { tok: vf::Tok, v: Cell<i32> }
thread_local! { static HOLD_%(C)s: RefCell<Option<%(P)s>> = RefCell::new(None); }
impl Clone for %(C)s { fn clone(&self) -> %(C)s { %(C)s { tok: self.tok.clone(), v: self.v.clone() } } }
impl %(C)s {
    fn bare(v: i32) -> %(C)s { %(C)s { tok: vf::Tok::new(), v: Cell::new(v) } }
    pub fn new(v: i32) -> %(ret)s { %(newbody)s }
    pub fn get(&self) -> i32 { self.tok.touch(); self.v.get() }
    pub fn id(&self) -> i32 { self.tok.touch() as i32 }
    pub fn set(&mut self, v: i32) { self.tok.touch(); self.v.set(v) }
    pub fn arg_get(k: i32, a: &%(C)s) -> i32 { assert_eq!(k, 77); a.get() }
    pub fn arg_set(a: &mut %(C)s, v: i32) { a.set(v) }
    pub fn opt_get(a: Option<&%(C)s>) -> i32 { a.map_or(-5, |x| x.get()) }
    pub fn two(a: &%(C)s, b: &%(C)s) -> i32 { a.get() * 10 + b.get() }
    pub fn read(a: &%(P)s) -> i32 { %(acc)s.get() }
    pub fn consume(a: %(P)s) -> i32 { Self::read(&a) }
    pub fn consume_opt(a: Option<%(P)s>) -> i32 { a.map_or(-5, |x| Self::read(&x)) }
    pub fn consume_err(a: %(P)s) -> Result<i32, String> { Err(format!("gone %%d {}", Self::read(&a))) }
    pub fn consume2(a: %(P)s, b: %(P)s) -> i32 { Self::read(&a) * 10 + Self::read(&b) }
    pub fn pass(a: %(P)s) -> %(P)s { Self::read(&a); a }
    pub fn pass_opt(a: Option<%(P)s>) -> Option<%(P)s> { a }
    pub fn store(a: %(P)s) { Self::store_opt(Some(a)) }
    pub fn store_opt(a: Option<%(P)s>) { let old = HOLD_%(C)s.with(|h| h.replace(a)); drop(old); }
    pub fn take() -> %(P)s { Self::take_opt().unwrap() }
    pub fn take_opt() -> Option<%(P)s> { HOLD_%(C)s.with(|h| h.take()) }
    pub fn take_res(ok: bool) -> Result<%(P)s, String> { if ok { Ok(Self::take()) } else { Err("no é 100%%".to_string()) } }
    pub fn second() -> %(P)s { HOLD_%(C)s.with(|h| h.borrow().as_ref().unwrap().clone()) }
    pub fn make2(v: i32, w: i32) -> Vec<%(P)s> { let f = |v: i32| -> %(P)s { %(mk)s }; let mut r = Vec::with_capacity(5); r.push(f(v)); r.push(f(w)); r }
    pub fn cbarg(cb: Box<dyn Cb%(C)s>) { cb.got(77, Self::take()) }
    pub fn slow_self(&self, cb: Box<dyn Slow>) -> i32 { let a = self.get(); cb.run(); a * 10 + self.get() }
    pub fn slow_arg(x: &%(C)s, cb: Box<dyn Slow>) -> i32 { let a = x.get(); cb.run(); a * 10 + x.get() }
    pub fn slow_mut(x: &mut %(C)s, cb: Box<dyn Slow>) -> i32 { let a = x.get(); cb.run(); a * 10 + x.get() }
    pub fn slow_two(x: &%(C)s, y: &%(C)s, cb: Box<dyn Slow>) -> i32 { let a = x.get() * 10 + y.get(); cb.run(); a * 100 + x.get() * 10 + y.get() }
    pub fn slow_self2(&self, k: i32, y: &%(C)s, cb: Box<dyn Slow>) -> i32 { assert_eq!(k, 55); Self::slow_two(self, y, cb) }
    pub fn slow_opt(x: Option<&%(C)s>, cb: Box<dyn Slow>) -> i32 { x.map_or(-5, |x| Self::slow_arg(x, cb)) }
    pub fn slow_new(x: &%(C)s, cb: Box<dyn Slow>) -> %(ret)s { Self::new(Self::slow_arg(x, cb)) }
    pub fn hold_id() -> i32 { HOLD_%(C)s.with(|h| h.borrow().as_ref().map_or(0, |a| %(acc)s.id())) }
    pub fn hold_val() -> i32 { HOLD_%(C)s.with(|h| h.borrow().as_ref().map_or(-1, |a| %(acc)s.get())) }
}""" % dict(C=C, P=P, mk=mk, acc=acc, ret="Result<Fr, String>" if C == "Fr" else P,
            newbody='if v < 0 { Err(format!("bad {}", v)) } else { Ok(Fr::bare(v)) }' if C == "Fr" else mk))
    return "\n".join(out) + "\n"


SECTIONS = {"dup": lambda C: CLS[C][3] != "none", "vec": lambda C: C in VEC, "optref": lambda C: C in OPTREF, "fail": lambda C: C == "Fr"}


def driver(C, tmpl):
    t = tmpl.replace("@C@", C)
    for s, f in SECTIONS.items():
        if f(C):
            t = t.replace("//%s " % s, "")
    return t
