use std::cell::{Ref, RefCell, RefMut};
use std::rc::Rc;
use std::sync::{Arc, Mutex, MutexGuard};

macro_rules! value_class {
    ($C:ident, $H:ident, $P:ty, $wrap:expr, $with:expr) => {
        pub struct $C {
            tok: vf::Tok,
            v: i32,
        }
        #[allow(dead_code)]
        impl $C {
            pub fn bare(v: i32) -> $C {
                $C { tok: vf::Tok::new(), v }
            }
            pub fn new(v: i32) -> $P {
                $wrap($C::bare(v))
            }
            pub fn get(&self) -> i32 {
                self.tok.touch();
                self.v
            }
            pub fn set(&mut self, v: i32) {
                self.tok.touch();
                self.v = v;
            }
            pub fn serial(&self) -> u64 {
                self.tok.touch()
            }
            pub fn same(&self, o: &$C) -> bool {
                self.tok.touch() == o.tok.touch()
            }
            pub fn make(v: i32) -> $P {
                $C::new(v)
            }
            pub fn make_opt(v: i32, some: bool) -> Option<$P> {
                if some {
                    Some($C::new(v))
                } else {
                    None
                }
            }
            pub fn consume(a: $P) -> i32 {
                $with(&a, |x: &$C| x.get())
            }
            pub fn consume_opt(a: Option<$P>) -> i32 {
                match a {
                    Some(a) => $with(&a, |x: &$C| x.get()),
                    None => -5,
                }
            }
            pub fn pass(a: $P) -> $P {
                $with(&a, |x: &$C| x.get());
                a
            }
            pub fn pass_opt(a: Option<$P>) -> Option<$P> {
                a
            }
            pub fn peek(k: i32, a: &$C) -> i32 {
                assert_eq!(k, 77);
                a.get()
            }
            pub fn poke(a: &mut $C, v: i32) {
                a.set(v)
            }
        }
        impl Clone for $C {
            fn clone(&self) -> $C {
                $C { tok: self.tok.clone(), v: self.v }
            }
        }
        pub struct $H(Option<$P>);
        #[allow(dead_code)]
        impl $H {
            pub fn new() -> $H {
                $H(None)
            }
            pub fn put(&mut self, a: $P) {
                self.0 = Some(a)
            }
            pub fn replace(&mut self, a: $P) -> $P {
                self.0.replace(a).unwrap()
            }
            pub fn take(&mut self) -> Option<$P> {
                self.0.take()
            }
            pub fn get(&self) -> &$P {
                self.0.as_ref().unwrap()
            }
            pub fn get_opt(&self) -> Option<&$P> {
                self.0.as_ref()
            }
            pub fn share(&self) -> $P {
                self.0.as_ref().unwrap().clone()
            }
            pub fn serial(&self) -> u64 {
                self.0.as_ref().map_or(0, |a| $with(a, |x: &$C| x.serial()))
            }
            pub fn value(&self) -> i32 {
                self.0.as_ref().map_or(-1, |a| $with(a, |x: &$C| x.get()))
            }
        }
    };
}
value_class!(Foo, HoldFoo, Foo, |x| x, |a: &Foo, f: fn(&Foo) -> _| f(a));
value_class!(Cp, HoldCp, Cp, |x| x, |a: &Cp, f: fn(&Cp) -> _| f(a));
value_class!(Rr, HoldRr, Rc<RefCell<Rr>>, |x| Rc::new(RefCell::new(x)), |a: &Rc<RefCell<Rr>>, f: fn(&Rr) -> _| f(&a.borrow()));
value_class!(Am, HoldAm, Arc<Mutex<Am>>, |x| Arc::new(Mutex::new(x)), |a: &Arc<Mutex<Am>>, f: fn(&Am) -> _| f(&a.lock().unwrap()));
impl Foo {
    pub fn opt_ref(a: Option<&Foo>) -> i32 {
        a.map_or(-5, |x| x.get())
    }
}
impl Cp {
    pub fn opt_ref(a: Option<&Cp>) -> i32 {
        a.map_or(-5, |x| x.get())
    }
}
