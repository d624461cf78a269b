use std::sync::Mutex;
pub struct Foo {
    tok: vf::Tok,
    v: i32,
}
impl Foo {
    pub fn new(v: i32) -> Foo {
        Foo { tok: vf::Tok::new(), v }
    }
    pub fn get(&self) -> i32 {
        self.tok.touch();
        self.v
    }
}
// the order of the methods is not that of the description
pub trait Cb {
    fn on_a(&self, a: i32, b: i32) -> i32;
    fn on_foo(&self, f: Foo, s: &str) -> Foo;
    fn on_m(&mut self, k: i32) -> i32;
    fn on_e(&self);
}
type B = Box<dyn Cb + Send>;
static SLOTS: Mutex<[Option<B>; 2]> = Mutex::new([None, None]);
fn slots<R>(f: impl FnOnce(&mut [Option<B>; 2]) -> R) -> R {
    f(&mut SLOTS.lock().unwrap_or_else(|e| e.into_inner()))
}
// what is replaced is dropped without the lock
pub fn set(s: i32, c: B) {
    let old = slots(|x| x[s as usize].replace(c));
    drop(old)
}
pub fn set_struct(s: i32, c: C_Cb) {
    set(s, Box::new(c))
}
fn run(c: &mut dyn Cb, m: i32) -> i32 {
    match m {
        3 => c.on_m(9),
        m => run_ref(c, m),
    }
}
fn run_ref(c: &dyn Cb, m: i32) -> i32 {
    match m {
        0 => {
            let r = c.on_a(3, 5);
            r - 35
        }
        1 => {
            let f = c.on_foo(Foo::new(1000), "\u{e9}x");
            let v = f.get();
            v - 1000
        }
        2 => {
            c.on_e();
            c.on_a(0, 0)
        }
        _ => unreachable!(),
    }
}
pub fn once(mut c: B, n: i32, m: i32) -> i32 {
    let mut r = -1;
    for _ in 0..n {
        r = run(&mut *c, m);
    }
    r
}
pub fn with(c: &C_Cb, n: i32, m: i32) -> i32 {
    let mut r = -1;
    for _ in 0..n {
        r = run_ref(c, m);
    }
    r
}
pub fn with_mut(mut c: C_Cb, n: i32, m: i32) -> i32 {
    let mut r = -1;
    for _ in 0..n {
        r = run(&mut c, m);
    }
    r
}
fn taken<R>(s: i32, f: impl FnOnce(&mut B) -> R) -> R {
    let mut c = slots(|x| x[s as usize].take()).expect("empty slot");
    let r = f(&mut c);
    let old = slots(|x| x[s as usize].replace(c));
    drop(old);
    r
}
pub fn call(s: i32, m: i32) -> i32 {
    taken(s, |c| run(&mut **c, m))
}
fn threaded<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    let t = {
        let _g = vf::Guard::new();
        std::thread::spawn(f)
    };
    let _g = vf::Guard::new();
    t.join().unwrap()
}
pub fn tcall(s: i32, m: i32) -> i32 {
    let mut c = slots(|x| x[s as usize].take()).expect("empty slot");
    let (c, r) = threaded(move || {
        let r = run(&mut *c, m);
        (c, r)
    });
    slots(|x| x[s as usize] = Some(c));
    r
}
pub fn swap() {
    slots(|x| x.swap(0, 1))
}
pub fn clear(s: i32) {
    let old = slots(|x| x[s as usize].take());
    drop(old)
}
pub fn tclear(s: i32) {
    let old = slots(|x| x[s as usize].take());
    threaded(move || drop(old))
}
pub fn uclear(s: i32) {
    let old = slots(|x| x[s as usize].take());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        let _old = old;
        std::panic::resume_unwind(Box::new(7))
    }));
    assert!(matches!(r, Err::<(), _>(_)));
}
pub fn par(m: i32, n: i32) -> i32 {
    let (mut a, mut b) = slots(|x| (x[0].take().expect("empty slot"), x[1].take().expect("empty slot")));
    let gate = {
        let _g = vf::Guard::new();
        std::sync::Arc::new(std::sync::Barrier::new(2))
    };
    let g2 = gate.clone();
    let t = {
        let _g = vf::Guard::new();
        std::thread::spawn(move || {
            g2.wait();
            let mut r = 0;
            for _ in 0..n {
                r = run(&mut *a, m)
            }
            let _g = vf::Guard::new();
            drop(g2);
            (a, r)
        })
    };
    gate.wait();
    let mut r = 0;
    for _ in 0..n {
        r = run(&mut *b, m)
    }
    let _g = vf::Guard::new();
    let (a, ra) = t.join().unwrap();
    drop(gate);
    slots(|x| *x = [Some(a), Some(b)]);
    ra * 10 + r
}

pub trait Boo {
    fn h(&self, k: i8, x: &mut C_Cb) -> i32;
    fn g(&self, x: &C_Cb) -> i32;
}
pub fn pass(mut c: C_Cb, b: Box<dyn Boo>) -> i32 {
    let x = b.g(&c);
    let y = b.h(-7, &mut c);
    x * 10 + y
}
