use std::sync::{Arc, Mutex, mpsc};
#[derive(Clone, Copy)]
pub enum En { Aa, Bb, Cc }
pub struct Foo { tok: vf::Tok, v: i32 }
impl Foo {
    pub fn new(v: i32) -> Foo { Foo { tok: vf::Tok::new(), v } }
    pub fn get(&self) -> i32 { self.v }
}
pub trait Cb {
    fn on_e(&self);
    fn on_m(&mut self, k: i32) -> i32;
    fn on_a(&self, a: i32, b: i64) -> i32;
    fn on_f(&self, f: Foo, s: &str, v: Vec<i32>, d: f64, b: bool, e: En, o: u16) -> i64;
    fn on_x(&self, k: i32) -> i32;
    fn on_v(&self, k: u8);
}
type B = Box<dyn Cb + Send>;
static SLOT: [Mutex<Option<B>>; 2] = [Mutex::new(None), Mutex::new(None)];
static VM: Mutex<usize> = Mutex::new(0);
fn slot(s: i32) -> std::sync::MutexGuard<'static, Option<B>> {
    SLOT[s as usize].lock().unwrap_or_else(|e| e.into_inner())
}
fn vm() -> *mut JavaVM { *VM.lock().unwrap() as *mut JavaVM }
fn env() -> Option<*mut JNIEnv> {
    let mut e: *mut JNIEnv = ::std::ptr::null_mut();
    let r = unsafe { (**vm()).GetEnv.unwrap()(vm(), (&mut e) as *mut *mut JNIEnv as *mut *mut ::std::os::raw::c_void, JNI_VERSION_1_6 as jint) };
    if r == 0 { Some(e) } else { None }
}
/// Runs f and looks at the attachment of this thread and at a pending exception.
fn watched<T>(f: impl FnOnce() -> T) -> T {
    let a = env().is_some();
    let r = f();
    let b = env().is_some();
    if a != b {
        vf::bad(format!("the thread was {}, is {} after the call", if a { "attached" } else { "not attached" }, if b { "attached" } else { "not attached" }));
    }
    pending();
    r
}
fn pending() {
    if let Some(e) = env() {
        if unsafe { (**e).ExceptionCheck.unwrap()(e) } != 0 {
            vf::bad("an exception is pending after the call".to_string());
        }
    }
}
struct Worker { tx: mpsc::Sender<Box<dyn FnOnce() + Send>>, rx: mpsc::Receiver<()> }
static WORKER: Mutex<Option<Worker>> = Mutex::new(None);
fn on_worker(f: impl FnOnce() + Send + 'static) {
    let _g = vf::Guard::new();
    let mut w = WORKER.lock().unwrap();
    if w.is_none() {
        let (tx, rx) = mpsc::channel::<Box<dyn FnOnce() + Send>>();
        let (dtx, drx) = mpsc::channel();
        std::thread::spawn(move || {
            loop {
                let f = { let _g = vf::Guard::new(); match rx.recv() { Ok(f) => f, Err(_) => return } };
                f();
                let _g = vf::Guard::new();
                let _ = dtx.send(());
            }
        });
        *w = Some(Worker { tx, rx: drx });
    }
    let (tx, rx) = { let w = w.as_ref().unwrap(); (w.tx.clone(), &w.rx) };
    tx.send(Box::new(f)).unwrap();
    if rx.recv().is_err() {
        *w = None;
        vf::bad("the worker thread died".to_string());
    }
}
/// 0 and 3: this thread, 1: a new one, 2: the worker.
fn on<T: Send + 'static>(t: i32, f: impl FnOnce() -> T + Send + 'static) -> T {
    if t == 0 || t == 3 {
        return watched(f);
    }
    let r = Arc::new(Mutex::new(None));
    let q = r.clone();
    let g = move || { let x = watched(f); *q.lock().unwrap() = Some(x); };
    if t == 1 {
        let _g = vf::Guard::new();
        if std::thread::spawn(g).join().is_err() {
            vf::bad("the thread died".to_string());
        }
    } else {
        on_worker(g);
    }
    let x = r.lock().unwrap().take();
    x.expect("no result")
}
fn one(c: &mut B, m: &str, k: i32) -> i32 {
    match m {
        "a" => c.on_a(100 + k, -7_000_000_000 - k as i64),
        "m" => c.on_m(k),
        "x" => c.on_x(k),
        "e" => { c.on_e(); -2 }
        "v" => { c.on_v((200 + k % 50) as u8); -2 }
        "f" => {
            let e = [En::Aa, En::Bb, En::Cc][(k % 3) as usize];
            let r = c.on_f(Foo::new(1000 + k), &format!("s\u{e9}\0\u{1f600}{}", k), vec![k; (k % 3) as usize], k as f64 / 2.0, k % 2 == 1, e, (40000 + k) as u16);
            if r < 0 { vf::bad(format!("result {}", r)); }
            (r - 5_000_000_000) as i32
        }
        _ => unreachable!(),
    }
}
fn many(s: i32, m: &str, n: i32) -> i32 {
    let mut c = slot(s).take().expect("empty slot");
    let mut r = -1;
    for k in 0..n {
        r = one(&mut c, m, k);
        pending();
    }
    let mut x = slot(s);
    if x.is_none() { *x = Some(c); } else { drop(x); drop(c); }
    r
}
pub mod hub {
    use super::*;
    pub fn set(s: i32, c: B) { let old = slot(s).replace(c); drop(old); }
    pub fn once(mut c: B, n: i32, m: &str) -> i32 {
        let mut r = -1;
        for k in 0..n { r = one(&mut c, m, k); pending(); }
        r
    }
    pub fn call(s: i32, m: &str, n: i32, t: i32) -> i32 { let m = m.to_string(); on(t, move || many(s, &m, n)) }
    pub fn twice(s: i32, m: &str, t: i32) -> i32 { let m = m.to_string(); on(t, move || { many(s, &m, 1); many(s, "a", 1) }) }
    pub fn swap() { let a = slot(0).take(); let b = slot(1).take(); *slot(0) = b; *slot(1) = a; }
    pub fn clear(s: i32, t: i32) { on(t, move || { let c = slot(s).take();
        // every other one while Rust unwinds
        static N: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);
        if N.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 2 == 0 {
            return drop(c);
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            let _c = c;
            std::panic::resume_unwind(Box::new(7))
        }));
        assert!(matches!(r, Err::<(), _>(_)));
    }) }
    pub fn par(m: &str, n: i32) -> i32 {
        let _g = vf::Guard::new();
        let bar = Arc::new(std::sync::Barrier::new(2));
        let h: Vec<_> = (0..2).map(|s| { let (m, b) = (m.to_string(), bar.clone()); std::thread::spawn(move || watched(|| { b.wait(); many(s, &m, n) })) }).collect();
        let r: Vec<i32> = h.into_iter().map(|h| h.join().unwrap_or_else(|_| { vf::bad("a thread died".to_string()); -9 })).collect();
        r[0] * 100 + r[1]
    }
    pub fn attach(on: bool) {
        on_worker(move || {
            let mut e: *mut JNIEnv = ::std::ptr::null_mut();
            let name = b"vf-worker\0";
            let mut args = JavaVMAttachArgs { version: JNI_VERSION_1_6 as jint, name: name.as_ptr() as *mut _, group: ::std::ptr::null_mut() };
            let r = unsafe { if on { (**vm()).AttachCurrentThread.unwrap()(vm(), (&mut e) as *mut *mut JNIEnv as *mut *mut ::std::os::raw::c_void, (&mut args) as *mut JavaVMAttachArgs as *mut ::std::os::raw::c_void) } else { (**vm()).DetachCurrentThread.unwrap()(vm()) } };
            if r != 0 { vf::bad(format!("attach/detach: {}", r)); }
        })
    }
}
use hub::{set, once, call, twice, swap, clear, par, attach};
#[no_mangle]
pub extern "C" fn Java_com_example_Jcb_init(env: *mut JNIEnv, _: jclass) {
    let mut v: *mut JavaVM = ::std::ptr::null_mut();
    unsafe { (**env).GetJavaVM.unwrap()(env, &mut v) };
    *VM.lock().unwrap() = v as usize;
    on_worker(|| {});
}
