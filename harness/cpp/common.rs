// Shared by all Rust fixtures: a registry of live objects and a checking allocator.
#[allow(dead_code)]
pub mod vf {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;
    use std::collections::{BTreeMap, BTreeSet};
    use std::sync::Mutex;

    thread_local! { static INSIDE: Cell<u32> = const { Cell::new(0) }; }
    // this thread is changing ALLOCS, whose nodes are allocated and freed too
    thread_local! { static BUSY: Cell<bool> = const { Cell::new(false) }; }
    /// allocations of the machinery itself are not counted
    pub struct Guard;
    impl Guard {
        pub fn new() -> Guard {
            let _ = INSIDE.try_with(|x| x.set(x.get() + 1));
            Guard
        }
    }
    impl Drop for Guard {
        fn drop(&mut self) {
            let _ = INSIDE.try_with(|x| x.set(x.get() - 1));
        }
    }

    pub struct CheckAlloc;
    static ALLOCS: Mutex<BTreeMap<usize, (usize, usize)>> = Mutex::new(BTreeMap::new());
    unsafe impl GlobalAlloc for CheckAlloc {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let p = System.alloc(l);
            if INSIDE.try_with(|x| x.get()).unwrap_or(1) == 0 {
                let _g = Guard::new();
                let mut m = ALLOCS.lock().unwrap_or_else(|e| e.into_inner());
                BUSY.with(|x| x.set(true));
                m.insert(p as usize, (l.size(), l.align()));
                BUSY.with(|x| x.set(false));
            }
            p
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            if BUSY.with(|x| x.get()) {
                return System.dealloc(p, l);
            }
            {
                let _g = Guard::new();
                let mut m = ALLOCS.lock().unwrap_or_else(|e| e.into_inner());
                BUSY.with(|x| x.set(true));
                let old = m.remove(&(p as usize));
                BUSY.with(|x| x.set(false));
                drop(m);
                if let Some((s, a)) = old {
                    if s != l.size() || a != l.align() {
                        bad(format!("memory allocated with size {} align {} is freed as size {} align {}", s, a, l.size(), l.align()));
                    }
                }
            }
            // freed memory is overwritten and not used again
            #[cfg(vf_quarantine)]
            {
                std::ptr::write_bytes(p, 0xdd, l.size());
                if l.size() <= 4096 {
                    return;
                }
            }
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static GLOBAL: CheckAlloc = CheckAlloc;

    // a panic ends the process at once, with its message
    extern "C" fn at_start() {
        std::panic::set_hook(Box::new(|i| {
            let _g = Guard::new();
            eprintln!("panic: {}", i);
            extern "C" {
                fn _exit(c: i32) -> !;
            }
            unsafe { _exit(101) }
        }));
    }
    #[used]
    #[cfg_attr(target_os = "linux", link_section = ".init_array")]
    static AT_START: extern "C" fn() = at_start;

    struct Reg {
        next: u64,
        live: BTreeSet<u64>,
        drops: Vec<u64>,
        bad: Vec<String>,
        log: Vec<String>,
    }
    static REG: Mutex<Reg> = Mutex::new(Reg { next: 1, live: BTreeSet::new(), drops: Vec::new(), bad: Vec::new(), log: Vec::new() });
    fn reg<R>(f: impl FnOnce(&mut Reg) -> R) -> R {
        let _g = Guard::new();
        f(&mut REG.lock().unwrap_or_else(|e| e.into_inner()))
    }
    pub fn bad(s: String) {
        reg(|r| {
            if r.bad.len() < 20 {
                r.bad.push(s.clone())
            }
        })
    }
    /// What the called Rust function saw.
    pub fn log(s: String) {
        reg(|r| r.log.push(s.clone()));
        let _g = Guard::new();
        drop(s);
    }
    #[macro_export]
    macro_rules! vlog { ($($t:tt)*) => {{ let _g = $crate::vf::Guard::new(); let s = format!($($t)*); $crate::vf::log_ref(&s); drop(s); }} }
    pub fn log_ref(s: &str) {
        reg(|r| r.log.push(s.to_string()))
    }

    /// Identity of one Rust object.
    #[derive(Debug)]
    pub struct Tok(u64);
    impl Tok {
        pub fn new() -> Tok {
            reg(|r| {
                let n = r.next;
                r.next += 1;
                r.live.insert(n);
                Tok(n)
            })
        }
        /// Every use of an object goes through here.
        pub fn touch(&self) -> u64 {
            reg(|r| {
                if !r.live.contains(&self.0) {
                    r.bad.push(format!("object {} is used but not alive", self.0));
                }
                self.0
            })
        }
    }
    impl Clone for Tok {
        fn clone(&self) -> Tok {
            self.touch();
            Tok::new()
        }
    }
    impl Drop for Tok {
        fn drop(&mut self) {
            reg(|r| {
                if !r.live.remove(&self.0) {
                    r.bad.push(format!("object {} is dropped but not alive", self.0));
                }
                r.drops.push(self.0);
            })
        }
    }

    fn esc(s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }
    /// JSON fragment `"drops":[..],"live":[..],"bad":[..],"log":[..]` of what happened since the last call.
    pub fn report() -> String {
        let _g = Guard::new();
        let r = reg(|r| {
            (std::mem::take(&mut r.drops), r.live.iter().cloned().collect::<Vec<_>>(), std::mem::take(&mut r.bad), std::mem::take(&mut r.log))
        });
        let s = format!(
            "\"drops\":{:?},\"live\":{:?},\"bad\":[{}],\"log\":[{}]",
            r.0,
            r.1,
            r.2.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","),
            r.3.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",")
        );
        s
    }
    /// Allocations now outstanding.
    pub fn allocs() -> usize {
        let _g = Guard::new();
        ALLOCS.lock().unwrap_or_else(|e| e.into_inner()).len()
    }
    pub fn reset_serials() {
        reg(|r| {
            r.next = 1;
            r.live.clear();
        })
    }
}
#[no_mangle]
pub extern "C" fn vf_report(buf: *mut u8, cap: usize) -> usize {
    let _g = vf::Guard::new();
    let s = vf::report();
    let n = s.len().min(cap);
    unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), buf, n) };
    drop(s);
    n
}
#[no_mangle]
pub extern "C" fn vf_allocs() -> usize {
    vf::allocs()
}
#[no_mangle]
pub extern "C" fn vf_reset() {
    vf::reset_serials()
}
