// Values as text: one notation for the model, Rust and the foreign language.
#[allow(dead_code)]
pub mod val {
    use super::vf;
    pub struct P {
        s: &'static [u8],
        i: usize,
    }
    static INPUT: std::sync::Mutex<Vec<u8>> = std::sync::Mutex::new(Vec::new());
    pub fn set_input(b: &[u8]) {
        let _g = vf::Guard::new();
        *INPUT.lock().unwrap_or_else(|e| e.into_inner()) = b.to_vec();
    }
    pub fn input() -> P {
        let _g = vf::Guard::new();
        let v = INPUT.lock().unwrap_or_else(|e| e.into_inner()).clone();
        P { s: Box::leak(v.into_boxed_slice()), i: 0 }
    }
    impl P {
        pub fn ch(&mut self) -> u8 {
            self.i += 1;
            self.s[self.i - 1]
        }
        /// hex bytes up to '.'
        pub fn hex<const N: usize>(&mut self) -> [u8; N] {
            let mut r = [0u8; N];
            for x in r.iter_mut() {
                *x = self.byte();
            }
            assert_eq!(self.ch(), b'.');
            r
        }
        fn byte(&mut self) -> u8 {
            let d = |c: u8| (c as char).to_digit(16).unwrap() as u8;
            let h = d(self.ch());
            h * 16 + d(self.ch())
        }
        pub fn bytes(&mut self, out: &mut Vec<u8>) {
            while self.s[self.i] != b'.' {
                let b = self.byte();
                out.push(b);
            }
            self.ch();
        }
        fn count(&mut self) -> usize {
            let mut n = 0;
            loop {
                match self.ch() {
                    b':' => return n,
                    c => n = n * 10 + (c - b'0') as usize,
                }
            }
        }
    }
    pub fn put_hex(o: &mut String, b: &[u8]) {
        let _g = vf::Guard::new();
        for x in b {
            o.push_str(&format!("{:02x}", x));
        }
        o.push('.');
    }
    static SPARE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    /// so that empty values come with and without memory of their own
    fn spare() -> usize {
        SPARE.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 2 * 3
    }
    pub trait Enc {
        fn enc(&self, o: &mut String);
    }
    pub trait Dec: Sized {
        fn dec(p: &mut P) -> Self;
    }
    pub fn text<T: Enc>(t: &T) -> String {
        let _g = vf::Guard::new();
        let mut s = String::new();
        t.enc(&mut s);
        s
    }
    pub fn seen<T: Enc>(what: &str, t: &T) {
        let _g = vf::Guard::new();
        let s = format!("{} {}", what, text(t));
        vf::log_ref(&s);
        if std::env::var_os("VF_TRACE").is_some() {
            eprintln!("seen {}", s);
        }
    }
    pub fn make<T: Dec>() -> T {
        let mut p = input();
        T::dec(&mut p)
    }
    macro_rules! num {
        ($($t:ty),*) => { $(
            impl Enc for $t { fn enc(&self, o: &mut String) { put_hex(o, &self.to_le_bytes()) } }
            impl Dec for $t { fn dec(p: &mut P) -> $t { <$t>::from_le_bytes(p.hex()) } }
        )* };
    }
    num!(u8, i8, u16, i16, u32, i32, u64, i64, usize, isize, f32, f64);
    impl Enc for bool {
        fn enc(&self, o: &mut String) {
            // the representation must be a valid one
            let b = unsafe { std::ptr::read_volatile(self as *const bool as *const u8) };
            put_hex(o, &[b])
        }
    }
    impl Dec for bool {
        fn dec(p: &mut P) -> bool {
            p.hex::<1>()[0] != 0
        }
    }
    impl Enc for () {
        fn enc(&self, o: &mut String) {
            o.push_str("01.")
        }
    }
    impl Dec for () {
        fn dec(p: &mut P) {
            p.hex::<1>();
        }
    }
    impl<'a> Enc for &'a str {
        fn enc(&self, o: &mut String) {
            put_hex(o, self.as_bytes())
        }
    }
    impl Dec for &'static str {
        fn dec(p: &mut P) -> &'static str {
            let _g = vf::Guard::new();
            let mut v = Vec::new();
            p.bytes(&mut v);
            String::leak(String::from_utf8(v).unwrap())
        }
    }
    impl Enc for String {
        fn enc(&self, o: &mut String) {
            put_hex(o, self.as_bytes())
        }
    }
    impl Dec for String {
        fn dec(p: &mut P) -> String {
            let s: &str = Dec::dec(p);
            let mut r = String::with_capacity(s.len() + s.len() / 2 + spare());
            r.push_str(s);
            r
        }
    }
    impl<T: Enc> Enc for Option<T> {
        fn enc(&self, o: &mut String) {
            match self {
                None => o.push('N'),
                Some(x) => {
                    o.push('S');
                    x.enc(o)
                }
            }
        }
    }
    impl<T: Dec> Dec for Option<T> {
        fn dec(p: &mut P) -> Self {
            match p.ch() {
                b'N' => None,
                b'S' => Some(T::dec(p)),
                c => panic!("{}", c),
            }
        }
    }
    impl<T: Enc, E: Enc> Enc for Result<T, E> {
        fn enc(&self, o: &mut String) {
            match self {
                Ok(_) if std::mem::size_of::<T>() == 0 => o.push('U'),
                Ok(x) => {
                    o.push('O');
                    x.enc(o)
                }
                Err(x) => {
                    o.push('E');
                    x.enc(o)
                }
            }
        }
    }
    impl<T: Dec, E: Dec> Dec for Result<T, E> {
        fn dec(p: &mut P) -> Self {
            match p.ch() {
                b'O' => Ok(T::dec(p)),
                b'U' => Ok(T::dec(&mut P { s: b"01.", i: 0 })),
                b'E' => Err(E::dec(p)),
                c => panic!("{}", c),
            }
        }
    }
    impl<A: Enc, B: Enc> Enc for (A, B) {
        fn enc(&self, o: &mut String) {
            o.push('(');
            self.0.enc(o);
            self.1.enc(o)
        }
    }
    impl<A: Dec, B: Dec> Dec for (A, B) {
        fn dec(p: &mut P) -> Self {
            p.ch();
            let a = A::dec(p);
            (a, B::dec(p))
        }
    }
    impl<A: Enc, B: Enc, C: Enc> Enc for (A, B, C) {
        fn enc(&self, o: &mut String) {
            o.push('[');
            self.0.enc(o);
            self.1.enc(o);
            self.2.enc(o)
        }
    }
    impl<A: Dec, B: Dec, C: Dec> Dec for (A, B, C) {
        fn dec(p: &mut P) -> Self {
            p.ch();
            let a = A::dec(p);
            let b = B::dec(p);
            (a, b, C::dec(p))
        }
    }
    impl<'a, T: Enc> Enc for &'a [T] {
        fn enc(&self, o: &mut String) {
            {
                let _g = vf::Guard::new();
                o.push_str(&format!("V{}:", self.len()));
            }
            for x in *self {
                x.enc(o)
            }
        }
    }
    impl<T: Enc> Enc for Vec<T> {
        fn enc(&self, o: &mut String) {
            self.as_slice().enc(o)
        }
    }
    impl<T: Dec> Dec for Vec<T> {
        fn dec(p: &mut P) -> Self {
            p.ch();
            let n = p.count();
            let mut v = Vec::with_capacity(n + n / 2 + spare());
            for _ in 0..n {
                v.push(T::dec(p));
            }
            v
        }
    }
    impl<T: Dec> Dec for &'static [T] {
        fn dec(p: &mut P) -> Self {
            let _g = vf::Guard::new();
            let v: Vec<T> = Dec::dec(p);
            Vec::leak(v)
        }
    }
    /// milliseconds since 1970
    impl Enc for std::time::SystemTime {
        fn enc(&self, o: &mut String) {
            let ms = match self.duration_since(std::time::UNIX_EPOCH) {
                Ok(d) => d.as_millis() as i64,
                Err(e) => -(e.duration().as_millis() as i64),
            };
            ms.enc(o)
        }
    }
    impl Dec for std::time::SystemTime {
        fn dec(p: &mut P) -> Self {
            let ms = i64::dec(p);
            let d = std::time::Duration::from_millis(ms.unsigned_abs());
            if ms >= 0 { std::time::UNIX_EPOCH + d } else { std::time::UNIX_EPOCH - d }
        }
    }
    impl<T: Enc> Enc for std::sync::Arc<std::sync::Mutex<T>> {
        fn enc(&self, o: &mut String) {
            self.lock().unwrap().enc(o)
        }
    }
    impl<T: Dec> Dec for std::sync::Arc<std::sync::Mutex<T>> {
        fn dec(p: &mut P) -> Self {
            std::sync::Arc::new(std::sync::Mutex::new(T::dec(p)))
        }
    }
    pub fn put_obj(o: &mut String, v: i32, serial: u64) {
        let _g = vf::Guard::new();
        put_hex(o, &v.to_le_bytes());
        o.pop();
        o.push_str(&format!("@{}.", serial));
    }
}
#[no_mangle]
pub extern "C" fn vf_put(p: *const u8, n: usize) {
    val::set_input(unsafe { std::slice::from_raw_parts(p, n) })
}
