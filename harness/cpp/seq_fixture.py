"""Writes the description and the Rust side of the container fixture (many element types, one text)."""
OBJ = ["Foo", "Big", "Tiny"]
PRIM = ["u8", "i8", "u16", "i16", "i32", "u32", "i64", "u64", "usize", "isize", "f32", "f64"]

OBJ_IN = """
foreign_class!(class @C {
    self_type @C;
    constructor @C::new(v: i32) -> @C;
    fn @C::get(&self) -> i32;
    fn @C::serial(&self) -> u64;
});
foreign_class!(class Hold@C {
    self_type Hold@C;
    constructor Hold@C::new() -> Hold@C;
    fn Hold@C::make(&mut self, n: i32, a: i32, b: i32);
    fn Hold@C::put(&mut self, v: Vec<@C>);
    fn Hold@C::take(&mut self) -> Vec<@C>;
    fn Hold@C::slice(&self) -> &[@C];
    fn Hold@C::mslice(&mut self) -> &mut [@C];
    fn vec_make_@C(n: i32, a: i32, b: i32) -> Vec<@C>; alias vec_make;
    fn vec_consume_@C(v: Vec<@C>) -> i64; alias vec_consume;
    fn vec_pass_@C(rev: bool, v: Vec<@C>) -> Vec<@C>; alias vec_pass;
    fn sum_@C(k: i32, a: &[@C]) -> i64; alias sum;
    fn bump_@C(a: &mut [@C], i: usize, v: i32); alias bump;
});
"""
PRIM_IN = """
foreign_class!(class P@T {
    fn vec_make_@T(n: i32, a: @T, b: @T) -> Vec<@T>; alias vec_make;
    fn vec_consume_@T(v: Vec<@T>, one: @T) -> i64; alias vec_consume;
    fn vec_pass_@T(rev: bool, v: Vec<@T>) -> Vec<@T>; alias vec_pass;
    fn sum_@T(one: @T, a: &[@T]) -> i64; alias sum;
    fn bump_@T(a: &mut [@T], i: usize, v: @T); alias bump;
    fn rev_@T(a: &mut [@T]); alias rev;
});
foreign_class!(class Hold@T {
    self_type Hold@T;
    constructor Hold@T::new() -> Hold@T;
    fn Hold@T::make(&mut self, n: i32, a: @T, b: @T);
    fn Hold@T::put(&mut self, v: Vec<@T>);
    fn Hold@T::take(&mut self) -> Vec<@T>;
    fn Hold@T::slice(&self) -> &[@T];
    fn Hold@T::mslice(&mut self) -> &mut [@T];
});
"""
ARC_IN = """
foreign_class!(class Arcd {
    self_type Arcd;
    constructor Arcd::new(v: i32) -> Arc<Arcd>;
    fn Arcd::get(&self) -> i32;
    fn Arcd::serial(&self) -> u64;
});
foreign_typemap!(
    define_c_type!(
        module = "arcd_slice_access.h";
        #[no_mangle]
        pub extern "C" fn arcd_access(sl: CRustSliceAccess, idx: usize) -> *const ::std::os::raw::c_void {
            let slice: &[Arc<Arcd>] = unsafe { ::std::slice::from_raw_parts(sl.data as *const Arc<Arcd>, sl.len) };
            let elem_ref: &Arcd = &slice[idx];
            elem_ref as *const Arcd as *const ::std::os::raw::c_void
        }
    );
    foreign_code!(module = "rust_slice.h";
                    r##"
#ifdef __cplusplus
#include "arcd_slice_access.h"
#include "rust_slice_access.hpp"
#include "Arcd.hpp"

namespace $RUST_SWIG_USER_NAMESPACE {
struct ArcdAccess {
       using ReturnType = ArcdRef;
       static ArcdRef index(CRustSliceAccess slice, size_t idx) noexcept {
           auto p = static_cast<const ArcdOpaque *>(arcd_access(slice, idx));
           return ArcdRef{ p };
       }
};
using RustArcdConstSlice = RustSliceAccess<ArcdAccess>;
}
#endif
"##);
    ($p:r_type) &[Arc<Arcd>] => CRustSliceAccess {
        $out = CRustSliceAccess::from_slice($p);
    };
    ($p:f_type, req_modules = ["\\"rust_slice.h\\""]) => "RustArcdConstSlice"
        "RustArcdConstSlice{$p}";
);
foreign_typemap!(
    define_c_type!(
        module = "arcd_vec_access.h";
        #[no_mangle]
        pub extern "C" fn arcd_vec_access(sl: CRustVecAccess, idx: usize) -> *const ::std::os::raw::c_void {
            let v = CRustVecAccess::to_slice::<Arc<Arcd>>(sl);
            let elem_ref: &Arcd = &v[idx];
            elem_ref as *const Arcd as *const ::std::os::raw::c_void
        }
        #[no_mangle]
        pub extern "C" fn arcd_vec_drop(sl: CRustVecAccess) {
            let v = CRustVecAccess::to_vec::<Arc<Arcd>>(sl);
            drop(v);
        }
    );
    foreign_code!(module = "rust_vec_arcd.hpp";
                    r##"
#pragma once

#include "arcd_vec_access.h"
#include "rust_vec_access.hpp"
#include "Arcd.hpp"

namespace $RUST_SWIG_USER_NAMESPACE {
struct ArcdVecAccess {
       using ElemType = ArcdRef;
       static ArcdRef index(CRustVecAccess cs, size_t idx) noexcept {
           auto p = static_cast<const ArcdOpaque *>(arcd_vec_access(cs, idx));
           return ArcdRef{ p };
       }
       static void free(CRustVecAccess cs) noexcept {
           arcd_vec_drop(cs);
       }
};
using RustVecArcd = RustVecAccess<ArcdVecAccess, CRustVecAccess>;
}
"##);
    ($p:r_type) Vec<Arc<Arcd>> => CRustVecAccess {
        $out = CRustVecAccess::from_vec($p);
    };
    ($p:f_type, req_modules = ["\\"rust_vec_arcd.hpp\\""]) => "RustVecArcd"
        "RustVecArcd{$p}";
);
foreign_class!(class HoldArcd {
    self_type HoldArcd;
    constructor HoldArcd::new() -> HoldArcd;
    fn HoldArcd::make(&mut self, n: i32, a: i32, b: i32);
    fn HoldArcd::slice(&self) -> &[Arc<Arcd>];
    fn vec_make_Arcd(n: i32, a: i32, b: i32) -> Vec<Arc<Arcd>>; alias vec_make;
});
foreign_class!(class Str {
    fn str_make(n: i32, a: i32, b: i32) -> String; alias make;
});
"""

RS = r"""
use std::sync::Arc;
static SPARE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// empty values with and without memory of their own
fn spare() -> usize { SPARE.fetch_add(3, std::sync::atomic::Ordering::Relaxed) % 2 * 3 }
fn pick<T>(n: i32, a: impl FnOnce() -> T, b: impl FnOnce() -> T) -> Vec<T> {
    let mut r = Vec::with_capacity(if n > 0 { (n * 3) as usize } else { spare() });
    if n > 0 {
        r.push(a());
    }
    if n > 1 {
        r.push(b());
    }
    if n == 1 {
        r.shrink_to_fit();
    }
    r
}
fn hash(it: impl Iterator<Item = i64>) -> i64 {
    it.fold(0, |a, x| a * 3 + x + 1)
}
macro_rules! obj {
    ($C:ident, $H:ident, $mk:ident, $co:ident, $pa:ident, $su:ident, $bu:ident, $pad:ty, $($attr:tt)*) => {
        $($attr)*
        pub struct $C { tok: vf::Tok, v: i32, pad: $pad }
        impl $C {
            pub fn new(v: i32) -> $C { $C { tok: vf::Tok::new(), v, pad: unsafe { std::mem::zeroed() } } }
            pub fn get(&self) -> i32 { self.tok.touch(); assert_eq!(self as *const $C as usize % std::mem::align_of::<$C>(), 0); self.v }
            pub fn serial(&self) -> u64 { self.tok.touch() }
        }
        pub fn $mk(n: i32, a: i32, b: i32) -> Vec<$C> { pick(n, || $C::new(a), || $C::new(b)) }
        pub fn $co(v: Vec<$C>) -> i64 { hash(v.iter().map(|x| x.get() as i64)) }
        pub fn $pa(rev: bool, mut v: Vec<$C>) -> Vec<$C> { if rev { v.reverse() } v }
        pub fn $su(k: i32, a: &[$C]) -> i64 { assert_eq!(k, 77); hash(a.iter().map(|x| x.get() as i64)) }
        pub fn $bu(a: &mut [$C], i: usize, v: i32) { a[i].tok.touch(); a[i].v = v }
        pub struct $H(Vec<$C>);
        impl $H {
            pub fn new() -> $H { $H(Vec::new()) }
            pub fn make(&mut self, n: i32, a: i32, b: i32) { self.0 = $mk(n, a, b) }
            pub fn put(&mut self, v: Vec<$C>) { self.0 = v }
            pub fn take(&mut self) -> Vec<$C> { std::mem::take(&mut self.0) }
            pub fn slice(&self) -> &[$C] { &self.0 }
            pub fn mslice(&mut self) -> &mut [$C] { &mut self.0 }
        }
    };
}
macro_rules! prim {
    ($T:ident, $H:ident, $mk:ident, $co:ident, $pa:ident, $su:ident, $bu:ident, $re:ident) => {
        pub fn $mk(n: i32, a: $T, b: $T) -> Vec<$T> { pick(n, || a, || b) }
        pub fn $co(v: Vec<$T>, one: $T) -> i64 { hash(v.iter().map(|x| (x.to_ne_bytes() == one.to_ne_bytes()) as i64)) }
        pub fn $pa(rev: bool, mut v: Vec<$T>) -> Vec<$T> { if rev { v.reverse() } v }
        pub fn $su(one: $T, a: &[$T]) -> i64 { hash(a.iter().map(|x| (x.to_ne_bytes() == one.to_ne_bytes()) as i64)) }
        pub fn $bu(a: &mut [$T], i: usize, v: $T) { a[i] = v }
        pub fn $re(a: &mut [$T]) { a.reverse() }
        pub struct $H(Vec<$T>);
        impl $H {
            pub fn new() -> $H { $H(Vec::new()) }
            pub fn make(&mut self, n: i32, a: $T, b: $T) { self.0 = $mk(n, a, b) }
            pub fn put(&mut self, v: Vec<$T>) { self.0 = v }
            pub fn take(&mut self) -> Vec<$T> { std::mem::take(&mut self.0) }
            pub fn slice(&self) -> &[$T] { &self.0 }
            pub fn mslice(&mut self) -> &mut [$T] { &mut self.0 }
        }
    };
}
pub struct Arcd { tok: vf::Tok, v: i32 }
impl Arcd {
    pub fn new(v: i32) -> Arc<Arcd> { Arc::new(Arcd { tok: vf::Tok::new(), v }) }
    pub fn get(&self) -> i32 { self.tok.touch(); self.v }
    pub fn serial(&self) -> u64 { self.tok.touch() }
}
pub fn vec_make_Arcd(n: i32, a: i32, b: i32) -> Vec<Arc<Arcd>> { pick(n, || Arcd::new(a), || Arcd::new(b)) }
pub struct HoldArcd(Vec<Arc<Arcd>>);
impl HoldArcd {
    pub fn new() -> HoldArcd { HoldArcd(Vec::new()) }
    pub fn make(&mut self, n: i32, a: i32, b: i32) { self.0 = vec_make_Arcd(n, a, b) }
    pub fn slice(&self) -> &[Arc<Arcd>] { &self.0 }
}
pub fn str_make(n: i32, a: i32, b: i32) -> String {
    let c = |v: i32| if v == 0 { '\0' } else { 'z' };
    let mut r = String::with_capacity(spare());
    r.extend(pick(n, || c(a), || c(b)));
    r
}
"""
PADS = {"Foo": ("u32", ""), "Big": ("[u8; 40]", "#[repr(align(32))]"), "Tiny": ("()", "#[repr(C)]")}


def fixture():
    return "".join(OBJ_IN.replace("@C", c) for c in OBJ) + "".join(PRIM_IN.replace("@T", t) for t in PRIM) + ARC_IN


def rust():
    r = RS
    for c in OBJ:
        r += "obj!(%s, Hold%s, vec_make_%s, vec_consume_%s, vec_pass_%s, sum_%s, bump_%s, %s, %s);\n" % (c, c, c, c, c, c, c, *PADS[c])
    for t in PRIM:
        r += "prim!(%s, Hold%s, vec_make_%s, vec_consume_%s, vec_pass_%s, sum_%s, bump_%s, rev_%s);\n" % ((t,) * 8)
    return r


if __name__ == "__main__":
    import sys
    open(sys.argv[1] + ".rs.in", "w").write(fixture())
    open(sys.argv[1] + ".rs", "w").write(rust())
