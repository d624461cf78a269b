// What the Java drivers ask the machinery for.
pub mod vfjni {
    use super::*;
    /// What the glue logs as an error: an exception of a callback is part of the specified behaviour, all else is a violation.
    pub fn loud(s: String) {
        let _g = vf::Guard::new();
        if s.ends_with(": java throw exception") {
            vf::log_ref("threw")
        } else {
            vf::bad(s)
        }
    }
    pub fn jstr(env: *mut JNIEnv, s: &str) -> jstring {
        let _g = vf::Guard::new();
        let u: Vec<u16> = s.encode_utf16().collect();
        unsafe { (**env).NewString.unwrap()(env, u.as_ptr(), u.len() as jsize) }
    }
}
#[no_mangle]
pub extern "C" fn Java_com_example_Vf_report(env: *mut JNIEnv, _: jclass) -> jstring {
    let _g = vf::Guard::new();
    let s = vf::report();
    vfjni::jstr(env, &s)
}
#[no_mangle]
pub extern "C" fn Java_com_example_Vf_allocs(_: *mut JNIEnv, _: jclass) -> jlong {
    vf::allocs() as jlong
}
#[no_mangle]
pub extern "C" fn Java_com_example_Vf_reset(_: *mut JNIEnv, _: jclass) {
    vf::reset_serials()
}
#[no_mangle]
pub extern "C" fn Java_com_example_Vf_warm(_: *mut JNIEnv, _: jclass) {
    let _ = std::thread::current().id();
    let _ = std::sync::Arc::new(std::sync::Mutex::new(1)).lock().map(|x| *x);
}
