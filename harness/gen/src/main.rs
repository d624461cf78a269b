//! Runs flapigen's public Generator API on request: one JSON request per stdin line,
//! one `@`-prefixed JSON answer per line. A panic of the generator is an answer.
use flapigen::*;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};

fn s(v: &Value) -> String {
    v.as_str().unwrap_or("").to_string()
}
fn strs(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(s).collect()).unwrap_or_default()
}

#[allow(deprecated)]
fn config(r: &Value) -> LanguageConfig {
    let out = PathBuf::from(s(&r["out"]));
    let pkg = s(&r["pkg"]);
    let o = &r["opts"];
    match r["lang"].as_str().unwrap() {
        "java" => {
            let mut c = JavaConfig::new(out, pkg);
            if let Some(p) = o["null_pkg"].as_str() {
                c = c.use_null_annotation_from_package(p.into());
            }
            if let Some(p) = o["null_ann"].as_str() {
                c = c.use_null_annotation(p.into());
            }
            if let Some(p) = o["optional_pkg"].as_str() {
                c = c.use_optional_package(p.into());
            }
            if let Some(n) = o["fence"].as_u64() {
                c = c.use_reachability_fence(if n == 0 { JavaReachabilityFence::Std } else { JavaReachabilityFence::GenerateFence(n as usize) });
            }
            LanguageConfig::JavaConfig(c)
        }
        "cpp" => {
            let mut c = CppConfig::new(out, pkg);
            if o["boost"].as_bool() == Some(true) {
                c = c.use_boost();
            }
            if o["boost_opt"].as_bool() == Some(true) {
                c = c.cpp_optional(CppOptional::Boost);
            }
            if o["boost_var"].as_bool() == Some(true) {
                c = c.cpp_variant(CppVariant::Boost);
            }
            if o["boost_str"].as_bool() == Some(true) {
                c = c.cpp_str_view(CppStrView::Boost);
            }
            if o["sep"].as_bool() == Some(true) {
                c = c.separate_impl_headers(true);
            }
            LanguageConfig::CppConfig(c)
        }
        "python" => LanguageConfig::PythonConfig(PythonConfig::new(pkg)),
        x => panic!("driver: unknown lang {}", x),
    }
}

fn variant(v: &MethodVariant) -> &'static str {
    match v {
        MethodVariant::Constructor => "constructor",
        MethodVariant::Method(_) => "method",
        MethodVariant::StaticMethod => "static",
    }
}

fn handle(r: &Value, calls: &Arc<Mutex<Vec<Value>>>) {
    let mut g = Generator::new(config(r))
        .with_pointer_target_width(r["width"].as_u64().unwrap_or(64) as usize)
        .rustfmt_bindings(r["rustfmt"].as_bool().unwrap_or(false))
        .remove_not_generated_files_from_output_directory(r["remove"].as_bool().unwrap_or(false));
    for m in r["maps"].as_array().unwrap_or(&vec![]) {
        g = g.merge_type_map(&s(&m[0]), &s(&m[1]));
    }
    for (kind, list) in [("class", strs(&r["class_cbs"])), ("enum", strs(&r["enum_cbs"])), ("method", strs(&r["method_cbs"]))] {
        for attr in list {
            let calls = calls.clone();
            let a = attr.clone();
            let rec = move |code: &mut Vec<u8>, class: &str, method: &str, var: &str| {
                calls.lock().unwrap().push(json!({"kind": kind, "attr": a, "name": class, "method": method, "variant": var,
                    "code": String::from_utf8_lossy(code)}));
                code.extend_from_slice(format!("\n//CB:{}:{}:{}:{}\n", kind, a, class, method).as_bytes());
            };
            g = match kind {
                "class" => g.register_class_attribute_callback(&attr, move |c, n| rec(c, n, "", "")),
                "enum" => g.register_enum_attribute_callback(&attr, move |c, n| rec(c, n, "", "")),
                _ => g.register_method_attribute_callback(&attr, move |c, mi| {
                    rec(c, mi.class_name.as_ref(), &mi.method_name, variant(&mi.variant))
                }),
            };
        }
    }
    let srcs = strs(&r["srcs"]);
    let name = r["crate"].as_str().unwrap_or("vcrate").to_string();
    if r["many"].as_bool().unwrap_or(srcs.len() != 1) {
        g.expand_many(&name, &srcs, s(&r["dst"]));
    } else {
        g.expand(&name, &srcs[0], s(&r["dst"]));
    }
}

fn answer(r: &Value) -> Value {
    let calls = Arc::new(Mutex::new(vec![]));
    let res = catch_unwind(AssertUnwindSafe(|| handle(r, &calls)));
    let (ok, msg) = match res {
        Ok(()) => (true, String::new()),
        Err(e) => (
            false,
            e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_else(|| "?".into()),
        ),
    };
    let calls = match calls.lock() {
        Ok(c) => c.clone(),
        Err(p) => p.into_inner().clone(),
    };
    json!({"ok": ok, "panic": msg, "calls": calls})
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let r: Value = serde_json::from_str(&line).unwrap();
        // "items": the top-level items of Rust files as token strings
        if let Some(files) = r["items"].as_array() {
            let read = |f: &Value| -> Value {
                match syn::parse_file(&std::fs::read_to_string(s(f)).unwrap()) {
                    Ok(file) => Value::from(file.items.iter().map(|i| quote::quote!(#i).to_string()).collect::<Vec<_>>()),
                    Err(e) => json!({ "error": e.to_string() }),
                }
            };
            println!("\n@{}", json!({"files": files.iter().map(read).collect::<Vec<_>>(), "ok": true, "panic": "", "calls": []}));
            std::io::stdout().flush().unwrap();
            continue;
        }
        // "both": several requests at the same time, each in its own thread
        let a = match r["both"].as_array() {
            Some(rs) => {
                let ts: Vec<_> = rs.iter().cloned().map(|r| std::thread::Builder::new().stack_size(16 << 20).spawn(move || answer(&r)).unwrap()).collect();
                json!({"all": ts.into_iter().map(|t| t.join().unwrap()).collect::<Vec<_>>(), "ok": true, "panic": "", "calls": []})
            }
            None => answer(&r),
        };
        println!("\n@{}", a);
        std::io::stdout().flush().unwrap();
    }
}
