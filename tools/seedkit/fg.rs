// fg LANG OUT DST NAMESPACE_OR_PACKAGE [opt..] -- SRC..   (runs the generator; exit 0 if it accepted the input)
use flapigen::*;
use std::path::PathBuf;
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let i = a.iter().position(|x| x == "--").unwrap();
    let (h, srcs) = (&a[..i], &a[i + 1..]);
    let (out, dst, pkg) = (PathBuf::from(&h[1]), PathBuf::from(&h[2]), h[3].clone());
    let has = |o: &str| h[4..].iter().any(|x| x == o);
    let cfg = match h[0].as_str() {
        "java" => {
            let mut c = JavaConfig::new(out, pkg);
            if let Some(p) = h[4..].iter().find_map(|x| x.strip_prefix("null=")) {
                c = c.use_null_annotation_from_package(p.into());
            }
            LanguageConfig::JavaConfig(c)
        }
        "cpp" => {
            let mut c = CppConfig::new(out, pkg);
            if has("boost") {
                c = c.use_boost();
            }
            if has("sep") {
                c = c.separate_impl_headers(true);
            }
            LanguageConfig::CppConfig(c)
        }
        "python" => LanguageConfig::PythonConfig(PythonConfig::new(pkg)),
        _ => panic!(),
    };
    let mut g = Generator::new(cfg).with_pointer_target_width(64).rustfmt_bindings(has("fmt"))
        .remove_not_generated_files_from_output_directory(has("remove"));
    for m in h[4..].iter().filter_map(|x| x.strip_prefix("map=")) {
        g = g.merge_type_map(m, &std::fs::read_to_string(m).unwrap());
    }
    if srcs.len() == 1 {
        g.expand("demo", &srcs[0], dst);
    } else {
        g.expand_many("demo", srcs, dst);
    }
}
