# sourced after kit.sh: Java demos. jbuild LIB.rs.in LIB.rs Main.java  -> $T/j (classes, libdemo.so); jrun ARGS..   ($GOPTS: options of the generator, $JSRC: more Java sources)
JB=${JAVA_HOME:-/usr/lib/jvm/java-17-openjdk-amd64}/bin
jbuild()
{
    mkdir -p "$T/o" "$T/classes"
    "$fg" java "$T/o" "$T/o/glue.rs" com.example $GOPTS -- "$1" || return 98
    { echo '#![allow(warnings)]
mod log {
    macro_rules! quiet { ($($t:tt)*) => { if false { let _ = format!($($t)*); } } }
    pub(crate) use quiet as debug; pub(crate) use quiet as trace; pub(crate) use quiet as info; pub(crate) use quiet as warn; pub(crate) use quiet as error;
}'; cat "$here/jni_h.rs" "$2" "$T/o/glue.rs"; } > "$T/lib.rs"
    RUSTUP_TOOLCHAIN=stable rustc --edition 2018 --crate-type cdylib -C opt-level=0 -o "$T/libdemo.so" "$T/lib.rs" || return 97
    "$JB/javac" -nowarn -d "$T/classes" "$T"/o/*.java "$3" $JSRC || return 96
}
jrun() { ( cd "$T" && timeout 120 "$JB/java" -XX:+UseSerialGC -cp "$T/classes" com.example.Main "$T/libdemo.so" "$@" ); }
