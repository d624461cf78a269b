------------------------------- MODULE Values -------------------------------
(* Values of simple types crossing between Rust and a foreign language, as little-endian bytes. *)
(* Integers: a byte sequence stands for the mathematical value given by its two's complement     *)
(* (or unsigned) reading; a crossing keeps the mathematical value or is refused. Strings are       *)
(* sequences of code points, UTF-8 in Rust and C++, UTF-16 in Java, code points in Python.          *)
(* One state = one crossing of one value.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Lang,         \* "cpp", "java" or "python"
          Types,        \* set of type names
          Extra,        \* function: set of names -> set of additional byte sequences
          Strings       \* additional strings (sequences of code points)

VARIABLES t, dir, x
vars == <<t, dir, x>>

(* ---------------------------------------------------------------- integers *)
IntW == [u8 |-> 1, i8 |-> 1, u16 |-> 2, i16 |-> 2, u32 |-> 4, i32 |-> 4, u64 |-> 8, i64 |-> 8, usize |-> 8, isize |-> 8,
         c_char |-> 1, c_short |-> 2, c_ushort |-> 2, c_int |-> 4, c_uint |-> 4, c_long |-> 8]
IntS == [n \in DOMAIN IntW |-> n \in {"i8", "i16", "i32", "i64", "isize", "c_char", "c_short", "c_int", "c_long"}]
IsInt(n) == n \in DOMAIN IntW
(* width and signedness of the foreign type *)
JavaW == [u8 |-> 2, i8 |-> 1, u16 |-> 4, i16 |-> 2, u32 |-> 8, i32 |-> 4, u64 |-> 8, i64 |-> 8, usize |-> 8, isize |-> 8]
ForW(n) == CASE Lang = "cpp" -> IntW[n] [] Lang = "java" -> JavaW[n] [] Lang = "python" -> 10
ForS(n) == CASE Lang = "cpp" -> IntS[n] [] Lang # "cpp" -> TRUE

Refused == <<-1>>
M == 12      \* wide enough for every value
Ext(v, signed, w) == v \o [i \in 1..(w - Len(v)) |-> IF signed /\ v[Len(v)] >= 128 THEN 255 ELSE 0]
Fit(m, signed, w) == LET v == SubSeq(m, 1, w) IN IF Ext(v, signed, M) = m THEN v ELSE Refused
IntToF(n, v) == Fit(Ext(v, IntS[n], M), ForS(n), ForW(n))
IntToR(n, v) == Fit(Ext(v, ForS(n), M), IntS[n], IntW[n])

Fill(w, b) == [i \in 1..w |-> b]
Patterns(w) == IF w = 1 THEN {<<b>> : b \in 0..255}
               ELSE {Fill(w, b) : b \in {0, 255, 1, 128, 127, 85}}
                    \cup {[Fill(w, 0) EXCEPT ![i] = b] : i \in 1..w, b \in {1, 127, 128, 255}}
                    \cup {[Fill(w, 255) EXCEPT ![i] = b] : i \in 1..w, b \in {0, 127, 128, 254}}
                    \cup {[i \in 1..w |-> i], [i \in 1..w |-> 240 + i], [i \in 1..w |-> (16 * i) % 256]}
RustInts(n) == Patterns(IntW[n]) \cup Extra[n]
(* foreign values: all that stand for Rust values and others, near the limits too *)
ForInts(n) == Patterns(ForW(n)) \cup ({IntToF(n, v) : v \in RustInts(n)} \ {Refused})
              \cup (IF ForW(n) > IntW[n] THEN {Ext(<<0>>, FALSE, ForW(n)), [Ext(Fill(IntW[n], 0), FALSE, ForW(n)) EXCEPT ![IntW[n] + 1] = 1]} ELSE {})

(* ---------------------------------------------------------------- floats (sign, exponent, mantissa) *)
F32(s, e, m) == <<m % 256, (m \div 256) % 256, (m \div 65536) + (e % 2) * 128, s * 128 + (e \div 2)>>
F32s == {F32(s, e, m) : s \in {0, 1}, e \in {0, 1, 126, 127, 150, 254}, m \in {0, 1, 2, 8388607, 4194304, 1193046}}
        \cup {F32(s, 255, m) : s \in {0, 1}, m \in {0, 4194304, 4194305}} \cup Extra["f32"]
F64(s, e, lo, hi) == lo \o <<(hi % 16) + 16 * (e % 16), s * 128 + (e \div 16)>>
F64s == {F64(s, e, lo, hi) : s \in {0, 1}, e \in {0, 1, 1022, 1023, 1024, 2046}, lo \in {Fill(6, 0), Fill(6, 255), <<1, 2, 3, 4, 5, 6>>, <<1, 0, 0, 0, 0, 0>>}, hi \in {0, 8, 15}}
        \cup {F64(s, 2047, Fill(6, 0), hi) : s \in {0, 1}, hi \in {0, 8}} \cup Extra["f64"]
IsNaN32(v) == (v[4] % 128) = 127 /\ v[3] >= 128 /\ (v[1] # 0 \/ v[2] # 0 \/ v[3] # 128)
(* binary32 -> binary64, exact *)
F32toF64(v) ==
    LET s == v[4] \div 128
        e == (v[4] % 128) * 2 + v[3] \div 128
        m == v[1] + 256 * v[2] + 65536 * (v[3] % 128)
        Pack(e2, m2) == \* m2: 23 bits behind the point
            <<0, 0, 0, (m2 % 8) * 32, (m2 \div 8) % 256, (m2 \div 2048) % 256, (m2 \div 524288) + 16 * (e2 % 16), s * 128 + e2 \div 16>>
        RECURSIVE Norm(_, _)
        Norm(e2, m2) == IF m2 >= 8388608 THEN Pack(e2, m2 - 8388608) ELSE Norm(e2 - 1, m2 * 2)
    IN CASE e = 255 -> Pack(2047, m)
         [] e = 0 /\ m = 0 -> Pack(0, 0)
         [] e = 0 -> Norm(897, m)
         [] OTHER -> Pack(e + 896, m)

(* ---------------------------------------------------------------- strings *)
Concat(ss) == LET h[i \in 0..Len(ss)] == IF i = 0 THEN <<>> ELSE h[i - 1] \o ss[i] IN h[Len(ss)]
Utf8c(c) == CASE c < 128 -> <<c>>
              [] c < 2048 -> <<192 + c \div 64, 128 + (c % 64)>>
              [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
              [] OTHER -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(s) == Concat([i \in 1..Len(s) |-> Utf8c(s[i])])
Utf16c(c) == IF c < 65536 THEN <<c % 256, c \div 256>>
             ELSE LET u == c - 65536 h == 55296 + u \div 1024 l == 56320 + (u % 1024) IN <<h % 256, h \div 256, l % 256, l \div 256>>
Utf16(s) == Concat([i \in 1..Len(s) |-> Utf16c(s[i])])
Utf32(s) == Concat([i \in 1..Len(s) |-> <<s[i] % 256, (s[i] \div 256) % 256, s[i] \div 65536, 0>>])
RECURSIVE Un8(_)
Un8(b) == IF b = <<>> THEN <<>>
          ELSE LET n == CASE b[1] < 128 -> 1 [] b[1] < 224 -> 2 [] b[1] < 240 -> 3 [] OTHER -> 4
                   c == CASE n = 1 -> b[1]
                          [] n = 2 -> (b[1] - 192) * 64 + b[2] - 128
                          [] n = 3 -> (b[1] - 224) * 4096 + (b[2] - 128) * 64 + b[3] - 128
                          [] n = 4 -> (b[1] - 240) * 262144 + (b[2] - 128) * 4096 + (b[3] - 128) * 64 + b[4] - 128
               IN <<c>> \o Un8(SubSeq(b, n + 1, Len(b)))
Cps == {0, 97, 127, 128, 233, 2047, 2048, 55295, 57344, 65279, 65535, 65536, 128512, 1114111}
StrSet == {<<>>} \cup {<<c>> : c \in Cps} \cup {<<c, d>> : c \in Cps, d \in Cps} \cup Strings
(* text with unpaired surrogates (any surrogates in Python) stands for no string *)
Lone == CASE Lang = "java" -> {<<0, 216>>, <<255, 223>>, <<0, 220, 0, 216>>, <<97, 0, 255, 219>>, <<0, 216, 97, 0>>}
          [] Lang = "python" -> {<<0, 216, 0, 0>>, <<255, 223, 0, 0>>, <<97, 0, 0, 0, 0, 220, 0, 0>>, <<0, 216, 0, 0, 0, 220, 0, 0>>}
          [] OTHER -> {}
StrF(s) == CASE Lang = "cpp" -> Utf8(s) [] Lang = "java" -> Utf16(s) [] Lang = "python" -> Utf32(s)

(* ---------------------------------------------------------------- enums: by position of the variant;  *)
(* in Python a constant is the Rust discriminant, an integer                                              *)
EnumN == [En |-> 3, Ex |-> 4]
Disc == [En |-> <<<<0>>, <<1>>, <<2>>>>, Ex |-> <<<<7>>, <<1>>, <<112, 17, 1>>, <<0>>>>]
PyEnum(n, i) == Ext(Disc[n][i + 1], FALSE, 10)
NoEnum == {Ext(<<112>>, FALSE, 10), Ext(<<112, 17>>, FALSE, 10), Ext(<<112, 17, 1, 0, 1>>, FALSE, 10), Ext(<<112, 17, 1, 1>>, FALSE, 10), Ext(<<3>>, FALSE, 10), Ext(<<255>>, FALSE, 10), Fill(10, 255), Ext(<<0, 1>>, FALSE, 10), Ext(<<1, 0, 0, 0, 1>>, FALSE, 10), Ext(<<255, 255, 255, 255>>, FALSE, 10), Ext(<<200, 255, 255, 255, 255>>, TRUE, 10)}

(* ---------------------------------------------------------------- an error: its text and those of its causes *)
Joint == <<10, 67, 97, 117, 115, 101, 100, 32, 98, 121, 58, 10>>
Texts == {<<>>, <<97>>, <<233, 0, 37, 115>>, <<128512, 10>>}
ErrSet == {<<s>> : s \in Texts \cup Strings} \cup {<<s, u>> : s \in Texts, u \in Texts} \cup {<<s, u, <<98>>>> : s \in Texts, u \in Texts}
Join(l) == Concat([i \in 1..Len(l) |-> IF i = 1 THEN l[i] ELSE Joint \o l[i]])

(* ---------------------------------------------------------------- repr(C) struct of a u16, f64 and i8 *)
Structs == {a \o b \o c : a \in {<<0, 0>>, <<255, 255>>, <<1, 2>>, <<0, 128>>}, b \in {F64(0, 0, Fill(6, 0), 0), F64(1, 1023, <<1, 2, 3, 4, 5, 6>>, 7), F64(1, 2046, Fill(6, 255), 15)},
                            c \in {<<0>>, <<127>>, <<128>>, <<255>>}}

(* ---------------------------------------------------------------- crossings *)
RustVals(n) == CASE IsInt(n) -> RustInts(n)
                 [] n = "bool" -> {<<0>>, <<1>>}
                 [] n = "f32" -> F32s
                 [] n = "f64" -> F64s
                 [] n \in {"str", "string", "path"} -> {Utf8(s) : s \in StrSet}
                 [] n \in DOMAIN EnumN -> {<<i>> : i \in 0..(EnumN[n] - 1)}
                 [] n = "P2" -> Structs
                 [] n = "date" -> Patterns(8)       \* milliseconds since the epoch
                 [] n = "er" -> {[i \in 1..Len(l) |-> Utf8(l[i])] : l \in ErrSet}
ForVals(n) == CASE IsInt(n) -> ForInts(n)
                [] n \in {"str", "string", "path"} -> {StrF(s) : s \in StrSet} \cup Lone
                [] n \in {"date", "er"} -> {}
                [] n = "f32" /\ Lang = "python" -> {F32toF64(v) : v \in F32s}
                [] n \in DOMAIN EnumN /\ Lang = "python" -> {PyEnum(n, i) : i \in 0..(EnumN[n] - 1)} \cup (NoEnum \ {Ext(Disc[n][i], FALSE, 10) : i \in DOMAIN Disc[n]})
                [] OTHER -> RustVals(n)
ToF(n, v) == CASE IsInt(n) -> IntToF(n, v)
               [] n \in {"str", "string", "path"} -> StrF(Un8(v))
               [] n = "f32" /\ Lang = "python" -> F32toF64(v)
               [] n = "date" -> IF v[8] >= 128 THEN Refused ELSE v
               [] n \in DOMAIN EnumN /\ Lang = "python" -> PyEnum(n, v[1])
               [] n = "er" -> StrF(Join([i \in 1..Len(v) |-> Un8(v[i])]))
               [] OTHER -> v
ToR(n, v) == CASE IsInt(n) -> IntToR(n, v)
               [] n \in {"str", "string", "path"} -> IF v \in Lone THEN Refused ELSE LET s == CHOOSE s \in StrSet : StrF(s) = v IN Utf8(s)
               [] n = "f32" /\ Lang = "python" -> CHOOSE r \in F32s : F32toF64(r) = v
               [] n \in DOMAIN EnumN /\ Lang = "python" -> IF \E i \in 0..(EnumN[n] - 1) : PyEnum(n, i) = v THEN <<CHOOSE i \in 0..(EnumN[n] - 1) : PyEnum(n, i) = v>> ELSE Refused
               [] OTHER -> v
Arrives == IF dir = "out" THEN ToF(t, x) ELSE ToR(t, x)

Init == /\ t \in Types
        /\ dir \in {"in", "out"}
        /\ x \in (IF dir = "out" THEN RustVals(t) ELSE ForVals(t))
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

(* there and back gives the same value *)
RoundTrip == Arrives # Refused /\ t \notin {"date", "er"} => x = (IF dir = "out" THEN ToR(t, Arrives) ELSE ToF(t, Arrives))
(* nothing is refused where the foreign type is wide enough *)
Total == dir = "out" /\ IsInt(t) /\ ~(Lang = "java" /\ t \in {"u64", "usize"}) => Arrives # Refused
WellFormed == dir = "out" /\ t \in {"str", "string"} => Utf8(Un8(x)) = x
Emit == PrintT("D " \o ToJson([t |-> t, d |-> dir, x |-> x, y |-> Arrives]))
=============================================================================
