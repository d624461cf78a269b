package com.example;

/** Values as text: the notation shared with the model. Integers are written in the width of their Java type. */
public final class Val {
    static native void put(String s);

    static final class P {
        final String s;
        int i = 0;

        P(String s) {
            this.s = s;
        }

        char ch() {
            return s.charAt(i++);
        }

        int b() {
            return Character.digit(ch(), 16) * 16 + Character.digit(ch(), 16);
        }

        long num(int w) {
            long r = 0;
            for (int k = 0; k < w; ++k)
                r |= (long) b() << (8 * k);
            dot();
            return w == 8 ? r : (r << (64 - 8 * w)) >> (64 - 8 * w);
        }

        void dot() {
            if (ch() != '.')
                throw new IllegalArgumentException(s + " at " + i);
        }

        int count() {
            int n = 0;
            for (char c; (c = ch()) != ':';)
                n = n * 10 + (c - '0');
            return n;
        }
    }

    static void hex(long v, int w, StringBuilder o) {
        for (int k = 0; k < w; ++k) {
            o.append(Character.forDigit((int) (v >> (8 * k + 4)) & 15, 16));
            o.append(Character.forDigit((int) (v >> (8 * k)) & 15, 16));
        }
    }

    static void num(long v, int w, StringBuilder o) {
        hex(v, w, o);
        o.append('.');
    }

    static void bool(boolean x, StringBuilder o) {
        num(x ? 1 : 0, 1, o);
    }

    static void i8(byte x, StringBuilder o) {
        num(x, 1, o);
    }

    static void u8(short x, StringBuilder o) {
        num(x, 2, o);
    }

    static void i16(short x, StringBuilder o) {
        num(x, 2, o);
    }

    static void u16(int x, StringBuilder o) {
        num(x, 4, o);
    }

    static void i32(int x, StringBuilder o) {
        num(x, 4, o);
    }

    static void u32(long x, StringBuilder o) {
        num(x, 8, o);
    }

    static void i64(long x, StringBuilder o) {
        num(x, 8, o);
    }

    static void u64(long x, StringBuilder o) {
        num(x, 8, o);
    }

    static void usize(long x, StringBuilder o) {
        num(x, 8, o);
    }

    static void isize(long x, StringBuilder o) {
        num(x, 8, o);
    }

    static void f32(float x, StringBuilder o) {
        num(Float.floatToRawIntBits(x), 4, o);
    }

    static void f64(double x, StringBuilder o) {
        num(Double.doubleToRawLongBits(x), 8, o);
    }

    static void string(String x, StringBuilder o) {
        if (x == null) {
            o.append("null");
            return;
        }
        for (int i = 0; i < x.length(); ++i)
            hex(x.charAt(i), 2, o);
        o.append('.');
    }

    static void date(java.util.Date x, StringBuilder o) {
        num(x.getTime(), 8, o);
    }

    /** The payload of an OptionalInt which stands for a narrower type. */
    static void narrow(long x, int w, StringBuilder o) {
        if ((x << (64 - 8 * w)) >> (64 - 8 * w) != x)
            o.append("out of range ").append(x);
        num(x, w, o);
    }

    static void narrowf(double x, StringBuilder o) {
        if ((double) (float) x != x && !Double.isNaN(x))
            o.append("not a float ").append(x);
        f32((float) x, o);
    }

    static boolean d_bool(P p) {
        return p.num(1) != 0;
    }

    static byte d_i8(P p) {
        return (byte) p.num(1);
    }

    static short d_u8(P p) {
        return (short) p.num(2);
    }

    static short d_i16(P p) {
        return (short) p.num(2);
    }

    static int d_u16(P p) {
        return (int) p.num(4);
    }

    static int d_i32(P p) {
        return (int) p.num(4);
    }

    static long d_u32(P p) {
        return p.num(8);
    }

    static long d_i64(P p) {
        return p.num(8);
    }

    static long d_u64(P p) {
        return p.num(8);
    }

    static long d_usize(P p) {
        return p.num(8);
    }

    static float d_f32(P p) {
        return Float.intBitsToFloat((int) p.num(4));
    }

    static double d_f64(P p) {
        return Double.longBitsToDouble(p.num(8));
    }

    static String d_string(P p) {
        StringBuilder b = new StringBuilder();
        while (p.s.charAt(p.i) != '.') {
            int l = p.b();
            b.append((char) (l + 256 * p.b()));
        }
        p.dot();
        return b.toString();
    }

    static String exc(Throwable e) {
        StringBuilder o = new StringBuilder("E");
        if (e.getClass() != Exception.class)
            o.append(e.toString());
        string(e.getMessage(), o);
        return o.toString();
    }
}
