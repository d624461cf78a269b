package com.example;

import java.lang.ref.WeakReference;
import java.util.*;

/** Replays JavaCallback.tla. */
public final class Jcb implements Vf.Driver {
    static native void init();

    static final int MOD = @MOD@;
    static final List<String> ev = Collections.synchronizedList(new ArrayList<>());
    static int next = 1;
    static final Map<Integer, WeakReference<Object>> made = new TreeMap<>();
    static Thread main;
    static Cb var;
    static Runnable nested;
    static int nestedIn;

    static int thread() {
        Thread t = Thread.currentThread();
        return t == main ? 0 : t.getName().equals("vf-java") ? 3 : "vf-worker".equals(t.getName()) ? 2 : 1;
    }

    static abstract class Base {
        final int id;
        int cnt;
        int seq;

        Base() {
            synchronized (made) {
                id = next++;
                made.put(id, new WeakReference<>(this));
            }
        }

        void say(String m) {
            ev.add("call " + id + " " + m + " " + thread());
        }

        /** The k of the next call: Rust counts the calls of one loop. */
        void want(boolean ok, String what) {
            if (!ok)
                ev.add("wrong arguments: " + what);
        }
    }

    /** Two unrelated implementations: what is known about one class must not be used for the other. */
    static final class One extends Base implements Cb {
        public int onX(int k) {
            say("x");
            cnt = (cnt + 1) % MOD;
            throw new IllegalStateException("x");
        }

        public void onV(short k) {
            say("v");
            want(k >= 200 && k < 250, "v " + k);
            throw new StackOverflowError("v");
        }

        public void onE() {
            say("e");
        }

        public int onA(int a, long b) {
            say("a");
            want(b == -7_000_000_000L - (a - 100), "a " + a + " " + b);
            int r = 10 + cnt;
            if (nested != null && nestedIn == id) {
                Runnable n = nested;
                nested = null;
                n.run();
            }
            return r;
        }

        public long onF(Foo f, String s, int[] v, double d, boolean b, En e, int o) {
            say("f");
            Jcb.f(f, s, v, d, b, e, o);
            return 5_000_000_000L + 10 + cnt;
        }

        public int onM(int k) {
            say("m");
            cnt = (cnt + 1) % MOD;
            return 10 + cnt;
        }
    }

    static class Two extends Base {
        int helper(int k) {
            return 77;
        }

        public int onA(int a, int b) {
            ev.add("wrong overload");
            return 1;
        }
    }

    static final class Three extends Two implements Cb {
        public int onM(int k) {
            say("m");
            cnt = (cnt + 1) % MOD;
            return 10 + cnt;
        }

        public int onM(short k) {
            ev.add("wrong overload");
            return 2;
        }

        public long onF(Foo f, String s, int[] v, double d, boolean b, En e, int o) {
            say("f");
            Jcb.f(f, s, v, d, b, e, o);
            return 5_000_000_000L + 10 + cnt;
        }

        public int onA(int a, long b) {
            say("a");
            want(b == -7_000_000_000L - (a - 100), "a " + a + " " + b);
            int r = 10 + cnt;
            if (nested != null && nestedIn == id) {
                Runnable n = nested;
                nested = null;
                n.run();
            }
            return r;
        }

        public void onE() {
            say("e");
        }

        public void onV(short k) {
            say("v");
            want(k >= 200 && k < 250, "v " + k);
            sneak(new Exception("checked"));
        }

        public int onX(int k) {
            say("x");
            cnt = (cnt + 1) % MOD;
            int[] a = new int[0];
            return a[k];
        }
    }

    @SuppressWarnings("unchecked")
    static <T extends Throwable> void sneak(Throwable t) throws T {
        throw (T) t;
    }

    static void f(Foo f, String s, int[] v, double d, boolean b, En e, int o) {
        int k = f.get() - 1000;
        boolean ok = s.equals("s\u00e9\0\ud83d\ude00" + k) && v.length == k % 3 && d == k / 2.0 && b == (k % 2 == 1) && e.ordinal() == k % 3
            && o == 40000 + k;
        for (int x : v)
            ok = ok && x == k;
        if (!ok)
            ev.add("wrong arguments: f " + k + " " + s + " " + Arrays.toString(v) + " " + d + " " + b + " " + e + " " + o);
        f.delete();
    }

    static Cb make() {
        return next % 2 == 0 ? new One() : new Three();
    }

    interface Body {
        int run() throws Throwable;
    }

    static int on(int t, Body b) throws Throwable {
        if (t != 3)
            return b.run();
        int[] r = {0};
        Throwable[] ex = {null};
        Thread th = new Thread(() -> {
            try {
                r[0] = b.run();
            } catch (Throwable e) {
                ex[0] = e;
            }
        }, "vf-java");
        th.start();
        th.join();
        if (ex[0] != null)
            throw ex[0];
        return r[0];
    }

    static int id(int s) {
        return held[s];
    }

    static final int[] held = {0, 0};

    int exec(String[] c) throws Throwable {
        int s = c.length > 2 && c[2].length() == 1 && Character.isDigit(c[2].charAt(0)) ? Vf.num(c[2]) : 0;
        switch (c[0]) {
        case "make":
            var = make();
            return -3;
        case "unmake":
            var = null;
            return -3;
        case "set": {
            Cb x = make();
            Hub.set(s, x);
            held[s] = ((Base) x).id;
            return -3;
        }
        case "setvar":
            Hub.set(s, var);
            held[s] = ((Base) var).id;
            return -3;
        case "attach":
            Hub.attach(true);
            return -3;
        case "detach":
            Hub.attach(false);
            return -3;
        case "once":
            return Hub.once(make(), Vf.num(c[2]), c[3]);
        case "call": {
            int t = Vf.num(c[4]);
            return on(t, () -> Hub.call(s, c[3], 1, t));
        }
        case "twice": {
            int t = Vf.num(c[4]);
            return on(t, () -> Hub.twice(s, c[3], t));
        }
        case "swap": {
            Hub.swap();
            int x = held[0];
            held[0] = held[1];
            held[1] = x;
            return -3;
        }
        case "clear": {
            int t = Vf.num(c[3]);
            on(t, () -> {
                Hub.clear(s, t);
                return 0;
            });
            held[s] = 0;
            return -3;
        }
        case "par": {
            int n = Vf.num(c[3]);
            if (c[4].equals("1"))
                return Hub.par(c[2], n);
            int[] r = {0, 0};
            Thread[] th = new Thread[2];
            java.util.concurrent.CyclicBarrier bar = new java.util.concurrent.CyclicBarrier(2);
            for (int i = 0; i < 2; ++i) {
                int q = i;
                th[i] = new Thread(() -> {
                    try {
                        bar.await();
                        r[q] = Hub.call(q, c[2], n, 0);
                    } catch (Throwable e) {
                        ev.add("exception " + Vf.str(e));
                    }
                }, "vf-java");
            }
            for (Thread x : th)
                x.start();
            for (Thread x : th)
                x.join();
            return r[0] * 100 + r[1];
        }
        case "nest": {
            int t = Vf.num(c[4]);
            nestedIn = held[s];
            nested = () -> Hub.call(1 - s, c[3], 1, 0);
            return on(t, () -> Hub.call(s, "a", 1, t));
        }
        case "nestset": {
            int t = Vf.num(c[3]);
            nestedIn = held[s];
            nested = () -> {
                Cb x = make();
                held[1 - s] = ((Base) x).id;
                Hub.set(1 - s, x);
            };
            return on(t, () -> Hub.call(s, "a", 1, t));
        }
        case "nestclear": {
            int t = Vf.num(c[3]);
            nestedIn = held[s];
            nested = () -> {
                held[1 - s] = 0;
                Hub.clear(1 - s, 0);
            };
            return on(t, () -> Hub.call(s, "a", 1, t));
        }
        }
        throw new IllegalArgumentException(c[0]);
    }

    public String step(String[] c) throws Throwable {
        ev.clear();
        int before = next;
        String msg = "";
        int ret = -3;
        try {
            ret = exec(c);
        } catch (IllegalArgumentException e) {
            throw e;
        } catch (Throwable e) {
            msg = Vf.str(e);
        }
        if (nested != null)
            msg += " the method a did not run to its end";
        nested = null;
        if (c[1].equals("gc"))
            Vf.gc();
        StringBuilder al = new StringBuilder();
        for (Iterator<Map.Entry<Integer, WeakReference<Object>>> it = made.entrySet().iterator(); it.hasNext();) {
            Map.Entry<Integer, WeakReference<Object>> e = it.next();
            if (e.getValue().get() == null)
                it.remove();
            else
                al.append(al.length() == 0 ? "" : ",").append(e.getKey());
        }
        StringBuilder es = new StringBuilder();
        for (String x : ev)
            es.append(es.length() == 0 ? "" : ",").append(Vf.quote(x));
        return "\"ev\":[" + es + "],\"new\":" + (next == before ? 0 : before) + ",\"alive\":[" + al + "],\"ret\":" + ret + ",\"msg\":" + Vf.quote(msg);
    }

    public void clean() throws Throwable {
        for (int s = 0; s < 2; ++s)
            if (held[s] != 0) {
                Hub.clear(s, 0);
                held[s] = 0;
            }
        var = null;
        if (attached()) {
            Hub.attach(false);
        }
        Vf.gc();
        made.clear();
    }

    static boolean attached() {
        for (Thread t : Thread.getAllStackTraces().keySet())
            if (t.getName().equals("vf-worker"))
                return true;
        return false;
    }

    public void fresh() {
        next = 1;
    }

    public static void main(String[] args) throws Throwable {
        System.load(args[0]);
        main = Thread.currentThread();
        // descriptions of the exceptions thrown on purpose
        System.setErr(new java.io.PrintStream(java.io.OutputStream.nullOutputStream()));
        init();
        Vf.loop(new Jcb());
    }
}
