package com.example;

import java.util.*;

/** Driver for JavaOwn.tla on class @C@. */
public final class Own@C@ implements Vf.Driver {
    @C@ va, vb;
    @C@[] w = new @C@[16];
    int n = 0;

    @C@ get(String s) {
        return s.equals("A") ? va : vb;
    }

    void put(String s, @C@ x) {
        if (s.equals("A"))
            va = x;
        else
            vb = x;
    }

    /** The new wrapper of number k goes into variable s. */
    void got(String s, String k, @C@ x) {
        w[Vf.num(k)] = x;
        put(s, x);
    }

    String show(@C@ x) {
        if (x == null)
            return "null";
        if (x.mNativeObj == 0)
            return "[0,-1]";
        return "[" + x.id() + "," + x.get() + "]";
    }

    // op s t how v v2 w w2
    public String step(String[] c) throws Throwable {
        ++n;
        String op = c[0], s = c[1], t = c[2], how = c[3];
        int v = Vf.num(c[4]), v2 = Vf.num(c[5]);
        int ret = -1;
        String exc = "", err = "";
        try {
            switch (op) {
            case "new":
                got(s, c[6], new @C@(v));
                break;
            case "newfail":
                //fail put(s, new @C@(-1 - n));
                break;
            case "get":
                if (how.equals("self"))
                    ret = get(s).get();
                else if (how.equals("arg"))
                    ret = @C@.arg_get(77, get(s));
                //optref else ret = @C@.opt_get(get(s));
                break;
            case "getnone":
                //optref ret = @C@.opt_get(null);
                break;
            case "set":
                if (how.equals("self"))
                    get(s).set(v);
                else
                    @C@.arg_set(get(s), v);
                break;
            case "two":
                ret = @C@.two(get(s), get(t));
                break;
            case "consume":
                if (how.equals("val"))
                    ret = @C@.consume(get(s));
                else if (how.equals("opt"))
                    ret = @C@.consume_opt(get(s));
                else
                    ret = @C@.consume_err(get(s));
                break;
            case "consumenone":
                ret = @C@.consume_opt(null);
                break;
            case "consume2":
                ret = @C@.consume2(get(s), get(t));
                break;
            case "store":
                if (how.equals("val"))
                    @C@.store(get(s));
                else
                    @C@.store_opt(get(s));
                break;
            case "storenone":
                @C@.store_opt(null);
                break;
            case "take":
                if (how.equals("val"))
                    got(s, c[6], @C@.take());
                else if (how.equals("ok"))
                    got(s, c[6], @C@.take_res(true));
                else {
                    Optional<@C@> x = @C@.take_opt();
                    if (x.isPresent() != !c[6].equals("0"))
                        err = "Optional with the wrong case";
                    got(s, c[6], x.orElse(null));
                }
                break;
            case "takeerr":
                put(s, @C@.take_res(false));
                break;
            case "second":
                //dup got(s, c[6], @C@.second());
                break;
            case "pass":
                if (how.equals("val"))
                    got(t, c[6], @C@.pass(get(s)));
                else
                    got(t, c[6], @C@.pass_opt(get(s)).get());
                break;
            case "make2": {
                //vec @C@[] x = @C@.make2(v, v2);
                //vec if (x.length != 2) err = "array of length " + x.length;
                //vec got("A", c[6], x[0]);
                //vec got("B", c[7], x[1]);
                break;
            }
            case "cbarg": {
                final int[] calls = {0, 0};
                X@C@.cbarg(new Cb@C@() {
                    public void got(int k, @C@ x) {
                        ++calls[0];
                        calls[1] = k;
                        Own@C@.this.got(s, c[6], x);
                    }
                });
                if (calls[0] != 1 || calls[1] != 77)
                    err = "callback called " + calls[0] + " times, argument " + calls[1];
                break;
            }
            case "alias":
                va = vb;
                break;
            case "null":
                put(s, null);
                break;
            case "delete":
                get(s).delete();
                break;
            case "fin": {
                int k = Vf.num(c[6]);
                w[k].finalize();
                w[k] = null;
                break;
            }
            case "gc":
            case "slow":
                for (int k = 6; k < c.length; ++k)
                    w[Vf.num(c[k])] = null;
                if (op.equals("slow"))
                    ret = slow(how, v, v2);
                Vf.gc();
                break;
            default:
                throw new IllegalArgumentException(op);
            }
        } catch (Exception e) {
            exc = Vf.str(e);
        }
        return "\"ret\":" + ret + ",\"exc\":" + Vf.quote(exc) + ",\"msg\":" + Vf.quote(err) + ",\"A\":" + show(va) + ",\"B\":" + show(vb) + ",\"same\":" + (va == vb)
            + ",\"hold\":[" + @C@.hold_id() + "," + @C@.hold_val() + "]";
    }

    public void clean() throws Throwable {
        @C@.store_opt(null);
        va = null;
        vb = null;
        for (int k = 0; k < w.length; ++k) {
            if (w[k] != null)
                w[k].finalize();
            w[k] = null;
        }
    }

    public void fresh() {
        n = 0;
    }

    /** Calls whose objects are unreachable as early as the language allows; garbage is collected in the middle of each. */
    int slow(String how, int v, int v2) throws Exception {
        final int[] calls = {0};
        Slow cb = new Slow() {
            public int run() {
                try {
                    Vf.gc();
                } catch (InterruptedException e) {
                    throw new RuntimeException(e);
                }
                return ++calls[0];
            }
        };
        int r = how.equals("self") ? new @C@(v).slow_self(cb)
            : how.equals("self2") ? va.slow_self2(55, new @C@(v), cb)
            : how.equals("arg") ? @C@.slow_arg(new @C@(v), cb)
            : how.equals("mut") ? @C@.slow_mut(new @C@(v), cb)
            : how.equals("two") ? @C@.slow_two(new @C@(v), new @C@(v2), cb)
            //optref : how.equals("opt") ? @C@.slow_opt(new @C@(v), cb)
            : how.equals("ctor") ? new N@C@(new @C@(v), cb).get()
            : @C@.slow_new(new @C@(v), cb).get();
        return calls[0] == 1 ? r : -7;
    }

    public static void main(String[] args) throws Throwable {
        System.load(args[0]);
        Vf.loop(new Own@C@());
    }
}
