package com.example;

import java.util.*;

/** Driver for SmartPtr.tla on classes @A@ (handles 1, 2) and @B@ (handle 3). */
public final class Sp@N@ implements Vf.Driver {
    static native String probes();
    @A@[] a = new @A@[3];
    @B@[] b = new @B@[3];
    int n = 0;

    static boolean isa(int i) {
        return i <= 2;
    }

    int get(int i) {
        return isa(i) ? a[i].get() : b[i - 2].get();
    }

    int set(int i, int v) {
        return isa(i) ? a[i].set(v) : b[i - 2].set(v);
    }

    void end(@A@ x) throws Throwable {
        if (x != null) {
            if (n % 3 != 0)
                x.delete();
            if (n % 3 != 1)
                x.finalize();
        }
    }

    void endb(@B@ x) throws Throwable {
        if (x != null) {
            if (n % 3 != 0)
                x.delete();
            if (n % 3 != 1)
                x.finalize();
        }
    }

    public String step(String[] c) throws Throwable {
        ++n;
        String op = c[0], how = c[4], err = "";
        int i = Vf.num(c[1]), j = Vf.num(c[2]), v = Vf.num(c[3]);
        int ret = -1;
        switch (op) {
        case "new":
            if (isa(i)) {
                @A@ x = new @A@(v);
                end(a[i]);
                a[i] = x;
            } else {
                @B@ x = new @B@(v);
                endb(b[i - 2]);
                b[i - 2] = x;
            }
            break;
        case "drop":
            if (isa(i)) {
                end(a[i]);
                a[i] = null;
            } else {
                endb(b[i - 2]);
                b[i - 2] = null;
            }
            break;
        case "copy":
            if (isa(i)) {
//A                @A@ x = @A@.share(a[j]);
//A                end(a[i]);
//A                a[i] = x;
            } else {
//B                @B@ x = @B@.share(b[j - 2]);
//B                endb(b[i - 2]);
//B                b[i - 2] = x;
            }
            break;
        case "get":
            if (how.equals("self"))
                ret = get(i);
            else
                ret = isa(i) ? @A@.arg_get(a[i]) : @B@.arg_get(b[i - 2]);
            break;
        case "set":
            if (how.equals("self"))
                ret = set(i, v);
            else if (how.equals("inline"))
                ret = isa(i) ? a[i].inl(v) : b[i - 2].inl(v);
            else
                ret = isa(i) ? @A@.arg_set(a[i], v) : @B@.arg_set(b[i - 2], v);
            break;
        case "two": {
            boolean self = how.equals("self");
            if (isa(i) && isa(j))
                ret = self ? a[i].two(a[j]) : @A@.arg_two(a[i], a[j]);
            else if (isa(i))
                ret = a[i].two_q(b[j - 2]);
            else if (isa(j))
                ret = @A@.twr_q(b[i - 2], a[j]);
            else
                ret = self ? b[i - 2].two(b[j - 2]) : @B@.arg_two(b[i - 2], b[j - 2]);
            break;
        }
        case "xfer":
            if (isa(i) && isa(j))
                ret = a[i].xfer(a[j]);
            else if (isa(i))
                ret = a[i].xfer_q(b[j - 2]);
            else if (isa(j))
                ret = @A@.xfr_q(b[i - 2], a[j]);
            else
                ret = b[i - 2].xfer(b[j - 2]);
            break;
        case "swap":
            if (isa(i) && isa(j))
                ret = @A@.swap(a[i], a[j]);
            else if (isa(i))
                ret = @A@.swap_q(a[i], b[j - 2]);
            else if (isa(j)) {
                int r = @A@.swap_q(a[j], b[i - 2]);
                ret = r % 10 * 10 + r / 10;
            } else
                ret = @B@.swap(b[i - 2], b[j - 2]);
            break;
        case "nestget":
        case "nestset": {
            NCb cb = new NCb() {
                public int run() {
                    return op.equals("nestget") ? get(j) : set(j, v);
                }
            };
            ret = isa(i) ? a[i].nest(cb) : b[i - 2].nest(cb);
            break;
        }
        case "dup":
            if (isa(j)) {
                @A@ t = a[j].dup();
                end(a[i]);
                a[i] = t;
            } else {
                @B@ t = b[j - 2].dup();
                endb(b[i - 2]);
                b[i - 2] = t;
            }
            break;
        case "keep": {
            if (how.equals("val"))
                @A@.keep(a[i]);
            else
                @A@.keep_opt(a[i]);
            boolean copy = @CA@ && how.equals("val");
            if ((a[i].mNativeObj != 0) != copy)
                err = "the wrapper passed by value " + (copy ? "lost its object" : "still has its object");
            if (!copy) {
                end(a[i]);
                a[i] = null;
            }
            break;
        }
        case "keepnone":
            @A@.keep_opt(null);
            break;
        case "kept":
            if (how.equals("val")) {
                @A@ t = @A@.kept();
                end(a[i]);
                a[i] = t;
            } else {
                Optional<@A@> t = @A@.kept_opt();
                end(a[i]);
                a[i] = t.orElse(null);
            }
            break;
        case "keptget":
            ret = @A@.kept_get();
            break;
        case "keptset":
            ret = @A@.kept_set(v);
            break;
        default:
            throw new IllegalArgumentException(op);
        }
        StringBuilder hs = new StringBuilder();
        for (int k = 1; k <= 4; ++k) {
            boolean has = isa(k) ? a[k] != null : b[k - 2] != null;
            hs.append(k > 1 ? "," : "").append(has ? "[" + (isa(k) ? a[k].id() : b[k - 2].id()) + "," + get(k) + "]" : "[0,-1]");
        }
        String kept = @A@.kept_has() ? "[" + @A@.kept_id() + "," + @A@.kept_get() + "]" : "[0,-1]";
        return "\"ret\":" + ret + ",\"h\":[" + hs + "],\"kept\":" + kept + ",\"probe\":[" + probes() + "],\"msg\":" + Vf.quote(err);
    }

    public void clean() throws Throwable {
        @A@.keep_opt(null);
        for (int k = 0; k < 3; ++k) {
            end(a[k]);
            endb(b[k]);
            a[k] = null;
            b[k] = null;
        }
        probes();
    }

    public void fresh() {
        n = 0;
    }

    public static void main(String[] args) throws Throwable {
        System.load(args[0]);
        Vf.loop(new Sp@N@());
    }
}
