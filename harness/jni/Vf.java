package com.example;

import java.io.*;
import java.util.*;

/** Shared by all Java drivers: reading commands, printing answers. */
public final class Vf {
    static native String report();
    static native long allocs();
    static native void reset();
    static native void warm();

    interface Driver {
        /** Executes one command, returns the JSON members of the answer. */
        String step(String[] c) throws Throwable;
        void clean() throws Throwable;
        void fresh() throws Throwable;
    }

    static String quote(String s) {
        StringBuilder b = new StringBuilder("\"");
        for (int i = 0; i < s.length(); ++i) {
            char c = s.charAt(i);
            if (c == '"' || c == '\\')
                b.append('\\').append(c);
            else if (c < 0x20 || c > 0x7e)
                b.append(String.format("\\u%04x", (int) c));
            else
                b.append(c);
        }
        return b.append('"').toString();
    }

    static int num(String s) {
        return Integer.parseInt(s);
    }

    private static Thread finalizer;
    private static java.lang.reflect.Method refsPending;

    /** Collects every unreachable object and waits until all of them have been finalised. */
    static void gc() throws InterruptedException {
        try {
            if (refsPending == null) {
                refsPending = java.lang.ref.Reference.class.getDeclaredMethod("waitForReferenceProcessing");
                refsPending.setAccessible(true);
                for (Thread t : Thread.getAllStackTraces().keySet())
                    if (t.getName().equals("Finalizer"))
                        finalizer = t;
            }
            System.gc();
            while ((Boolean) refsPending.invoke(null)) {
            }
            System.runFinalization();
            while (!idle())
                Thread.yield();
        } catch (ReflectiveOperationException e) {
            throw new IllegalStateException(e);
        }
    }

    private static boolean idle() {
        if (finalizer.getState() != Thread.State.WAITING)
            return false;
        for (StackTraceElement e : finalizer.getStackTrace())
            if (e.getClassName().equals("java.lang.ref.ReferenceQueue"))
                return true;
        return false;
    }

    static volatile long stepStart = 0;

    static void loop(Driver d) throws Throwable {
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, "UTF-8"));
        PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "UTF-8");
        Thread dog = new Thread(() -> {
            while (true) {
                try {
                    Thread.sleep(1000);
                } catch (InterruptedException e) {
                    return;
                }
                long s = stepStart;
                if (s != 0 && System.nanoTime() - s > 60_000_000_000L) {
                    new PrintStream(new FileOutputStream(FileDescriptor.err), true).println("panic: the step hangs");
                    Runtime.getRuntime().halt(102);
                }
            }
        });
        dog.setDaemon(true);
        dog.start();
        warm();
        boolean first = true;
        long base = 0;
        String line;
        while ((line = in.readLine()) != null) {
            String[] c = line.trim().split(" ");
            String o;
            stepStart = System.nanoTime();
            if (c[0].equals("reset")) {
                if (!first)
                    d.clean();
                long now = allocs();
                o = "\"allocs\":" + (first ? 0 : now - base) + "," + report();
                reset();
                d.fresh();
                base = allocs();
                first = false;
            } else {
                o = d.step(c);
                o = o + (o.isEmpty() ? "" : ",") + report();
            }
            stepStart = 0;
            out.print("@{" + o + "}\n");
            out.flush();
        }
        if (!first)
            d.clean();
        // no destructors, no shutdown work
        Runtime.getRuntime().halt(0);
    }

    static String str(Throwable e) {
        return e.getClass().getName() + ": " + e.getMessage();
    }
}
