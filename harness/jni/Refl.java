import java.io.*;
import java.lang.reflect.*;
import java.util.*;

/** Prints the members of every class named on stdin, without initialising it. */
public class Refl {
    static String acc(int m) {
        return Modifier.isPublic(m) ? "public" : Modifier.isProtected(m) ? "protected" : Modifier.isPrivate(m) ? "private" : "package";
    }
    static String q(String s) {
        return "\"" + s.replace("\\", "\\\\").replace("\"", "\\\"") + "\"";
    }
    static String list(List<String> l) {
        return "[" + String.join(",", l) + "]";
    }
    static String types(Type[] t) {
        List<String> l = new ArrayList<>();
        for (Type x : t) l.add(q(x.getTypeName()));
        return list(l);
    }
    static String anns(java.lang.annotation.Annotation[] a) {
        List<String> l = new ArrayList<>();
        for (java.lang.annotation.Annotation x : a) l.add(x.annotationType().getSimpleName());
        Collections.sort(l);
        return String.join(" ", l);
    }
    static String pann(Executable e) {
        List<String> l = new ArrayList<>();
        for (java.lang.annotation.Annotation[] x : e.getParameterAnnotations()) l.add(q(anns(x)));
        return list(l);
    }
    static String desc(Method m) {
        return java.lang.invoke.MethodType.methodType(m.getReturnType(), m.getParameterTypes()).toMethodDescriptorString();
    }
    public static void main(String[] a) throws Exception {
        PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "UTF-8");
        BufferedReader in = new BufferedReader(new InputStreamReader(System.in, "UTF-8"));
        for (String n; (n = in.readLine()) != null; ) {
            Class<?> c = Class.forName(n, false, Refl.class.getClassLoader());
            List<String> cs = new ArrayList<>(), ms = new ArrayList<>(), fs = new ArrayList<>(), es = new ArrayList<>();
            for (Constructor<?> k : c.getDeclaredConstructors())
                if (!k.isSynthetic())
                    cs.add("{\"acc\":" + q(acc(k.getModifiers())) + ",\"args\":" + types(k.getGenericParameterTypes()) + ",\"nargs\":" + pann(k) + ",\"throws\":" + (k.getExceptionTypes().length > 0) + "}");
            for (Method m : c.getDeclaredMethods())
                if (!m.isSynthetic())
                    ms.add("{\"name\":" + q(m.getName()) + ",\"acc\":" + q(acc(m.getModifiers())) + ",\"static\":" + Modifier.isStatic(m.getModifiers()) + ",\"abstract\":" + Modifier.isAbstract(m.getModifiers())
                        + ",\"native\":" + Modifier.isNative(m.getModifiers()) + ",\"args\":" + types(m.getGenericParameterTypes()) + ",\"ret\":" + q(m.getGenericReturnType().getTypeName())
                        + ",\"nargs\":" + pann(m) + ",\"nret\":" + q(anns(m.getAnnotations()))
                        + ",\"throws\":" + (m.getExceptionTypes().length > 0) + ",\"desc\":" + q(desc(m)) + "}");
            for (Field f : c.getDeclaredFields()) {
                if (f.isSynthetic()) continue;
                if (f.isEnumConstant()) es.add(q(f.getName()));
                else fs.add("{\"name\":" + q(f.getName()) + ",\"acc\":" + q(acc(f.getModifiers())) + "}");
            }
            if (c.isEnum()) {
                es.clear();
                Class<?> z = Class.forName(n, true, Refl.class.getClassLoader());
                for (Object e : z.getEnumConstants()) es.add(q(((Enum<?>) e).name()));
            }
            out.println("@{\"name\":" + q(n) + ",\"acc\":" + q(acc(c.getModifiers())) + ",\"interface\":" + c.isInterface() + ",\"enum\":" + c.isEnum() + ",\"super\":" + q(c.getSuperclass() == null ? "" : c.getSuperclass().getName())
                + ",\"ctors\":" + list(cs) + ",\"methods\":" + list(ms) + ",\"fields\":" + list(fs) + ",\"constants\":" + list(es) + "}");
        }
        out.flush();
    }
}
