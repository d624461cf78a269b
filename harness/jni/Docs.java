import com.sun.source.tree.*;
import com.sun.source.util.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import javax.tools.*;

/** Prints, for every class in the given source files, its members in source order with their documentation comments. */
public class Docs {
    static String q(String s) {
        if (s == null) return "null";
        StringBuilder b = new StringBuilder("\"");
        for (char c : s.toCharArray()) {
            if (c == '"' || c == '\\') b.append('\\').append(c);
            else if (c < 32 || c > 126) b.append(String.format("\\u%04x", (int) c));
            else b.append(c);
        }
        return b.append('"').toString();
    }

    public static void main(String[] a) throws Exception {
        List<String> names = Files.readAllLines(Paths.get(a[0]));
        JavaCompiler jc = ToolProvider.getSystemJavaCompiler();
        DiagnosticCollector<JavaFileObject> dc = new DiagnosticCollector<>();
        StandardJavaFileManager fm = jc.getStandardFileManager(dc, null, StandardCharsets.UTF_8);
        JavacTask t = (JavacTask) jc.getTask(null, fm, dc, Arrays.asList("-proc:none"), null, fm.getJavaFileObjectsFromStrings(names));
        DocTrees dt = DocTrees.instance(t);
        for (CompilationUnitTree u : t.parse()) {
            for (Tree d : u.getTypeDecls()) {
                if (!(d instanceof ClassTree)) continue;
                ClassTree c = (ClassTree) d;
                TreePath p = new TreePath(new TreePath(u), c);
                StringBuilder b = new StringBuilder("@{\"name\":" + q(c.getSimpleName().toString()) + ",\"doc\":" + q(dt.getDocComment(p)) + ",\"ms\":[");
                boolean first = true;
                for (Tree m : c.getMembers()) {
                    String n = m instanceof MethodTree ? ((MethodTree) m).getName().toString() : m instanceof VariableTree ? ((VariableTree) m).getName().toString() : m.getKind().toString();
                    b.append(first ? "" : ",").append("[").append(q(n)).append(",").append(q(dt.getDocComment(new TreePath(p, m)))).append("]");
                    first = false;
                }
                System.out.println(b.append("]}"));
            }
        }
        for (Diagnostic<?> d : dc.getDiagnostics())
            if (d.getKind() == Diagnostic.Kind.ERROR) System.out.println("!" + d);
    }
}
