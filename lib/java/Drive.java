import com.qualcomm.qti.qms.api.mink.*;
import java.io.*;
import java.lang.reflect.*;
import java.util.*;

/** Runs generated proxies and skeletons on given values and prints what goes in and out of them; knows the values only through descriptions given to it. */
public class Drive {
    static final class Obj extends JMinkObject {
        final int id;
        Obj(int id) { this.id = id; }
        @Override public void invoke(int m, byte[][] bi, int[] bs, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) { throw new IllegalStateException(); }
    }
    static final Map<Integer, Obj> objs = new HashMap<>();
    static Obj obj(int id) { return id == 0 ? null : objs.computeIfAbsent(id, Obj::new); }
    static String id(Object o) { return o == null ? "0" : o instanceof Obj ? "" + ((Obj) o).id : "?" + o.getClass().getName(); }

    /** type description: a letter, or a list of fields */
    static final class Desc {
        char c;
        List<String> names = new ArrayList<>();
        List<Integer> counts = new ArrayList<>();
        List<Desc> kids = new ArrayList<>();
        int size() {
            if (c != '{') return "BCIJFD".indexOf(c) < 0 ? 0 : new int[] {1, 2, 4, 8, 4, 8}["BCIJFD".indexOf(c)];
            int s = 0;
            for (int k = 0; k < kids.size(); k++) s += counts.get(k) * kids.get(k).size();
            return s;
        }
    }
    static int at;
    static Desc desc(String s) { at = 0; return parse(s); }
    static Desc parse(String s) {
        Desc d = new Desc();
        d.c = s.charAt(at++);
        if (d.c == '{') {
            while (s.charAt(at) != '}') {
                int e = s.indexOf(':', at), f = s.indexOf(':', e + 1);
                d.names.add(s.substring(at, e));
                d.counts.add(Integer.parseInt(s.substring(e + 1, f)));
                at = f + 1;
                d.kids.add(parse(s));
                if (s.charAt(at) == ',') at++;
            }
            at++;
        }
        return d;
    }

    static long get(byte[] b, int o, int n) {
        long v = 0;
        for (int k = 0; k < n; k++) v |= (b[o + k] & 0xffL) << (8 * k);
        return v;
    }
    static Object decode(Desc d, Class<?> c, byte[] b, int o) throws Exception {
        switch (d.c) {
            case 'B': return (byte) get(b, o, 1);
            case 'C': { long v = get(b, o, 2); return c == short.class ? (Object) (short) v : (Object) (char) v; }
            case 'I': return (int) get(b, o, 4);
            case 'J': return get(b, o, 8);
            case 'F': return Float.intBitsToFloat((int) get(b, o, 4));
            case 'D': return Double.longBitsToDouble(get(b, o, 8));
        }
        Constructor<?> k = c.getDeclaredConstructor();
        k.setAccessible(true);
        Object s = k.newInstance();
        for (int i = 0; i < d.kids.size(); i++) {
            Desc e = d.kids.get(i);
            Field f = c.getDeclaredField(d.names.get(i));
            f.setAccessible(true);
            int n = d.counts.get(i);
            if (n == 1) f.set(s, decode(e, f.getType(), b, o));
            else {
                Object a = Array.newInstance(f.getType().getComponentType(), n);
                for (int j = 0; j < n; j++) Array.set(a, j, decode(e, f.getType().getComponentType(), b, o + j * e.size()));
                f.set(s, a);
            }
            o += n * e.size();
        }
        return s;
    }
    static void put(StringBuilder s, long v, int n) { for (int k = 0; k < n; k++) s.append(String.format("%02x", (v >> (8 * k)) & 0xff)); }
    static void encode(Desc d, Object v, StringBuilder s) throws Exception {
        if (v == null) { s.append("<null>"); return; }
        switch (d.c) {
            case 'B': put(s, (Byte) v, 1); return;
            case 'C': put(s, v instanceof Short ? (Short) v : (Character) v, 2); return;
            case 'I': put(s, (Integer) v, 4); return;
            case 'J': put(s, (Long) v, 8); return;
            case 'F': put(s, Float.floatToRawIntBits((Float) v), 4); return;
            case 'D': put(s, Double.doubleToRawLongBits((Double) v), 8); return;
        }
        for (int i = 0; i < d.kids.size(); i++) {
            Field f = v.getClass().getDeclaredField(d.names.get(i));
            f.setAccessible(true);
            if (d.counts.get(i) == 1) encode(d.kids.get(i), f.get(v), s);
            else {
                Object a = f.get(v);
                if (a == null) { s.append("<null>"); continue; }
                if (Array.getLength(a) != d.counts.get(i)) s.append("<length ").append(Array.getLength(a)).append('>');
                for (int j = 0; j < Array.getLength(a); j++) encode(d.kids.get(i), Array.get(a, j), s);
            }
        }
    }
    static byte[] hex(String s) {
        if (s.equals("-")) return new byte[0];
        byte[] b = new byte[s.length() / 2];
        for (int k = 0; k < b.length; k++) b[k] = (byte) Integer.parseInt(s.substring(2 * k, 2 * k + 2), 16);
        return b;
    }
    static String hex(byte[] b) {
        if (b == null) return "null";
        StringBuilder s = new StringBuilder();
        for (byte x : b) put(s, x, 1);
        return s.length() == 0 ? "-" : s.toString();
    }
    static String hexes(byte[][] b) {
        if (b == null) return "";
        StringBuilder s = new StringBuilder();
        for (byte[] x : b) s.append(' ').append(hex(x));
        return s.toString().trim();
    }
    static String ids(Object[] o) {
        if (o == null) return "";
        StringBuilder s = new StringBuilder();
        for (Object x : o) s.append(' ').append(id(x));
        return s.toString().trim();
    }
    static String nums(int[] o) {
        if (o == null) return "";
        StringBuilder s = new StringBuilder();
        for (int x : o) s.append(' ').append(x);
        return s.toString().trim();
    }

    static final class Par {
        boolean in, unwanted;
        String kind, data;
        Desc d;
        int cap;
    }
    static final class Test {
        String id, iface, method, mode;
        int op, err;
        List<Par> ps = new ArrayList<>();
        byte[][] bi, bo;
        int[] bs;
        IMinkObject[] oi, oo;
    }
    static PrintStream out;
    static void say(Test t, String k, String v) { out.println(t.id + "\t" + k + "\t" + v); }

    static Object array(Par p, Class<?> comp, String data) throws Exception {
        byte[] b = hex(data);
        int e = p.d.size(), n = b.length / e;
        Object a = Array.newInstance(comp, n);
        for (int k = 0; k < n; k++) Array.set(a, k, decode(p.d, comp, b, k * e));
        return a;
    }
    static String show(Par p, Object v) throws Exception {
        StringBuilder s = new StringBuilder();
        if (p.kind.equals("data")) encode(p.d, v, s);
        else if (p.kind.equals("obj")) s.append(id(v));
        else if (v == null) s.append("null");
        else if (p.kind.equals("oarr")) s.append(ids((Object[]) v));
        else {
            for (int k = 0; k < Array.getLength(v); k++) encode(p.d, Array.get(v, k), s);
            if (s.length() == 0) s.append('-');
        }
        return s.toString();
    }
    static IMinkObject[] list(String s) {
        String[] w = s.trim().isEmpty() ? new String[0] : s.trim().split("[ ,]+");
        IMinkObject[] o = new IMinkObject[w.length];
        for (int k = 0; k < w.length; k++) o[k] = obj(Integer.parseInt(w[k]));
        return o;
    }
    static int width(Par p) { return !p.in && !p.kind.equals("data") && !p.kind.equals("obj") ? 2 : 1; }

    static Method find(Class<?> c, String name, int n) {
        Method r = null;
        for (Method m : c.getMethods()) if (m.getName().equals(name) && m.getParameterCount() == n && !Modifier.isStatic(m.getModifiers())) r = m;
        return r;
    }
    static int arity(Test t) { int n = 0; for (Par p : t.ps) n += width(p); return n; }

    /** what the caller hands to the proxy */
    static Object[] arguments(Test t, Method m) throws Exception {
        Object[] a = new Object[m.getParameterCount()];
        Class<?>[] c = m.getParameterTypes();
        int k = 0;
        for (Par p : t.ps) {
            if (p.in) {
                switch (p.kind) {
                    case "data": a[k] = decode(p.d, c[k], hex(p.data), 0); break;
                    case "obj": a[k] = obj(Integer.parseInt(p.data)); break;
                    case "oarr": a[k] = list(p.data); break;
                    default: a[k] = array(p, c[k].getComponentType(), p.data);
                }
            } else {
                a[k] = p.unwanted ? null : Array.newInstance(c[k].getComponentType(), 1);
                if (width(p) == 2) a[k + 1] = p.cap;
            }
            k += width(p);
        }
        return a;
    }
    static void results(Test t, Object[] a) throws Exception {
        int k = 0, n = 0;
        for (Par p : t.ps) {
            if (!p.in && !p.unwanted) say(t, "out" + n, show(p, Array.get(a[k], 0)));
            k += width(p);
            n++;
        }
    }
    /** an implementation that reports what it receives and answers with the given values */
    static Object implementation(Test t, Class<?> c) {
        return java.lang.reflect.Proxy.newProxyInstance(c.getClassLoader(), new Class<?>[] {c}, (self, m, a) -> {
            if (m.getDeclaringClass() == Object.class) return m.getName().equals("hashCode") ? (Object) 1 : m.getName().equals("equals") ? (Object) (self == a[0]) : "impl";
            say(t, "entered", m.getName());
            if (!m.getName().equals(t.method)) return null;
            if (t.err != 0) throw new IMinkObject.InvokeException(t.err);
            int k = 0, n = 0;
            Class<?>[] ct = m.getParameterTypes();
            for (Par p : t.ps) {
                if (p.in) say(t, "in" + n, show(p, a[k]));
                else {
                    if (width(p) == 2) say(t, "cap" + n, "" + a[k + 1]);
                    Class<?> e = ct[k].getComponentType();
                    Object v;
                    switch (p.kind) {
                        case "data": v = decode(p.d, e, hex(p.data), 0); break;
                        case "obj": v = obj(Integer.parseInt(p.data)); break;
                        case "oarr": v = list(p.data); break;
                        default: v = array(p, e.getComponentType(), p.data);
                    }
                    Array.set(a[k], 0, v);
                }
                k += width(p);
                n++;
            }
            return null;
        });
    }
    static void wire(Test t, int op, byte[][] bi, int[] bs, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) {
        say(t, "op", "" + op);
        say(t, "bi", hexes(bi));
        say(t, "bs", nums(bs));
        say(t, "bo#", "" + (bo == null ? 0 : bo.length));
        say(t, "oi", ids(oi));
        say(t, "oo#", "" + (oo == null ? 0 : oo.length));
    }
    static byte[][] copy(byte[][] b) {
        if (b == null) return null;
        byte[][] r = new byte[b.length][];
        for (int k = 0; k < b.length; k++) r[k] = b[k] == null ? null : b[k].clone();
        return r;
    }

    static void run(Test t) throws Exception {
        String pk = "com.qualcomm.qti.mink." + t.iface;
        Class<?> c = Class.forName(pk), px = Class.forName(pk + "$Proxy"), sk = Class.forName(pk + "$MinkObject");
        IMinkObject target;
        if (t.mode.equals("skeleton")) {
            IMinkObject s = (IMinkObject) sk.getConstructor(c).newInstance(implementation(t, c));
            byte[][] bo = new byte[t.bs.length][];
            IMinkObject[] oo = new IMinkObject[t.oo.length];
            s.invoke(t.op, t.bi, t.bs, bo, t.oi, oo);
            say(t, "bo", hexes(bo));
            say(t, "oo", ids(oo));
            return;
        }
        if (t.mode.equals("proxy")) {
            target = new JMinkObject() {
                @Override public void invoke(int op, byte[][] bi, int[] bs, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) throws IMinkObject.InvokeException {
                    wire(t, op, bi, bs, bo, oi, oo);
                    if (t.err != 0) throw new IMinkObject.InvokeException(t.err);
                    for (int k = 0; bo != null && k < bo.length && k < t.bo.length; k++) bo[k] = t.bo[k];
                    for (int k = 0; oo != null && k < oo.length && k < t.oo.length; k++) oo[k] = t.oo[k];
                }
            };
        } else {
            IMinkObject s = (IMinkObject) sk.getConstructor(c).newInstance(implementation(t, c));
            target = new JMinkObject() {
                @Override public void invoke(int op, byte[][] bi, int[] bs, byte[][] bo, IMinkObject[] oi, IMinkObject[] oo) throws IMinkObject.InvokeException {
                    wire(t, op, bi, bs, bo, oi, oo);
                    byte[][] b = bo == null ? null : new byte[bo.length][];
                    IMinkObject[] o = oo == null ? null : new IMinkObject[oo.length];
                    s.invoke(op, copy(bi), bs == null ? null : bs.clone(), b, oi == null ? null : oi.clone(), o);
                    for (int k = 0; bo != null && k < bo.length; k++) bo[k] = b[k] == null ? null : b[k].clone();
                    for (int k = 0; oo != null && k < oo.length; k++) oo[k] = o[k];
                }
            };
        }
        Object p = px.getConstructor(IMinkObject.class).newInstance(target);
        Method m = find(c, t.method, arity(t));
        Object[] a = arguments(t, m);
        m.invoke(p, a);
        results(t, a);
    }

    public static void main(String[] args) throws Exception {
        out = new PrintStream(new BufferedOutputStream(new FileOutputStream(FileDescriptor.out), 1 << 16));
        Test t = null;
        for (String l : (Iterable<String>) new BufferedReader(new FileReader(args[0])).lines()::iterator) {
            String[] w = l.split("\t", -1);
            switch (w[0]) {
                case "T":
                    t = new Test();
                    t.id = w[1]; t.mode = w[2]; t.iface = w[3]; t.method = w[4]; t.op = Integer.parseInt(w[5]); t.err = Integer.parseInt(w[6]);
                    break;
                case "P": {
                    Par p = new Par();
                    p.in = w[1].equals("in"); p.unwanted = w[1].equals("unwanted"); p.kind = w[2];
                    p.d = w[3].isEmpty() ? null : desc(w[3]);
                    p.data = w[4]; p.cap = Integer.parseInt(w[5]);
                    t.ps.add(p);
                    break;
                }
                case "W": {
                    t.bi = split(w[1]); t.bo = split(w[3]);
                    String[] s = w[2].trim().isEmpty() ? new String[0] : w[2].trim().split(" ");
                    t.bs = new int[s.length];
                    for (int k = 0; k < s.length; k++) t.bs[k] = Integer.parseInt(s[k]);
                    t.oi = list(w[4]); t.oo = list(w[5]);
                    break;
                }
                case "G":
                    try {
                        run(t);
                        say(t, "end", "ok");
                    } catch (Throwable e) {
                        while (e instanceof InvocationTargetException && e.getCause() != null) e = e.getCause();
                        if (e instanceof IMinkObject.InvokeException) say(t, "end", "error " + ((IMinkObject.InvokeException) e).getErrorCode());
                        else say(t, "end", "exception " + e + (e.getStackTrace().length > 0 ? " at " + e.getStackTrace()[0] : ""));
                    }
            }
        }
        out.flush();
    }
    static byte[][] split(String s) {
        if (s.trim().isEmpty()) return new byte[0][];
        String[] w = s.trim().split(" ");
        byte[][] b = new byte[w.length][];
        for (int k = 0; k < w.length; k++) b[k] = hex(w[k]);
        return b;
    }
}
