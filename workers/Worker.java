import java.io.BufferedReader;
import java.io.ByteArrayOutputStream;
import java.io.IOException;
import java.io.InputStreamReader;
import java.io.PrintStream;
import java.lang.reflect.Array;
import java.lang.reflect.Constructor;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.math.BigInteger;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import zserio.runtime.ZserioError;
import zserio.runtime.io.BitBuffer;
import zserio.runtime.io.BitStreamReader;
import zserio.runtime.io.BitStreamWriter;
import zserio.runtime.io.ByteArrayBitStreamReader;
import zserio.runtime.io.ByteArrayBitStreamWriter;
import zserio.runtime.io.SerializeUtil;
import zserio.runtime.pubsub.PubsubCallback;
import zserio.runtime.pubsub.PubsubInterface;
import zserio.runtime.service.ServiceClientInterface;
import zserio.runtime.service.ServiceData;
import zserio.runtime.service.ServiceInterface;

/** Node hosting generated Java code; executes one command line at a time. */
public class Worker
{
    // ------------------------------------------------------------------ schema descriptor
    static final class Kind
    {
        char k; // i b f d s y x e m c
        String ref;

        Kind(String s)
        {
            k = s.charAt(0);
            ref = s.length() > 2 ? s.substring(2) : null;
        }
    }

    static final class Field
    {
        int idx;
        String name, cap;
        Kind kind;
        boolean array, opt, ext, hasDefault, cond;
        String[] args;
        Method getter, setter, reset, used, set, present;
    }

    static final class Type
    {
        String name, kind;
        Class<?> cls;
        List<Kind> params = new ArrayList<>();
        List<String> paramNames = new ArrayList<>();
        List<Field> fields = new ArrayList<>();
        Constructor<?> ctor, readCtor, fullCtor;
        Method[] paramGetters;
        Method choiceTag;
    }

    static final class Msg
    {
        String name, topic;
        Kind kind, resp;
    }

    static final class Group
    {
        String name;
        Class<?> cls;
        List<Msg> msgs = new ArrayList<>();
    }

    static final Map<String, Type> types = new HashMap<>();
    static final Map<String, Class<?>> enums = new HashMap<>();
    static final Map<String, Method> toEnum = new HashMap<>();
    static final Map<String, Constructor<?>> maskCtor = new HashMap<>();
    static final Map<String, Method> valueOf = new HashMap<>();
    static final Map<String, Group> groups = new HashMap<>();

    static String cap(String s)
    {
        return Character.toUpperCase(s.charAt(0)) + s.substring(1);
    }

    static Method find(Class<?> c, String name, int n)
    {
        for (Method m : c.getMethods())
            if (m.getName().equals(name) && m.getParameterCount() == n && !m.isBridge())
                return m;
        return null;
    }

    static void load(String path) throws Exception
    {
        Type t = null;
        Group g = null;
        for (String line : Files.readAllLines(Paths.get(path)))
        {
            final String[] a = line.split(" ");
            switch (a[0])
            {
            case "C":
                t = new Type();
                t.name = a[1];
                t.cls = Class.forName(a[2]);
                t.kind = a[3];
                types.put(t.name, t);
                break;
            case "P":
                t.params.add(new Kind(a[1]));
                t.paramNames.add(a[2]);
                break;
            case "F":
            {
                final Field f = new Field();
                f.idx = t.fields.size();
                f.name = a[1];
                f.cap = cap(a[1]);
                f.kind = new Kind(a[2]);
                f.array = a[3].equals("1");
                f.opt = a[4].equals("1");
                f.ext = a[5].equals("1");
                f.hasDefault = a[6].equals("1");
                f.cond = a[7].equals("1");
                f.args = new String[a.length - 8];
                System.arraycopy(a, 8, f.args, 0, f.args.length);
                t.fields.add(f);
                break;
            }
            case "U":
            {
                final Class<?> c = Class.forName(a[2]);
                enums.put(a[1], c);
                for (Method m : c.getMethods())
                    if (m.getName().equals("toEnum") && m.getParameterTypes()[0] != String.class)
                        toEnum.put(a[1], m);
                valueOf.put(a[1], c.getMethod("getValue"));
                break;
            }
            case "K":
            {
                final Class<?> c = Class.forName(a[2]);
                for (Constructor<?> m : c.getConstructors())
                    if (m.getParameterCount() == 1 &&
                            (m.getParameterTypes()[0].isPrimitive() ||
                                    m.getParameterTypes()[0] == BigInteger.class))
                        maskCtor.put(a[1], m);
                valueOf.put(a[1], c.getMethod("getValue"));
                break;
            }
            case "B":
            case "V":
                g = new Group();
                g.name = a[1];
                g.cls = a[0].equals("B") ? Class.forName(a[2]) : null;
                groups.put(a[1], g);
                break;
            case "M":
            {
                final Msg m = new Msg();
                m.name = a[1];
                m.topic = a[2];
                m.kind = new Kind(a[3]);
                g.msgs.add(m);
                break;
            }
            case "D":
            {
                final Msg m = new Msg();
                m.name = a[1];
                m.resp = new Kind(a[2]);
                m.kind = new Kind(a[3]);
                g.msgs.add(m);
                break;
            }
            default:
                extraLines.add(a);
                break;
            }
        }
    }

    static final List<String[]> extraLines = new ArrayList<>();

    static void prepare(Type t) throws Exception
    {
        if (t.paramGetters != null)
            return;
        final int np = t.params.size();
        t.paramGetters = new Method[np];
        for (int i = 0; i < np; i++)
            t.paramGetters[i] = find(t.cls, "get" + cap(t.paramNames.get(i)), 0);
        for (Constructor<?> c : t.cls.getConstructors())
        {
            final Class<?>[] p = c.getParameterTypes();
            if (p.length > 0 && p[0] == BitStreamReader.class)
            {
                if (p.length == np + 1)
                    t.readCtor = c;
            }
            else if (p.length > 1 && p[1] == BitStreamReader.class)
                continue;      // read constructor of packed elements
            else if (p.length == np && t.ctor == null)
                t.ctor = c;
            else if (p.length == np + t.fields.size() && t.fields.size() > 0)
                t.fullCtor = c;
        }
        t.choiceTag = find(t.cls, "choiceTag", 0);
        for (Field f : t.fields)
        {
            f.getter = find(t.cls, "get" + f.cap, 0);
            f.setter = find(t.cls, "set" + f.cap, 1);
            f.reset = find(t.cls, "reset" + f.cap, 0);
            f.used = find(t.cls, "is" + f.cap + "Used", 0);
            f.set = find(t.cls, "is" + f.cap + "Set", 0);
            f.present = find(t.cls, "is" + f.cap + "Present", 0);
            if (f.getter == null || f.setter == null)
                throw new Exception("no accessors for " + t.name + "." + f.name);
        }
    }

    // ------------------------------------------------------------------ tokens
    static final class Tok
    {
        final String[] a;
        int p;

        Tok(String[] a, int p)
        {
            this.a = a;
            this.p = p;
        }

        String next()
        {
            return a[p++];
        }

        boolean done()
        {
            return p >= a.length;
        }
    }

    static byte[] hex(String s, int from)
    {
        if (s.length() - from == 1 && s.charAt(from) == '-')
            return new byte[0];
        final byte[] r = new byte[(s.length() - from) / 2];
        for (int i = 0; i < r.length; i++)
            r[i] = (byte)Integer.parseInt(s.substring(from + 2 * i, from + 2 * i + 2), 16);
        return r;
    }

    static final char[] HEX = "0123456789abcdef".toCharArray();

    static void hex(StringBuilder b, byte[] v)
    {
        for (byte x : v)
            b.append(HEX[(x >> 4) & 15]).append(HEX[x & 15]);
    }

    static String hexOf(byte[] v)
    {
        if (v.length == 0)
            return "-";
        final StringBuilder b = new StringBuilder();
        hex(b, v);
        return b.toString();
    }

    static Object integer(String s, Class<?> c)
    {
        if (c == byte.class || c == Byte.class)
            return Byte.valueOf(s);
        if (c == short.class || c == Short.class)
            return Short.valueOf(s);
        if (c == int.class || c == Integer.class)
            return Integer.valueOf(s);
        if (c == long.class || c == Long.class)
            return Long.valueOf(s);
        return new BigInteger(s);
    }

    static Object parse(Kind k, Tok t, Class<?> c, char mode, Object owner, Field f) throws Exception
    {
        switch (k.k)
        {
        case 'i':
            return integer(t.next(), c);
        case 'b':
            return t.next().equals("1");
        case 'f':
            return Float.intBitsToFloat((int)Long.parseLong(t.next()));
        case 'd':
            return Double.longBitsToDouble(Long.parseUnsignedLong(t.next()));
        case 's':
            return new String(hex(t.next(), 1), StandardCharsets.UTF_8);
        case 'y':
            return hex(t.next(), 1);
        case 'x':
        {
            final String s = t.next();
            final int i = s.indexOf(':');
            final long n = Long.parseLong(s.substring(1, i));
            byte[] data = hex(s, i + 1);
            if (tail > 0) // what is behind the last bit does not belong to the value
            {
                ++tail;
                if (n % 8 != 0)
                    data[data.length - 1] |= (byte)(tail * 37 & (0xff >> n % 8));
                final int length = data.length;
                data = java.util.Arrays.copyOf(data, length + tail % 4);
                java.util.Arrays.fill(data, length, data.length, (byte)0xa5);
            }
            return new BitBuffer(data, n);
        }
        case 'e':
        {
            final Method m = toEnum.get(k.ref);
            return call(m, null, integer(t.next(), m.getParameterTypes()[0]));
        }
        case 'm':
        {
            final Constructor<?> m = maskCtor.get(k.ref);
            return create(m, integer(t.next(), m.getParameterTypes()[0]));
        }
        default:
            return build(types.get(k.ref), t, mode, owner, f);
        }
    }

    static void print(Kind k, Object v, StringBuilder o) throws Exception
    {
        o.append(' ');
        switch (k.k)
        {
        case 'i':
            o.append(v);
            break;
        case 'b':
            o.append((Boolean)v ? '1' : '0');
            break;
        case 'f':
            o.append(Integer.toUnsignedLong(Float.floatToIntBits((Float)v)));
            break;
        case 'd':
            o.append(Long.toUnsignedString(Double.doubleToLongBits((Double)v)));
            break;
        case 's':
            o.append('s');
            hex(o, ((String)v).getBytes(StandardCharsets.UTF_8));
            break;
        case 'y':
            o.append('b');
            hex(o, (byte[])v);
            break;
        case 'x':
            o.append('e').append(((BitBuffer)v).getBitSize()).append(':');
            hex(o, clean(((BitBuffer)v).getBuffer(), ((BitBuffer)v).getBitSize()));
            break;
        case 'e':
        case 'm':
            o.append(call(valueOf.get(k.ref), v));
            break;
        default:
            o.setLength(o.length() - 1);
            dump(types.get(k.ref), v, o);
            break;
        }
    }

    static Object call(Method m, Object o, Object... a) throws Exception
    {
        try
        {
            return m.invoke(o, a);
        }
        catch (InvocationTargetException e)
        {
            if (e.getCause() instanceof Exception)
                throw (Exception)e.getCause();
            throw (Error)e.getCause();
        }
    }

    static Object create(Constructor<?> m, Object... a) throws Exception
    {
        try
        {
            return m.newInstance(a);
        }
        catch (InvocationTargetException e)
        {
            if (e.getCause() instanceof Exception)
                throw (Exception)e.getCause();
            throw (Error)e.getCause();
        }
    }

    static Object[] params(Type t, Tok tok, Class<?>[] pt, int off, Object owner, Field f) throws Exception
    {
        final Object[] a = new Object[t.params.size()];
        for (int i = 0; i < a.length; i++)
        {
            if (t.params.get(i).k == 'c')
            {
                tok.next();
                final String field = f.args[i].substring(2);
                if (owner instanceof Map)
                    a[i] = ((Map<?, ?>)owner).get(field);
                else
                    a[i] = call(find(owner.getClass(), "get" + cap(field), 0), owner);
            }
            else
                a[i] = parse(t.params.get(i), tok, pt[i + off], 's', null, null);
        }
        return a;
    }

    static Object build(Type t, Tok tok, char mode, Object owner, Field of) throws Exception
    {
        prepare(t);
        final Object[] pa = params(t, tok, t.ctor.getParameterTypes(), 0, owner, of);
        if (t.kind.equals("struct"))
        {
            if (mode == 'c' && t.fullCtor != null)
            {
                final Map<String, Object> vals = new HashMap<>();
                final Object[] all = new Object[pa.length + t.fields.size()];
                System.arraycopy(pa, 0, all, 0, pa.length);
                boolean missing = false;
                for (Field f : t.fields)
                {
                    final Class<?> c = t.fullCtor.getParameterTypes()[pa.length + f.idx];
                    final Object v = fieldValue(f, tok, c, mode, vals);
                    if (v == MISSING)
                        missing = true;
                    else
                    {
                        all[pa.length + f.idx] = v;
                        vals.put(f.name, v);
                    }
                }
                return create(t.fullCtor, all);
            }
            final Object o = create(t.ctor, pa);
            for (Field f : t.fields)
            {
                final Object v = fieldValue(f, tok, f.setter.getParameterTypes()[0], mode, o);
                if (v == MISSING || (v == null && !f.hasDefault && !f.cond))
                    continue;
                call(f.setter, o, v);
            }
            return o;
        }
        final Object o = create(t.ctor, pa);
        final int tag = Integer.parseInt(tok.next());
        if (tag >= 0)
        {
            final Field f = t.fields.get(tag);
            call(f.setter, o, plainValue(f, tok, f.setter.getParameterTypes()[0], mode, o));
        }
        return o;
    }

    /** gives a used object (which stays the same object) a new value */
    static Object keep(Type t, Object used, Object fresh) throws Exception
    {
        if (used == null || !t.params.isEmpty())
            return fresh;
        if (t.kind.equals("struct"))
        {
            for (Field f : t.fields)
            {
                if (!f.ext || (Boolean)call(f.present, fresh))
                    call(f.setter, used, call(f.getter, fresh));
            }
        }
        else
        {
            final Field f = t.fields.get((Integer)call(t.choiceTag, fresh));
            call(f.setter, used, call(f.getter, fresh));
        }
        return used;
    }

    static final Map<String, Object> kept = new HashMap<>();
    static int tail = 0;

    static byte[] clean(byte[] data, long bits)
    {
        final byte[] r = java.util.Arrays.copyOf(data, (int)((bits + 7) / 8));
        if (bits % 8 != 0)
            r[r.length - 1] &= (byte)(0xff00 >> bits % 8);
        return r;
    }


    static final Object MISSING = new Object();

    static Object fieldValue(Field f, Tok tok, Class<?> c, char mode, Object owner) throws Exception
    {
        if (f.ext || f.opt)
        {
            final String s = tok.next();
            if (s.equals("!"))
                return MISSING;
            if (s.equals("."))
                return null;
        }
        return plainValue(f, tok, c, mode, owner);
    }

    static Object plainValue(Field f, Tok tok, Class<?> c, char mode, Object owner) throws Exception
    {
        if (!f.array)
            return parse(f.kind, tok, c, mode, owner, f);
        final int n = Integer.parseInt(tok.next().substring(1));
        final Class<?> e = c.getComponentType();
        final Object arr = Array.newInstance(e, n);
        for (int i = 0; i < n; i++)
            Array.set(arr, i, parse(f.kind, tok, e, mode, owner, f));
        return arr;
    }

    static void dump(Type t, Object o, StringBuilder out) throws Exception
    {
        prepare(t);
        for (int i = 0; i < t.params.size(); i++)
        {
            if (t.params.get(i).k == 'c')
                out.append(" @");
            else
                print(t.params.get(i), call(t.paramGetters[i], o), out);
        }
        if (t.kind.equals("struct"))
        {
            for (Field f : t.fields)
            {
                if (f.ext && !(Boolean)call(f.present, o))
                {
                    out.append(" !");
                    continue;
                }
                final Object v = call(f.getter, o);
                if (f.opt && v == null)
                {
                    out.append(" .");
                    continue;
                }
                if (f.ext || f.opt)
                    out.append(" +");
                dumpValue(f, v, out);
            }
            return;
        }
        final int tag = (Integer)call(t.choiceTag, o);
        out.append(' ').append(tag);
        if (tag >= 0)
        {
            final Field f = t.fields.get(tag);
            dumpValue(f, call(f.getter, o), out);
        }
    }

    static void dumpValue(Field f, Object v, StringBuilder out) throws Exception
    {
        if (!f.array)
        {
            print(f.kind, v, out);
            return;
        }
        final int n = Array.getLength(v);
        out.append(" #").append(n);
        for (int i = 0; i < n; i++)
            print(f.kind, Array.get(v, i), out);
    }

    // ------------------------------------------------------------------ commands
    static final class Ref
    {
        Object o;
        Type t;

        Ref(Object o, Type t)
        {
            this.o = o;
            this.t = t;
        }
    }

    static final Map<String, Object> H = new HashMap<>();
    static BufferedReader in;
    static PrintStream out;

    static Ref ref(String h)
    {
        return (Ref)H.get(h);
    }

    static class Fail extends RuntimeException
    {
        Fail(String m)
        {
            super(m);
        }
    }

    static String event(String line)
    {
        try
        {
            out.print("EV " + line + "\n");
            out.flush();
            while (true)
            {
                final String ln = in.readLine();
                if (ln == null)
                    Runtime.getRuntime().halt(0);
                if (ln.startsWith("RET"))
                {
                    final String r = ln.length() > 4 ? ln.substring(4) : "";
                    if (r.startsWith("fail"))
                        throw new Fail(r);
                    return r;
                }
                handle(ln);
            }
        }
        catch (java.io.IOException e)
        {
            throw new RuntimeException(e);
        }
    }

    static void handle(String line)
    {
        String r;
        try
        {
            final String v = command(line.split(" "));
            r = v.isEmpty() ? "OK" : "OK " + (v.charAt(0) == ' ' ? v.substring(1) : v);
        }
        catch (Throwable e)
        {
            if (System.getenv("ZSIM_TB") != null)
                e.printStackTrace();
            String n = e.getClass().getSimpleName();
            if (e instanceof ZserioError || e instanceof java.io.IOException)
                n += "/zserio";
            final String m = String.valueOf(e.getMessage()).replace('\n', ' ').replaceAll("[^\\x20-\\x7e]", "?");
            r = "ERR " + n + " " + m.substring(0, Math.min(200, m.length()));
        }
        out.print(r + "\n");
        out.flush();
    }

    static BitStreamReader reader(String how, String bits, String hexs) throws Exception
    {
        final ByteArrayBitStreamReader r = new ByteArrayBitStreamReader(hex(hexs, 0), Long.parseLong(bits));
        final int pos = how.length() > 1 ? Integer.parseInt(how.substring(1)) : 0;
        if (pos > 0)
            r.setBitPosition(pos);
        return r;
    }

    static String encode(Object o, String how) throws Exception
    {
        final zserio.runtime.io.Writer w = (zserio.runtime.io.Writer)o;
        if (how.equals("s"))
        {
            final BitBuffer b = SerializeUtil.serialize(w);
            return b.getBitSize() + " " + hexOf(b.getBuffer());
        }
        if (how.equals("b"))
        {
            final byte[] b = SerializeUtil.serializeToBytes(w);
            return b.length * 8L + " " + hexOf(b);
        }
        final int pos = how.length() > 1 ? Integer.parseInt(how.substring(1)) : 0;
        final ByteArrayBitStreamWriter bw = new ByteArrayBitStreamWriter();
        if (how.charAt(0) == 'f')
        {
            // a writer whose medium is full after some bits
            w.write((BitStreamWriter)java.lang.reflect.Proxy.newProxyInstance(Worker.class.getClassLoader(),
                    new Class<?>[] {BitStreamWriter.class}, (proxy, m, args) -> {
                        Object r;
                        try
                        {
                            r = m.invoke(bw, args);
                        }
                        catch (InvocationTargetException e)
                        {
                            throw e.getCause();
                        }
                        if (bw.getBitPosition() > pos)
                            throw new IOException("medium full");
                        return r;
                    }));
            return bw.getBitPosition() + " " + hexOf(bw.toByteArray());
        }
        for (int i = 0; i < pos; i++)
            bw.writeBool(false);
        if (how.charAt(0) == 'i')
            w.initializeOffsets(pos);
        w.write(bw);
        final long end = bw.getBitPosition();
        return end + " " + hexOf(bw.toByteArray());
    }

    static Object ctx(String s)
    {
        return s.equals("None") ? null : Integer.valueOf(s);
    }

    static String ctxOf(Object o)
    {
        return o == null ? "None" : o.toString();
    }

    static Object message(Kind k, String tok)
    {
        if (tok.charAt(0) == 'b')
            return hex(tok, 1);
        return ref(tok).o;
    }

    static String messageTokens(Kind k, Object m) throws Exception
    {
        final StringBuilder b = new StringBuilder();
        print(k, m, b);
        return b.length() == 0 ? "" : b.substring(1);
    }

    static final class Ps implements PubsubInterface
    {
        String name;
        Group g;
        Object ps;
        final Map<Integer, PubsubInterface.Callback> subs = new HashMap<>();

        @Override
        public void publish(String topic, byte[] data, Object context)
        {
            event("pub " + name + " " + topic + " " + hexOf(data) + " " + ctxOf(context));
        }

        @Override
        public int subscribe(String topic, PubsubInterface.Callback callback, Object context)
        {
            final int id = Integer.parseInt(event("sub " + name + " " + topic + " " + ctxOf(context)));
            subs.put(id, callback);
            return id;
        }

        @Override
        public void unsubscribe(int id)
        {
            event("unsub " + name + " " + id);
            subs.remove(id);
        }
    }

    static final class Cl implements ServiceClientInterface
    {
        String name;
        Group g;
        Object cl;

        @Override
        public byte[] callMethod(
                String method, ServiceData<? extends zserio.runtime.io.Writer> request, Object context)
        {
            byte[] data;
            try
            {
                data = request.getByteArray();
            }
            catch (RuntimeException e)
            {
                data = request.getByteArray(); // this transport tries once more
            }
            if (!Arrays.equals(data, request.getByteArray()))
                throw new IllegalStateException("request data changed");
            final String r = event("call " + name + " " + method + " " + hexOf(data) + " " +
                    ctxOf(context));
            return hex(r, 3);
        }
    }

    static final class Sv
    {
        ServiceInterface s;
        Group g;
    }

    /** called by the generated glue */
    public static Object impl(String name, String group, int idx, Object request, Object context)
    {
        try
        {
            final Msg m = groups.get(group).msgs.get(idx);
            final String r = event("impl " + name + " " + m.name + " " + ctxOf(context) + " | " +
                    messageTokens(m.kind, request));
            final String[] a = r.split(" ");
            if (m.resp.k == 'c')
            {
                final Type t = types.get(m.resp.ref);
                if (a[1].equals("k"))
                {
                    final Object o = keep(t, kept.get(name + t.name), build(t, new Tok(a, 2), 's', null, null));
                    kept.put(name + t.name, o);
                    return o;
                }
                return build(t, new Tok(a, 2), a[1].charAt(0), null, null);
            }
            return hex(a[2], 1);
        }
        catch (RuntimeException e)
        {
            throw e;
        }
        catch (Exception e)
        {
            throw new RuntimeException(e);
        }
    }

    public interface Extra
    {
        String command(String[] a) throws Exception;
    }

    static final Map<String, Extra> extra = new HashMap<>();

    static String command(String[] a) throws Exception
    {
        switch (a[0])
        {
        case "new":
        {
            final Type t = types.get(a[2]);
            final Tok tok = new Tok(a, 4);
            final char mode = a[3].charAt(0);
            Object o = build(t, tok, mode == 'e' || mode == 'k' ? 's' : mode, null, null);
            if (mode == 'k')
                o = keep(t, H.containsKey(a[1]) ? ref(a[1]).o : null, o);
            if (!tok.done())
                throw new Exception("trailing tokens");
            H.put(a[1], new Ref(o, t));
            return "";
        }
        case "dump":
        {
            final StringBuilder b = new StringBuilder();
            dump(ref(a[1]).t, ref(a[1]).o, b);
            return b.toString();
        }
        case "enc":
            return encode(ref(a[1]).o, a[2]);
        case "dec":
        {
            final Type t = types.get(a[2]);
            prepare(t);
            Object o;
            if (a[3].charAt(0) == 'R')
            {
                o = ref(a[1]).o;
                call(find(t.cls, "read", 1), o, reader(a[3], a[4], a[5]));
            }
            else
            {
                final Object[] pa = params(t, new Tok(a, 6), t.readCtor.getParameterTypes(), 1, null, null);
                if (a[3].equals("s"))
                    o = SerializeUtil.deserialize(t.cls, new BitBuffer(hex(a[5], 0), Long.parseLong(a[4])), pa);
                else if (a[3].equals("b"))
                    o = SerializeUtil.deserializeFromBytes(t.cls, hex(a[5], 0), pa);
                else
                {
                    final Object[] ca = new Object[pa.length + 1];
                    ca[0] = reader(a[3], a[4], a[5]);
                    System.arraycopy(pa, 0, ca, 1, pa.length);
                    o = create(t.readCtor, ca);
                }
            }
            H.put(a[1], new Ref(o, t));
            return "";
        }
        case "size":
            return String.valueOf(((zserio.runtime.SizeOf)ref(a[1]).o).bitSizeOf(Long.parseLong(a[2])));
        case "init":
            return String.valueOf(
                    ((zserio.runtime.io.Writer)ref(a[1]).o).initializeOffsets(Long.parseLong(a[2])));
        case "set":
        {
            final Ref r = ref(a[1]);
            prepare(r.t);
            final Field f = r.t.fields.get(Integer.parseInt(a[2]));
            call(f.setter, r.o, plainValue(f, new Tok(a, 4), f.setter.getParameterTypes()[0], a[3].charAt(0), r.o));
            return "";
        }
        case "nset":
        {
            final String[] path = a[2].split(",");
            Object o = ref(a[1]).o;
            Type t = ref(a[1]).t;
            for (int i = 0; true;)
            {
                prepare(t);
                final Field f = t.fields.get(Integer.parseInt(path[i++]));
                if (i == path.length)
                {
                    if (a[4].equals("."))
                        call(f.reset, o);
                    else
                        call(f.setter, o,
                                plainValue(f, new Tok(a, 4), f.setter.getParameterTypes()[0], a[3].charAt(0), o));
                    return "";
                }
                Object v = call(f.getter, o);
                if (f.array)
                {
                    final int k = Integer.parseInt(path[i++]);
                    if (i == path.length)
                    {
                        Array.set(v, k,
                                parse(f.kind, new Tok(a, 4), f.setter.getParameterTypes()[0].getComponentType(),
                                        a[3].charAt(0), o, f));
                        return "";
                    }
                    v = Array.get(v, k);
                }
                o = v;
                t = types.get(f.kind.ref);
            }
        }
        case "rst":
        {
            final Ref r = ref(a[1]);
            prepare(r.t);
            call(r.t.fields.get(Integer.parseInt(a[2])).reset, r.o);
            return "";
        }
        case "get":
        {
            final Ref r = ref(a[1]);
            prepare(r.t);
            final Field f = r.t.fields.get(Integer.parseInt(a[2]));
            final Object v = call(f.getter, r.o);
            if (v == null)
                return ".";
            final StringBuilder b = new StringBuilder("+");
            dumpValue(f, v, b);
            return b.toString();
        }
        case "flags":
        {
            final Ref r = ref(a[1]);
            prepare(r.t);
            final Field f = r.t.fields.get(Integer.parseInt(a[2]));
            final StringBuilder b = new StringBuilder();
            for (Method m : new Method[] {f.used, f.set, f.present})
                b.append(m == null ? " -" : ((Boolean)call(m, r.o) ? " 1" : " 0"));
            return b.toString();
        }
        case "sub":
        {
            final Ref r = ref(a[2]);
            prepare(r.t);
            final Field f = r.t.fields.get(Integer.parseInt(a[3]));
            Object v = call(f.getter, r.o);
            if (f.array)
                v = Array.get(v, Integer.parseInt(a[4]));
            H.put(a[1], new Ref(v, types.get(f.kind.ref)));
            return "";
        }
        case "eq":
            return ref(a[1]).o.equals(ref(a[2]).o) ? "1" : "0";
        case "hash":
            return String.valueOf(Integer.toUnsignedLong(ref(a[1]).o.hashCode()));
        case "fn":
        {
            final Object v = call(find(ref(a[1]).t.cls, "func" + cap(a[2]), 0), ref(a[1]).o);
            if (v instanceof Boolean)
                return (Boolean)v ? "1" : "0";
            if (v instanceof String)
                return "s" + hexOf(((String)v).getBytes(StandardCharsets.UTF_8)).replace("-", "");
            if (v instanceof Number)
                return v.toString();
            return call(v.getClass().getMethod("getValue"), v).toString();
        }
        case "del":
            H.remove(a[1]);
            return "";
        case "reset":
            H.clear();
            kept.clear();
            tail = 0;
            return "";
        case "dirty":
            tail = 1;
            return "";
        case "psnew":
        {
            final Ps p = new Ps();
            p.name = a[1];
            p.g = groups.get(a[2]);
            p.ps = create(p.g.cls.getConstructors()[0], p);
            H.put(a[1], p);
            return "";
        }
        case "pspub":
        {
            final Ps p = (Ps)H.get(a[1]);
            final Msg m = p.g.msgs.get(Integer.parseInt(a[2]));
            call(find(p.g.cls, "publish" + cap(m.name), 2), p.ps, message(m.kind, a[3]), ctx(a[4]));
            return "";
        }
        case "pssub":
        {
            final Ps p = (Ps)H.get(a[1]);
            final Msg m = p.g.msgs.get(Integer.parseInt(a[2]));
            final String cbid = a[3];
            final PubsubCallback<Object> cb = new PubsubCallback<Object>() {
                @Override
                public void invoke(String topic, Object message)
                {
                    try
                    {
                        event("cb " + cbid + " " + topic + " " + messageTokens(m.kind, message));
                    }
                    catch (RuntimeException e)
                    {
                        throw e;
                    }
                    catch (Exception e)
                    {
                        throw new RuntimeException(e);
                    }
                }
            };
            return call(find(p.g.cls, "subscribe" + cap(m.name), 2), p.ps, cb, ctx(a[4])).toString();
        }
        case "psunsub":
        {
            final Ps p = (Ps)H.get(a[1]);
            call(find(p.g.cls, "unsubscribe", 1), p.ps, Integer.valueOf(a[2]));
            return "";
        }
        case "psdel":
            ((Ps)H.get(a[1])).subs.get(Integer.valueOf(a[2])).invoke(a[3], hex(a[4], 0));
            return "";
        case "svnew":
        {
            final Sv s = new Sv();
            s.g = groups.get(a[2]);
            s.s = (ServiceInterface)create(
                    Class.forName("Glue_" + a[2]).getDeclaredConstructors()[0], a[1]);
            H.put(a[1], s);
            return "";
        }
        case "svcall":
            return hexOf(((Sv)H.get(a[1])).s.callMethod(a[2], hex(a[3], 0), ctx(a[4])).getByteArray());
        case "clnew":
        {
            final Cl c = new Cl();
            c.name = a[1];
            c.g = groups.get(a[2]);
            c.cl = Glue.client(a[2], c);
            H.put(a[1], c);
            return "";
        }
        case "clcall":
        {
            final Cl c = (Cl)H.get(a[1]);
            final Msg m = c.g.msgs.get(Integer.parseInt(a[2]));
            final Object r =
                    call(find(c.cl.getClass(), m.name + "Method", 2), c.cl, message(m.kind, a[3]), ctx(a[4]));
            return messageTokens(m.resp, r);
        }
        default:
            if (extra.containsKey(a[0]))
                return extra.get(a[0]).command(a);
            throw new Exception("unknown command " + a[0]);
        }
    }

    public static void main(String[] args) throws Exception
    {
        load(args[0]);
        in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.ISO_8859_1), 1 << 16);
        out = new PrintStream(new java.io.FileOutputStream(java.io.FileDescriptor.out), false, "ISO-8859-1");
        final PrintStream raw = out;
        out = new PrintStream(new java.io.BufferedOutputStream(raw, 1 << 16), false, "ISO-8859-1");
        System.setOut(System.err);
        Glue.init();
        out.print("OK ready\n");
        out.flush();
        while (true)
        {
            final String ln = in.readLine();
            if (ln == null)
                break;
            handle(ln);
        }
        Runtime.getRuntime().halt(0);
    }
}
