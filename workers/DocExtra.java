import java.io.ByteArrayOutputStream;
import java.io.IOException;
import java.io.InputStream;
import java.io.InputStreamReader;
import java.io.Reader;
import java.io.StringReader;
import java.io.Writer;
import java.nio.charset.StandardCharsets;

import zserio.runtime.DebugStringUtil;
import zserio.runtime.io.SerializeUtil;
import zserio.runtime.json.JsonReader;
import zserio.runtime.typeinfo.TypeInfo;

/** Commands on files and JSON streams. */
final class DocExtra
{
    static void register()
    {
        for (String op : new String[] {"fsave", "fload", "jsave", "jload", "jwrite", "jread", "jmany"})
            Worker.extra.put(op, new Worker.Extra() {
                @Override
                public String command(String[] a) throws Exception
                {
                    return DocExtra.command(a);
                }
            });
    }

    static final class Cuts
    {
        final int[] n;
        final int fail;
        int i = 0, pos = 0;
        Cuts(String s, int fail)
        {
            final String[] p = s.split(",");
            n = new int[s.isEmpty() ? 0 : p.length];
            for (int k = 0; k < n.length; k++)
                n[k] = Integer.parseInt(p[k]);
            this.fail = fail;
        }
        int piece(int left, int limit) throws IOException
        {
            if (fail >= 0 && pos >= fail)
                throw new IOException("stream failure");
            if (left == 0)
                return -1;
            int k = Math.min(limit, Math.min(left, n.length == 0 ? left : Math.max(1, n[i++ % n.length])));
            if (fail >= 0)
                k = Math.min(k, fail - pos);
            pos += k;
            return k;
        }
    }

    static final class Text extends Reader
    {
        final String t;
        final Cuts c;
        Text(String t, Cuts c)
        {
            this.t = t;
            this.c = c;
        }
        @Override
        public int read(char[] b, int off, int len) throws IOException
        {
            final int at = c.pos;
            final int k = c.piece(t.length() - at, len);
            if (k > 0)
                t.getChars(at, at + k, b, off);
            return k;
        }
        @Override
        public void close()
        {}
    }

    static final class Raw extends InputStream
    {
        final byte[] d;
        final Cuts c;
        Raw(byte[] d, Cuts c)
        {
            this.d = d;
            this.c = c;
        }
        @Override
        public int read() throws IOException
        {
            final byte[] b = new byte[1];
            return read(b, 0, 1) < 0 ? -1 : b[0] & 255;
        }
        @Override
        public int read(byte[] b, int off, int len) throws IOException
        {
            final int at = c.pos;
            final int k = c.piece(d.length - at, len);
            if (k > 0)
                System.arraycopy(d, at, b, off, k);
            return k;
        }
    }

    static final class Sink extends Writer
    {
        final StringBuilder out = new StringBuilder();
        int room;
        Sink(int room)
        {
            this.room = room;
        }
        @Override
        public void write(char[] c, int off, int len) throws IOException
        {
            int n = 0;
            for (int i = off; i < off + len; i++)
                n += c[i] < 0x80 ? 1 : c[i] < 0x800 || Character.isSurrogate(c[i]) ? 2 : 3;
            if (room >= 0)
            {
                if (n > room)
                    throw new IOException("stream failure");
                room -= n;
            }
            out.append(c, off, len);
        }
        @Override
        public void flush()
        {}
        @Override
        public void close()
        {}
    }

    static String text(String h)
    {
        return new String(Worker.hex(h, 0), StandardCharsets.UTF_8);
    }

    static Reader source(String[] a, int p)
    {
        final Cuts c = new Cuts(a[p].equals("w") ? "" : a[p + 1], Integer.parseInt(a[p + 2]));
        if (a[p].equals("u"))
            return new InputStreamReader(new Raw(Worker.hex(a[p + 3], 0), c), StandardCharsets.UTF_8);
        return new Text(text(a[p + 3]), c);
    }

    static Object[] args(Worker.Type t, String[] a, int p) throws Exception
    {
        return Worker.params(t, new Worker.Tok(a, p), t.readCtor.getParameterTypes(), 1, null, null);
    }

    static String command(String[] a) throws Exception
    {
        final String op = a[0];
        if (op.equals("fsave"))
        {
            SerializeUtil.serializeToFile((zserio.runtime.io.Writer)Worker.ref(a[1]).o, text(a[3]));
            return "";
        }
        if (op.equals("fload"))
        {
            final Worker.Type t = Worker.types.get(a[2]);
            Worker.prepare(t);
            Worker.H.put(a[1], new Worker.Ref(SerializeUtil.deserializeFromFile(t.cls, text(a[3]), args(t, a, 4)), t));
            return "";
        }
        if (op.equals("jsave"))
        {
            DebugStringUtil.toJsonFile(Worker.ref(a[1]).o, text(a[4]), Integer.parseInt(a[3]));
            return "";
        }
        if (op.equals("jload"))
        {
            final Worker.Type t = Worker.types.get(a[2]);
            Worker.prepare(t);
            Worker.H.put(a[1], new Worker.Ref(DebugStringUtil.fromJsonFile(t.cls, text(a[3]), args(t, a, 4)), t));
            return "";
        }
        if (op.equals("jwrite"))
        {
            final Sink s = new Sink(Integer.parseInt(a[4]));
            DebugStringUtil.toJsonStream(Worker.ref(a[1]).o, s, Integer.parseInt(a[3]));
            return "good " + Worker.hexOf(s.out.toString().getBytes(StandardCharsets.UTF_8));
        }
        if (op.equals("jread"))
        {
            final Worker.Type t = Worker.types.get(a[2]);
            Worker.prepare(t);
            Worker.H.put(a[1], new Worker.Ref(DebugStringUtil.fromJsonStream(t.cls, source(a, 3), args(t, a, 7)), t));
            return "";
        }
        if (op.equals("jmany"))
        {
            final Worker.Type t = Worker.types.get(a[2]);
            Worker.prepare(t);
            final TypeInfo ti = (TypeInfo)t.cls.getMethod("typeInfo").invoke(null);
            final JsonReader r = new JsonReader(source(a, 3));
            final StringBuilder b = new StringBuilder();
            for (int i = 0; i < Integer.parseInt(a[1]); i++)
            {
                b.append(i > 0 ? " /" : "/");
                final StringBuilder o = new StringBuilder();
                Worker.dump(t, r.read(ti), o);
                b.append(o.toString().trim());
            }
            return b.toString();
        }
        throw new RuntimeException("harness: " + op);
    }
}
