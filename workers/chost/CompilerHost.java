import java.io.*;
import java.lang.reflect.*;
import java.net.*;
import java.nio.charset.StandardCharsets;
import java.util.*;

/** Runs the schema compiler inside this process, each time as a fresh program (or, on request, as a library). */
public final class CompilerHost
{
    static final class Exit extends SecurityException
    {
        final int status;
        Exit(int s) { super("exit"); status = s; }
    }

    @SuppressWarnings("removal")
    static final class Guard extends SecurityManager
    {
        @Override public void checkExit(int s) { throw new Exit(s); }
        @Override public void checkPermission(java.security.Permission p) {}
        @Override public void checkPermission(java.security.Permission p, Object c) {}
    }

    static URL[] jars;
    static ClassLoader kept, reference;

    static ClassLoader loader() { return new URLClassLoader(jars, ClassLoader.getPlatformClassLoader()); }

    static int run(ClassLoader l, String[] args, boolean lib) throws Exception
    {
        Thread.currentThread().setContextClassLoader(l);
        Class<?> c = Class.forName("zserio.tools.ZserioTool", true, l);
        if (lib)
        {
            Class<?> e = Class.forName("zserio.tools.ZserioTool$Executor", true, l);
            Object ok = c.getMethod("runTool", String[].class, e).invoke(null, args, e.getField("ANT_TASK_MAIN").get(null));
            return (Boolean)ok ? 0 : 1;
        }
        try
        {
            c.getMethod("main", String[].class).invoke(null, (Object)args);
            return 0;
        }
        catch (InvocationTargetException x)
        {
            if (x.getCause() instanceof Exit)
                return ((Exit)x.getCause()).status;
            return 1;    // main died with an exception
        }
    }

    static String[] args(String hex) { return new String(HexFormat.of().parseHex(hex), StandardCharsets.UTF_8).split("\0"); }

    /** pair K|F directory args1 args2 ... : concurrent runs in threads which the simulated disk schedules */
    static void pair(String[] w, PrintStream out) throws Exception
    {
        final String dir = args(w[2])[0];
        final int n = w.length - 3;
        final int[] rc = new int[n];
        final Thread[] t = new Thread[n];
        final ByteArrayOutputStream cap = new ByteArrayOutputStream();
        final PrintStream ps = new PrintStream(cap, true, "UTF-8");
        final PrintStream so = System.out, se = System.err;
        System.setOut(ps);
        System.setErr(ps);
        final boolean lib = w[1].equals("K");
        if (lib && kept == null)
            kept = loader();
        for (int i = 0; i < n; ++i)
        {
            final int me = i;
            t[i] = new Thread(null, () -> {
                mark(dir + "/.zc_begin");
                try
                {
                    final ClassLoader l = lib ? kept : loader();
                    rc[me] = run(l, args(w[3 + me]), lib);
                    if (!lib)
                        ((URLClassLoader)l).close();
                }
                catch (Throwable x)
                {
                    x.printStackTrace(ps);
                    rc[me] = 70;
                }
                mark(dir + "/.zc_end");
            }, "zc" + i, 64 << 20);
            t[i].start();
        }
        for (Thread x : t)
            x.join();
        System.setOut(so);
        System.setErr(se);
        final StringBuilder r = new StringBuilder("OK ");
        for (int i = 0; i < n; ++i)
            r.append(i > 0 ? "," : "").append(rc[i]);
        final byte[] text = cap.toByteArray();
        out.println(r + " " + HexFormat.of().formatHex(text, Math.max(0, text.length - 20000), text.length));
    }

    static void mark(String f)
    {
        try { new FileInputStream(f).close(); } catch (IOException e) {}
    }

    @SuppressWarnings("removal")
    public static void main(String[] a) throws Exception
    {
        String[] cp = System.getProperty("chost.jars").split(":");
        jars = new URL[cp.length];
        for (int i = 0; i < cp.length; ++i)
            jars[i] = new File(cp[i]).toURI().toURL();
        System.setProperty("java.class.path", System.getProperty("chost.jars"));
        final PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), true, "US-ASCII");
        final BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.US_ASCII));
        URLConnection.setDefaultUseCaches("jar", false);    // class loaders come and go
        System.setSecurityManager(new Guard());
        out.println("OK ready");
        for (String s = in.readLine(); s != null; s = in.readLine())
        {
            final String[] w = s.split(" ");
            if (w[0].equals("reset"))
            {
                kept = null;
                out.println("OK");
                continue;
            }
            if (w[0].equals("pair"))
            {
                pair(w, out);
                continue;
            }
            // run F|K <hex of NUL separated arguments>
            final byte[] raw = HexFormat.of().parseHex(w[2]);
            final String[] args = new String(raw, StandardCharsets.UTF_8).split("\0");
            final ByteArrayOutputStream cap = new ByteArrayOutputStream();
            final PrintStream ps = new PrintStream(cap, true, "UTF-8");
            final PrintStream so = System.out, se = System.err;
            System.setOut(ps);
            System.setErr(ps);
            int rc;
            ClassLoader l;
            try
            {
                if (w[1].equals("K"))
                {
                    if (kept == null)
                        kept = loader();
                    l = kept;
                }
                else if (w[1].equals("R"))
                {
                    if (reference == null)
                        reference = loader();
                    l = reference;
                }
                else
                    l = loader();
                rc = run(l, args, w[1].equals("K"));
                if (l != kept && l != reference)
                    ((URLClassLoader)l).close();
            }
            catch (Throwable t)
            {
                t.printStackTrace(ps);
                rc = 70;
            }
            finally
            {
                System.setOut(so);
                System.setErr(se);
            }
            byte[] text = cap.toByteArray();
            out.println("OK " + rc + " " + HexFormat.of().formatHex(text, Math.max(0, text.length - 20000), text.length));
        }
    }
}
