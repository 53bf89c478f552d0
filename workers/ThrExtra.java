import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.Semaphore;
import java.util.concurrent.TimeUnit;

import zserio.runtime.typeinfo.FieldInfo;
import zserio.runtime.typeinfo.ItemInfo;
import zserio.runtime.typeinfo.ParameterInfo;
import zserio.runtime.typeinfo.SchemaType;
import zserio.runtime.typeinfo.TypeInfo;

/** Rounds of several threads under a simulated schedule; woven code (see weave/Weaver.java) calls point(). */
public final class ThrExtra
{
    static void register()
    {
        for (String op : new String[] {"par", "tinfo", "jround"})
            Worker.extra.put(op, new Worker.Extra() {
                @Override
                public String command(String[] a) throws Exception
                {
                    return a[0].equals("par") ? par(a) : a[0].equals("jround") ? jround(a) : tinfo(a);
                }
            });
    }

    static final class Sim extends Thread
    {
        final int i;
        final Round r;
        final List<String[]> prog;
        final StringBuilder out = new StringBuilder();
        final Semaphore turn = new Semaphore(0);
        boolean inside = false;
        int init = 0; // class initialisers this thread is in

        Sim(int i, Round r, List<String[]> prog)
        {
            super(null, null, "sim" + i, 64 << 20);
            this.i = i;
            this.r = r;
            this.prog = prog;
            setDaemon(true);
        }

        @Override
        public void run()
        {
            turn.acquireUninterruptibly();
            for (String[] c : prog)
            {
                inside = true;
                String x;
                try
                {
                    x = Worker.command(c);
                }
                catch (Throwable e)
                {
                    x = "ERR " + e.getClass().getName() + " " +
                            String.valueOf(e.getMessage()).replaceAll("[^\\x20-\\x7e]", "?");
                }
                inside = false;
                out.append(x).append(" ; ");
            }
            r.finished(this);
        }
    }

    static final class Round
    {
        long[] at;
        int[] whom;
        int next = 0;
        boolean anywhere = false; // switch inside of class initialisers, too
        volatile long steps = 0;
        volatile int holder = 0;
        long switches = 0;
        Sim[] sims;
        volatile boolean[] alive, stalled;
        final CountDownLatch over = new CountDownLatch(1);

        int pick(int wish)
        {
            for (int k = 0; k < sims.length; k++)
            {
                final int t = (wish + k) % sims.length;
                if (alive[t] && !stalled[t])
                    return t;
            }
            return -1;
        }

        void point(Sim s)
        {
            if (holder != s.i)
            {
                // judged to be blocked meanwhile
                stalled[s.i] = false;
                s.turn.acquireUninterruptibly();
            }
            steps++;
            if (s.init > 0 && !anywhere)
                return;
            int to = -1;
            while (next < at.length && steps >= at[next])
                to = whom[next++] % sims.length;
            if (to < 0)
                return;
            to = pick(to);
            if (to >= 0 && to != s.i)
            {
                switches++;
                holder = to;
                sims[to].turn.release();
                s.turn.acquireUninterruptibly();
            }
        }

        void finished(Sim s)
        {
            alive[s.i] = false;
            boolean any = false;
            for (boolean b : alive)
                any |= b;
            if (!any)
                over.countDown();
            else if (holder == s.i)
            {
                final int to = pick(s.i + 1);
                if (to >= 0)
                {
                    holder = to;
                    sims[to].turn.release();
                }
            }
        }

        boolean run() throws InterruptedException
        {
            for (Sim s : sims)
                s.start();
            sims[0].turn.release();
            long last = -1, cpu = -1;
            int idle = 0, same = 0;
            final java.lang.management.ThreadMXBean bean = java.lang.management.ManagementFactory.getThreadMXBean();
            while (!over.await(15, TimeUnit.MILLISECONDS))
            {
                if (steps != last)
                {
                    last = steps;
                    idle = same = 0;
                    continue;
                }
                // a thread waiting for a monitor or for the initialisation of a class makes no steps and needs no time
                final long c = bean.getThreadCpuTime(sims[holder].getId());
                if (c != cpu)
                    same = 0;
                cpu = c;
                if (++same < (idle == 0 ? 4 : 60))
                    continue;
                same = 0;
                stalled[holder] = alive[holder];
                final int to = pick(holder + 1);
                if (to >= 0)
                {
                    holder = to;
                    sims[to].turn.release();
                }
                else if (++idle > 10)
                    return false;
            }
            return true;
        }
    }

    public static void point()
    {
        final Thread t = Thread.currentThread();
        if (t instanceof Sim && ((Sim)t).inside)
            ((Sim)t).r.point((Sim)t);
    }

    /** begin of a class initialiser */
    public static void enter()
    {
        final Thread t = Thread.currentThread();
        if (t instanceof Sim)
            ((Sim)t).init++;
    }

    public static void leave()
    {
        final Thread t = Thread.currentThread();
        if (t instanceof Sim)
            ((Sim)t).init--;
    }

    static String par(String[] a) throws Exception
    {
        final Round r = new Round();
        r.anywhere = a[1].startsWith("c");
        final String list = r.anywhere ? a[1].substring(1) : a[1];
        final String[] plan = list.equals("-") ? new String[0] : list.split(",");
        r.at = new long[plan.length];
        r.whom = new int[plan.length];
        for (int k = 0; k < plan.length; k++)
        {
            final String[] p = plan[k].split(":");
            r.at[k] = Long.parseLong(p[0]);
            r.whom[k] = Integer.parseInt(p[1]);
        }
        final List<List<String[]>> progs = new ArrayList<>();
        progs.add(new ArrayList<>());
        final List<String> cur = new ArrayList<>();
        for (int k = 2; k <= a.length; k++)
        {
            final String w = k < a.length ? a[k] : ";";
            if (!w.equals("|") && !w.equals(";"))
            {
                cur.add(w);
                continue;
            }
            progs.get(progs.size() - 1).add(cur.toArray(new String[0]));
            cur.clear();
            if (w.equals("|"))
                progs.add(new ArrayList<>());
        }
        final int n = progs.size();
        r.sims = new Sim[n];
        r.alive = new boolean[n];
        r.stalled = new boolean[n];
        Arrays.fill(r.alive, true);
        for (int k = 0; k < n; k++)
            r.sims[k] = new Sim(k, r, progs.get(k));
        final boolean done = r.run();
        final StringBuilder b = new StringBuilder();
        b.append(r.steps).append(' ').append(r.switches).append(done ? " done -" : " stuck -");
        if (done)
            for (Sim s : r.sims)
            {
                s.join();
                b.append(" | ").append(s.out);
            }
        return b.toString();
    }

    static void walk(TypeInfo i, int depth, StringBuilder b)
    {
        b.append(i.getSchemaName()).append(':').append(i.getSchemaType()).append(':').append(i.getJavaType());
        if (depth == 0)
            return;
        final SchemaType t = i.getSchemaType();
        if (t == SchemaType.STRUCT || t == SchemaType.CHOICE || t == SchemaType.UNION)
        {
            if (t == SchemaType.CHOICE)
                b.append('@').append(i.getSelector()).append(i.getCases().size());
            for (ParameterInfo p : i.getParameters())
            {
                b.append('(').append(p.getSchemaName()).append(' ');
                walk(p.getTypeInfo(), depth - 1, b);
                b.append(')');
            }
            for (FieldInfo f : i.getFields())
            {
                b.append(f.getSchemaName()).append(' ').append(f.getGetterName()).append(f.isArray() ? "[" : "")
                        .append(f.isOptional() ? "?" : "").append(f.isPacked() ? "p" : "").append(f.getTypeArguments().size())
                        .append(f.getConstraint() == null ? "" : "c").append(' ');
                walk(f.getTypeInfo(), depth - 1, b);
                b.append(';');
            }
        }
        else if (t == SchemaType.ENUM || t == SchemaType.BITMASK)
        {
            for (ItemInfo x : t == SchemaType.ENUM ? i.getEnumItems() : i.getBitmaskValues())
                b.append(',').append(x.getSchemaName()).append('=').append(x.getValue());
        }
    }

    /** H2 H Type: through JSON */
    static String jround(String[] a) throws Exception
    {
        final String text = Worker.command(new String[] {"jwrite", a[2], a[3], "0", "-1", "0"}).substring(5);
        Worker.command(new String[] {"jread", a[1], a[3], "w", "", "-1", text});
        return "";
    }

    static String tinfo(String[] a) throws Exception
    {
        final TypeInfo i = (TypeInfo)Worker.types.get(a[1]).cls.getMethod("typeInfo").invoke(null);
        final StringBuilder b = new StringBuilder();
        walk(i, Integer.parseInt(a[2]), b);
        return b.toString().replaceAll("[^\\x21-\\x7e]", "_");
    }

    private ThrExtra()
    {}
}
