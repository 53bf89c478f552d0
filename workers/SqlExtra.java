import java.lang.reflect.InvocationHandler;
import java.lang.reflect.InvocationTargetException;
import java.lang.reflect.Method;
import java.lang.reflect.Proxy;
import java.nio.charset.StandardCharsets;
import java.sql.Connection;
import java.sql.DriverManager;
import java.sql.ResultSet;
import java.sql.Statement;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.HashSet;
import java.util.List;
import java.util.Map;

/** Commands on generated SQL databases. */
final class SqlExtra
{
    static final class Col
    {
        String name, cap;
        Worker.Kind kind;
        Method get, set, isNull, setNull;
    }

    static final class Table
    {
        String name;
        Class<?> cls, row, provider;
        List<Col> cols = new ArrayList<>();
        Object pp;
    }

    static final class Base
    {
        String name;
        Class<?> cls;
        List<String> fields = new ArrayList<>();
        List<Table> tables = new ArrayList<>();
        Object pp;
    }

    static final class Db
    {
        Base base;
        Object db;
        Connection c;
        boolean external;
        List<Object> tabs = new ArrayList<>();
    }

    static final Map<String, Table> tables = new HashMap<>();
    static final Map<String, Base> bases = new HashMap<>();
    static final Map<String, Db> dbs = new HashMap<>();

    static void register() throws Exception
    {
        Table t = null;
        for (String[] a : Worker.extraLines)
        {
            if (a[0].equals("T"))
            {
                t = new Table();
                t.name = a[1];
                t.cls = Class.forName(a[2]);
                t.row = Class.forName(a[2] + "Row");
                if (a[3].equals("1"))
                {
                    t.provider = Class.forName(a[2] + "$ParameterProvider");
                    final String tn = t.name;
                    final Table tt = t;
                    t.pp = Proxy.newProxyInstance(t.provider.getClassLoader(), new Class<?>[] {t.provider},
                            new InvocationHandler() {
                                @Override
                                public Object invoke(Object o, Method m, Object[] args) throws Throwable
                                {
                                    String n = m.getName().substring(3);
                                    n = Character.toLowerCase(n.charAt(0)) + n.substring(1);
                                    String key = "-";
                                    try
                                    {
                                        key = ((ResultSet)args[0]).getString(tt.cols.get(0).name);
                                    }
                                    catch (java.sql.SQLException e)
                                    {
                                        key = "-";
                                    }
                                    final String r = Worker.event("prov " + tn + " " + n + " " + key);
                                    return Worker.integer(r, m.getReturnType());
                                }
                            });
                }
                tables.put(t.name, t);
            }
            else if (a[0].equals("L"))
            {
                final Col c = new Col();
                c.name = a[1];
                c.cap = Worker.cap(a[1]);
                c.kind = new Worker.Kind(a[2]);
                c.get = Worker.find(t.row, "get" + c.cap, 0);
                c.set = Worker.find(t.row, "set" + c.cap, 1);
                c.isNull = Worker.find(t.row, "isNull" + c.cap, 0);
                c.setNull = Worker.find(t.row, "setNull" + c.cap, 0);
                t.cols.add(c);
            }
            else if (a[0].equals("O"))
            {
                final Base b = new Base();
                b.name = a[1];
                b.cls = Class.forName(a[2]);
                for (int i = 3; i < a.length; i++)
                {
                    final String[] p = a[i].split(":");
                    b.fields.add(p[0]);
                    b.tables.add(tables.get(p[1]));
                }
                for (Class<?> in : b.cls.getDeclaredClasses())
                    if (in.isInterface())
                        b.pp = Proxy.newProxyInstance(
                                in.getClassLoader(), new Class<?>[] {in}, new InvocationHandler() {
                                    @Override
                                    public Object invoke(Object o, Method m, Object[] args) throws Throwable
                                    {
                                        for (int i = 0; i < b.fields.size(); i++)
                                            if (m.getName().equals(
                                                        "get" + Worker.cap(b.fields.get(i)) + "ParameterProvider"))
                                                return b.tables.get(i).pp;
                                        throw new RuntimeException("harness: provider " + m.getName());
                                    }
                                });
                bases.put(b.name, b);
            }
        }
        for (String op : new String[] {"qopen", "qext", "qreset", "qrd", "qnext", "qrdel", "qclose", "qtx", "qauto",
                     "qexec", "qint", "qschema", "qvalid", "qtable", "qwrite", "qread", "qupd"})
            Worker.extra.put(op, new Worker.Extra() {
                @Override
                public String command(String[] a) throws Exception
                {
                    return SqlExtra.command(a);
                }
            });
    }

    static void init(Db d, String h) throws Exception
    {
        d.c = (Connection)Worker.call(Worker.find(d.base.cls, "connection", 0), d.db);
        try (Statement s = d.c.createStatement())
        {
            s.execute("PRAGMA busy_timeout = 0");
        }
        for (String f : d.base.fields)
            d.tabs.add(Worker.call(Worker.find(d.base.cls, "get" + Worker.cap(f), 0), d.db));
        dbs.put(h, d);
    }

    static Map<String, String> relocation(String[] a, int p)
    {
        final Map<String, String> m = new HashMap<>();
        for (; p < a.length; p++)
            m.put(a[p].substring(0, a[p].indexOf('=')), a[p].substring(a[p].indexOf('=') + 1));
        return m;
    }

    static String text(String h)
    {
        return h.equals("-") ? "" : new String(Worker.hex(h, 0), StandardCharsets.UTF_8);
    }

    static Object row(Table t, Worker.Tok tok) throws Exception
    {
        final Object r = t.row.getDeclaredConstructor().newInstance();
        for (Col c : t.cols)
        {
            if (tok.next().equals("+"))
                Worker.call(c.set, r,
                        Worker.parse(c.kind, tok, c.set.getParameterTypes()[0], 's', null, null));
            else
                Worker.call(c.setNull, r);
        }
        return r;
    }

    static Method pick(Class<?> c, String name, Class<?>... pt) throws Exception
    {
        return c.getMethod(name, pt);
    }

    static void execute(Db d, String sql) throws Exception
    {
        try (Statement s = d.c.createStatement())
        {
            s.execute(sql);
        }
    }

    static String command(String[] a) throws Exception
    {
        final String op = a[0];
        if (op.equals("qopen"))
        {
            final Db d = new Db();
            d.base = bases.get(a[2]);
            d.db = Worker.create(d.base.cls.getConstructor(String.class, Map.class), a[3], relocation(a, 4));
            init(d, a[1]);
            return "";
        }
        if (op.equals("qext"))
        {
            final Connection c = DriverManager.getConnection("jdbc:sqlite:" + a[3]);
            if (!a[4].equals("-"))
                try (Statement s = c.createStatement())
                {
                    s.execute("ATTACH DATABASE '" + a[4].substring(a[4].indexOf('=') + 1) + "' AS " +
                            a[4].substring(0, a[4].indexOf('=')));
                }
                catch (java.sql.SQLException e)
                {
                    c.close();
                    throw e;
                }
            final Db d = new Db();
            d.base = bases.get(a[2]);
            d.external = true;
            d.db = Worker.create(d.base.cls.getConstructor(Connection.class, Map.class), c, relocation(a, 5));
            init(d, a[1]);
            return "";
        }
        if (op.equals("qreset"))
        {
            for (Db d : dbs.values())
                if (d.c != null)
                    try
                    {
                        d.c.close();
                    }
                    catch (Exception e)
                    {
                        // the next run opens its own
                    }
            dbs.clear();
            return "";
        }
        final Db d = dbs.get(a[1]);
        if (op.equals("qclose"))
        {
            dbs.remove(a[1]);
            Worker.call(Worker.find(d.base.cls, "close", 0), d.db);
            if (d.external)
            {
                if (d.c.isClosed())
                    throw new RuntimeException("external connection was closed");
                d.c.close();
            }
            return "";
        }
        if (op.equals("qtx"))
        {
            if (a[2].equals("b"))
                d.c.setAutoCommit(false);
            else
            {
                try
                {
                    if (a[2].equals("c"))
                        d.c.commit();
                    else
                        d.c.rollback();
                }
                finally
                {
                    if (!a[2].equals("c"))
                        d.c.setAutoCommit(true);
                }
                d.c.setAutoCommit(true);
            }
            return "";
        }
        if (op.equals("qauto"))
            return d.c.getAutoCommit() ? "1" : "0";
        if (op.equals("qexec"))
        {
            execute(d, text(a[2]));
            return "";
        }
        if (op.equals("qint"))
        {
            final int n = Integer.parseInt(a[2]);
            if (n == 0)
                org.sqlite.ProgressHandler.clearHandler(d.c);
            else
                org.sqlite.ProgressHandler.setHandler(d.c, 1, new org.sqlite.ProgressHandler() {
                    int left = n;

                    @Override
                    protected int progress()
                    {
                        return left > 0 && --left == 0 ? 1 : 0;
                    }
                });
            return "";
        }
        if (op.equals("qschema"))
        {
            if (a[2].equals("create"))
                Worker.call(pick(d.base.cls, "createSchema"), d.db);
            else if (a[2].equals("delete"))
                Worker.call(pick(d.base.cls, "deleteSchema"), d.db);
            else
            {
                final HashSet<String> s = new HashSet<>();
                if (!a[3].equals("-"))
                    for (String x : a[3].split(","))
                        s.add(x);
                Worker.call(pick(d.base.cls, "createSchema", java.util.Set.class), d.db, s);
            }
            return "";
        }
        if (op.equals("qvalid"))
        {
            Method v = null;
            for (Method m : d.base.cls.getMethods())
                if (m.getName().equals("validate"))
                    v = m;
            final zserio.runtime.validation.ValidationReport rep =
                    (zserio.runtime.validation.ValidationReport)(v.getParameterCount() == 0
                                    ? Worker.call(v, d.db)
                                    : Worker.call(v, d.db, d.base.pp));
            final StringBuilder b = new StringBuilder();
            b.append(rep.getNumberOfValidatedTables()).append(' ').append(rep.getNumberOfValidatedRows());
            for (zserio.runtime.validation.ValidationError e : rep.getErrors())
            {
                b.append(" | ").append(e.getTableName()).append(' ').append(e.getFieldName()).append(' ').append(
                        e.getType().name());
                if (e.getRowKeyValues() != null)
                    for (String k : e.getRowKeyValues())
                    {
                        b.append(" s");
                        if (k == null)
                            b.append("null");
                        else
                            Worker.hex(b, k.getBytes(StandardCharsets.UTF_8));
                    }
            }
            return b.toString();
        }
        final int ti = Integer.parseInt(a[2]);
        final Table t = d.base.tables.get(ti);
        final Object tab = d.tabs.get(ti);
        if (op.equals("qtable"))
        {
            if (a[3].equals("delete"))
                Worker.call(pick(t.cls, "deleteTable"), tab);
            else
            {
                Method m = a[3].equals("ordinary") ? Worker.find(t.cls, "createOrdinaryRowIdTable", 0) : null;
                Worker.call(m != null ? m : pick(t.cls, "createTable"), tab);
            }
            return "";
        }
        final String[] cols = a[3].equals("*") ? null : a[3].equals("-") ? new String[0] : a[3].split(",");
        if (op.equals("qwrite"))
        {
            final int n = Integer.parseInt(a[4]);
            final Worker.Tok tok = new Worker.Tok(a, 5);
            final List<Object> rows = new ArrayList<>();
            for (int i = 0; i < n; i++)
                rows.add(row(t, tok));
            if (cols == null)
                Worker.call(pick(t.cls, "write", List.class), tab, rows);
            else
                Worker.call(pick(t.cls, "write", List.class, String[].class), tab, rows, cols);
            return "";
        }
        if (op.equals("qread"))
        {
            final String cond = text(a[4]);
            final List<Object> args = new ArrayList<>();
            final List<Class<?>> pt = new ArrayList<>();
            if (t.provider != null)
            {
                args.add(t.pp);
                pt.add(t.provider);
            }
            if (cols != null)
            {
                args.add(cols);
                pt.add(String[].class);
            }
            if (!cond.isEmpty())
            {
                args.add(cond);
                pt.add(String.class);
            }
            final List<?> rows = (List<?>)Worker.call(
                    pick(t.cls, "read", pt.toArray(new Class<?>[0])), tab, args.toArray());
            final StringBuilder b = new StringBuilder();
            b.append(rows.size());
            for (Object r : rows)
                for (Col c : t.cols)
                {
                    if ((Boolean)Worker.call(c.isNull, r))
                        b.append(" .");
                    else
                    {
                        b.append(" +");
                        Worker.print(c.kind, Worker.call(c.get, r), b);
                    }
                }
            return b.toString();
        }
        if (op.equals("qupd"))
        {
            final Object r = row(t, new Worker.Tok(a, 5));
            if (cols == null)
                Worker.call(pick(t.cls, "update", t.row, String.class), tab, r, text(a[4]));
            else
                Worker.call(pick(t.cls, "update", t.row, String[].class, String.class), tab, r, cols, text(a[4]));
            return "";
        }
        throw new Exception("unknown command " + op);
    }

    private SqlExtra()
    {}
}
