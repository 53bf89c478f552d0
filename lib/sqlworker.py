"""Commands on generated SQL databases (module of pyworker)."""
import apsw
import zs
from zs import Obj


def register(w):
    snake, S = w.snake, w.S
    dbs, readers = {}, {}

    class Db:
        pass

    def make(h, ty, db):
        d = Db()
        d.decl = S[ty]
        d.db, d.c = db, db.connection
        d.external = None
        d.tabs = [(t, getattr(db, snake(n))) for t, n in d.decl.tables]
        dbs[h] = d
        return d

    class Provider:
        def __init__(self, d):
            self._d = d

        def __getattr__(self, n):
            d = self._d

            def get(row):
                return int(w.event("prov %s %s %s" % (d.name, n, row[0])))
            return get

    def rel(a):
        return dict(x.split("=", 1) for x in a)

    def text(h):
        return "" if h == "-" else bytes.fromhex(h).decode()

    def rows_of(t, n, toks):
        u = zs.Untok(S, toks)
        out = []
        for _ in range(n):
            owner = Obj(t, [])
            vals = []
            for f in t.fields:
                if u.nx() == "+":
                    m = u.compound(f.ti.decl, []) if f.ti.is_compound() else zs.untok_scalar(f.ti, u.nx())
                    owner.f[f.name] = m
                    vals.append(w.to_py(f.ti, m, "s"))
                else:
                    owner.f[f.name] = None
                    vals.append(None)
            out.append(tuple(vals))
        return out

    def row_tokens(t, row):
        out = []
        for f, v in zip(t.fields, row):
            if v is None:
                out.append(".")
            else:
                o = []
                zs.tok_field(f, w.model(f.ti, v), o)
                out.append("+ " + " ".join(o))
        return " ".join(out)

    def read(a):
        d = dbs[a[0]]
        t, tab = d.tabs[int(a[1])]
        cols = None if a[2] == "*" else [] if a[2] == "-" else a[2].split(",")
        args = [Provider(t)] if any(x[0] == "explicit" for f in t.fields for x in f.ti.args) else []
        cond = text(a[3]) or None
        rows = tab.read(*(args + [cond])) if cols is None else tab.read_columns(*(args + [cols, cond]))
        return t, iter(rows)

    def command(a):
        op = a[0]
        if op == "qopen":
            db = w.cls(S[a[2]]).from_file(a[3], rel(a[4:]))
            d = make(a[1], a[2], db)
            d.c.set_busy_timeout(0)
            return ""
        if op == "qext":
            c = apsw.Connection(a[3])
            if a[4] != "-":
                n, f = a[4].split("=", 1)
                try:
                    c.cursor().execute("ATTACH DATABASE '%s' AS %s" % (f, n))
                except BaseException:
                    c.close()
                    raise
            d = make(a[1], a[2], w.cls(S[a[2]])(c, rel(a[5:])))
            d.external = c
            c.set_busy_timeout(0)
            return ""
        if op == "qreset":
            readers.clear()
            for d in dbs.values():
                try:
                    d.c.close(True)
                except Exception:  # noqa
                    pass
            dbs.clear()
            return ""
        if op == "qrd":
            readers[a[1]] = read(a[2:])
            return ""
        if op == "qnext":
            t, it = readers[a[1]]
            try:
                return row_tokens(t, next(it))
            except StopIteration:
                return "end"
        if op == "qrdel":
            readers.pop(a[1], None)
            return ""
        d = dbs[a[1]]
        if op == "qclose":
            dbs.pop(a[1])
            d.db.close()
            if d.external:
                d.external.close()
            return ""
        if op == "qtx":
            d.c.cursor().execute({"b": "BEGIN", "c": "COMMIT", "r": "ROLLBACK"}[a[2]])
            return ""
        if op == "qauto":
            return str(int(d.c.getautocommit()))
        if op == "qexec":
            for _ in d.c.cursor().execute(text(a[2])):
                pass
            return ""
        if op == "qint":
            n = int(a[2])
            left = [n]

            def progress():
                if left[0] > 0:
                    left[0] -= 1
                    return left[0] == 0
                return False
            d.c.set_progress_handler(progress if n else None, 1)
            return ""
        if op == "qschema":
            if a[2] == "create":
                d.db.create_schema()
            elif a[2] == "delete":
                d.db.delete_schema()
            else:
                d.db.create_schema([] if a[3] == "-" else a[3].split(","))
            return ""
        t, tab = d.tabs[int(a[2])]
        if op == "qtable":
            if a[3] == "delete":
                tab.delete_table()
            else:
                getattr(tab, "create_ordinary_rowid_table" if a[3] == "ordinary" and
                        hasattr(tab, "create_ordinary_rowid_table") else "create_table")()
            return ""
        cols = None if a[3] == "*" else [] if a[3] == "-" else a[3].split(",")
        if op == "qwrite":
            rows = rows_of(t, int(a[4]), a[5:])
            tab.write(rows) if cols is None else tab.write(rows, cols)
            return ""
        if op == "qwriteit":    # the rows come from an iterator which fails after some
            rows = rows_of(t, int(a[4]), a[6:])

            def feed():
                for i, r in enumerate(rows):
                    if i == int(a[5]):
                        raise w.Fail("row source failed")
                    yield r
            tab.write(feed()) if cols is None else tab.write(feed(), cols)
            return ""
        if op == "qread":
            t, it = read(a[1:])
            rows = list(it)
            return " ".join([str(len(rows))] + [row_tokens(t, r) for r in rows])
        if op == "qupd":
            r = rows_of(t, 1, a[5:])[0]
            tab.update(r, text(a[4])) if cols is None else tab.update_columns(r, cols, text(a[4]))
            return ""
        raise Exception("unknown command " + op)

    for op in ("qopen qext qreset qrd qnext qrdel qclose qtx qauto qexec qint qschema qtable qwrite qwriteit qread qupd").split():
        w.EXTRA[op] = command
