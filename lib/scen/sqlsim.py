"""A cluster of nodes working on the same database files: model of the tables, fault injection, recovery."""
import os
import shutil
import sqlite3
import tempfile

import disk
import sqlglue
import zs
from sim import Scenario, Violation
from scen.common import hx, sql_world

LANGS = ("cpp", "java", "py")
RELOC = ("plainB", "noRow")
KEYS = {"Plain": ["id"], "Mixed": ["id"], "Params": ["id"], "NoRow": ["key", "seq"], "NoKey": [], "Words": [], "Loose": ["key"]}
UNIQUE = {"Plain": ["unit"], "Mixed": ["text"]}
TOGETHER = {"Params": [["id"], ["shapeKind", "n", "block", "seeded", "shape"], ["blob2"]]}
TEXTS = ["", "a", "b", "abc", "'quoted'", "semi;colon", "\u00e4\u00f6", "\u4e2d\u6587", "x" * 40, "%", "NULL", "0", "12", "1e5",
         "\U0001F600"]
DISK_FAULTS = ("eio", "enospc", "short", "eintr", "fsync", "meta", "open", "read", "close")
BUSY = ("BusyError", "SQLITE_BUSY", "database is locked", "database table is locked", "LockedError", "SQLITE_LOCKED",
        "database schema is locked")


def seed_param(i):
    return i * 7 % 1000 + 1


LOOSE_LEN = 3


def len_param(i):
    return i % 4


PARAM = {"seed": seed_param, "len": len_param}


def scratch(pool):
    """directory of the simulated disk, one per worker pool"""
    d = getattr(pool, "sqldir", None)
    if d is None:
        d = tempfile.mkdtemp(prefix="zsim_sql_", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        pool.sqldir = d
        pool.sqldisks = {}
        real = pool.close

        def close():
            real()
            shutil.rmtree(d, ignore_errors=True)
            for k in pool.sqldisks.values():
                k.close()
            pool.sqldisks = {}
            pool.sqldir = None
            pool.close = real
        pool.close = close
    return d


class Failed(Exception):
    pass


class Model:
    """rows: list of {column: token text or None}; a table which does not exist is None"""

    def __init__(self, tables):
        self.t = {n: None for n in tables}

    def copy(self):
        m = Model([])
        m.t = dict(self.t)      # the lists of rows are never changed in place
        return m

    def __eq__(self, o):
        return self.t == o.t


class SqlScenario(Scenario):
    SESSION = 40

    @classmethod
    def prepare(cls):
        sql_world().build_all(LANGS)
        disk.shim()

    def __init__(self, pool, stats):
        Scenario.__init__(self, pool, stats)
        self.world = sql_world()
        self.schema = self.world.schema
        self.dbdecl = self.schema["SqlDb"]
        self.tables = [n for _, n in self.dbdecl.tables]
        self.decl = {n: t for t, n in self.dbdecl.tables}
        self.codec = zs.Codec(self.schema)

    # ------------------------------------------------------------------ nodes and disks
    def start(self, cfg):
        self.cfg = cfg
        self.dir = scratch(self.pool)
        for f in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, f))
        self.n = len(cfg["nodes"])
        self.open_ = [False] * self.n
        self.tx = [None] * self.n          # tables changed inside a caller's transaction
        self.intx = [False] * self.n
        self.must_rollback = [False] * self.n
        self.readers = {}                  # node -> dict
        self.model = Model(self.tables)
        self.broken = False
        for i in range(self.n):
            self.disk(i).disarm()

    def key(self, i):
        return (self.cfg["nodes"][i], sum(1 for x in self.cfg["nodes"][:i] if x == self.cfg["nodes"][i]))

    def disk(self, i):
        k = self.key(i)
        d = self.pool.sqldisks.get(k)
        if d is None:
            d = self.pool.sqldisks[k] = disk.Disk(self.dir)
            d.disarm()
        return d

    def node(self, i):
        lang, slot = self.key(i)
        k = (self.world.name, lang, slot)
        fresh = k not in self.pool.nodes or self.pool.nodes[k].dead
        n = self.pool.get(self.world, lang, slot, env=self.disk(i).env(), cwd=self.dir)
        if fresh:
            self.open_[i] = False
        return n

    def cleanup(self):
        for i in range(self.n):
            self.disk(i).disarm()
            lang, slot = self.key(i)
            n = self.pool.nodes.get((self.world.name, lang, slot))
            if n is not None and not n.dead:
                n.ok("qreset")

    def open(self, i, fail_ok=False):
        """-> error text or None"""
        ext = self.cfg.get("ext")
        if not self.cfg["reloc"]:
            line = "qext D%d SqlDb main.db -" % i if ext else "qopen D%d SqlDb main.db" % i
        elif ext:
            line = "qext D%d SqlDb main.db second=second.db " % i + " ".join("%s=second" % t for t in RELOC)
        else:
            line = "qopen D%d SqlDb main.db " % i + " ".join("%s=second.db" % t for t in RELOC)
        ok, r = self.node(i).cmd(line)
        if ok:
            self.open_[i] = True
            return None
        return r

    def ensure(self, i):
        if not self.open_[i]:
            n = self.node(i)
            r = self.open(i)
            if r is not None:
                raise Violation("progress", "open", "%s node cannot open the database: %s" % (n.lang, r))

    def lang(self, i):
        return self.cfg["nodes"][i]

    def forget(self, i):
        """the node lost its connection"""
        self.open_[i] = False
        self.intx[i] = False
        self.tx[i] = None
        self.must_rollback[i] = False
        self.readers.pop(i, None)

    def view(self, i):
        """what node i sees: the committed tables, over them those written in its own transaction (other tables may change
        meanwhile only when they are in another file)"""
        if not self.tx[i]:
            return self.model
        m = Model([])
        m.t = dict(self.model.t, **self.tx[i])
        return m

    def blocked(self, i):
        """may another connection hold a lock"""
        return any(j != i and (self.intx[j] or j in self.readers) for j in range(self.n))

    # ------------------------------------------------------------------ values
    def len_of(self, t, row):
        return len_param(int(row["id"])) if self.decl[t].name == "Params" else LOOSE_LEN

    def fields(self, t):
        return self.decl[t].fields

    def value_token(self, rng, t, f, row, key):
        ti = f.ti
        g = zs.Gen(self.schema, rng, max_arr=4)
        if ti.is_compound():
            d = ti.decl
            if d.name == "Sized":
                n = self.len_of(t, row) if f.name == "blob2" else int(row["n"])
                o = zs.Obj(d, [n])
                o.f["data"] = [rng.randrange(256) for _ in range(n)]
            elif d.name == "Seeded":
                n, s = int(row["n"]), seed_param(int(key))
                o = zs.Obj(d, [n, s])
                o.f["vals"] = [rng.choice([0, 1, 65535, rng.randrange(65536)]) for _ in range(n)]
                o.f["extra"] = rng.randrange(16) if s % 2 == 1 else None
                o.f["check"] = s
            else:
                ps = [int(row["shapeKind"])] if d.name == "Shape" else []
                o = g.compound(d, ps)
            return " ".join(zs.tokens(o))
        if ti.kind == "string":
            v = rng.choice(TEXTS) if rng.random() < 0.4 else "".join(rng.choice("abcxyz \u00e4'") for _ in range(rng.randrange(12)))
            if self.cfg.get("nul") and rng.random() < 0.15:
                v += "\0tail"
            return "s" + v.encode().hex()
        if ti.kind == "float":
            for _ in range(50):
                v = g.scalar(ti, None)
                if v == v and not (v == 0 and str(v)[0] == "-"):
                    break
            else:
                v = 1.0
            return zs.tok_scalar(ti, v)
        v = g.scalar(ti, None)
        if ti.kind in ("bit", "var", "dynbit") and v >= 1 << 63 and not self.cfg.get("big"):
            v >>= 1
        return zs.tok_scalar(ti, v)

    def row(self, rng, t, key=None, nulls=0.2):
        """complete row {column: token or None}"""
        row = {}
        dn = self.decl[t].name
        for f in self.fields(t):
            notnull = f.sql is not None and "NOT NULL" in zs.ev_const(self.schema, f.sql)
            if f.name == "id":
                row["id"] = str(key if key is not None else rng.randrange(1, self.cfg.get("ids", 12)))
            elif dn == "Params" and f.name == "shapeKind":
                row[f.name] = str(rng.choice([0, 1, 2, 3]))
            elif dn == "Params" and f.name == "n":
                row[f.name] = str(rng.choice([0, 1, 2, 5] if self.cfg.get("empty") else [1, 2, 5]))
            elif dn == "Loose" and f.name == "key":
                row[f.name] = None if rng.random() < 0.3 else self.value_token(rng, t, f, row, None)
            elif dn == "NoRow" and f.name == "key":
                row[f.name] = "s" + rng.choice(["a", "b", "c"]).encode().hex()
            elif dn == "NoRow" and f.name == "seq":
                row[f.name] = str(rng.randrange(-1, 4))
            elif dn == "Plain" and f.name == "unit":
                row[f.name] = str(rng.randrange(40)) if rng.random() < 0.5 else None
            elif not notnull and rng.random() < nulls:
                row[f.name] = None
            elif not self.cfg.get("empty") and f.name == "blob2" and self.len_of(t, row) == 0:
                row[f.name] = None
            else:
                row[f.name] = self.value_token(rng, t, f, row, row.get("id"))
        return row

    def encode_row(self, t, row):
        return " ".join("." if row.get(f.name) is None else "+ " + row[f.name] for f in self.fields(t))

    # ------------------------------------------------------------------ reference semantics
    def notnull(self, t):
        return [f.name for f in self.fields(t) if f.sql is not None and "NOT NULL" in zs.ev_const(self.schema, f.sql)]

    def check_row(self, t, rows, row, skip=None):
        dn = self.decl[t].name
        for c in self.notnull(t):
            if row[c] is None:
                return "NOT NULL " + c
        others = [r for r in rows if r is not skip]
        k = KEYS[dn]
        if k and any(all(r[c] == row[c] and r[c] is not None for c in k) for r in others):
            return "PRIMARY KEY"
        for u in UNIQUE.get(dn, []):
            if row[u] is not None and any(r[u] == row[u] for r in others):
                return "UNIQUE " + u
        return None

    def ref_write(self, m, t, cols, rows):
        """-> new model or an explanation"""
        if m.t[t] is None:
            return "no table"
        new = list(m.t[t])
        for r in rows:
            row = {f.name: (r.get(f.name) if cols is None or f.name in cols else None) for f in self.fields(t)}
            why = self.check_row(t, new, row)
            if why:
                return why
            new.append(row)
        m = m.copy()
        m.t[t] = new
        return m

    def match(self, cond, row):
        if cond is None:
            return True
        c, op, v = cond
        x = row[c]
        if x is None:
            return False
        x = int(x)
        return {"=": x == v, ">": x > v, "<=": x <= v, "!=": x != v}[op]

    @staticmethod
    def sql_cond(cond):
        return "" if cond is None else "%s %s %d" % tuple(cond)

    def ref_update(self, m, t, cols, cond, row):
        if m.t[t] is None:
            return "no table"
        new = list(m.t[t])
        for i, r in enumerate(new):
            if not self.match(cond, r):
                continue
            upd = dict(r)
            for f in self.fields(t):
                if cols is None or f.name in cols:
                    upd[f.name] = row.get(f.name)
            why = self.check_row(t, new, upd, skip=r)
            if why:
                return why
            new[i] = upd
        m = m.copy()
        m.t[t] = new
        return m

    def ref_read(self, m, t, cols, cond):
        return [{f.name: (r[f.name] if cols is None or f.name in cols else None) for f in self.fields(t)}
                for r in m.t[t] if self.match(cond, r)]

    # ------------------------------------------------------------------ reading through a node
    def parse_rows(self, t, text):
        tk = text.split(" ")
        n = int(tk[0])
        u = zs.Untok(self.schema, tk[1:])
        rows = []
        for _ in range(n):
            rows.append(self.parse_row(t, u))
        if u.p != len(u.t):
            raise Violation("read", "garbled", "trailing tokens in " + text[:300])
        return rows

    def parse_row(self, t, u):
        row = {}
        for f in self.fields(t):
            if u.nx() == ".":
                row[f.name] = None
                continue
            a = u.p
            if f.ti.is_compound():
                u.compound(f.ti.decl, [])
            else:
                u.nx()
            row[f.name] = " ".join(u.t[a:u.p])
            if f.ti.kind == "bool":
                row[f.name] = str(int(row[f.name] in ("1", "True")))
        return row

    @staticmethod
    def order(rows):
        return sorted(rows, key=lambda r: sorted((k, v or "") for k, v in r.items()))

    def same(self, a, b):
        return a == b or self.order(a) == self.order(b)

    def diff(self, t, want, got):
        w, g = self.order(want), self.order(got)
        for r in w:
            if r not in g:
                near = [x for x in g if any(x[k] == r[k] and r[k] is not None for k in KEYS[self.decl[t].name])]
                return "row %s missing%s (%d rows instead of %d)" % (r, " (got %s)" % near[0] if near else "", len(g), len(w))
        for r in g:
            if r not in w:
                return "row %s unexpected (%d rows instead of %d)" % (r, len(g), len(w))
        return "%d rows instead of %d" % (len(g), len(w))

    def provider(self, fail_at=None):
        calls = [0]
        injected = [False]

        def h(n, ev):
            if ev[0] != "prov":
                return "ok"
            k = calls[0]
            calls[0] += 1
            if fail_at is not None and k == fail_at:
                injected[0] = True
                return "fail provider"
            if ev[1] == "Loose":
                return str(LOOSE_LEN)
            if ev[3] == "-":
                raise Violation("provider", "row", "explicit parameter %s asked for a row without its key" % ev[2])
            return str(PARAM[ev[2]](int(ev[3])))
        h.calls, h.injected = calls, injected
        return h

    def read(self, i, t, cols=None, cond=None, h=None):
        """-> rows or Failed"""
        c = self.sql_cond(cond)
        ok, r = self.node(i).cmd("qread D%d %d %s %s" % (i, self.tables.index(t), "*" if cols is None else ",".join(cols),
                                                     hx(c.encode())), h or self.provider())
        if not ok:
            raise Failed(r)
        return self.parse_rows(t, r)

    def busy(self, r):
        return any(b in r for b in BUSY)

    def files(self):
        return [("main.db", [t for t in self.tables if not (self.cfg["reloc"] and t in RELOC)])] + \
            ([("second.db", list(RELOC))] if self.cfg["reloc"] else [])

    def observe(self):
        """{table: sorted keys | count | None} of the committed state as an independent reader sees it; None when locked"""
        out = {}
        for fn, ts in self.files():
            c = sqlite3.connect(os.path.join(self.dir, fn), timeout=0)
            try:
                have = {r[0] for r in c.execute("SELECT name FROM sqlite_master WHERE type='table'")}
                for t in ts:
                    if t not in have:
                        out[t] = None
                        continue
                    k = KEYS[self.decl[t].name]
                    if k:
                        out[t] = sorted(c.execute("SELECT %s FROM %s" % (", ".join(k), t)).fetchall(), key=repr)
                    else:
                        out[t] = c.execute("SELECT count(*) FROM %s" % t).fetchone()[0]
            except sqlite3.OperationalError as e:
                if "locked" in str(e):
                    return None
                raise Violation("corrupt", "file", "%s cannot be read: %s" % (fn, e))
            except sqlite3.DatabaseError as e:
                raise Violation("corrupt", "file", "%s cannot be read: %s" % (fn, e))
            finally:
                c.close()
        return out

    def summary(self, m):
        out = {}
        for t in self.tables:
            rows, k = m.t[t], KEYS[self.decl[t].name]
            if rows is None:
                out[t] = None
            elif k:
                out[t] = sorted((tuple(None if r[c] is None else bytes.fromhex(r[c][1:]).decode() if r[c][0] == "s" else int(r[c])
                                       for c in k) for r in rows), key=repr)
            else:
                out[t] = len(rows)
        return out

    def full_read(self, i, m):
        """compares everything node i can read with the model; -> first difference or None; Failed"""
        for t in self.tables:
            if m.t[t] is None:
                try:
                    got = self.read(i, t)
                except Failed as e:
                    if self.busy(str(e)):
                        raise
                    continue
                return "table %s exists (%d rows)" % (t, len(got))
            got = self.read(i, t)
            if not self.same(self.ref_read(m, t, None, None), got):
                return "%s: %s" % (t, self.diff(t, m.t[t], got))
        return None
