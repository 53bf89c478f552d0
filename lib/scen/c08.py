"""C08: values stored in SQL tables by one language are read, updated and validated alike by every language."""
import os
import random
import sqlite3

import disk
import zs
from sim import Violation
from scen.common import hx
from scen.sqlsim import KEYS, LANGS, PARAM, RELOC, TOGETHER, UNIQUE, Failed, SqlScenario

MIX = {"INTEGER": ["abc", 1.5, b"\0\1"], "REAL": ["abc", b"\0\1"], "TEXT": [b"\0\1", b"abc"], "BLOB": [5, "abc", 1.5]}
ERR = {"type": ("INVALID_COLUMN_TYPE",), "range": ("VALUE_OUT_OF_RANGE",), "enum": ("INVALID_VALUE", "INVALID_ENUM_VALUE"),
       "enumrange": ("INVALID_VALUE", "INVALID_ENUM_VALUE", "VALUE_OUT_OF_RANGE"),
       "blob": ("BLOB_PARSE_FAILED", "BLOB_COMPARE_FAILED")}


class C08(SqlScenario):
    PROP = "C08"
    LEVEL = "exploration"
    MAX_OPS = 40
    RULE = ("one evaluation = one simulated run: nodes of the three languages write, update, read (any columns, any condition) and "
            "validate tables of the same database files, every answer compared with a reference model; the simulator damages "
            "stored cells and schemas before validations and makes reads fail; distinct = distinct (operation, language, column "
            "subset or kind of damage, outcome) situations")
    REAL = ["generated SQL code of all three languages", "zserio SQL runtimes", "the SQLite library of each language"]
    STUBS = ["disk under SQLite: system-call shim (read errors)", "the tool which damages cells: sqlite3 of the simulator"]
    ASSUMPTIONS = ["lib/zs.py states the encoding of BLOB columns correctly",
                   "cells damaged so that they still decode but not to the same bytes may or may not be reported"]
    EXPECT = ["op.write", "op.update", "op.read", "op.raw", "op.valid", "damage.type", "damage.range", "damage.enum",
              "damage.blob", "damage.column", "op.stop", "fault.read", "fault.provider", "cols.subset"]

    @classmethod
    def config(cls, rng, tier):
        nodes = rng.choice([["cpp", "java"], ["cpp", "py"], ["java", "py"], ["cpp", "java", "py"], ["cpp", "java", "py"]])
        return {"ops": rng.choice([15, 30, 50]), "nodes": nodes, "reloc": rng.random() < 0.4, "ext": rng.random() < 0.2,
                "page": 4096, "ids": rng.choice([6, 30]), "big": rng.random() < 0.5, "nul": rng.random() < 0.3,
                "empty": rng.random() < 0.4, "faults": rng.choice([0, 0.2, 0.4])}

    def begin(self, cfg):
        self.start(cfg)
        for i in range(self.n):
            self.ensure(i)
        ok, r = self.node(0).cmd("qschema D0 create")
        if not ok:
            raise Violation("progress", "schema", "%s cannot create the schema: %s" % (self.lang(0), r))
        self.model.t = {t: [] for t in self.tables}

    # ------------------------------------------------------------------ generation
    def gen(self, rng):
        i = rng.randrange(self.n)
        t = rng.choice(self.tables)
        rows = self.model.t[t]
        r = rng.random()
        if not rows or r < 0.28:
            return self.gen_write(rng, i, t)
        if r < 0.43:
            return self.gen_update(rng, i, t)
        if r < 0.72:
            return ["read", i, t, self.subset(rng, t, ()), self.cond(rng, t), self.fault(rng, i, t)]
        if r < 0.82:
            return ["raw", t]
        if self.lang(i) == "py":
            return ["raw", t]
        return self.gen_valid(rng, i)

    def fault(self, rng, i, t):
        if rng.random() > self.cfg["faults"]:
            return None
        if self.decl[t].name == "Params" and rng.random() < 0.5:
            return {"k": "prov", "at": rng.randrange(0, 4)}
        return {"k": "disk", "kind": rng.choice(["read", "rate"]), "at": rng.randrange(0, 4), "seed": rng.randrange(1, 1 << 30)}

    def subset(self, rng, t, must):
        if rng.random() < 0.35:
            return None
        names = [f.name for f in self.fields(t)]
        cols = [n for n in names if n in must or rng.random() < 0.5]
        for group in TOGETHER.get(self.decl[t].name, []):
            if any(c in cols for c in group):
                cols += [c for c in group if c not in cols]
        for dn, c in (("Params", "id"), ("Loose", "no")):
            if self.decl[t].name == dn and c not in cols:
                cols.append(c)
        cols = [n for n in names if n in cols] or [rng.choice(names)]
        if rng.random() < 0.3:
            rng.shuffle(cols)       # the order of the names does not matter
        return cols

    def cond(self, rng, t):
        dn = self.decl[t].name
        names = {"Plain": ["id", "unit", "name"], "Mixed": ["id", "small", "big", "text", "level"], "Params": ["id", "shapeKind", "n"],
                 "NoRow": ["seq", "key"], "NoKey": ["num"], "Words": ["title"], "Loose": ["tail", "key"]}[dn]
        if rng.random() < 0.4:
            return None
        c = rng.choice(names)
        vals = [r[c] for r in self.model.t[t] if r[c] is not None]
        if rng.random() < 0.15 and dn != "Words":
            return [c, "IS NULL", 0]
        v = rng.choice(vals) if vals and rng.random() < 0.8 else None
        f = self.decl[t].field(c)
        if f.ti.kind == "string":
            if v is not None and "00" in [v[k:k + 2] for k in range(1, len(v), 2)]:
                v = None
            return [c, "=", v or "s61"]
        return [c, rng.choice(["=", ">", "<=", "!="]), int(v or rng.randrange(-3, 300))]

    def match(self, cond, row):
        if cond is None:
            return True
        c, op, v = cond
        x = row[c]
        if op == "IS NULL":
            return x is None
        if x is None:
            return False
        if x[0] == "s":
            return x == v
        x = int(x)
        return {"=": x == v, ">": x > v, "<=": x <= v, "!=": x != v}[op]

    @staticmethod
    def sql_cond(cond):
        if cond is None:
            return ""
        c, op, v = cond
        if op == "IS NULL":
            return c + " IS NULL"
        if isinstance(v, str):
            return "%s = '%s'" % (c, bytes.fromhex(v[1:]).decode().replace("'", "''"))
        return "%s %s %d" % (c, op, v)

    def gen_write(self, rng, i, t):
        rows = []
        cols = self.subset(rng, t, self.notnull(t) + KEYS[self.decl[t].name]) if rng.random() < 0.4 else None
        for _ in range(rng.choice([1, 2, 4, 8])):
            for _ in range(8):
                row = self.row(rng, t)
                if cols is not None:
                    row = {c: (v if c in cols else None) for c, v in row.items()}
                if self.decl[t].name == "Loose" and row["key"] in (None, "s4e554c4c") and any(
                        r["key"] in (None, "s4e554c4c") for r in self.model.t[t] + rows):
                    continue        # reports would not tell them apart
                if self.check_row(t, self.model.t[t] + rows, row) is None:
                    rows.append(row)
                    break
        if not rows:
            return ["raw", t]
        return ["write", i, t, cols, [self.encode_row(t, r) for r in rows]]

    def gen_update(self, rng, i, t):
        dn = self.decl[t].name
        old = rng.choice(self.model.t[t])
        if dn in ("Params", "Loose"):
            k = KEYS[dn][0]
            if old[k] is None:
                return ["raw", t]
            row = self.row(rng, t, int(old["id"]) if k == "id" else None)
            row[k] = old[k]
            cond = [k, "=", int(old[k]) if k == "id" else old[k]]
            if k == "key" and "00" in [old[k][n:n + 2] for n in range(1, len(old[k]), 2)]:
                return ["raw", t]
            return ["update", i, t, None, cond, self.encode_row(t, row)]
        cond = self.cond(rng, t) or [{"NoKey": "num", "Words": "title"}.get(dn, "seq" if dn == "NoRow" else "id"), "IS NULL", 0]
        hits = [r for r in self.model.t[t] if self.match(cond, r)]
        row = self.row(rng, t)
        fixed = set(KEYS[dn]) | set(UNIQUE.get(dn, []))
        names = [f.name for f in self.fields(t)]
        if len(hits) == 1 and rng.random() < 0.5:
            cols = self.subset(rng, t, ())
        else:
            cols = [n for n in names if n not in fixed and rng.random() < 0.6]
            if not cols:
                cols = [[n for n in names if n not in fixed][0]]
        return ["update", i, t, cols, cond, self.encode_row(t, row)]

    def gen_valid(self, rng, i):
        damage = []
        full = [t for t in self.tables if self.model.t[t] and t != "words"]
        for _ in range(rng.choice([0, 1, 1, 2, 3]) if full else 0):
            t = rng.choice(full)
            f = rng.choice([f for f in self.fields(t) if f.name not in KEYS[self.decl[t].name] or
                            (self.decl[t].name == "NoRow" and f.name == "seq")] or [None])
            damage.append([t, rng.randrange(len(self.model.t[t])), f.name, rng.randrange(1 << 30)])
        schema = None
        if rng.random() < 0.25:
            t = rng.choice([t for t in self.tables if t != "words"])
            schema = [t, rng.choice(["extra", "rename", "type", "null", "two"]), rng.randrange(1 << 30)]
        stop = None
        if self.lang(i) == "cpp" and rng.random() < 0.3:
            stop = [rng.choice(["err", "err", "tab", "end"]), rng.randrange(0, 3)]
        return ["valid", i, damage, schema, stop]

    # ------------------------------------------------------------------ execution
    def apply(self, op):
        k = op[0]
        if k != "raw" and op[1] >= self.n:
            return
        getattr(self, "op_" + k)(op)

    def decode_row(self, t, text):
        return self.parse_row(t, zs.Untok(self.schema, text.split(" ")))

    @staticmethod
    def kind(cols):
        return "all" if cols is None else len(cols)

    def op_write(self, op):
        _, i, t, cols, rows = op
        new = self.ref_write(self.model, t, cols, [self.decode_row(t, r) for r in rows])
        if isinstance(new, str):
            return
        c = "*" if cols is None else ",".join(cols)
        ok, r = self.node(i).cmd("qwrite D%d %d %s %d %s" % (i, self.tables.index(t), c, len(rows), " ".join(rows)), self.provider())
        if not ok:
            raise Violation("write", "%s:%s" % (self.lang(i), t), "%s cannot write valid rows of %s (columns %s): %s" % (
                self.lang(i), t, c, r))
        self.model = new
        self.stats.hit("op.write")
        if cols is not None:
            self.stats.hit("cols.subset")
        self.stats.state("write", self.lang(i), t, tuple(sorted(cols)) if cols else None)

    def op_update(self, op):
        _, i, t, cols, cond, row = op
        new = self.ref_update(self.model, t, cols, cond, self.decode_row(t, row))
        if isinstance(new, str):
            return
        c = "*" if cols is None else ",".join(cols)
        ok, r = self.node(i).cmd("qupd D%d %d %s %s %s" % (i, self.tables.index(t), c, hx(self.sql_cond(cond).encode()), row),
                                 self.provider())
        if not ok:
            raise Violation("update", "%s:%s" % (self.lang(i), t), "%s cannot update %s (columns %s, %s): %s" % (
                self.lang(i), t, c, self.sql_cond(cond), r))
        self.model = new
        self.stats.hit("op.update")
        self.stats.state("update", self.lang(i), t, tuple(sorted(cols)) if cols else None)

    def op_read(self, op):
        _, i, t, cols, cond, f = op
        lang = self.lang(i)
        sig = "%s:%s" % (lang, t)
        h = self.provider(f["at"] if f and f["k"] == "prov" else None)
        d = self.disk(i)
        if f and f["k"] == "disk":
            self.node(i).ok("qclose D%d" % i)       # with an empty page cache
            self.forget(i)
            self.ensure(i)
            d.arm("read" if f["kind"] == "read" else "eio", f["at"], 0, disk.READ, f["seed"])
        try:
            got = self.read(i, t, cols, cond, h)
            err = None
        except Failed as e:
            err = str(e)
        injected = h.injected[0]
        if f and f["k"] == "disk":
            injected = d.state()["hits"] > 0
            d.disarm()
        if injected:
            self.stats.hit("fault.provider" if f["k"] == "prov" else "fault.read")
        self.stats.state("read", lang, t, tuple(sorted(cols)) if cols else None, cond and (cond[0], cond[1]), bool(injected),
                         err is None)
        if err is not None:
            if injected:
                return
            raise Violation("read", sig, "%s cannot read %s (columns %s, %s): %s" % (lang, t, cols, self.sql_cond(cond), err))
        if injected and f["k"] == "prov":
            raise Violation("swallowed", sig, "the provider failed but reading %s succeeded in %s" % (t, lang))
        want = self.ref_read(self.model, t, cols, cond)
        if not self.same(want, got):
            raise Violation("read", sig, "%s reads %s (columns %s, %s): %s" % (lang, t, cols, self.sql_cond(cond),
                                                                            self.diff(t, want, got)))
        self.stats.hit("op.read")
        if cols is not None:
            self.stats.hit("cols.subset")

    # ------------------------------------------------------------------ raw content
    def raw_value(self, t, f, row):
        tok = row[f.name]
        if tok is None:
            return None
        if f.ti.is_compound():
            u = zs.Untok(self.schema, tok.split(" "))
            return self.codec.encode(u.compound(f.ti.decl, []), "set")[0]
        if f.ti.kind == "string":
            return bytes.fromhex(tok[1:]).decode()
        if f.ti.kind == "float":
            return zs.untok_scalar(f.ti, tok)
        v = int(tok)
        return v - (1 << 64) if v >= 1 << 63 else v

    def raw_row(self, t, row):
        return tuple(self.raw_value(t, f, row) for f in self.fields(t))

    def file_of(self, t):
        return os.path.join(self.dir, "second.db" if self.cfg["reloc"] and t in RELOC else "main.db")

    def connect(self, t):
        c = sqlite3.connect(self.file_of(t), timeout=0, isolation_level=None)
        return c

    def op_raw(self, op):
        t = op[1]
        c = self.connect(t)
        try:
            cols = ", ".join(f.name for f in self.fields(t))
            got = c.execute("SELECT %s FROM %s" % (cols, t)).fetchall()
        finally:
            c.close()
        want = [self.raw_row(t, r) for r in self.model.t[t]]
        key = lambda r: [(str(type(x)), x if not isinstance(x, float) else repr(x)) for x in r]
        if sorted(map(repr, got)) != sorted(map(repr, want)):
            bad = [w for w in want if repr(w) not in map(repr, got)]
            ext = [g for g in got if repr(g) not in map(repr, want)]
            raise Violation("stored", t, "%s holds %r instead of %r" % (t, ext[:1], bad[:1]))
        self.stats.hit("op.raw")

    # ------------------------------------------------------------------ validation
    def int_limits(self, ti):
        d = ti.decl
        if d is not None and d.kind in ("enum", "bitmask"):
            ti = d.base
        if ti.kind == "bool":
            return None
        return zs.int_range(ti, self.schema, None)

    def sqltype(self, f):
        if f.ti.is_compound():
            return "BLOB"
        return {"string": "TEXT", "float": "REAL"}.get(f.ti.kind, "INTEGER")

    def damage(self, t, f, row, seed):
        """-> (raw value, kind of expected error | None | 'any') or None: nothing to damage here"""
        rng = random.Random(seed)
        ty = self.sqltype(f)
        d = f.ti.decl
        if rng.random() < 0.3:
            v = rng.choice(MIX[ty])
            return v, "type"
        if ty == "INTEGER":
            if f.ti.kind == "dynbit":
                return None
            if d is not None and d.kind == "enum":
                lim = self.int_limits(f.ti)
                valid = list(d.values())
                if rng.random() < 0.5:
                    v = rng.choice([x for x in (1, 3, 8, 255, -301, 300, 1000) if lim[0] <= x <= lim[1] and x not in valid])
                    return v, "enum"
                k = rng.choice(valid)
                span = lim[1] - lim[0] + 1
                return k + span * rng.choice([1, -1, 1 << 20]), "enumrange"
            lim = self.int_limits(f.ti)
            if lim is None or f.ti.kind == "bool":
                return None
            lo, hi = lim
            bad = [v for v in (lo - 1, hi + 1, -(1 << 63), (1 << 63) - 1, 1 << 32, -(1 << 40), hi * 2 + 2 + (lo if lo > 0 else 0))
                   if not lo <= v <= hi and -(1 << 63) <= v < 1 << 63]
            if hi >= 1 << 63 or not bad:
                return None
            return rng.choice(bad), "range"
        if ty == "BLOB":
            old = self.raw_value(t, f, row)
            if old is None or not old:
                return None
            r = rng.random()
            if r < 0.4:
                v = old[:rng.randrange(1, len(old))] if len(old) > 1 else old
                if len(old) <= 1:
                    return None
            elif r < 0.8:
                b = bytearray(old)
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
                v = bytes(b)
            else:
                v = old + bytes(rng.randrange(256) for _ in range(rng.randrange(1, 4)))
            return v, self.judge(t, f, row, v)
        return None

    def judge(self, t, f, row, v):
        """what validation has to say about blob v"""
        dn = f.ti.decl.name
        ps = []
        if dn == "Sized":
            ps = [self.len_of(t, row) if f.name == "blob2" else int(row["n"])]
        elif dn == "Seeded":
            ps = [int(row["n"]), PARAM["seed"](int(row["id"]))]
        elif dn == "Shape":
            ps = [int(row["shapeKind"])]
        try:
            o, pos = self.codec.decode(dn, v, params=ps)
        except zs.DecodeError as e:
            return "any" if e.kind in ("nesting", "limit") else "blob"
        except zs.Unspecified:
            return "any"
        try:
            b, bits = self.codec.encode(o, "ignore")
        except Exception:       # noqa: BLE001
            return "any"
        if b == v and bits == pos:
            return None
        return "any"

    def rekey(self, t, lang, raw):
        """the row keys a report carries for this stored row"""
        names = [f.name for f in self.fields(t)]
        k = KEYS[self.decl[t].name]
        def show(f, x):
            if self.sqltype(f) == "BLOB":
                return "BLOB"
            if x is None:
                return "NULL"
            if isinstance(x, bytes):
                return None
            return str(x)
        if k:
            return [show(self.decl[t].field(c), raw[names.index(c)]) for c in k]
        return None

    def op_valid(self, op):
        _, i, damage, schema, stop = op
        lang = self.lang(i)
        backup = {}
        expect = {}         # table -> list of (kind, column, keys) per row, in row order; or ("schema", set)
        plan = {}
        for t, r, c, seed in damage:
            if r < len(self.model.t[t]) and (not schema or schema[0] != t):
                plan.setdefault(t, {}).setdefault(r, []).append((c, seed))
        try:
            for t in self.tables:
                if t in plan:
                    expect[t] = self.spoil(t, plan[t], backup)
            if schema:
                self.spoil_schema(schema, backup, expect)
            self.check_valid(i, lang, expect, stop)
        finally:
            for t, (sql, rows) in backup.items():
                c = self.connect(t)
                c.execute("DROP TABLE " + t)
                c.execute(sql)
                c.executemany("INSERT INTO %s VALUES (%s)" % (t, ", ".join("?" * len(self.fields(t)))), rows)
                c.close()
        self.stats.hit("op.valid")

    def save(self, c, t, backup):
        sql = c.execute("SELECT sql FROM sqlite_master WHERE name = ?", (t,)).fetchone()[0]
        cols = ", ".join(f.name for f in self.fields(t))
        backup[t] = (sql, c.execute("SELECT %s FROM %s" % (cols, t)).fetchall())

    def spoil(self, t, plan, backup):
        """stores the rows of the table again, damaged; -> expected reports"""
        c = self.connect(t)
        out = []
        vague = False
        try:
            self.save(c, t, backup)
            c.execute("DELETE FROM " + t)
            fields = self.fields(t)
            for n, row in enumerate(self.model.t[t]):
                raw = list(self.raw_row(t, row))
                errs = {}
                for col, seed in plan.get(n, []):
                    k = [f.name for f in fields].index(col)
                    x = self.damage(t, fields[k], row, seed)
                    if x is None or col in errs:
                        continue
                    if isinstance(x[0], bytes) and col in KEYS[self.decl[t].name] and vague:
                        continue        # one such row at most: its key is shown as each language likes
                    vague |= isinstance(x[0], bytes) and col in KEYS[self.decl[t].name]
                    raw[k] = x[0]
                    errs[col] = x[1]
                names = [f.name for f in fields]
                try:
                    c.execute("INSERT INTO %s VALUES (%s)" % (t, ", ".join("?" * len(raw))), raw)
                except sqlite3.IntegrityError:
                    raw, errs = list(self.raw_row(t, row)), {}
                    c.execute("INSERT INTO %s VALUES (%s)" % (t, ", ".join("?" * len(raw))), raw)
                for e in errs.values():
                    self.stats.hit("damage." + str(e or "none"))
                # parameters of blobs come from other columns of the row: their damage spreads
                dn = self.decl[t].name
                spread = dn == "Params" and any(x in errs for x in ("shapeKind", "n"))
                out.append((raw, errs, spread, names))
            return out
        finally:
            c.close()

    def spoil_schema(self, schema, backup, expect):
        t, kind, seed = schema
        rng = random.Random(seed)
        c = self.connect(t)
        try:
            self.save(c, t, backup)
            sql = backup[t][0]
            fields = self.fields(t)
            errs = set()
            free = [f for f in fields if f.name not in KEYS[self.decl[t].name] and f.name not in UNIQUE.get(self.decl[t].name, [])]
            f = rng.choice(free)
            if kind in ("extra", "two"):
                c.execute("ALTER TABLE %s ADD COLUMN surplus INTEGER" % t)
                errs.add(("surplus", "COLUMN_SUPERFLUOUS"))
            if kind in ("rename", "two"):
                c.execute("ALTER TABLE %s RENAME COLUMN %s TO other" % (t, f.name))
                errs |= {(f.name, "COLUMN_MISSING"), ("other", "COLUMN_SUPERFLUOUS")}
            if kind in ("type", "null"):
                ty = self.sqltype(f)
                cols = []
                for g in fields:
                    con = zs.ev_const(self.schema, g.sql) if g.sql is not None else ""
                    gt = self.sqltype(g)
                    if g is f and kind == "type":
                        gt = rng.choice([x for x in ("INTEGER", "TEXT", "BLOB", "REAL") if x != gt])
                        errs.add((g.name, "INVALID_COLUMN_TYPE"))
                    elif g is f:
                        con = con.replace("NOT NULL", "") if "NOT NULL" in con else con + " NOT NULL"
                        errs.add((g.name, "INVALID_COLUMN_CONSTRAINT"))
                    cols.append("%s %s %s" % (g.name, gt, con))
                extra = self.decl[t].__dict__.get("extra_sql")
                c.execute("DROP TABLE " + t)
                c.execute("CREATE TABLE %s (%s%s)%s" % (t, ", ".join(cols), ", " + extra if extra else "",
                                                       " WITHOUT ROWID" if "WITHOUT ROWID" in sql else ""))
            self.stats.hit("damage.column")
            expect[t] = ("schema", errs, c.execute("SELECT count(*) FROM " + t).fetchone()[0])
        finally:
            c.close()

    def row_errors(self, t, raw, errs, spread, names):
        """-> list of acceptable outcomes: None (no report) or (column, types)"""
        if not errs:
            return [None]
        for n in names:
            if errs.get(n) == "type":
                return [(n, ERR["type"])]
        if spread:
            return None
        out = []
        for n in names:
            e = errs.get(n)
            if e == "any":
                out.append((n, ERR["blob"]))
            elif e is not None:
                out.append((n, ERR[e]))
                return out
        return out + [None]

    def check_valid(self, i, lang, expect, stop):
        events = []
        count = {"err": 0, "tab": 0, "end": 0}
        stopped = []
        prov = self.provider()

        def h(n, ev):
            if ev[0] == "prov":
                return prov(n, ev)
            events.append(ev)
            k = {"verr": "err", "vtab": "tab", "vend": "end"}.get(ev[0])
            if k:
                count[k] += 1
                if stop and stop[0] == k and count[k] - 1 == stop[1]:
                    stopped.append((k, ev[1]))
                    return "stop"
            return "ok"
        ok, r = self.node(i).cmd("qvalid D%d" % i, h)
        sig = "%s:validate" % lang
        if not ok:
            raise Violation("validate", sig, "validation failed in %s: %s" % (lang, r))
        if lang == "java":
            parts = r.split(" | ")
            nt, nr = map(int, parts[0].split(" "))
            errors = [p.split(" ") for p in parts[1:]]
            want = sum(len(self.model.t[t]) for t in self.tables if not (isinstance(expect.get(t), tuple)))
            if nt != len(self.tables) or nr != want:
                raise Violation("validate", sig, "Java validated %d tables and %d rows instead of %d and %d" % (
                    nt, nr, len(self.tables), want))
            for t in self.tables:
                self.check_table(t, lang, sig, [e[1:] for e in errors if e[0] == t], expect, None, None)
            unknown = [e for e in errors if e[0] not in self.tables]
            if unknown:
                raise Violation("validate", sig, "report for unknown table %s" % unknown[0])
            return
        self.check_events(events, sig, lang, expect, stopped)

    def check_events(self, ev, sig, lang, expect, stopped):
        def bad(why):
            raise Violation("validate", sig, "%s: %s" % (why, " | ".join(" ".join(e) for e in ev)[:900]))
        st = stopped[0] if stopped else None
        if st:
            self.stats.hit("op.stop")
            self.stats.state("stop", st[0])
        if not ev or ev[0] != ["vdb", str(len(self.tables))]:
            bad("beginDatabase")
        p = 1
        done = 0
        for t in self.tables:
            rows = len(self.model.t[t])
            e = expect.get(t)
            if isinstance(e, tuple):
                rows = e[2]
            if p >= len(ev) or ev[p] != ["vtab", t, str(rows)]:
                bad("beginTable of %s with %d rows expected" % (t, rows))
            p += 1
            if st == ("tab", t):
                continue
            errs = []
            while p < len(ev) and ev[p][0] == "verr":
                if ev[p][1] != t:
                    bad("report for %s while %s is validated" % (ev[p][1], t))
                errs.append(ev[p][2:])
                p += 1
            if p >= len(ev) or ev[p][:2] != ["vend", t]:
                bad("endTable of %s expected" % t)
            seen = int(ev[p][2])
            p += 1
            done += 1
            self.check_table(t, lang, sig, errs, expect, seen, st if st and st[1] == t and st[0] == "err" else None)
            if st == ("end", t):
                break
        if p != len(ev) - 1 or ev[p] != ["vdbend", str(done)]:
            bad("endDatabase with %d tables expected" % done)

    def check_table(self, t, lang, sig, errs, expect, seen, stop):
        e = expect.get(t)
        if isinstance(e, tuple):
            got = {(x[0], x[1]) for x in errs}
            if stop:
                if not got <= e[1] or len(errs) > len(e[1]):
                    raise Violation("validate", sig, "schema of %s: reports %s instead of some of %s" % (t, got, e[1]))
            elif got != e[1] or len(errs) != len(e[1]):
                raise Violation("validate", sig, "schema of %s: reports %s instead of %s" % (t, sorted(got), sorted(e[1])))
            if seen:
                raise Violation("validate", sig, "%d rows of %s validated despite its wrong schema" % (seen, t))
            return
        total = len(self.model.t[t])
        if seen is not None and not stop and seen != total:
            raise Violation("validate", sig, "%d of %d rows of %s validated" % (seen, total, t))
        rows = []
        if e:
            for raw, er, spread, names in e:
                rows.append((raw, self.row_errors(t, raw, er, spread, names)))
        left = list(errs)
        missing = []
        for raw, allowed in sorted(rows, key=lambda r: None in (self.rekey(t, lang, r[0]) or [])):
            keys = self.rekey(t, lang, raw)
            mine = []
            if keys is not None:
                kt = ["s" + x.encode().hex() if x is not None else None for x in keys]
                mine = [x for x in left if len(x) == 2 + len(kt) and all(a is None or a == b for a, b in zip(kt, x[2:]))]
                # one report may carry several errors of the same blob in Java
                for x in mine:
                    left.remove(x)
                if allowed is None:
                    continue
                ok = any((a is None and not mine) or (a is not None and mine and all(x[0] == a[0] and x[1] in a[1] for x in mine))
                         for a in allowed)
                if not ok:
                    missing.append((raw, allowed, mine))
        if stop:
            if left and self.rekey(t, lang, [None] * 30) is not None:
                raise Violation("validate", sig, "%s: unexpected report %s" % (t, left[0]))
            if any(m[2] for m in missing):
                raise Violation("validate", sig, "%s: row %s gets %s instead of %s" % (t, missing[0][0], missing[0][2], missing[0][1]))
            return
        if missing:
            raise Violation("validate", sig, "%s: row %r gets reports %s instead of %s" % (
                t, missing[0][0], missing[0][2], missing[0][1]))
        if not KEYS[self.decl[t].name] and t != "words":
            # rows are told apart by rowid (C++) or by all their values (Java): compare as a whole
            lo = sum(1 for _, a in rows if a is not None and None not in a)
            hi = sum(1 for _, a in rows if a is None or a != [None])
            n = len(left) if lang == "cpp" else len({tuple(x) for x in left})
            if not (lo <= len(left) and n <= hi):
                raise Violation("validate", sig, "%s: %d reports for %d damaged rows: %s" % (t, len(left), lo, left[:3]))
            want = {(a[0], x) for _, al in rows for a in (al or []) if a for x in a[1]}
            if all(al is not None for _, al in rows):
                for x in left:
                    if (x[0], x[1]) not in want:
                        raise Violation("validate", sig, "%s: unexpected report %s" % (t, x))
            return
        if left:
            raise Violation("validate", sig, "%s: unexpected report %s" % (t, left[0]))

    # ------------------------------------------------------------------ end
    def end(self):
        for t in self.tables:
            self.op_raw(["raw", t])
        for i in range(self.n):
            for t in self.tables:
                self.op_read(["read", i, t, None, None, None])
            if self.lang(i) != "py":
                self.op_valid(["valid", i, [], None, None])
