"""C07: batches, schema operations and callers' transactions on SQL databases are atomic and durable under faults."""
import disk
import zs
from sim import Violation
from scen.common import hx
from scen.sqlsim import DISK_FAULTS, KEYS, LANGS, UNIQUE, Failed, SqlScenario

MASK = disk.OPEN | disk.WRITE | disk.META | disk.CLOSE | disk.SYNC


class C07(SqlScenario):
    PROP = "C07"
    LEVEL = "exploration"
    MAX_OPS = 40
    RULE = ("one evaluation = one simulated run: up to three nodes (C++, Java, Python) work through generated code on the same "
            "database files; every batch, update, schema operation and transaction is compared with a reference model under "
            "injected failures; distinct = distinct (operation, fault, outcome, transaction state) situations")
    REAL = ["generated SQL code of all three languages", "zserio SQL runtimes", "the SQLite library of each language"]
    STUBS = ["disk under SQLite: system-call shim (errors, short writes, crash, power loss of unsynced writes)",
             "callers: the simulator"]
    ASSUMPTIONS = ["SQLite itself is atomic and durable on a disk which honours fsync (a file system crash may lose or scramble "
                   "anything not synced)", "rollback journal mode; a caller whose operation failed inside its own transaction rolls "
                   "that transaction back"]
    EXPECT = ["fault.constraint", "fault.interrupt", "fault.provider", "fault.source", "fault.full", "fault.disk",
              "fault.crash", "fault.busy", "outcome.kept", "outcome.rolledback", "outcome.crash.before", "outcome.crash.after",
              "op.schema", "op.tx.commit", "op.tx.rollback"]

    @classmethod
    def config(cls, rng, tier):
        k = rng.choice([1, 2, 2, 3])
        nodes = [rng.choice(LANGS) for _ in range(k)]
        if nodes.count("java") > 1:
            nodes = ["java"] + [rng.choice(["cpp", "py"]) for _ in range(k - 1)]
        return {"ops": rng.choice([20, 40, 60]), "nodes": nodes, "reloc": rng.random() < 0.4, "ext": rng.random() < 0.25,
                "page": rng.choice([512, 1024, 4096]), "ids": rng.choice([6, 12, 30]),
                "faults": rng.choice([0.2, 0.5, 0.7]), "journal": rng.choice(["delete", "delete", "truncate", "persist"])}

    def begin(self, cfg):
        self.start(cfg)

    # ------------------------------------------------------------------ generation
    def gen(self, rng):
        i = rng.randrange(self.n)
        if not self.open_[i]:
            return ["open", i]
        if self.must_rollback[i]:
            return ["tx", i, "r", None]
        have = [t for t in self.tables if self.view(i).t[t] is not None]
        if not have and rng.random() < 0.8:
            return ["schema", i, rng.choice(["create", "create", "bl:noRow", "bl:-"]), self.fault(rng, i, "schema")]
        r = rng.random()
        if r < 0.05:
            k = rng.choice(["create", "delete", "bl:noRow"])
            if not have:
                k = "create"
            elif len(have) == len(self.tables) and rng.random() < 0.6:
                k = "delete"
            return ["schema", i, k, self.fault(rng, i, "schema")]
        if r < 0.09:
            t = rng.choice(self.tables)
            return ["table", i, t, "delete" if t in have else rng.choice(["create", "ordinary"])]
        if r < 0.20:
            if not self.intx[i]:
                return ["tx", i, "b", None]
            return ["tx", i, rng.choice("ccr"), self.fault(rng, i, "commit")]
        if r < 0.28:
            return ["verify", i]
        if r < 0.33 and have:
            return ["read", i, rng.choice(have), self.fault(rng, i, "read")]
        if r < 0.37:
            return ["crash", i, rng.random() < 0.15]
        if r < 0.40:
            return ["reopen", i]
        if r < 0.45:
            if i in self.readers:
                return rng.choice([["fetch", i, rng.randrange(1, 4)], ["rdel", i]])
            if have and self.lang(i) != "java":
                return ["reader", i, rng.choice(have)]
        if not have:
            return ["verify", i]
        t = rng.choice(have)
        if r < 0.60 and "id" in KEYS[self.decl[t].name]:
            return self.gen_update(rng, i, t)
        return self.gen_write(rng, i, t)

    def gen_write(self, rng, i, t):
        rows, want = [], rng.choice([1, 1, 2, 3, 5, 8, rng.choice([20, 60])])
        base = self.view(i).t[t]
        bad = rng.random() < 0.3
        for _ in range(want):
            for _ in range(6):
                row = self.row(rng, t)
                if self.check_row(t, base + rows, row) is None:
                    rows.append(row)
                    break
                if bad and rows:
                    rows.append(row)
                    bad = False
                    break
        if not rows:
            rows = [self.row(rng, t)]
        if bad and self.notnull(t) and rng.random() < 0.5:
            c = [c for c in self.notnull(t) if c != "id"]
            if c:
                rows[rng.randrange(len(rows))][rng.choice(c)] = None
        return ["write", i, t, None, [self.encode_row(t, r) for r in rows], self.fault(rng, i, "write", t, len(rows))]

    def gen_update(self, rng, i, t):
        rows = self.view(i).t[t]
        key = int(rng.choice(rows)["id"]) if rows and rng.random() < 0.85 else rng.randrange(1, 40)
        row = self.row(rng, t, key)
        cols = None
        if self.decl[t].name != "Params" and rng.random() < 0.5:
            names = [f.name for f in self.fields(t)]
            cols = [n for n in names if n == "id" or rng.random() < 0.4]
        return ["update", i, t, cols, ["id", "=", key], self.encode_row(t, row), self.fault(rng, i, "update", t, 1)]

    def fault(self, rng, i, what, t=None, rows=0):
        if rng.random() > self.cfg["faults"]:
            return None
        k = rng.choice(["int", "disk", "disk", "crash", "crash", "crash", "full", "prov", "src"])
        seed = rng.randrange(1, 1 << 30)
        if k == "int":
            return {"k": "int", "n": rng.choice([8, 20, rng.randrange(8, 60 + rows * 40), rng.randrange(8, 600)])}
        if k == "disk":
            return {"k": "disk", "kind": rng.choice(DISK_FAULTS), "at": rng.randrange(0, 14), "seed": seed}
        if k == "crash":
            return {"k": "crash", "at": rng.choice([rng.randrange(0, 14), rng.randrange(0, 40)]), "power": int(rng.random() < 0.5),
                    "seed": seed, "hard": rng.random() < 0.1 and self.lang(i) != "java"}
        if k == "full" and what in ("write", "update", "schema"):
            return {"k": "full", "more": rng.choice([0, 0, 1, 2, 3])}
        if k == "prov" and t is not None and self.decl[t].name == "Params" and (self.lang(i) == "cpp" or what == "read"):
            return {"k": "prov", "at": rng.randrange(0, max(1, rows))}
        if k == "src" and what == "write" and self.lang(i) == "py":
            return {"k": "src", "at": rng.randrange(0, rows + 1)}
        return None

    # ------------------------------------------------------------------ one operation under one fault
    def perform(self, i, line, f, valid=True, handler=None):
        """-> (outcome ok|err|crashed, text, facts)"""
        if f and f["k"] == "int" and (not valid or self.blocked(i) or i in self.readers):
            f = None        # the interrupt would hit the roll back
        n = self.node(i)
        k = f["k"] if f else None
        facts = {"injected": False}
        h = handler or self.provider(f["at"] if k == "prov" else None)
        d = self.disk(i)
        if k == "int":
            n.ok("qint D%d %d" % (i, f["n"]))
        elif k == "disk":
            mask = {"fsync": disk.SYNC, "meta": disk.META, "open": disk.OPEN, "read": disk.READ,
                    "close": disk.CLOSE}.get(f["kind"], disk.WRITE)
            d.arm(f["kind"] if f["kind"] not in ("eio",) else "eio", f["at"] % 6, 0, mask, f["seed"])
        elif k == "crash":
            d.arm("crash", f["at"], 0, MASK, f["seed"], powerloss=f["power"])
        elif k == "full":
            if not n.cmd("qexec D%d %s" % (i, hx(b"PRAGMA main.max_page_count=%d" % 1)))[0]:
                k = None
            elif f["more"]:
                # the limit cannot go below the current size: find it and leave some room
                size = self.pages()
                n.cmd("qexec D%d %s" % (i, hx(b"PRAGMA main.max_page_count=%d" % (size + f["more"]))))
        ok, r = n.cmd(line, h)
        if k == "int":
            n.ok("qint D%d 0" % i)
            facts["injected"] = "nterrupt" in r and not ok
            if facts["injected"]:
                self.stats.hit("fault.interrupt")
            if self.lang(i) == "java" and not self.intx[i]:
                # the JDBC driver begins one more transaction after COMMIT; interrupting the end of that empty one leaves it open
                n.cmd("qexec D%d %s" % (i, hx(b"ROLLBACK")))
        elif k in ("disk", "crash"):
            st = d.state()
            if k == "crash" and st["dead"]:
                self.stats.hit("fault.crash")
                self.stats.hit("fault.power" if f["power"] else "fault.kill")
                self.kill(i, f["hard"])
                d.disarm()
                return "crashed", r, facts
            d.disarm()
            facts["injected"] = k == "disk" and st["hits"] > 0
            if facts["injected"]:
                self.stats.hit("fault.disk")
                self.stats.hit("disk." + f["kind"])
        elif k == "full":
            n.cmd("qexec D%d %s" % (i, hx(b"PRAGMA main.max_page_count=1000000")))
            facts["injected"] = not ok and "full" in r.lower()
            if facts["injected"]:
                self.stats.hit("fault.full")
        elif k == "prov":
            facts["injected"] = h.injected[0]
            if h.injected[0]:
                self.stats.hit("fault.provider")
        return "ok" if ok else "err", r, facts

    def pages(self):
        import os
        p = os.path.join(self.dir, "main.db")
        return os.path.getsize(p) // self.cfg["page"] if os.path.exists(p) else 0

    def kill(self, i, hard=False):
        """the process is gone: its connection, its locks, its memory"""
        lang, slot = self.key(i)
        if hard:
            self.pool.crash(self.world, lang, slot)
        else:
            self.node(i).ok("qreset")
        self.forget(i)

    def settle(self, i, op, base, new, out, r, facts, what, strong=True):
        """compares the outcome of a modifying operation on node i with the reference"""
        lang = self.lang(i)
        injected = facts["injected"]
        f = op[-1]
        allowed_new = not isinstance(new, str)
        self.stats.state(what, lang, f["k"] if f else None, out, self.intx[i], allowed_new, bool(injected), self.cfg["reloc"],
                         self.cfg["ext"], self.blocked(i))
        sig = "%s:%s" % (lang, what)
        if out == "crashed":
            # whatever the caller saw, what survives is everything or nothing; a transaction of the caller's is gone
            cands = [("before", self.model)]
            if not self.intx_before and allowed_new:
                cands.append(("after", new))
            self.recover(sig, cands)
            return
        if out == "ok":
            if not allowed_new:
                raise Violation("accepted", sig, "%s of an invalid batch (%s) succeeded in %s" % (what, new, lang))
            if f and f["k"] == "prov" and injected:
                raise Violation("swallowed", sig, "the provider failed but %s reported success in %s" % (what, lang))
            if f and f["k"] == "src" and f["at"] < facts.get("rows", 0):
                raise Violation("swallowed", sig, "the source of rows failed but %s reported success in %s" % (what, lang))
            self.stats.hit("outcome.kept")
            if self.intx[i]:
                self.tx[i] = dict(self.tx[i] or {}, **{t: new.t[t] for t in self.tables if new.t[t] is not base.t[t]})
            else:
                self.model = new
                self.check_auto(i, 1, sig)
            if not self.intx[i] and injected:
                self.check_committed(i, sig, [new])
            return
        # failed
        busy = self.busy(r) and self.blocked(i)
        own_lock = self.busy(r) and i in self.readers and what in ("schema", "table")
        src = f and f["k"] == "src" and f["at"] < facts.get("rows", 0)
        if busy or own_lock:
            self.stats.hit("fault.busy")
        if src:
            self.stats.hit("fault.source")
        if not allowed_new:
            self.stats.hit("fault.constraint")
        if allowed_new and not injected and not busy and not own_lock and not src:
            raise Violation("progress", sig, "%s failed in %s without a reason: %s" % (what, lang, r))
        self.stats.hit("outcome.rolledback")
        if injected:
            self.op_rdel(None, i)       # after an I/O error SQLite keeps its locks until the last reader is gone
        io = injected and f["k"] in ("disk", "int")    # the very last step may fail with everything already committed
        if self.intx[i]:
            self.must_rollback[i] = True
            if not injected:
                self.check_auto(i, 0, sig)
            return
        self.check_auto(i, 1, sig)
        cands = [base] + ([new] if io and allowed_new else [])
        self.check_committed(i, sig, cands)
        if io and what == "schema":
            # SQLite may mistake its rolled back pages of a file which was empty for those another process writes next
            # (both start from change counter 1), so a connection which got an I/O error there is opened again
            self.op_reopen(op, i)

    def check_auto(self, i, want, sig):
        ok, r = self.node(i).cmd("qauto D%d" % i)
        if ok and r != str(want):
            if want:
                raise Violation("left-open", sig, "the %s operation left its transaction open" % self.lang(i))
            raise Violation("caller-tx", sig, "the %s operation ended the transaction of its caller" % self.lang(i))

    def check_committed(self, i, sig, cands):
        """the committed state is one of the candidates (of which the model becomes the right one)"""
        seen = self.observe()
        if seen is None:
            if self.others_write(i):
                return
            raise Violation("left-locked", sig, "the database stays locked after the failure")
        fits = [m for m in cands if self.summary(m) == seen]
        if not fits:
            raise Violation("torn", sig, "a part of the failed operation is in the database: %s instead of %s" % (
                self.brief(seen, self.summary(cands[0])), "the state before it" if len(cands) == 1 else "before or after"))
        diffs = []
        for m in fits:
            try:
                x = self.full_read(i, m)
            except Failed as e:
                if self.busy(str(e)) and self.blocked(i):
                    self.model = m
                    return
                raise Violation("progress", sig, "reading after the failure: %s" % e)
            if x is None:
                self.model = m
                return
            diffs.append(x)
        raise Violation("torn", sig, "after the failed operation: " + diffs[0])

    @staticmethod
    def brief(seen, want):
        return "; ".join("%s is %s, was %s" % (t, str(seen[t])[:200], str(want[t])[:200]) for t in seen if seen[t] != want[t])[:800]

    def others_write(self, i):
        return any(self.intx[j] for j in range(self.n) if j != i)

    def recover(self, sig, cands):
        """after a crash: everyone sees one of the candidates"""
        seen = self.observe()
        if seen is None and any(self.intx):
            for j in range(self.n):         # somebody else's transaction holds an exclusive lock
                if self.intx[j]:
                    self.node(j).cmd("qtx D%d r" % j)
                    self.end_tx(j)
            seen = self.observe()
        if seen is None:
            raise Violation("left-locked", sig, "the database stays locked after the crash")
        fits = [(n, m) for n, m in cands if self.summary(m) == seen]
        if not fits:
            raise Violation("crash-torn", sig, "after the crash: %s" % self.brief(seen, self.summary(cands[-1][1])))
        i = next((j for j in range(self.n) if self.open_[j] and not self.intx[j]), None)
        if i is None:
            i = next(j for j in range(self.n) if not self.open_[j])
            self.ensure(i)
        diffs = []
        for n, m in fits:
            try:
                x = self.full_read(i, m)
            except Failed as e:
                if self.busy(str(e)) and self.blocked(i):
                    x = None
                else:
                    raise Violation("progress", sig, "reading after the crash: %s" % e)
            if x is None:
                self.model = m
                self.stats.hit("outcome.crash." + n)
                return
            diffs.append(x)
        raise Violation("crash-torn", sig, "after the crash: " + diffs[0])

    # ------------------------------------------------------------------ execution
    def apply(self, op):
        k, i = op[0], op[1]
        if i >= self.n:
            return
        if k == "open":
            if not self.open_[i]:
                self.ensure(i)
                if not any(self.open_[j] for j in range(self.n) if j != i) and self.model.t[self.tables[0]] is None:
                    self.node(i).cmd("qexec D%d %s" % (i, hx(b"PRAGMA page_size=%d" % self.cfg["page"])))
                if self.cfg["journal"] != "delete":
                    self.node(i).cmd("qexec D%d %s" % (i, hx(b"PRAGMA journal_mode=" + self.cfg["journal"].encode())))
            return
        if not self.open_[i]:
            return
        self.intx_before = self.intx[i]
        getattr(self, "op_" + k)(op, i)

    def tab(self, t):
        return self.tables.index(t)

    def decode_row(self, t, text):
        return self.parse_row(t, zs.Untok(self.schema, text.split(" ")))

    def op_write(self, op, i):
        _, _, t, cols, rows, f = op
        base = self.view(i)
        new = self.ref_write(base, t, cols, [self.decode_row(t, r) for r in rows])
        c = "*" if cols is None else ",".join(cols)
        if f and f["k"] == "src":
            line = "qwriteit D%d %d %s %d %d %s" % (i, self.tab(t), c, len(rows), f["at"], " ".join(rows))
        else:
            line = "qwrite D%d %d %s %d %s" % (i, self.tab(t), c, len(rows), " ".join(rows))
        out, r, facts = self.perform(i, line, f, not isinstance(new, str))
        facts["rows"] = len(rows)
        if f and f["k"] == "src" and f["at"] < len(rows) and not isinstance(new, str) and out == "ok":
            new = base      # reported below
        self.settle(i, op, base, new, out, r, facts, "write")

    def op_update(self, op, i):
        _, _, t, cols, cond, row, f = op
        base = self.view(i)
        new = self.ref_update(base, t, cols, cond, self.decode_row(t, row))
        line = "qupd D%d %d %s %s %s" % (i, self.tab(t), "*" if cols is None else ",".join(cols),
                                         hx(self.sql_cond(cond).encode()), row)
        out, r, facts = self.perform(i, line, f, not isinstance(new, str))
        self.settle(i, op, base, new, out, r, facts, "update")

    def op_schema(self, op, i):
        _, _, kind, f = op
        self.stats.hit("op.schema")
        base = self.view(i)
        if kind == "delete":
            new = "missing table" if any(r is None for r in base.t.values()) else base.copy()
            if not isinstance(new, str):
                new.t = {t: None for t in self.tables}
            line = "qschema D%d delete" % i
        else:
            new = "existing table" if any(r is not None for r in base.t.values()) else base.copy()
            if not isinstance(new, str):
                new.t = {t: [] for t in self.tables}
            line = "qschema D%d create" % i if kind == "create" else "qschema D%d bl %s" % (i, kind[3:])
        out, r, facts = self.perform(i, line, f, not isinstance(new, str))
        self.settle(i, op, base, new, out, r, facts, "schema")

    def op_table(self, op, i):
        _, _, t, kind = op
        base = self.view(i)
        exists = base.t[t] is not None
        if exists == (kind != "delete"):
            new = "already there" if exists else "not there"
        else:
            new = base.copy()
            new.t[t] = None if exists else []
        out, r, facts = self.perform(i, "qtable D%d %d %s" % (i, self.tab(t), kind), None)
        self.settle(i, op + [None], base, new, out, r, facts, "table")

    def op_tx(self, op, i):
        _, _, kind, f = op
        n = self.node(i)
        if kind == "b":
            if not self.intx[i]:
                ok, r = n.cmd("qtx D%d b" % i)
                if not ok:
                    raise Violation("progress", "begin", "begin failed in %s: %s" % (self.lang(i), r))
                self.intx[i] = True
                self.stats.hit("op.tx.begin")
            return
        if not self.intx[i]:
            return
        sig = "%s:%s" % (self.lang(i), "commit" if kind == "c" else "rollback")
        if kind == "r" or self.must_rollback[i]:
            n.cmd("qtx D%d r" % i)     # SQLite may have rolled back itself
            self.end_tx(i)
            self.stats.hit("op.tx.rollback")
            self.check_auto(i, 1, sig)
            self.check_committed(i, sig, [self.model])
            return
        new = self.view(i)
        out, r, facts = self.perform(i, "qtx D%d c" % i, f, self.lang(i) != "java")   # the JDBC driver loses track after an interrupted COMMIT
        self.stats.hit("op.tx.commit")
        if out == "crashed":
            self.intx_before = False
            self.recover(sig, [("before", self.model), ("after", new)])
            return
        if out == "ok":
            self.model = new
            self.end_tx(i)
            self.check_auto(i, 1, sig)
            return
        if self.busy(r) and self.blocked(i):
            self.stats.hit("fault.busy")
            self.must_rollback[i] = True
            return
        if not facts["injected"]:
            raise Violation("progress", sig, "commit failed in %s: %s" % (self.lang(i), r))
        n.cmd("qtx D%d r" % i)
        self.end_tx(i)
        self.check_committed(i, sig, [self.model, new])

    def end_tx(self, i):
        self.intx[i] = False
        self.tx[i] = None
        self.must_rollback[i] = False

    def op_verify(self, op, i):
        if self.must_rollback[i]:
            return
        try:
            x = self.full_read(i, self.view(i))
        except Failed as e:
            if self.busy(str(e)) and self.blocked(i):
                self.stats.hit("fault.busy")
                return
            raise Violation("progress", "read", "%s cannot read: %s" % (self.lang(i), e))
        if x is not None:
            raise Violation("visibility", self.lang(i), "%s node %s: %s" % (
                self.lang(i), "inside its transaction" if self.intx[i] else "reads", x))
        self.stats.hit("op.verify")

    def op_read(self, op, i):
        """a read which may fail half way leaves no trace"""
        _, _, t, f = op
        if self.must_rollback[i]:
            return
        m = self.view(i)
        if f and f["k"] == "crash":
            f = None
        out, r, facts = self.perform(i, "qread D%d %d * -" % (i, self.tab(t)), f)
        if out == "ok":
            if m.t[t] is None:
                raise Violation("visibility", self.lang(i), "table %s exists" % t)
            got = self.parse_rows(t, r)
            if not self.same(self.ref_read(m, t, None, None), got):
                raise Violation("visibility", self.lang(i), "%s: %s" % (t, self.diff(t, m.t[t], got)))
            return
        if m.t[t] is not None and not facts["injected"] and not (self.busy(r) and self.blocked(i)):
            raise Violation("progress", "read", "%s cannot read: %s" % (self.lang(i), r))
        if self.intx[i]:
            self.must_rollback[i] = facts["injected"]
        else:
            self.check_auto(i, 1, "%s:read" % self.lang(i))
            self.check_committed(i, "%s:read" % self.lang(i), [self.model])

    def op_reader(self, op, i):
        t = op[2]
        if i in self.readers or self.must_rollback[i] or self.view(i).t[t] is None or self.lang(i) == "java":
            return
        ok, r = self.node(i).cmd("qrd R%d D%d %d * -" % (i, i, self.tab(t)), self.provider())
        if not ok:
            if self.busy(r) and self.blocked(i):
                return
            raise Violation("progress", "read", "%s cannot read: %s" % (self.lang(i), r))
        self.readers[i] = {"t": t, "m": self.view(i), "rows": [], "want": self.view(i).t[t]}
        self.stats.hit("op.reader")

    def op_fetch(self, op, i):
        rd = self.readers.get(i)
        if rd is None:
            return
        for _ in range(op[2]):
            ok, r = self.node(i).cmd("qnext R%d" % i, self.provider())
            if not ok or r == "end":
                if not ok and self.view(i) == rd["m"]:
                    raise Violation("progress", "reader", "%s reader failed: %s" % (self.lang(i), r))
                if ok and self.view(i) == rd["m"] and not self.same(rd["rows"], rd["want"]):
                    raise Violation("visibility", self.lang(i), "reader: " + self.diff(rd["t"], rd["want"], rd["rows"]))
                self.op_rdel(op, i)
                return
            row = self.decode_row(rd["t"], r)
            rd["rows"].append(row)
            if self.view(i) == rd["m"] and row not in rd["want"]:
                raise Violation("visibility", self.lang(i), "reader: unexpected row %s" % row)

    def op_rdel(self, op, i):
        if self.readers.pop(i, None) is not None:
            self.node(i).ok("qrdel R%d" % i)

    def op_crash(self, op, i):
        sig = "%s:idle" % self.lang(i)
        self.kill(i, op[2] and self.lang(i) != "java")
        self.stats.hit("fault.kill")
        self.recover(sig, [("before", self.model)])

    def op_reopen(self, op, i):
        if self.intx[i]:
            return
        self.op_rdel(op, i)
        ok, r = self.node(i).cmd("qclose D%d" % i)
        if not ok:
            raise Violation("close", self.lang(i), "close failed: %s" % r)
        self.forget(i)
        self.ensure(i)
        self.stats.hit("op.reopen")
        self.op_verify(op, i)

    # ------------------------------------------------------------------ faults stop: everybody makes progress
    def end(self):
        for i in range(self.n):
            if self.open_[i]:
                self.op_rdel(None, i)
                if self.intx[i]:
                    self.op_tx(["tx", i, "r", None], i)
        for i in range(self.n):
            self.ensure(i)
            self.intx_before = False
            self.op_verify(None, i)
            t = "noKey"
            if self.model.t[t] is None:
                self.op_table(["table", i, t, "create"], i)
            row = "+ s6c617374 + %d ." % (i + 1)
            self.op_write(["write", i, t, None, [row], None], i)
        for i in range(self.n):
            self.op_verify(None, i)
        for i in range(self.n):
            ok, r = self.node(i).cmd("qclose D%d" % i)
            if not ok:
                raise Violation("close", self.lang(i), "close failed: %s" % r)
            self.open_[i] = False
        seen = self.observe()
        if seen != self.summary(self.model):
            raise Violation("durability", "end", "after closing: %s" % self.brief(seen or {}, self.summary(self.model)))
