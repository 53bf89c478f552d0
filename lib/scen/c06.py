"""C06: C++ objects on a simulated memory which fails allocations; output buffers of every size."""
import gluegen
import zs
from sim import Violation
from scen.common import NetScenario, hx, ref_decode, toks, world
from scen.c05 import vtoks

REFL = ["-withTypeInfoCode", "-withReflectionCode"]


def mem_world(pmr):
    return world("mempmr" if pmr else "memstd", ["mem.zs"],
                 REFL + (["-setCppAllocator", "polymorphic"] if pmr else []),
                 extra_cpp=("mem_extra.cpp",), glue_parts=4, pmr=pmr, mem=True)


class Res:
    __slots__ = ("fired", "allocs", "la", "ca", "lb", "cb", "ld", "cd", "news", "bad", "ok", "text")

    def __init__(self, s):
        p = s.split(" ", 11)
        (self.fired, self.allocs, self.la, self.ca, self.lb, self.cb, self.ld, self.cd, self.news) = map(int, p[:9])
        self.bad = p[9]
        self.ok = p[10] == "ok"
        self.text = p[11] if len(p) > 11 else ""

    @property
    def live(self):
        return (self.la, self.lb)


class C06(NetScenario):
    PROP = "C06"
    LANGS = ("cpp",)
    MAX_OPS = 45
    RULE = ("one evaluation = one simulated history of C++ objects living in two simulated memory resources (or on the std "
            "allocator) whose allocations fail at seeded points: a single one, all from a point on, or once a budget of bytes is "
            "used up; distinct = distinct (world, operation, type, fault mode, index of the failed allocation, outcome)")
    REAL = ["generated C++ code for std and polymorphic allocators and the C++ runtime, under AddressSanitizer",
            "the zserio compiler which generated it"]
    STUBS = ["zserio::pmr::MemoryResource: a ledger over malloc which refuses chosen allocations; operator new for the std allocator"]
    ASSUMPTIONS = ["what a failed assignment or setter leaves in its target is not specified; it must be destructible and take the "
                   "same operation again (until then it may refuse to be encoded)",
                   "JSON texts may use operator new for streams; everything else in polymorphic code must not"]
    EXPECT = ["fault.once", "fault.sticky", "fault.budget", "fault.sweep", "op.new", "op.dec", "op.enc", "op.copy", "op.propagate",
              "op.assign", "op.move", "op.set", "op.jout", "op.jin", "op.find", "op.store", "op.msg", "op.damaged", "op.into",
              "into.small", "into.exact", "into.bits", "world.pmr", "world.std"]

    @classmethod
    def get_world(cls):
        return mem_world(True)

    @classmethod
    def prepare(cls):
        for p in (True, False):
            mem_world(p).build_all(cls.LANGS)

    @classmethod
    def config(cls, rng, tier):
        return {"pmr": rng.random() < 0.65, "arr": rng.choice([1, 2, 3, 5]), "types": rng.choice([1, 2, 4]),
                "ops": rng.choice([10, 20, 30]), "sweep": rng.choice([0.1, 0.3])}

    def begin(self, cfg):
        self.cfg = cfg
        self.world = mem_world(cfg["pmr"])
        self.stats.hit("world." + ("pmr" if cfg["pmr"] else "std"))
        self.pool_ = {}
        self.n = 0
        self.chosen = None
        self.cur = "A"
        self.live = None
        self.raw("reset")
        self.cur = None
        self.use("A")
        self.base = self.live

    def n_(self):
        return self.node("cpp")

    # ------------------------------------------------------------------ generation
    def value(self, rng, name):
        g = zs.Gen(self.schema, rng, max_arr=self.cfg["arr"])
        for _ in range(60):
            try:
                o = g.any_top(name)
                self.codec.encode(o, "set")
                self.codec.encode(o, "set")
                data, bits = self.codec.encode(o)
            except (zs.ModelError, zs.Unspecified, ValueError):
                continue
            r = ref_decode(self.codec, name, data, bits, o.params)
            if r[0] == "ok" and toks(r[1]) == toks(o) and len(data) < 6000:
                return o
        return None

    def fault(self, rng):
        r = rng.random()
        if r < self.cfg["sweep"]:
            return ["sweep", rng.choice([1, 1, 0]), 0]
        return [rng.choice(["once", "once", "sticky", "budget"]), 0, round(rng.random(), 4)]

    def gen(self, rng):
        if self.chosen is None:
            self.chosen = [rng.choice(self.types()) for _ in range(self.cfg["types"])]
        f = self.fault(rng)
        res = rng.choice("AAB")
        if not self.pool_ or rng.random() < 0.12 and len(self.pool_) < 6:
            name = rng.choice(self.chosen)
            o = self.value(rng, name)
            if o is None:
                return ["nop"]
            self.n += 1
            t = toks(o)
            how = rng.choice(["s", "c", "d", "dec", "decb", "dec"])
            if "!" in t.split(" ") or rng.random() < 0.3:
                how = "dec"
            return ["new", "h%d" % self.n, name, how, t, res, f]
        h = rng.choice(sorted(self.pool_))
        e = self.pool_[h]
        k = rng.choice(["enc", "enc", "copy", "copy", "assign", "set", "set", "jout", "jin", "find", "store", "msg", "dam", "into",
                        "into", "move", "query", "query", "del"])
        if k == "enc":
            return ["enc", h, rng.choice("sb"), f]
        if k == "copy":
            self.n += 1
            return ["copy", "h%d" % self.n if len(self.pool_) < 6 else h, h, rng.choice("cp"), res, f]
        if k == "assign":
            c = [x for x in sorted(self.pool_) if self.pool_[x]["d"] is e["d"]]
            o = rng.choice(c)
            return ["assign", h, o, f]
        if k == "move":
            c = [x for x in sorted(self.pool_) if self.pool_[x]["d"] is e["d"] and x != h]
            return ["move", h, rng.choice(c), rng.choice("mM")] if c else ["nop"]
        if k == "set":
            d = e["d"]
            if not d.fields or d.kind == "choice" or d.params or d.name in ("Table", "Places"):
                return ["nop"]
            o = self.value(rng, d.name)
            if o is None:
                return ["nop"]
            if d.kind == "union":
                fd, v = d.field(o.tag), o.value
            else:
                fd = rng.choice(d.fields)
                v = o.f[fd.name]
            if v is zs.MISSING or "!" in vtoks(fd, v).split(" ") or (d.kind == "struct" and "!" in e["t"].split(" ")):
                return ["nop"]
            return ["set", h, fd.idx, vtoks(fd, v), rng.choice("sce"), res, f]
        if k in ("jout", "jin", "find", "store", "msg") and e["d"].params:
            return ["nop"]
        if k == "jout":
            return ["jout", h, rng.choice([0, 1, 4]), res, f]
        if k == "jin":
            self.n += 1
            return ["jin", "h%d" % self.n if len(self.pool_) < 6 else h, h, rng.choice([0, 2]), res, f]
        if k in ("find", "store"):
            if not e["d"].fields:
                return ["nop"]
            fd = rng.choice(e["d"].fields)
            p = fd.name
            if k == "find":
                d = fd
                while rng.random() < 0.6 and d.ti.is_compound() and d.array is None and d.ti.decl.fields:
                    d = rng.choice(d.ti.decl.fields)
                    p += "." + d.name
                if rng.random() < 0.15:
                    p = rng.choice(["-", "nothing", p + ".nothing"])
            return [k, h, p, res, f]
        if k == "msg":
            return ["msg", h, rng.choice("or"), res, f]
        if k == "dam":
            data, bits = self.enc(e)
            if bits == 0:
                return ["nop"]
            return ["dam", e["d"].name, h, rng.choice(["cut", "flip", "flip"]), rng.random(), rng.getrandbits(3), res, f]
        if k == "into":
            return ["into", h, rng.choice([0, 0, 0, 1, 5, 8, 16]), rng.getrandbits(30)]
        if k == "query":
            c = [x for x in sorted(self.pool_) if self.pool_[x]["d"] is e["d"]]
            return ["query", rng.choice(["size", "init", "hash", "eq", "lt"]), h, rng.choice(c), f]
        return ["del", h]

    # ------------------------------------------------------------------ running
    def raw(self, line, k=0, m=1):
        r = Res(self.n_().ok("try %d %d %s" % (k, m, line)))
        self.live = r.live
        w = line.split(" ")[0]
        if r.bad != "0-":
            raise Violation("ledger", "%s:%s" % (w, r.bad.lstrip("0123456789")),
                            "%s returned memory which was not obtained so (%s)" % (line[:300], r.bad))
        if self.cfg["pmr"]:
            if r.cd:
                raise Violation("resource", w + ":default", "%s took %d blocks from the default resource" % (line[:300], r.cd))
            if r.news and r.ok and w not in ("jout", "jin"):
                raise Violation("resource", w + ":new", "%s called operator new %d times" % (line[:300], r.news))
        if not r.ok and r.fired and not (r.text.startswith("std::bad_alloc ") or "/zserio" in r.text.split(" ")[0]):
            raise Violation("report", w, "failed allocation %d of %s is reported as %s" % (k, line[:300], r.text[:200]))
        return r

    def use(self, x):
        if x != self.cur:
            self.n_().ok("use " + x)
            self.cur = x

    def key(self, op, name, mode, k, out):
        self.stats.state("%s %s %s %s %s %s" % (self.cfg["pmr"], op, name, mode, min(k, 40), out))

    def points(self, f, allocs):
        """-> [(k, m)] of the attempts one operation is put through"""
        kind, m, x = f
        if allocs == 0:
            return []
        self.stats.hit("fault." + kind)
        if kind == "sweep":
            ks = range(1, allocs + 1)
            if allocs > 24:
                step = allocs / 24.0
                ks = sorted({1 + int(i * step) for i in range(24)} | {allocs})
            return [(k, m) for k in ks]
        if kind == "budget":
            return [(int(allocs * 60 * x * x), 2)]
        return [(1 + int(x * (allocs - 1) + 0.5), 1 if kind == "once" else 0)]

    def one_only(self, r, line, res):
        if self.cfg["pmr"] and res is not None:
            other = r.cb if res == "A" else r.ca
            if other:
                raise Violation("resource", line.split(" ")[0] + ":other", "%s in %s took %d blocks from the other resource" % (
                    line[:300], res, other))

    def creating(self, h, line, want, f, res, op, name):
        """an operation which makes a new object: `line` has %s for its handle; -> Res of the clean run"""
        self.raw("del t")
        before = self.live
        clean = self.raw(line % "t")
        self.one_only(clean, line, res)
        if clean.ok:
            d = self.n_().ok("dump t")
            if want is not None and d != want:
                raise Violation("value", op + ":" + name, "%s gave\n %s\n not\n %s" % (line[:300], d[:900], want[:900]))
        else:
            if self.live != before:
                raise Violation("leak", op + ":" + name, "%s failed with %s and left %s blocks instead of %s" % (
                    line[:300], clean.text[:200], self.live, before))
            d = None
        after = self.live
        self.raw("del t")
        if self.live != before:
            raise Violation("leak", op + ":" + name, "the object made by %s left %s blocks instead of %s" % (
                line[:300], self.live, before))
        for k, m in self.points(f, clean.allocs):
            r = self.raw(line % "t", k, m)
            self.one_only(r, line, res)
            self.key(op, name, f[0], k, r.ok)
            if not r.ok and self.live != before:
                raise Violation("leak", op + ":" + name, "%s failed at allocation %d (mode %d) and left %s blocks instead of %s" % (
                    line[:300], k, m, self.live, before))
            if r.fired and r.ok and not clean.ok or not r.ok and not r.fired and (clean.ok or clean.text != r.text):
                raise Violation("retry", op + ":" + name, "%s with allocation %d (mode %d) refused gave %s %s, otherwise %s" % (
                    line[:300], k, m, r.ok, r.text[:200], clean.text[:200]))
            if r.ok:
                got = self.n_().ok("dump t")
                if got != d:
                    raise Violation("value", op + ":" + name, "%s with allocation %d (mode %d) refused gave\n %s\n not\n %s" % (
                        line[:300], k, m, got[:900], d[:900]))
                self.raw("del t")
            r2 = self.raw(line % "t")
            if r2.ok != clean.ok or (r2.ok and self.n_().ok("dump t") != d) or self.live != after:
                raise Violation("retry", op + ":" + name, "%s retried after a failure at allocation %d: %s %s, blocks %s instead of %s" % (
                    line[:300], k, r2.ok, r2.text[:200], self.live, after))
            self.raw("del t")
        if h is not None and clean.ok:
            self.raw(line % h)
        return clean, d

    def reading(self, line, f, op, name, want=None, handles=()):
        """an operation which does not change its object"""
        base = self.live
        clean = self.raw(line)
        if want is not None and (not clean.ok or clean.text != want):
            raise Violation("value", op + ":" + name, "%s gave %s\n not %s" % (line[:300], clean.text[:900], want[:900]))
        if self.live != base:
            raise Violation("leak", op + ":" + name, "%s left %s blocks instead of %s" % (line[:300], self.live, base))
        for k, m in self.points(f, clean.allocs):
            r = self.raw(line, k, m)
            self.key(op, name, f[0], k, r.ok)
            if self.live != base:
                raise Violation("leak", op + ":" + name, "%s with allocation %d refused left %s blocks instead of %s" % (
                    line[:300], k, self.live, base))
            if r.ok and r.text != clean.text and r.text != "retried " + clean.text or \
                    not r.ok and not r.fired and (clean.ok or r.text != clean.text):
                raise Violation("retry", op + ":" + name, "%s with allocation %d refused gave %s\n not %s" % (
                    line[:300], k, r.text[:600], clean.text[:600]))
            for h in handles:
                self.same(h, op)
            r2 = self.raw(line)
            if (r2.ok, r2.text) != (clean.ok, clean.text) or self.live != base:
                raise Violation("retry", op + ":" + name, "%s retried gave %s\n not %s" % (line[:300], r2.text[:600], clean.text[:600]))
        return clean

    def changing(self, h, line, want, f, op, name):
        """an operation which changes its object, tried on copies of it first"""
        def fresh():
            self.raw("copy t %s c" % h)
        fresh()
        clean = self.raw(line % "t")
        if not clean.ok:
            raise Violation("refused", op + ":" + name, "%s failed: %s" % (line[:300], clean.text[:300]))
        pts = self.points(f, clean.allocs)
        for k, m in pts:
            fresh()
            r = self.raw(line % "t", k, m)
            self.key(op, name, f[0], k, r.ok)
            if not r.ok and not r.fired:
                raise Violation("retry", op + ":" + name, "%s failed: %s" % (line[:300], r.text[:300]))
            if not r.ok:
                for q in ("dump t", "enc t s", "hash t", "eq t %s" % h, "copy u t c", "del u"):
                    a = self.raw(q)
                    if not a.ok and not a.text.startswith("std::out_of_range ") and "/zserio" not in a.text.split(" ")[0]:
                        raise Violation("unusable", op + ":" + name, "after %s failed at allocation %d, %s fails with %s" % (
                            line[:300], k, q, a.text[:200]))
                r2 = self.raw(line % "t")
                if not r2.ok:
                    raise Violation("retry", op + ":" + name, "%s retried fails with %s" % (line[:300], r2.text[:300]))
            got = self.n_().ok("dump t")
            if got != want:
                raise Violation("value", op + ":" + name, "%s %s gave\n %s\n not\n %s" % (
                    line[:300], "after a failure at allocation %d" % k if not r.ok else "with %d refused" % k, got[:900], want[:900]))
        self.raw("del t")
        # the object itself: fails once, then succeeds
        for k, m in pts[-1:]:
            r = self.raw(line % h, k, m)
            if r.ok:
                return
        self.raw(line % h)

    def same(self, h, why):
        e = self.pool_[h]
        d = self.n_().ok("dump " + h)
        if d != e["t"]:
            raise Violation("value", "after:" + why, "after %s the object %s is\n %s\n not\n %s" % (why, h, d[:900], e["t"][:900]))

    def enc(self, e, mode="ignore", start=0):
        o = self.obj(e["d"].name, e["t"])
        r = self.codec.encode(o, mode, start)
        return r

    def apply(self, op):
        k = op[0]
        if k == "nop" or k in ("enc", "jout", "find", "store", "msg", "into", "del", "set") and op[1] not in self.pool_:
            return
        if k in ("copy", "jin", "dam") and op[2] not in self.pool_:
            return
        if k in ("assign", "move") and (op[1] not in self.pool_ or op[2] not in self.pool_):
            return
        if k == "query" and (op[2] not in self.pool_ or op[3] not in self.pool_):
            return
        getattr(self, "do_" + k)(*op[1:])
        self.stats.hit("op." + k)

    def put(self, h, d, t, res):
        self.pool_[h] = {"d": d, "t": t, "res": res}

    def do_new(self, h, name, how, t, res, f):
        self.use(res)
        d = self.schema[name]
        o = self.obj(name, t)
        if how in ("dec", "decb"):
            data, bits = self.codec.encode(o)
            if how == "decb" and "!" not in t.split(" "):
                line = "dec %%s %s b %d %s" % (name, 8 * len(data), hx(data))
            else:
                line = "dec %%s %s s %d %s" % (name, bits, hx(data))
            line += self.params_text(d, o.params)
            self.stats.hit("op.dec")
        else:
            line = "new %%s %s %s %s" % (name, how, t)
        c, _ = self.creating(h, line, t, f, res, "dec" if how[0:3] == "dec" else "new", name)
        if not c.ok:
            raise Violation("refused", "new:" + name, "%s failed: %s" % (line[:400], c.text[:300]))
        self.put(h, d, t, res)

    def do_enc(self, h, how, f):
        e = self.pool_[h]
        data, bits = self.enc(e, "set")
        if how == "b":
            bits = 8 * len(data)
        self.use(e["res"] if len(e["res"]) == 1 else "A")
        self.reading("enc %s %s" % (h, how), f, "enc", e["d"].name, "%d %s" % (bits, hx(data)), (h,))

    def do_copy(self, h2, h, how, res, f):
        e = self.pool_[h]
        self.use(res)
        if how == "c":
            res = e["res"]
        else:
            self.stats.hit("op.propagate")
        line = "copy %%s %s %s" % (h, how)
        c, _ = self.creating(h2, line, e["t"], f, res if len(res) == 1 else None, "copy" + how, e["d"].name)
        if not c.ok:
            raise Violation("refused", "copy:" + e["d"].name, "%s failed: %s" % (line, c.text[:300]))
        self.put(h2, e["d"], e["t"], res)
        self.same(h, "copy")

    def do_assign(self, h, h2, f):
        a, b = self.pool_[h], self.pool_[h2]
        self.changing(h, "copy %%s %s a" % h2, b["t"], f, "assign", a["d"].name)
        self.put(h, a["d"], b["t"], b["res"] if b["res"] == a["res"] else "AB")
        self.same(h, "assign")
        self.same(h2, "assign")

    def do_move(self, h, h2, how):
        b = self.pool_[h2]
        if h == h2 or self.pool_[h]["d"] is not b["d"]:
            return
        r = self.raw("copy %s %s %s" % (h, h2, how))
        if not r.ok:
            raise Violation("refused", "move:" + b["d"].name, "moving failed: %s" % r.text[:300])
        if r.allocs and self.cfg["pmr"]:
            raise Violation("value", "move:" + b["d"].name, "moving an object took %d blocks" % r.allocs)
        res = b["res"] if how == "m" or b["res"] == self.pool_[h]["res"] else "AB"
        self.put(h, b["d"], b["t"], res)
        del self.pool_[h2]
        self.raw("del " + h2)
        self.same(h, "move")

    def do_set(self, h, idx, vt, mode, res, f):
        e = self.pool_[h]
        d = e["d"]
        if "!" in e["t"].split(" "):
            return
        self.use(res)
        fd = d.fields[idx]
        o = self.obj(d.name, e["t"])
        v = None if vt == "." else zs.Untok(self.schema, vt.split(" ")).field(fd, o)
        if d.kind == "union":
            o.tag, o.value = fd.name, v
        else:
            o.f[fd.name] = v
        try:
            self.codec.encode(o, "set")
        except (zs.ModelError, zs.Unspecified, ValueError):
            return
        want = toks(o)
        line = "rst %%s %d" % idx if vt == "." else "set %%s %d %s %s" % (idx, mode, vt)
        self.changing(h, line, want, f, "set", "%s.%s" % (d.name, fd.name))
        self.put(h, d, want, e["res"] if e["res"] == res else "AB")
        self.same(h, "set")

    def do_query(self, q, h, h2, f):
        e = self.pool_[h]
        if q in ("eq", "lt"):
            if e["d"] is not self.pool_[h2]["d"]:
                return
            line = "%s %s %s" % (q, h, h2)
        else:
            line = "%s %s" % (q, h) + ("" if q == "hash" else " 0")
        self.reading(line, f, q, e["d"].name, None, (h, h2))

    def do_jout(self, h, indent, res, f):
        e = self.pool_[h]
        self.use(res)
        self.reading("jout %s %s %d" % (h, e["d"].name, indent), f, "jout", e["d"].name, None, (h,))

    def do_jin(self, h2, h, indent, res, f):
        e = self.pool_[h]
        self.use(res)
        r = self.raw("jout %s %s %d" % (h, e["d"].name, indent))
        if not r.ok:
            return
        c, d = self.creating(h2, "jin %%s %s %s" % (e["d"].name, r.text), None, f, res, "jin", e["d"].name)
        if c.ok:
            try:
                o = self.obj(e["d"].name, d)
                self.codec.encode(o, "set")
                if toks(o) == d:
                    self.put(h2, e["d"], d, res)
                    return
            except (zs.ModelError, zs.Unspecified, ValueError):
                pass
            self.raw("del " + h2)
            self.pool_.pop(h2, None)

    def do_find(self, h, path, res, f):
        e = self.pool_[h]
        self.use(res)
        self.reading("find %s %s %s" % (h, e["d"].name, path), f, "find", e["d"].name, None, (h,))

    def do_store(self, h, path, res, f):
        e = self.pool_[h]
        self.use(res)
        self.reading("store %s %s %s" % (h, e["d"].name, path), ["once", 0, 0.5], "store0", e["d"].name, None, ()) \
            if not self.cfg["pmr"] or e["res"] == res else None
        self.same(h, "store")

    def do_msg(self, h, mode, res, f):
        e = self.pool_[h]
        if "!" in e["t"].split(" "):
            return
        self.use(res)
        self.raw("init %s 0" % h)
        data, bits = self.enc(e, "set")
        self.reading("msg %s %s %s" % (h, e["d"].name, mode), f, "msg" + mode, e["d"].name, hx(data), (h,))
        if e["d"].name == "Places" and mode == "r":
            # a message which cannot be written is refused every time it is asked for
            self.raw("copy t %s c" % h)
            fd = e["d"].field("where")
            self.raw("set t %d s 1" % fd.idx)  # the strings are never at 1
            r = self.raw("msg t Places r")
            if r.text != "error same":
                raise Violation("retry", "msgr:refused", "a message with a wrong offset gave %s" % r.text[:300])
            self.raw("del t")

    def do_dam(self, name, h, kind, x, bit, res, f):
        """damaged input: whatever is reported, nothing is left behind"""
        self.use(res)
        e = self.pool_[h]
        d = e["d"]
        data, bits = self.enc(e)
        o = self.obj(d.name, e["t"])
        if kind == "cut":
            bits = int(x * bits)
            data = data[:(bits + 7) // 8]
        else:
            data = bytearray(data)
            i = int(x * len(data))
            data[min(i, len(data) - 1)] ^= 1 << bit
        r = ref_decode(self.codec, d.name, bytes(data), bits, o.params)
        if r[0] == "any":
            return
        want = toks(r[1]) if r[0] == "ok" else None
        c, _ = self.creating(None, "dec %%s %s s %d %s%s" % (d.name, bits, hx(data), self.params_text(d, o.params)),
                             want, f, res, "dam", d.name)
        if c.ok != (r[0] == "ok"):
            raise Violation("damage", d.name, "damaged image accepted: %s, reference: %s" % (c.ok, r[:2]))
        self.stats.hit("op.damaged")

    def do_into(self, h, start, seed):
        import random
        rng = random.Random(seed)
        e = self.pool_[h]
        data, end = self.enc(e, "set", start)
        self.raw("init %s %d" % (h, start))
        sizes = {end - 1, end, end + 1, start, max(0, start - 1), 0, (end + 7) // 8 * 8, end // 8 * 8}
        sizes |= {rng.randrange(0, end + 9) for _ in range(12)} if end > 60 else set(range(end + 9))
        base = self.live
        for n in sorted(s for s in sizes if s >= 0):
            r = self.raw("into %s %d %d" % (h, n, start))
            self.stats.state("into %s %s %d" % (e["d"].name, n >= end, n % 8))
            txt = r.text
            if not r.ok:
                raise Violation("buffer", "report:" + e["d"].name, "writing %d bits into a buffer of %d: %s" % (end, n, txt[:300]))
            if txt == "beyond":
                raise Violation("buffer", "beyond:" + e["d"].name, "writing %d bits into a buffer of %d bits changed bits behind it" % (
                    end, n))
            if n >= end:
                self.stats.hit("into.exact")
                got = "%d %s" % (end, hx(data + b"\0" * ((n + 7) // 8 - len(data))))
                if txt != got:
                    raise Violation("buffer", "value:" + e["d"].name, "writing %d bits into a buffer of %d gave %s not %s" % (
                        end, n, txt[:600], got[:600]))
            else:
                self.stats.hit("into.small")
                if n % 8:
                    self.stats.hit("into.bits")
                if not txt.startswith("err ") or "/zserio" not in txt:
                    raise Violation("buffer", "accepted:" + e["d"].name, "writing %d bits into a buffer of %d gave %s" % (
                        end, n, txt[:600]))
        if self.live != base:
            raise Violation("leak", "into:" + e["d"].name, "writing left %s blocks instead of %s" % (self.live, base))
        self.raw("init %s 0" % h)

    def do_del(self, h):
        self.raw("del " + h)
        del self.pool_[h]

    def end(self):
        for h in sorted(self.pool_):
            self.same(h, "end")
        self.raw("reset")
        if self.live != self.base:
            raise Violation("leak", "end", "%s blocks are left after every object was destroyed" % (self.live,))
