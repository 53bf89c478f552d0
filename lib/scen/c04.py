"""C04: the file helpers of every runtime on a simulated disk which fails, transfers short, fills up and crashes."""
import os

import disk
import zs
from sim import Violation
from scen.common import LANGS, NetScenario, doc_world, hx, ref_decode, toks
from scen.sqlsim import scratch

NAMES = ["Doc", "Doc", "Any", "Tree", "Numbers", "Leaf", "Kinded", "Sized", "Page", "Bits", "Empty"]
W = disk.OPEN | disk.WRITE | disk.META | disk.CLOSE
R = disk.ROPEN | disk.READ
WFAULTS = ["none", "eio", "eio", "enospc", "enospc", "short", "eintr", "close", "close", "open", "meta", "rate", "crash", "crash"]
RFAULTS = ["none", "none", "read", "read", "read", "short", "eintr", "rate", "open", "crash"]
BENIGN = ("none", "short", "eintr", "rate")


class C04(NetScenario):
    PROP = "C04"
    LEVEL = "exploration"
    MAX_OPS = 60
    RULE = ("one evaluation = one simulated run: nodes of every language save and load objects, bit buffers and JSON in shared "
            "files on the simulated disk, with a seeded fault at a seeded operation of the call; distinct = distinct (language, "
            "helper, type, fault kind, operation hit, outcome, state of the file before)")
    REAL = NetScenario.REAL + ["the language runtimes' own file layers (libstdc++ fstream, java.io, CPython io) above the C library"]
    STUBS = ["file system calls below the C library interface: an interposed library fails, shortens, interrupts or drops them"]
    ASSUMPTIONS = ["process death keeps what write calls had accepted (the helpers promise nothing about power loss)",
                   "a C library call which fails is the failure the statement speaks about; EINTR and short transfers may be "
                   "retried or reported"]
    EXPECT = ["save.ok", "save.fail", "save.retry", "save.crash", "load.ok", "load.fail", "load.torn", "json.save", "json.load",
              "buffer.save", "buffer.load", "fault.eio", "fault.enospc", "fault.short", "fault.eintr", "fault.close", "fault.open",
              "fault.read", "fault.rate", "missing", "shrink", "big"]

    @classmethod
    def get_world(cls):
        return doc_world()

    @classmethod
    def prepare(cls):
        NetScenario.prepare.__func__(cls)
        disk.shim()

    @classmethod
    def config(cls, rng, tier):
        return {"ops": rng.choice([15, 30, 45]), "arr": rng.choice([1, 3, 3, 6]), "files": rng.choice([1, 2, 3]),
                "quiet": rng.choice([0.15, 0.4, 0.8])}

    def begin(self, cfg):
        self.cfg = cfg
        self.dir = scratch(self.pool)
        for f in os.listdir(self.dir):
            os.unlink(os.path.join(self.dir, f))
        self.docs = []
        self.what = {}         # file -> (kind, doc index) of the last acknowledged save, None if unknown
        for lang in LANGS:
            self.disk(lang).disarm()

    def disk(self, lang):
        d = self.pool.sqldisks.get(lang)
        if d is None:
            d = self.pool.sqldisks[lang] = disk.Disk(self.dir)
            d.disarm()
        return d

    def node(self, lang, slot=0):
        return self.pool.get(self.world, lang, 9, env=self.disk(lang).env(), cwd=self.dir)

    def cleanup(self):
        for lang in LANGS:
            self.disk(lang).disarm()

    # ------------------------------------------------------------------ generation
    def gen(self, rng):
        if not self.docs or (rng.random() < 0.15 and len(self.docs) < 5):
            for _ in range(50):
                name = rng.choice(NAMES)
                big = rng.random() < 0.12
                o = zs.Gen(self.schema, rng, max_arr=self.cfg["arr"]).any_top(name)
                if big and name in ("Doc", "Bits", "Leaf"):
                    o.f[{"Doc": "title", "Bits": "text", "Leaf": "s"}[name]] = "L" * rng.choice([4000, 8180, 9000, 70000, 140000])
                self.codec.encode(o, "set")
                self.codec.encode(o, "set")
                data, bits = self.codec.encode(o, "ignore")
                if ref_decode(self.codec, name, data, 8 * len(data), o.params)[0] == "ok":
                    break
            return ["doc", name, self.params_text(o.d, o.params).strip(), toks(o)]
        k = rng.randrange(len(self.docs))
        d = self.docs[k]
        lang = rng.choice(LANGS)
        f = "f%d" % rng.randrange(self.cfg["files"])
        r = rng.random()
        quiet = rng.random() < self.cfg["quiet"]
        if r < 0.5:
            kind = rng.choice("fffjjb")
            return ["save", lang, kind, k, f, self.fault(rng, WFAULTS, W, quiet), rng.choice([0, 2]), rng.getrandbits(20)]
        if r < 0.9:
            kind = rng.choice("fffjjb")
            if rng.random() < 0.8 and self.what.get(f):
                kind, k = self.what[f]
            return ["load", lang, kind, k, f, self.fault(rng, RFAULTS, R, quiet)]
        if r < 0.96:
            return ["torn", f, rng.choice(["cut", "zero", "mix", "gone", "tail"]), rng.random(), rng.getrandbits(8)]
        return ["nodir", lang, rng.choice("fjb"), k, rng.choice(["nowhere/x", ".", ""])]

    @staticmethod
    def fault(rng, kinds, mask, quiet):
        if quiet:
            return None
        kind = rng.choice(kinds)
        m = {"close": disk.CLOSE, "open": disk.OPEN | disk.ROPEN, "meta": disk.META, "read": disk.READ,
             "eio": disk.WRITE | disk.CLOSE, "enospc": disk.WRITE}.get(kind, mask)
        if kind in ("short", "eintr", "rate"):
            m = mask & (disk.WRITE | disk.READ)
        return [kind, rng.choice([1, 1, 1, 2, 2, 3, 4, 7]), rng.choice([0, 0, 1]) if kind not in ("short", "rate", "crash")
                else rng.choice([100, 500, 900]) if kind == "rate" else rng.getrandbits(12), m, rng.getrandbits(30)]

    # ------------------------------------------------------------------ execution
    def apply(self, op):
        if op[0] == "doc":
            o = self.obj(op[1], op[3])
            data, bits = self.codec.encode(o, "ignore")
            self.docs.append({"name": op[1], "params": op[2], "toks": op[3], "o": o, "data": data, "bits": bits})
            if len(data) > 3900:
                self.stats.hit("big")
            return
        getattr(self, "do_" + op[0])(*op[1:])

    def path(self, f):
        return os.path.join(self.dir, f) if f else ""

    def content(self, f):
        try:
            with open(self.path(f), "rb") as h:
                return h.read()
        except OSError:
            return None

    def armed(self, lang, fault, line):
        """-> (result, hits, dead)"""
        n = self.node(lang)
        dk = self.disk(lang)
        if not fault:
            return n.cmd(line), 0, False
        dk.arm(fault[0], fault[1], fault[2], fault[3], fault[4])
        try:
            r = n.cmd(line)
        finally:
            st = dk.state()
            dk.disarm()
        if st["hits"]:
            self.stats.hit("fault." + fault[0])
        return r, st["hits"], bool(st["dead"])

    def save_line(self, kind, d, f, indent, seed):
        p = hx(self.path(f).encode())
        if kind == "f":
            return "fsave H %s %s" % (d["name"], p), d["data"]
        if kind == "b":
            n = max(0, d["bits"] - seed % 9)
            b = d["data"][:(n + 7) // 8]
            if n % 8:
                b = b[:-1] + bytes([b[-1] & (0xFF00 >> (n % 8)) & 0xFF])
            return "bsave %d %s %s" % (n, hx(b), p), b
        return "jsave H %s %d %s" % (d["name"], indent, p), None

    def do_save(self, lang, kind, k, f, fault, indent, seed):
        if k >= len(self.docs):
            return
        d = self.docs[k]
        if kind == "b" and lang == "java":
            kind = "f"
        if kind == "j" and ((lang == "cpp" and d["params"]) or lang == "pyc"):
            kind = "f"
        n = self.node(lang)
        if kind != "b":
            self.expect_ok(n.cmd(("new H %s d %s" % (d["name"], d["toks"])).rstrip()), "new")
        line, want = self.save_line(kind, d, f, indent, seed)
        if kind == "j":
            want = self.expect_ok(n.cmd("jwrite H %s %d -1 0" % (d["name"], indent)), "jwrite").split(" ")[1]
            want = b"" if want == "-" else bytes.fromhex(want)
        before = self.content(f)
        if before is not None and len(before) > len(want):
            self.stats.hit("shrink")
        r, hits, dead = self.armed(lang, fault, line)
        how = "%s.%s" % (lang, {"f": "file", "b": "buffer", "j": "json"}[kind])
        self.stats.state("%s|s|%s|%s|%s|%s|%s|%s" % (how, d["name"], fault and fault[0], fault and fault[1], hits and 1, r[0],
                                                    before is not None and (len(before) > len(want))))
        self.what[f] = None
        if dead:
            self.stats.hit("save.crash")
            self.pool.drop(n)
            n = self.node(lang)
            if kind != "b":
                self.expect_ok(n.cmd(("new H %s d %s" % (d["name"], d["toks"])).rstrip()), "new")
        elif r[0]:
            got = self.content(f)
            if got != want:
                raise Violation("incomplete", how, "saving %s reported success (fault %s, hit %d), but the file holds %s instead of %s"
                                % (d["name"], fault, hits, self.brief(got), self.brief(want)))
            self.stats.hit("save.ok")
            self.stats.hit({"j": "json.save", "b": "buffer.save"}.get(kind, "save.ok"))
            self.what[f] = (kind, k)
        else:
            if not hits:
                raise Violation("refused", how, "saving %s failed without a fault: %s" % (d["name"], r[1][:300]))
            self.stats.hit("save.fail")
        if kind != "b":
            r = n.cmd("dump H")
            if r != (True, d["toks"]):
                raise Violation("changed", how, "saving changed the object: %s instead of %s" % (r[1][:300], d["toks"][:300]))
        if self.what[f] is None:
            r = n.cmd(line)
            got = self.content(f)
            if not r[0] or got != want:
                raise Violation("retry", how, "saving %s again after a failure: %s, the file holds %s instead of %s" % (
                    d["name"], r[1][:200], self.brief(got), self.brief(want)))
            self.stats.hit("save.retry")
            self.what[f] = (kind, k)

    @staticmethod
    def brief(b):
        return "nothing" if b is None else "%d bytes %s" % (len(b), b[:40].hex())

    def do_load(self, lang, kind, k, f, fault):
        if k >= len(self.docs):
            return
        d = self.docs[k]
        if kind == "b" and lang == "java":
            kind = "f"
        if kind == "j" and ((lang == "cpp" and d["params"]) or lang == "pyc"):
            kind = "f"
        data = self.content(f)
        n = self.node(lang)
        how = "%s.%s" % (lang, {"f": "file", "b": "buffer", "j": "json"}[kind])
        p = hx(self.path(f).encode())
        params = " " + d["params"] if d["params"] else ""
        # what the file says
        if data is None:
            want = ("err", "missing")
            self.stats.hit("missing")
        elif kind == "f":
            o = self.obj(d["name"], d["toks"])
            kd, val, _ = ref_decode(self.codec, d["name"], data, 8 * len(data), o.params)
            want = (kd, toks(val) if kd == "ok" else val)
        elif kind == "b":
            want = ("ok", "%d %s" % (8 * len(data), hx(data)))
        else:
            r = n.cmd("jread L %s w , -1 %s%s" % (d["name"], hx(data), params))
            if r[0]:
                r = n.cmd("dump L")
            want = ("ok" if r[0] else "err", r[1])
        line = {"f": "fload L %s %s%s" % (d["name"], p, params), "b": "bload " + p, "j": "jload L %s %s%s" % (d["name"], p, params)}[kind]
        r, hits, dead = self.armed(lang, fault, line)
        self.stats.state("%s|l|%s|%s|%s|%s|%s|%s" % (how, d["name"], fault and fault[0], fault and fault[1], hits and 1, r[0], want[0]))
        if dead:
            self.pool.drop(n)
            return
        if want[0] == "any":
            return
        if r[0] and kind != "b":
            r = n.cmd("dump L")
        if r[0]:
            if want[0] != "ok" or r[1] != want[1]:
                raise Violation("invented", how, "loading %s (fault %s, hit %d) from a file of %s gave %s instead of %s" % (
                    d["name"], fault, hits, self.brief(data), r[1][:300], want[1][:300]))
            self.stats.hit("load.ok")
            self.stats.hit({"j": "json.load", "b": "buffer.load"}.get(kind, "load.ok"))
        else:
            if want[0] == "ok" and not hits:
                raise Violation("refused", how, "loading %s failed without a fault: %s; the file holds %s" % (
                    d["name"], r[1][:300], self.brief(data)))
            self.stats.hit("load.torn" if want[0] == "err" else "load.fail")

    def do_torn(self, f, how, x, byte):
        data = self.content(f)
        if data is None:
            return
        p = self.path(f)
        if how == "gone":
            os.unlink(p)
            self.what[f] = None
            return
        at = int(x * len(data))
        if how == "zero":
            data = b""
        elif how == "cut":
            data = data[:at]
        elif how == "mix":
            data = data[:at] + bytes((c ^ byte) & 0xFF for c in data[at:at + 5]) + data[at + 5:]
        else:
            data = data + bytes([byte]) * 3
        with open(p, "wb") as h:
            h.write(data)

    def do_nodir(self, lang, kind, k, where):
        if k >= len(self.docs):
            return
        d = self.docs[k]
        if kind == "b" and lang == "java" or kind == "j" and lang in ("pyc",) or kind == "j" and lang == "cpp" and d["params"]:
            kind = "f"
        n = self.node(lang)
        self.expect_ok(n.cmd(("new H %s d %s" % (d["name"], d["toks"])).rstrip()), "new")
        line, _ = self.save_line(kind, d, where, 0, 0)
        r = n.cmd(line)
        if r[0]:
            raise Violation("unreported", "%s.%s" % (lang, kind), "saving into %r reported success" % where)
        p = hx(self.path(where).encode())
        params = " " + d["params"] if d["params"] else ""
        r = n.cmd({"f": "fload L %s %s%s" % (d["name"], p, params), "b": "bload " + p, "j": "jload L %s %s%s" % (d["name"], p, params)}[kind])
        if r[0]:
            raise Violation("invented", "%s.%s" % (lang, kind), "loading %r reported success" % where)
