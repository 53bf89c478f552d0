"""C03: stored or received images are damaged by the simulated medium and decoded by every runtime."""
import zs
from sim import Violation
from scen.common import LANGS, NetScenario, documented, hx, ref_decode, toks

HUGE = ("83ffffffff", "8380808080", "81808080ff", "81ffffffff", "82808080ff", "83ffffff", "ffffffff", "c0000000", "7fffffff", "ffff")


class C03(NetScenario):
    PROP = "C03"
    LEVEL = "exploration"
    MAX_OPS = 40
    RULE = ("one evaluation = one simulated run: images of random values of random types stored, damaged by chains of "
            "faults, read by all runtimes, healthy objects and undamaged images re-read in between; distinct = distinct "
            "(type, damaged image) whose reference outcome is decided (value or documented error)")
    STUBS = ["storage medium: byte images held by the simulator"]
    EXPECT = ["outcome.ok", "outcome.err.eof", "outcome.err.enum", "outcome.err.choice", "outcome.err.union",
              "outcome.err.constraint", "outcome.err.offset", "outcome.err.varsize"]

    @classmethod
    def config(cls, rng, tier):
        return {"ops": rng.choice([15, 30, 60]), "full": rng.random() < 0.5, "arr": rng.choice([2, 5, 5, 9])}

    def begin(self, cfg):
        self.cfg = cfg
        self.images = []
        self.healthy = {}      # handle -> expected dump
        self.nh = 0

    # ------------------------------------------------------------------ generation
    def gen(self, rng):
        if not self.images or (rng.random() < 0.15 and len(self.images) < 6):
            name = rng.choice(self.types()) if rng.random() > 0.06 else "TinyUser"
            for _ in range(20):
                g = zs.Gen(self.schema, rng, max_arr=self.cfg["arr"], full_ext=self.cfg["full"])
                o = g.any_top(name)
                if self.codec.encode(o)[1] > 0 or name == "Empty":
                    break
            start = rng.choice([0, 0, 0, 1, 3, 7, 8, 13])
            self.codec.encode(o, "set", start)
            self.codec.encode(o, "set", start)
            data, bits = self.codec.encode(o, "ignore", start)
            if ref_decode(self.codec, name, data, bits, o.params, start)[0] != "ok":
                return self.gen(rng)    # an offset which does not fit, for example
            junk = rng.getrandbits(-bits % 8)
            if data and bits % 8:
                data = data[:-1] + bytes([data[-1] | junk])
            return ["store", name, self.params_text(o.d, o.params).strip(), toks(o), start, bits, data.hex()]
        r = rng.random()
        if r < 0.10:
            return ["good", rng.randrange(len(self.images))]
        if r < 0.16 and self.healthy:
            return ["healthy", rng.choice(sorted(self.healthy))]
        k = rng.randrange(len(self.images))
        im = self.images[k]
        edits = []
        data, bits = im["data"], im["bits"]
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            e = self.edit(rng, data, bits, im["start"])
            if e is None:
                break
            edits.append(e)
            data, bits = self.apply_edit(e, data, bits)
        into = rng.random() < 0.2
        return ["damage", k, edits, "R" if into else rng.choice("sr")]

    def edit(self, rng, data, bits, start):
        n = len(data)
        if bits <= start:
            return None
        kind = rng.choice(["flip", "flip", "flip", "cut", "cut", "torn", "splice", "dup", "lose", "set", "extend", "huge"])
        if kind == "flip":
            span = rng.choice([bits - start, min(bits - start, 40)])
            return ["flip", sorted({start + rng.randrange(span) for _ in range(rng.choice([1, 1, 2, 5]))})]
        if kind == "cut":
            return ["cut", rng.choice([rng.randrange(start, bits), max(start, bits - rng.randint(1, 9)),
                                       max(start, bits // 8 * 8 - 8 * rng.randint(0, 3))])]
        if kind == "huge":          # a length of hundreds of millions where some other value has been
            return ["huge", start + rng.randrange(bits - start), rng.choice(HUGE)]
        s8 = (start + 7) // 8
        if n <= s8:
            return ["flip", [start]]
        if kind == "torn":
            a = rng.randrange(s8, n)
            return ["torn", a, rng.choice(["00", "ff", "5a", bytes(rng.getrandbits(8) for _ in range(4)).hex()])]
        if kind == "splice":
            j = rng.randrange(len(self.images))
            a = rng.randrange(s8, n)
            other = self.images[j]["data"]
            if not other:
                return ["flip", [start]]
            b = rng.randrange(len(other))
            return ["splice", j, b, a, rng.randint(1, 12)]
        a = rng.randrange(s8, n)
        if kind == "dup":
            return ["dup", a, rng.randint(1, 6)]
        if kind == "lose":
            return ["lose", a, rng.randint(1, 6)]
        if kind == "set":
            return ["set", a, rng.choice([0, 1, 0x7F, 0x80, 0xFF, rng.getrandbits(8)])]
        return ["extend", rng.randint(1, 5), rng.getrandbits(8)]

    def apply_edit(self, e, data, bits):
        k = e[0]
        if k == "flip":
            b = bytearray(data)
            for i in e[1]:
                if i < bits:
                    b[i // 8] ^= 0x80 >> (i % 8)
            return bytes(b), bits
        if k == "cut":
            nb = min(bits, e[1])
            return data[:(nb + 7) // 8], nb
        if k == "torn":
            pat = bytes.fromhex(e[2])
            tail = (pat * (len(data) // len(pat) + 1))[:max(0, len(data) - e[1])]
            return data[:e[1]] + tail, bits
        if k == "splice":
            other = self.images[e[1]]["data"] if e[1] < len(self.images) else b""
            blk = other[e[2]:e[2] + e[4]][:max(0, len(data) - e[3])]
            return data[:e[3]] + blk + data[e[3] + len(blk):], bits
        if k == "dup":
            return data[:e[1] + e[2]] + data[e[1]:], bits + 8 * len(data[e[1]:e[1] + e[2]])
        if k == "lose":
            nd = data[:e[1]] + data[e[1] + e[2]:]
            return nd, max(0, bits - 8 * (len(data) - len(nd)))
        if k == "set":
            b = bytearray(data)
            if e[1] < len(b):
                b[e[1]] = e[2]
            return bytes(b), bits
        if k == "extend":
            return data + bytes([e[2]] * e[1]), len(data) * 8 + 8 * e[1]
        if k == "huge":
            b = bytearray(data)
            for i, bit in enumerate(bin(int("1" + e[2], 16))[3:]):
                p = e[1] + i
                if p < bits:
                    b[p // 8] = b[p // 8] & ~(0x80 >> p % 8) | (0x80 >> p % 8 if bit == "1" else 0)
            return bytes(b), bits
        raise AssertionError(k)

    # ------------------------------------------------------------------ execution
    def read(self, lang, h, im, how, data, bits):
        if how == "s" and im["start"]:
            how = "r"
        hw = "s" if how == "s" else how + str(im["start"])
        return self.node(lang).cmd(("dec %s %s %s %d %s %s" % (h, im["name"], hw, bits, hx(data), im["params"])).rstrip())

    def apply(self, op):
        k = op[0]
        if k == "store":
            o = self.obj(op[1], op[3])
            data = bytes.fromhex(op[6])
            im = {"name": op[1], "params": op[2], "start": op[4], "bits": op[5], "data": data, "ps": o.params,
                  "h": "g%d" % self.nh}
            d, _ = self.codec.decode(op[1], data, op[5], o.params, op[4])
            im["dump"] = toks(d)
            self.nh += 1
            self.images.append(im)
            self.stats.hit("op.store")
            self.healthy[im["h"]] = im
            for lang in LANGS:
                self.good(lang, im, im["h"])
                self.good(lang, im, "r" + im["h"][1:])
        elif k == "good":
            if op[1] < len(self.images):
                self.stats.hit("op.good_read")
                for lang in LANGS:
                    self.good(lang, self.images[op[1]], "t")
        elif k == "healthy":
            if op[1] in self.healthy:
                self.stats.hit("op.recheck")
                self.check_healthy(op[1])
        else:
            self.damage(op)

    def good(self, lang, im, h):
        ok, r = self.read(lang, h, im, "s", im["data"], im["bits"])
        if not ok:
            raise Violation("undamaged-refused", "%s:%s" % (lang, im["name"]), "%s refuses the undamaged image of %s: %s" % (
                lang, im["name"], r))
        d = self.node(lang).ok("dump " + h)
        if d != im["dump"]:
            raise Violation("undamaged-misread", "%s:%s" % (lang, im["name"]), "%s reads the undamaged image of %s as\n %s\n not\n %s"
                            % (lang, im["name"], d[:600], im["dump"][:600]))

    def check_healthy(self, h):
        for lang in LANGS:
            d = self.node(lang).ok("dump " + h)
            if d != self.healthy[h]["dump"]:
                raise Violation("other-object-changed", "%s:%s" % (lang, self.healthy[h]["name"]),
                                "%s: object %s changed by operations on other objects: %s" % (lang, h, d[:600]))

    def damage(self, op):
        _, k, edits, how = op
        if k >= len(self.images):
            return
        im = self.images[k]
        data, bits = im["data"], im["bits"]
        for e in edits:
            data, bits = self.apply_edit(e, data, bits)
            self.stats.hit("fault." + e[0])
        bits = max(bits, im["start"])
        if len(data) * 8 < bits:
            return
        data = data[:(bits + 7) // 8]
        kind, val, _ = ref_decode(self.codec, im["name"], data, bits, im["ps"], im["start"])
        self.stats.hit("outcome." + kind + ("." + val if kind == "err" else ""))
        if kind == "any" and ("limit" in val or "32 bits" in val):
            return      # would only exhaust the simulation's own memory or stack
        if kind != "any" and data != im["data"]:
            self.stats.state(im["name"], data, bits)
        want = toks(val) if kind == "ok" else None
        for lang in LANGS:
            h = "r" + im["h"][1:] if how == "R" else "d"
            ok, r = self.read(lang, h, im, how, data, bits)
            where = "%s:%s" % (lang, im["name"])
            if kind == "ok":
                if not ok:
                    raise Violation("valid-refused", where, "%s refuses bytes which encode a valid %s: %s\n %s/%d" % (
                        lang, im["name"], r, hx(data), bits))
                d = self.node(lang).ok("dump " + h)
                if d != want:
                    raise Violation("misread", where, "%s reads %s/%d (%s) as\n %s\n not as\n %s" % (
                        lang, hx(data), bits, im["name"], d[:800], want[:800]))
            elif kind == "err":
                if ok:
                    d = self.node(lang).cmd("dump " + h)
                    raise Violation("invalid-accepted", where + ":" + val, "%s accepts %s/%d as %s although it is invalid (%s): %s" % (
                        lang, hx(data), bits, im["name"], val, d[1][:800]))
                if not documented(lang, val, r):
                    raise Violation("undocumented-error", where + ":" + val, "%s reports %s/%d of %s (%s) as %s" % (
                        lang, hx(data), bits, im["name"], val, r))
            else:
                self.stats.hit("unspecified")
        if how == "R":       # the reused object reads good data again
            for lang in LANGS:
                h = "r" + im["h"][1:]
                ok, r = self.read(lang, h, im, "R", im["data"], im["bits"])
                d = self.node(lang).ok("dump " + h) if ok else r
                if not ok or d != im["dump"]:
                    raise Violation("later-read-affected", "%s:%s" % (lang, im["name"]), "%s: after a read of damaged data the"
                                    " object reads good data as %s, not %s" % (lang, d[:600], im["dump"][:600]))

    def end(self):
        for h in sorted(self.healthy):
            self.check_healthy(h)
        self.stats.hit("simtime", len(self.images))

    @staticmethod
    def shrink(op):
        if op[0] == "damage" and len(op[2]) > 1:
            for i in range(len(op[2])):
                yield op[:2] + [op[2][:i] + op[2][i + 1:]] + op[3:]
        if op[0] == "damage":
            for i, e in enumerate(op[2]):
                if e[0] == "flip" and len(e[1]) > 1:
                    for j in range(len(e[1])):
                        yield op[:2] + [op[2][:i] + [["flip", e[1][:j] + e[1][j + 1:]]] + op[2][i + 1:]] + op[3:]
