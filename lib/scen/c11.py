"""C11: several threads use the library at once under a simulated scheduler."""
import math
import os
import subprocess

import build
import zs
from sim import Violation
from scen.c05 import vtoks
from scen.common import NetScenario, hx, ref_decode, thr_world, toks

LANGS = ("cpp", "java", "py", "pyc")
PLAIN = ("Leaf", "Pair", "Strings", "Blobs", "Any", "Tree", "Table", "Places", "Growing", "Everything")


class C11(NetScenario):
    PROP = "C11"
    LANGS = LANGS
    MAX_OPS = 14
    RULE = ("one evaluation = one simulated history of rounds in which two to four threads of one process work on objects of their "
            "own and on shared ones they only read, one thread running at a time and every switch decided by the schedule; distinct "
            "= distinct (language, threads, commands the threads were in the middle of, scale of the schedule)")
    REAL = ["generated code and runtimes of C++, Java, Python and the Python/C++ extension, in real threads of one process",
            "JVM class initialisation, CPython interpreter and C++ function-local statics (their guards are simulated)"]
    STUBS = ["thread scheduler: one thread runs at a time; it may be replaced at every memory access (C++), at every access to a field "
             "or array element and every call (Java), at every bytecode instruction (Python)",
             "the runtime of the C++ thread sanitizer, replaced by the scheduler and vector clocks"]
    ASSUMPTIONS = ["memory is sequentially consistent in the simulation; in C++ accesses which nothing orders are violations in "
                   "themselves", "code inside of libstdc++, the JDK and the Python extension module runs without interruption"]
    EXPECT = ["lang." + x for x in LANGS] + ["shared", "threads.2", "threads.3", "threads.4", "switched", "init", "cold"] + \
             ["cmd." + c for c in ("new", "dec", "dump", "enc", "size", "hash", "eq", "copy", "jwrite", "jround", "tinfo", "set", "bad")]

    @classmethod
    def get_world(cls):
        return thr_world()

    @classmethod
    def prepare(cls):
        thr_world().build_all(LANGS)

    @classmethod
    def config(cls, rng, tier):
        return {"lang": rng.choice(["cpp", "cpp", "java", "java", "py", "pyc"]), "arr": rng.choice([1, 2, 3]),
                "threads": rng.choice([2, 2, 2, 3, 4]), "types": rng.choice([1, 1, 2, 4]), "ops": rng.choice([2, 4, 8, 14])}

    def begin(self, cfg):
        self.cfg = cfg
        self.world = thr_world()
        self.lang = cfg["lang"]
        self.stats.hit("lang." + self.lang)
        self.shared = {}
        self.n = 0
        self.chosen = None
        self.texts = {}
        # nothing of the library has been used by this process before
        self.pool.drop((self.world.name, self.lang, "threads"))
        self.many = self.pool.get(self.world, self.lang, "threads")
        self.pool.drop((self.world.name, self.lang, "solo"))
        self.solo = self.pool.get(self.world, self.lang, "solo")

    def cleanup(self):
        self.pool.drop((self.world.name, self.lang, "threads"))

    # ------------------------------------------------------------------ generation
    def value(self, rng, name):
        g = zs.Gen(self.schema, rng, max_arr=self.cfg["arr"])
        for _ in range(60):
            try:
                o = g.any_top(name)
                self.codec.encode(o, "set")
                self.codec.encode(o, "set")
                data, bits = self.codec.encode(o)
            except (zs.ModelError, zs.Unspecified, ValueError):
                continue
            r = ref_decode(self.codec, name, data, bits, o.params)
            if r[0] == "ok" and toks(r[1]) == toks(o) and len(data) < 1500:
                return o
        return None

    def make(self, rng, h, name):
        o = self.value(rng, name)
        if o is None:
            return None
        t = toks(o)
        if "!" in t.split(" ") or rng.random() < 0.5:
            data, bits = self.codec.encode(o)
            return "dec %s %s s %d %s%s" % (h, name, bits, hx(data), self.params_text(self.schema[name], o.params))
        return ("new %s %s %s %s" % (h, name, rng.choice("sc"), t)).rstrip()

    def program(self, rng, t):
        own = {}
        prog = []
        k = 0
        length = rng.choice([1, 2, 4, 8])
        while len(prog) < length:
            pick = rng.random()
            if self.shared and pick < 0.45:
                h = rng.choice(sorted(self.shared))
                name, private = self.shared[h], False
            elif own and pick < 0.8:
                h = rng.choice(sorted(own))
                name, private = own[h], True
            elif pick > 0.93:
                prog.append("tinfo %s %d" % (rng.choice(self.chosen), rng.choice([0, 1, 2, 4])))
                continue
            else:
                k += 1
                name = rng.choice(self.chosen)
                h = "p%d_%d" % (t, k)
                line = self.make(rng, h, name)
                if line is None:
                    break
                if rng.random() < 0.12:
                    # damaged input
                    w = line.split(" ")
                    if w[0] == "dec" and len(w[5]) > 2:
                        b = bytearray.fromhex(w[5])
                        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
                        w[1], w[5] = "x%d" % t, b.hex()
                        prog.append(" ".join(w))
                        prog.append("#bad")
                    continue
                prog.append(line)
                own[h] = name
                continue
            c = rng.choice(["dump", "enc", "enc", "size", "hash", "eq", "copy", "jwrite", "jround", "lt"] + ["set"] * private)
            if c == "dump":
                prog.append("dump " + h)
            elif c == "enc":
                prog.append("enc %s %s" % (h, rng.choice(["s", "b"]) if private else "w0"))
            elif c == "size":
                prog.append("size %s %d" % (h, rng.choice([0, 0, 3, 8])))
            elif c == "hash":
                prog.append("hash " + h)
            elif c in ("eq", "lt"):
                if c == "lt" and self.lang != "cpp":
                    continue
                same = [x for x, y in list(own.items()) + list(self.shared.items()) if y == name]
                prog.append("%s %s %s" % (c, h, rng.choice(sorted(same))))
            elif c == "copy":
                if self.lang == "java" or self.lang == "pyc":
                    continue
                k += 1
                prog.append("copy p%d_%d %s" % (t, k, h))
                own["p%d_%d" % (t, k)] = name
            elif c == "jwrite":
                prog.append("jwrite %s %s %d -1 0" % (h, name, rng.choice([0, 2])))
            elif c == "jround":
                k += 1
                prog.append("jround p%d_%d %s %s" % (t, k, h, name))
                own["p%d_%d" % (t, k)] = name
            elif c == "set":
                d = self.schema[name]
                o = self.value(rng, name)
                if d.kind != "struct" or o is None or name in ("Table", "Places"):
                    continue
                f = rng.choice(d.fields)
                v = o.f[f.name]
                if v is zs.MISSING or v is None or "!" in vtoks(f, v).split(" "):
                    continue
                prog.append("set %s %d s %s" % (h, f.idx, vtoks(f, v)))
        return [x for x in prog if x]

    def plan(self, rng, n):
        r = []
        s = int(math.exp(rng.uniform(0, math.log(60000)))) if rng.random() < 0.7 else 1
        gap = rng.choice([2, 6, 30, 300, 3000, 20000])
        t = 0
        for _ in range(rng.choice([1, 2, 2, 3, 8, 40, 200])):
            t = (t + 1 + (rng.randrange(n - 1) if n > 2 else 0)) % n
            r.append([s, t])
            s += 1 + int(rng.expovariate(1.0 / gap))
        return r

    def gen(self, rng):
        if self.chosen is None:
            self.chosen = [rng.choice(PLAIN) for _ in range(self.cfg["types"])]
        if len(self.shared) < 3 and rng.random() < 0.4:
            self.n += 1
            name = rng.choice(self.chosen)
            line = self.make(rng, "s%d" % self.n, name)
            return ["share", "s%d" % self.n, name, line] if line else ["nop"]
        n = self.cfg["threads"]
        if rng.random() < 0.25:
            # everybody does the same
            p = self.program(rng, 0)
            progs = [[x.replace("p0_", "p%d_" % t).replace(" x0 ", " x%d " % t) for x in p] for t in range(n)]
        else:
            progs = [self.program(rng, t) for t in range(n)]
        if not all(progs):
            return ["nop"]
        return ["round", "c" if rng.random() < 0.1 else "", self.plan(rng, n), progs]

    # ------------------------------------------------------------------ running
    def apply(self, op):
        getattr(self, "do_" + op[0])(*op[1:])

    def do_nop(self):
        pass

    def do_share(self, h, name, line):
        for n in (self.many, self.solo):
            n.ok(line)
            n.ok("dump " + h)
        self.shared[h] = name

    def do_round(self, flag, plan, progs):
        want = []
        progs = [[c for c in p if c != "#bad"] for p in progs]
        for p in progs:
            want.append(self.solo.ok("par - " + " ; ".join(p)).split(" | ", 1))
        text = ",".join("%d:%d" % tuple(x) for x in plan) or "-"
        r = self.many.ok("par %s%s %s" % (flag, text, " | ".join(" ; ".join(p) for p in progs)))
        parts = r.split(" | ")
        steps, switches, state, races = parts[0].split(" ")
        self.stats.hit("threads.%d" % len(progs))
        for p in progs:
            for c in p:
                w = c.split(" ")
                self.stats.hit("cmd." + ("bad" if w[1][0:1] == "x" else w[0]))
        if any(" s1" in c or " s2" in c for p in progs for c in p if c.split(" ")[0] not in ("new", "dec", "set")):
            self.stats.hit("shared")
        if int(switches):
            self.stats.hit("switched")
        if flag:
            self.stats.hit("init")
        if not self.shared:
            self.stats.hit("cold")
        self.stats.hit("simtime", int(steps))
        self.stats.hit("fault.preemption", int(switches))
        self.stats.hit("fault.damaged-input", sum(c.split(" ")[1][0:1] == "x" for p in progs for c in p))
        self.stats.hit("op.round")
        sig = "+".join(sorted({c.split(" ")[0] for p in progs for c in p}))
        gap = int(math.log2(1 + (plan[-1][0] - plan[0][0]) / len(plan))) if plan else 0
        self.stats.state("%s %d %s %s %d %d" % (self.lang, len(progs), ",".join(self.chosen or []), sig, gap,
                                               int(math.log2(1 + int(switches)))))
        if state == "stuck":
            raise Violation("deadlock", self.lang, "the threads wait for each other: %s" % progs)
        for i, p in enumerate(progs):
            if parts[1 + i] != want[i][1]:
                got, exp = parts[1 + i].split(" ; "), want[i][1].split(" ; ")
                k = next((k for k in range(min(len(got), len(exp))) if got[k] != exp[k]), 0)
                c = p[k] if k < len(p) else "?"
                raise Violation("interference", "%s:%s" % (self.lang, c.split(" ")[0]),
                                "%s: %s in thread %d gave\n %s\n alone\n %s" % (self.lang, c[:500], i, got[k][:800], exp[k][:800]))
        if races != "-":
            a = self.names(races.split(",")[0])
            raise Violation("race", "%s|%s" % (a[0][2], a[1][2]), "unordered accesses: " + " and ".join("%s at %s in %s" % x for x in a))

    def names(self, r):
        k1, p1, k2, p2 = r.split(":")
        exe = self.world.build_cpp()
        out = []
        for k, p in ((k1, p1), (k2, p2)):
            t = subprocess.run(["addr2line", "-C", "-f", "-e", exe, "%x" % (int(p, 16) - 1)], capture_output=True, text=True).stdout
            t = t.strip().split("\n")
            out.append((k, os.path.basename(t[-1]) if len(t) > 1 else "?", t[0].split("(")[0][:120]))
        return sorted(out, key=lambda x: x[2])

    @staticmethod
    def shrink(op):
        if op[0] != "round":
            return
        _, flag, plan, progs = op
        for i in range(len(progs)):
            if len(progs) > 2:
                yield ["round", flag, plan, progs[:i] + progs[i + 1:]]
        for size in (max(1, len(plan) // 2), max(1, len(plan) // 4), 1):
            for i in range(0, len(plan), size):
                if len(plan) > size or size == 1:
                    yield ["round", flag, plan[:i] + plan[i + size:], progs]
        for i, p in enumerate(progs):
            for k in range(len(p)):
                if len(p) > 1:
                    yield ["round", flag, plan, progs[:i] + [p[:k] + p[k + 1:]] + progs[i + 1:]]
        if flag:
            yield ["round", "", plan, progs]
