"""C09: the compiler on a simulated disk: interrupted, failing and repeated runs into the same directories."""
import collections
import os
import shutil

import chost
import disk
from scen import project
from sim import Scenario, Violation

EXTS = ("python", "java", "cpp", "doc", "xml")
T0 = 1200000000000      # virtual milliseconds


class C09(Scenario):
    PROP = "C09"
    MAX_OPS = 30
    SESSION = 40
    RULE = ("one state per (operation, fault kind, exit status, broken sources, how many output files were regenerated / kept / "
            "missing before, same class loader); a simulated run is a history of source edits, clock changes and compiler runs, faulty or "
            "not, into shared output directories")
    REAL = ["the zserio compiler with all five extensions (JVM, real jar, real file system below the fault layer)"]
    STUBS = ["disk faults and crashes (LD_PRELOAD layer between the JVM and libc)", "file time stamps (virtual clock)"]
    ASSUMPTIONS = ["sources are not edited while the compiler reads them and every edit gets a time stamp not older than the outputs made "
                   "before it (the compiler documents that it compares time stamps), or none at all (0)",
                   "a crash stops the process; data handed to the kernel before it survives"]
    EXPECT = ("fault.crash", "fault.no_timestamp", "fault.enospc", "fault.eio", "probe.skipped", "probe.broken", "probe.after_crash", "probe.kept_loader")

    @classmethod
    def prepare(cls):
        chost.host_classes()
        disk.shim()
        chost.build.compiler()

    @classmethod
    def config(cls, rng, tier):
        opts = [sorted(rng.sample(project.OPTIONS, rng.choice([0, 0, 1, 1, 2]))) for _ in range(2)]
        if rng.random() < 0.2:
            opts[1] = opts[1] + ["-setCppAllocator", "polymorphic"]
        return {"ops": rng.randint(8, 22), "faults": rng.choice([0.2, 0.5, 0.7]), "opts": opts,
                "exts": [sorted(rng.sample(EXTS, rng.choice([1, 2, 2, 3]))) for _ in range(2)],
                "init": {f: [rng.randrange(n) for n in project.FEATURES[f]] for f in project.FILES},
                "roots": rng.random() < 0.1, "keep": rng.random() < 0.65, "outs": rng.choice([1, 1, 2])}

    def host(self):
        return self.pool.host("compiler", lambda: chost.Host(java_opts=("-XX:+UnlockExperimentalVMOptions", "-XX:hashCode=2")))

    def begin(self, cfg):
        self.cfg = cfg
        h = self.h = self.host()
        self.root = os.path.join(h.dir, "w")
        shutil.rmtree(self.root, ignore_errors=True)
        self.src = os.path.join(self.root, "src")
        self.clock = T0
        self.version = {}
        self.broken = {}
        self.ops_seen = 300
        self.refs = {}
        self.nrefs = 0
        self.crashed = collections.Counter()
        self.made = {}           # output directory -> (root, file) -> contents its runs should have made
        for f in project.FILES:
            self.write(f, cfg["init"].get(f) or [0] * len(project.FEATURES[f]), 0)
        for f, t in (("pkg/notes.md", project.NOTES), ("pkg/deep/notes.md", project.NOTES2)):
            with open(os.path.join(self.src, f), "w") as o:
                o.write(t)
        os.utime(h.jars[0], (T0 / 1000 - 5000,) * 2)
        self.jar = T0 - 5000000
        self.last_out = T0

    def cleanup(self):
        if self.h.disk:
            self.h.disk.disarm()
        shutil.rmtree(self.root, ignore_errors=True)

    def write(self, f, v, broken, epoch=False):
        p = os.path.join(self.src, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as o:
            o.write(project.text(f, v, broken))
        os.utime(p, ns=(0 if epoch else self.clock * 10**6,) * 2)
        self.version[f], self.broken[f] = tuple(v), broken

    # ------------------------------------------------------------------ generation
    def gen(self, rng):
        r, f = rng.random(), self.cfg["faults"]
        bad = [x for x in project.FILES if self.broken[x]]
        if r < 0.3 or (bad and r < 0.6):
            name = bad[0] if bad else rng.choice(project.FILES[:4] if not self.cfg["roots"] else project.FILES)
            v = list(self.version[name])
            i = rng.randrange(len(v))
            v[i] = rng.randrange(project.FEATURES[name][i])
            broken = rng.choice([1, 2]) if rng.random() < 0.07 else 0
            if rng.random() < 0.1:      # unpacked from an archive without time stamps
                return ["edit", name, v, broken, True]
            return ["edit", name, v, broken]
        if r < 0.36:
            return ["tick", rng.choice([0, 1, 999, 60000, -30000, -10**9])]
        if r < 0.39:
            return ["jar"]
        if r < 0.43:
            return ["del", rng.randrange(self.cfg["outs"]), rng.randrange(1000)]
        k = rng.randrange(2)
        fault = None
        if rng.random() < f:
            kind = rng.choice(["crash", "crash", "crash", "enospc", "eio", "eio", "close", "open", "meta", "short", "rate"])
            n = max(1, self.ops_seen)
            at = rng.choice([rng.randint(1, n), rng.randint(1, n), rng.randint(1, 12), max(1, n - rng.randint(0, 30))])
            mask = {"eio": rng.choice([2, 2, 15]), "enospc": 1 | 2 | 4, "close": 8, "open": 1, "meta": 4, "short": 2,
                    "rate": 2}.get(kind, 15)
            arg = {"crash": rng.choice([0, 128, 200, 255]), "enospc": rng.choice([0, 0, 3]), "eio": rng.choice([1, 1, 0, 3]),
                   "close": rng.choice([1, 0]), "open": rng.choice([1, 0]), "meta": 1, "short": rng.randrange(9000),
                   "rate": 150}[kind]
            if mask != 15:
                at = max(1, at // (5 if mask == 4 else 2))
            if mask == 4:
                at = rng.randint(1, 12)
            fault = [kind, at, arg, mask, rng.getrandbits(31)]
        root = "alt.zs" if self.cfg["roots"] and rng.random() < 0.4 else "main.zs"
        opts = self.cfg["opts"][rng.randrange(2) if rng.random() < 0.3 else 0]
        if rng.random() < 0.04:
            opts = opts + ["-ignoreTimestamps"]
        return ["run", rng.randrange(self.cfg["outs"]), root, opts, self.cfg["exts"][0 if rng.random() < 0.75 else 1], fault,
                bool(self.cfg["keep"] and rng.random() < 0.8)]

    # ------------------------------------------------------------------ execution
    def apply(self, op):
        self.stats.hit("op." + op[0])
        getattr(self, "do_" + op[0])(*op[1:])

    def do_edit(self, f, v, broken, epoch=False):
        # an edit is made after the outputs which it outdates
        self.clock = max(self.clock, self.last_out)
        self.write(f, v, broken, epoch)
        if epoch:
            self.stats.hit("fault.no_timestamp")

    def do_tick(self, dt):
        self.clock = max(T0 - 1000000, self.clock + dt)
        self.stats.hit("simtime", abs(dt))
        if dt < 0:
            self.stats.hit("fault.clock_jump")

    def do_jar(self):
        self.clock = max(self.clock, self.last_out)
        os.utime(self.h.jars[0], ns=(self.clock * 10**6,) * 2)

    def do_del(self, out, k):
        fs = sorted(chost.tree(os.path.join(self.root, "out%d" % out)))
        if fs:
            os.unlink(os.path.join(self.root, "out%d" % out, fs[k % len(fs)]))

    def args(self, out, root, opts, exts):
        a = ["-src", self.src] + list(opts)
        for e in exts:
            a += ["-" + e, os.path.join(out, e)]
        return a + [root]

    def reference(self, root, opts, exts):
        """what the compiler makes of the current sources in an empty directory"""
        opts = [o for o in opts if o != "-ignoreTimestamps"]
        key = repr((sorted(self.version.items()), sorted(self.broken.items()), root, opts, exts))
        if key not in self.refs:
            d = os.path.join(self.root, "ref%d" % self.nrefs)
            self.nrefs += 1
            rc, msg = self.h.compile(self.args(d, root, opts, exts), "R")
            self.refs[key] = (rc, msg, chost.tree(d))
            shutil.rmtree(d, ignore_errors=True)
        return self.refs[key]

    def stamp(self, out):
        """replaces the real time stamps of freshly written files by virtual ones"""
        n = 0
        for d, ds, fs in os.walk(out):
            for f in fs:
                p = os.path.join(d, f)
                if os.stat(p).st_mtime > 1600000000:
                    os.utime(p, ns=(self.clock * 10**6,) * 2)
                    n += 1
        if n:
            self.last_out = max(self.last_out, self.clock)
        return n

    def do_run(self, oi, root, opts, exts, fault, keep):
        h = self.h
        out = os.path.join(self.root, "out%d" % oi)
        ref = self.reference(root, opts, exts)
        before = chost.tree(out)
        self.clock += 1
        if keep:
            self.stats.hit("probe.kept_loader")
        h.disk.prefix = out
        if fault:
            h.disk.arm(fault[0], fault[1], fault[2], fault[3], fault[4])
        else:
            h.disk.arm()
        rc, msg = h.compile(self.args(out, root, opts, exts), "K" if keep else "F")
        st = h.disk.disarm()
        if st["hits"]:
            self.stats.hit("fault." + fault[0])
        elif not fault and rc == 0:
            self.ops_seen = max(40, st["ops"])
        fresh = self.stamp(out)
        after = chost.tree(out)
        made = self.made.setdefault(oi, {})
        for f, t in ref[2].items():
            made.setdefault((root, f), set()).add(t)
        self.stats.state("run", fault[0] if st["hits"] else "", rc, ref[0], fresh == 0, any(f not in before for f in ref[2]),
                         any(before.get(f, ref[2][f]) != ref[2][f] for f in ref[2]), len(ref[2]) - fresh, keep, tuple(exts))
        if ref[0]:
            self.stats.hit("probe.broken")
        if st["dead"]:
            if keep:
                h.ok("reset")
            self.crashed[oi] += 1
            return
        what = "run of %s (%s, %s) into a used directory" % (root, " ".join(opts), " ".join(exts))
        if rc == 0:
            if ref[0]:
                raise Violation("accepted", "accepted", "%s succeeded but fails in an empty one: %s" % (what, ref[1][-600:]))
            if fresh < len(ref[2]):
                self.stats.hit("probe.skipped")
                if self.crashed[oi]:
                    self.stats.hit("probe.after_crash")
            bad = sorted(f for f in ref[2] if after.get(f) != ref[2][f])
            other = "main.zs" if root == "alt.zs" else "alt.zs"      # kept from a run with another main schema?
            bad.sort(key=lambda f: after.get(f) in made.get((other, f), ()))
            mixed = bool(bad) and after.get(bad[0]) in made.get((other, bad[0]), ())
            if bad:
                kind = "missing" if bad[0] not in after else "torn" if ref[2][bad[0]].startswith(after[bad[0]]) else "stale"
                sig = "%s:%s" % (bad[0].split("/")[0], "another-root" if mixed else "fault" if st["hits"] else kind)
                raise Violation("output", sig, "%s reported success%s, but %d of %d files are not what an empty directory gets: %s is %s\n%s" % (
                    what, " although %s failed (%s)" % (st["last"], fault[0]) if st["hits"] else "", len(bad), len(ref[2]), bad[0], kind,
                    self.diff(ref[2][bad[0]], after.get(bad[0]))))
            if not st["hits"]:
                litter = sorted(f for f in after if f not in before and f not in ref[2])
                if litter:
                    raise Violation("litter", "litter", "%s left behind %s" % (what, litter[:5]))
        elif not st["hits"]:
            if not ref[0]:
                raise Violation("failed", "failed", "%s failed but succeeds in an empty one: %s" % (what, msg[-800:]))
            if "Internal error" in msg and "Internal error" not in ref[1]:
                raise Violation("internal", "internal", "%s: %s" % (what, msg[-800:]))

    @staticmethod
    def diff(want, got):
        if got is None:
            return "(missing)"
        w, g = want.decode("utf-8", "replace").split("\n"), got.decode("utf-8", "replace").split("\n")
        for i, (a, b) in enumerate(zip(w, g)):
            if a != b:
                return "line %d: %r instead of %r" % (i + 1, b[:150], a[:150])
        return "%d lines instead of %d" % (len(g), len(w))

    def end(self):
        """once faults stop, one run makes everything right"""
        self.clock = max(self.clock, self.last_out) + 1000
        for oi in range(self.cfg["outs"]):
            self.do_run(oi, "main.zs", self.cfg["opts"][0], self.cfg["exts"][0], None, False)

    @staticmethod
    def shrink(op):
        if op[0] == "run":
            if op[6]:
                yield op[:6] + [False]
            if len(op[4]) > 1:
                for e in op[4]:
                    yield op[:4] + [[x for x in op[4] if x != e]] + op[5:]
            if op[3]:
                yield op[:3] + [[]] + op[4:]
            if op[5]:
                yield op[:5] + [None] + op[6:]
