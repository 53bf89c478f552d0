"""C10: the compiler in many environments, repeated and concurrent: its output depends on sources and options only."""
import collections
import os
import random
import shutil

import chost
import disk
from scen import project
from sim import Scenario, Violation

EXTS = ("python", "java", "cpp", "doc", "xml")
LOCALES = ("tr-TR", "az-AZ", "lt-LT", "ar-EG", "fa-IR", "th-TH", "my-MM", "de-DE", "ja-JP", "hi-IN", "mr-IN", "sv-SE", "en-US")
ZONES = ("UTC", "Asia/Kathmandu", "America/St_Johns", "Pacific/Apia", "Europe/Istanbul", "Africa/Monrovia", "EST5EDT,M3.2.0,M11.1.0")
CHARSETS = ("UTF-8", "UTF-8", "ISO-8859-1", "US-ASCII", "windows-1254", "Shift_JIS")
GCS = ("-XX:+UseSerialGC", "-XX:+UseParallelGC", "-XX:+UseG1GC")
MAX_HOSTS = 4
T0 = 1200000000
JUNK = ("README", "main/notes.txt", "java/pkg/zoo/Unrelated.java", "python/other/api.py", "python/pkg/zz.py", "cpp/old.cpp",
        "doc/content/pkg.zoo.txt", "xml/old.xml", "pkg/types/x.h", "cpp/pkg/deep/item/notes", "java/main/.hidden")


def profile(k):
    """environment number k"""
    r = random.Random("profile%d" % k)
    utf8 = r.random() < 0.6
    env = {"LANG": "C.UTF-8" if utf8 else r.choice(["C", "POSIX"]), "TZ": r.choice(ZONES),
           "HOME": r.choice(["/", "/nonexistent", "/tmp"]), "USER": r.choice(["root", "\u0131van" if utf8 else "ivan"]),
           "COLUMNS": str(r.randint(10, 200))}
    env["LC_ALL"] = env["LANG"]
    for i in range(r.randint(0, 30)):
        env["X%d_%d" % (i, r.randrange(99))] = "y" * r.randrange(200)
    lang, country = r.choice(LOCALES).split("-")
    hc = k % 6
    opts = ["-Duser.language=" + lang, "-Duser.country=" + country, "-Dfile.encoding=" + r.choice(CHARSETS),
            "-XX:+UnlockExperimentalVMOptions", "-XX:hashCode=%d" % hc]
    if r.random() < 0.5:
        opts.append("-Duser.timezone=" + r.choice(ZONES[:-1]))
    opts.append(r.choice(["-Xms64m", "-Xmn32m", "-XX:-UseCompressedOops", "-XX:+UseStringDeduplication", "-Xss4m", "-Xms500m"]
                         if k % 8 else ["-Xms64m"]))
    return {"env": env, "opts": opts, "gc": r.choice(GCS), "jars": r.randrange(1000), "utf8": utf8,
            "sub": r.choice(["", "a", "deep/er/and/deep er", "x" * 100, "python/pkg"])}


def diagnostics(msg, src):
    """(what the compiler says about the sources, in order; what the extensions say about them, sorted)"""
    core, rest, ext = [], [], False
    for line in msg.splitlines():
        line = line.strip().replace(src + os.sep, "").replace("\\", "/")
        ext = ext or line.startswith("Calling ")
        if line.startswith(("[WARNING] ", "[ERROR] ", "Parsing ")) and not line.endswith("[timestamp]"):
            (rest if ext else core).append("".join(c if " " < c < "\x7f" else "?" for c in line))
    return core, sorted(rest)


class C10(Scenario):
    PROP = "C10"
    MAX_OPS = 30
    SESSION = 30
    RULE = ("one state per (operation, environment, class loader reuse, extensions, exit status, output location) and per distinct order "
            "in which the threads of concurrent runs were scheduled; a simulated run is a history of source edits and compiler runs in "
            "different environments, alone or two to three at a time")
    REAL = ["the zserio compiler with all five extensions in JVMs with the simulated environments"]
    STUBS = ["environment variables, locale, time zone, default charset, identity hash mode, heap and GC, wall clock, directory listing "
             "order, thread schedule of concurrent runs (baton at every file operation), file time stamps"]
    ASSUMPTIONS = ["the file system stores what is written (faults belong to C09)", "the random salt of java.util.Set.of/Map.of is varied "
                   "by starting new JVMs but not chosen by the seed"]
    EXPECT = ("probe.repeated", "probe.many_diagnostics", "probe.concurrent", "probe.preempted", "fault.clock_jump", "fault.listing_order", "probe.junk", "probe.failing")

    @classmethod
    def prepare(cls):
        chost.host_classes()
        disk.shim()
        chost.build.compiler()

    @classmethod
    def config(cls, rng, tier):
        n = 12 if tier == "quick" else 60
        return {"ops": rng.randint(4, 9), "profiles": [rng.randrange(n) for _ in range(rng.choice([1, 2, 2]))],
                "init": [{f: [rng.randrange(n) for n in project.FEATURES[f]] for f in project.FILES} for _ in range(2)],
                "opts": [sorted(rng.sample(project.OPTIONS, rng.choice([0, 0, 1, 1, 2]))) for _ in range(2)]}

    # ------------------------------------------------------------------ nodes
    def env_host(self, k):
        live = [x for x in self.pool.nodes if isinstance(x, tuple) and x[0] == "env"]
        key = ("env", k)
        if key not in live and len(live) >= MAX_HOSTS:
            self.pool.drop([x for x in live if x[1] not in self.cfg["profiles"]][0])
        p = profile(k)
        h = self.pool.host(key, lambda: chost.Host(env=p["env"], java_opts=p["opts"], gc=p["gc"], jar_order=p["jars"], subdir=p["sub"]))
        h.prof = p
        return h

    def begin(self, cfg):
        self.cfg = cfg
        self.base = self.pool.host("compiler", chost.Host)
        self.root = os.path.join(self.base.dir, "w")
        self.n = 0
        self.refs = {}
        self.used = set()
        self.version, self.broken = [{}, {}], [{}, {}]
        shutil.rmtree(self.root, ignore_errors=True)
        for t in range(2):
            for f in project.FILES:
                self.write(t, f, cfg["init"][t].get(f) or [0] * len(project.FEATURES[f]), 0)
            for f, s in (("pkg/notes.md", project.NOTES), ("pkg/deep/notes.md", project.NOTES2)):
                with open(os.path.join(self.src(t), f), "w") as o:
                    o.write(s)
        for k in cfg["profiles"]:
            self.fresh_area(self.env_host(k))

    def fresh_area(self, h):
        h.area = os.path.join(h.cwd, "w")
        shutil.rmtree(h.area, ignore_errors=True)
        os.makedirs(h.area)

    def src(self, t):
        return os.path.join(self.root, "src%d" % t)

    def write(self, t, f, v, broken):
        p = os.path.join(self.src(t), f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as o:
            o.write(project.text(f, v, broken))
        os.utime(p, (T0, T0))
        self.version[t][f], self.broken[t][f] = tuple(v), broken

    def cleanup(self):
        shutil.rmtree(self.root, ignore_errors=True)
        for k in self.cfg["profiles"]:
            h = self.pool.nodes.get(("env", k))
            if h is not None and hasattr(h, "area"):
                shutil.rmtree(h.area, ignore_errors=True)

    # ------------------------------------------------------------------ generation
    def spec(self, rng):
        return [rng.randrange(2), "alt.zs" if rng.random() < 0.15 else "main.zs", self.cfg["opts"][rng.randrange(2)],
                sorted(rng.sample(EXTS, rng.choice([1, 2, 2, 3, 5])))]

    def gen(self, rng):
        r = rng.random()
        k = rng.choice(self.cfg["profiles"])
        if r < 0.25:
            t, name = rng.randrange(2), rng.choice(project.FILES)
            v = list(self.version[t][name])
            i = rng.randrange(len(v))
            v[i] = rng.randrange(project.FEATURES[name][i])
            return ["edit", t, name, v, rng.choice([1, 2]) if rng.random() < 0.08 else 0]
        clock = rng.choice([0, 0, -T0, 10**9, rng.randrange(-10**9, 2 * 10**9), -1790000000])
        scramble = rng.randrange(1, 1000) if rng.random() < 0.6 else 0
        if r < 0.7:
            return ["run", k, "K" if rng.random() < 0.75 else "F", self.spec(rng), rng.randrange(6), rng.randrange(3), clock, scramble,
                    [rng.randrange(len(JUNK)) for _ in range(rng.choice([0, 0, 3]))], rng.randrange(4)]
        return ["pair", k, "K" if rng.random() < 0.92 else "F", [self.spec(rng) for _ in range(rng.choice([2, 2, 3]))],
                rng.getrandbits(31), clock, scramble]

    # ------------------------------------------------------------------ execution
    def apply(self, op):
        self.stats.hit("op." + op[0])
        getattr(self, "do_" + op[0])(*op[1:])

    def do_edit(self, t, f, v, broken):
        self.write(t, f, v, broken)

    def args(self, src, out, root, opts, exts):
        a = ["-src", src] + list(opts)
        for e in exts:
            a += ["-" + e, os.path.join(out, e)]
        return a + [root]

    def reference(self, spec):
        t, root, opts, exts = spec
        key = repr((sorted(self.version[t].items()), sorted(self.broken[t].items()), root, opts, exts))
        if key not in self.refs:
            d = os.path.join(self.root, "ref")
            shutil.rmtree(d, ignore_errors=True)
            self.base.disk.arm(scramble=999983)
            self.base.disk.disarm()
            rc, msg = self.base.compile(self.args(self.src(t), d, root, opts, exts), "R")
            self.refs[key] = (rc, msg, chost.tree(d))
            shutil.rmtree(d, ignore_errors=True)
        return self.refs[key]

    def outdir(self, h, shape):
        self.n += 1
        names = ["out", "o u t", "a/b/c/d/e", "out.dir/x", "\u00fc\u0131" if h.prof["utf8"] else "o", "y" * 80]
        return "%s%d" % (names[shape], self.n)

    def place(self, h, t, shape, times):
        """where the compiler finds the sources -> its -src argument"""
        if shape == 0:
            src, real = self.src(t), self.src(t)
        else:
            name = "s%d" % self.n if shape == 1 else "some where%d/src" % self.n
            real = os.path.join(h.area, name)
            shutil.copytree(self.src(t), real)
            src = os.path.join("w", name) if shape == 1 else real
        if times:
            for d, _, fs in os.walk(real):
                for f in fs:
                    os.utime(os.path.join(d, f), ((0 if times == 1 else T0 + times * 10**8),) * 2)
        return src, real

    def check(self, what, out, spec, rc, msg, ref, junk, src=None):
        if bool(rc) != bool(ref[0]):
            raise Violation("status", "status", "%s: exit status %d, in the reference environment %d\n%s" % (what, rc, ref[0], (msg if rc else ref[1])[-800:]))
        if src is not None:
            said, want = diagnostics(msg, src), diagnostics(ref[1], self.src(spec[0]))
            if said != want:
                raise Violation("diagnostics", "diagnostics", "%s says\n%s\nbut in the reference environment\n%s" % (
                    what, "\n".join(said[0] + said[1])[:1500], "\n".join(want[0] + want[1])[:1500]))
            if len(want[0]) > 12:
                self.stats.hit("probe.many_diagnostics")
        got = chost.tree(out)
        for f, b in junk.items():
            if got.pop(f, None) != b:
                raise Violation("junk", f.split("/")[0], "%s changed the unrelated file %s" % (what, f))
        if rc:
            return
        bad = sorted(f for f in set(got) | set(ref[2]) if got.get(f) != ref[2].get(f))
        if bad:
            f = bad[0]
            if f not in ref[2]:
                d = "an additional file"
            else:
                d = project_diff(ref[2][f], got.get(f))
            raise Violation("output", f.split("/")[0], "%s: %d of %d files differ from the reference environment: %s: %s" % (
                what, len(bad), len(ref[2]), f, d))

    def untouched(self, what, h, before, outs):
        """nothing but the output directories was written to"""
        now = self.around(h)
        for o in outs:
            o = os.path.relpath(o, h.dir) + os.sep
            now = {f: v for f, v in now.items() if not f.startswith(o)}
            before = {f: v for f, v in before.items() if not f.startswith(o)}
        d = sorted(f for f in set(now) | set(before) if now.get(f) != before.get(f))
        if d:
            raise Violation("outside", "outside", "%s changed files outside its output directory: %s" % (what, d[:5]))

    @staticmethod
    def around(h):
        out = {}
        for d, ds, fs in os.walk(h.dir):
            for f in fs:
                if f != "stderr":
                    s = os.stat(os.path.join(d, f))
                    out[os.path.relpath(os.path.join(d, f), h.dir)] = (s.st_size, s.st_mtime_ns)
        return out

    def do_run(self, k, mode, spec, oshape, sshape, clock, scramble, junk, times):
        t, root, opts, exts = spec
        ref = self.reference(spec)
        h = self.env_host(k)
        out = self.outdir(h, oshape)
        src, real = self.place(h, t, sshape, times)
        full = os.path.join(h.area, out)
        junked = {}
        for j in junk:
            p = os.path.join(full, JUNK[j])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as o:
                o.write("unrelated %d\n" % j)
            os.utime(p, (T0, T0))
            junked[JUNK[j]] = b"unrelated %d\n" % j
        if junk:
            self.stats.hit("probe.junk")
        if mode == "K" and k in self.used:
            self.stats.hit("probe.repeated")
        self.used.add(k)
        before = self.around(h)
        srcs = chost.tree(real)
        h.disk.prefix = h.area
        h.disk.clock = clock
        if clock:
            self.stats.hit("fault.clock_jump")
        if scramble:
            self.stats.hit("fault.listing_order")
        h.disk.arm(scramble=scramble)
        rc, msg = h.compile(self.args(src, os.path.join("w", out) if sshape == 1 else full, root, opts, exts), mode)
        h.disk.clock = 0
        h.disk.disarm()
        self.stats.state("run", k, mode, rc, ref[0], tuple(exts), oshape, sshape, bool(junk), times)
        if ref[0]:
            self.stats.hit("probe.failing")
        what = "run of %s (%s; %s) in environment %d (%s, %s), %s" % (root, " ".join(opts), " ".join(exts), k, " ".join(h.prof["opts"]), h.prof["env"]["LANG"],
                                                                  "fresh program" if mode == "F" else "library call")
        if "Internal error" in msg and "Internal error" not in ref[1]:
            raise Violation("internal", "internal", "%s: %s" % (what, msg[-800:]))
        self.check(what, full, spec, rc, msg, ref, junked, src)
        self.untouched(what, h, before, [full])
        if chost.tree(real) != srcs:
            raise Violation("outside", "sources", "%s changed its sources" % what)

    def do_pair(self, k, mode, specs, seed, clock, scramble):
        refs = [self.reference(s) for s in specs]
        h = self.env_host(k)
        outs, argss = [], []
        for s in specs:
            o = os.path.join(h.area, self.outdir(h, 0))
            outs.append(o)
            argss.append(self.args(self.src(s[0]), o, s[1], s[2], s[3]))
        open(os.path.join(h.area, ".zc_begin"), "w").close()
        open(os.path.join(h.area, ".zc_end"), "w").close()
        before = self.around(h)
        h.disk.prefix = h.area
        h.disk.clock = clock
        h.disk.arm(sched=len(specs), sched_seed=seed, scramble=scramble)
        rcs, msg = h.pair(argss, h.area, mode)
        h.disk.clock = 0
        st = h.disk.disarm()
        if not st["sched"]:
            raise chost.cluster.HarnessError("scheduled threads got stuck")
        self.stats.hit("probe.concurrent")
        self.stats.hit("preemptions", st["switches"])
        if st["switches"] > 3:
            self.stats.hit("probe.preempted")
        self.stats.state("pair", st["order"])
        what = "%d concurrent runs in environment %d (%s, %s)" % (len(specs), k, "one class loader" if mode == "K" else "own class loaders", specs)
        for s, o, rc, ref in zip(specs, outs, rcs, refs):
            if rc == 70:
                raise Violation("internal", "concurrent", "%s: died: %s" % (what, msg[-1200:]))
            self.check(what, o, s, rc, msg, ref, {})
        self.untouched(what, h, before, outs)

    @staticmethod
    def shrink(op):
        if op[0] == "run":
            yield op[:2] + ["F"] + op[3:]
            for i in (4, 5, 6, 7, 9):
                if op[i]:
                    yield op[:i] + [0] + op[i + 1:]
            if op[8]:
                yield op[:8] + [[]] + op[9:]
            t, root, opts, exts = op[3]
            if len(exts) > 1:
                for e in exts:
                    yield op[:3] + [[t, root, opts, [e]]] + op[4:]
            if opts:
                yield op[:3] + [[t, root, [], exts]] + op[4:]
        if op[0] == "pair":
            if len(op[3]) > 2:
                for i in range(len(op[3])):
                    yield op[:3] + [op[3][:i] + op[3][i + 1:]] + op[4:]
            for i, (t, root, opts, exts) in enumerate(op[3]):
                if len(exts) > 1:
                    for e in exts:
                        yield op[:3] + [op[3][:i] + [[t, root, opts, [e]]] + op[3][i + 1:]] + op[4:]


def project_diff(want, got):
    from scen.c09 import C09
    return C09.diff(want, got)
