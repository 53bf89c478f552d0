"""Worlds (a schema built for every language) and nodes (worker processes driven in lockstep)."""
import glob
import os
import select
import shutil
import signal
import subprocess
import tempfile
import time

import build
import gluegen
import zs

HERE = os.path.dirname(os.path.abspath(__file__))
WORKERS = os.path.join(os.path.dirname(HERE), "workers")
SCHEMAS = os.path.join(os.path.dirname(HERE), "schemas")
ASAN = ["-std=c++17", "-O0", "-g0", "-fsanitize=address", "-fno-omit-frame-pointer"]


class HarnessError(Exception):
    """Something is wrong with the simulation itself (never a violation)."""


class NodeDied(Exception):
    def __init__(self, node, why):
        Exception.__init__(self, "%s node died: %s" % (node.lang, why))
        self.node, self.why = node, why


class NodeHung(Exception):
    def __init__(self, node):
        Exception.__init__(self, "%s node made no progress" % node.lang)
        self.node = node


class World:
    """A set of schema files compiled for all languages."""

    def __init__(self, name, sources, top, args=(), cpp_flags=None, extra_cpp=("extra_none.cpp",), ldflags=(), order=None,
                 pmr=False, glue_parts=6, extra_py=None, docs=False, mem=False, weave=False):
        self.name, self.sources, self.top, self.args = name, sources, top, tuple(args)
        self.cpp_flags = list(cpp_flags or ASAN)
        self.extra_cpp, self.ldflags = list(extra_cpp), list(ldflags)
        self.order = order or list(sources)
        self.pmr, self.glue_parts, self.extra_py, self.docs = pmr, glue_parts, extra_py, docs
        self.mem, self.weave = mem, weave
        if pmr:
            self.cpp_flags.append("-DGLUE_PMR")
        self.schema = zs.Schema()
        for n in self.order:
            self.schema.add_text(sources[n])
        self.schema.finish()
        self.gen = None
        self._java = self._cpp = None

    @staticmethod
    def from_files(name, files, args=(), **kw):
        src = {}
        for f in files:
            with open(os.path.join(SCHEMAS, f), encoding="utf-8") as h:
                src[f] = h.read()
        return World(name, src, files[-1], args, **kw)

    def generate(self):
        if self.gen is None:
            self.gen = build.generate(self.name, self.sources, self.args, self.top)
        return self.gen

    def schema_files(self):
        g = self.generate()
        return [os.path.join(g, "src", n) for n in self.order]

    def build_java(self):
        if self._java is None:
            g = self.generate()
            rt = build.java_runtime()
            glue = self._write("java", gluegen.java(self))
            cp = [rt] + ([build.SQLITE_JDBC] if os.path.exists(build.SQLITE_JDBC) else [])
            d = build.javac(self.name, [os.path.join(g, "java")], cp, glue +
                            sorted(glob.glob(os.path.join(WORKERS, "*.java"))))
            self._java = [build.weave(self.name, [d, rt])] + cp[1:] if self.weave else [d] + cp
        return self._java

    def build_cpp(self):
        if self._cpp is None:
            g = self.generate()
            glue = self._write("cpp", gluegen.cpp(self))
            gl = [p for p in glue if p.endswith(".cpp")]
            gdir = os.path.dirname(glue[0])
            units = build.group([f for f in build.files_under(os.path.join(g, "cpp"), exts=(".cpp",))], 14)
            units += [[p] for p in gl]
            units += build.group(sorted(glob.glob(build.CPP_RT + "/zserio/*.cpp")), 3)
            if self.pmr:
                units += [[f] for f in sorted(glob.glob(build.CPP_RT + "/zserio/pmr/*.cpp"))]
            units += [[os.path.join(WORKERS, "worker.cpp")]] + [[os.path.join(WORKERS, f)] for f in self.extra_cpp]
            self._cpp = build.cpp_binary("node_" + self.name, units,
                                         [build.CPP_RT, os.path.join(g, "cpp"), gdir, WORKERS],
                                         self.cpp_flags, self.ldflags)
        return self._cpp

    def build_pyc(self):
        return build.zserio_cpp_binding()

    def _write(self, lang, files):
        import hashlib
        key = hashlib.sha256(repr(sorted(files.items())).encode()).hexdigest()[:20]

        def make(tmp):
            for n, t in files.items():
                with open(os.path.join(tmp, n), "w") as f:
                    f.write(t)
        d = build.cached("glue_%s_%s" % (lang, self.name), key, make)
        return [os.path.join(d, n) for n in sorted(files)]

    def build_all(self, langs):
        for lang in langs:
            {"py": self.generate, "pyc": self.build_pyc, "java": self.build_java, "cpp": self.build_cpp}[lang]()


class Node:
    """One worker process.  cmd() sends a command and runs `handler` for every event raised meanwhile."""
    CPU_LIMIT = 40.0
    WALL_LIMIT = 400.0

    def __init__(self, world, lang, name=None, env=None, java_opts=(), prefix=(), preload=None, cwd=None):
        self.world, self.lang, self.name = world, lang, name or lang
        self.n_cmds = 0
        self.log = None
        self.dead = False
        e = {"PATH": os.environ.get("PATH", ""), "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "HOME": "/nonexistent",
             "PYTHONHASHSEED": os.environ.get("ZSIM_HASHSEED", "0"), "PYTHONDONTWRITEBYTECODE": "1"}
        self.errpath = tempfile.NamedTemporaryFile(prefix="zsim_err_", delete=False).name
        if lang in ("py", "pyc"):
            if world.extra_py:
                e["ZSIM_EXTRA"] = world.extra_py
            e["ZSERIO_PYTHON_IMPLEMENTATION"] = "cpp" if lang == "pyc" else "python"
            rt = build.PY_RT + (":" + world.build_pyc() if lang == "pyc" else "")
            cmd = [build.PYTHON, "-S", "-E"] if False else [build.PYTHON]
            cmd += [os.path.join(WORKERS, "pyworker.py"), HERE, os.path.join(world.generate(), "py"), rt]
            cmd += world.schema_files()
        elif lang == "java":
            cp = world.build_java()
            desc = self._desc()
            cmd = ["java", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "-Xmx700m", "-Xss4m", "-Xshare:auto",
                   "-XX:-UsePerfData"] + list(java_opts) + ["-cp", ":".join(cp), "Worker", desc]
        elif lang == "cpp":
            e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:handle_abort=1:abort_on_error=0:" \
                                "detect_stack_use_after_return=0:max_allocation_size_mb=512:exitcode=99"
            cmd = [world.build_cpp()]
        else:
            raise HarnessError("unknown language " + lang)
        e.update(env or {})
        if preload:
            e["LD_PRELOAD"] = preload
        self.err = open(self.errpath, "wb")
        self.p = subprocess.Popen(list(prefix) + cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=e, bufsize=0, start_new_session=True, cwd=cwd)
        self.buf = b""
        r = self._line()
        if r != "OK ready":
            raise HarnessError("worker %s did not start: %s %s" % (lang, r, self.stderr()))

    def _desc(self):
        p = self.world._write("desc", {"desc.txt": gluegen.descriptor(self.world.schema)})
        return p[0]

    def stderr(self):
        with open(self.errpath, "rb") as f:
            t = f.read().decode("utf-8", "replace")
        i = t.find("ERROR: AddressSanitizer")
        return t[i:] if i >= 0 else t[-3000:]

    def _cpu(self):
        try:
            with open("/proc/%d/stat" % self.p.pid) as f:
                v = f.read().rsplit(")", 1)[1].split()
            return (int(v[11]) + int(v[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError):
            return 0.0

    def _line(self):
        cpu0, t0 = None, time.time()
        fd = self.p.stdout.fileno()
        while True:
            i = self.buf.find(b"\n")
            if i >= 0:
                ln, self.buf = self.buf[:i], self.buf[i + 1:]
                return ln.decode("ascii", "replace")
            r, _, _ = select.select([fd], [], [], 2.0)
            if not r:
                c = self._cpu()
                cpu0 = c if cpu0 is None else cpu0
                if c - cpu0 > self.CPU_LIMIT:
                    self.kill()
                    raise NodeHung(self)
                if time.time() - t0 > self.WALL_LIMIT:
                    self.kill()
                    raise HarnessError("no answer from %s node" % self.lang)
                continue
            d = os.read(fd, 1 << 16)
            if not d:
                self.dead = True
                self.p.wait()
                raise NodeDied(self, "exit %s: %s" % (self.p.returncode, self.stderr()[:3000]))
            self.buf += d

    def _send(self, line):
        try:
            data = line.encode("ascii") + b"\n"
            fd = self.p.stdin.fileno()
            while data:
                n = os.write(fd, data)
                data = data[n:]
        except (BrokenPipeError, OSError):
            self.dead = True
            self.p.wait()
            raise NodeDied(self, "exit %s: %s" % (self.p.returncode, self.stderr()[:3000]))

    def start(self, line):
        """sends a command without waiting for its outcome"""
        self.n_cmds += 1
        if self.log:
            self.log(">" + line)
        self._send(line)

    def answer(self, ans):
        """answers the innermost open event"""
        if self.log:
            self.log("<" + ans)
        self._send("RET " + ans)

    def recv(self):
        """-> ('ev', words) | ('ok', text) | ('err', text)"""
        r = self._line()
        if self.log:
            self.log(r)
        if r.startswith("EV "):
            return "ev", r[3:].split(" ")
        if r.startswith("OK"):
            return "ok", r[3:]
        if r.startswith("ERR "):
            if " harness: " in r:
                raise HarnessError("%s: %s" % (self.lang, r))
            return "err", r[4:]
        raise HarnessError("bad reply from %s: %r" % (self.lang, r[:300]))

    def cmd(self, line, handler=None):
        """-> (ok, text)"""
        self.start(line)
        while True:
            k, r = self.recv()
            if k == "ev":
                self.answer(handler(self, r) if handler else "ok")
            else:
                return k == "ok", r

    def ok(self, line, handler=None):
        k, r = self.cmd(line, handler)
        if not k:
            raise HarnessError("%s: %s -> %s" % (self.lang, line[:300], r))
        return r

    def kill(self):
        self.dead = True
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:  # noqa
            self.kill()
        self.p.stdout.close()
        self.err.close()
        try:
            os.unlink(self.errpath)
        except OSError:
            pass
