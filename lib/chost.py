"""Compiler nodes: JVMs which run the schema compiler as a fresh program again and again on a simulated disk."""
import os
import random
import shutil
import subprocess
import tempfile

import build
import cluster
import disk


def host_classes():
    return build.javac("chost", [os.path.join(build.VERIF, "workers", "chost")], (), (), ("-XDignore.symbol.file",))


class Host(cluster.Node):
    def __init__(self, env=None, java_opts=(), scratch=None, use_disk=True, jar_order=None, subdir="", gc="-XX:+UseSerialGC"):
        self.lang, self.name, self.world = "compiler", "compiler", None
        self.n_cmds, self.log, self.dead, self.buf = 0, None, False, b""
        self.dir = tempfile.mkdtemp(prefix="zsim_c_", dir=scratch)
        jars = []
        for j in build.compiler().split(":"):
            d = os.path.join(self.dir, "jars", os.path.basename(j))
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copyfile(j, d)
            os.utime(d, (1000000000, 1000000000))
            jars.append(d)
        os.utime(os.path.dirname(jars[0]), (1000000000, 1000000000))
        self.jars = jars
        if jar_order is not None:
            jars = random.Random(jar_order).sample(jars, len(jars))
        self.cwd = os.path.join(self.dir, subdir)
        os.makedirs(self.cwd, exist_ok=True)
        self.disk = disk.Disk() if use_disk else None
        self.errpath = os.path.join(self.dir, "stderr")
        e = {"PATH": os.environ.get("PATH", ""), "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "HOME": "/nonexistent"}
        if self.disk:
            e.update(self.disk.env())
        e.update(env or {})
        self.err = open(self.errpath, "wb")
        cmd = ["java", "-XX:TieredStopAtLevel=1", gc, "-Xmx900m", "-Xss8m", "-XX:-UsePerfData", "-Xshare:auto",
               "-Djava.security.manager=allow", "-Dchost.jars=" + ":".join(jars)] + list(java_opts) + ["-cp", host_classes(), "CompilerHost"]
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=e, bufsize=0,
                                  start_new_session=True, cwd=self.cwd)
        r = self._line()
        if r != "OK ready":
            raise cluster.HarnessError("compiler host did not start: %s %s" % (r, self.stderr()))

    def compile(self, args, mode="F"):
        """-> (exit status, messages)"""
        h = "\0".join(args).encode("utf-8").hex()
        ok, r = self.cmd("run %s %s" % (mode, h))
        if not ok:
            raise cluster.HarnessError("compiler host: " + r)
        w = r.split(" ")
        return int(w[0]), bytes.fromhex(w[1] if len(w) > 1 else "").decode("utf-8", "replace")

    def pair(self, argss, directory, mode="K"):
        """concurrent runs -> ([exit status], messages); the disk must be armed with sched"""
        hx = [("\0".join(a) if a else "").encode("utf-8").hex() for a in [[directory]] + argss]
        ok, r = self.cmd("pair %s %s" % (mode, " ".join(hx)))
        if not ok:
            raise cluster.HarnessError("compiler host: " + r)
        w = r.split(" ")
        return [int(x) for x in w[0].split(",")], bytes.fromhex(w[1] if len(w) > 1 else "").decode("utf-8", "replace")

    def close(self):
        cluster.Node.close(self)
        if self.disk:
            self.disk.close()
        shutil.rmtree(self.dir, ignore_errors=True)


def tree(root):
    """{relative path: bytes} of a directory"""
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, root)] = h.read()
    return out
