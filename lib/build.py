"""Builds everything the simulations run from /repo's current working tree.

All artefacts live under /verif/.cache in directories named after the content hash of their inputs, so that a change
anywhere in the tree is always picked up and unchanged parts are never rebuilt.  Nothing is taken from /repo/build.
C++ objects are keyed by their preprocessed text (comments removed), so edits of comments do not recompile the world.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZSERIO_REPO", "/repo")
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
JAR3 = os.path.join(REPO, "3rdparty/java")
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
SQLITE_JDBC = ("/opt/veriftools/tlapm/lib/tlapm/backends/Isabelle/contrib/sqlite-3.48.0.0/lib/"
               "sqlite-jdbc-3.48.0.0.jar")
EXTS = ("cpp", "doc", "java", "python", "xml")
CXX = "clang++"
JOBS = max(2, os.cpu_count() or 2)
CPP_RT = os.path.join(REPO, "compiler/extensions/cpp/runtime/src")
PY_RT = os.path.join(REPO, "compiler/extensions/python/runtime/src")
JAVA_RT = os.path.join(REPO, "compiler/extensions/java/runtime/src")


class BuildError(Exception):
    """The tree does not build (an error of the check or of the tree, never a violation)."""


class SchemaRejected(BuildError):
    """the compiler does not accept a schema which is valid, or what it generates is not usable"""


def _env():
    e = dict(os.environ)
    e.update(LANG="C.UTF-8", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1")
    for k in ("CLASSPATH", "JAVA_TOOL_OPTIONS", "_JAVA_OPTIONS", "LD_PRELOAD"):
        e.pop(k, None)
    return e


def run(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env or _env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, stdin=subprocess.DEVNULL)
    if p.returncode:
        out = p.stdout.decode("utf-8", "replace")
        if "zserio.tools.ZserioTool" in cmd and p.returncode == 1 and "[ERROR]" in out:
            raise SchemaRejected("the compiler rejects a valid schema: " + " | ".join(x for x in out.split("\n") if "[ERROR]" in x)[:900])
        if p.returncode == 1 and any("/gen_" in c or "/glue_" in c for c in cmd) and " error: " in out and "Killed" not in out:
            raise SchemaRejected("generated code does not compile or has not the documented interface: " + " | ".join(
                x for x in out.split("\n") if " error: " in x)[:900])
        raise BuildError("%s failed (%d):\n%s" % (" ".join(cmd)[:300], p.returncode,
                                                  p.stdout.decode("utf-8", "replace")[-6000:]))
    return p.stdout.decode("utf-8", "replace")


def files_under(*roots, exts=None):
    out = []
    for r in roots:
        if os.path.isfile(r):
            out.append(r)
            continue
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            for f in sorted(fs):
                if f.endswith(".pyc") or (exts and not f.endswith(exts)):
                    continue
                out.append(os.path.join(d, f))
    return out


def hash_files(paths, *extra):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    for x in extra:
        h.update(repr(x).encode() + b"\1")
    return h.hexdigest()[:24]


class Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.path = os.path.join(CACHE, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def cached(kind, key, make):
    """Directory CACHE/kind-key, made by make(tmpdir) when it does not exist yet."""
    d = os.path.join(CACHE, "%s-%s" % (kind, key))
    if os.path.exists(os.path.join(d, ".done")):
        os.utime(os.path.join(d, ".done"))
        return d
    with Lock(kind):
        if os.path.exists(os.path.join(d, ".done")):
            return d
        tmp = d + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        try:
            make(tmp)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
        open(os.path.join(tmp, ".done"), "w").close()
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
        prune(kind)
    return d


def prune(kind, keep=6):
    ds = [d for d in glob.glob(os.path.join(CACHE, kind + "-*")) if os.path.exists(os.path.join(d, ".done"))]
    ds.sort(key=lambda d: os.path.getmtime(os.path.join(d, ".done")), reverse=True)
    for d in ds[keep:]:
        if time.time() - os.path.getmtime(os.path.join(d, ".done")) > 3600:
            shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------------------------------ schema compiler
def jars3():
    return sorted(glob.glob(os.path.join(JAR3, "*.jar")))


def compiler():
    """Returns the class path of the zserio compiler built from the working tree."""
    core = os.path.join(REPO, "compiler/core")
    ext = os.path.join(REPO, "compiler/extensions")
    roots = [os.path.join(core, "src"), os.path.join(core, "antlr")]
    for e in EXTS:
        roots += [os.path.join(ext, e, x) for x in ("src", "freemarker", "metainf")]
    roots.append(os.path.join(ext, "doc", "runtime"))
    ins = files_under(*roots)
    key = hash_files(ins, jars3(), 1)

    def make(tmp):
        gen = os.path.join(tmp, "gen")
        ant = os.path.join(gen, "zserio", "antlr")
        os.makedirs(ant)
        tool = ["java", "-Xshare:auto", "-XX:TieredStopAtLevel=1", "-cp", ":".join(jars3()), "org.antlr.v4.Tool",
                "-package", "zserio.antlr", "-no-listener", "-visitor", "-o", ant]
        adir = os.path.join(core, "antlr")
        lexers = sorted(f for f in os.listdir(adir) if f.endswith(".g4") and "Parser" not in f)
        run(tool + lexers, cwd=adir)
        run(tool + ["-lib", ant] + sorted(f for f in os.listdir(adir) if f.endswith("Parser.g4")), cwd=adir)
        classes = os.path.join(tmp, "classes")
        os.makedirs(classes)
        srcs = files_under(os.path.join(core, "src"), gen, *[os.path.join(ext, e, "src") for e in EXTS],
                           exts=(".java",))
        srcs = [s for s in srcs if not s.endswith("package-info.java")]
        lst = os.path.join(tmp, "srcs.txt")
        with open(lst, "w") as f:
            f.write("\n".join(srcs))
        # ant's own classes are only needed by the ant task
        run(["javac", "-nowarn", "-proc:none", "-encoding", "UTF-8", "-d", classes, "-cp", ":".join(jars3()),
             "@" + lst])
        os.makedirs(os.path.join(classes, "META-INF", "services"))
        services = []
        for e in EXTS:
            sdir = os.path.join(ext, e, "metainf", "services")
            for s in sorted(os.listdir(sdir)):
                with open(os.path.join(sdir, s)) as f:
                    services.append(f.read().strip())
            fdir = os.path.join(ext, e, "freemarker")
            if os.path.isdir(fdir):
                shutil.copytree(fdir, os.path.join(classes, "freemarker", e))
        with open(os.path.join(classes, "META-INF", "services", "zserio.tools.Extension"), "w") as f:
            f.write("\n".join(services) + "\n")
        shutil.copytree(os.path.join(ext, "doc", "runtime"), os.path.join(classes, "zserio/extension/doc/runtime"))
        # a jar, as users have it: the compiler looks at the jar's own time stamp
        run(["jar", "cf", os.path.join(tmp, "zserio.jar"), "-C", classes, "."])
        shutil.rmtree(gen)
        shutil.rmtree(classes)
        os.utime(os.path.join(tmp, "zserio.jar"), (1000000000, 1000000000))

    d = cached("compiler", key, make)
    return ":".join([os.path.join(d, "zserio.jar")] + jars3())


def generate(name, sources, args=(), top=None):
    """Runs the compiler on schema `sources` ({filename: text}), top being the file to compile.  Returns a directory
    with py/ java/ cpp/ (those asked for in `langs`) holding the generated code."""
    cp = compiler()
    key = hashlib.sha256(repr((cp, sorted(sources.items()), tuple(args), top)).encode()).hexdigest()[:24]

    def make(tmp):
        src = os.path.join(tmp, "src")
        for n, t in sources.items():
            p = os.path.join(src, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8") as f:
                f.write(t)
        cmd = ["java", "-XX:TieredStopAtLevel=1", "-cp", cp, "zserio.tools.ZserioTool", "-allowImplicitArrays",
               "-withoutSourcesAmalgamation", "-src", src]
        for lang, opt in (("py", "-python"), ("java", "-java"), ("cpp", "-cpp")):
            cmd += [opt, os.path.join(tmp, lang)]
        run(cmd + list(args) + [top], cwd=tmp)

    return cached("gen_" + name, key, make)


# ------------------------------------------------------------------------------------------------ C++
def _compile_unit(job):
    text, flags, incs, out, _ = job
    if os.path.exists(out):
        return
    src = out[:-2] + ".%d.cpp" % os.getpid()
    with open(src, "wb") as f:
        f.write(text)
    tmp = out + ".tmp%d" % os.getpid()
    try:
        run([CXX, "-w"] + flags + incs + ["-c", src, "-o", tmp])
        os.rename(tmp, out)
    finally:
        for x in (src, tmp):
            if os.path.exists(x):
                os.unlink(x)


def cpp_objects(units, incs, flags):
    """units: list of lists of .cpp paths (each list is compiled as one translation unit). Returns object paths."""
    objdir = os.path.join(CACHE, "obj")
    os.makedirs(objdir, exist_ok=True)
    inc = sum((["-I", i] for i in incs), [])

    def pre(unit):
        text = "".join('#include "%s"\n' % u for u in unit)
        p = subprocess.run([CXX, "-w", "-E", "-P", "-x", "c++"] + flags + inc + ["-"], input=text.encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=_env())
        if p.returncode:
            raise BuildError("preprocessing failed:\n" + p.stderr.decode("utf-8", "replace")[-4000:])
        return p.stdout, text.encode()

    with cf.ThreadPoolExecutor(JOBS) as ex:
        texts = list(ex.map(pre, units))
        objs, jobs = [], []
        for t, unit_text in texts:
            k = hashlib.sha256(t + repr(flags).encode()).hexdigest()[:32]
            o = os.path.join(objdir, k + ".o")
            objs.append(o)
            if not os.path.exists(o):
                jobs.append((unit_text, flags, inc, o, len(t)))
            else:
                os.utime(o)
        jobs.sort(key=lambda j: -j[4])
        list(ex.map(_compile_unit, jobs))
    prune_objs(objdir)
    return objs


def prune_objs(objdir, limit=1500 << 20):
    fs = [(os.path.getmtime(p), os.path.getsize(p), p) for p in glob.glob(objdir + "/*.o")]
    total = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if total < limit or time.time() - m < 1800:
            break
        os.unlink(p)
        total -= s


def group(files, n):
    files = sorted(files, key=lambda f: (-os.path.getsize(f), f))
    g = [[] for _ in range(max(1, min(n, len(files))))]
    size = [0] * len(g)
    for f in files:
        i = size.index(min(size))
        g[i].append(f)
        size[i] += os.path.getsize(f) + 15000
    return g


def cpp_binary(name, units, incs, flags, ldflags=(), shared=False):
    objs = cpp_objects(units, incs, flags)
    key = hashlib.sha256(repr((objs, ldflags, shared, 1)).encode()).hexdigest()[:24]

    def make(tmp):
        run([CXX] + [f for f in flags if f.startswith("-fsan") and f != "-fsanitize=thread"] + (["-shared"] if shared else []) +
            ["-o", os.path.join(tmp, name)] + objs + list(ldflags))

    return os.path.join(cached("bin_" + name.replace(".", "_"), key, make), name)


def zserio_cpp_binding():
    """The optimised C++ implementation of the Python runtime; returns the directory to put on PYTHONPATH."""
    src = os.path.join(PY_RT, "zserio_cpp")
    inc = run([PYTHON, "-c", "import pybind11,sysconfig;print(pybind11.get_include());"
                             "print(sysconfig.get_paths()['include'])"]).split()
    suffix = run([PYTHON, "-c", "import sysconfig;print(sysconfig.get_config_var('EXT_SUFFIX'))"]).strip()
    units = [[f] for f in sorted(glob.glob(src + "/*.cpp"))]
    units += group(sorted(glob.glob(CPP_RT + "/zserio/*.cpp")), 4)
    so = cpp_binary("zserio_cpp" + suffix, units, [CPP_RT, src] + inc,
                    ["-std=c++14", "-O1", "-fPIC", "-fvisibility=hidden"], (), True)
    return os.path.dirname(so)


# ------------------------------------------------------------------------------------------------ Java
def javac(name, srcdirs, cp=(), extra_files=(), opts=(), hashed=()):
    srcs = files_under(*srcdirs, exts=(".java",)) + list(extra_files)
    key = hash_files(srcs, tuple(cp), tuple(opts))

    def make(tmp):
        lst = os.path.join(tmp, "srcs.txt")
        with open(lst, "w") as f:
            f.write("\n".join(srcs))
        run(["javac", "-nowarn", "-proc:none", "-encoding", "UTF-8", "-g:lines,vars", "-d", tmp] + list(opts) +
            (["-cp", ":".join(cp)] if cp else []) + ["@" + lst])

    return cached("javac_" + name, key, make)


def weave(name, dirs):
    """one directory with the classes of all dirs, points of the simulated schedule woven in (workers/weave)"""
    asm = ["--add-exports", "java.base/jdk.internal.org.objectweb.asm=ALL-UNNAMED"]
    src = os.path.join(VERIF, "workers", "weave", "Weaver.java")
    tool = javac("weave", [], (), [src], asm)
    key = hashlib.sha256(repr((tool, list(dirs))).encode()).hexdigest()[:24]
    return cached("woven_" + name, key, lambda tmp: run(["java"] + asm + ["-cp", tool, "Weaver", tmp] + list(dirs)))


def java_runtime():
    return javac("runtime", [JAVA_RT], [SQLITE_JDBC] if os.path.exists(SQLITE_JDBC) else [])
