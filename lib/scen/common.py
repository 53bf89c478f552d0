"""Shared parts of the cluster scenarios."""
import sys

import cluster
import gluegen
import zs
from sim import Scenario, Violation

sys.setrecursionlimit(20000)
LANGS = ("cpp", "java", "py", "pyc")
_worlds = {}


def world(name, *a, **kw):
    if name not in _worlds:
        _worlds[name] = cluster.World.from_files(name, *a, **kw)
    return _worlds[name]


def net_world():
    return world("net", ["rich.zs", "net.zs"])


def sql_world():
    return world("tables", ["tables.zs"], ["-withValidationCode"], ldflags=["-lsqlite3"], extra_cpp=("sql_extra.cpp",),
                 extra_py="sqlworker", glue_parts=1)


def doc_world():
    return world("docs", ["docs.zs"], ["-withTypeInfoCode", "-withReflectionCode"], extra_cpp=("doc_extra.cpp",),
                 extra_py="docworker", glue_parts=2, docs=True)


def thr_world():
    """C++ without the runtime of the thread sanitizer: workers/zsched.cpp takes its place"""
    return world("thr", ["mem.zs"], ["-withTypeInfoCode", "-withReflectionCode"], extra_cpp=("thr_extra.cpp", "zsched.cpp"),
                 cpp_flags=["-std=c++17", "-O1", "-gline-tables-only", "-fsanitize=thread"],
                 extra_py="docworker,thrworker", glue_parts=3, docs=True, weave=True,
                 ldflags=["-ldl", "-lpthread"])


def hx(b):
    return b.hex() or "-"


def toks(o):
    return " ".join(zs.tokens(o))


def depth_of(o, n=0):
    """nesting depth of a model value"""
    if n > 60:
        return n
    if isinstance(o, zs.Obj):
        vals = o.f.values() if o.d.kind == "struct" else [o.value]
        return max([depth_of(v, n + 1) for v in vals] + [n])
    if isinstance(o, list):
        return max([depth_of(v, n) for v in o[:50]] + [n])
    return n


def ref_decode(codec, name, data, bits, params, start=0):
    """-> ('ok', obj, end) | ('err', kind, None) | ('any', why, None)"""
    try:
        o, end = codec.decode(name, data, bits, params, start)
    except zs.DecodeError as e:
        return "err", e.kind, None
    except RecursionError:
        return "any", "nesting limit", None
    except (zs.Unspecified, zs.ModelError, ArithmeticError, IndexError, OverflowError) as e:
        return "any", "%s: %s" % (type(e).__name__, str(e)[:60]), None
    if depth_of(o) > 40:
        return "any", "nesting limit", None
    return "ok", o, end


def documented(lang, kind, r):
    """is this error report one the runtime documents for this kind of damage"""
    if "/zserio" in r.split(" ")[0]:
        return True
    if kind == "index" or (kind == "eof" and r.startswith("ArrayIndexOutOfBoundsException ")):
        return True        # an array of offsets shorter than its data: the language's own index error
    if kind in ("enum", "constraint"):     # constraints may be checked last; Javadoc of toEnum(); enum.Enum lookup in Python
        return r.startswith({"java": "IllegalArgumentException ", "py": "ValueError ", "pyc": "ValueError "}.get(lang, "?"))
    return False


class NetScenario(Scenario):
    """four node kinds over the net world"""
    LANGS = LANGS
    REAL = ["generated code and runtimes: C++ (AddressSanitizer), Java (JVM), pure Python, Python with the C++ binding",
            "the zserio compiler which generated all of it"]
    STUBS = []
    ASSUMPTIONS = ["the reference model lib/zs.py states the encoding guide correctly (it was written from the guide)",
                   "what the guide leaves open (Unspecified in the model) is only checked for absence of crashes"]

    def __init__(self, pool, stats):
        Scenario.__init__(self, pool, stats)
        self.world = self.get_world()
        self.schema = self.world.schema
        self.codec = zs.Codec(self.schema)

    @classmethod
    def get_world(cls):
        return net_world()

    @classmethod
    def prepare(cls):
        cls.get_world().build_all(cls.LANGS)

    def node(self, lang, slot=0):
        return self.pool.get(self.world, lang, slot)

    _types = None

    def types(self):
        if self._types is None:
            self._types = [d.name for d in gluegen.top_types(self.schema)]
        return self._types

    def params_text(self, d, params):
        return "".join(" " + zs.tok_scalar(ti, p) for (ti, _), p in zip(d.params, params))

    def obj(self, name, text, ptoks=()):
        u = zs.Untok(self.schema, text.split(" ") if text else [])
        d = self.schema[name]
        return u.top(name)

    def expect_ok(self, r, what, cls="refused"):
        if not r[0]:
            raise Violation(cls, what, "%s failed: %s" % (what, r[1]))
        return r[1]


def versioned(text, v):
    """the text of a schema in version v: lines marked '//@ from to' belong to those versions only"""
    out = []
    for line in text.split("\n"):
        if "//@" in line:
            line, r = line.split("//@")
            a, b = map(int, r.split())
            if not a <= v <= b:
                continue
        out.append(line.rstrip())
    return "\n".join(out)


def up_world(v):
    """version v of the system which is upgraded"""
    import os
    name = "up%d" % v
    if name not in _worlds:
        with open(os.path.join(cluster.SCHEMAS, "up.zs")) as f:
            text = f.read()
        _worlds[name] = cluster.World(name, {"up.zs": versioned(text, v)}, "up.zs", ["-withTypeInfoCode"], glue_parts=1)
    return _worlds[name]
