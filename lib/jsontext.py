"""JSON texts of model values, in any layout the format allows."""
import zs

SHORT = {'"': '\\"', "\\": "\\\\", "\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}
SPACES = ["", "", "", " ", "  ", "\n", "\r\n", "\r", "\t", " \n  ", "\r \r\n", "\n\n"]


class Writer:
    def __init__(self, rng=None, spaces=SPACES, omit=0.3, numbers=0.3, escapes=0.2):
        self.r, self.spaces, self.omit, self.numbers, self.escapes = rng, spaces, omit, numbers, escapes

    def chance(self, p):
        return self.r is not None and self.r.random() < p

    def sp(self):
        return self.r.choice(self.spaces) if self.r is not None else ""

    def string(self, s):
        out = []
        for c in s:
            if c in SHORT and not (ord(c) < 32 and self.chance(self.escapes)):
                out.append(SHORT[c])
            elif ord(c) < 32 or (ord(c) < 127 and self.chance(self.escapes / 4)):
                h = "%04x" % ord(c)
                out.append("\\u" + (h.upper() if self.chance(0.5) else h))
            else:
                out.append(c)
        return '"' + "".join(out) + '"'

    def obj(self, items):
        return "{" + ",".join(self.sp() + self.string(k) + self.sp() + ":" + self.sp() + v + self.sp() for k, v in items) + \
            ("" if items else self.sp()) + "}"

    def arr(self, items):
        return "[" + ",".join(self.sp() + v + self.sp() for v in items) + ("" if items else self.sp()) + "]"

    def real(self, v):
        if v != v:
            return "NaN"
        if v in (float("inf"), -float("inf")):
            return "Infinity" if v > 0 else "-Infinity"
        s = repr(v)
        if "e" in s and self.chance(0.5):
            m, e = s.split("e")
            s = (m if "." in m else m + ".0") + "E" + str(int(e))
        return s

    def scalar(self, ti, v):
        k = ti.kind
        if k == "bool":
            return "true" if v else "false"
        if k == "float":
            return self.real(v)
        if k == "string":
            return self.string(v)
        if k == "bytes":
            return self.obj([("buffer", self.arr([str(x) for x in v]))])
        if k == "extern":
            return self.obj([("buffer", self.arr([str(x) for x in v[1]])), ("bitSize", str(v[0]))])
        if k in ("enum", "bitmask") and self.chance(self.numbers):
            return str(v)
        if k == "enum":
            return self.string(next(n for n, x, _ in ti.decl.items if x == v))
        if k == "bitmask":
            if v == 0:
                zero = [n for n, x, _ in ti.decl.items if x == 0]
                return self.string(zero[0] if zero else "0 /* no match */")
            return self.string(" | ".join(n for n, x, _ in ti.decl.items if x and v & x == x))
        return str(v)

    def value(self, ti, v):
        return self.compound(v) if ti.is_compound() else self.scalar(ti, v)

    def field(self, f, v):
        if f.array is not None:
            return self.arr([self.value(f.ti, x) for x in v])
        return self.value(f.ti, v)

    def compound(self, o):
        if o.d.kind != "struct":
            return self.obj([(o.tag, self.field(o.d.field(o.tag), o.value))] if o.tag is not None else [])
        items = []
        for f in o.d.fields:
            v = o.f[f.name]
            if v is None:
                if not self.chance(self.omit):
                    items.append((f.name, "null"))
            else:
                items.append((f.name, self.field(f, v)))
        return self.obj(items)

    def text(self, o):
        return self.sp() + self.compound(o) + self.sp()


def rounded(o):
    """tokens with every float cut to 15 significant digits (what the C++ writer keeps)"""
    def ti_of(ti, v):
        if ti.is_compound():
            return walk(v)
        if ti.kind == "float":
            return "f" + ("%.15g" % v)
        return zs.tok_scalar(ti, v)

    def fld(f, v):
        return [ti_of(f.ti, x) for x in v] if f.array is not None else ti_of(f.ti, v)

    def walk(o):
        if o.d.kind != "struct":
            return (o.tag, fld(o.d.field(o.tag), o.value) if o.tag is not None else None)
        return tuple((f.name, None if o.f[f.name] is None else fld(f, o.f[f.name])) for f in o.d.fields)
    return walk(o)
