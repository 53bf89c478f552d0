"""Independent reference model of the zserio schema language subset used by the simulator.

It parses .zs text (no zserio code involved), generates random values, encodes and decodes them according to
doc/ZserioEncodingGuide.md, and converts values to and from a flat token list which the workers understand.
"""
import re
import struct as _struct


class ModelError(Exception):
    pass


class DecodeError(Exception):
    """The image is not a valid encoding.  `kind` is eof|enum|choice|union|constraint|offset|varsize|length"""

    def __init__(self, kind, msg=""):
        Exception.__init__(self, "%s %s" % (kind, msg))
        self.kind = kind


class Unspecified(Exception):
    """The documentation does not determine what a decoder does with this image."""


# ------------------------------------------------------------------------------------------------ lexer / parser
_TOK = re.compile(
    r"\s+|//[^\n]*|/\*.*?\*/|(?P<num>0[xX][0-9a-fA-F]+|\d+\.\d*(?:[eE][-+]?\d+)?f?|\d+(?:[eE][-+]?\d+)f?|[01]+[bB]\b|\d+)"
    r"|(?P<str>\"(?:[^\"\\]|\\.)*\")|(?P<id>@?[A-Za-z_]\w*)|(?P<op>&&|\|\||==|!=|<=|>=|<<|[-+*/%&|^~!<>=?:;,.(){}\[\]])",
    re.S,
)


def lex(text):
    out, pos = [], 0
    while pos < len(text):
        m = _TOK.match(text, pos)
        if not m:
            raise ModelError("lex error at %r" % text[pos:pos + 20])
        pos = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    out.append(("eof", ""))
    return out


VAR = {  # name: (signed, max bytes, total value bits)
    "varint16": (True, 2, 14), "varint32": (True, 4, 28), "varint64": (True, 8, 56), "varint": (True, 9, 63),
    "varuint16": (False, 2, 15), "varuint32": (False, 4, 29), "varuint64": (False, 8, 57), "varuint": (False, 9, 64),
    "varsize": (False, 5, 31),
}
FIXED = {}
for _n in (8, 16, 32, 64):
    FIXED["uint%d" % _n] = ("bit", _n)
    FIXED["int%d" % _n] = ("int", _n)


class TI:
    """A type instance: kind in bit,int,dynbit,dynint,var,bool,float,string,bytes,extern,enum,bitmask,compound"""
    __slots__ = ("kind", "bits", "name", "expr", "decl", "args")

    def __init__(self, kind, bits=None, name=None, expr=None, decl=None, args=()):
        self.kind, self.bits, self.name, self.expr, self.decl, self.args = kind, bits, name, expr, decl, args

    def __repr__(self):
        return "TI(%s %s %s)" % (self.kind, self.bits, self.name or (self.decl and self.decl.name))

    def packable_scalar(self):
        return self.kind in ("bit", "int", "dynbit", "dynint", "var", "enum", "bitmask")

    def is_compound(self):
        return self.kind == "compound"


class Field:
    def __init__(self):
        self.ti = None
        self.name = None
        self.array = None  # None | 'auto' | 'implicit' | expr
        self.packed = False
        self.optional = False
        self.cond = None
        self.constraint = None
        self.default = None
        self.align = None
        self.offset = None
        self.extend = False
        self.cases = None  # choice: list of exprs, or 'default'
        self.idx = 0
        self.sql = None
        self.virtual = False
        self.explicit = ()

    def is_optional(self):
        return self.optional or self.cond is not None


class Decl:
    def __init__(self, kind, name, pkg):
        self.kind, self.name, self.pkg = kind, name, pkg
        self.params = []  # (TI, name)
        self.fields = []
        self.functions = {}
        self.selector = None
        self.empty_cases = []  # case expressions without a field
        self.has_default = False
        self.default_field = None
        self.base = None
        self.items = []  # enum/bitmask: (name, value, flag)
        self.methods = []
        self.messages = []
        self.tables = []
        self.extra_sql = None
        self.without_rowid = False
        self.using = None
        self.cpp_name = name

    def field(self, name):
        for f in self.fields:
            if f.name == name:
                return f
        return None

    def values(self):
        return [v for _, v, _ in self.items]

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.name)


class Schema:
    def __init__(self):
        self.decls = {}
        self.consts = {}
        self.subtypes = {}
        self.templates = {}
        self.order = []
        self.pkgs = []

    def add_text(self, text):
        Parser(self, text).parse()
        return self

    def finish(self):
        for d in self.order:
            d.resolve_done = True
        return self

    def __getitem__(self, name):
        return self.decls[name]


class Parser:
    def __init__(self, schema, text):
        self.s, self.t, self.p = schema, lex(text), 0
        self.pkg = ""
        self.late = []
        self.tenv = {}

    # -- token helpers
    def peek(self, k=0):
        return self.t[self.p + k][1]

    def kind(self, k=0):
        return self.t[self.p + k][0]

    def next(self):
        v = self.t[self.p][1]
        self.p += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.p += 1
            return True
        return False

    def expect(self, v):
        if self.peek() != v:
            raise ModelError("expected %r got %r near %r" % (v, self.peek(), [x[1] for x in self.t[self.p - 8:self.p + 4]]))
        self.p += 1

    def ident(self):
        if self.kind() != "id":
            raise ModelError("identifier expected, got %r" % self.peek())
        return self.next()

    # -- expressions
    BIN = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", "<=", ">", ">="], ["<<", ">>"], ["+", "-"],
           ["*", "/", "%"]]

    def expr(self):
        e = self.binary(0)
        if self.accept("?"):
            a = self.expr()
            self.expect(":")
            b = self.expr()
            return ("?", e, a, b)
        return e

    def _op(self, ops):
        v = self.peek()
        if v == ">" and self.peek(1) == ">":
            return ">>" if ">>" in ops else None
        return v if v in ops and self.kind() == "op" else None

    def binary(self, lvl):
        if lvl == len(self.BIN):
            return self.unary()
        e = self.binary(lvl + 1)
        while True:
            op = self._op(self.BIN[lvl])
            if not op:
                return e
            self.next()
            if op == ">>":
                self.next()
            e = (op, e, self.binary(lvl + 1))

    def unary(self):
        if self.kind() == "op" and self.peek() in "+-!~":
            op = self.next()
            return ("u" + op, self.unary())
        return self.postfix()

    def postfix(self):
        k, v = self.t[self.p]
        if v == "(":
            self.next()
            e = self.expr()
            self.expect(")")
        elif k == "num":
            self.next()
            e = ("lit", self.number(v))
        elif k == "str":
            self.next()
            e = ("lit", v[1:-1])
        elif v in ("true", "false"):
            self.next()
            e = ("lit", v == "true")
        elif v == "@index":
            self.next()
            e = ("index",)
        elif v in ("lengthof", "valueof", "numbits"):
            self.next()
            self.expect("(")
            a = self.expr()
            self.expect(")")
            e = (v, a)
        elif v == "isset":
            self.next()
            self.expect("(")
            a = self.expr()
            self.expect(",")
            b = self.expr()
            self.expect(")")
            e = ("isset", a, b)
        else:
            e = ("id", self.ident())
        while True:
            if self.peek() == ".":
                self.next()
                e = (".", e, self.ident())
            elif self.peek() == "[":
                self.next()
                i = self.expr()
                self.expect("]")
                e = ("[]", e, i)
            elif self.peek() == "(" and self.peek(1) == ")":
                self.next()
                self.next()
                e = ("call", e)
            else:
                return e

    @staticmethod
    def number(v):
        if v[:2] in ("0x", "0X"):
            return int(v, 16)
        if v[-1] in "bB" and set(v[:-1]) <= {"0", "1"}:
            return int(v[:-1], 2)
        if any(c in v for c in ".e"):
            return float(v.rstrip("f"))
        if len(v) > 1 and v[0] == "0":
            return int(v, 8)
        return int(v)

    # -- types
    def qualified(self):
        n = self.ident()
        while self.peek() == "." and self.kind(1) == "id":
            self.next()
            n = self.ident()
        return n

    def type_inst(self, allow_args=True):
        """Returns TI; named types resolved through self.s (must be declared earlier or lazily)."""
        n = self.peek()
        if self.kind() != "id":
            raise ModelError("type expected")
        if n in self.tenv:
            self.next()
            ti = self.tenv[n]
            if ti.kind == "compound" and allow_args:
                ti = TI("compound", decl=ti.decl, args=self.type_args())
            return ti
        if n in FIXED:
            self.next()
            return TI(FIXED[n][0], FIXED[n][1], name=n)
        if n in ("bit", "int"):
            self.next()
            if self.accept(":"):
                b = self.number(self.next())
                return TI(n, b, name="%s:%d" % (n, b))
            self.expect("<")
            e = self.binary(8)
            self.expect(">")
            return TI("dyn" + n, expr=e)
        if n in VAR:
            self.next()
            return TI("var", name=n)
        if n in ("bool", "string", "bytes", "extern"):
            self.next()
            return TI(n, name=n)
        if n in ("float16", "float32", "float64"):
            self.next()
            return TI("float", int(n[5:]), name=n)
        n = self.qualified()
        if n in self.s.templates and self.peek() == "<":
            self.next()
            targs = [self.type_inst(False)]
            while self.accept(","):
                targs.append(self.type_inst(False))
            self.expect(">")
            d = self.instantiate(n, targs, None)
            return TI("compound", decl=d, args=self.type_args() if allow_args else ())
        if n in self.s.subtypes:
            ti = self.s.subtypes[n]
            if ti.kind == "compound" and allow_args:
                return TI("compound", decl=ti.decl, args=self.type_args())
            return ti
        d = self.s.decls.get(n)
        if d is None:
            raise ModelError("unknown type %s" % n)
        if d.kind in ("enum", "bitmask"):
            return TI(d.kind, decl=d)
        return TI("compound", decl=d, args=self.type_args() if allow_args else ())

    def type_args(self):
        args = []
        if self.peek() == "(":
            self.next()
            while True:
                if self.accept("explicit"):
                    args.append(("explicit", self.ident()))
                else:
                    args.append(self.expr())
                if not self.accept(","):
                    break
            self.expect(")")
        return tuple(args)

    @staticmethod
    def targ_name(ti):
        if ti.name:
            return ti.name.replace(":", "")
        return ti.decl.name

    def instantiate(self, name, targs, alias):
        key = alias or (name + "_" + "_".join(self.targ_name(t) for t in targs))
        if key in self.s.decls:
            return self.s.decls[key]
        tparams, toks = self.s.templates[name]
        saved = (self.t, self.p, self.tenv)
        self.t, self.p, self.tenv = toks, 0, dict(zip(tparams, targs))
        try:
            kind = self.next()
            d = self.compound(kind, key)
        finally:
            self.t, self.p, self.tenv = saved
        return d

    # -- declarations
    def parse(self):
        # first pass registers names so that forward references work
        self.prescan()
        while self.kind() != "eof":
            self.decl()

    def prescan(self):
        p, depth = 0, 0
        t = self.t
        pkg = ""
        while t[p][0] != "eof":
            v = t[p][1]
            if v == "{":
                depth += 1
            elif v == "}":
                depth -= 1
            elif depth == 0 and v == "package":
                q = p + 1
                parts = []
                while t[q][1] != ";":
                    if t[q][1] != ".":
                        parts.append(t[q][1])
                    q += 1
                pkg = ".".join(parts)
            elif depth == 0 and v in ("struct", "choice", "union", "sql_table", "sql_database", "service", "pubsub"):
                if t[p + 2][1] != "<":
                    n = t[p + 1][1]
                    self.s.decls[n] = Decl(v, n, pkg)
            elif depth == 0 and v in ("enum", "bitmask"):
                q = p
                while t[q][1] != "{":
                    q += 1
                n = t[q - 1][1]
                self.s.decls[n] = Decl(v, n, pkg)
            p += 1

    def decl(self):
        v = self.peek()
        if v == "package":
            self.next()
            parts = [self.ident()]
            while self.accept("."):
                parts.append(self.ident())
            self.expect(";")
            self.pkg = ".".join(parts)
            if self.pkg not in self.s.pkgs:
                self.s.pkgs.append(self.pkg)
        elif v == "import":
            while self.next() != ";":
                pass
        elif v == "const":
            self.next()
            ti = self.type_inst()
            n = self.ident()
            self.expect("=")
            self.s.consts[n] = (self.pkg, ti, self.expr())
            self.expect(";")
        elif v == "subtype":
            self.next()
            ti = self.type_inst(False)
            self.s.subtypes[self.ident()] = ti
            self.expect(";")
        elif v == "instantiate":
            self.next()
            n = self.qualified()
            self.expect("<")
            targs = [self.type_inst(False)]
            while self.accept(","):
                targs.append(self.type_inst(False))
            self.expect(">")
            alias = self.ident()
            self.expect(";")
            self.instantiate(n, targs, alias)
        elif v in ("enum", "bitmask"):
            self.enum(v)
        elif v in ("struct", "choice", "union"):
            if self.peek(2) == "<":
                self.template()
            else:
                self.next()
                self.compound(v, None)
        elif v == "service":
            self.next()
            d = self.new(v, self.ident())
            self.expect("{")
            while not self.accept("}"):
                resp = self.type_inst()
                n = self.ident()
                self.expect("(")
                req = self.type_inst()
                self.expect(")")
                self.expect(";")
                d.methods.append((n, resp, req))
            self.expect(";")
        elif v == "pubsub":
            self.next()
            d = self.new(v, self.ident())
            self.expect("{")
            while not self.accept("}"):
                mode = "both"
                if self.peek() in ("publish", "subscribe"):
                    mode = self.next()
                self.expect("topic")
                self.expect("(")
                topic = self.expr()
                self.expect(")")
                ti = self.type_inst()
                n = self.ident()
                self.expect(";")
                d.messages.append((n, mode, ev_const(self.s, topic), ti))
            self.expect(";")
        elif v == "sql_table":
            self.sql_table()
        elif v == "sql_database":
            self.next()
            d = self.new(v, self.ident())
            self.expect("{")
            while not self.accept("}"):
                ti = self.type_inst()
                d.tables.append((ti.decl, self.ident()))
                self.expect(";")
            self.expect(";")
        else:
            raise ModelError("unexpected %r" % v)

    def new(self, kind, name):
        d = self.s.decls.get(name)
        if d is None:
            d = self.s.decls[name] = Decl(kind, name, self.pkg)
        d.pkg = self.pkg
        self.s.order.append(d)
        return d

    def template(self):
        start = self.p
        self.next()
        name = self.ident()
        self.expect("<")
        tp = [self.ident()]
        while self.accept(","):
            tp.append(self.ident())
        self.expect(">")
        head = [self.t[start], ("id", name)]
        begin = self.p
        while not (self.peek() == "}" and self.peek(1) == ";" and self._depth0(begin)):
            self.next()
        self.next()
        self.next()
        self.s.templates[name] = (tp, head + self.t[begin:self.p] + [("eof", "")])

    def _depth0(self, begin):
        d = 0
        for k, v in self.t[begin:self.p + 1]:
            d += (v == "{") - (v == "}")
        return d == 0

    def enum(self, kind):
        self.next()
        ti = self.type_inst()
        d = self.new(kind, self.ident())
        d.base = ti
        self.expect("{")
        prev = None
        while not self.accept("}"):
            flag = None
            if self.peek() in ("@deprecated", "@removed"):
                flag = self.next()[1:]
            n = self.ident()
            if self.accept("="):
                val = ev_const(self.s, self.expr(), d)
            elif kind == "enum":
                val = 0 if prev is None else prev + 1
            else:
                used = 0
                for _, x, _ in d.items:
                    used |= x
                val = 1
                if prev is not None:
                    val = 1
                    while used >= val:
                        val <<= 1
            d.items.append((n, val, flag))
            prev = val
            if not self.accept(","):
                self.expect("}")
                break
        self.expect(";")

    def compound(self, kind, forced):
        name = self.ident()
        d = self.new(kind, forced or name)
        if self.accept("("):
            while True:
                ti = self.type_inst(False)
                d.params.append((ti, self.ident()))
                if not self.accept(","):
                    break
            self.expect(")")
        if kind == "choice":
            self.expect("on")
            d.selector = self.expr()
        self.expect("{")
        pending = []
        while not self.accept("}"):
            if self.peek() == "function":
                self.next()
                rti = self.type_inst()
                fn = self.ident()
                self.expect("(")
                self.expect(")")
                self.expect("{")
                self.expect("return")
                d.functions[fn] = (rti, self.expr())
                self.expect(";")
                self.expect("}")
                continue
            if kind == "choice":
                if self.accept("default"):
                    self.expect(":")
                    d.has_default = True
                    if self.accept(";"):
                        continue
                    f = self.field_decl(d)
                    f.cases = "default"
                    d.default_field = f
                    continue
                cases = []
                while self.accept("case"):
                    cases.append(self.expr())
                    self.expect(":")
                if self.accept(";"):
                    d.empty_cases += cases
                    continue
                f = self.field_decl(d)
                f.cases = cases
                continue
            self.field_decl(d)
        self.expect(";")
        return d

    def field_decl(self, d):
        f = Field()
        if self.peek() == "align" and d.kind == "struct":
            self.next()
            self.expect("(")
            f.align = ev_const(self.s, self.expr())
            self.expect(")")
            self.expect(":")
        # offset?
        save = self.p
        ok = False
        try:
            self._try_field(Field())
            ok = True
        except ModelError:
            pass
        self.p = save
        if not ok:
            f.offset = self.expr_no_ternary()
            self.expect(":")
        self._try_field(f)
        if self.accept("="):
            f.default = self.expr()
        if self.accept("if"):
            f.cond = self.expr()
        if self.accept(":"):
            f.constraint = self.expr()
        if self.accept("sql"):
            f.sql = self.expr()
        self.expect(";")
        f.idx = len(d.fields)
        d.fields.append(f)
        return f

    def expr_no_ternary(self):
        return self.binary(0)

    def _try_field(self, f):
        f.extend = self.accept("extend")
        f.optional = self.accept("optional")
        f.packed = self.accept("packed")
        imp = self.accept("implicit")
        if self.accept("sql_virtual"):
            f.virtual = True
        f.ti = self.type_inst()
        f.name = self.ident()
        if self.accept("["):
            if self.accept("]"):
                f.array = "implicit" if imp else "auto"
            else:
                f.array = self.expr()
                self.expect("]")
        if self.peek() not in ("=", "if", ":", ";", "sql"):
            raise ModelError("not a field")

    def sql_table(self):
        self.next()
        name = self.ident()
        d = self.new("sql_table", name)
        if self.accept("using"):
            d.using = self.ident()
        self.expect("{")
        while not self.accept("}"):
            if self.peek() == "sql":
                self.next()
                d.extra_sql = ev_const(self.s, self.expr())
                self.expect(";")
            elif self.accept("sql_without_rowid"):
                d.without_rowid = True
                self.expect(";")
            else:
                self.field_decl(d)
        self.expect(";")


# ------------------------------------------------------------------------------------------------ values
class Obj:
    """Value of a compound.  struct: fields name->value (None absent optional, MISSING absent extension);
    choice/union: tag = field name or None, value."""
    __slots__ = ("d", "params", "f", "tag", "value")

    def __init__(self, d, params=()):
        self.d, self.params = d, list(params)
        self.f = {}
        self.tag = None
        self.value = None

    def get(self, name):
        if self.d.kind == "struct":
            return self.f[name]
        return self.value if self.tag == name else None

    def __repr__(self):
        if self.d.kind == "struct":
            return "%s%r" % (self.d.name, self.f)
        return "%s[%s=%r]" % (self.d.name, self.tag, self.value)


class _Missing:
    def __repr__(self):
        return "MISSING"


MISSING = _Missing()


class EnumRef:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d


def ev_const(schema, e, cur=None):
    return Ev(schema, None, cur_decl=cur).ev(e)


class Ev:
    """Expression evaluation."""

    def __init__(self, schema, obj, index=None, hint=None, cur_decl=None):
        self.s, self.o, self.index, self.hint, self.cur = schema, obj, index, hint, cur_decl

    def lookup(self, n):
        o = self.o
        if o is not None:
            d = o.d
            for (ti, pn), pv in zip(d.params, o.params):
                if pn == n:
                    return pv
            if d.kind == "struct":
                if n in o.f:
                    return o.f[n]
            elif d.field(n) is not None:
                return o.get(n)
            if n in d.functions:
                return ("fn", o, n)
        if self.cur is not None:
            for nm, v, _ in self.cur.items:
                if nm == n:
                    return v
        if self.hint is not None:
            for nm, v, _ in self.hint.items:
                if nm == n:
                    return v
        if n in self.s.consts:
            return Ev(self.s, None).ev(self.s.consts[n][2])
        if n in self.s.decls and self.s.decls[n].kind in ("enum", "bitmask"):
            return EnumRef(self.s.decls[n])
        raise ModelError("unresolved name %s" % n)

    def ev(self, e):
        op = e[0]
        if op == "lit":
            return e[1]
        if op == "id":
            return self.lookup(e[1])
        if op == "index":
            return self.index
        if op == ".":
            a = self.ev(e[1])
            if isinstance(a, EnumRef):
                for nm, v, _ in a.d.items:
                    if nm == e[2]:
                        return v
                raise ModelError("no item")
            return Ev(self.s, a).lookup(e[2])
        if op == "[]":
            return self.ev(e[1])[self.ev(e[2])]
        if op == "call":
            fn = self.ev(e[1])
            _, o, n = fn
            return Ev(self.s, o).ev(o.d.functions[n][1])
        if op == "lengthof":
            v = self.ev(e[1])
            return len(v.encode("utf-8")) if isinstance(v, str) else len(v)
        if op == "valueof":
            return self.ev(e[1])
        if op == "numbits":
            v = self.ev(e[1])
            return 0 if v == 0 else max(1, (v - 1).bit_length())
        if op == "isset":
            a = self.ev(e[1])
            h = self.type_of(e[1])
            b = Ev(self.s, self.o, self.index, h).ev(e[2])
            return (a & b) == b
        if op == "?":
            return self.ev(e[2]) if self.ev(e[1]) else self.ev(e[3])
        if op == "&&":
            return bool(self.ev(e[1])) and bool(self.ev(e[2]))
        if op == "||":
            return bool(self.ev(e[1])) or bool(self.ev(e[2]))
        if op[0] == "u" and len(op) == 2:
            v = self.ev(e[1])
            if op == "u!":
                return not v
            if op == "u~":
                return ~v
            return -v if op == "u-" else v
        a, b = self.ev(e[1]), self.ev(e[2])
        if isinstance(a, EnumRef) or isinstance(b, EnumRef):
            raise ModelError("enum operand")
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            if isinstance(a, float) or isinstance(b, float):
                return a / b
            q = abs(a) // abs(b)
            return q if (a < 0) == (b < 0) else -q
        if op == "%":
            r = abs(a) % abs(b)
            return r if a >= 0 else -r
        if op == "&":
            return a & b
        if op == "|":
            return a | b
        if op == "^":
            return a ^ b
        if op == "<<":
            return a << b
        if op == ">>":
            return a >> b
        if op == "==":
            return a == b
        if op == "!=":
            return a != b
        if op == "<":
            return a < b
        if op == "<=":
            return a <= b
        if op == ">":
            return a > b
        if op == ">=":
            return a >= b
        raise ModelError("op %s" % op)

    def type_of(self, e):
        """declared enum/bitmask type of an identifier expression (hint for isset and case labels)"""
        if e[0] == "id" and self.o is not None:
            d = self.o.d
            for ti, pn in d.params:
                if pn == e[1]:
                    return ti.decl if ti.kind in ("enum", "bitmask") else None
            f = d.field(e[1])
            if f is not None:
                return f.ti.decl if f.ti.kind in ("enum", "bitmask") else None
        if e[0] == ".":
            a = self.ev(e[1])
            if isinstance(a, Obj):
                return Ev(self.s, a).type_of(("id", e[2]))
        return None


def int_range(ti, schema=None, obj=None):
    k = ti.kind
    if k in ("enum", "bitmask"):
        return int_range(ti.decl.base)
    if k == "bit":
        return 0, (1 << ti.bits) - 1
    if k == "int":
        return -(1 << (ti.bits - 1)), (1 << (ti.bits - 1)) - 1
    if k in ("dynbit", "dynint"):
        n = Ev(schema, obj).ev(ti.expr)
        if not 1 <= n <= 64:
            raise ModelError("dynamic bit field length %d" % n)
        return int_range(TI(k[3:], n))
    if k == "var":
        sg, _, vb = VAR[ti.name]
        if ti.name == "varint":
            return -(1 << 63), (1 << 63) - 1
        return (-((1 << vb) - 1) if sg else 0), (1 << vb) - 1
    raise ModelError("no int range")


def select_choice(schema, obj):
    """Returns ('field', f) | ('empty', None) | None when nothing matches."""
    d = obj.d
    ev = Ev(schema, obj)
    sel = ev.ev(d.selector)
    hint = ev.type_of(d.selector)

    def match(c):
        return Ev(schema, None, hint=hint).ev(c) == sel

    for f in d.fields:
        if f.cases != "default" and any(match(c) for c in f.cases):
            return ("field", f)
    if any(match(c) for c in d.empty_cases):
        return ("empty", None)
    if d.has_default:
        return ("field", d.default_field) if d.default_field else ("empty", None)
    return None


# ------------------------------------------------------------------------------------------------ bits
class BW:
    def __init__(self):
        self.parts = []
        self.pos = 0

    def w(self, v, n):
        if n:
            self.parts.append((v & ((1 << n) - 1), n))
            self.pos += n

    def align(self, n):
        r = self.pos % n
        if r:
            self.w(0, n - r)

    def bytes(self):
        v = 0
        acc = []
        # join in chunks to stay linear
        buf, nb = 0, 0
        for x, n in self.parts:
            buf = (buf << n) | x
            nb += n
            if nb > 512:
                k = nb // 8
                rest = nb - 8 * k
                acc.append((buf >> rest).to_bytes(k, "big"))
                buf &= (1 << rest) - 1
                nb = rest
        if nb:
            pad = -nb % 8
            acc.append((buf << pad).to_bytes((nb + pad) // 8, "big"))
        return b"".join(acc)


class BR:
    def __init__(self, data, bits=None):
        self.data = data
        self.n = len(data) * 8 if bits is None else bits
        self.pos = 0

    def r(self, n):
        if n == 0:
            return 0
        if self.pos + n > self.n:
            raise DecodeError("eof")
        a, b = self.pos // 8, (self.pos + n + 7) // 8
        v = int.from_bytes(self.data[a:b], "big")
        v >>= b * 8 - (self.pos + n)
        self.pos += n
        return v & ((1 << n) - 1)

    def align(self, n):
        r = self.pos % n
        if r:
            if self.pos + n - r > self.n:
                raise DecodeError("eof")
            self.pos += n - r


def f_bits(v, n):
    if v != v:
        return {16: 0x7E00, 32: 0x7FC00000, 64: 0x7FF8000000000000}[n]
    return int.from_bytes(_struct.pack({16: ">e", 32: ">f", 64: ">d"}[n], v), "big")


def bits_f(b, n):
    return _struct.unpack({16: ">e", 32: ">f", 64: ">d"}[n], b.to_bytes(n // 8, "big"))[0]


def w_var(w, name, v):
    signed, maxb, vb = VAR[name]
    if name == "varint" and v == -(1 << 63):
        w.w(0x80, 8)
        return
    if name == "varsize":
        a = v
        n = 1
        while n < 5 and a >> (7 * n if n < 5 else 99):
            n += 1
        if n == 5:
            for i in range(4):
                sh = 8 + 7 * (3 - i)
                w.w(1, 1)
                w.w(a >> sh, 7)
            w.w(a, 8)
        else:
            for i in range(n):
                w.w(1 if i < n - 1 else 0, 1)
                w.w(a >> (7 * (n - 1 - i)), 7)
        return
    a = abs(v)
    first = 6 if signed else 7

    def cap(k):  # value bits with k bytes
        return first + 7 * (k - 1) + (1 if k == maxb else 0)

    n = 1
    while a >> cap(n):
        n += 1
        if n > maxb:
            raise ModelError("value out of range")
    rem = cap(n)
    for i in range(n):
        last = i == n - 1
        bits = first if i == 0 else (8 if i == maxb - 1 else 7)
        rem -= bits
        if i == 0 and signed:
            w.w(1 if v < 0 else 0, 1)
        if i != maxb - 1:
            w.w(0 if last else 1, 1)
        w.w(a >> rem, bits)


def r_var(r, name):
    signed, maxb, vb = VAR[name]
    first = 6 if signed else 7
    neg = False
    v = 0
    for i in range(maxb):
        if i == 0 and signed:
            neg = bool(r.r(1))
        last = i == maxb - 1
        more = False if last else bool(r.r(1))
        v = (v << (first if i == 0 else (8 if last else 7))) | r.r(first if i == 0 else (8 if last else 7))
        if not more:
            break
    if name == "varsize":
        if v > (1 << 31) - 1:
            raise DecodeError("varsize")
        return v
    if name == "varint" and neg and v == 0 and i == 0:
        return -(1 << 63)
    if neg and v == 0:
        if name == "varint":
            raise Unspecified("non canonical negative zero")
    return -v if neg else v


def var_size(name, v):
    w = BW()
    w_var(w, name, v)
    return w.pos


# ------------------------------------------------------------------------------------------------ packing contexts
def has_packable(d, seen=()):
    """does the compound contain a field which takes part in packing (recursively)"""
    if d in seen:
        return False
    if d.kind == "union":
        return True
    for f in d.fields:
        if f.array is not None:
            continue
        if f.ti.packable_scalar():
            return True
        if f.ti.is_compound() and has_packable(f.ti.decl, seen + (d,)):
            return True
    return False


class Delta:
    def __init__(self):
        self.vals = []
        self.sizes = []
        self.started = False
        self.packed = False
        self.mbn = 0
        self.prev = None

    def init(self, v, size):
        self.vals.append(v)
        self.sizes.append(size)

    def finish(self):
        v = self.vals
        if len(v) > 1:
            m = max(abs(b - a).bit_length() if b - a >= 0 else abs(b - a).bit_length() for a, b in zip(v, v[1:]))
            self.mbn = m
            if m <= 62:
                dbits = m + 1 if m > 0 else 0
                if 1 + 6 + self.sizes[0] + (len(v) - 1) * dbits < 1 + sum(self.sizes):
                    self.packed = True

    def write(self, w, v, raw):
        if not self.started:
            self.started = True
            self.finish()
            w.w(int(self.packed), 1)
            if self.packed:
                w.w(self.mbn, 6)
            raw(w, v)
        elif not self.packed:
            raw(w, v)
        elif self.mbn:
            w.w(v - self.prev, self.mbn + 1)
        self.prev = v

    def read(self, r, raw, rng):
        if not self.started:
            self.started = True
            self.packed = bool(r.r(1))
            if self.packed:
                self.mbn = r.r(6)
            v = raw(r)
        elif not self.packed:
            v = raw(r)
        else:
            v = self.prev
            if self.mbn:
                n = self.mbn + 1
                x = r.r(n)
                if x >> (n - 1):
                    x -= 1 << n
                v = self.prev + x
            if not (rng[0] <= v <= rng[1]):
                raise Unspecified("packed delta leaves the range of the element type")
        self.prev = v
        return v


class Codec:
    """Reference encoder / decoder for one schema."""
    LENGTH_CAP = 20000
    pending = None
    grow_offsets = False
    offset_mode = "ignore"

    def __init__(self, schema):
        self.s = schema

    # ---- scalar
    def w_scalar(self, w, ti, v, obj):
        k = ti.kind
        if k in ("bit", "int"):
            w.w(v, ti.bits)
        elif k in ("dynbit", "dynint"):
            w.w(v, Ev(self.s, obj).ev(ti.expr))
        elif k == "var":
            w_var(w, ti.name, v)
        elif k == "bool":
            w.w(1 if v else 0, 1)
        elif k == "float":
            w.w(f_bits(v, ti.bits), ti.bits)
        elif k == "string":
            b = v.encode("utf-8")
            w_var(w, "varsize", len(b))
            w.w(int.from_bytes(b, "big"), 8 * len(b))
        elif k == "bytes":
            w_var(w, "varsize", len(v))
            w.w(int.from_bytes(v, "big"), 8 * len(v))
        elif k == "extern":
            n, b = v
            w_var(w, "varsize", n)
            w.w(int.from_bytes(b, "big") >> (-n % 8), n)
        elif k in ("enum", "bitmask"):
            self.w_scalar(w, ti.decl.base, v, obj)
        else:
            raise ModelError(k)

    def r_scalar(self, r, ti, obj):
        k = ti.kind
        if k == "bit":
            return r.r(ti.bits)
        if k == "int":
            v = r.r(ti.bits)
            return v - (1 << ti.bits) if v >> (ti.bits - 1) else v
        if k in ("dynbit", "dynint"):
            n = Ev(self.s, obj).ev(ti.expr)
            if not 1 <= n <= 64:
                raise Unspecified("dynamic bit field length")
            return self.r_scalar(r, TI(k[3:], n), obj)
        if k == "var":
            return r_var(r, ti.name)
        if k == "bool":
            return bool(r.r(1))
        if k == "float":
            return bits_f(r.r(ti.bits), ti.bits)
        if k in ("string", "bytes"):
            n = r_var(r, "varsize")
            if r.pos + 8 * n > r.n:
                raise DecodeError("eof")
            b = r.r(8 * n).to_bytes(n, "big") if n else b""
            if k == "bytes":
                return b
            try:
                return b.decode("utf-8")
            except UnicodeDecodeError:
                raise Unspecified("invalid UTF-8")
        if k == "extern":
            n = r_var(r, "varsize")
            if r.pos + n > r.n:
                raise DecodeError("eof")
            m = (n + 7) // 8
            return (n, (r.r(n) << (-n % 8)).to_bytes(m, "big") if n else b"")
        if k == "enum":
            v = self.r_scalar(r, ti.decl.base, obj)
            if v not in ti.decl.values():
                raise DecodeError("enum")
            return v
        if k == "bitmask":
            v = self.r_scalar(r, ti.decl.base, obj)
            return v
        raise ModelError(k)

    # ---- args
    def eval_args(self, ti, obj, index=None):
        return [Ev(self.s, obj, index).ev(a) for a in ti.args]

    def packed_kind(self, ti):
        """packed array of this element type really packs: 'scalar' | 'compound' | None"""
        if ti.packable_scalar():
            return "scalar"
        if ti.is_compound() and has_packable(ti.decl):
            return "compound"
        return None

    # ---- init contexts
    def init_ctx(self, ctx, ti, v, obj):
        if ti.packable_scalar():
            w = BW()
            self.w_scalar(w, ti, v, obj)
            ctx.setdefault("", Delta()).init(v, w.pos)
            return
        d = v.d
        if d.kind == "struct":
            for f in d.fields:
                if f.array is not None or not (f.ti.packable_scalar() or (f.ti.is_compound() and has_packable(f.ti.decl))):
                    continue
                x = v.f[f.name]
                if x is None or x is MISSING or not self.used(v, f):
                    continue
                self.init_ctx(ctx.setdefault(f.name, {}), f.ti, x, v)
        else:
            if d.kind == "union":
                i = d.field(v.tag).idx
                ctx.setdefault("#", Delta()).init(i, var_size("varsize", i))
            if v.tag is None:
                return
            f = d.field(v.tag)
            if f.array is None and (f.ti.packable_scalar() or (f.ti.is_compound() and has_packable(f.ti.decl))):
                self.init_ctx(ctx.setdefault(f.name, {}), f.ti, v.value, v)

    def used(self, obj, f):
        """is an optional struct field present in the stream"""
        if f.cond is not None:
            return bool(Ev(self.s, obj).ev(f.cond))
        if f.optional:
            return obj.f[f.name] is not None
        return True

    # ---- write
    def w_value(self, w, ti, v, obj, ctx, pos0):
        if ctx is not None and ti.packable_scalar():
            ctx.setdefault("", Delta()).write(w, v, lambda ww, x: self.w_scalar(ww, ti, x, obj))
        elif ti.is_compound():
            self.w_compound(w, v, ctx if (ctx is not None and has_packable(ti.decl)) else None, pos0)
        else:
            self.w_scalar(w, ti, v, obj)

    def w_field(self, w, f, v, obj, ctx, pos0):
        """ctx: packing context of the enclosing compound or None"""
        if f.array is not None:
            packed = f.packed or ctx is not None
            pk = self.packed_kind(f.ti) if packed else None
            if f.array == "auto":
                w_var(w, "varsize", len(v))
            actx = {} if pk else None
            if pk:
                for x in v:
                    self.init_ctx(actx, f.ti, x, obj)
            for i, x in enumerate(v):
                if f.offset is not None and self.indexed(f):
                    w.align(8)
                    self.note_offset(obj, f, i, w, pos0)
                self.w_value(w, f.ti, x, obj, actx, pos0)
        else:
            sub = None
            if ctx is not None and (f.ti.packable_scalar() or f.ti.is_compound()):
                sub = ctx.setdefault(f.name, {})
            self.w_value(w, f.ti, v, obj, sub, pos0)

    @staticmethod
    def indexed(f):
        def has(e):
            return isinstance(e, tuple) and (e[0] == "index" or any(has(x) for x in e[1:]))
        return has(f.offset)

    def note_offset(self, obj, f, index, w, pos0):
        val = (w.pos + pos0) // 8
        if self.offset_mode == "set":
            self.assign(obj, f.offset, index, val)
        elif self.offset_mode == "check":
            if Ev(self.s, obj, index).ev(f.offset) != val:
                raise ModelError("wrong offset %s.%s" % (obj.d.name, f.name))

    def assign(self, obj, e, index, val):
        if e[0] == "id":
            if obj.d.kind == "struct":
                obj.f[e[1]] = val
            else:
                raise ModelError("offset target")
        elif e[0] == ".":
            o = Ev(self.s, obj, index).ev(e[1])
            o.f[e[2]] = val
        elif e[0] == "[]":
            arr, i = Ev(self.s, obj, index).ev(e[1]), Ev(self.s, obj, index).ev(e[2])
            while len(arr) <= i and self.grow_offsets:
                arr.append(0)
            arr[i] = val
        else:
            raise ModelError("offset target")

    def w_compound(self, w, obj, ctx, pos0):
        d = obj.d
        if d.kind == "struct":
            for f in d.fields:
                v = obj.f[f.name]
                if f.extend:
                    if v is MISSING:
                        continue
                    w.align(8)
                if f.optional and f.cond is None:
                    pass
                present = self.used(obj, f)
                if f.optional and f.cond is None:
                    w.w(1 if present else 0, 1)
                if not present:
                    continue
                if v is None:
                    raise ModelError("%s.%s used but not set" % (d.name, f.name))
                if f.align:
                    w.align(f.align)
                if f.offset is not None and not (f.array is not None and self.indexed(f)):
                    w.align(8)
                    self.note_offset(obj, f, None, w, pos0)
                self.w_field(w, f, v, obj, ctx, pos0)
        else:
            if d.kind == "union":
                i = d.field(obj.tag).idx
                if ctx is not None:
                    ctx.setdefault("#", Delta()).write(w, i, lambda ww, x: w_var(ww, "varsize", x))
                else:
                    w_var(w, "varsize", i)
            if obj.tag is not None:
                self.w_field(w, d.field(obj.tag), obj.value, obj, ctx, pos0)

    def encode(self, obj, mode="ignore", start=0):
        """mode: 'set' initialises offsets first; returns (bytes, bits); starts after `start` zero bits"""
        if mode == "set":
            self.offset_mode = "set"
            w = BW()
            w.w(0, start)
            self.w_compound(w, obj, None, 0)
            # offsets are fixed width, except varsize offsets are not allowed, so one more pass is enough
        self.offset_mode = "ignore"
        w = BW()
        w.w(0, start)
        self.w_compound(w, obj, None, 0)
        return w.bytes(), w.pos

    def offsets_ok(self, obj, start=0):
        self.offset_mode = "check"
        try:
            w = BW()
            w.w(0, start)
            self.w_compound(w, obj, None, 0)
            return True
        except ModelError:
            return False
        finally:
            self.offset_mode = "ignore"

    # ---- read
    def r_value(self, r, ti, obj, ctx, index):
        if ctx is not None and ti.packable_scalar():
            v = ctx.setdefault("", Delta()).read(
                r, lambda rr: self.r_scalar(rr, ti, obj), int_range(ti, self.s, obj))
            if ti.kind == "enum" and v not in ti.decl.values():
                raise DecodeError("enum")
            return v
        if ti.is_compound():
            o = Obj(ti.decl, self.eval_args(ti, obj, index))
            self.r_compound(r, o, ctx if (ctx is not None and has_packable(ti.decl)) else None)
            return o
        return self.r_scalar(r, ti, obj)

    def r_field(self, r, f, obj, ctx):
        if f.array is None:
            sub = None
            if ctx is not None and (f.ti.packable_scalar() or f.ti.is_compound()):
                sub = ctx.setdefault(f.name, {})
            return self.r_value(r, f.ti, obj, sub, None)
        packed = f.packed or ctx is not None
        pk = self.packed_kind(f.ti) if packed else None
        if f.array == "auto":
            n = r_var(r, "varsize")
        elif f.array == "implicit":
            one = BW()
            n = (r.n - r.pos) // self.const_bits(f.ti)
        else:
            n = Ev(self.s, obj).ev(f.array)
            if n < 0:
                raise Unspecified("negative array length")
        if n >= 1 << 32:
            raise Unspecified("array length beyond 32 bits")
        out = []
        actx = {} if pk else None
        for i in range(n):
            if i > self.LENGTH_CAP:
                raise Unspecified("array beyond the simulated memory limit")
            if f.offset is not None and self.indexed(f):
                r.align(8)
                self.r_check_offset(r, f, obj, i)
            out.append(self.r_value(r, f.ti, obj, actx, i))
        return out

    @staticmethod
    def const_bits(ti):
        if ti.kind in ("bit", "int", "float"):
            return ti.bits
        if ti.kind == "bool":
            return 1
        raise ModelError("implicit element")

    def r_check_offset(self, r, f, obj, i):
        try:
            want = Ev(self.s, obj, i).ev(f.offset)
        except IndexError:
            raise DecodeError("index")
        if want * 8 != r.pos:
            raise DecodeError("offset")

    DEPTH_CAP = 40
    depth = 0

    def r_compound(self, r, obj, ctx):
        self.depth += 1
        try:
            if self.depth > self.DEPTH_CAP:
                raise Unspecified("nesting beyond the simulated stack limit")
            self.r_compound_(r, obj, ctx)
        finally:
            self.depth -= 1

    def r_compound_(self, r, obj, ctx):
        d = obj.d
        if d.kind == "struct":
            for f in d.fields:
                if f.extend:
                    if (r.pos + 7) // 8 * 8 >= r.n:
                        obj.f[f.name] = MISSING
                        continue
                    r.align(8)
                if f.cond is not None:
                    present = bool(Ev(self.s, obj).ev(f.cond))
                elif f.optional:
                    present = bool(r.r(1))
                else:
                    present = True
                if not present:
                    obj.f[f.name] = None
                    continue
                if f.align:
                    r.align(f.align)
                if f.offset is not None and not (f.array is not None and self.indexed(f)):
                    r.align(8)
                    self.r_check_offset(r, f, obj, None)
                obj.f[f.name] = self.r_field(r, f, obj, ctx)
                self.check_constraint(obj, f)
        elif d.kind == "choice":
            sel = select_choice(self.s, obj)
            if sel is None:
                raise DecodeError("choice")
            if sel[0] == "field":
                obj.tag = sel[1].name
                obj.value = self.r_field(r, sel[1], obj, ctx)
                self.check_constraint(obj, sel[1])
        else:
            if ctx is not None:
                i = ctx.setdefault("#", Delta()).read(r, lambda rr: r_var(rr, "varsize"), (0, (1 << 31) - 1))
            else:
                i = r_var(r, "varsize")
            if i >= len(d.fields):
                raise DecodeError("union")
            f = d.fields[i]
            obj.tag = f.name
            obj.value = self.r_field(r, f, obj, ctx)
            self.check_constraint(obj, f)

    def check_constraint(self, obj, f):
        if f.constraint is not None and not Ev(self.s, obj).ev(f.constraint):
            # a runtime may check it at once or after the whole object has been read
            if self.pending is None:
                self.pending = DecodeError("constraint", f.name)

    def decode(self, name, data, bits=None, params=(), start=0):
        o = Obj(self.s[name], params)
        r = BR(data, bits)
        r.pos = start
        self.pending = None
        try:
            self.r_compound(r, o, None)
        except DecodeError:
            if self.pending is None:
                raise
        if self.pending is not None:
            raise self.pending
        return o, r.pos


# ------------------------------------------------------------------------------------------------ value generation
STRS = ["", "a", "Zserio is cool", "\u20ac", "\U0001f600x", "nul\x00in", "x" * 127, "y" * 128, "\"q\\\n\t/\x01\x1f\x7f",
        "\u00e9" * 5, "'; DROP--", "\ufffd\uffff", "\u0080\u07ff\u0800"]


class Gen:
    def __init__(self, schema, rng, max_arr=5, allow_removed=False, strings=None, size=1.0, full_ext=False):
        self.full_ext = full_ext
        self.s, self.rng, self.max_arr = schema, rng, max_arr
        self.codec = Codec(schema)
        self.allow_removed = allow_removed
        self.strings = strings or STRS
        self.budget = 400
        self.depth = 0

    def pick_int(self, lo, hi):
        r = self.rng
        k = r.randrange(10)
        if k == 0:
            return lo
        if k == 1:
            return hi
        if k == 2:
            return min(hi, max(lo, r.choice((0, 1, -1, lo + 1, hi - 1, lo // 2, hi // 2))))
        if k <= 5:
            return min(hi, max(lo, r.randrange(-3, 9)))
        if k <= 7:
            # random magnitude: every byte length of variable integers gets its share
            b = r.randrange(0, max(1, max(abs(lo), abs(hi)).bit_length()) + 1)
            v = r.getrandbits(b) if b else 0
            if r.randrange(4) == 0:
                v = (1 << b) - r.randrange(2)
            if lo < 0 and r.randrange(2):
                v = -v
            return min(hi, max(lo, v))
        return r.randint(lo, hi)

    def scalar(self, ti, obj):
        r = self.rng
        k = ti.kind
        if k == "enum":
            return r.choice([v for n, v, fl in ti.decl.items if fl != "removed" or self.allow_removed])
        if k == "bitmask":
            v = 0
            for x in ti.decl.values():
                if r.randrange(2):
                    v |= x
            return v
        if k in ("bit", "int", "dynbit", "dynint", "var"):
            return self.pick_int(*int_range(ti, self.s, obj))
        if k == "bool":
            return bool(r.randrange(2))
        if k == "float":
            c = r.randrange(7)
            if c == 0:
                return 0.0
            if c == 1:
                return -0.0
            if c == 2:
                return r.choice([float("inf"), -float("inf"), 1.0, -1.5, 0.5])
            if c == 3:
                b = r.choice([1, (1 << (ti.bits - 1)) | 1])  # subnormal
                return bits_f(b, ti.bits)
            while True:
                v = bits_f(r.getrandbits(ti.bits), ti.bits)
                if v == v:
                    return v
        if k == "string":
            if r.randrange(3) == 0:
                return r.choice(self.strings)
            return "".join(r.choice("abcdefgh\u00e4\u4e2d 019") for _ in range(r.randrange(9)))
        if k == "bytes":
            return bytes(r.randrange(256) for _ in range(r.choice((0, 1, 2, 3, 7, 8, 17))))
        if k == "extern":
            n = r.choice((0, 1, 3, 7, 8, 9, 16, 17, 31, 33, 64, 65))
            m = (n + 7) // 8
            return (n, (r.getrandbits(n) << (-n % 8)).to_bytes(m, "big") if n else b"")
        raise ModelError(k)

    def value(self, ti, obj, index=None):
        if ti.is_compound():
            return self.compound(ti.decl, self.codec.eval_args(ti, obj, index))
        return self.scalar(ti, obj)

    def field_value(self, f, obj):
        if f.array is None:
            return self.value(f.ti, obj)
        if f.array in ("auto", "implicit"):
            n = self.rng.choice((0, 1, 2, 3, self.rng.randrange(self.max_arr + 1), self.max_arr))
        else:
            n = Ev(self.s, obj).ev(f.array)
        if self.budget < 0 and f.array in ("auto", "implicit"):
            n = min(n, 1)
        self.budget -= n
        if f.ti.packable_scalar() and n > 1 and self.rng.randrange(3):
            return self.series(f.ti, obj, n)
        return [self.value(f.ti, obj, i) for i in range(n)]

    def series(self, ti, obj, n):
        """arrays which are worth packing: small deltas, or constant"""
        if ti.kind in ("enum", "bitmask"):
            if self.rng.randrange(2):
                v = self.scalar(ti, obj)
                return [v] * n
            return [self.scalar(ti, obj) for _ in range(n)]
        lo, hi = int_range(ti, self.s, obj)
        v = self.pick_int(lo, hi)
        k = self.rng.choice((0, 0, 1, 2, 5, 9, 17, 33, 62))
        out = []
        for _ in range(n):
            out.append(v)
            d = self.rng.getrandbits(k) if k else 0
            if self.rng.randrange(2):
                d = -d
            v = min(hi, max(lo, v + d))
        return out

    def compound(self, d, params):
        self.depth += 1
        try:
            for attempt in range(60):
                o = self._compound(d, params)
                if o is not None:
                    return o
        finally:
            self.depth -= 1
        raise ModelError("cannot generate a value of %s%r" % (d.name, params))

    def _compound(self, d, params):
        o = Obj(d, params)
        if d.kind == "struct":
            missing = False
            for f in d.fields:
                if f.extend and not self.full_ext and (missing or self.rng.randrange(4) == 0):
                    missing = True
                    o.f[f.name] = MISSING
                    continue
                if f.cond is not None:
                    present = bool(Ev(self.s, o).ev(f.cond))
                elif f.optional:
                    present = bool(self.rng.randrange(2)) and self.depth < 7
                else:
                    present = True
                if not present:
                    o.f[f.name] = None
                    continue
                for _ in range(40):
                    o.f[f.name] = self.field_value(f, o)
                    if f.constraint is None or Ev(self.s, o).ev(f.constraint):
                        break
                else:
                    return None
            return o
        if d.kind == "choice":
            sel = select_choice(self.s, o)
            if sel is None:
                raise ModelError("no case matches in %s %r" % (d.name, params))
            f = sel[1]
        else:
            f = self.rng.choice(d.fields)
        if f is not None:
            o.tag = f.name
            for _ in range(40):
                o.value = self.field_value(f, o)
                if f.constraint is None or Ev(self.s, o).ev(f.constraint):
                    break
            else:
                return None
        return o

    def any_top(self, name):
        """a value of a type with scalar parameters chosen at random"""
        d = self.s[name]
        for _ in range(200):
            try:
                return self.top(name, [self.scalar(ti, None) for ti, _ in d.params])
            except ModelError:
                continue
        raise ModelError("cannot generate " + name)

    def top(self, name, params=()):
        self.budget = 400
        self.depth = 0
        o = self.compound(self.s[name], list(params))
        self.codec.grow_offsets = True
        self.codec.encode(o, "set")
        self.codec.encode(o, "set")
        return o


# ------------------------------------------------------------------------------------------------ tokens
def tok_scalar(ti, v):
    k = ti.kind
    if k == "bool":
        return "1" if v else "0"
    if k == "float":
        n = max(32, ti.bits)
        return str(f_bits(v, n))
    if k == "string":
        return "s" + v.encode("utf-8", "surrogatepass").hex()
    if k == "bytes":
        return "b" + bytes(v).hex()
    if k == "extern":
        return "e%d:%s" % (v[0], v[1].hex())
    return str(int(v))


def untok_scalar(ti, t):
    k = ti.kind
    if k == "bool":
        return t == "1"
    if k == "float":
        return bits_f(int(t), max(32, ti.bits))
    if k == "string":
        return bytes.fromhex(t[1:]).decode("utf-8", "replace")
    if k == "bytes":
        return bytes.fromhex(t[1:])
    if k == "extern":
        a, b = t[1:].split(":")
        return (int(a), bytes.fromhex(b))
    return int(t)


def tokens(o, out=None):
    """flat representation of a compound value, parameters included (scalar parameters only, '@' for compounds)"""
    if out is None:
        out = []
    d = o.d
    for (ti, _), pv in zip(d.params, o.params):
        out.append("@" if ti.is_compound() else tok_scalar(ti, pv))
    if d.kind == "struct":
        for f in d.fields:
            v = o.f[f.name]
            if f.extend:
                if v is MISSING:
                    out.append("!")
                    continue
                if not f.is_optional():
                    out.append("+")
            if f.is_optional():
                if v is None:
                    out.append(".")
                    continue
                out.append("+")
            tok_field(f, v, out)
    else:
        f = d.field(o.tag) if o.tag is not None else None
        out.append(str(f.idx if f else -1))
        if f:
            tok_field(f, o.value, out)
    return out


def tok_field(f, v, out):
    if f.array is not None:
        out.append("#%d" % len(v))
        for x in v:
            tokens(x, out) if f.ti.is_compound() else out.append(tok_scalar(f.ti, x))
    elif f.ti.is_compound():
        tokens(v, out)
    else:
        out.append(tok_scalar(f.ti, v))


class Untok:
    def __init__(self, schema, toks):
        self.s, self.t, self.p = schema, toks, 0
        self.codec = Codec(schema)

    def nx(self):
        self.p += 1
        return self.t[self.p - 1]

    def top(self, name, params=()):
        o = self.compound(self.s[name], params)
        if self.p != len(self.t):
            raise ModelError("trailing tokens")
        return o

    def compound(self, d, params):
        params = list(params)
        for i, (ti, _) in enumerate(d.params):
            t = self.nx()
            if not ti.is_compound():
                v = untok_scalar(ti, t)
                if i < len(params):
                    params[i] = v
                else:
                    params.append(v)
        o = Obj(d, params)
        if d.kind == "struct":
            for f in d.fields:
                if f.extend or f.is_optional():
                    t = self.nx()
                    if t == "!":
                        o.f[f.name] = MISSING
                        continue
                    if t == ".":
                        o.f[f.name] = None
                        continue
                o.f[f.name] = self.field(f, o)
        else:
            i = int(self.nx())
            if i >= 0:
                o.tag = d.fields[i].name
                o.value = self.field(d.fields[i], o)
        return o

    def field(self, f, o):
        if f.array is not None:
            n = int(self.nx()[1:])
            return [self.one(f, o, i) for i in range(n)]
        return self.one(f, o, None)

    def one(self, f, o, i):
        if f.ti.is_compound():
            return self.compound(f.ti.decl, self.codec.eval_args(f.ti, o, i))
        return untok_scalar(f.ti, self.nx())


def load(paths):
    s = Schema()
    for p in paths:
        with open(p, encoding="utf-8") as fh:
            s.add_text(fh.read())
    return s.finish()
