"""Node hosting generated Python code.  argv: lib dir, generated dir, runtime dir(s, ':'), schema file..."""
import copy
import importlib
import os
import sys

LIB, GEN, RT = sys.argv[1:4]
sys.path[:0] = [GEN] + RT.split(":") + [LIB]
sys.dont_write_bytecode = True
import zs  # noqa: E402
import zserio  # noqa: E402
from zs import MISSING, Obj  # noqa: E402

S = zs.load(sys.argv[4:])
_in, _out = sys.stdin, sys.stdout
H = {}


def snake(n):
    out = ""
    for i, c in enumerate(n):
        if c.isupper() and i and not n[i - 1].isupper() and n[i - 1] != "_":
            out += "_"
        elif c.isupper() and i and i + 1 < len(n) and n[i + 1].islower() and n[i - 1] != "_":
            out += "_"
        out += c.lower()
    return out


_cls = {}


def cls(decl):
    c = _cls.get(decl.name)
    if c is None:
        c = _cls[decl.name] = getattr(importlib.import_module(decl.pkg + ".api" if decl.pkg else "api"), decl.name)
    return c


def scalar(ti, v):
    k = ti.kind
    if k == "enum":
        return cls(ti.decl)(v)
    if k == "bitmask":
        return cls(ti.decl).from_value(v)
    if k == "bytes":
        return bytearray(v)
    if k == "extern":
        return zserio.BitBuffer(dirty(v[0], v[1]), v[0])
    return v


TAIL = [0]


def dirty(bits, data):
    """the unused bits of the last byte do not belong to the value of a bit buffer, so anything may be there"""
    data = bytes(data)
    if TAIL[0]:
        TAIL[0] += 1
        if bits % 8:
            data = data[:-1] + bytes([data[-1] | (TAIL[0] * 37 & (0xff >> bits % 8))])
        data += b"\xa5\x5a\x33"[:TAIL[0] % 4]
    return data


def clean(bits, data):
    data = bytes(data)[:(bits + 7) // 8]
    return data[:-1] + bytes([data[-1] & (0xff00 >> bits % 8) & 0xff]) if bits % 8 and data else data


def unscalar(ti, v):
    k = ti.kind
    if k in ("enum", "bitmask"):
        return v.value
    if k == "bytes":
        return bytes(v)
    if k == "extern":
        return (v.bitsize, clean(v.bitsize, v.buffer))
    return v


def to_py(ti, v, mode, parent=None):
    if ti.is_compound():
        if mode == "e":
            if not any(pti.is_compound() for pti, _ in v.d.params):
                return build_in_place(v)
            mode = "s"
        return build(v, mode, ti, parent)
    return scalar(ti, v)


def fval(f, v, mode, owner, ows=None):
    if v is None or v is MISSING:
        return None
    if f.array is not None:
        return [to_py(f.ti, x, mode, owner) for x in v]
    return to_py(f.ti, v, mode, owner)


def build(o, mode, ti=None, parent=None):
    """parent: (model object, python object or {field: value}) for compound parameters"""
    c = cls(o.d)
    args = []
    for i, ((pti, _), pv) in enumerate(zip(o.d.params, o.params)):
        if pti.is_compound():
            e = ti.args[i]
            if e[0] != "id":
                raise Exception("compound argument must be a field name")
            name = e[1]
            got = parent[1]
            args.append(got[name] if isinstance(got, dict) else getattr(got, snake(name)))
        else:
            args.append(scalar(pti, pv))
    if o.d.kind == "struct":
        if mode == "c":
            vals, d = {}, o.d
            for f in d.fields:
                v = fval(f, o.f[f.name], mode, (o, vals))
                vals[f.name] = v
            return c(*args, **{snake(n) + "_": v for n, v in vals.items()
                               if v is not None or (d.field(n).optional and d.field(n).default is not None)})
        obj = c(*args)
        for f in o.d.fields:
            v = o.f[f.name]
            if v is MISSING:
                continue
            if v is None and not (f.optional and f.default is not None) and f.cond is None:
                continue
            setattr(obj, snake(f.name), fval(f, v, mode, (o, obj)))
        return obj
    if o.tag is None:
        return c(*args)
    f = o.d.field(o.tag)
    if mode == "c":
        return c(*args, **{snake(f.name) + "_": fval(f, o.value, mode, (o, {}))})
    obj = c(*args)
    setattr(obj, snake(f.name), fval(f, o.value, mode, (o, obj)))
    return obj


def keep(obj, m):
    """gives a used object (which stays the same object) a new value"""
    fresh = build(m, "s")
    if obj is None or m.d.params:
        return fresh
    for f in m.d.fields if m.d.kind == "struct" else [m.d.field(m.tag)]:
        if not f.extend or getattr(fresh, "is_%s_present" % snake(f.name))():
            setattr(obj, snake(f.name), getattr(fresh, snake(f.name)))
    return obj


KEPT = {}


def build_in_place(o):
    """default constructed object whose bytes fields are extended in place"""
    obj = cls(o.d)(*[scalar(pti, pv) for (pti, _), pv in zip(o.d.params, o.params)])
    if o.d.kind != "struct":
        return build(o, "s")
    for f in o.d.fields:
        v = o.f[f.name]
        if v is MISSING or v is None and not (f.optional and f.default is not None) and f.cond is None:
            continue
        if f.ti.kind == "bytes" and f.array is None and not f.is_optional():
            getattr(obj, snake(f.name)).extend(v)
        else:
            setattr(obj, snake(f.name), fval(f, v, "e" if f.ti.is_compound() and not f.ti.decl.params else "s", (o, obj)))
    return obj


def model(ti, v):
    return to_model(v, ti.decl) if ti.is_compound() else unscalar(ti, v)


def fmodel(f, v):
    if v is None:
        return None
    if f.array is not None:
        return [model(f.ti, x) for x in v]
    return model(f.ti, v)


def to_model(obj, d):
    params = [None if ti.is_compound() else unscalar(ti, getattr(obj, snake(n))) for ti, n in d.params]
    o = Obj(d, params)
    if d.kind == "struct":
        for f in d.fields:
            n = snake(f.name)
            if f.extend and not getattr(obj, "is_%s_present" % n)():
                o.f[f.name] = MISSING
                continue
            o.f[f.name] = fmodel(f, getattr(obj, n))
        return o
    tag = obj.choice_tag
    if tag >= 0:
        f = d.fields[tag]
        o.tag = f.name
        o.value = fmodel(f, getattr(obj, snake(f.name)))
    return o


def dump_obj(obj, d):
    return " ".join(zs.tokens(to_model(obj, d)))


def field_tokens(f, v, owner):
    if v is None:
        return "."
    out = []
    zs.tok_field(f, fmodel(f, v), out)
    return "+ " + " ".join(out)


class Fail(Exception):
    """raised by the simulated environment"""


def say(line):
    _out.write(line + "\n")
    _out.flush()


def event(line):
    say("EV " + line)
    while True:
        ln = _in.readline()
        if not ln:
            os._exit(0)
        ln = ln.rstrip("\n")
        if ln.startswith("RET"):
            r = ln[4:]
            if r.startswith("fail"):
                raise Fail(r)
            return r
        handle(ln)


def errname(e):
    t = type(e)
    names = [c.__name__ for c in t.__mro__ if c.__name__ not in ("object", "BaseException", "Exception")]
    return names[0] + ("/zserio" if isinstance(e, zserio.PythonRuntimeException) else "")


def handle(line):
    try:
        r = command(line.split(" "))
        answer = "OK" + (" " + r if r else "")
    except Exception as e:  # noqa
        msg = str(e).replace("\n", " ")[:200].encode("ascii", "replace").decode()
        if os.environ.get("ZSIM_TB"):
            import traceback
            traceback.print_exc()
        answer = "ERR %s %s" % (errname(e), msg)
    # only now: whatever the exception kept alive is gone before anybody else goes on
    say(answer)


def buf(bits, hexs):
    data = bytes.fromhex(hexs)
    return zserio.BitBuffer(data, bits)


def model_arg(tname, toks, params=()):
    return zs.Untok(S, toks).top(tname, params)


def field_arg(f, toks, owner_model):
    u = zs.Untok(S, toks)
    return u.field(f, owner_model)


def params_of(d, toks):
    return [scalar(ti, zs.untok_scalar(ti, t)) for (ti, _), t in zip(d.params, toks)]


def reader_of(how, bits, hexs):
    data = bytes.fromhex(hexs)
    pos = int(how[1:] or 0)
    r = zserio.BitStreamReader(data, bits)
    if pos:
        r.bitposition = pos
    return r


class LimitedWriter:
    """a writer whose medium is full after some bits"""

    def __init__(self, w, limit):
        self._w, self._limit = w, limit

    def __getattr__(self, n):
        m = getattr(self._w, n)
        if not callable(m):
            return m

        def call(*a, **k):
            r = m(*a, **k)
            if self._w.bitposition > self._limit:
                raise Fail("medium full")
            return r
        return call


def encode(obj, how):
    if how == "s":
        b = zserio.serialize(obj)
        return "%d %s" % (b.bitsize, bytes(b.buffer).hex() or "-")
    if how == "b":
        b = zserio.serialize_to_bytes(obj)
        return "%d %s" % (len(b) * 8, bytes(b).hex() or "-")
    pos = int(how[1:] or 0)
    w = zserio.BitStreamWriter()
    if how[0] == "f":
        obj.write(LimitedWriter(w, pos))
        return "%d %s" % (w.bitposition, bytes(w.byte_array).hex() or "-")
    for _ in range(pos):
        w.write_bool(False)
    if how[0] == "i":
        obj.initialize_offsets(pos)
    obj.write(w)
    return "%d %s" % (w.bitposition, bytes(w.byte_array).hex() or "-")


# ---- pub/sub and services
class Transport(zserio.PubsubInterface):
    def __init__(self, name):
        self.name, self.subs = name, {}

    def publish(self, topic, data, context=None):
        event("pub %s %s %s %s" % (self.name, topic, bytes(data).hex() or "-", context))

    def subscribe(self, topic, callback, context=None):
        i = int(event("sub %s %s %s" % (self.name, topic, context)))
        self.subs[i] = callback
        return i

    def unsubscribe(self, subscription_id):
        event("unsub %s %s" % (self.name, subscription_id))
        self.subs.pop(subscription_id, None)


class ClientTransport(zserio.ServiceClientInterface):
    def __init__(self, name):
        self.name = name

    def call_method(self, method_name, request, context=None):
        try:
            data = request.byte_array
        except Exception:
            data = request.byte_array       # this transport tries once more
        if request.byte_array != data:
            raise ValueError("HARNESS-DETECTED: request data changed")
        r = event("call %s %s %s %s" % (self.name, method_name, bytes(data).hex() or "-", context))
        return bytes.fromhex(r[3:]) if r[3:] != "-" else b""


def msg_tokens(ti, message):
    if ti.is_compound():
        return dump_obj(message, ti.decl)
    return "b" + bytes(message).hex()


def msg_object(ti, tok):
    """H handle or bytes literal"""
    if tok[0] == "b":
        return bytes.fromhex(tok[1:])
    return H[tok][0]


def make_service(name, d):
    base = cls(d).Service
    svc = base()

    def add(mname, rti, qti):
        def impl(request, context=None):
            r = event("impl %s %s %s | %s" % (name, mname, context, msg_tokens(qti, request)))
            toks = r[3:].split(" ")
            if rti.is_compound():
                m = model_arg(rti.decl.name, toks[1:])
                if toks[0] == "k":
                    o = KEPT[(name, rti.decl.name)] = keep(KEPT.get((name, rti.decl.name)), m)
                    return o
                return build(m, toks[0])
            return bytes.fromhex(toks[1][1:])
        setattr(svc, "_%s_impl" % snake(mname), impl)

    for mname, rti, qti in d.methods:
        add(mname, rti, qti)
    return svc


def ctx(tok):
    return None if tok == "None" else int(tok)


EXTRA = {}


def owner_model(o, d):
    om = Obj(d, [None if ti.is_compound() else unscalar(ti, getattr(o, snake(n))) for ti, n in d.params])
    if d.kind == "struct":
        om.f = _Lazy(o, d)
    return om


def command(a):
    op = a[0]
    if op == "new":
        m = model_arg(a[2], a[4:])
        if a[3] == "k":
            H[a[1]] = (keep(H[a[1]][0] if a[1] in H else None, m), S[a[2]])
        else:
            H[a[1]] = (build_in_place(m) if a[3] == "e" else build(m, a[3]), S[a[2]])
        return ""
    if op == "dump":
        o, d = H[a[1]]
        return dump_obj(o, d)
    if op == "enc":
        return encode(H[a[1]][0], a[2])
    if op == "dec":
        # dec H Type how bits hex params...
        d = S[a[2]]
        c = cls(d)
        ps = params_of(d, a[6:])
        hexs = "" if a[5] == "-" else a[5]
        if a[3] == "s":
            o = zserio.deserialize(c, buf(int(a[4]), hexs), *ps)
        elif a[3] == "b":
            o = zserio.deserialize_from_bytes(c, bytes.fromhex(hexs), *ps)
        elif a[3][0] == "R":
            o = H[a[1]][0]
            o.read(reader_of(a[3], int(a[4]), hexs))
        else:
            o = c.from_reader(reader_of(a[3], int(a[4]), hexs), *ps)
        H[a[1]] = (o, d)
        return ""
    if op == "size":
        return str(H[a[1]][0].bitsizeof(int(a[2])))
    if op == "init":
        return str(H[a[1]][0].initialize_offsets(int(a[2])))
    if op == "set":
        o, d = H[a[1]]
        f = d.fields[int(a[2])]
        om = owner_model(o, d)
        v = field_arg(f, a[4:], om)
        setattr(o, snake(f.name), fval(f, v, a[3], (om, o)))
        return ""
    if op == "nset":    # nset H path mode tokens: path = field[,element],field... ; "." resets
        o, d = H[a[1]]
        path = [int(x) for x in a[2].split(",")]
        while True:
            f = d.fields[path.pop(0)]
            if not path:
                break
            v = getattr(o, snake(f.name))
            if f.array is not None:
                i = path.pop(0)
                if not path:
                    v[i] = to_py(f.ti, zs.Untok(S, a[4:]).one(f, owner_model(o, d), i), a[3], (owner_model(o, d), o))
                    return ""
                v = v[i]
            o, d = v, f.ti.decl
        if a[4] == ".":
            getattr(o, "reset_" + snake(f.name))()
        else:
            om = owner_model(o, d)
            setattr(o, snake(f.name), fval(f, field_arg(f, a[4:], om), a[3], (om, o)))
        return ""
    if op == "rst":
        o, d = H[a[1]]
        getattr(o, "reset_" + snake(d.fields[int(a[2])].name))()
        return ""
    if op == "get":
        o, d = H[a[1]]
        f = d.fields[int(a[2])]
        return field_tokens(f, getattr(o, snake(f.name)), o)
    if op == "flags":
        o, d = H[a[1]]
        f = d.fields[int(a[2])]
        n = snake(f.name)
        out = []
        for k in ("used", "set", "present"):
            m = getattr(o, "is_%s_%s" % (n, k), None)
            out.append("-" if m is None else str(int(m())))
        return " ".join(out)
    if op == "sub":  # alias a field of H2 under handle H (arrays: element index)
        o, d = H[a[2]]
        f = d.fields[int(a[3])]
        v = getattr(o, snake(f.name))
        if f.array is not None:
            v = v[int(a[4])]
        H[a[1]] = (v, f.ti.decl)
        return ""
    if op == "eq":
        return str(int(H[a[1]][0] == H[a[2]][0]))
    if op == "hash":
        return str(hash(H[a[1]][0]) & 0xFFFFFFFF)
    if op == "copy":
        o, d = H[a[2]]
        H[a[1]] = (copy.deepcopy(o), d)
        return ""
    if op == "fn":
        o, d = H[a[1]]
        v = getattr(o, snake(a[2]))()
        return fn_result(v)
    if op == "del":
        H.pop(a[1], None)
        return ""
    if op == "reset":
        H.clear()
        KEPT.clear()
        TAIL[0] = 0
        return ""
    if op == "dirty":
        TAIL[0] = 1
        return ""
    if op == "psnew":
        t = Transport(a[1])
        H[a[1]] = (cls(S[a[2]])(t), S[a[2]], t)
        return ""
    if op == "pspub":
        p, d, t = H[a[1]]
        name, mode, topic, ti = d.messages[int(a[2])]
        getattr(p, "publish_" + snake(name))(msg_object(ti, a[3]), ctx(a[4]))
        return ""
    if op == "pssub":
        p, d, t = H[a[1]]
        name, mode, topic, ti = d.messages[int(a[2])]
        cbid = a[3]

        def cb(topic, message):
            event("cb %s %s %s" % (cbid, topic, msg_tokens(ti, message)))
        return str(getattr(p, "subscribe_" + snake(name))(cb, ctx(a[4])))
    if op == "psunsub":
        H[a[1]][0].unsubscribe(int(a[2]))
        return ""
    if op == "psdel":
        t = H[a[1]][2]
        t.subs[int(a[2])](a[3], bytes.fromhex(a[4]) if a[4] != "-" else b"")
        return ""
    if op == "svnew":
        H[a[1]] = (make_service(a[1], S[a[2]]), S[a[2]])
        return ""
    if op == "svcall":
        svc = H[a[1]][0]
        r = svc.call_method(a[2], bytes.fromhex(a[3]) if a[3] != "-" else b"", ctx(a[4]))
        return bytes(r.byte_array).hex() or "-"
    if op == "svinfo":
        svc = H[a[1]][0]
        return svc.service_full_name + " " + " ".join(svc.method_names)
    if op == "clnew":
        H[a[1]] = (cls(S[a[2]]).Client(ClientTransport(a[1])), S[a[2]])
        return ""
    if op == "clcall":
        c, d = H[a[1]]
        name, rti, qti = d.methods[int(a[2])]
        r = getattr(c, snake(name))(msg_object(qti, a[3]), ctx(a[4]))
        return msg_tokens(rti, r)
    if op in EXTRA:
        return EXTRA[op](a)
    raise Exception("unknown command " + op)


def fn_result(v):
    if isinstance(v, bool):
        return str(int(v))
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return "s" + v.encode().hex()
    if hasattr(v, "value"):
        return str(v.value)
    return repr(v)


class _Lazy(dict):
    """field values of a live object, converted on demand (for evaluating array lengths and arguments)"""

    def __init__(self, o, d):
        dict.__init__(self)
        self.o, self.d = o, d

    def __missing__(self, k):
        f = self.d.field(k)
        return fmodel(f, getattr(self.o, snake(k)))

    def get(self, k, default=None):
        return self[k]

    def __contains__(self, k):
        return self.d.field(k) is not None


def main():
    if os.environ.get("ZSIM_EXTRA"):
        for m in os.environ["ZSIM_EXTRA"].split(","):
            importlib.import_module(m).register(sys.modules["__main__"])
    say("OK ready")
    while True:
        ln = _in.readline()
        if not ln:
            return
        handle(ln.rstrip("\n"))


if __name__ == "__main__":
    main()
