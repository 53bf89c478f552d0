"""C05: histories of operations over pools of objects; what an object serializes to depends on its value alone."""
import zs
from sim import Violation
from scen.common import LANGS, NetScenario, documented, hx, ref_decode, toks


def has_offsets(d, seen=()):
    if d.name in seen:
        return False
    for f in d.fields:
        if f.offset is not None or f.ti.is_compound() and has_offsets(f.ti.decl, seen + (d.name,)):
            return True
    return False


def args_ok(codec, o, depth=0):
    """the parameters every child was built with are those its parent would give it now"""
    vals = list(o.f.items()) if o.d.kind == "struct" else [(o.tag, o.value)]
    for n, v in vals:
        if v is None or v is zs.MISSING or n is None:
            continue
        f = o.d.field(n)
        if not f.ti.is_compound():
            continue
        for i, x in enumerate(v if f.array is not None else [v]):
            want = codec.eval_args(f.ti, o, i if f.array is not None else None)
            for (pti, _), a, b in zip(f.ti.decl.params, x.params, want):
                if (a is not b) if pti.is_compound() else a != b:
                    return False
            if depth < 45 and not args_ok(codec, x, depth + 1):
                return False
    return True


def safe_args_ok(codec, o):
    try:
        return args_ok(codec, o)
    except (zs.ModelError, zs.Unspecified, TypeError, KeyError, IndexError, AttributeError, ArithmeticError):
        return False


def vtoks(f, v):
    if v is None:
        return "."
    out = []
    zs.tok_field(f, v, out)
    return " ".join(out)


class C05(NetScenario):
    PROP = "C05"
    MAX_OPS = 50
    RULE = ("one evaluation = one simulated history over a pool of objects applied in lockstep in all runtimes: sets, resets, nested "
            "and in-place changes, failed and interrupted writes, retries, offset initialisations, size queries, copies, reads into "
            "used objects (damaged ones included); distinct = distinct (type, operation, previous operation, status of the object) "
            "plus distinct serialized images compared")
    STUBS = ["output medium: writers which become full after a chosen number of bits"]
    EXPECT = ["op.new", "op.set", "op.nset", "op.copy", "op.reread", "op.init", "op.enc", "probe.valid", "probe.refused",
              "probe.unknown", "fault.full_medium", "fault.damaged_read", "probe.stale_offsets", "probe.retry", "op.wrong"]
    MODES = "sce"

    @classmethod
    def config(cls, rng, tier):
        return {"ops": rng.choice([15, 30, 60]), "arr": rng.choice([2, 3, 5, 8]), "full": rng.random() < 0.6,
                "types": rng.choice([1, 2, 4]), "tail": rng.random() < 0.5}

    def begin(self, cfg):
        self.cfg = cfg
        self.pool_ = {}     # handle -> {"o": model, "fuzzy": bool, "last": op}
        self.n = 0
        self.chosen = None
        if cfg["tail"]:
            self.must("dirty", "dirty")

    # ------------------------------------------------------------------ generation
    def gen_value(self, rng, name, params=None, full=None):
        g = zs.Gen(self.schema, rng, max_arr=self.cfg["arr"], full_ext=self.cfg["full"] if full is None else full)
        for _ in range(30):
            try:
                o = g.any_top(name) if params is None else g.top(name, params)
            except zs.ModelError:
                return None
            data, bits = self.codec.encode(o)
            if ref_decode(self.codec, name, data, bits, o.params)[0] == "ok":
                return o
        return None

    def gen(self, rng):
        if self.chosen is None:
            self.chosen = [rng.choice(self.types()) for _ in range(self.cfg["types"])]
        if not self.pool_ or (rng.random() < 0.1 and len(self.pool_) < 6):
            return self.gen_new(rng)
        for _ in range(8):
            h = rng.choice(sorted(self.pool_))
            e = self.pool_[h]
            k = rng.choice(["set", "set", "set", "nset", "nset", "enc", "enc", "enc", "size", "init", "copy", "reread", "check",
                            "assign", "swapin"])
            op = getattr(self, "gen_" + k)(rng, h, e)
            if op:
                return op
        return self.gen_new(rng)

    def gen_new(self, rng):
        o = self.gen_value(rng, rng.choice(self.chosen))
        if o is None:
            self.chosen = None
            return self.gen(rng)
        self.n += 1
        t = toks(o)
        how = "d" if "!" in t.split(" ") else rng.choice("scesd")
        return ["new", "h%d" % self.n, o.d.name, how, t]

    def full_target(self, rng, e):
        o = e["o"]
        return self.gen_value(rng, o.d.name, list(o.params), True)

    def gen_set(self, rng, h, e):
        o = e["o"]
        d = o.d
        if not d.fields:
            return None
        kind = rng.random()
        missing = d.kind == "struct" and any(v is zs.MISSING for v in o.f.values())
        if d.kind == "choice" and len(d.fields) > 1 and kind > 0.8:
            f = rng.choice(d.fields)
            v = self.field_choice(rng, o, f)
            if v is NotImplemented or v is None:
                return None
            return ["wrong", h, f.idx, vtoks(f, v), rng.choice(self.MODES)]
        if kind < 0.35 or e["fuzzy"] or missing or d.kind != "struct" or not self.consistent(e):
            t = self.full_target(rng, e)
            if t is None:
                return None
            if d.kind != "struct":
                if t.tag is None:
                    return None
                return ["set", h, [[d.field(t.tag).idx, vtoks(d.field(t.tag), t.value), rng.choice(self.MODES)]], []]
            steps = [[f.idx, vtoks(f, t.f[f.name]), rng.choice(self.MODES)] for f in d.fields]
            if not missing:
                rng.shuffle(steps)
            dep = [[f.idx, vtoks(f, t.f[f.name]), rng.choice(self.MODES)] for f in d.fields if f.ti.is_compound() and f.ti.args]
            steps += dep
            probes = sorted([rng.randrange(len(steps)), rng.choice(["s", "s", "w", "size", "hash", "eq", "dump", "init", "f9"])]
                            for _ in range(rng.choice([0, 1, 2, 4])))
            return ["set", h, steps, probes]
        # a few fields only: may leave the object invalid
        steps = []
        for f in rng.sample(d.fields, min(len(d.fields), rng.choice([1, 1, 2, 3]))):
            v = self.field_choice(rng, o, f)
            if v is not NotImplemented:
                steps.append([f.idx, vtoks(f, v), rng.choice(self.MODES)])
        if not steps:
            return None
        return ["set", h, steps, [[len(steps) - 1, rng.choice(["s", "w", "b", "dump"])]]]

    def field_choice(self, rng, o, f):
        """a new value for one field of a live object, valid or not"""
        if f.is_optional() and o.f.get(f.name) is not None and rng.random() < 0.3:
            return None
        g = zs.Gen(self.schema, rng, max_arr=self.cfg["arr"], full_ext=True)
        try:
            if f.array is None and f.constraint is not None and f.ti.kind in ("bit", "int", "var") and rng.random() < 0.5:
                return g.pick_int(*zs.int_range(f.ti, self.schema, o))
            return g.field_value(f, o)
        except (zs.ModelError, zs.Unspecified, TypeError, KeyError, AttributeError, IndexError, ArithmeticError, ValueError):
            return NotImplemented

    def gen_nset(self, rng, h, e):
        if e["fuzzy"] or not self.consistent(e):
            return None
        o, path = e["o"], []
        for _ in range(rng.choice([1, 2, 3, 5])):
            cands = []
            for f in (o.d.fields if o.d.kind == "struct" else [o.d.field(o.tag)] if o.tag else []):
                v = o.f[f.name] if o.d.kind == "struct" else o.value
                if v is None or v is zs.MISSING or f.array is not None and not v:
                    continue
                if f.ti.is_compound() or f.array is not None:
                    cands.append((f, v))
            if not cands or path and rng.random() < 0.3:
                break
            f, v = rng.choice(cands)
            path.append(f.idx)
            if f.array is not None:
                i = rng.randrange(len(v))
                path.append(i)
                v = v[i]
                if not f.ti.is_compound() or rng.random() < 0.2:
                    g = zs.Gen(self.schema, rng, max_arr=self.cfg["arr"], full_ext=True)
                    try:
                        x = g.value(f.ti, o, i)
                    except (zs.ModelError, zs.Unspecified):
                        return None
                    t = toks(x) if f.ti.is_compound() else zs.tok_scalar(f.ti, x)
                    return ["nset", h, path, t, rng.choice(self.MODES)]
            o = v
        if not path:
            return None
        fs = o.d.fields if o.d.kind == "struct" else [o.d.field(o.tag)] if o.tag else []
        if not fs:
            return None
        f = rng.choice(fs)
        if o.d.kind == "struct" and o.f[f.name] is zs.MISSING:
            return None
        v = self.field_choice(rng, o, f)
        if v is NotImplemented:
            return None
        return ["nset", h, path + [f.idx], vtoks(f, v), rng.choice(self.MODES)]

    def gen_enc(self, rng, h, e):
        how = rng.choice(["s", "s", "b", "w0", "w", "i", "i", "f"])
        if how in ("w", "i"):
            how += str(rng.choice([0, 1, 3, 7, 8, 13, 64]))
        if how == "f":
            how += str(rng.randrange(1, max(2, self.bits(e) + 8)))
        return ["enc", h, how]

    def bits(self, e):
        try:
            return self.codec.encode(e["o"])[1]
        except Exception:  # noqa
            return 50

    def gen_size(self, rng, h, e):
        return ["size", h, rng.choice([0, 1, 3, 7, 8, 13, 64, 4097])]

    def gen_init(self, rng, h, e):
        return ["init", h, rng.choice([0, 1, 3, 7, 8, 13, 64])]

    def gen_copy(self, rng, h, e):
        if e["fuzzy"] or not self.consistent(e) or len(self.pool_) > 7:
            return None
        self.n += 1
        return ["copy", "h%d" % self.n, h, rng.choice("ccpm")]

    def gen_assign(self, rng, h, e):
        c = [x for x, y in sorted(self.pool_.items()) if x != h and y["o"].d is e["o"].d]
        if e["fuzzy"] or not self.consistent(e):
            return None
        if not c or rng.random() < 0.15:
            return ["copy", h, h, "a"]
        return ["copy", rng.choice(c), h, rng.choice("aaM")]

    def gen_swapin(self, rng, h, e):
        return None

    def gen_reread(self, rng, h, e):
        o = self.gen_value(rng, e["o"].d.name, list(e["o"].params))
        if o is None:
            return None
        start = rng.choice([0, 0, 1, 3, 7, 8, 13])
        self.codec.encode(o, "set", start)
        data, bits = self.codec.encode(o, "ignore", start)
        if ref_decode(self.codec, o.d.name, data, bits, o.params, start)[0] != "ok":
            return None
        cut = rng.randrange(start, bits) if bits > start and rng.random() < 0.4 else None
        return ["reread", h, start, bits, data.hex(), cut]

    def gen_check(self, rng, h, e):
        return ["check", h]

    # ------------------------------------------------------------------ model
    def consistent(self, e):
        return not e["fuzzy"] and self.status(e)[0] == "valid"

    def status(self, e, start=0, set_offsets=False):
        """-> (valid|refuse|unknown, bytes, bits, why)"""
        o = e["o"]
        if e["fuzzy"] or not safe_args_ok(self.codec, o):
            return "unknown", None, 0, "parameters"
        try:
            if set_offsets:
                self.codec.encode(o, "set", start)
            data, bits = self.codec.encode(o, "ignore", start)
            sound = self.codec.offsets_ok(o, start)
        except (zs.ModelError, zs.Unspecified, TypeError, KeyError, IndexError, AttributeError, ArithmeticError, ValueError):
            return "unknown", None, 0, "cannot be encoded"
        kind, val, _ = ref_decode(self.codec, o.d.name, data, bits, o.params, start)
        if kind == "ok":
            if toks(val) != toks(o):
                return "unknown", None, 0, "not canonical"
            return ("valid" if sound else "refuse"), data, bits, "" if sound else "offset"
        if kind == "err" and val in ("constraint", "offset"):
            return "refuse", None, bits, val
        return "unknown", None, 0, str(val)

    # ------------------------------------------------------------------ execution
    def all(self, line):
        out = {}
        for lang in LANGS:
            out[lang] = self.node(lang).cmd(line.rstrip())
        return out

    def must(self, line, what, cls="refused"):
        out = self.all(line)
        for lang in LANGS:
            if not out[lang][0]:
                raise Violation(cls, "%s:%s" % (lang, what), "%s: %s fails: %s" % (lang, line[:400], out[lang][1]))
        return {k: v[1] for k, v in out.items()}

    def apply(self, op):
        k = op[0]
        if k != "new" and op[1 if k != "copy" else 2] not in self.pool_:
            return
        e = self.pool_.get(op[2] if k == "copy" else op[1])
        before = e["last"] if e else None
        self.stats.hit("op." + k)
        self.stats.hit("simtime")
        getattr(self, "do_" + k)(*op[1:])
        e = self.pool_.get(op[1])
        if e:
            e["last"] = k
            self.stats.state(e["o"].d.name, k, before, e["fuzzy"], e.get("st"))

    def make(self, h, o, how):
        t = toks(o)
        if "!" in t.split(" "):
            how = "d"
        if how == "d":
            data, bits = self.codec.encode(o)
            ps = self.params_text(o.d, o.params)
            r = ref_decode(self.codec, o.d.name, data, bits, o.params)
            if r[0] != "ok" or toks(r[1]) != t:
                # images with stale offsets cannot be read at position 0
                return False
            self.must("dec %s %s s %d %s%s" % (h, o.d.name, bits, hx(data), ps), "dec")
        else:
            self.must("new %s %s %s %s" % (h, o.d.name, how, t), "new")
        return True

    def do_new(self, h, name, how, t):
        o = self.obj(name, t)
        if self.make(h, o, how):
            self.pool_[h] = {"o": o, "fuzzy": False, "last": "new"}
            self.verify(h)

    def verify(self, h):
        """a valid object is compared with a freshly built one of equal value"""
        e = self.pool_[h]
        st, data, bits, why = self.status(e)
        e["st"] = st
        if e["fuzzy"] or not (st == "valid" or why == "offset"):
            return
        o = e["o"]
        t = toks(o)
        d = self.must("dump " + h, "dump")
        for lang in LANGS:
            if d[lang] != t:
                raise Violation("value", "%s:%s" % (lang, o.d.name), "%s: %s of type %s is\n %s\n not\n %s" % (
                    lang, h, o.d.name, d[lang][:900], t[:900]))
        if not self.make("f", self.copy_model(o), "s"):
            return
        a, b = self.must("hash " + h, "hash"), self.must("hash f", "hash")
        q, r = self.must("eq %s f" % h, "eq"), self.must("eq f " + h, "eq")
        for lang in LANGS:
            sig = "%s:%s" % (lang, o.d.name)
            if a[lang] != b[lang]:
                raise Violation("hash", sig, "%s: hash of %s is %s, of a fresh object of equal value %s\n %s" % (
                    lang, h, a[lang], b[lang], t[:900]))
            if q[lang] != "1" or r[lang] != "1":
                raise Violation("equality", sig, "%s: %s does not equal a fresh object of equal value (%s, %s)\n %s" % (
                    lang, h, q[lang], r[lang], t[:900]))
        lt = self.node("cpp").ok("lt %s f" % h) + self.node("cpp").ok("lt f %s" % h)
        if lt != "00":
            raise Violation("equality", "cpp:" + o.d.name, "cpp: %s and a fresh object of equal value are ordered (%s)\n %s" % (
                h, lt, t[:900]))
        for x, y in sorted(self.pool_.items()):
            if x != h and y["o"].d is o.d and not y["fuzzy"] and y.get("st") == "valid" and differ(t, toks(y["o"])):
                for lang, v in self.must("eq %s %s" % (h, x), "eq").items():
                    if v != "0":
                        raise Violation("equality", "%s:%s" % (lang, o.d.name), "%s: objects of different value are equal\n %s\n %s" % (
                            lang, t[:900], toks(y["o"])[:900]))
        if o.d.kind == "struct":
            for f in o.d.fields:
                if f.is_optional() or f.extend:
                    self.check_flags(h, o, f)

    def check_flags(self, h, o, f):
        v = o.f[f.name]
        for lang, r in self.must("flags %s %d" % (h, f.idx), "flags").items():
            used, set_, pres = r.split(" ")
            want = [v is not None and v is not zs.MISSING, v is not None and v is not zs.MISSING, v is not zs.MISSING]
            for name, got, w in (("used", used, want[0]), ("set", set_, want[1]), ("present", pres, want[2])):
                if v is zs.MISSING and name != "present":
                    continue
                if got != "-" and got != str(int(w)):
                    raise Violation("flags", "%s:%s" % (lang, o.d.name), "%s: is %s.%s %s: %s, value %r" % (
                        lang, o.d.name, f.name, name, got, v))

    def copy_model(self, o):
        return self.obj(o.d.name, toks(o))

    def others(self, h):
        for x, e in sorted(self.pool_.items()):
            if x != h and not e["fuzzy"] and e.get("st") == "valid":
                t = toks(e["o"])
                for lang, d in self.must("dump " + x, "dump").items():
                    if d != t:
                        raise Violation("other-object-changed", "%s:%s" % (lang, e["o"].d.name),
                                        "%s: %s changed by an operation on %s:\n %s\n not\n %s" % (lang, x, h, d[:900], t[:900]))

    def do_check(self, h):
        self.verify(h)
        self.others(None)

    def set_one(self, h, idx, t, mode):
        e = self.pool_[h]
        o = e["o"]
        f = o.d.fields[idx]
        line = "rst %s %d" % (h, idx) if t == "." else "set %s %d %s %s" % (h, idx, mode, t)
        self.must(line, "set")
        self.model_set(o, f, t)
        if o.d.kind == "struct" and f.extend and any(v is zs.MISSING for v in o.f.values()):
            # setting one extended field makes all of them present; their values are whatever the language initialises
            for g in o.d.fields:
                if o.f[g.name] is zs.MISSING:
                    o.f[g.name] = None
            e["fuzzy"] = True

    def model_set(self, o, f, t):
        v = None if t == "." else zs.Untok(self.schema, t.split(" ")).field(f, o)
        if o.d.kind == "struct":
            o.f[f.name] = v
        else:
            o.tag, o.value = f.name, v

    def do_set(self, h, steps, probes):
        e = self.pool_[h]
        o = e["o"]
        if o.d.kind != "struct" and (len(o.d.fields) <= steps[0][0]):
            return
        done = set()
        for i, (idx, t, mode) in enumerate(steps):
            try:
                self.model_set(self.copy_shallow(o), o.d.fields[idx], t)
            except (zs.ModelError, zs.Unspecified, TypeError, KeyError, IndexError, AttributeError, ArithmeticError, ValueError):
                # the arguments of this child cannot be evaluated in the current state; a later step sets it again
                continue
            self.set_one(h, idx, t, mode)
            done.add(idx)
            if o.d.kind == "struct" and len(done) == len(o.d.fields):
                e["fuzzy"] = False
            if o.d.kind != "struct":
                e["fuzzy"] = False
            for p in probes:
                if p[0] == i:
                    n = e.get("inits")
                    self.probe(h, p[1])
                    if e.get("inits") != n:
                        done = set()    # offsets of an unfinished object were initialised
        self.verify(h)
        self.others(h)

    def do_wrong(self, h, idx, t, mode):
        """any member of a choice, the one selected or not; the object stays unsettled until it is read or set again"""
        o = self.pool_[h]["o"]
        if o.d.kind != "choice" or idx >= len(o.d.fields):
            return
        self.all("set %s %d %s %s" % (h, idx, mode, t))
        self.pool_[h]["fuzzy"] = True
        self.probe(h, "hash")
        self.probe(h, "s")
        self.others(h)

    @staticmethod
    def copy_shallow(o):
        c = zs.Obj(o.d, o.params)
        c.f, c.tag, c.value = dict(o.f), o.tag, o.value
        return c

    def probe(self, h, what):
        if what in ("s", "b", "w"):
            self.do_enc(h, "w0" if what == "w" else what)
        elif what[0] == "f":
            self.do_enc(h, what)
        elif what == "size":
            self.do_size(h, 3)
        elif what == "init":
            self.do_init(h, 8)
        elif what in ("hash", "dump"):
            self.all("%s %s" % (what, h))
        elif what == "eq":
            self.all("eq %s %s" % (h, h))

    def do_nset(self, h, path, t, mode):
        e = self.pool_[h]
        o = e["o"]
        top = o.d.fields[path[0]]
        p = list(path)
        try:
            while True:
                f = o.d.fields[p.pop(0)]
                if not p:
                    self.model_set(o, f, t)
                    break
                v = o.f[f.name] if o.d.kind == "struct" else o.value if o.tag == f.name else None
                if v is None or v is zs.MISSING:
                    return
                if f.array is not None:
                    i = p.pop(0)
                    if not p:
                        v[i] = zs.Untok(self.schema, t.split(" ")).one(f, o, i)
                        break
                    v = v[i]
                o = v
        except IndexError:
            return
        del top
        self.must("nset %s %s %s %s" % (h, ",".join(map(str, path)), mode, t), "nset")
        self.verify(h)
        self.others(h)

    def do_enc(self, h, how):
        e = self.pool_[h]
        o = e["o"]
        name = o.d.name
        pos = int(how[1:] or 0) if how[0] in "wi" else 0
        sets = how[0] in "sbi"
        was = e.get("refused")
        st, data, bits, why = self.status(e, pos, sets)
        e["refused"] = st != "valid"
        out = self.all("enc %s %s" % (h, how))
        full = how[0] == "f" and int(how[1:]) < bits
        if full and st == "valid":
            self.stats.hit("fault.full_medium")
        for lang in LANGS:
            ok, r = out[lang]
            sig = "%s:%s" % (lang, name)
            if st == "valid" and not full:
                if was:
                    self.stats.hit("probe.retry")
                if not ok:
                    raise Violation("valid-refused", sig, "%s: %s of a valid %s is refused: %s\n %s" % (
                        lang, how, name, r, toks(o)[:900]))
                n, x = r.split(" ")
                want = hx(data)
                if how == "b":
                    n = str(bits) if int(n) == (bits + 7) // 8 * 8 else n
                if how[0] == "f":     # buffer of the full size
                    x = x[:len(want)] if want != "-" else "-"
                if int(n) != bits or x != want:
                    raise Violation("bytes", sig, "%s: %s of a %s gives\n %s %s\n not\n %s %s\n value %s" % (
                        lang, how, name, n, x[:900], bits, want[:900], toks(o)[:900]))
            elif st == "valid" and ok:
                raise Violation("full-accepted", sig, "%s: writing %s bits into %s succeeds" % (lang, bits, how))
            elif st == "refuse" and how[0] != "f":
                if ok:
                    raise Violation("invalid-accepted", sig + ":" + why, "%s: %s of an invalid %s (%s) succeeds: %s\n %s" % (
                        lang, how, name, why, r[:300], toks(o)[:900]))
                if not documented(lang, why, r):
                    raise Violation("undocumented-error", sig + ":" + why, "%s: %s of an invalid %s (%s) reports %s" % (
                        lang, how, name, why, r))
        if st == "valid":
            self.stats.hit("probe.valid")
            self.stats.state("image", name, data)
            if sets:
                self.verify(h)
        elif st == "refuse":
            self.stats.hit("probe.refused")
            if why == "offset":
                self.stats.hit("probe.stale_offsets")
        else:
            self.stats.hit("probe.unknown")
        if st != "valid" and sets and has_offsets(o.d):
            e["fuzzy"], e["inits"] = True, e.get("inits", 0) + 1
        self.others(h)

    def do_size(self, h, pos):
        e = self.pool_[h]
        st, data, bits, why = self.status(e, pos)
        out = self.all("size %s %d" % (h, pos))
        if st == "valid" or why == "offset":
            for lang in LANGS:
                ok, r = out[lang]
                if not ok or int(r) != bits - pos:
                    raise Violation("size", "%s:%s" % (lang, e["o"].d.name), "%s: size of %s at %d is %s, not %d\n %s" % (
                        lang, e["o"].d.name, pos, r, bits - pos, toks(e["o"])[:900]))

    def do_init(self, h, pos):
        e = self.pool_[h]
        st, data, bits, why = self.status(e, pos, True)
        out = self.all("init %s %d" % (h, pos))
        if st == "valid":
            for lang in LANGS:
                ok, r = out[lang]
                if not ok or int(r) != bits:
                    raise Violation("init-offsets", "%s:%s" % (lang, e["o"].d.name), "%s: offsets of %s at %d end at %s, not %d\n %s" % (
                        lang, e["o"].d.name, pos, r, bits, toks(e["o"])[:900]))
            self.verify(h)
        elif has_offsets(e["o"].d):
            e["fuzzy"], e["inits"] = True, e.get("inits", 0) + 1

    def do_copy(self, new, h, how):
        e = self.pool_[h]
        o = e["o"]
        if e["fuzzy"] or self.status(e)[0] != "valid" or new == h and how != "a":
            return
        if how in "aM" and (new not in self.pool_ or self.pool_[new]["o"].d is not o.d):
            return
        c = self.copy_model(o)
        for lang in LANGS:
            n = self.node(lang)
            if lang == "cpp":
                self.ok_(n.cmd("copy %s %s %s" % (new, h, how)), lang, "copy")
                if how in "mM":
                    # a moved-from object is assigned a value again
                    t = toks(o)
                    self.ok_(n.cmd(self.fresh_line(h, o, t)), lang, "new")
            elif lang == "java":
                self.ok_(n.cmd(self.fresh_line(new, o, toks(o))), lang, "new")
            else:
                r = n.cmd("copy %s %s" % (new, h))
                if not r[0] and "cannot pickle" in r[1]:
                    # objects of the C++ extension module offer no copying to Python
                    r = n.cmd(self.fresh_line(new, o, toks(o)))
                self.ok_(r, lang, "copy")
        self.pool_[new] = {"o": c, "fuzzy": False, "last": "copy"}
        self.verify(new)
        self.verify(h)
        self.others(None)

    def fresh_line(self, h, o, t):
        if "!" in t.split(" "):
            data, bits = self.codec.encode(o)
            return "dec %s %s s %d %s%s" % (h, o.d.name, bits, hx(data), self.params_text(o.d, o.params))
        return ("new %s %s s %s" % (h, o.d.name, t)).rstrip()

    @staticmethod
    def ok_(r, lang, what):
        if not r[0]:
            raise Violation("refused", "%s:%s" % (lang, what), "%s: %s fails: %s" % (lang, what, r[1]))

    def do_reread(self, h, start, bits, hexs, cut):
        e = self.pool_[h]
        o = e["o"]
        data = bytes.fromhex(hexs)
        r = ref_decode(self.codec, o.d.name, data, bits, o.params, start)
        if r[0] != "ok":
            return
        ps = self.params_text(o.d, o.params)
        if cut is not None and cut < bits:
            self.stats.hit("fault.damaged_read")
            short = data[:(cut + 7) // 8]
            self.all("dec %s %s R%d %d %s%s" % (h, o.d.name, start, cut, hx(short), ps))
        self.must("dec %s %s R%d %d %s%s" % (h, o.d.name, start, bits, hx(data), ps), "reread")
        e["o"], e["fuzzy"] = r[1], False
        self.verify(h)
        self.others(h)

    def end(self):
        """every object is brought to a valid value once more and written"""
        for h in sorted(self.pool_):
            if not self.pool_[h]["fuzzy"] and self.status(self.pool_[h])[0] == "valid":
                self.do_enc(h, "s")
                self.do_enc(h, "i5")
        self.others(None)

    @staticmethod
    def shrink(op):
        if op[0] == "set":
            for i in range(len(op[3])):
                yield op[:3] + [op[3][:i] + op[3][i + 1:]]
            for i in range(len(op[2])):
                if len(op[2]) > 1:
                    yield op[:2] + [op[2][:i] + op[2][i + 1:], [[max(0, p - 1) if p >= i else p, w] for p, w in op[3]]]
        if op[0] == "reread" and op[5] is not None:
            yield op[:5] + [None]


def differ(a, b):
    """token texts of surely different values (floating point zeroes and unset parts aside)"""
    z = {"2147483648": "0", "9223372036854775808": "0"}
    x, y = [z.get(t, t) for t in a.split(" ")], [z.get(t, t) for t in b.split(" ")]
    return x != y and "!" not in x and "!" not in y
