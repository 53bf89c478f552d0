"""C13: a Pub/Sub, service and storage system whose participants are upgraded one by one."""
import collections

import cluster
import zs
from sim import Violation
from scen.c01 import Deliver, Pub, Sub
from scen.c02 import Call, Serve
from scen.common import documented, hx, ref_decode, toks, up_world
from scen.frames import FrameScenario

VERSIONS = (1, 2, 3)
RECORDS = ("Message", "Log", "Grid", "Options", "Chunk", "Small", "Parcel", "Nothing", "EntryTmpl", "KindTmpl")


def removed(o):
    """does a value use an enumeration item which its schema lists as removed"""
    if isinstance(o, list):
        return any(removed(x) for x in o)
    if not isinstance(o, zs.Obj):
        return False
    for f, v in ([(f, o.f[f.name]) for f in o.d.fields] if o.d.kind == "struct" else
                 [(o.d.field(o.tag), o.value)] if o.tag is not None else []):
        if v is None or v is zs.MISSING:
            continue
        if f.ti.kind == "enum" or f.ti.decl is not None and f.ti.decl.kind == "enum":
            gone = {x for _, x, fl in f.ti.decl.items if fl == "removed"}
            if any(x in gone for x in (v if f.array is not None else [v])):
                return True
        elif removed(v):
            return True
    return False


def project(o, schema):
    """the value a reader with another schema must see, or None when some part has no meaning there;
    -> (value, how many fields of the writer the reader does not know)"""
    d = schema[o.d.name]
    n = zs.Obj(d, list(o.params))
    lost = 0
    if d.kind == "struct":
        for f in d.fields:
            src = [g for g in o.d.fields if g.name == f.name]
            if not src:
                if not f.extend:
                    raise cluster.HarnessError("schema versions differ in more than extensions")
                n.f[f.name] = zs.MISSING
                continue
            v = o.f[f.name]
            if v is zs.MISSING or v is None:
                n.f[f.name] = v
            elif f.array is not None:
                r = [project_value(f, x, schema) for x in v]
                if any(x is None for x in r):
                    return None, 0
                n.f[f.name] = r
            else:
                n.f[f.name] = project_value(f, v, schema)
                if n.f[f.name] is None:
                    return None, 0
        known = {f.name for f in d.fields}
        lost = sum(1 for g in o.d.fields if g.name not in known and o.f[g.name] is not zs.MISSING)
        return n, lost
    n.tag = o.tag
    if o.tag is None:
        n.value = None
        return n, 0
    fs = [f for f in d.fields if f.name == o.tag]
    if not fs:
        return None, 0
    v = o.value
    if fs[0].array is not None:
        n.value = [project_value(fs[0], x, schema) for x in v]
        return (None, 0) if any(x is None for x in n.value) else (n, 0)
    n.value = project_value(fs[0], v, schema)
    return (None, 0) if n.value is None else (n, 0)


def project_value(f, v, schema):
    if isinstance(v, zs.Obj):
        return project(v, schema)[0]
    if f.ti.decl is not None and f.ti.decl.kind == "enum":
        return v if any(x == v for _, x, _ in f.ti.decl.items) else None
    return v


class C13(FrameScenario):
    PROP = "C13"
    LEVEL = "exploration"
    MAX_OPS = 60
    NODES = ()
    RULE = ("one evaluation = one simulated life of a system of 2-5 participants (any language, three schema versions) which are "
            "upgraded, rolled back and crash in any order while they store, load, edit, relay, publish, subscribe and call each "
            "other; distinct = distinct (operation, type, writer's and reader's version and language, outcome) situations")
    STUBS = ["transports and storage medium: in-memory, owned by the simulator; message delay, reordering and duplication, "
             "node crashes and version changes are its decisions", "service implementations: answers chosen by the simulator"]
    EXPECT = ["probe.new_reads_old", "probe.old_reads_new", "probe.missing", "probe.trailing", "probe.refused.enum",
              "probe.refused.choice", "probe.refused.union", "probe.removed_read", "probe.removed_write", "probe.relayed",
              "probe.extended", "probe.unknown_method", "probe.call_across", "probe.message_across", "op.upgrade", "op.rollback",
              "fault.crash", "fault.duplicate", "fault.reorder", "probe.deprecated"]

    @classmethod
    def get_world(cls):
        return up_world(3)

    @classmethod
    def prepare(cls):
        for v in VERSIONS:
            up_world(v).build_all(cls.LANGS)

    @classmethod
    def config(cls, rng, tier):
        n = rng.choice([2, 3, 4, 5])
        langs = [rng.choice(cls.LANGS) for _ in range(n)]
        return {"ops": rng.choice([25, 50, 90]), "arr": rng.choice([2, 4, 7]), "full": rng.random() < 0.5, "langs": langs,
                "start": [rng.choice([1, 1, 1, 2, 3]) for _ in range(n)], "back": rng.random() < 0.4,
                "types": rng.sample(RECORDS, rng.choice([2, 4, 10])), "removed": rng.random() < 0.7}

    def begin(self, cfg):
        FrameScenario.begin(self, cfg)
        self.codecs = {v: zs.Codec(up_world(v).schema) for v in VERSIONS}
        self.spec = {"n%d" % i: ["n%d" % i, lang, i] for i, lang in enumerate(cfg["langs"])}
        self.stack = {n: [] for n in self.spec}
        self.ver = dict(zip(sorted(self.spec), cfg["start"]))
        self.images, self.objs, self.msgs, self.subs, self.reqs, self.peers = {}, {}, {}, {}, {}, {}
        self.count = 0
        self.reply = None
        self.fresh = set()
        self.up = set()

    # ------------------------------------------------------------------ nodes
    def codec_of(self, nid):
        return self.codecs[self.ver[nid]]

    def schema_of(self, nid):
        return self.codecs[self.ver[nid]].s

    def nd(self, nid):
        _, lang, slot = self.spec[nid]
        return self.pool.get(up_world(self.ver[nid]), lang, slot)

    def boot(self, nid):
        """a participant joins: its Pub/Sub, client and service objects come into being"""
        if nid in self.up:
            return
        self.up.add(nid)
        for line in ("psnew p%s Bus" % nid, "clnew c%s Store" % nid, "svnew s%s Store" % nid):
            self.expect_ok(self.plain(nid, line), line)
        self.peers["p" + nid] = (nid, "Bus")

    def halt(self, nid):
        self.up.discard(nid)
        self.peers.pop("p" + nid, None)
        self.objs = {h: e for h, e in self.objs.items() if e["nid"] != nid}
        self.subs = {s: e for s, e in self.subs.items() if e["peer"] != "p" + nid}

    def ids(self, prefix):
        self.count += 1
        return "%s%d" % (prefix, self.count)

    # ------------------------------------------------------------------ generation
    def value(self, rng, nid, name):
        """a valid value in the schema of one participant"""
        codec = self.codec_of(nid)
        g = zs.Gen(codec.s, rng, max_arr=self.cfg["arr"], full_ext=self.cfg["full"], allow_removed=False)
        for _ in range(30):
            o = g.any_top(name)
            data, bits = codec.encode(o)
            k, v, _ = ref_decode(codec, name, data, bits, o.params)
            if k == "ok" and toks(v) == toks(o):
                return o
        return None

    def gen(self, rng):
        nid = rng.choice(sorted(self.spec))
        k = rng.choice(["store", "store", "load", "load", "load", "relay", "edit", "sub", "pub", "pub", "deliver", "deliver",
                        "deliver", "call", "call", "move", "crash", "forget", "repub"])
        op = getattr(self, "gen_" + k)(rng, nid)
        return op or self.gen_store(rng, nid) or ["idle"]

    def gen_move(self, rng, nid):
        v = self.ver[nid]
        if rng.random() < 0.4:
            return None
        if self.cfg["back"] and v > 1 and rng.random() < 0.3:
            return ["rollback", nid, rng.randrange(1, v)]
        return ["upgrade", nid, rng.randint(v + 1, 3)] if v < 3 else None

    def gen_crash(self, rng, nid):
        return ["crash", nid] if rng.random() < 0.15 else None

    def gen_forget(self, rng, nid):
        return ["lose", rng.choice(sorted(self.msgs))] if self.msgs and rng.random() < 0.5 else None

    def gen_store(self, rng, nid):
        name = rng.choice(self.cfg["types"])
        o = self.value(rng, nid, name)
        if o is None:
            return None
        t = toks(o)
        return ["store", self.ids("i"), nid, name, "d" if "!" in t.split(" ") else rng.choice("sckd"), t, rng.random() < 0.5]

    def gen_load(self, rng, nid):
        if not self.images:
            return None
        return ["load", self.ids("h"), nid, rng.choice(sorted(self.images)), rng.choice("srsb")]

    def mine(self, nid):
        return [h for h, e in sorted(self.objs.items()) if e["nid"] == nid]

    def gen_relay(self, rng, nid):
        return ["relay", rng.choice(sorted(self.objs)), self.ids("i"), rng.random() < 0.5] if self.objs else None

    def gen_edit(self, rng, nid):
        if not self.objs:
            return None
        h = rng.choice(sorted(self.objs))
        e = self.objs[h]
        o, codec = e["o"], self.codec_of(e["nid"])
        if o.d.kind != "struct":
            return None
        g = zs.Gen(codec.s, rng, max_arr=self.cfg["arr"], full_ext=True)
        ext = [f for f in o.d.fields if f.extend]
        if any(o.f[f.name] is zs.MISSING for f in ext) and rng.random() < 0.5:
            fs = ext
        else:
            fs = [f for f in o.d.fields if o.f[f.name] is not zs.MISSING]
            fs = [rng.choice(fs)] if fs else []
        steps = []
        m = self.obj_of(e["nid"], o.d.name, toks(o)) if not any(v is zs.MISSING for v in o.f.values()) else None
        for f in fs:
            try:
                src = m if m is not None else o
                v = g.field_value(f, src)
                if f.is_optional() and rng.random() < 0.3:
                    v = None
            except (zs.ModelError, zs.Unspecified, TypeError, KeyError, AttributeError, IndexError, ArithmeticError, ValueError):
                return None
            if v is None:
                steps.append([f.idx, "."])
            else:
                out = []
                zs.tok_field(f, v, out)
                steps.append([f.idx, " ".join(out)])
        return ["edit", h, steps, rng.choice("sce")] if steps else None

    def gen_sub(self, rng, nid):
        if len(self.subs) > 9:
            return None
        return ["sub", nid, rng.randrange(len(self.schema_of(nid)["Bus"].messages)), self.ids("c"), str(rng.randint(1, 99))]

    def gen_pub(self, rng, nid):
        if len(self.msgs) > 20:
            return None
        i = rng.randrange(len(self.schema_of(nid)["Bus"].messages))
        o = self.value(rng, nid, self.schema_of(nid)["Bus"].messages[i][3].decl.name)
        if o is None:
            return None
        t = toks(o)
        return ["pub", nid, i, "d" if "!" in t.split(" ") else rng.choice("sck"), t, self.ids("m")]

    def gen_repub(self, rng, nid):
        """a participant passes on what it has loaded"""
        c = [(h, i) for h in self.mine(nid) for i, m in enumerate(self.schema_of(nid)["Bus"].messages)
             if m[3].decl.name == self.objs[h]["o"].d.name]
        if not c:
            return None
        h, i = rng.choice(c)
        return ["repub", h, i, self.ids("m")]

    def gen_deliver(self, rng, nid):
        c = [(m, s) for m, ms in sorted(self.msgs.items()) for s, ss in sorted(self.subs.items()) if ss["topic"] == ms["topic"]]
        return ["deliver"] + list(rng.choice(c)) if c else None

    def gen_call(self, rng, nid):
        other = rng.choice(sorted(self.spec))
        methods = self.schema_of(nid)["Store"].methods
        i = rng.randrange(len(methods))
        name, rti, qti = methods[i]

        def some(n, ti):
            if not ti.is_compound():
                return "b" + bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 7]))).hex()
            o = self.value(rng, n, ti.decl.name)
            return None if o is None else toks(o)
        q = some(nid, qti)
        there = [m for m in self.schema_of(other)["Store"].methods if m[0] == name]
        r = some(other, there[0][1]) if there else "-"
        if q is None or r is None or r.startswith("!") or "!" in r.split(" "):
            return None
        return ["call", nid, other, i, "d" if "!" in q.split(" ") else rng.choice("sck"), q, r, self.ids("q")]

    # ------------------------------------------------------------------ execution
    def apply(self, op):
        self.stats.hit("op." + op[0])
        self.stats.hit("simtime")
        getattr(self, "do_" + op[0])(*op[1:])

    def do_idle(self):
        pass

    def obj_of(self, nid, name, text):
        return zs.Untok(self.schema_of(nid), text.split(" ") if text else []).top(name)

    def copy(self, nid, o):
        return self.obj_of(nid, o.d.name, toks(o))

    def make(self, nid, arg, o, mode):
        """an object of this value on a node -> False when it cannot be made this way"""
        codec = self.codec_of(nid)
        name, t = o.d.name, toks(o)
        if mode == "d" or "!" in t.split(" "):
            data, bits = codec.encode(o)
            k, v, _ = ref_decode(codec, name, data, bits, o.params)
            if k != "ok" or toks(v) != t:
                return False
            line = "dec %s %s s %d %s%s" % (arg, name, bits, hx(data), self.params_text(o.d, o.params))
        else:
            line = "new %s %s %s %s" % (arg, name, mode, t)
        self.expect_ok(self.plain(nid, line.rstrip()), "object %s on %s" % (name, self.lang(nid)), "object")
        return True

    def parse(self, nid, name, text):
        try:
            o = self.obj_of(nid, name, text)
            codec = self.codec_of(nid)
            data, bits = codec.encode(o)
        except (zs.ModelError, KeyError, ValueError, IndexError, OverflowError, TypeError, AttributeError):
            return None
        k, v, _ = ref_decode(codec, name, data, bits, o.params)
        return (o, data, bits) if k == "ok" and toks(v) == toks(o) else None

    def do_store(self, i, nid, name, mode, text, exact):
        p = self.parse(nid, name, text)
        if p is None or i in self.images:
            return
        self.boot(nid)
        o, data, bits = p
        arg = "k" + name if mode == "k" else "w" + i
        if self.make(nid, arg, o, mode):
            self.save(i, nid, arg, o, data, bits, exact, "written")

    def save(self, i, nid, handle, o, data, bits, exact, how):
        lang = self.lang(nid)
        sig = "%s:%s" % (lang, o.d.name)
        r = self.plain(nid, "enc %s s" % handle)
        if removed(o):
            self.stats.hit("probe.removed_write")
            if r[0] or not documented(lang, "removed", r[1]):
                raise Violation("removed-written", sig, "%s (version %d): writing %s, which uses a removed item, ends with %s %s" % (
                    nid, self.ver[nid], toks(o)[:500], "success" if r[0] else "error", r[1][:300]))
            return False
        want = "%d %s" % (bits, hx(data))
        if not r[0] or r[1] != want:
            raise Violation("image-differs", sig, "%s (%s, version %d): %s %s as\n %s\n not as\n %s" % (
                nid, lang, self.ver[nid], toks(o)[:500], how, r[1][:700], want[:700]))
        if any(fl == "deprecated" for fl in self.flags(o)):
            self.stats.hit("probe.deprecated")
        self.images[i] = {"name": o.d.name, "data": data, "bits": bits if exact else None, "v": self.ver[nid], "o": self.copy(nid, o),
                          "lang": lang, "params": list(o.params)}
        return True

    def flags(self, o):
        if isinstance(o, list):
            for x in o:
                yield from self.flags(x)
        elif isinstance(o, zs.Obj):
            for f, v in ([(f, o.f[f.name]) for f in o.d.fields] if o.d.kind == "struct" else
                         [(o.d.field(o.tag), o.value)] if o.tag is not None else []):
                if f.ti.decl is not None and f.ti.decl.kind == "enum" and v is not None and v is not zs.MISSING:
                    for x in (v if f.array is not None else [v]):
                        for _, y, fl in f.ti.decl.items:
                            if x == y and fl:
                                yield fl
                else:
                    yield from self.flags(v)

    def seen(self, nid, name, data, bits, params, src, src_v, what):
        """what a participant must find in bytes which another one wrote -> ('ok', obj) | ('err', kind) | None"""
        codec = self.codec_of(nid)
        k, v, _ = ref_decode(codec, name, data, bits, params)
        if k == "any":
            return None
        mine = self.ver[nid]
        lang = self.lang(nid)
        if src is not None:
            p, lost = project(src, codec.s)
            if p is None:
                if k != "err":
                    raise cluster.HarnessError("model reads %s what version %d does not know: %s" % (toks(v), mine, toks(src)))
            elif k == "ok" and toks(v) != toks(p) or k == "err" and v not in ("constraint",):
                raise cluster.HarnessError("model: version %d of %s\n is %s %s\n not %s" % (
                    mine, toks(src), k, toks(v) if k == "ok" else v, toks(p)))
            if src_v <= mine and k != "ok":
                raise cluster.HarnessError("model: version %d cannot read %s of version %d: %s" % (mine, toks(src), src_v, v))
            if p is not None and lost:
                self.stats.hit("probe.trailing")
            if k == "ok" and src_v < mine and isinstance(v, zs.Obj) and v.d.kind == "struct" and zs.MISSING in v.f.values():
                self.stats.hit("probe.missing")
        if k == "ok" and removed(v):
            self.stats.hit("probe.removed_read")
        if k == "err":
            self.stats.hit("probe.refused." + v)
        if src_v != mine:
            self.stats.hit("probe.new_reads_old" if src_v < mine else "probe.old_reads_new")
        self.stats.state(what, name, src_v, mine, lang, k, v if k == "err" else toks(v).count("!"))
        return k, v

    def do_load(self, h, nid, i, how):
        im = self.images.get(i)
        if im is None or h in self.objs:
            return
        self.boot(nid)
        lang, name = self.lang(nid), im["name"]
        codec = self.codec_of(nid)
        bits = im["bits"] if im["bits"] is not None and how != "b" else 8 * len(im["data"])
        exp = self.seen(nid, name, im["data"], bits, im["params"], im["o"], im["v"], "load")
        if exp is None:
            return
        line = "dec %s %s %s %d %s%s" % (h, name, how, bits, hx(im["data"]), self.params_text(codec.s[name], im["params"]))
        r = self.plain(nid, line.rstrip())
        sig = "%s:%s" % (lang, name)
        what = "%s (%s, version %d) reads %s of version %d (%s)\n %s" % (
            nid, lang, self.ver[nid], name, im["v"], im["lang"], line[:600])
        if exp[0] == "err":
            if r[0] or not documented(lang, exp[1], r[1]):
                raise Violation("not-refused", sig, "%s: %s %s instead of the error for an unknown %s" % (
                    what, "succeeds" if r[0] else "fails with", r[1][:300], exp[1]))
            return
        if not r[0]:
            raise Violation("refused", sig, "%s: fails with %s" % (what, r[1][:400]))
        self.check(nid, h, exp[1], what)
        self.objs[h] = {"nid": nid, "o": exp[1]}

    def check(self, nid, h, o, what):
        lang = self.lang(nid)
        sig = "%s:%s" % (lang, o.d.name)
        r = self.plain(nid, "dump " + h)
        if r != (True, toks(o)):
            raise Violation("value-differs", sig, "%s: the value is\n %s\n not\n %s" % (what, r[1][:900], toks(o)[:900]))
        for f in o.d.fields:
            if not f.extend:
                continue
            r = self.plain(nid, "flags %s %d" % (h, f.idx))
            want = "0" if o.f[f.name] is zs.MISSING else "1"
            if not r[0] or r[1].split(" ")[-1] != want:
                raise Violation("presence", sig, "%s: %s reported as %s (used, set, present), expected present = %s" % (
                    what, f.name, r[1][:200], want))

    def do_relay(self, h, i, exact):
        """a participant stores what it has loaded (perhaps changed)"""
        e = self.objs.get(h)
        if e is None or i in self.images:
            return
        codec = self.codec_of(e["nid"])
        data, bits = codec.encode(e["o"])
        k, v, _ = ref_decode(codec, e["o"].d.name, data, bits, e["o"].params)
        if k != "ok" or toks(v) != toks(e["o"]):
            return
        self.stats.hit("probe.relayed")
        self.save(i, e["nid"], h, e["o"], data, bits, exact, "passed on")

    def do_edit(self, h, steps, mode):
        e = self.objs.get(h)
        if e is None:
            return
        nid, o, codec = e["nid"], e["o"], self.codec_of(e["nid"])
        d = o.d
        if d.kind != "struct" or any(s[0] >= len(d.fields) for s in steps):
            return
        new = {f.name: o.f[f.name] for f in d.fields}
        old = dict(o.f)
        ext = [f for f in d.fields if f.extend]
        idx = [s[0] for s in steps]
        if any(o.f[f.name] is zs.MISSING for f in ext):
            touched = [i for i in idx if d.fields[i].extend]
            if touched and touched != [f.idx for f in ext]:
                return
        try:
            for i, t in steps:
                f = d.fields[i]
                o.f[f.name] = None if t == "." else zs.Untok(codec.s, t.split(" ")).field(f, o)
            data, bits = codec.encode(o)
            k, v, _ = ref_decode(codec, d.name, data, bits, o.params)
            good = k == "ok" and toks(v) == toks(o)
        except (zs.ModelError, zs.Unspecified, KeyError, ValueError, IndexError, OverflowError, TypeError, AttributeError,
                ArithmeticError):
            good = False
        if not good:
            o.f.clear()
            o.f.update(old)
            return
        if any(new[f.name] is zs.MISSING and o.f[f.name] is not zs.MISSING for f in ext):
            self.stats.hit("probe.extended")
        for i, t in steps:
            line = "rst %s %d" % (h, i) if t == "." else "set %s %d %s %s" % (h, i, mode, t)
            self.expect_ok(self.plain(nid, line), "%s: %s" % (self.lang(nid), line[:100]), "edit")
        self.check(nid, h, o, "%s (%s, version %d) after %s" % (nid, self.lang(nid), self.ver[nid], steps))
        self.stats.state("edit", d.name, self.ver[nid], self.lang(nid), len(steps), toks(o).count("!"))

    # ------------------------------------------------------------------ upgrades
    def do_upgrade(self, nid, v):
        if nid in self.ver and v != self.ver[nid]:
            if nid in self.up:       # an orderly shutdown: the process ends, another one starts
                self.plain(nid, "reset")
            self.halt(nid)
            self.ver[nid] = v

    do_rollback = do_upgrade

    def do_crash(self, nid):
        if nid in self.up:
            self.stats.hit("fault.crash")
            self.pool.crash(up_world(self.ver[nid]), *self.spec[nid][1:])
            self.halt(nid)

    # ------------------------------------------------------------------ messages
    def flush(self, nid, ans="ok"):
        while self.stack[nid]:
            self.answer(nid, ans)

    def do_sub(self, nid, i, cb, ctx):
        ms = self.schema_of(nid)["Bus"].messages
        if i >= len(ms):
            return
        self.boot(nid)
        self.launch(Sub(self, nid, "pssub p%s %d %s %s" % (nid, i, cb, ctx), "p" + nid, ms[i][2], ctx, i, cb))
        self.count += 1
        self.flush(nid, str(self.count))

    def do_pub(self, nid, i, mode, text, mid):
        ms = self.schema_of(nid)["Bus"].messages
        if i >= len(ms) or mid in self.msgs:
            return
        p = self.parse(nid, ms[i][3].decl.name, text)
        if p is None:
            return
        self.boot(nid)
        o, data, bits = p
        arg = "k" + o.d.name if mode == "k" else "o" + mid
        if self.make(nid, arg, o, mode):
            self.publish(nid, i, arg, o, data, mid)

    def do_repub(self, h, i, mid):
        e = self.objs.get(h)
        if e is None or mid in self.msgs:
            return
        nid, o = e["nid"], e["o"]
        ms = self.schema_of(nid)["Bus"].messages
        if i >= len(ms) or ms[i][3].decl.name != o.d.name:
            return
        p = self.parse(nid, o.d.name, toks(o))
        if p is not None:
            self.stats.hit("probe.relayed")
            self.publish(nid, i, h, o, p[1], mid)

    def publish(self, nid, i, arg, o, data, mid):
        topic = self.schema_of(nid)["Bus"].messages[i][2]
        gone = removed(o)
        if gone:
            self.stats.hit("probe.removed_write")
        self.launch(Pub(self, nid, "pspub p%s %d %s 7" % (nid, i, arg), "p" + nid, topic, None if gone else data, "7", mid, toks(o)))
        self.flush(nid)
        if mid in self.msgs:
            self.msgs[mid].update(v=self.ver[nid], o=self.copy(nid, o), lang=self.lang(nid))

    def do_lose(self, m):
        if self.msgs.pop(m, None):
            self.stats.hit("fault.loss")

    def do_deliver(self, m, sid):
        ms, s = self.msgs.get(m), self.subs.get(sid)
        if ms is None or s is None or ms["topic"] != s["topic"]:
            return
        nid = self.peers[s["peer"]][0]
        ti = self.schema_of(nid)["Bus"].messages[s["idx"]][3]
        exp = self.seen(nid, ti.decl.name, ms["data"], None, [], ms["o"], ms["v"], "deliver")
        if exp is None:
            return
        if s["seen"][m]:
            self.stats.hit("fault.duplicate")
        if s["last"] > ms["n"]:
            self.stats.hit("fault.reorder")
        s["last"] = max(s["last"], ms["n"])
        s["seen"][m] += 1
        if ms["v"] != self.ver[nid]:
            self.stats.hit("probe.message_across")
        f = Deliver(self, nid, "psdel p%s %d %s %s" % (nid, sid, ms["topic"], hx(ms["data"])), s, ms["topic"],
                    ("ok", toks(exp[1])) if exp[0] == "ok" else exp,
                    "message %s of version %d (%s) to version %d (%s)" % (
                        m, ms["v"], hx(ms["data"])[:300], self.ver[nid], self.lang(nid)))
        self.launch(f)
        self.flush(nid)

    # ------------------------------------------------------------------ services
    def finish(self, frame, data, tokens):
        self.reply = (data, tokens)

    def do_call(self, nid, other, i, mode, q, r, rid):
        ms = self.schema_of(nid)["Store"].methods
        if i >= len(ms):
            return
        m = ms[i]
        self.boot(nid)
        self.boot(other)
        qo = None
        if m[2].is_compound():
            p = self.parse(nid, m[2].decl.name, q)
            if p is None:
                return
            qo, data = p[0], p[1]
            arg = "k" + qo.d.name if mode == "k" else "o" + rid
            if not self.make(nid, arg, qo, mode):
                return
            if removed(qo):
                return
        else:
            data, arg = bytes.fromhex(q[1:]), q
        there = {x[0]: x for x in self.schema_of(other)["Store"].methods}.get(m[0])
        if there is not None and there[1].is_compound():
            rp = self.parse(other, there[1].decl.name, r)
            if rp is None or removed(rp[0]):
                return
        ctx = "9"
        outcome, exp = ("err", "method"), None
        if there is None:
            self.stats.hit("probe.unknown_method")
        elif qo is None:
            outcome = ("ok", "b" + data.hex())
        else:
            exp = self.seen(other, m[2].decl.name, data, None, [], qo, self.ver[nid], "request")
            if exp is None:
                return
            outcome = ("ok", toks(exp[1])) if exp[0] == "ok" else exp
        if self.ver[nid] != self.ver[other]:
            self.stats.hit("probe.call_across")
        fr = self.launch(Call(self, nid, "clcall c%s %d %s %s" % (nid, i, arg, ctx), "c" + nid, m, data, ctx, rid, "Store"))
        if not self.stack[nid]:
            return        # on_end has raised a violation unless the call was impossible
        self.reply = None
        self.launch(Serve(self, other, "svcall s%s %s %s %s" % (other, m[0], hx(data), ctx), "s" + other,
                          {"name": m[0], "id": rid, "svc": "Store"}, ctx, outcome,
                          "request %s of version %d to version %d" % (hx(data)[:300], self.ver[nid], self.ver[other]), there))
        depth = 1 if other == nid else 0
        if len(self.stack[other]) > depth:
            self.answer(other, ("ok s " if there[1].is_compound() else "ok x ") + r)
        if self.reply is None:
            fr.expect = ("err", None, "the service failed")
            self.answer(nid, "fail")
            return
        rdata = self.reply[0]
        if m[1].is_compound():
            src = self.obj_of(other, there[1].decl.name, self.reply[1])
            exp = self.seen(nid, m[1].decl.name, rdata, None, [], src, self.ver[other], "response")
            if exp is None:
                fr.expect = ("any", None, "")
            else:
                fr.expect = ("ok", toks(exp[1]), "response of version %d" % self.ver[other]) if exp[0] == "ok" else (
                    "err", exp[1], "response of version %d has an unknown %s" % (self.ver[other], exp[1]))
        else:
            fr.expect = ("ok", "b" + rdata.hex(), "response")
        self.answer(nid, "ok " + hx(rdata))

    # ------------------------------------------------------------------ end
    def end(self):
        """the upgrade completes: the newest version reads all that was ever stored or is still under way"""
        for n, nid in enumerate(sorted(self.spec)):
            if self.ver[nid] != 3:
                self.do_upgrade(nid, 3)
            for j, i in enumerate(sorted(self.images)):
                if (j + n) % 3 == 0:
                    self.do_load("z%d" % j + nid, nid, i, "s")
            seen = collections.Counter(s["topic"] for s in self.subs.values())
            for idx, m in enumerate(self.schema_of(nid)["Bus"].messages):
                ms = [x for x in sorted(self.msgs) if self.msgs[x]["topic"] == m[2]]
                if ms and not seen[m[2]]:
                    self.do_sub(nid, idx, "zcb%d" % idx, "5")
                    sid = [s for s, e in self.subs.items() if e["peer"] == "p" + nid and e["idx"] == idx]
                    for x in ms[-2:]:
                        self.do_deliver(x, sid[-1])
        if self.waiting():
            raise Violation("liveness", "stuck", "nodes still busy: %s" % self.waiting())

    @staticmethod
    def shrink(op):
        if op[0] == "edit" and len(op[2]) > 1:
            for i in range(len(op[2])):
                yield [op[0], op[1], op[2][:i] + op[2][i + 1:], op[3]]
