"""C02: mixed-language clients and services over a simulated RPC transport."""
import zs
from sim import Violation
from scen.common import documented, hx, ref_decode, toks
from scen.frames import Frame, FrameScenario


class Call(Frame):
    """a client call; its request is recorded when the transport is handed it"""

    def __init__(self, sc, nid, line, client, method, data, ctx, rid, svc):
        Frame.__init__(self, sc, nid, line)
        self.want = ["call", client, method[0], hx(data) if data is not None else None, ctx]
        self.method, self.data, self.ctx, self.rid, self.svc = method, data, ctx, rid, svc
        self.calls, self.expect = 0, None

    def on_event(self, w):
        if self.want[3] is None:
            raise Violation("invalid-sent", self.sc.lang(self.nid), "%s sends an invalid request: %s" % (
                self.nid, " ".join(w)[:500]))
        if w != self.want or self.calls:
            raise Violation("request-differs", "%s:%s" % (self.sc.lang(self.nid), self.method[0]),
                            "%s hands to the transport\n %s (call %d)\n instead of\n %s" % (
                                self.nid, " ".join(w)[:900], self.calls + 1, " ".join(map(str, self.want))[:900]))
        self.calls += 1
        self.sc.reqs[self.rid] = {"svc": self.svc, "name": self.method[0], "data": self.data, "ctx": self.ctx,
                                  "n": len(self.sc.reqs), "served": 0}

    def on_end(self, ok, text):
        lang = self.sc.lang(self.nid)
        sig = "%s:%s" % (lang, self.method[0])
        if self.want[3] is None:
            if ok:
                raise Violation("invalid-sent", lang, "%s: call with an invalid request succeeds" % self.nid)
            return
        if not self.calls:
            raise Violation("request-lost", sig, "%s: call never reached the transport: %s" % (self.nid, text))
        k, v, what = self.expect
        if k == "ok" and (not ok or text != v):
            raise Violation("response-differs", sig, "%s: call %s returns\n %s\n not\n %s (%s)" % (
                self.nid, self.line[:200], text[:900], v[:900], what))
        if k == "err":
            if ok:
                raise Violation("error-lost", sig, "%s: call %s succeeds with %s although %s" % (
                    self.nid, self.line[:200], text[:300], what))
            if v is not None and not documented(lang, v, text):
                raise Violation("undocumented-error", sig, "%s: %s reported as %s" % (self.nid, what, text))


class Serve(Frame):
    def __init__(self, sc, nid, line, server, req, ctx, outcome, what, method):
        Frame.__init__(self, sc, nid, line)
        self.server, self.req, self.ctx, self.outcome, self.what, self.method = server, req, ctx, outcome, what, method
        self.calls, self.reply, self.threw = 0, None, False

    def on_event(self, w):
        lang = self.sc.lang(self.nid)
        sig = "%s:%s" % (lang, self.req["name"])
        if w[0] != "impl":
            return Frame.on_event(self, w)
        self.calls += 1
        if self.outcome[0] == "err":
            raise Violation("ran-on-invalid", sig, "%s: implementation %s runs for %s (%s)" % (
                self.nid, " ".join(w)[:500], self.what, self.outcome[1]))
        if w[1] != self.server or w[2] != self.req["name"] or self.calls > 1:
            raise Violation("wrong-method", sig, "%s: implementation %s.%s (run %d) for a call of %s.%s" % (
                self.nid, w[1], w[2], self.calls, self.server, self.req["name"]))
        if w[3] != self.ctx:
            raise Violation("wrong-context", sig, "%s: context %s instead of %s" % (self.nid, w[3], self.ctx))
        got = " ".join(w[5:]).strip()
        if self.outcome[0] == "ok" and got != self.outcome[1]:
            raise Violation("request-value", sig, "%s: %s arrives as\n %s\n not as\n %s" % (
                self.nid, self.what, got[:900], self.outcome[1][:900]))

    def on_answer(self, ans):
        if ans.startswith("fail"):
            self.threw = True
        else:
            self.reply = ans.split(" ")[2:]

    def on_end(self, ok, text):
        lang = self.sc.lang(self.nid)
        sig = "%s:%s" % (lang, self.req["name"])
        o = self.outcome[0]
        if o == "err":
            if ok or not documented(lang, self.outcome[1], text):
                raise Violation("damage-unreported", sig, "%s: %s (%s) ends with %s %s" % (
                    self.nid, self.what, self.outcome[1], "success" if ok else "error", text[:300]))
            return
        if o == "ok" and self.calls != 1:
            raise Violation("not-run", sig, "%s: implementation not run for %s: %s" % (self.nid, self.what, text[:300]))
        if not self.calls:
            return
        if self.threw:
            if ok:
                raise Violation("failure-lost", sig, "%s: implementation failed but the call succeeds" % self.nid)
            self.sc.finish(self, None, None)
            return
        rti = self.method[1]
        if rti.is_compound():
            codec = self.sc.codec_of(self.nid)
            m = zs.Untok(codec.s, self.reply).top(rti.decl.name)
            data, bits = codec.encode(m)
            kind, val, _ = ref_decode(codec, rti.decl.name, data, bits, [])
            if kind == "err":
                if ok:
                    raise Violation("invalid-sent", sig, "%s: invalid response is sent" % self.nid)
                self.sc.finish(self, None, None)
                return
            tokens = toks(val)
        else:
            data = bytes.fromhex(self.reply[0][1:])
            tokens = self.reply[0]
        if not ok or text != hx(data):
            raise Violation("response-bytes", sig, "%s: response is\n %s\n not\n %s" % (self.nid, text[:900], hx(data)[:900]))
        self.sc.finish(self, data, tokens)


class C02(FrameScenario):
    PROP = "C02"
    NODES = (("cpp0", "cpp", 0), ("java0", "java", 0), ("py0", "py", 0), ("pyc0", "pyc", 0), ("cpp1", "cpp", 1),
             ("py1", "py", 1))
    RULE = ("one evaluation = one simulated history of clients and services (nested calls, request/response loss, duplication, "
            "damage, unknown methods, failing and invalid implementations, node crashes); distinct = distinct (operation, "
            "open frames per node, requests and responses in flight) situations reached")
    STUBS = ["RPC transport (ServiceClientInterface / IServiceClient): owned by the simulator, in-memory",
             "service implementations: answers chosen by the simulator"]
    EXPECT = ["fault.request_loss", "fault.request_duplicate", "fault.request_damage", "fault.response_loss",
              "fault.response_damage", "fault.impl_failure", "fault.unknown_method", "fault.crash", "fault.reorder",
              "probe.nested", "probe.reentrant", "probe.damaged_err", "probe.damaged_ok", "probe.invalid"]

    @classmethod
    def config(cls, rng, tier):
        return {"ops": rng.choice([30, 60, 120]), "faults": rng.choice([0.0, 0.15, 0.4]), "arr": rng.choice([2, 4]),
                "nodes": sorted(rng.sample([n[0] for n in cls.NODES], rng.choice([2, 3, 4, 6]))),
                "crash": rng.random() < 0.15}

    def begin(self, cfg):
        FrameScenario.begin(self, cfg)
        self.clients, self.servers, self.reqs, self.resps = {}, {}, {}, {}
        self.count = 0
        self.used = cfg["nodes"]

    def ids(self, prefix):
        self.count += 1
        return "%s%d" % (prefix, self.count)

    def finish(self, frame, data, tokens):
        """a service call came to an end on the server"""
        self.count += 1
        self.resps["a%d" % self.count] = {"req": frame.req["id"], "data": data, "tokens": tokens, "name": frame.req["name"],
                                          "svc": frame.req["svc"]}

    # ------------------------------------------------------------------ generation
    def gen(self, rng):
        if not self.clients:
            return self.gen_party(rng, "client")
        if not self.servers:
            return self.gen_party(rng, "server")
        w = self.waiting()
        if w and rng.random() < 0.5:
            op = self.gen_answer(rng, rng.choice(w))
            if op:
                return op
        deep = [n for n in self.used if len(self.stack[n]) < self.MAX_DEPTH]
        if not deep:
            return self.gen_answer(rng, rng.choice(w), True)
        r, f = rng.random(), self.cfg["faults"]
        if r < 0.07 and len(self.clients) + len(self.servers) < 12:
            return self.gen_party(rng, rng.choice(["client", "server"]))
        if r < 0.10 and self.cfg["crash"] and rng.random() < 0.3:
            return ["crash", rng.choice(self.used)]
        if r < 0.10 + 0.25 * f and self.reqs:
            return self.gen_fault(rng)
        if self.reqs and r < 0.65:
            op = self.gen_serve(rng, deep)
            if op:
                return op
        return self.gen_call(rng, deep) or self.gen_party(rng, rng.choice(["client", "server"]))

    def gen_party(self, rng, k):
        return [k, self.ids(k[0]), rng.choice(self.used), rng.choice(["Storage", "Relay"])]

    def gen_answer(self, rng, nid, force=False):
        fr = self.stack[nid][-1]
        f = self.cfg["faults"]
        if isinstance(fr, Serve):
            if rng.random() < f * 0.5:
                return ["ret", nid, "fail"]
            rti = fr.method[1]
            if not rti.is_compound():
                return ["ret", nid, "ok x b" + bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 7, 33]))).hex()]
            o = zs.Gen(self.schema, rng, max_arr=self.cfg["arr"], full_ext=True).top(rti.decl.name)
            if rng.random() < 0.05 + 0.1 * f:
                self.spoil(rng, o)
            return ["ret", nid, ("ok %s %s" % (rng.choice("sck"), toks(o))).rstrip()]
        mine = [a for a, v in sorted(self.resps.items())
                    if v["req"] == fr.rid and (v["svc"], v["name"]) == (fr.svc, fr.method[0])]
        if mine and rng.random() < 0.8:
            a = rng.choice(mine)
            if rng.random() < f * 0.6 and self.resps[a]["data"] is not None:
                return ["respond", nid, a, self.edits(rng, len(self.resps[a]["data"]))]
            return ["respond", nid, a, None]
        if force or rng.random() < 0.02 + 0.2 * f:
            return ["timeout", nid]
        return None

    def edits(self, rng, n):
        e = []
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(["flip", "cut", "grow", "set"]) if n else "grow"
            if k == "flip":
                e.append(["flip", rng.randrange(8 * n)])
            elif k == "cut":
                n = rng.randrange(n)
                e.append(["cut", n])
            elif k == "grow":
                e.append(["grow", "%02x" % rng.getrandbits(8) * rng.randint(1, 4)])
            else:
                e.append(["set", rng.randrange(n), rng.choice([0, 255, 128, rng.getrandbits(8)])])
        return e

    @staticmethod
    def edit(data, edits):
        b = bytearray(data)
        for e in edits:
            if e[0] == "flip" and e[1] < 8 * len(b):
                b[e[1] // 8] ^= 0x80 >> (e[1] % 8)
            elif e[0] == "cut":
                del b[e[1]:]
            elif e[0] == "grow":
                b += bytes.fromhex(e[1])
            elif e[0] == "set" and e[1] < len(b):
                b[e[1]] = e[2]
        return bytes(b)

    spoil = None

    def gen_call(self, rng, deep):
        c = [x for x, (n, t) in sorted(self.clients.items()) if n in deep]
        if not c:
            return None
        x = rng.choice(c)
        i = rng.randrange(len(self.schema[self.clients[x][1]].methods))
        name, rti, qti = self.schema[self.clients[x][1]].methods[i]
        ctx = rng.choice(["None", str(rng.randint(1, 99))])
        if not qti.is_compound():
            return ["call", x, i, "b" + bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 5, 40]))).hex(), "c", ctx,
                    self.ids("q")]
        o = zs.Gen(self.schema, rng, max_arr=self.cfg["arr"], full_ext=rng.random() < 0.5).top(qti.decl.name)
        if rng.random() < 0.05 + 0.1 * self.cfg["faults"]:
            self.spoil(rng, o)
        t = toks(o)
        return ["call", x, i, t, "d" if "!" in t.split(" ") else rng.choice("sckkd"), ctx, self.ids("q")]

    def gen_serve(self, rng, deep):
        c = [(q, s) for q, v in sorted(self.reqs.items()) for s, (n, t) in sorted(self.servers.items())
             if t == v["svc"] and n in deep]
        if not c:
            return None
        fresh = [x for x in c if not self.reqs[x[0]]["served"]]
        top = {st[-1].rid for st in self.stack.values() if st and isinstance(st[-1], Call)}
        awaited = [x for x in fresh if x[0] in top]
        if awaited and rng.random() < 0.7:
            return ["serve"] + list(rng.choice(awaited))
        q, s = rng.choice(fresh if fresh and rng.random() < 0.85 else c)
        return ["serve", q, s]

    def gen_fault(self, rng):
        q = rng.choice(sorted(self.reqs))
        r = rng.random()
        if r < 0.3:
            return ["lose", q]
        if r < 0.5:
            s = [s for s, (n, t) in sorted(self.servers.items()) if len(self.stack[n]) < self.MAX_DEPTH]
            if s:
                names = [m[0] for t in ("Storage", "Relay") for m in self.schema[t].methods]
                n = rng.choice([rng.choice(names) + rng.choice(["", "x", "."]), "Store", "", "net.Storage.store"])
                return ["misname", q, rng.choice(s), n or "?"]
        return ["damage", q, self.edits(rng, len(self.reqs[q]["data"])), self.ids("q")]

    # ------------------------------------------------------------------ execution
    def apply(self, op):
        k = op[0]
        self.stats.hit("op." + k)
        self.stats.hit("simtime")
        getattr(self, "do_" + k)(*op[1:])
        self.stats.state(k, tuple(tuple(type(f).__name__ for f in self.stack[n]) for n in sorted(self.stack)),
                         len(self.reqs), len(self.resps), sorted(t for _, t in self.servers.values()))

    def nested(self, nid):
        if self.stack[nid]:
            self.stats.hit("probe.nested")

    def do_client(self, c, nid, t):
        if c not in self.clients and nid in self.spec:
            self.expect_ok(self.plain(nid, "clnew %s %s" % (c, t)), "client")
            self.clients[c] = (nid, t)

    def do_server(self, s, nid, t):
        if s in self.servers or nid not in self.spec:
            return
        self.expect_ok(self.plain(nid, "svnew %s %s" % (s, t)), "service")
        self.servers[s] = (nid, t)
        if self.lang(nid) in ("py", "pyc"):
            d = self.schema[t]
            want = "%s.%s %s" % (d.pkg, d.name, " ".join(m[0] for m in d.methods))
            got = self.expect_ok(self.plain(nid, "svinfo " + s), "svinfo")
            if got != want:
                raise Violation("service-info", "py", "service describes itself as %s, not %s" % (got, want))

    def do_call(self, c, i, t, mode, ctx, rid):
        if c not in self.clients or rid in self.reqs:
            return
        nid, st = self.clients[c]
        m = self.schema[st].methods[i]
        qti = m[2]
        if qti.is_compound():
            o = self.obj(qti.decl.name, t)
            try:
                data, bits = self.codec.encode(o)
            except (zs.ModelError, OverflowError, ValueError):
                return
            kind, val, _ = ref_decode(self.codec, qti.decl.name, data, bits, [])
            if kind == "any" or (kind == "err" and (val not in ("constraint", "offset") or mode == "d")):
                return
            # mode k: the caller keeps one request object and gives it new values
            arg = "k" + qti.decl.name if mode == "k" else "o" + rid
            line = "dec o%s %s s %d %s" % (rid, qti.decl.name, bits, hx(data)) if mode == "d" else \
                ("new %s %s %s %s" % (arg, qti.decl.name, mode, t)).rstrip()
            self.expect_ok(self.plain(nid, line), "request object %s on %s" % (qti.decl.name, self.lang(nid)), "object")
            if kind == "err":
                self.stats.hit("probe.invalid")
                data = None
        else:
            data, arg = bytes.fromhex(t[1:]), t
        self.nested(nid)
        if any(isinstance(f, Serve) for f in self.stack[nid]):
            self.stats.hit("probe.reentrant")
        self.launch(Call(self, nid, "clcall %s %d %s %s" % (c, i, arg, ctx), c, m, data, ctx, rid, st))

    def serve(self, q, s, name, what):
        v = dict(self.reqs[q], id=q)
        nid, st = self.servers[s]
        d = self.schema[st]
        if name is not None:
            v["name"] = name
        m = {x[0]: x for x in d.methods}.get(v["name"])
        if m is None:
            outcome = ("err", "method")
            self.stats.hit("fault.unknown_method")
        elif not m[2].is_compound():
            outcome = ("ok", "b" + v["data"].hex())
        else:
            kind, val, _ = ref_decode(self.codec, m[2].decl.name, v["data"], None, [])
            if kind == "any" and ("limit" in val or "32 bits" in val):
                return
            outcome = ("ok", toks(val)) if kind == "ok" else (kind, val)
            if v.get("damaged") or name is not None:
                self.stats.hit("probe.damaged_" + kind)
        if self.reqs[q]["served"]:
            self.stats.hit("fault.request_duplicate")
        if any(x["served"] and x["n"] > v["n"] for x in self.reqs.values()) and not self.reqs[q]["served"]:
            self.stats.hit("fault.reorder")
        self.reqs[q]["served"] += 1
        self.nested(nid)
        self.launch(Serve(self, nid, "svcall %s %s %s %s" % (s, v["name"], hx(v["data"]), v["ctx"]), s, v, v["ctx"], outcome,
                          "request %s %s (%s)" % (q, v["name"], hx(v["data"])[:300]), m))

    def do_serve(self, q, s):
        if q in self.reqs and s in self.servers and self.servers[s][1] == self.reqs[q]["svc"]:
            self.serve(q, s, None, "")

    def do_misname(self, q, s, name):
        if q in self.reqs and s in self.servers:
            self.serve(q, s, name, "")

    def do_lose(self, q):
        if self.reqs.pop(q, None):
            self.stats.hit("fault.request_loss")

    def do_damage(self, q, edits, new):
        if q not in self.reqs or new in self.reqs:
            return
        self.stats.hit("fault.request_damage")
        v = self.reqs[q]
        self.reqs[new] = dict(v, data=self.edit(v["data"], edits), damaged=True, served=0, n=len(self.reqs))

    def do_ret(self, nid, ans):
        if not self.stack[nid] or not isinstance(self.stack[nid][-1], Serve):
            return
        fr = self.stack[nid][-1]
        if ans == "fail":
            self.stats.hit("fault.impl_failure")
        else:
            rti = fr.method[1]
            a = ans.split(" ")
            if rti.is_compound() == (a[1] == "x"):
                return
            if rti.is_compound():
                try:
                    m = self.obj(rti.decl.name, " ".join(a[2:]))
                    data, bits = self.codec.encode(m)
                except (zs.ModelError, IndexError, ValueError, OverflowError, KeyError, TypeError, AttributeError):
                    return
                kind, val, _ = ref_decode(self.codec, rti.decl.name, data, bits, [])
                if kind == "any" or (kind == "err" and val not in ("constraint", "offset")):
                    return
                if kind == "err":
                    self.stats.hit("probe.invalid")
        self.answer(nid, ans)

    def top_call(self, nid):
        return self.stack[nid] and isinstance(self.stack[nid][-1], Call)

    def do_timeout(self, nid):
        if self.top_call(nid):
            self.stats.hit("fault.response_loss")
            self.stack[nid][-1].expect = ("err", None, "the transport failed")
            self.answer(nid, "fail")

    def do_respond(self, nid, a, edits):
        if not self.top_call(nid) or a not in self.resps:
            return
        fr, v = self.stack[nid][-1], self.resps[a]
        if v["svc"] != fr.svc or v["name"] != fr.method[0]:
            return
        if v["data"] is None:         # the server side reported an error
            fr.expect = ("err", None, "the service failed")
            self.answer(nid, "fail")
            return
        data = v["data"]
        rti = fr.method[1]
        fr.expect = ("ok", v["tokens"], "response " + a)
        if edits is not None:
            self.stats.hit("fault.response_damage")
            data = self.edit(data, edits)
            if rti.is_compound():
                kind, val, _ = ref_decode(self.codec, rti.decl.name, data, None, [])
                if kind == "any" and ("limit" in val or "32 bits" in val):
                    return
                fr.expect = (kind, toks(val) if kind == "ok" else val, "damaged response " + hx(data)[:300])
                self.stats.hit("probe.damaged_" + kind)
            else:
                fr.expect = ("ok", "b" + data.hex(), "other response")
        self.answer(nid, "ok " + hx(data))

    def do_crash(self, nid):
        if nid not in self.used:
            return
        self.stats.hit("fault.crash")
        self.crash(nid)
        self.clients = {c: v for c, v in self.clients.items() if v[0] != nid}
        self.servers = {s: v for s, v in self.servers.items() if v[0] != nid}

    def end(self):
        """faults stop: everything pending completes and every service still serves"""
        for _ in range(400):
            w = self.waiting()
            if not w:
                break
            fr = self.stack[w[0]][-1]
            if isinstance(fr, Serve):
                self.do_ret(w[0], "fail" if fr.method[1].is_compound() else "ok x b55")
                continue
            mine = [a for a, v in sorted(self.resps.items())
                    if v["req"] == fr.rid and (v["svc"], v["name"]) == (fr.svc, fr.method[0])]
            if mine:
                self.do_respond(w[0], mine[0], None)
            else:
                self.do_timeout(w[0])
        if self.waiting():
            raise Violation("liveness", "stuck", "nodes still busy after the faults stopped: %s" % self.waiting())
        for s, (nid, t) in sorted(self.servers.items()):
            name = "raw" if t == "Storage" else "rawIn"
            q = "z" + s
            self.reqs[q] = {"svc": t, "name": name, "data": b"\x05\x02hi\x00", "ctx": "7", "n": 0, "served": 0}
            self.do_serve(q, s)
            if self.waiting():
                self.do_ret(nid, "ok x b0102")

    @staticmethod
    def shrink(op):
        return []


def _spoil(self, rng, o):
    from scen.c01 import C01
    C01.spoil(self, rng, o)


C02.spoil = _spoil
