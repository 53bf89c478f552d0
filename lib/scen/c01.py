"""C01: a Pub/Sub cluster over a simulated transport."""
import collections

import zs
from sim import Violation
from scen.common import documented, hx, ref_decode, toks
from scen.frames import Frame, FrameScenario


class Pub(Frame):
    def __init__(self, sc, nid, line, peer, topic, data, ctx, mid, tokens):
        Frame.__init__(self, sc, nid, line)
        self.want = ["pub", peer, topic, hx(data) if data is not None else None, ctx]
        self.mid, self.tokens, self.data, self.topic = mid, tokens, data, topic
        self.calls, self.failed = 0, False

    def on_event(self, w):
        if self.want[3] is None:
            raise Violation("invalid-published", self.sc.lang(self.nid), "%s publishes an invalid object: %s" % (
                self.nid, " ".join(w)[:500]))
        if w != self.want or self.calls:
            raise Violation("publish-differs", "%s:%s" % (self.sc.lang(self.nid), self.topic),
                            "%s hands to the transport\n %s (call %d)\n instead of\n %s" % (
                                self.nid, " ".join(w)[:900], self.calls + 1, " ".join(map(str, self.want))[:900]))
        self.calls += 1

    def on_answer(self, ans):
        self.failed = ans.startswith("fail")
        if not self.failed:
            self.sc.msgs[self.mid] = {"topic": self.topic, "data": self.data, "tokens": self.tokens, "n": len(self.sc.msgs)}

    def on_end(self, ok, text):
        lang = self.sc.lang(self.nid)
        if self.want[3] is None:
            if ok:
                raise Violation("invalid-published", lang, "%s reports success publishing an invalid object" % self.nid)
            return
        if ok != (not self.failed) or (not self.calls):
            raise Violation("publish-outcome", lang, "%s: publish ended with %s %s after %d transport calls (failed: %s)" % (
                self.nid, "success" if ok else "error", text, self.calls, self.failed))


class Sub(Frame):
    def __init__(self, sc, nid, line, peer, topic, ctx, idx, cb):
        Frame.__init__(self, sc, nid, line)
        self.want = ["sub", peer, topic, ctx]
        self.peer, self.topic, self.idx, self.cb = peer, topic, idx, cb
        self.answered = None
        self.calls = 0

    def on_event(self, w):
        if w != self.want or self.calls:
            raise Violation("subscribe-differs", self.sc.lang(self.nid), "%s subscribes %s instead of %s" % (
                self.nid, w, self.want))
        self.calls += 1

    def on_answer(self, ans):
        self.answered = ans

    def on_end(self, ok, text):
        lang = self.sc.lang(self.nid)
        failed = self.answered is None or self.answered.startswith("fail")
        if ok == failed or (ok and text != self.answered):
            raise Violation("subscribe-outcome", lang, "%s: subscribe ended with %s, the transport answered %s" % (
                self.nid, text, self.answered))
        if ok and self.peer in self.sc.peers:
            self.sc.subs[int(text)] = {"peer": self.peer, "topic": self.topic, "idx": self.idx, "cb": self.cb,
                                       "seen": collections.Counter(), "last": -1}


class Unsub(Frame):
    def __init__(self, sc, nid, line, peer, sid):
        Frame.__init__(self, sc, nid, line)
        self.want = ["unsub", peer, str(sid)]
        self.sid, self.answered, self.calls = sid, None, 0

    def on_event(self, w):
        if w != self.want or self.calls:
            raise Violation("unsubscribe-differs", self.sc.lang(self.nid), "%s: %s instead of %s" % (self.nid, w, self.want))
        self.calls += 1

    def on_answer(self, ans):
        self.answered = ans

    def on_end(self, ok, text):
        failed = self.answered is None or self.answered.startswith("fail")
        if ok == failed:
            raise Violation("unsubscribe-outcome", self.sc.lang(self.nid), "%s: unsubscribe ended with %s %s, the transport "
                            "answered %s" % (self.nid, ok, text, self.answered))
        if ok:
            self.sc.subs.pop(self.sid, None)


class Deliver(Frame):
    """outcome: ('ok', tokens) | ('err', kind) | ('any',)"""

    def __init__(self, sc, nid, line, sub, topic, outcome, what):
        Frame.__init__(self, sc, nid, line)
        self.sub, self.topic, self.outcome, self.what = sub, topic, outcome, what
        self.calls, self.threw = 0, False

    def on_event(self, w):
        lang = self.sc.lang(self.nid)
        sig = "%s:%s" % (lang, self.topic)
        if w[0] != "cb":
            return Frame.on_event(self, w)
        if self.outcome[0] == "err":
            raise Violation("callback-on-invalid", sig, "%s: callback %s called with %s for %s (%s)" % (
                self.nid, w[1], " ".join(w[3:])[:700], self.what, self.outcome[1]))
        self.calls += 1
        if w[1] != self.sub["cb"] or w[2] != self.topic or self.calls > 1:
            raise Violation("wrong-callback", sig, "%s: callback %s (topic %s, call %d) runs for a delivery to %s (topic %s)" % (
                self.nid, w[1], w[2], self.calls, self.sub["cb"], self.topic))
        if self.outcome[0] == "ok":
            got = " ".join(w[3:]).strip()
            if got != self.outcome[1]:
                raise Violation("message-differs", sig, "%s: %s arrives as\n %s\n not as\n %s" % (
                    self.nid, self.what, got[:900], self.outcome[1][:900]))

    def on_answer(self, ans):
        self.threw = ans.startswith("fail")

    def on_end(self, ok, text):
        lang = self.sc.lang(self.nid)
        sig = "%s:%s" % (lang, self.topic)
        o = self.outcome[0]
        if o == "ok" and not self.calls:
            raise Violation("not-delivered", sig, "%s: %s reached no callback: %s %s" % (
                self.nid, self.what, "success" if ok else "error", text))
        if o == "err":
            if ok:
                raise Violation("damage-unreported", sig, "%s: %s was not reported as an error (%s)" % (
                    self.nid, self.what, self.outcome[1]))
            if not documented(lang, self.outcome[1], text):
                raise Violation("undocumented-error", sig, "%s: %s reported as %s" % (self.nid, self.what, text))
            return
        if self.calls and ok == self.threw:
            raise Violation("delivery-outcome", sig, "%s: delivery of %s ended with %s %s; callback failed: %s" % (
                self.nid, self.what, ok, text, self.threw))


class C01(FrameScenario):
    PROP = "C01"
    NODES = (("cpp0", "cpp", 0), ("java0", "java", 0), ("py0", "py", 0), ("pyc0", "pyc", 0), ("cpp1", "cpp", 1),
             ("py1", "py", 1))
    RULE = ("one evaluation = one simulated cluster history (participants, subscriptions, publications, transport schedule "
            "and faults, callbacks publishing/unsubscribing/failing re-entrantly, node crashes); distinct = distinct "
            "(operation, open frames per node, subscriptions per topic, messages in flight) situations reached")
    STUBS = ["transport (PubsubInterface / IPubsub implementation): owned by the simulator, in-memory"]
    EXPECT = ["fault.loss", "fault.duplicate", "fault.reorder", "fault.damage", "fault.transport_error", "fault.callback_error",
              "fault.crash", "fault.alias", "probe.nested", "probe.damaged_ok", "probe.damaged_err", "probe.invalid_publish"]

    @classmethod
    def config(cls, rng, tier):
        return {"ops": rng.choice([30, 60, 120]), "faults": rng.choice([0.0, 0.15, 0.4]), "arr": rng.choice([2, 4]),
                "nodes": sorted(rng.sample([n[0] for n in cls.NODES], rng.choice([2, 3, 4, 6]))),
                "crash": rng.random() < 0.15}

    def begin(self, cfg):
        FrameScenario.begin(self, cfg)
        self.peers, self.subs, self.msgs = {}, {}, {}
        self.count = 0
        self.used = cfg["nodes"]

    def ids(self, prefix):
        self.count += 1
        return "%s%d" % (prefix, self.count)

    # ------------------------------------------------------------------ generation
    def gen(self, rng):
        if len(self.peers) < 2:
            return self.gen_peer(rng)
        w = self.waiting()
        if w and rng.random() < 0.45:
            return self.gen_answer(rng, rng.choice(w))
        deep = [n for n in self.used if len(self.stack[n]) < self.MAX_DEPTH]
        if not deep:
            return self.gen_answer(rng, rng.choice(w))
        r = rng.random()
        f = self.cfg["faults"]
        if r < 0.06 and len(self.peers) < 10:
            return self.gen_peer(rng)
        if r < 0.22:
            op = self.gen_sub(rng, deep)
            if op:
                return op
        if r < 0.28 and self.subs:
            s = rng.choice(sorted(self.subs))
            p = self.subs[s]["peer"]
            if self.peers[p][0] in deep and not self.busy(s):
                return ["unsub", s]
        if r < 0.31 and self.cfg["crash"] and rng.random() < 0.3:
            return ["crash", rng.choice(self.used)]
        if self.msgs and r < 0.31 + 0.25 * f:
            op = self.gen_fault(rng)
            if op:
                return op
        if self.msgs and self.subs and r < 0.75:
            op = self.gen_deliver(rng, deep)
            if op:
                return op
        return self.gen_pub(rng, deep) or self.gen_peer(rng)

    def gen_peer(self, rng):
        t = rng.choice(["Bus", "Bus", "Overlap", "Overlap", "Publisher", "Subscriber"])
        return ["peer", self.ids("p"), rng.choice(self.used), t]

    def busy(self, sid):
        return any(isinstance(f, Unsub) and f.sid == sid for st in self.stack.values() for f in st)

    def gen_answer(self, rng, nid):
        fr = self.stack[nid][-1]
        fail = rng.random() < self.cfg["faults"] * 0.5
        if isinstance(fr, Sub):
            self.count += 1
            return ["ret", nid, "fail" if fail else str(self.count)]
        return ["ret", nid, "fail" if fail else "ok"]

    def gen_sub(self, rng, deep):
        c = [(p, i) for p, (n, t) in sorted(self.peers.items()) if n in deep
             for i, m in enumerate(self.schema[t].messages) if m[1] != "publish"]
        if not c or len(self.subs) > 14:
            return None
        hot = {s["topic"] for s in self.subs.values()} | {m["topic"] for m in self.msgs.values()}
        near = [x for x in c if self.schema[self.peers[x[0]][1]].messages[x[1]][2] in hot]
        p, i = rng.choice(near if near and rng.random() < 0.6 else c)
        return ["sub", p, i, self.ids("c"), rng.choice(["None", "None", str(rng.randint(1, 99))])]

    def gen_pub(self, rng, deep):
        c = [(p, i) for p, (n, t) in sorted(self.peers.items()) if n in deep
             for i, m in enumerate(self.schema[t].messages) if m[1] != "subscribe"]
        if not c or len(self.msgs) > 30:
            return None
        hot = {s["topic"] for s in self.subs.values()}
        near = [x for x in c if self.schema[self.peers[x[0]][1]].messages[x[1]][2] in hot]
        p, i = rng.choice(near if near and rng.random() < 0.7 else c)
        name, mode, topic, ti = self.schema[self.peers[p][1]].messages[i]
        ctx = rng.choice(["None", "None", str(rng.randint(1, 99))])
        if not ti.is_compound():
            b = bytes(rng.getrandbits(8) for _ in range(rng.choice([0, 1, 5, 40])))
            return ["pub", p, i, "b" + b.hex(), "c", ctx, self.ids("m")]
        o = zs.Gen(self.schema, rng, max_arr=self.cfg["arr"], full_ext=rng.random() < 0.5).top(ti.decl.name)
        if rng.random() < 0.05 + 0.1 * self.cfg["faults"]:
            self.spoil(rng, o)
        t = toks(o)
        return ["pub", p, i, t, "d" if "!" in t.split(" ") else rng.choice("sckkd"), ctx, self.ids("m")]

    def spoil(self, rng, o):
        """makes a value invalid, sometimes"""
        fs = [f for f in o.d.fields if f.array is None and f.ti.kind in ("bit", "int", "string")
              and o.f.get(f.name) not in (None, zs.MISSING)]
        if fs and o.d.kind == "struct":
            f = rng.choice(fs)
            o.f[f.name] = zs.Gen(self.schema, rng).scalar(f.ti, o) if f.constraint is None else rng.choice(
                [100, 0, 13, 255]) if f.ti.kind == "bit" else "x" * 140 if f.ti.kind == "string" else -5000

    def gen_deliver(self, rng, deep):
        c = [(m, s) for m, ms in sorted(self.msgs.items()) for s, ss in sorted(self.subs.items())
             if ss["topic"] == ms["topic"] and self.peers[ss["peer"]][0] in deep]
        if not c:
            return None
        if rng.random() < 0.7:
            c = [x for x in c if not self.subs[x[1]]["seen"][x[0]]] or c
        m, s = rng.choice(c)
        return ["deliver", m, s, None]

    def gen_fault(self, rng):
        m = rng.choice(sorted(self.msgs))
        r = rng.random()
        if r < 0.25:
            return ["drop", m]
        near = [s for s in sorted(self.subs) if self.subs[s]["topic"] == self.msgs[m]["topic"]]
        if r < 0.35 and near:
            s = rng.choice(near)
            if len(self.stack[self.peers[self.subs[s]["peer"]][0]]) >= self.MAX_DEPTH:
                return None
            topic = rng.choice(["bus/temperature", "alias/a", "bus", "overlap/route", "bus/raw/", "BUS/RAW"])
            return ["deliver", m, s, topic]      # ignored when m is no message for s
        n = len(self.msgs[m]["data"])
        e = []
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(["flip", "cut", "grow", "set"])
            if n == 0:
                k = "grow"
            if k == "flip":
                e.append(["flip", rng.randrange(8 * n)])
            elif k == "cut":
                n = rng.randrange(n)
                e.append(["cut", n])
            elif k == "grow":
                e.append(["grow", "%02x" % rng.getrandbits(8) * rng.randint(1, 4)])
            else:
                e.append(["set", rng.randrange(n), rng.choice([0, 255, 128, rng.getrandbits(8)])])
        return ["damage", m, e, self.ids("m")]

    # ------------------------------------------------------------------ execution
    def apply(self, op):
        k = op[0]
        self.stats.hit("op." + k)
        self.stats.hit("simtime")
        getattr(self, "do_" + k)(*op[1:])
        per_topic = sorted(collections.Counter(s["topic"] for s in self.subs.values()).items())
        self.stats.state(k, tuple(tuple(type(f).__name__ for f in self.stack[n]) for n in sorted(self.stack)),
                         tuple(per_topic), len(self.msgs))

    def do_peer(self, p, nid, t):
        if p in self.peers or nid not in self.spec:
            return
        ok, r = self.plain(nid, "psnew %s %s" % (p, t))
        if not ok:
            raise Violation("peer", self.lang(nid), "cannot create %s: %s" % (t, r))
        self.peers[p] = (nid, t)

    def do_ret(self, nid, ans):
        if not self.stack[nid]:
            return
        fr = self.stack[nid][-1]
        if isinstance(fr, Sub) and ans == "ok":
            return
        if ans == "fail":
            self.stats.hit("fault.callback_error" if isinstance(fr, Deliver) else "fault.transport_error")
        self.answer(nid, ans)

    def do_sub(self, p, i, cb, ctx):
        if p not in self.peers:
            return
        nid, t = self.peers[p]
        topic = self.schema[t].messages[i][2]
        self.nested(nid)
        self.launch(Sub(self, nid, "pssub %s %d %s %s" % (p, i, cb, ctx), p, topic, ctx, i, cb))

    def nested(self, nid):
        if self.stack[nid]:
            self.stats.hit("probe.nested")

    def do_unsub(self, sid):
        s = self.subs.get(sid)
        if s is None or self.busy(sid):
            return
        nid, _ = self.peers[s["peer"]]
        self.nested(nid)
        self.launch(Unsub(self, nid, "psunsub %s %d" % (s["peer"], sid), s["peer"], sid))

    def do_pub(self, p, i, t, mode, ctx, mid):
        if p not in self.peers or mid in self.msgs:
            return
        nid, pt = self.peers[p]
        name, _, topic, ti = self.schema[pt].messages[i]
        if ti.is_compound():
            o = self.obj(ti.decl.name, t)
            try:
                data, bits = self.codec.encode(o)
            except (zs.ModelError, OverflowError, ValueError):
                return
            kind, val, _ = ref_decode(self.codec, ti.decl.name, data, bits, [])
            # mode k: the sender keeps one message object and gives it new values
            arg = "k" + ti.decl.name if mode == "k" else "o" + mid
            if mode == "d":      # a message received or loaded before
                if kind != "ok":
                    return
                ok, r = self.plain(nid, "dec o%s %s s %d %s" % (mid, ti.decl.name, bits, hx(data)))
            else:
                ok, r = self.plain(nid, ("new %s %s %s %s" % (arg, ti.decl.name, mode, t)).rstrip())
            if not ok:
                raise Violation("object", "%s:%s" % (self.lang(nid), ti.decl.name), "cannot build %s: %s" % (t[:300], r))
            if kind == "any":
                return
            if kind == "err":
                if val not in ("constraint", "offset"):
                    return
                self.stats.hit("probe.invalid_publish")
                data, tokens = None, None
            else:
                tokens = toks(val)
        else:
            data = bytes.fromhex(t[1:])
            tokens, arg = t, t
        self.nested(nid)
        self.launch(Pub(self, nid, "pspub %s %d %s %s" % (p, i, arg, ctx), p, topic, data, ctx, mid, tokens))

    def do_drop(self, m):
        if self.msgs.pop(m, None) is not None:
            self.stats.hit("fault.loss")

    def do_damage(self, m, edits, new):
        ms = self.msgs.get(m)
        if ms is None or new in self.msgs:
            return
        b = bytearray(ms["data"])
        for e in edits:
            if e[0] == "flip" and e[1] < 8 * len(b):
                b[e[1] // 8] ^= 0x80 >> (e[1] % 8)
            elif e[0] == "cut":
                del b[e[1]:]
            elif e[0] == "grow":
                b += bytes.fromhex(e[1])
            elif e[0] == "set" and e[1] < len(b):
                b[e[1]] = e[2]
        self.stats.hit("fault.damage")
        self.msgs[new] = {"topic": ms["topic"], "data": bytes(b), "tokens": None, "n": len(self.msgs)}

    def do_deliver(self, m, sid, misroute):
        ms, s = self.msgs.get(m), self.subs.get(sid)
        if ms is None or s is None or self.busy(sid):
            return
        nid, pt = self.peers[s["peer"]]
        ti = self.schema[pt].messages[s["idx"]][3]
        topic = s["topic"]
        if ms["topic"] != topic:
            return
        if misroute is not None:     # the transport reports the topic under another name (wildcards, aliases)
            self.stats.hit("fault.alias")
            topic = misroute
        if not ti.is_compound():
            outcome = ("ok", "b" + ms["data"].hex())
        elif ms["tokens"] is not None:
            outcome = ("ok", ms["tokens"])
        else:
            kind, val, _ = ref_decode(self.codec, ti.decl.name, ms["data"], None, [])
            if kind == "any" and ("limit" in val or "32 bits" in val):
                return
            outcome = ("ok", toks(val)) if kind == "ok" else (kind, val)
            self.stats.hit("probe.damaged_" + kind)
        if outcome[0] == "ok":
            if s["seen"][m]:
                self.stats.hit("fault.duplicate")
            if s["last"] > ms["n"]:
                self.stats.hit("fault.reorder")
            s["last"] = max(s["last"], ms["n"])
        s["seen"][m] += 1
        self.nested(nid)
        self.launch(Deliver(self, nid, "psdel %s %d %s %s" % (s["peer"], sid, topic, hx(ms["data"])), s, topic, outcome,
                            "message %s (%s)" % (m, hx(ms["data"])[:300])))

    def do_crash(self, nid):
        if nid not in self.used:
            return
        self.stats.hit("fault.crash")
        self.crash(nid)
        gone = {p for p, (n, _) in self.peers.items() if n == nid}
        self.peers = {p: v for p, v in self.peers.items() if p not in gone}
        self.subs = {s: v for s, v in self.subs.items() if v["peer"] not in gone}

    def end(self):
        """faults stop: everything pending completes, and every live subscription still receives"""
        for _ in range(400):
            w = self.waiting()
            if not w:
                break
            self.count += 1
            fr = self.stack[w[0]][-1]
            self.answer(w[0], str(100000 + self.count) if isinstance(fr, Sub) else "ok")
        if self.waiting():
            raise Violation("liveness", "stuck", "nodes still busy after the faults stopped: %s" % self.waiting())
        for sid, s in sorted(self.subs.items()):
            ms = [m for m in sorted(self.msgs) if self.msgs[m]["topic"] == s["topic"] and self.msgs[m]["tokens"] is not None]
            if ms:
                self.do_deliver(ms[-1], sid, None)
                while self.waiting():
                    self.answer(self.waiting()[0], "ok")

    @staticmethod
    def shrink(op):
        if op[0] == "damage" and len(op[2]) > 1:
            for i in range(len(op[2])):
                yield [op[0], op[1], op[2][:i] + op[2][i + 1:], op[3]]
