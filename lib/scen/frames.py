"""Event driven nodes: every node has a stack of commands waiting for the simulated environment."""
import cluster
from sim import Violation
from scen.common import NetScenario


class Frame:
    """one started command; subclasses say which events it may raise and how it may end"""

    def __init__(self, sc, nid, line):
        self.sc, self.nid, self.line = sc, nid, line
        self.event = None        # open event words

    def on_event(self, words):
        raise Violation("unexpected-call", "%s:%s" % (self.sc.lang(self.nid), words[0]),
                        "%s node raised %s while executing %s" % (self.nid, " ".join(words)[:400], self.line[:300]))

    def on_answer(self, ans):
        pass

    def on_end(self, ok, text):
        pass


class FrameScenario(NetScenario):
    NODES = ()               # (id, lang, slot)
    MAX_DEPTH = 4

    def begin(self, cfg):
        self.cfg = cfg
        self.spec = {n[0]: n for n in self.NODES}
        self.stack = {n[0]: [] for n in self.NODES}

    def codec_of(self, nid):
        """the reference model of the schema this node was built with"""
        return self.codec

    def lang(self, nid):
        return self.spec[nid][1]

    def nd(self, nid):
        _, lang, slot = self.spec[nid]
        return self.node(lang, slot)

    def launch(self, frame):
        """starts a command and runs it up to its first event or its end"""
        self.stack[frame.nid].append(frame)
        self.nd(frame.nid).start(frame.line)
        self.pump(frame.nid)
        return frame

    def pump(self, nid):
        st = self.stack[nid]
        k, r = self.nd(nid).recv()
        f = st[-1]
        if k == "ev":
            f.event = r
            f.on_event(r)
        else:
            st.pop()
            f.on_end(k == "ok", r)

    def answer(self, nid, ans):
        f = self.stack[nid][-1]
        f.event = None
        self.nd(nid).answer(ans)
        f.on_answer(ans)
        self.pump(nid)

    def waiting(self):
        return [n for n, st in sorted(self.stack.items()) if st]

    def plain(self, nid, line):
        """a command which must succeed without events (possible at any time)"""
        n = self.nd(nid)
        n.start(line)
        k, r = n.recv()
        if k != "ok":
            if k == "ev":
                raise cluster.HarnessError("event in " + line[:200])
            return False, r
        return True, r

    def crash(self, nid):
        _, lang, slot = self.spec[nid]
        self.pool.crash(self.world, lang, slot)
        self.stack[nid] = []

    def cleanup(self):
        # a run which ended with open events leaves nodes which cannot be reset
        for nid in self.waiting():
            self.crash(nid)
