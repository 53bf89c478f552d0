"""Rounds of several threads under a simulated schedule (module of pyworker): every bytecode instruction of the library
and of generated code is a point where the schedule may hand over to another thread."""
import os
import sys
import threading

import zserio


class Round:
    def __init__(self, plan, anywhere, bodies, roots):
        self.anywhere = anywhere  # switch while modules are initialised, too
        self.plan, self.roots, self.n = plan, roots, len(bodies)
        self.at = self.steps = self.switches = 0
        self.turn = [threading.Semaphore(0) for _ in bodies]
        self.alive = [True] * self.n
        self.stalled = [False] * self.n
        self.holder = 0
        self.over = threading.Event()
        self.known = {}
        self.threads = [threading.Thread(target=self.body, args=(i, b), daemon=True) for i, b in enumerate(bodies)]
        self.me = threading.local()

    def body(self, i, b):
        self.turn[i].acquire()
        self.me.i = i
        self.me.init = 0
        sys.settrace(self.enter)
        try:
            b()
        finally:
            sys.settrace(None)
            self.alive[i] = False
            if not any(self.alive):
                self.over.set()
            elif self.holder == i:
                to = self.pick(i + 1)
                if to is not None:
                    self.holder = to
                    self.turn[to].release()

    def pick(self, wish):
        for k in range(self.n):
            t = (wish + k) % self.n
            if self.alive[t] and not self.stalled[t]:
                return t
        return None

    def enter(self, frame, event, arg):
        f = frame.f_code.co_filename
        k = self.known.get(f)
        if k is None:
            k = self.known[f] = f.startswith(self.roots)
        if not k:
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        if frame.f_code.co_name == "<module>":
            self.me.init += 1
        return self.local

    def local(self, frame, event, arg):
        if event == "opcode":
            i = self.me.i
            if self.holder != i:
                # judged to be blocked meanwhile
                self.stalled[i] = False
                self.turn[i].acquire()
            self.steps += 1
            if self.me.init and not self.anywhere:
                return self.local
            to = None
            while self.at < len(self.plan) and self.steps >= self.plan[self.at][0]:
                to = self.plan[self.at][1] % self.n
                self.at += 1
            if to is not None:
                to = self.pick(to)
                if to is not None and to != i:
                    self.switches += 1
                    self.holder = to
                    self.turn[to].release()
                    self.turn[i].acquire()
        elif event == "return" and frame.f_code.co_name == "<module>":
            self.me.init -= 1
        return self.local

    def run(self):
        for t in self.threads:
            t.start()
        self.turn[0].release()
        last = cpu = -1
        idle = same = 0
        while not self.over.wait(0.015):
            if self.steps != last:
                last, idle, same = self.steps, 0, 0
                continue
            # a thread waiting for a lock or for the import of a module makes no steps and needs no time
            h = self.holder
            try:
                with open("/proc/self/task/%d/schedstat" % self.threads[h].native_id) as f:
                    c = f.read().split(" ")[0]
            except OSError:
                c = -1
            if c != cpu:
                same = 0
            cpu = c
            same += 1
            if same < (4 if idle == 0 else 60):
                continue
            same = 0
            self.stalled[h] = self.alive[h]
            to = self.pick(h + 1)
            if to is not None:
                self.holder = to
                self.turn[to].release()
            else:
                idle += 1
                if idle > 10:
                    return False
        return True


def prime():
    """instruction events only take effect with the settrace() after the first request for them"""
    def enter(frame, event, arg):
        frame.f_trace_opcodes = True

    sys.settrace(enter)
    (lambda: None)()
    sys.settrace(None)


def register(w):
    prime()
    roots = tuple([os.path.dirname(zserio.__file__)] + [p for p in sys.path if "/gen_" in p])

    def walk(i, depth, r):
        r.append("%s:%s" % (i.schema_name, getattr(i.py_type, "__name__", i.py_type)))
        if depth == 0:
            return
        A = zserio.typeinfo.TypeAttribute
        M = zserio.typeinfo.MemberAttribute
        a = i.attributes
        for k in (A.ENUM_ITEMS, A.BITMASK_VALUES):
            for x in a.get(k, []):
                r.append("%s=%s" % (x.schema_name, int(x.py_item.value)))
        for k in (A.PARAMETERS, A.FIELDS):
            for f in a.get(k, []):
                r.append("(%s %s" % (f.schema_name, ",".join(sorted(m.name for m in f.attributes))))
                c = f.attributes.get(M.CONSTRAINT)
                r.append("c" if c else "")
                walk(f.type_info, depth - 1, r)
                r.append(")")
        for c in a.get(A.CASES, []):
            r.append("<%d %s>" % (len(c.case_expressions), c.field.schema_name if c.field else "-"))

    def tinfo(a):
        r = []
        walk(w.cls(w.S[a[1]]).type_info(), int(a[2]), r)
        return "_".join(r).replace(" ", "_")

    def one(c):
        try:
            return w.command(c)
        except Exception as e:  # noqa
            m = str(e).replace("\n", " ")[:200].encode("ascii", "replace").decode()
            return "ERR %s %s" % (w.errname(e), m)

    def par(a):
        text = a[1].lstrip("c")
        plan = [] if text == "-" else [tuple(int(x) for x in p.split(":")) for p in text.split(",")]
        progs = [[[]]]
        for t in a[2:]:
            if t == "|":
                progs.append([[]])
            elif t == ";":
                progs[-1].append([])
            else:
                progs[-1][-1].append(t)
        out = ["" for _ in progs]

        def body(n):
            def go():
                for c in progs[n]:
                    out[n] += one(c) + " ; "
            return go
        r = Round(plan, a[1][0] == "c", [body(n) for n in range(len(progs))], roots)
        done = r.run()
        return "%d %d %s -%s" % (r.steps, r.switches, "done" if done else "stuck",
                                 "".join(" | " + x for x in out) if done else "")

    def jround(a):
        text = w.command(["jwrite", a[2], a[3], "0", "-1", "0"])[5:]
        w.command(["jread", a[1], a[3], "w", "", "-1", text])
        return ""

    w.EXTRA["jround"] = jround
    w.EXTRA["tinfo"] = tinfo
    w.EXTRA["par"] = par
