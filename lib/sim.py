"""The deterministic simulator: seeded runs, traces, replay, minimisation, sharding, evidence.

A run is a sequence of operations (plain JSON values) applied to a scenario.  While searching, operations are generated
one at a time from the seeded generator and the scenario's own state; the sequence is the trace.  Replaying a trace
needs no generator: every choice (values, schedules, faults) is spelled out in its operations.
"""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import sys
import time
import traceback

import build
import cluster

VERIF = build.VERIF
EVIDENCE = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "known_findings.json")


class Violation(Exception):
    """cls: what kind of promise is broken (kept while minimising); sig: where, used to recognise known findings"""

    def __init__(self, cls, sig, msg):
        Exception.__init__(self, msg)
        self.cls, self.sig, self.msg = cls, sig, msg


class Pool:
    """Nodes that survive from run to run (reset in between), restarted when dead or after a number of runs."""

    def __init__(self):
        self.nodes = {}
        self.digest = hashlib.sha256()
        self.commands = 0
        self.on_new = None

    def _log(self, line):
        if " at 0x" in line:        # address of an object in the text of an error
            line = re.sub(r" at 0x[0-9a-f]+", "", line)
        if "7a73696d5f" in line:     # name of a scratch directory
            line = re.sub(r"7a73696d5f(?:[0-9a-f]{2})*?2f", "", line)
        if "zsim_" in line:
            line = re.sub(r"zsim_[^/ ]*", "", line)
        self.digest.update(line.encode())
        self.commands += 1

    def get(self, world, lang, slot=0, **kw):
        key = (world.name, lang, slot)
        n = self.nodes.get(key)
        if n is not None and n.dead:
            n.close()
            n = None
        if n is None:
            n = self.nodes[key] = cluster.Node(world, lang, **kw)
            n.log = self._log
        return n

    def host(self, key, make):
        """a node of another kind, made by make()"""
        n = self.nodes.get(key)
        if n is not None and n.dead:
            n.close()
            n = None
        if n is None:
            n = self.nodes[key] = make()
            n.log = self._log
        return n

    def drop(self, key):
        n = self.nodes.pop(key, None)
        if n is not None:
            n.kill()
            n.close()

    def crash(self, world, lang, slot=0):
        """kills a node as a power cut would"""
        key = (world.name, lang, slot)
        n = self.nodes.pop(key, None)
        if n is not None:
            n.kill()
            n.close()

    def reset(self):
        for k, n in list(self.nodes.items()):
            if n.dead:
                n.close()
                del self.nodes[k]
            else:
                n.ok("reset")

    def close(self):
        for n in self.nodes.values():
            n.kill()
            n.close()
        self.nodes = {}


class Stats:
    def __init__(self):
        self.c = collections.Counter()   # probes and faults, "group.name"
        self.states = set()
        self.samples = []

    def hit(self, name, n=1):
        self.c[name] += n

    def state(self, *parts):
        if len(self.states) < 400000:
            self.states.add(hash_of(parts))

    def merge(self, o):
        self.c.update(o.c)
        self.states |= o.states
        self.samples += o.samples


def hash_of(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), "big")


class Scenario:
    """Base class.  Subclasses define PROP, LANGS, prepare(), begin(), gen(), apply(), end()."""
    PROP = None
    MAX_OPS = 60
    SESSION = 60          # runs per worker-process lifetime

    def __init__(self, pool, stats):
        self.pool, self.stats = pool, stats

    @classmethod
    def prepare(cls):
        """builds everything (parent process, before forking)"""

    @classmethod
    def config(cls, rng, tier):
        """first operation of every run"""
        return {}

    def begin(self, cfg):
        pass

    def gen(self, rng):
        return None

    def apply(self, op):
        pass

    def end(self):
        pass

    def cleanup(self):
        pass


def guarded(sc, f, *a):
    """runs one step; node death and hangs become violations"""
    try:
        return f(*a)
    except cluster.NodeDied as e:
        raise Violation("crash", "%s:%s" % (e.node.lang, crash_sig(e.why)), "%s node crashed: %s" % (e.node.lang, e.why[:1500]))
    except cluster.NodeHung as e:
        raise Violation("hang", e.node.lang, "%s node made no progress within %d s of CPU time" % (
            e.node.lang, cluster.Node.CPU_LIMIT))


def crash_sig(why):
    m = re.search(r"AddressSanitizer:? ([\w-]+)", why)
    if m:
        frame = re.search(r"#\d+ \S+ in ((?:zserio::|[a-z]\w*::)[\w:~]*)", why)
        return m.group(1) + (":" + frame.group(1) if frame else "")
    m = re.search(r"runtime error: (.{0,60})", why)
    return m.group(1) if m else why[:40].replace("\n", " ")


def run_trace(sc, trace):
    """replays; raises Violation"""
    guarded(sc, sc.begin, trace[0][1])
    try:
        for op in trace[1:]:
            guarded(sc, sc.apply, op)
        guarded(sc, sc.end)
    finally:
        sc.cleanup()


def run_seed(sc, cls, seed, tier, trace):
    rng = random.Random(seed)
    cfg = cls.config(rng, tier)
    trace.append(["cfg", cfg])
    guarded(sc, sc.begin, cfg)
    try:
        for _ in range(cfg.get("ops", cls.MAX_OPS)):
            op = sc.gen(rng)
            if op is None:
                break
            op = json.loads(json.dumps(op))
            trace.append(op)
            guarded(sc, sc.apply, op)
        guarded(sc, sc.end)
    finally:
        sc.cleanup()


# ------------------------------------------------------------------------------------------------ search
def seed_of(base, prop, i):
    return "%s/%s/%d" % (base, prop, i)


def _shard(cls, base, tier, runs, w, nw, deadline, best, q, known):
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    pool, stats = Pool(), Stats()
    sc = cls(pool, stats)
    done, session = 0, []
    digests = {}
    out = {"w": w, "violation": None, "error": None, "known": collections.Counter()}
    try:
        for i in range(w, runs, nw):
            if i > best.value or time.time() > deadline:
                break
            if done % cls.SESSION == 0:
                pool.close()
                session = []
            pool.digest = hashlib.sha256()
            trace = []
            try:
                pool.reset()
                pool.digest = hashlib.sha256()
                run_seed(sc, cls, seed_of(base, cls.PROP, i), tier, trace)
            except Violation as v:
                kf = match_known(known, v)
                if kf is not None:
                    out["known"][kf["id"]] += 1
                    pool.close()
                    session = []
                else:
                    out["violation"] = (i, v.cls, v.sig, v.msg, trace, list(session))
                    with best.get_lock():
                        best.value = min(best.value, i)
                    break
            session.append(trace)
            digests[i] = pool.digest.hexdigest()[:16]
            if len(stats.samples) < 2 and i < 2 * nw:
                stats.samples.append({"seed": seed_of(base, cls.PROP, i), "trace": abbreviate(trace)})
            done += 1
    except Exception:  # noqa
        out["error"] = "run %s: %s\ntrace: %s" % (i, traceback.format_exc(), json.dumps(trace)[-3000:])
    finally:
        try:
            pool.close()
        except Exception:  # noqa
            pass
    out["done"], out["digests"], out["stats"], out["commands"] = done, digests, stats, pool.commands
    q.put(out)


def abbreviate(trace):
    s = []
    for op in trace[:14]:
        t = json.dumps(op)
        s.append(t if len(t) < 160 else t[:157] + "...")
    return s + (["... %d operations" % len(trace)] if len(trace) > 14 else [])


def search(cls, base, tier, runs, deadline, shards, known=()):
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    best = ctx.Value("q", 1 << 60)
    ps = [ctx.Process(target=_shard, args=(cls, base, tier, runs, w, shards, deadline, best, q, known))
          for w in range(shards)]
    for p in ps:
        p.start()
    outs = []
    waiting = True
    while len(outs) < len(ps):
        try:
            outs.append(q.get(timeout=5))
        except Exception:  # noqa
            if not any(p.is_alive() for p in ps) and q.empty():
                break
    for p in ps:
        p.join()
    return sorted(outs, key=lambda o: o["w"]), len(ps) - len(outs)


# ------------------------------------------------------------------------------------------------ known findings
def load_known(prop):
    if not os.path.exists(FINDINGS):
        return []
    with open(FINDINGS) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop and k["status"] == "open"]


def match_known(known, v):
    for k in known:
        if v.cls == k["class"] and re.fullmatch(k["sig"], v.sig):
            return k
    return None


# ------------------------------------------------------------------------------------------------ replay, minimise
def replay(cls, trace, pool=None, stats=None):
    """-> Violation or None"""
    own = pool is None
    pool = pool or Pool()
    try:
        pool.reset()
        run_trace(cls(pool, stats or Stats()), trace)
        return None
    except Violation as v:
        return v
    finally:
        if own:
            pool.close()


def replay_session(cls, traces):
    pool = Pool()
    try:
        for t in traces:
            v = replay(cls, t, pool)
            if v is not None:
                return v
        return None
    finally:
        pool.close()


def minimise(cls, trace, want, budget=60.0):
    """ddmin on the operations after the configuration; then on the pieces inside operations the scenario offers"""
    t0 = time.time()
    pool = Pool()
    tried = [0]
    known = load_known(cls.PROP)

    def fails(t):
        tried[0] += 1
        try:
            v = replay(cls, t, pool)
        except Exception:  # noqa  a reduced trace the harness cannot execute
            pool.close()
            return False
        if v is not None:
            pool.close()
        return v is not None and v.cls == want and match_known(known, v) is None

    try:
        head, ops = trace[:1], trace[1:]
        n = 2
        while len(ops) >= 2 and time.time() - t0 < budget:
            size = max(1, len(ops) // n)
            cut = False
            for i in range(0, len(ops), size):
                if time.time() - t0 > budget:
                    break
                rest = ops[:i] + ops[i + size:]
                if fails(head + rest):
                    ops, n, cut = rest, max(2, n - 1), True
                    break
            if not cut:
                if size == 1:
                    break
                n = min(len(ops), n * 2)
        shrink = getattr(cls, "shrink", None)
        if shrink:
            again = True
            while again and time.time() - t0 < budget:
                again = False
                for i, op in enumerate(ops):
                    for smaller in shrink(op):
                        if time.time() - t0 > budget:
                            break
                        cand = ops[:i] + [smaller] + ops[i + 1:]
                        if fails(head + cand):
                            ops, again = cand, True
                            break
        return head + ops, tried[0]
    finally:
        pool.close()


def write_replay(cls, base, i, v, traces, note):
    d = os.path.join(EVIDENCE, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%s.json" % (cls.PROP, base, i))
    with open(p, "w") as f:
        json.dump({"property": cls.PROP, "scenario": cls.__name__, "seed": seed_of(base, cls.PROP, i), "class": v[1],
                   "signature": v[2], "message": v[3], "note": note, "traces": traces}, f, indent=1)
    return p


# ------------------------------------------------------------------------------------------------ a whole check
def check(cls, tier, base, runs, wall, shards=None, extra_cover=None, argv=()):
    """returns the exit code"""
    t0 = time.time()
    prop = cls.PROP
    shards = shards or min(build.JOBS, 8)
    cls.prepare()
    built = time.time() - t0
    known = load_known(prop)
    lines = []
    for k in known:
        with open(os.path.join(VERIF, k["replay"])) as f:
            v = replay_session(cls, json.load(f)["traces"])
        if v is not None and match_known([k], v):
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    t1 = time.time()
    outs, lost = search(cls, base, tier, runs, t1 + wall, shards, known)
    stats = Stats()
    done, digests, commands = 0, {}, 0
    errors = [o["error"] for o in outs if o["error"]]
    found = sorted((o["violation"] for o in outs if o["violation"]), key=lambda v: v[0])
    seen_known = collections.Counter()
    for o in outs:
        stats.merge(o["stats"])
        done += o["done"]
        digests.update(o["digests"])
        commands += o["commands"]
        seen_known.update(o["known"])
    searched = time.time() - t1
    rc, violations = 0, []
    if found:
        v = found[0]
        i, vcls, sig, msg, trace, session = v
        note, traces, rep = "", [trace], None
        r = replay(cls, trace)
        if r is not None and r.cls == vcls:
            small, tried = minimise(cls, trace, vcls, 60 if tier == "quick" else 300)
            r2 = replay(cls, small)
            if r2 is not None and r2.cls == vcls:
                note = "minimised from %d to %d operations in %d replays" % (len(trace), len(small), tried)
                traces, r = [small], r2
            v = (i, r.cls, r.sig, r.msg)
        else:
            r = replay_session(cls, session + [trace])
            if r is not None:
                traces, note = session + [trace], "needs the %d preceding runs of its session" % len(session)
                v = (i, r.cls, r.sig, r.msg)
            else:
                note = "did not reproduce on replay"
        path = write_replay(cls, base, i, v, traces, note)
        print("%s: %s [%s] %s" % (prop, v[1], v[2], v[3][:2000]))
        print("  seed %s; %s" % (seed_of(base, prop, i), note))
        if "did not reproduce" in note:
            errors.append("violation of run %d did not reproduce: harness nondeterminism" % i)
        else:
            lines.append("VIOLATION property=%s replay=%s" % (prop, path))
            violations.append({"class": v[1], "signature": v[2], "message": v[3][:1000], "replay": path})
            rc = 1
    faults = {k[6:]: n for k, n in sorted(stats.c.items()) if k.startswith("fault.")}
    ops = {k[3:]: n for k, n in sorted(stats.c.items()) if k.startswith("op.")}
    probes = {k: n for k, n in sorted(stats.c.items()) if not k.startswith(("fault.", "op.", "simtime"))}
    rate = done / searched * 3600 if searched > 0 else 0
    zero = [p for p in getattr(cls, "EXPECT", ()) if not stats.c.get(p)]
    ev = {
        "property": prop, "tier": tier, "seed": int(base) if str(base).isdigit() else hash_of(base) >> 1,
        "level": getattr(cls, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": done,
            "distinct_nontrivial": len(stats.states),
            "rule": cls.RULE,
            "samples": stats.samples[:4] or [{"note": "none"}],
            "simulated_runs": done, "runs_requested": runs, "seeds_per_hour": round(rate),
            "node_commands": commands,
            "simulated_time": "%d virtual time units" % stats.c.get("simtime", 0),
            "faults_injected": faults, "operations": ops, "probes": probes, "probes_never_hit": zero,
            "distinct_states": len(stats.states), "real_components": cls.REAL, "stubs": cls.STUBS,
            "digest": hashlib.sha256("".join("%d%s" % kv for kv in sorted(digests.items())).encode()).hexdigest()[:32],
            "known_findings_seen": dict(seen_known),
        },
        "assumptions": list(cls.ASSUMPTIONS),
        "wall_s": round(time.time() - t0, 1), "violations": len(violations),
    }
    ev["coverage"]["violation_details"] = violations
    ev["coverage"]["seed_text"] = str(base)
    ev["coverage"]["build_s"] = round(built, 1)
    ev["coverage"]["shards"] = shards
    if extra_cover:
        ev["coverage"].update(extra_cover())
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, prop + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(EVIDENCE, prop + ".json"))
    print("%s: %d runs, %d states, %d node commands, %.0f s (build %.0f s)%s" % (
        prop, done, len(stats.states), commands, time.time() - t0, built, "; never hit: %s" % zero if zero else ""))
    for ln in lines:
        print(ln)
    if rc == 0 and (errors or lost):
        for e in errors[:2]:
            print("HARNESS ERROR: " + e, file=sys.stderr)
        if lost:
            print("HARNESS ERROR: %d shards vanished" % lost, file=sys.stderr)
        return 2
    return rc
