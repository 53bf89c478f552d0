"""The simulated disk: control block of workers/simfs.c."""
import mmap
import os
import struct
import tempfile

import build

KIND = {"none": 0, "eio": 1, "enospc": 2, "short": 3, "eintr": 4, "crash": 5, "close": 6, "open": 7, "read": 8, "fsync": 9,
        "meta": 10, "rate": 11}
OPEN, WRITE, META, CLOSE, SYNC, READ, ROPEN = 1, 2, 4, 8, 16, 32, 64
CLASSES = ("open", "write", "meta", "close", "sync", "read", "ropen")
HEAD = "<IIIIQQQQIIIIqQQQ4Q"
P0 = 128
SIZE = struct.calcsize(HEAD) + 512 + 64 + 512


def shim():
    src = os.path.join(build.VERIF, "workers", "simfs.c")

    def make(tmp):
        build.run(["gcc", "-shared", "-fPIC", "-O1", "-w", "-o", os.path.join(tmp, "simfs.so"), src, "-ldl", "-lpthread"])
    return os.path.join(build.cached("simfs", build.hash_files([src]), make), "simfs.so")


class Disk:
    """one control block, shared with the node started with env()"""

    def __init__(self, prefix=""):
        f = tempfile.NamedTemporaryFile(prefix="zsim_ctl_", delete=False)
        f.write(b"\0" * 4096)
        f.flush()
        self.path = f.name
        self.m = mmap.mmap(f.fileno(), 4096)
        f.close()
        self.prefix = prefix

    def env(self):
        return {"SIMFS_CTL": self.path, "LD_PRELOAD": shim()}

    clock = 0
    arming = 0

    def _put(self, armed, kind, mask, arg, at, seed, powerloss, scramble, sched=0, sched_seed=0):
        b = struct.pack(HEAD, armed, kind, mask, arg, at, 0, 0, seed, 0, powerloss, scramble, sched, self.clock, 0, 0, sched_seed,
                        self.arming, 0, 0, 0)
        self.m[:len(b)] = b
        p = self.prefix.encode()
        self.m[P0:P0 + 512] = p + b"\0" * (512 - len(p))
        self.m[P0 + 512:P0 + 512 + 64 + 512] = b"\0" * (64 + 512)

    def arm(self, kind="none", at=0, arg=0, mask=OPEN | WRITE | META | CLOSE, seed=1, powerloss=0, scramble=0,
            sched=0, sched_seed=1):
        self.arming += 1
        self._put(1, KIND[kind], mask, arg, at, seed or 1, powerloss, scramble, sched, sched_seed)

    def disarm(self, scramble=0):
        r = self.state()
        self._put(0, 0, 0, 0, 0, 1, 0, scramble)
        return r

    def state(self):
        """-> dict(ops, hits, dead, kinds, last)"""
        v = struct.unpack(HEAD, self.m[:struct.calcsize(HEAD)])
        kinds = struct.unpack("<8Q", self.m[P0 + 512:P0 + 512 + 64])
        last = self.m[P0 + 512 + 64:P0 + 512 + 64 + 512].split(b"\0")[0].decode("utf-8", "replace")
        return {"ops": v[5], "hits": v[6], "dead": v[8], "kinds": dict(zip(CLASSES, kinds)), "last": last,
                "sched": v[11], "switches": v[13], "order": v[14]}

    def close(self):
        try:
            os.unlink(self.path)
        except OSError:
            pass


assert struct.calcsize(HEAD) == P0
