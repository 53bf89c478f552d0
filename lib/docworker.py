"""Commands on files and JSON streams (module of pyworker)."""
import io

import zserio


class Fail(Exception):
    pass


class Text(io.TextIOBase):
    """delivers characters in pieces"""

    def __init__(self, text, cuts, fail):
        self.t, self.cuts, self.fail, self.p, self.c = text, cuts, fail, 0, 0

    def readable(self):
        return True

    def read(self, n=-1):
        k = self.cuts[self.c % len(self.cuts)] if self.cuts else len(self.t)
        self.c += 1
        k = max(1, k)
        if n is not None and n >= 0:
            k = min(k, n)
        if self.fail >= 0:
            if self.p >= self.fail:
                raise OSError("stream failure")
            k = min(k, self.fail - self.p)
        r = self.t[self.p:self.p + k]
        self.p += len(r)
        return r


class Raw(io.RawIOBase):
    """delivers bytes in pieces"""

    def __init__(self, data, cuts, fail):
        self.d, self.cuts, self.fail, self.p, self.c = data, cuts, fail, 0, 0

    def readable(self):
        return True

    def readinto(self, b):
        k = self.cuts[self.c % len(self.cuts)] if self.cuts else len(self.d)
        self.c += 1
        k = min(max(1, k), len(b))
        if self.fail >= 0:
            if self.p >= self.fail:
                raise OSError("stream failure")
            k = min(k, self.fail - self.p)
        r = self.d[self.p:self.p + k]
        self.p += len(r)
        b[:len(r)] = r
        return len(r)


class Sink(io.TextIOBase):
    def __init__(self, room):
        self.t, self.room = [], room

    def writable(self):
        return True

    def write(self, s):
        b = s.encode()
        if self.room >= 0:
            if len(b) > self.room:
                raise OSError("stream failure")
            self.room -= len(b)
        self.t.append(b)
        return len(s)


def register(w):
    S, H = w.S, w.H

    def text(h):
        return b"" if h == "-" else bytes.fromhex(h)

    def source(a):
        mode, cuts, fail, data = a[0], [int(x) for x in a[1].split(",") if x], int(a[2]), text(a[3])
        if mode == "w":
            return Text(data.decode(), [], fail)
        if mode == "x":
            return Text(data.decode(), cuts, fail)
        return io.TextIOWrapper(io.BufferedReader(Raw(data, cuts, fail), max([1] + cuts)), encoding="utf-8", newline="")

    def indent(n):
        return None if n < 0 else n

    def fsave(a):
        zserio.serialize_to_file(H[a[1]][0], text(a[3]).decode())
        return ""

    def fload(a):
        d = S[a[2]]
        H[a[1]] = (zserio.deserialize_from_file(w.cls(d), text(a[3]).decode(), *w.params_of(d, a[4:])), d)
        return ""

    def bsave(a):
        n = int(a[1])
        writer = zserio.BitStreamWriter()
        for i, x in enumerate(text(a[2])):
            k = min(8, n - 8 * i)
            writer.write_bits(x >> (8 - k), k)
        writer.to_file(text(a[3]).decode())
        return ""

    def bload(a):
        r = zserio.BitStreamReader.from_file(text(a[1]).decode())
        n = r.buffer_bitsize
        return "%d %s" % (n, bytes(r.read_bits(8) for _ in range(n // 8)).hex() or "-")

    def jsave(a):
        zserio.to_json_file(H[a[1]][0], text(a[4]).decode(), indent=indent(int(a[3])))
        return ""

    def jload(a):
        d = S[a[2]]
        H[a[1]] = (zserio.from_json_file(w.cls(d), text(a[3]).decode(), *w.params_of(d, a[4:])), d)
        return ""

    def jwrite(a):
        s = Sink(int(a[4]))
        zserio.to_json_stream(H[a[1]][0], s, indent=indent(int(a[3])))
        return "good " + (b"".join(s.t).hex() or "-")

    def jread(a):
        d = S[a[2]]
        H[a[1]] = (zserio.from_json_stream(w.cls(d), source(a[3:7]), *w.params_of(d, a[7:])), d)
        return ""

    def jmany(a):
        d = S[a[2]]
        r = zserio.JsonReader(source(a[3:7]))
        return " ".join("/" + w.dump_obj(r.read(w.cls(d).type_info()), d) for _ in range(int(a[1])))

    for f in (fsave, fload, bsave, bload, jsave, jload, jwrite, jread, jmany):
        w.EXTRA[f.__name__] = f
