"""C12: JSON texts delivered in pieces, by failing and by ending streams; JSON written into streams which fail."""
import jsontext
import zs
from sim import Violation
from scen.common import LANGS, NetScenario, doc_world, hx, toks

JLANGS = ("cpp", "java", "py")
NAMES = ["Doc", "Doc", "Any", "Tree", "Numbers", "Leaf", "Kinded", "Sized", "Page", "Bits", "Empty"]
BUF = 65536
JUNK = ["{", "}", "[", "]", ":", ",", "\"", "\\", "null", "true", "fals", "nul", "-", "1e", "1e400", "0x1", "9" * 25, "-0",
        "18446744073709551616", "-9223372036854775809", "+1", ".5", "1.", "Infinity", "-Infinit", "NaN", "NaNN", "\\u00", "\\x",
        "\\u4e2d", "\r", "\n", " ", "\u4e2d", "\U0001f600", "\x00", "\x7f", "/* c */", "\"no such key\": 1,", "\"\\", "'", "12 34", "{}"]


class C12(NetScenario):
    PROP = "C12"
    LEVEL = "exploration"
    MAX_OPS = 40
    RULE = ("one evaluation = one simulated run: JSON texts of random values in random layout, valid and damaged, delivered "
            "whole, in seeded pieces, by streams which fail or end at a seeded place, and written into streams which fail; "
            "distinct = distinct (text, piece pattern, failure place, language) with a decided outcome")
    STUBS = ["character streams: sources and sinks of the simulator which deliver, refuse or fail as the seed decides"]
    ASSUMPTIONS = ["a text read whole in one piece is the reference for the same text read in pieces (damaged texts); the "
                   "reference model gives the value of valid texts",
                   "texts use only the escapes the format of the writers uses (no code points beyond ASCII by escape)"]
    EXPECT = ["read.split", "read.boundary", "damaged.err", "damaged.ok", "fail.err", "fail.after", "early.err", "sink.fail", "sink.ok",
              "many", "again", "split.space", "split.cr", "split.value", "split.utf8"]

    @classmethod
    def get_world(cls):
        return doc_world()

    @classmethod
    def prepare(cls):
        cls.get_world().build_all(JLANGS)

    @classmethod
    def config(cls, rng, tier):
        return {"ops": rng.choice([15, 25, 40]), "arr": rng.choice([1, 3, 3, 6])}

    def begin(self, cfg):
        self.cfg = cfg
        self.docs = []
        self.held = {}

    # ------------------------------------------------------------------ generation
    def gen(self, rng):
        if not self.docs or (rng.random() < 0.15 and len(self.docs) < 5):
            while True:
                name = rng.choice(NAMES)
                o = zs.Gen(self.schema, rng, max_arr=self.cfg["arr"]).any_top(name)
                try:
                    t = jsontext.Writer(rng).text(o)
                except UnicodeEncodeError:
                    continue
                if len(t) < 20000:
                    break
            return ["doc", name, self.params_text(o.d, o.params).strip(), toks(o), t]
        k = rng.randrange(len(self.docs))
        d = self.docs[k]
        lang = rng.choice([l for l in JLANGS if l != "cpp" or not d["params"]])
        text = d["text"]
        r = rng.random()
        if r < 0.25:
            return ["read", k, lang, rng.choice("xxu"), self.cuts(rng, text), self.pad(rng, text)]
        if r < 0.50:
            return ["damaged", k, lang, rng.choice("xxu"), self.edits(rng, text), rng.getrandbits(30)]
        if r < 0.63:
            n = len(text)
            end = text.rindex("}") + 1
            at = rng.choice([rng.randint(0, n), rng.randint(0, n), max(0, end - rng.randint(0, 3)), min(n, end + rng.randint(0, 2)), 0, 1])
            return ["fail", k, lang, rng.choice("xu"), self.cuts(rng, text), at]
        if r < 0.75:
            at = rng.choice([rng.randrange(0, len(text.encode())), max(0, len(text.encode()) - rng.randint(1, 12))])
            return ["early", k, lang, rng.choice("xxu"), self.cuts(rng, text), at]
        if r < 0.90:
            return ["write", k, rng.choice([l for l in JLANGS if l != "cpp" or not d["params"]]),
                    rng.choice([0, 1, 4]), rng.random(), rng.randrange(2), rng.choice(JLANGS)]
        return ["many", [rng.randrange(len(self.docs)) for _ in range(rng.choice([2, 2, 3]))], k, lang, rng.choice("xu"),
                rng.getrandbits(30)]

    @staticmethod
    def cuts(rng, text):
        n = max(1, len(text))
        c = rng.randrange(7)
        if c < 2:
            return [1]
        if c == 2:
            return [rng.randint(1, n)]
        if c == 3:
            return [rng.choice([1, 2, 3, 4, 5, 7, 16, 17]) for _ in range(rng.randint(1, 6))]
        if c == 4:      # first cut right behind or inside white space, the rest at once
            spots = [i + 1 for i, x in enumerate(text) if x in " \t\r\n"] or [1]
            return [rng.choice(spots), n]
        if c == 5:      # ends of values
            spots = [i for i, x in enumerate(text) if i and x in ",}]: \r\n\""] or [1]
            a = sorted(rng.choice(spots) for _ in range(2))
            return [a[0], max(1, a[1] - a[0]), n]
        return [rng.randint(1, 9), rng.randint(1, n), 1, rng.randint(1, 40)]

    @staticmethod
    def pad(rng, text):
        """put white space in front so that the internal buffer of the reader ends at a chosen place"""
        if rng.random() < 0.75:
            return None
        return [rng.randint(0, min(len(text) - 1, 3000)), rng.choice([" ", "\n", "\t", "\r\n", "\r", " \n"])]

    @staticmethod
    def edits(rng, text):
        out = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            n = max(1, len(text))
            a = rng.randrange(n)
            if rng.random() < 0.3:      # near a token edge
                spots = [i for i, x in enumerate(text) if x in "{}[]:,\" \r\n"] or [0]
                a = min(n - 1, max(0, rng.choice(spots) + rng.randint(-1, 1)))
            c = rng.randrange(6)
            if c == 0:
                out.append([a, rng.choice([1, 1, 2, 5]), ""])
            elif c == 1:
                out.append([a, 0, rng.choice(JUNK)])
            elif c == 2:
                out.append([a, 1, rng.choice(JUNK)])
            elif c == 3:
                out.append([a, len(text), ""])
            elif c == 4:
                b = rng.randrange(n)
                out.append([a, 0, text[b:b + rng.randint(1, 12)]])
            else:
                out.append([len(text), 0, rng.choice([" ", "x", "1", "{", "\n{}", "\"", " 12", "\r", "null", "\x00"])])
        return out

    # ------------------------------------------------------------------ execution
    def apply(self, op):
        if op[0] == "doc":
            o = self.obj(op[1], op[3])
            self.docs.append({"name": op[1], "params": op[2], "toks": op[3], "o": o, "text": op[4]})
            return
        if op[0] == "many":
            return self.many(op)
        if op[1] >= len(self.docs):
            return
        d = self.docs[op[1]]
        if op[2] == "cpp" and d["params"]:
            return
        getattr(self, "do_" + op[0])(d, *op[2:])
        self.again(d, op[2])

    def again(self, d, lang):
        """objects read before stay what they were"""
        for (l, h), want in list(self.held.items()):
            if l == lang:
                r = self.node(l).cmd("dump " + h)
                if r != (True, want):
                    raise Violation("interference", l, "an object read earlier changed: %s instead of %s" % (r[1][:300], want[:300]))
                self.stats.hit("again")

    def read(self, lang, d, handle, mode, cuts, fail, data):
        """-> (ok, dump or error)"""
        if isinstance(data, str):
            data = data.encode()
        n = self.node(lang)
        r = n.cmd("jread %s %s %s %s %d %s%s" % (handle, d["name"], mode, ",".join(map(str, cuts)) or ",", fail, hx(data),
                                                  " " + d["params"] if d["params"] else ""))
        if r[0]:
            r = n.cmd("dump " + handle)
            if not r[0]:      # a text which leaves out what an object needs (an empty choice) gives an incomplete object
                return True, "incomplete: " + r[1]
        return r

    def classify(self, text, cuts, mode):
        """which kinds of cut the piece pattern makes"""
        p, i = 0, 0
        b = text.encode() if mode == "u" else text
        for _ in range(400):
            p += max(1, cuts[i % len(cuts)])
            i += 1
            if p >= len(b):
                return
            c = b[p - 1:p + 1]
            if mode == "u":
                if c[1] & 0xC0 == 0x80:
                    self.stats.hit("split.utf8")
                c = c.decode("latin-1")
            if c[0] in " \n\t":
                self.stats.hit("split.space")
            elif c[0] == "\r":
                self.stats.hit("split.cr")
            elif c[0].isalnum() and c[1].isalnum():
                self.stats.hit("split.value")

    def decided(self, *what):
        self.stats.state("|".join(map(str, what)))

    def do_read(self, d, lang, mode, cuts, pad):
        text = d["text"]
        if pad:
            n = BUF - pad[0]
            text = (pad[1] * (n // len(pad[1]) + 1))[:n] + text
            mode, cuts = ("w", []) if pad[0] % 2 else (mode, [BUF if pad[0] % 4 else BUF // 2])
            self.stats.hit("read.boundary")
        r = self.read(lang, d, "J", mode, cuts, -1, text)
        if r != (True, d["toks"]):
            raise Violation("wrong", lang, "%s read in pieces of %s%s: %s instead of %s" % (
                d["name"], cuts or "all", " behind white space" if pad else "", r[1][:400], d["toks"][:400]))
        self.stats.hit("read.split")
        if cuts:
            self.classify(text, cuts, mode)
        self.decided(d["text"], lang, mode, cuts, pad)
        if not self.held.get((lang, "K")):
            self.read(lang, d, "K", "w", [], -1, d["text"])
            self.held[(lang, "K")] = d["toks"]

    def do_damaged(self, d, lang, mode, edits, seed):
        text = d["text"]
        for a, n, s in edits:
            text = text[:a] + s + text[a + n:]
        whole = self.read(lang, d, "J", "w", [], -1, text)
        rng = __import__("random").Random(seed)
        for i in range(3):
            cuts = [1] if i == 0 else self.cuts(rng, text)
            r = self.read(lang, d, "J", mode, cuts, -1, text)
            if r != whole:
                raise Violation("split", lang, "damaged %s text: whole gives %s, pieces of %s give %s; text %r" % (
                    d["name"], whole[1][:300], cuts, r[1][:300], text[-200:]))
            self.decided(text, lang, mode, cuts)
        if not whole[0] and not self.reported(lang, whole[1]):
            raise Violation("report", lang, "damaged %s text is refused by %s; text %r" % (d["name"], whole[1][:200], text[:300]))
        self.stats.hit("damaged.ok" if whole[0] else "damaged.err")
        self.recheck(d, lang)

    @staticmethod
    def reported(lang, r):
        return True

    def recheck(self, d, lang):
        r = self.read(lang, d, "J", "w", [], -1, d["text"])
        if r != (True, d["toks"]):
            raise Violation("after", lang, "fresh input after a failure: %s instead of %s" % (r[1][:300], d["toks"][:300]))

    def do_fail(self, d, lang, mode, cuts, at):
        text = d["text"]
        end = text.rindex("}") + 1
        if mode == "u":
            at = len(text[:at].encode())
            end = len(text[:end].encode())
        elif lang == "cpp":
            at = len(text[:at].encode())
            end = len(text[:end].encode())
        r = self.read(lang, d, "J", mode, cuts, at, text)
        if at < end:
            if r[0]:
                raise Violation("lost", lang, "%s: the stream failed at %d before the end at %d, but reading succeeded with %s" % (
                    d["name"], at, end, r[1][:300]))
            self.stats.hit("fail.err")
        else:
            self.stats.hit("fail.after")
            if r[0] and r[1] != d["toks"]:
                raise Violation("wrong", lang, "%s: stream failed behind the end: %s instead of %s" % (d["name"], r[1][:300], d["toks"][:300]))
        self.decided(text, lang, mode, cuts, "f", at)
        self.recheck(d, lang)

    def do_early(self, d, lang, mode, cuts, at):
        data = d["text"].encode()
        end = data.rindex(b"}") + 1
        if mode != "u":     # at a character
            while at and data[at:at + 1] and data[at] & 0xC0 == 0x80:
                at -= 1
        cut = data[:at]
        r = self.read(lang, d, "J", mode, cuts, -1, cut)
        if at < end:
            if r[0]:
                raise Violation("lost", lang, "%s: the text ends at %d of %d, but reading succeeded with %s" % (
                    d["name"], at, end, r[1][:300]))
            self.stats.hit("early.err")
        elif r != (True, d["toks"]):
            raise Violation("wrong", lang, "%s: white space cut off: %s" % (d["name"], r[1][:300]))
        if mode != "u":
            w = self.read(lang, d, "J", "w", [], -1, cut)
            if w != r:
                raise Violation("split", lang, "cut %s text: whole gives %s, pieces of %s give %s; text %r" % (
                    d["name"], w[1][:300], cuts, r[1][:300], cut[-100:]))
        self.decided(d["text"], lang, mode, cuts, "e", at)
        self.recheck(d, lang)

    def do_write(self, d, lang, indent, room, how, reader):
        n = self.node(lang)
        if reader == "cpp" and d["params"]:
            reader = "py"
        name = d["name"]
        self.expect_ok(n.cmd(("new W %s d %s" % (name, d["toks"])).rstrip()), "new")
        r = n.cmd("jwrite W %s %d -1 %d" % (name, indent, how))
        if not r[0] or not r[1].startswith("good "):
            raise Violation("refused", lang, "writing %s as JSON: %s" % (name, r[1][:300]))
        data = r[1].split(" ")[1]
        data = b"" if data == "-" else bytes.fromhex(data)
        at = int(room * len(data))
        r = n.cmd("jwrite W %s %d %d %d" % (name, indent, at, how))
        if r[0] and r[1].startswith("good "):
            raise Violation("unreported", lang, "writing %s: the stream took %d of %d bytes, and nothing was reported" % (
                name, at, len(data)))
        self.stats.hit("sink.fail")
        r = n.cmd("jwrite W %s %d -1 %d" % (name, indent, how))
        if r != (True, "good " + hx(data)):
            raise Violation("after", lang, "writing %s again after a failure gave something else: %s" % (name, r[1][:200]))
        r = n.cmd("dump W")
        if r != (True, d["toks"]):
            raise Violation("changed", lang, "writing JSON changed the object: %s instead of %s" % (r[1][:300], d["toks"][:300]))
        q = self.read(reader, d, "J", "x", [max(1, at % 50)], -1, data)
        if not q[0]:
            raise Violation("foreign", lang + ">" + reader, "%s refuses the JSON text of %s: %s" % (reader, lang, q[1][:300]))
        if lang == "cpp":       # keeps 15 digits
            same = jsontext.rounded(self.obj(name, q[1])) == jsontext.rounded(d["o"])
        else:
            same = q[1] == d["toks"]
        if not same:
            raise Violation("foreign", lang + ">" + reader, "%s reads the JSON text of %s as %s instead of %s" % (
                reader, lang, q[1][:300], d["toks"][:300]))
        self.stats.hit("sink.ok")
        self.decided(d["text"], lang, indent, at, how, reader)

    def many(self, op):
        if not self.docs or op[2] >= len(self.docs):
            return
        d = self.docs[op[2]]
        rng = __import__("random").Random(op[5])
        same = [self.docs[i] for i in op[1] if i < len(self.docs) and self.docs[i]["name"] == d["name"]] or [d]
        if d["params"] or len(same) < 2:
            same = [d] * 2
        if d["params"]:
            return
        text = "".join(x["text"] for x in same)
        r = self.node(op[3]).cmd("jmany %d %s %s %s -1 %s" % (len(same), d["name"], op[4], ",".join(map(str, self.cuts(rng, text))),
                                                           hx(text.encode())))
        want = " ".join("/" + x["toks"] for x in same)
        if not r[0] or r[1].replace("/", " / ").split() != want.replace("/", " / ").split():
            raise Violation("many", op[3], "%d objects read from one stream: %s instead of %s" % (len(same), r[1][:300], want[:300]))
        self.stats.hit("many")
