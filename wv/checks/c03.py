from ..harness import Check, Violation
from ..lang import *  # noqa: F403
from ..model import safe
from ..rec import Oracle, run_real, val
from ..ref import Sub

ESC = {"a": "\x07", "b": "\x08", "f": "\x0c", "n": "\n", "r": "\r", "t": "\t"}
HEX = "0123456789abcdefABCDEF"


def decode(body):
    """What the text between the quotes denotes (independent scanner)."""
    out = []
    i = 0
    n = len(body)
    while i < n:
        c = body[i]
        i += 1
        if c != "\\":
            out.append(c)
            continue
        c = body[i]
        i += 1
        k = {"x": 2, "u": 4, "U": 8}.get(c)
        if k is not None:
            h = body[i : i + k]
            if len(h) == k and all(x in HEX for x in h) and int(h, 16) <= 0x10FFFF:
                out.append(chr(int(h, 16)))
                i += k
            else:
                out.append(c)
        elif c in "01234567":
            h = c
            while len(h) < 3 and i < n and body[i] in "01234567":
                h += body[i]
                i += 1
            out.append(chr(int(h, 8)))
        else:
            out.append(ESC.get(c, c))
    return "".join(out)


POOL = (
    "abcABCxuUnrtf0178 '\"\\;|&%[](){}.,:=+-#$@!"
    "\t\n\r\x00\x07\x08\x0b\x0c\x1b\x7f\x80\x85\xa0é߀ßſİ日本\u2028\ufeff\uffff\U0001f600\U0010ffff"
)


def char(r):
    x = r.random()
    if x < 0.7:
        return r.choice(POOL)
    if x < 0.85:
        return chr(r.randint(32, 126))
    c = r.choice([r.randint(0, 0x2FF), r.randint(0, 0xFFFF), r.randint(0, 0x10FFFF)])
    return chr(c) if not 0xD800 <= c < 0xE000 else "x"


def encode(r, text):
    """A literal denoting the text, and its quote."""
    q = r.choice("'\"")
    plain = r.choice([0.2, 0.6, 0.95])
    out = []
    for i, c in enumerate(text):
        nxt = text[i + 1 : i + 2]
        o = ord(c)
        must = c in ("\\", q)
        if not must and r.random() < plain:
            out.append(c)
            continue
        ch = []
        if c in ("\\", "'", '"'):
            ch.append("\\" + c)
        for a, b in ESC.items():
            if b == c:
                ch.append("\\" + a)
        if o < 256:
            ch.append("\\x%02x" % o)
            ch.append("\\x%02X" % o)
        if o < 512:
            ch.append("\\%03o" % o)
            if not nxt or nxt not in "01234567":
                ch.append("\\%o" % o)
        if o < 65536:
            ch.append("\\u%04x" % o)
        ch.append("\\U%08x" % o)
        if c not in "abfnrtxuU01234567\n\r":
            ch.append("\\" + c)  # unknown: the backslash is dropped
        out.append(r.choice(ch))
    return q + "".join(out) + q


def raw(r):
    """A random body, kept only if it is a single literal."""
    q = r.choice("'\"")
    n = r.choice([0, 1, 2, 4, 8, 20])
    s = []
    for _ in range(n):
        x = r.random()
        if x < 0.25:
            s.append("\\")
        elif x < 0.5:
            s.append(r.choice("xuU0123456789abcdefABCDEFnrtq"))
        elif x < 0.6:
            s.append(r.choice(["\\x4", "\\u00e", "\\U0001f60", "\\U00110000", "\\8", "\\1234", "\\x41", "\\u00e9", "\\U0001F600", "\\N{BULLET}", "\\v", "\\e"]))
        else:
            s.append(char(r))
    body = "".join(s)
    i = 0
    out = []
    while i < len(body):
        c = body[i]
        if c == "\\":
            if i + 1 >= len(body) or body[i + 1] in "\n\r":
                i += 1
                continue
            out.append(body[i : i + 2])
            i += 2
            continue
        if c == q:
            i += 1
            continue
        out.append(c)
        i += 1
    return q + "".join(out) + q


class C(Check):
    id = "C03"
    rule = (
        "random texts over all of Unicode written as literals with randomly chosen"
        " escapes, random literal bodies decoded by an independent scanner, random"
        " numbers; each observed through variables, notes, manager calls, options and"
        " Exec; non-trivial: a literal with a backslash or a non-ASCII character"
    )
    require = ("encoded", "raw", "numbers", "via exec", "escapes")

    def number(self, r):
        x = r.random()
        if x < 0.5:
            v = r.choice([0, 1, 7, 10, 255, 10**9, 2**31, 2**32, 2**63, 2**64, 10**30, r.randint(0, 10**12)])
            s = "0" * r.choice([0, 0, 1, 3]) + str(v)
            return s, v
        a = str(r.choice([0, 1, 10, 123, 10**15, 10**22]))
        b = r.choice(["0", "1", "5", "25", "10", "05", "333", "000001", "99999999999999999999"])
        a = "0" * r.choice([0, 0, 2]) + a
        s = a + "." + b
        return s, float(s)

    def case(self, ctx):
        r = ctx.rnd
        lines = []
        want = {}
        notes = []
        calls = []
        for i in range(r.randint(1, 8)):
            x = r.random()
            if x < 0.15:
                s, v = self.number(r)
                ctx.count("numbers")
            elif x < 0.6:
                v = "".join(char(r) for _ in range(r.choice([0, 1, 2, 5, 15, 60])))
                s = encode(r, v)
                ctx.count("encoded")
                if decode(s[1:-1]) != v:
                    raise AssertionError((s, v))
            else:
                s = raw(r)
                v = decode(s[1:-1])
                ctx.count("raw")
            if "\\" in s:
                ctx.count("escapes")
            if "\\" in s or not s.isascii():
                ctx.nontrivial(s)
            n = "r%d" % i
            m = r.random()
            if m < 0.5 or not isinstance(v, str):
                lines.append(f"{n} = {s}")
                want[n] = v
            elif m < 0.6:
                lines.append(f"Note {s}")
                notes.append(v)
            elif m < 0.7:
                lines.append(f"{n} = len({s})")
                want[n] = len(v)
            elif m < 0.8:
                lines.append(f"DataFileExists('a', {s})")
                calls.append(v)
            elif m < 0.9:
                inner = f"{n} = {s}"
                if r.random() < 0.3:
                    lines.append("Exec(" + encode(r, "Exec(" + encode(r, inner) + ")") + ")")
                else:
                    lines.append("Exec(" + encode(r, inner) + ")")
                want[n] = v
                ctx.count("via exec")
            else:
                lines.append(f"{n} = {s} == {encode(r, v)}")
                want[n] = True
        script = "\n".join(lines)
        ctx.sample({"script": script, "values": {k: repr(v) for k, v in want.items()}})
        o = Oracle(1)
        out = run_real(script, [Sub("A", [])], o, limit=2000)
        if out.status != "COMPLETE":
            raise Violation(f"C03: {out.status} {safe(out.error)}", script=script)
        for n, v in want.items():
            if out.state["vars"].get(n) != val(v):
                raise Violation(f"C03: {n} should be {val(v)!a}, got {out.state['vars'].get(n)!a}", script=ascii(script))
        if out.state["notes"] != [val(x) for x in notes]:
            raise Violation(f"C03: notes should be {notes!a}, got {out.state['notes']!a}", script=ascii(script))
        got = [e[2] for e in out.events if e[0] == "dataFileExists"]
        if got != calls:
            raise Violation(f"C03: the manager received {got!a} instead of {calls!a}", script=ascii(script))


CHECK = C()
