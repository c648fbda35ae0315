import io
import os
import shutil
import tempfile
from pathlib import Path

import chardet
from antlr4 import InputStream
from antlr4.FileStream import FileStream

from ..gen import Gen
from ..harness import Violation
from ..lang import render
from ..model import ModelCheck, safe
from ..rec import Oracle, diff_state, errclass, run_real

BOM = {"utf-8-sig": "utf-8-sig", "utf-16": "utf-16", "utf-32": "utf-32"}


def nfds():
    return len(os.listdir("/proc/self/fd"))


class C(ModelCheck):
    id = "C19"
    rule = (
        "random programs written in several layouts (spaces, line breaks of both kinds, comments, continuations, extra"
        " parentheses, alternative operators) and given as str, InputStream, text and binary streams, and files in"
        " several encodings: same execution whatever the form; non-trivial: all"
    )
    require = (
        "layout wild", "layout compact", "eol crlf", "source InputStream", "source FileStream", "source StringIO", "source text file", "source BytesIO",
        "source binary file", "source path", "encoding ascii", "encoding utf-8-sig", "encoding utf-16", "encoding utf-32", "encoding utf-8", "non ascii", "files closed",
        "empty", "missing files", "changed files", "large scripts",
    )

    def setup(self, tier):
        self.tmp = None

    def dir(self):
        if self.tmp is None:
            # one per worker, removed by itself at the end of the case
            self.tmp = tempfile.mkdtemp(prefix="wv-c19-")
        return self.tmp

    def fixed_large(self, ctx):
        """Scripts of more than 65536 and 1 << 20 characters, in every form."""
        for size in (70_000, 1_100_000):
            # (chardet is slow on large files which are not ASCII)
            e, more = ("é", ";" + " é" * 8000 + "\n") if size < 100_000 else ("e", "")
            script = "a = 1\n; " + "c" * size + "\n" + more + f"b = 2\nNote '{e}'\n"
            want = {"a": ("integer", 1), "b": ("integer", 2)}
            seen = set() if more else {"str", "InputStream", "FileStream", "BytesIO", "text file"}
            try:
                while len(seen) < 8:
                    before = nfds()
                    name, src, done = self.source(ctx, script, seen)
                    out = run_real(src, [], Oracle(0), limit=100)
                    done()
                    if out.status != "COMPLETE" or out.state["vars"] != want or out.state["notes"] != [("string", e)] or nfds() != before:
                        raise Violation(
                            f"C19: a script of {len(script)} characters ends with {out.status} {safe(out.error)}", source=name, state=out.state, size=size
                        )
                    ctx.count("large scripts")
            finally:
                shutil.rmtree(self.dir())
                self.tmp = None

    def case(self, ctx):
        r = ctx.rnd
        try:
            x = r.random()
            if x < 0.05:
                return self.empty(ctx)
            self.one(ctx)
        finally:
            if self.tmp:
                shutil.rmtree(self.tmp)
                self.tmp = None

    def empty(self, ctx):
        r = ctx.rnd
        parts = ["", " ", "\n", "\r\n", "\t", "; comment", "; a = 1\n", ";\n", "  ; EndIf 'x\n", "\\\n"]
        s = "".join(r.choice(parts) for _ in range(r.randint(0, 5)))
        if r.random() < 0.5:
            s = ""
        name, src, done = self.source(ctx, s)
        o = Oracle(0)
        out = run_real(src, [], o, limit=100)
        done()
        if out.status != "COMPLETE" or out.state["vars"] or o.events != [("complete",)]:
            raise Violation(f"C19: a script without statements ends with {out.status} {safe(out.error)}", script=s, source=name, state=out.state)
        ctx.count("empty")
        p = Path(self.dir()) / "missing"
        try:
            run_real(p, [], Oracle(0), limit=100)
            out = run_real(p, [], Oracle(0), limit=100)
            if not isinstance(out.error, OSError):
                raise Violation(f"C19: a missing file: {out.status} {out.error!r}")
        finally:
            ctx.count("missing files")

    def source(self, ctx, script, seen=None):
        """A random form of the script (not in seen). Returns (name, source, function to call at the end)"""
        r = ctx.rnd
        ascii = script.isascii()
        kind = r.choice(["str", "InputStream", "FileStream", "StringIO", "text file", "BytesIO", "binary file", "path", "path"])
        if seen is not None:
            kind = next(k for k in ("str", "InputStream", "FileStream", "StringIO", "text file", "BytesIO", "binary file", "path") if k not in seen)
            seen.add(kind)
        ctx.count("source " + kind)
        if not ascii:
            ctx.count("non ascii")
        if kind == "str":
            return kind, script, lambda: None
        if kind == "InputStream":
            return kind, InputStream(script), lambda: None
        if kind == "StringIO":
            return kind, io.StringIO(script, newline=""), lambda: None
        # (without a BOM, chardet, which is trusted, recognises UTF-8 or not)
        some = not ascii and chardet.detect(script.encode())["encoding"] == "utf-8"
        enc = r.choice((["ascii"] if ascii else []) + (["utf-8"] * 2 if some else []) + list(BOM))
        data = script.encode(enc)
        if kind == "BytesIO":
            ctx.count("encoding " + enc)
            return kind + " " + enc, io.BytesIO(data), lambda: None
        p = os.path.join(self.dir(), "script.txt")
        if kind == "FileStream":
            with open(p, "wb") as fp:
                fp.write(script.encode("utf-8"))
            return kind, FileStream(p, "utf-8"), lambda: None
        if kind == "path" and r.random() < 0.5:
            # the file had another content, which has been executed
            with open(p, "wb") as fp:
                fp.write(r.choice([b"an_other_one = 1", b"For i from 1 to 3\nx = i\nEndFor", b"Return", b"Cancel", b"x = ("]))
            run_real(Path(p), [], Oracle(0), limit=100)
            ctx.count("changed files")
        with open(p, "wb") as fp:
            fp.write(data)
        if kind == "text file":
            fp = open(p, encoding=enc, newline="")
            return kind + " " + enc, fp, fp.close
        ctx.count("encoding " + enc)
        if kind == "binary file":
            fp = open(p, "rb")
            return kind + " " + enc, fp, fp.close

        def done():
            with open(p, "rb") as fp:
                if fp.read() != data:
                    raise Violation("C19: the file of the script has been modified")

        return kind + " " + enc, Path(p), done

    def one(self, ctx):
        r = ctx.rnd
        subs = self.subs(ctx)
        g = Gen(
            r, subs, mix=0.2, depth=2, manager=0.3, effects=r.choice([0, 0.3]), kw=2, ini=0.7, select=1, exec_=0.5, floats=0.15, expr=2, unset=0.02,
            body=r.choice([2, 3]), nest=r.choice([1, 2, 3]), total=r.choice([3, 8, 16]), errors=r.choice([0, 0, 0.02]),
        )
        if r.random() < 0.4:
            g.word = lambda: r.choice(["a", "b c", "", "AbC", "it's", 'q"', "x\\y", "l\nm", "c\r\nd", "v\x0bw", "f\fg", "t\t", "\r", "z\x1cy"])
        elif r.random() < 0.4:
            g.word = lambda: r.choice(["é", "日本", "a\u2028b", "n\x85l", "\u2029", "r\r\n", "\r", "ß", "Ÿ", "😀", "x\x0b", "\ufeff", "e\u0301"])
        prog = g.program()
        seed = r.getrandbits(30)
        base, pr = render(prog)
        from ..ref import Ref

        ref = Ref(subs, Oracle(seed))
        ref.run(prog, pr)
        limit = 300 + 30 * int(ref.steps)
        o = Oracle(seed)
        a = run_real(base, subs, o, limit=limit)
        for _ in range(r.choice([1, 2, 3])):
            style = r.choice(["plain", "wild", "wild", "compact"])
            eol = r.choice(["\n", "\n", "\r\n"])
            script, _ = render(prog, r, r.choice([0, 0.2]), r.choice([0, 0.5]), style, eol)
            if r.random() < 0.3:
                script = r.choice([eol, "; c" + eol, " ", "; 'x" + eol + eol]) + script
            if r.random() < 0.3:
                script = script + r.choice([eol, eol + "; last comment", "   ", eol + "\t" + eol])
            if r.random() < 0.15:
                script = "; " + "a long comment " * r.choice([10, 100, 300, 700]) + eol + script + eol + "; " + "é ü ß " * 10
            ctx.count("layout " + style)
            if eol != "\n":
                ctx.count("eol crlf")
            before = nfds()
            name, src, done = self.source(ctx, script)
            o2 = Oracle(seed)
            b = run_real(src, subs, o2, limit=limit * 3)
            done()
            after = nfds()
            d = None
            if a.status != b.status:
                d = f"status {a.status} then {b.status} {safe(b.error)}"
            elif errclass(a.error) != errclass(b.error):
                d = f"error {safe(a.error)} then {safe(b.error)}"
            elif a.events != b.events:
                d = f"calls {a.events} then {b.events}"
            else:
                d = diff_state(a.state, b.state)
            if d is None and after != before:
                d = f"{after - before} files left open"
            if d:
                raise Violation("C19: " + d, script=base, other=script, source=name, seed=seed, subpackages=[(s.name, s.files) for s in subs])
            ctx.count("files closed")
            ctx.nontrivial((script, name))
            ctx.sample({"script": script[:800], "source": name, "eol": repr(eol)})


CHECK = C()
