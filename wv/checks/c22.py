from ..harness import Check, Violation
from ..rec import RealSub

from wizard.value import Plugin, SubPackage, SubPackages

ALPHA = ["a", "A", "b", "B", "ß", "ẞ", "ss", "SS", "é", "É", "e\u0301", "İ", "i", "I", "ı", "ﬀ", "FF", "σ", "ς", "Σ", " ", "0", ".", "日", "\U00010400", "\U00010428", "_", "~", "ſ", "s", "K", "K", "k"]
EXTS = [".esp", ".esm", ".esl", ".ESP", ".Esm", ".esp.bak", ".txt", "", ".es", "esp", ".esp ", ".bsa"]


class C(Check):
    id = "C22"
    rule = (
        "random names (letters whose case is folded in unusual ways, several spellings of one name), as plugins, subpackages"
        " and strings, compared, hashed, sorted and looked up in every pair and order; random file lists; non-trivial: at least two"
        " spellings of a name"
    )
    require = ("pairs", "equal spellings", "reflected", "sorted", "lookups", "foreign", "file lists", "plugins listed", "not names", "long names", "many files")

    def name(self, r):
        return "".join(r.choice(ALPHA) for _ in range(r.choice([0, 1, 1, 2, 2, 3, 6])))

    def spelling(self, r, s):
        x = r.random()
        if x < 0.2:
            return s.upper()
        if x < 0.4:
            return s.lower()
        if x < 0.5:
            return s.casefold()
        if x < 0.6:
            return s.swapcase()
        if x < 0.8:
            return "".join(r.choice([c, c.upper(), c.lower()]) for c in s)
        return s

    def make(self, r, s):
        """A named object: the checks hold for all the kinds of them."""
        k = r.randrange(4)
        if k == 0:
            return Plugin(s)
        if k == 1:
            return RealSub(s, [])
        if k == 2:
            return SubPackage(s)
        # the name of another object
        return Plugin(r.choice([Plugin, SubPackage])(s))

    def case(self, ctx):
        r = ctx.rnd
        names = [self.name(r) for _ in range(r.randint(1, 5))]
        for n in list(names):
            for _ in range(r.randint(0, 3)):
                names.append(self.spelling(r, n))
        if r.random() < 0.03:
            # long names, which differ at the end, or the start
            x = "".join(r.choice(ALPHA) for _ in range(r.choice([40, 70, 300])))
            names = [x + n if r.random() < 0.8 else n + x for n in names]
            ctx.count("long names")
        r.shuffle(names)
        objs = [self.make(r, n) for n in names]
        keys = [n.casefold() for n in names]
        if len(set(keys)) < len(set(names)):
            ctx.nontrivial(tuple(names))

        def bad(what, *x):
            raise Violation("C22: " + what, names=names, objects=[type(o).__name__ for o in objs], at=repr(x))

        for n, o in zip(names, objs):
            if o.name != n or str(o) != n or type(str(o)) is not str:
                bad("the name is not the one given", n, o.name, str(o))
            if repr(o) != repr(n):
                bad("representation", n, repr(o))
        for i, a in enumerate(objs):
            for j, b in enumerate(objs):
                ka, kb = keys[i], keys[j]
                if (a is b or names[i] == names[j]) and ka != kb:
                    raise AssertionError
                for x, y, what in ((a, b, "objects"), (a, names[j], "object and string"), (names[i], b, "string and object")):
                    got = (x == y, x != y, x < y, x <= y, x > y, x >= y)
                    exp = (ka == kb, ka != kb, ka < kb, ka <= kb, ka > kb, ka >= kb)
                    if got != exp or any(type(g) is not bool for g in got):
                        bad(f"{what}: comparisons (== != < <= > >=) give {got}, not {exp}", names[i], names[j])
                    ctx.count("pairs")
                    if what == "string and object":
                        ctx.count("reflected")
                if ka == kb:
                    if names[i] != names[j]:
                        ctx.count("equal spellings")
                    if hash(a) != hash(b):
                        bad("equal names with different hashes", names[i], names[j])
        # sorting: stable, in the order of the folded names
        order = sorted(range(len(objs)), key=lambda i: keys[i])
        if [id(o) for o in sorted(objs)] != [id(objs[i]) for i in order]:
            bad("wrong order", [o.name for o in sorted(objs)])
        if max(objs).name.casefold() != max(keys) or min(objs).name.casefold() != min(keys):
            bad("wrong extremes")
        ctx.count("sorted")
        # sets, dicts, lists
        d = {}
        for i, o in enumerate(objs):
            d[o] = i
        last = {k: i for i, k in enumerate(keys)}
        if len(d) != len(last) or len(set(objs)) != len(last):
            bad("distinct keys", len(d), len(last))
        for i, o in enumerate(objs):
            other = self.spelling(r, names[i])
            if other.casefold() in last and d.get(Plugin(other)) != last[other.casefold()]:
                bad("another spelling is not found in a mapping", names[i], other)
            if d[Plugin(names[i])] != last[keys[i]] or SubPackage(names[i]) not in d:
                bad("not found in a mapping", names[i])
            first = keys.index(keys[i])
            if objs.index(names[i]) != first or names[i] not in objs or objs.index(o) != first:
                bad("not found in a list", names[i])
            if SubPackages(objs).count(names[i]) != keys.count(keys[i]):
                bad("count", names[i])
            ctx.count("lookups")
        x = self.name(r) + "!"
        if Plugin(x) in d or x in objs:
            bad("found, but never added", x)
        # other types
        o = r.choice(objs)
        for f in (None, 1, 1.5, b"a", ["a"], ("a",), object(), {}):
            for op in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__"):
                try:
                    getattr(o, op)(f)
                except TypeError:
                    ctx.count("foreign")
                    continue
                bad(f"{op} accepts {f!r}")
        for f in (None, 1, b"a", ["a"], object(), True, SubPackages()):
            for t in (Plugin, SubPackage):
                try:
                    t(f)
                except TypeError:
                    ctx.count("not names")
                    continue
                bad(f"a {t.__name__} named {f!r}")
        self.files(ctx)

    def files(self, ctx):
        r = ctx.rnd
        files = []
        n = r.choice([0, 1, 3, 10])
        if r.random() < 0.01:
            n = 400
            ctx.count("many files")
        for _ in range(n):
            f = "/".join([self.word(r) for _ in range(r.choice([1, 1, 2, 4]))]) + r.choice(EXTS)
            files.append(f)
        sp = RealSub("s", files)
        exp = [f.split("/")[-1] for f in files if f[-4:] in (".esp", ".esm", ".esl")]
        for _ in range(2):  # may be listed again
            got = list(sp.plugins())
            if [p.name for p in got] != exp:
                raise Violation(f"C22: plugins of the files {files}: {[p.name for p in got]}, not {exp}")
            if any(type(p) is not Plugin for p in got):
                raise Violation("C22: not plugins", files=files)
        for f in files:
            if SubPackage.is_plugin(f) != (f[-4:] in (".esp", ".esm", ".esl")):
                raise Violation(f"C22: is_plugin({f!r})")
        ctx.count("file lists")
        ctx.count("plugins listed", len(exp))

    def word(self, r):
        return "".join(r.choice("abcXYZ 09._-é\\") for _ in range(r.randint(1, 5))).strip() or "w"


CHECK = C()
