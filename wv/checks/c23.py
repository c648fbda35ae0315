from collections.abc import Mapping, MutableMapping

from ..harness import Check, Violation

from wizard.utils.mappings import StackMutableMapping

MISSING = object()


class Layer:
    """The model: what a layer says of a key (a value or MISSING) hides what is below."""

    def __init__(self, parent):
        self.parent = parent
        self.own = {}

    def view(self):
        v = dict(self.parent.view()) if self.parent else {}
        for k, x in self.own.items():
            if x is MISSING:
                v.pop(k, None)
            else:
                v[k] = x
        return v


class C(Check):
    id = "C23"
    rule = (
        "random histories of operations on trees of stacked mappings (several layers, several mappings on the same one,"
        " lower layers modified after the upper ones), every mapping compared with a model after each; non-trivial: at least two"
        " layers and a deletion"
    )
    require = (
        "set", "del", "del missing", "pop", "pop missing", "setdefault", "update", "clear", "popitem", "popitem empty", "hidden", "unhidden",
        "lower modified", "layers", "get missing", "many keys", "large",
    )

    def fixed_large(self, ctx):
        """Thousands of keys, many layers."""
        base = StackMutableMapping()
        b = {}
        for i in range(3000):
            base[i] = b[i] = str(i)
        m = base
        layers = []
        for n in range(30):
            m = StackMutableMapping(m)
            d = dict(layers[-1][1] if layers else b)
            for i in range(n * 100, n * 100 + 90):
                del m[i], d[i]
            for i in range(n * 100 + 20, n * 100 + 50):
                m[i] = d[i] = f"{n}.{i}"
            for i in range(5):
                m[f"n{n}.{i}"] = d[f"n{n}.{i}"] = i
            if n % 7 == 6:
                m.update({i: n for i in range(500)})
                d.update({i: n for i in range(500)})
            layers.append((m, d))
        for m, d in [(base, b)] + layers:
            if len(m) != len(d) or set(m) != set(d) or dict(m) != d or any((k in m) is not (k in d) for k in range(3000)):
                raise Violation("C23: many keys in many layers", length=len(m), expected=len(d))
        m, d = layers[-1]
        for k in list(d)[:-3]:
            del m[k], d[k]
        if dict(m) != d or len(m) != 3:
            raise Violation("C23: many keys deleted", length=len(m), expected=3)
        m.clear()
        if len(m) or list(m) or dict(layers[-2][0]) != layers[-2][1] or dict(base) != b:
            raise Violation("C23: many keys cleared")
        ctx.count("large")

    def case(self, ctx):
        r = ctx.rnd
        keys = r.choice([["a", "b", "c"], list("abcdefgh"), [0, 1, "1", None, (1, 2), ""], ["a", "b"]])
        maps = [(StackMutableMapping(), Layer(None))]
        few = r.random() < 0.3
        log = []
        deleted = False
        n = r.choice([5, 15, 40, 80])
        if r.random() < 0.004:
            keys = list(range(120)) if r.random() < 0.5 else ["k%d" % i for i in range(50)]
            n = 250
            ctx.count("many keys")
        uid = 0

        def bad(what):
            raise Violation("C23: " + what, log=log[-60:])

        def verify():
            for i, (m, l) in enumerate(maps):
                v = l.view()
                got = list(m)
                if len(got) != len(set(got)):
                    bad(f"mapping {i}: a key is listed twice: {got}")
                if set(got) != set(v) or len(m) != len(v):
                    bad(f"mapping {i}: keys {got}, length {len(m)}, expected {list(v)}")
                for k in keys:
                    if (k in m) != (k in v):
                        bad(f"mapping {i}: {k!r} in the mapping: {k in m}")
                    d = object()
                    g = m.get(k, d)
                    if g is not v.get(k, d):
                        bad(f"mapping {i}: get({k!r}) gives {g!r}, expected {v.get(k)!r}")
                    if k in v:
                        if m[k] is not v[k]:
                            bad(f"mapping {i}: [{k!r}]")
                    else:
                        try:
                            m[k]
                        except KeyError as ex:
                            if ex.args != (k,):
                                bad(f"mapping {i}: KeyError of {k!r} has {ex.args}")
                            ctx.count("get missing")
                        else:
                            bad(f"mapping {i}: [{k!r}] did not raise KeyError")
                if dict(m) != v or dict(m.items()) != v or m != v or not (m == v) or set(m.keys()) != set(v):
                    bad(f"mapping {i}: {dict(m)!r}, expected {v!r}")
                if sorted(map(id, m.values())) != sorted(map(id, v.values())):
                    bad(f"mapping {i}: values")
                if bool(m) != bool(v):
                    bad(f"mapping {i}: truth")
                for k in v:
                    if repr(k) not in repr(m) or repr(v[k]) not in repr(m):
                        bad(f"mapping {i}: repr {m!r}")
                if not isinstance(m, MutableMapping) or not isinstance(m, Mapping):
                    bad("not a mapping")

        for _ in range(n):
            op = r.choice(["push", "set", "set", "set", "del", "del", "del", "pop", "setdefault", "update", "clear" if r.random() < 0.3 else "set", "popitem"])
            i = r.randrange(len(maps)) if r.random() < 0.5 else len(maps) - 1
            m, l = maps[i]
            k = r.choice(keys)
            v = l.view()
            uid += 1
            # (values which are equal, too)
            x = r.choice([None, 0, False, "", "a" * 3, 1.0, [], [1], [1]]) if few else f"v{uid}"
            if type(x) is list:
                x = list(x)
            children = any(c[1].parent is l for c in maps)
            log.append((op, i, k, x))
            if op == "push":
                if len(maps) < 6:
                    p = r.choice(maps[-2:]) if r.random() < 0.8 else r.choice(maps)
                    maps.append((StackMutableMapping(p[0]), Layer(p[1])))
                    log[-1] = ("push", len(maps) - 1, "on", [q is p for q in maps].index(True))
                    ctx.count("layers")
                continue
            if children:
                ctx.count("lower modified")
            if op == "set":
                if l.own.get(k) is MISSING:
                    ctx.count("unhidden")
                m[k] = x
                l.own[k] = x
                ctx.count("set")
            elif op in ("del", "pop"):
                try:
                    if op == "del":
                        del m[k]
                        got = v.get(k)
                    else:
                        got = m.pop(k)
                except KeyError as ex:
                    if k in v:
                        bad(f"mapping {i}: {op} {k!r}: KeyError")
                    if ex.args != (k,):
                        bad(f"mapping {i}: KeyError of {k!r} has {ex.args}")
                    ctx.count(op + " missing")
                else:
                    if k not in v:
                        bad(f"mapping {i}: {op} {k!r}: no KeyError")
                    if got is not v[k]:
                        bad(f"mapping {i}: pop {k!r} gives {got!r}")
                    if l.parent and k in l.parent.view():
                        ctx.count("hidden")
                    l.own[k] = MISSING
                    ctx.count(op)
                    deleted = True
            elif op == "setdefault":
                g = m.setdefault(k, x)
                if g is not v.get(k, x):
                    bad(f"mapping {i}: setdefault {k!r} gives {g!r}")
                if k not in v:
                    l.own[k] = x
                ctx.count("setdefault")
            elif op == "update":
                d = {r.choice(keys): f"u{uid}.{j}" for j in range(r.randint(0, 3))}
                m.update(d)
                l.own.update(d)
                ctx.count("update")
            elif op == "clear":
                m.clear()
                for q in v:
                    l.own[q] = MISSING
                ctx.count("clear")
            elif op == "popitem":
                try:
                    q, y = m.popitem()
                except KeyError:
                    if v:
                        bad(f"mapping {i}: popitem: KeyError")
                    ctx.count("popitem empty")
                else:
                    if q not in v or v[q] is not y:
                        bad(f"mapping {i}: popitem gives {(q, y)!r}")
                    l.own[q] = MISSING
                    ctx.count("popitem")
            verify()
        ctx.count("operations", n)
        if deleted and len(maps) > 1:
            ctx.nontrivial(tuple(map(repr, log)))


CHECK = C()
