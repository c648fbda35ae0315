"""
Mutation of src/wizard, to find what no check sees:
  python3 mutate.py list [FILES...]            the mutants
  python3 mutate.py run OUT.json J [FILES...]  tests, then the checks until one reports
Mutants which the tests see are set aside. Works on copies of /repo.
"""
import ast, json, os, random, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
ROOT = "/repo/src/wizard"
FILES = """errors.py expr.py functions.py interpreter.py keywords.py manager.py runner.py scriptrunner.py severity.py state.py tweaks.py
value.py contexts/contexts.py contexts/factory.py contexts/keywords.py contexts/utils.py utils/__init__.py utils/error_strategy.py
utils/mappings.py""".split()
ORDER = {
    "errors.py": "17 18 16", "expr.py": "01 02 03 08 16 17 26 27 18", "functions.py": "08 26 09 02 16", "interpreter.py": "24 19 20",
    "keywords.py": "25 26 10 24", "manager.py": "06 15 24 09 26", "runner.py": "10 11 12 16 13 20 25 14", "scriptrunner.py": "14 15 24 20 06 19",
    "severity.py": "16 20 15", "state.py": "20 13 26 14", "tweaks.py": "12 13 14", "value.py": "27 01 22 10 16",
    "contexts/contexts.py": "05 04 06 07 24 13 17 18 02 26 21 15 16 14", "contexts/factory.py": "24 13 26 21 05 20", "contexts/keywords.py": "25 16 10 13 17 02 14",
    "contexts/utils.py": "18 17 15", "utils/__init__.py": "19 18 20 17 26 15", "utils/error_strategy.py": "18 17 19", "utils/mappings.py": "23",
    # (not among FILES: generated)
    "antlr4/wizardParser.py": "01 18 19 03 06 04 02 07 25 17",
}


class Src:
    def __init__(self, f):
        self.f = f
        self.text = open(f"{ROOT}/{f}", encoding="utf-8").read()
        self.lines = self.text.split("\n")
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l) + 1)
        self.tree = ast.parse(self.text)

    def pos(self, line, col):
        l = self.lines[line - 1].encode()[:col].decode()
        return self.off[line - 1] + len(l)

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def get(self, n):
        a, b = self.span(n)
        return self.text[a:b]


CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.Mod: "*", ast.Pow: "*", ast.BitOr: "&", ast.BitAnd: "|", ast.FloorDiv: "/"}


def mutants(f):
    s = Src(f)
    out = []

    def add(n, new, what):
        a, b = s.span(n)
        if s.text[a:b] != new:
            out.append((f, n.lineno, what, a, b, new))

    skip = set()
    if f == "antlr4/wizardParser.py":
        # only the rules and their accessors
        for n in ast.walk(s.tree):
            if isinstance(n, ast.FunctionDef) and n.name in ("serializedATN", "__init__", "enterRule", "exitRule", "accept", "getRuleIndex", "copyFrom"):
                skip.update(id(x) for x in ast.walk(n))
            if isinstance(n, ast.ClassDef) and n.name == "wizardParser":
                for x in n.body:
                    if isinstance(x, ast.Assign):
                        skip.update(id(y) for y in ast.walk(x))
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == "state":
                skip.update(id(x) for x in ast.walk(n))
    for n in ast.walk(s.tree):
        # annotations, docstrings and checks of types are not executed
        if isinstance(n, ast.arg) and n.annotation:
            skip.update(id(x) for x in ast.walk(n.annotation))
        if isinstance(n, ast.FunctionDef) and n.returns:
            skip.update(id(x) for x in ast.walk(n.returns))
        if isinstance(n, ast.AnnAssign):
            skip.update(id(x) for x in ast.walk(n.annotation))
            if n.value is None:
                skip.add(id(n))
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and n.test.id == "TYPE_CHECKING":
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("cast", "TypeVar", "TypeVarTuple"):
            skip.update(id(x) for x in n.args[:1])
            skip.add(id(n))
        if isinstance(n, ast.FunctionDef) and any("overload" in ast.dump(d) or "abstractmethod" in ast.dump(d) for d in n.decorator_list):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.ClassDef):
            for b in n.bases:
                skip.update(id(x) for x in ast.walk(b))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.add(id(n))
        if isinstance(n, ast.JoinedStr):
            skip.update(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in ("list", "dict", "tuple", "set", "Value", "Sequence", "Mapping", "Callable"):
            skip.update(id(x) for x in ast.walk(n))
    for n in ast.walk(s.tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = s.get(n.left), s.get(n.comparators[0])
            add(n, f"({l} {CMP[type(n.ops[0])]} {r})", "cmp")
        elif isinstance(n, ast.BoolOp):
            o = "or" if isinstance(n.op, ast.And) else "and"
            add(n, "(" + f" {o} ".join(f"({s.get(v)})" for v in n.values) + ")", "bool")
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                o2 = "and" if isinstance(n.op, ast.And) else "or"
                add(n, "(" + f" {o2} ".join(f"({s.get(v)})" for v in rest) + ")", f"drop{i}")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, f"bool({s.get(n.operand)})", "not")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(n, f"({s.get(n.operand)})", "neg")
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                add(n, str(not n.value), "const")
            elif type(n.value) is int:
                add(n, str(n.value + 1), "const")
                if n.value > 0:
                    add(n, str(n.value - 1), "const")
            elif type(n.value) is str and n.value and "\n" not in n.value and " " not in n.value:
                add(n, repr(n.value + "X"), "str")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, f"({s.get(n.left)} {BIN[type(n.op)]} {s.get(n.right)})", "bin")
        elif isinstance(n, ast.IfExp):
            add(n, s.get(n.body), "ifexp1")
            add(n, s.get(n.orelse), "ifexp0")
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, "True", "iftrue")
            add(n.test, "False", "iffalse")
        elif isinstance(n, ast.comprehension):
            for t in n.ifs:
                add(t, "True", "comp")
        if isinstance(n, ast.Call):
            fn = n.func
            if isinstance(fn, ast.Attribute) and fn.attr in ("lower", "copy", "casefold", "strip", "rstrip", "update", "getText") and not n.args:
                add(n, s.get(fn.value), "unwrap")
            if isinstance(fn, ast.Name) and fn.id in ("list", "tuple", "sorted", "set", "dict", "str", "int", "bool", "float", "Plugin", "SubPackage") and len(n.args) == 1:
                add(n, s.get(n.args[0]), "unwrap")
            if isinstance(fn, ast.Name) and fn.id == "isinstance" and isinstance(n.args[1], ast.Tuple):
                for e in n.args[1].elts:
                    add(e, s.get(n.args[1].elts[(n.args[1].elts.index(e) + 1) % len(n.args[1].elts)]), "isinst")
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and not (isinstance(fn, ast.Name) and fn.id == "isinstance"):
                for i in range(len(n.args) - 1):
                    a, b = s.span(n.args[i])[0], s.span(n.args[i + 1])[1]
                    if s.get(n.args[i]) != s.get(n.args[i + 1]):
                        out.append((f, n.lineno, f"swap{i}", a, b, s.get(n.args[i + 1]) + ", " + s.get(n.args[i])))
            if n.args and not isinstance(n.args[-1], ast.Starred):
                a = s.span(n.args[-2])[1] if len(n.args) > 1 else s.span(n.args[0])[0]
                b = s.span(n.args[-1])[1]
                out.append((f, n.lineno, "droparg", a, b, ""))
            for k in n.keywords:
                if k.arg:
                    add(k.value, "None", "kwnone")
        if isinstance(n, ast.FunctionDef) or isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try, ast.ExceptHandler)):
            for body in (getattr(n, "body", []), getattr(n, "orelse", []), getattr(n, "finalbody", [])):
                for st in body:
                    if id(st) in skip or isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Import, ast.ImportFrom)):
                        continue
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                        continue
                    if isinstance(st, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                        continue
                    if isinstance(st, ast.Return) and st.value is None:
                        add(st, "pass", "delete")
                    elif isinstance(st, ast.Return) and len(body) == 1 and isinstance(n, ast.FunctionDef):
                        pass
                    elif isinstance(st, ast.Break):
                        add(st, "continue", "jump")
                        add(st, "pass", "delete")
                    elif isinstance(st, ast.Continue):
                        add(st, "break", "jump")
                        add(st, "pass", "delete")
                    else:
                        add(st, "pass", "delete")
        if isinstance(n, ast.ExceptHandler) and n.type is not None and not isinstance(n.type, ast.Tuple):
            add(n.type, "ZeroDivisionError", "except")
        if isinstance(n, ast.Attribute) and n.attr == "name" and isinstance(n.ctx, ast.Load):
            pass
    seen = set()
    res = []
    for m in out:
        new = s.text[: m[3]] + m[5] + s.text[m[4] :]
        if new in seen:
            continue
        seen.add(new)
        try:
            compile(new, f, "exec")
        except SyntaxError:
            continue
        res.append((m, new))
    return s, res


def sh(cmd, env, cwd, timeout):
    try:
        return subprocess.run(cmd, shell=True, capture_output=True, text=True, env=env, cwd=cwd, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None


TOP = int(os.environ.get("MUT_TOP", "99"))
LOCK = threading.Lock()


def one(k, s, m, new, budget):
    f = m[0]
    d = f"/tmp/mut_{os.getpid()}_{k}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True, ignore=shutil.ignore_patterns(".git"))
    try:
        with open(f"{d}/src/wizard/{f}", "w", encoding="utf-8") as fp:
            fp.write(new)
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1", PYTHONPATH=d + "/src", WV_REPO=d, WV_BUDGET=str(budget), WV_EVIDENCE=d + "/ev")
        r = sh(f"timeout 60 {PY} -m pytest -x -q -p no:cacheprovider tests --deselect tests/test_scripts_basic.py::test_wizparse_scripts --timeout=30", e, d, 100)
        if r is None or r.returncode:
            return "tests"
        tried = []
        for c in ORDER[f].split()[:TOP]:
            r = sh(f"timeout 200 {PY} -B -m wv.run C{c}", e, "/verif", 300)
            if r is not None and r.returncode == 1:
                return "C" + c
            if r is None or r.returncode not in (0, 3):
                tried.append(c)
        return "SURVIVED" + (" odd " + ",".join(tried) if tried else "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if sys.argv[1] == "list":
        for f in sys.argv[2:] or FILES:
            s, ms = mutants(f)
            print(f, len(ms))
        return
    out, j = sys.argv[2], int(sys.argv[3])
    budget = float(os.environ.get("MUT_BUDGET", "6"))
    done = json.load(open(out)) if os.path.exists(out) else {}
    jobs = []
    for f in sys.argv[4:] or FILES:
        s, ms = mutants(f)
        for m, new in ms:
            key = f"{f}:{m[1]}:{m[2]}:{s.text[m[3]:m[4]]!r}->{m[5]!r}"
            if key not in done:
                jobs.append((key, s, m, new))
    if "MUT_SAMPLE" in os.environ:
        random.Random(7).shuffle(jobs)
        jobs = jobs[: int(os.environ["MUT_SAMPLE"])]
    print(len(jobs), "mutants", flush=True)

    def go(x):
        k, (key, s, m, new) = x
        r = one(k, s, m, new, budget)
        with LOCK:
            done[key] = r
            json.dump(done, open(out + ".tmp", "w"), indent=0)
            os.replace(out + ".tmp", out)
            if r.startswith("SURV"):
                print(r, key, flush=True)

    with ThreadPoolExecutor(j) as ex:
        list(ex.map(go, enumerate(jobs)))
    n = {}
    for v in done.values():
        n[v.split()[0]] = n.get(v.split()[0], 0) + 1
    print(n)


main()
