"""
Writes the planted bugs of a list: python3 plant.py bugs/b1.py [ids...]
Each is validated in a scratch copy of /repo: tests pass, the demonstration fails there
and passes on /repo; then the check of the property is run on the copy.
"""
import json, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SEED = "/verif/seeded"
PY = "/opt/venv/bin/python"
BASE = "9312448^"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def env(copy):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1")
    if copy:
        e["PYTHONPATH"] = copy + "/src"
        e["WV_REPO"] = copy
    return e


def one(b, budget):
    pid = b["property"]
    d = f"{SEED}/{b['id']}"
    copy = f"/tmp/pl_{b['id']}"
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree("/repo", copy, symlinks=True)
    try:
        for f, old, new in b["edits"]:
            p = f"{copy}/src/wizard/{f}"
            s = open(p, encoding="utf-8").read()
            if s.count(old) != 1:
                return b["id"], f"BAD EDIT {f}: {s.count(old)} matches: {old[:50]!r}"
            open(p, "w", encoding="utf-8").write(s.replace(old, new))
        diff = sh(f"git -C {copy} diff").stdout
        # lines changed: of the original repository
        orig = mine = 0
        for f in sorted({f for f, _, _ in b["edits"]}):
            bl = sh(f"git -C /repo blame -s {BASE}.. -- src/wizard/{f}").stdout.split("\n")
            u0 = sh(f"git -C {copy} diff -U0 -- src/wizard/{f}").stdout
            for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", u0, re.M):
                n = int(m[2]) if m[2] else 1
                for l in range(int(m[1]), int(m[1]) + n):
                    if bl[l - 1].startswith("^"):
                        orig += 1
                    else:
                        mine += 1
        e = env(copy)
        shutil.rmtree(d, ignore_errors=True)
        if not orig:  # does not count: only to test the checks
            d = f"/tmp/pl_dir/{b['id']}"
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.py", "w").write(b["demo"].strip() + "\n")
        if "from h import" in b["demo"]:
            shutil.copy(HERE + "/bugs/h.py", d + "/h.py")
        json.dump({"property": pid, "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh(f"{PY} -m pytest -q -p no:cacheprovider tests --deselect tests/test_scripts_basic.py::test_wizparse_scripts --timeout=60", cwd=copy, env=e)
        if r.returncode:
            shutil.rmtree(d)
            return b["id"], "TESTS FAIL: " + r.stdout.strip().split("\n")[-2][-200:]
        r = sh(f"timeout 250 bash {d}/demo.sh", cwd="/repo", env=env(None))
        if r.returncode:
            shutil.rmtree(d)
            return b["id"], "DEMO FAILS ON UNCHANGED: " + (r.stdout + r.stderr)[-300:]
        r = sh(f"timeout 250 bash {d}/demo.sh", cwd=copy, env=e)
        if not r.returncode:
            shutil.rmtree(d)
            return b["id"], "DEMO PASSES WITH PATCH"
        demo = (r.stdout + r.stderr).strip().split("\n")[-1][:100]
        e["WV_BUDGET"] = str(budget)
        e["WV_EVIDENCE"] = "/tmp/pl_ev"
        r = sh(f"{PY} -B -m wv.run {pid} --seed 1", cwd="/verif", env=e)
        v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
        t = re.findall(r"([\d.]+) s$", r.stdout, re.M)
        ok = r.returncode == 1 and v
        return b["id"], f"{'CAUGHT' if ok else 'MISSED rc=%d' % r.returncode} {pid} {'' if orig else 'NO ORIGINAL LINE '}orig={orig} mine={mine} {t} demo: {demo}" + (
            "" if ok else "\n" + (r.stdout[-150:] + r.stderr[-250:]).strip())
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree("/tmp/pl_dir", ignore_errors=True)


def main():
    ns = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), ns)
    ids = sys.argv[2:]
    bugs = [b for b in ns["BUGS"] if not ids or b["id"] in ids]
    for b in bugs:
        print(*one(b, float(os.environ.get("WV_BUDGET", 22))), flush=True)


main()
