"""
Runs the check of each planted bug on a copy of /repo with its patch, and writes the
table of DESIGN.md: python3 rerun.py [-j N] [ids...]
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys

SEED = "/verif/seeded"
PY = "/opt/venv/bin/python"
OUT = "/verif/tools/caught.json"


def one(i):
    pid = json.load(open(f"{SEED}/{i}/meta.json"))["property"]
    d = f"/tmp/rr_{i}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    try:
        a = subprocess.run(f"git -C {d} apply {SEED}/{i}/patch.diff", shell=True, capture_output=True, text=True)
        if a.returncode:
            return i, dict(property=pid, result="does not apply")
        e = dict(os.environ, WV_REPO=d, WV_EVIDENCE=f"/tmp/rr_ev_{i}", PYTHONDONTWRITEBYTECODE="1", VERIF_SEED="1")
        r = subprocess.run([PY, "-B", "-m", "wv.run", pid], cwd="/verif", env=e, capture_output=True, text=True)
        t = re.findall(r"([\d.]+) s$", r.stdout, re.M)
        ok = r.returncode == 1 and f"VIOLATION property={pid} " in r.stdout
        return i, dict(property=pid, result="caught" if ok else f"missed ({r.returncode})", seconds=float(t[-1]) if t else None)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(f"/tmp/rr_ev_{i}", ignore_errors=True)


def main():
    args = sys.argv[1:]
    j = 1
    if args[:1] == ["-j"]:
        j = int(args[1])
        args = args[2:]
    ids = args or sorted(os.listdir(SEED))
    out = json.load(open(OUT)) if os.path.exists(OUT) else {}
    out = {k: v for k, v in out.items() if os.path.isdir(f"{SEED}/{k}")}
    with cf.ThreadPoolExecutor(j) as ex:
        for i, res in ex.map(one, ids):
            print(i, res, flush=True)
            out[i] = res
            json.dump(out, open(OUT, "w"), indent=0, sort_keys=True)
    table(out)


def table(out):
    rows = ["| planted bug | check | result | needs |", "|---|---|---|---|"]
    for i in sorted(out):
        m = json.load(open(f"{SEED}/{i}/meta.json"))
        v = out[i]
        rows.append(f"| {i} | {v['property']} | {v['result']} | {m['needs']} |")
    p = "/verif/DESIGN.md"
    s = open(p).read()
    a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
    i, k = s.index(a) + len(a), s.index(b)
    open(p, "w").write(s[:i] + "\n".join(rows) + "\n" + s[k:])


if __name__ == "__main__":
    main()
