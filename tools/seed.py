"""Create and try planted bugs: seed.py make SPEC.py | seed.py try [ID ...]

A spec is a python file with a list SEEDS of dicts: id, prop, edits [(path, old, new)...], needs, breaks, demo (python text).
make writes seeded/<id>/, try applies each to /repo, runs the stable tests, the demo and the check, and undoes it."""
import json, os, subprocess, sys, runpy
V, R = "/verif", "/repo"
PY = "/opt/venv/bin/python"


def sh(cmd, cwd=V, timeout=1200):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def clean():
    assert not sh("git status --porcelain", R).stdout.strip(), "/repo not clean"


def make(spec):
    clean()
    for s in runpy.run_path(spec)["SEEDS"]:
        d = f"{V}/seeded/{s['id']}"
        os.makedirs(d, exist_ok=True)
        try:
            for path, old, new in s["edits"]:
                with open(f"{R}/{path}", newline="") as f:
                    t = f.read()
                crlf = "\r\n" in t
                if crlf:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                if t.count(old) != 1:
                    print(s["id"], "EDIT MATCHES", t.count(old), path)
                    break
                with open(f"{R}/{path}", "w", newline="") as f:
                    f.write(t.replace(old, new))
            else:
                diff = subprocess.run("git diff", shell=True, cwd=R, capture_output=True).stdout
                open(f"{d}/patch.diff", "wb").write(diff)
        finally:
            sh("git checkout -- .", R)
        open(f"{d}/demo.py", "w").write(s["demo"].strip() + "\n")
        open(f"{d}/demo.sh", "w").write(
            '#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\n'
            'export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\n'
            'exec /opt/venv/bin/python -W ignore "$D/demo.py"\n')
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
        print("made", s["id"])


def blame_ok(d):
    """lines removed by the patch belong to the base commit"""
    base = sh("git rev-list --max-parents=0 HEAD", R).stdout.strip()
    import re
    cur = None
    bad = []
    for line in open(f"{d}/patch.diff", newline=""):
        m = re.match(r"--- a/(\S+)", line)
        if m:
            cur = m.group(1); continue
        m = re.match(r"@@ -(\d+)", line)
        if m:
            n = int(m.group(1)); continue
        if cur and line.startswith("-") and not line.startswith("---"):
            b = sh(f"git blame -l -L {n},{n} HEAD -- {cur}", R).stdout
            if base[:30] not in b:
                bad.append((cur, n))
        if cur and line[:1] in " -":
            n += 1
    return bad


def attempt(i, tests=True, check=True):
    d = f"{V}/seeded/{i}"
    meta = json.load(open(f"{d}/meta.json"))
    clean()
    out = [i, meta["property"]]
    r = sh(f"bash {d}/demo.sh", R)
    out.append(f"demo-clean={r.returncode}")
    if r.returncode:
        print(r.stdout[-600:], r.stderr[-600:])
    b = blame_ok(d)
    if b:
        out.append(f"NOT-ORIGINAL {b}")
    r = sh(f"git apply {d}/patch.diff", R)
    if r.returncode:
        print(i, "APPLY FAILS", r.stderr); return
    try:
        r = sh(f"bash {d}/demo.sh", R)
        out.append(f"demo-bug={r.returncode}")
        if tests:
            out.append(sh(f"bash {V}/tests_ok.sh").stdout.strip())
        if check:
            r = sh(f"{PY} -W ignore check.py {meta['property']} --tier quick")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out.append(f"check={r.returncode} {'CAUGHT' if r.returncode == 1 and v else 'MISSED'} {v[:1]}")
    finally:
        sh("git checkout -- .", R)
    print(*out, flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        fl = [a for a in sys.argv[2:] if a.startswith("--")]
        ids = [a for a in sys.argv[2:] if not a.startswith("--")] or sorted(os.listdir(f"{V}/seeded"))
        for i in ids:
            attempt(i, tests="--notests" not in fl, check="--nocheck" not in fl)
