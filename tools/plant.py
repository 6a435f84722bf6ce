"""Development tool: turns bug descriptions into /verif/seeded/<id>/ after confirming
them in a scratch copy (applies, original lines only, tests pass, demo 0 / nonzero),
and runs the check of the property on the scratch copy.

usage: plant.py FILE.bug... ; a description is
  ID / PROP / FILE / NEEDS / BREAKS lines, then OLD / NEW blocks, then DEMO (Python)."""
import sys, os, re, subprocess, shutil, json, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# run with cwd /repo: 0 when the property holds on this input, nonzero otherwise
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py" > /dev/null
"""


def parse(text):
    bugs = []
    for chunk in re.split(r"(?m)^ID ", text)[1:]:
        head, rest = chunk.split("\nOLD\n", 1)
        d = {"id": head.split("\n")[0].strip(), "file": "planegeometry/geometry.py"}
        for l in head.split("\n")[1:]:
            k, _, v = l.partition(" ")
            if k:
                d[k.lower()] = v.strip()
        body, demo = rest.split("\nDEMO\n", 1)
        d["edits"] = [tuple(x.split("\nNEW\n", 1)) for x in body.split("\nOLD\n")]
        d["demo"] = demo.rstrip() + "\n"
        bugs.append(d)
    return bugs


def run(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def plant(d, seeds=("1",)):
    out = []
    wt = tempfile.mkdtemp(prefix="plant-")
    r = os.path.join(wt, "repo")
    try:
        run(["git", "clone", "-q", "/repo", r])
        f = os.path.join(r, d["file"])
        s = open(f, newline='').read()
        crlf = '\r\n' in s
        s = s.replace('\r\n', '\n')
        for old, new in d["edits"]:
            if s.count(old) != 1:
                return d["id"], "EDIT matches %d times: %s" % (s.count(old), old[:60]), False
            s = s.replace(old, new)
        dd = os.path.join(wt, "demo")
        os.makedirs(dd)
        open(dd + "/demo.py", "w").write(d["demo"])
        open(dd + "/demo.sh", "w").write(DEMO_SH)
        a = run(["bash", dd + "/demo.sh"], cwd=r)
        if a.returncode != 0:
            return d["id"], "demo fails on the clean tree: " + a.stderr[-300:], False
        open(f, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
        raw = subprocess.run(["git", "diff"], cwd=r, capture_output=True).stdout
        diff = raw.decode()
        # original lines only
        base = run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=r).stdout.strip()
        blame = run(["git", "blame", "-l", "-s", "HEAD", "--", d["file"]], cwd=r).stdout.split("\n")
        ln, touched = 0, []
        for l in diff.split("\n"):
            m = re.match(r"@@ -(\d+)", l)
            if m:
                ln = int(m.group(1))
            elif l.startswith("-") and not l.startswith("---"):
                touched.append(blame[ln - 1].lstrip("^")[:30] in base)
                ln += 1
            elif not l.startswith("+") and not l.startswith("diff") and not l.startswith("index"):
                ln += 1
        if not any(touched):
            out.append("NO ORIGINAL LINE CHANGED")
        elif not all(touched):
            out.append("(%d/%d original)" % (sum(touched), len(touched)))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=r)
        t = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=r, env=env)
        if t.returncode != 0:
            return d["id"], "TESTS FAIL " + t.stdout[-200:], False
        b = run(["bash", dd + "/demo.sh"], cwd=r)
        if b.returncode == 0:
            return d["id"], "demo passes with the change", False
        t = os.path.join(V, "seeded", d["id"])
        os.makedirs(t, exist_ok=True)
        open(t + "/patch.diff", "wb").write(raw)
        shutil.copy(dd + "/demo.py", t)
        shutil.copy(dd + "/demo.sh", t)
        json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(t + "/meta.json", "w"), indent=1)
        caught = True
        for s in seeds:
            c = run([os.path.join(V, "check"), d["prop"], "--seed", s], env=dict(os.environ, VERIF_REPO=r, VERIF_NOEV="1"))
            last = c.stdout.strip().split("\n")
            caught &= c.returncode == 1
            out.append("%s rc=%d %s" % ("CAUGHT" if c.returncode == 1 else "MISSED", c.returncode, (last[-2] if c.returncode == 1 else last[-1])[:230]))
        return d["id"], " ".join(out), caught
    finally:
        shutil.rmtree(wt, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    only = [a[1:] for a in args if a.startswith("=")]
    bugs = [d for a in args if not a.startswith("=") for d in parse(open(a).read())]
    if only:
        bugs = [d for d in bugs if d["id"] in only]
    with ThreadPoolExecutor(3) as ex:
        for i, msg, c in ex.map(plant, bugs):
            print(i, msg, flush=True)
