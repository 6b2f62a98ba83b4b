"""Makes planted bugs: seed(id, prop, needs, breaks, edits, demo, libs).
edits: [(file, old, new[, occurrence])]; demo: python source run in /opt/venv
python with cwd=repo.  Confirms the demo passes on HEAD and fails with it."""
import json, os, shutil, subprocess
WT = "/tmp/seedwt"
LIB = os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedlib")

def sh(cmd, cwd):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True)

def prep():
    if not os.path.isdir(WT):
        subprocess.check_call(["cp", "-a", "/repo", WT])
    sh("git checkout -q -- . && git fetch -q /repo main && git reset -q --hard FETCH_HEAD", WT)

BASE = []
def failing():
    t = sh("PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore -m pytest -q -p no:cacheprovider transcoder", WT)
    return set(l.split(" ")[1] for l in t.stdout.splitlines() if l.startswith(("FAILED", "ERROR")))

def base_failing():
    if not BASE:
        sh("git stash -q", WT)
        BASE.append(failing())
        sh("git stash pop -q", WT)
        assert len(BASE[0]) < 12, BASE
    return BASE[0]

def seed(sid, prop, needs, breaks, edits, demo, libs=(), regen_dbg=False):
    prep()
    d = "/verif/seeded/" + sid
    for e in edits:
        f, old, new = e[:3]
        p = os.path.join(WT, f)
        t = open(p).read()
        n = t.count(old)
        occ = e[3] if len(e) > 3 else None
        if occ is None:
            assert n == 1, (sid, f, old, n)
            t = t.replace(old, new)
        else:
            i = -1
            for _ in range(occ + 1):
                i = t.index(old, i + 1)
            t = t[:i] + new + t[i + len(old):]
        open(p, "w").write(t)
    diff = sh("git diff", WT).stdout
    assert diff
    os.makedirs(d, exist_ok=True)
    open(d + "/demo.py", "w").write(demo)
    for l in libs:
        shutil.copy(os.path.join(LIB, l), d)
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    b = sh(d + "/demo.sh", WT)
    if any(e[0].startswith("transcoder/") for e in edits):
        f = failing() - base_failing()
        if f:
            print(sid, "BAD: tests fail", sorted(f))
            sh("git checkout -q -- .", WT)
            shutil.rmtree(d)
            return
    sh("git checkout -q -- .", WT)
    g = sh(d + "/demo.sh", WT)
    ok = g.returncode == 0 and b.returncode != 0
    print("%-28s head=%d bug=%d %s" % (sid, g.returncode, b.returncode, "OK" if ok else "BAD"),
          (b.stderr or b.stdout).strip().splitlines()[-1:] if ok else (g.stderr[-400:], b.stderr[-200:]))
    if not ok:
        shutil.rmtree(d)
        return
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
