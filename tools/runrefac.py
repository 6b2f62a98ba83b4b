"""Apply behaviour-preserving rewrites to scratch copies of /repo and run the checks on them.

usage: python3-vt tools/runrefac.py FILE [name…] [--jobs N]
FILE defines REFACS = [(name, "ID ID …", [(path, old, new), …]), …].
Every check must exit 0.
"""
import os, subprocess, sys, shutil, concurrent.futures as cf
args = sys.argv[1:]
jobs = 5
if "--jobs" in args:
    i = args.index("--jobs"); jobs = int(args[i + 1]); del args[i:i + 2]
ns = {}
exec(open(args[0]).read(), ns)
want = args[1:]
root = "/tmp/rf"
os.makedirs(root, exist_ok=True)


def one(t):
    d, name, cid = t
    env = dict(os.environ, SA_REPO=d, SA_EVIDENCE=d + ".ev", PYTHONPATH="/verif",
               PYTHONDONTWRITEBYTECODE="1")
    os.makedirs(d + ".ev", exist_ok=True)
    try:
        r = subprocess.run("ulimit -v 14000000; exec python3-vt -m sa.run " + cid, shell=True,
                           cwd="/verif", env=env, capture_output=True, text=True, timeout=400)
        return name, cid, r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return name, cid, 99, "TIMEOUT"


tasks = []
for name, ids, edits in ns["REFACS"]:
    if want and not any(name.startswith(w) for w in want):
        continue
    d = f"{root}/{name}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    shutil.rmtree(d + "/.git", ignore_errors=True)
    for path, old, new in edits:
        p = f"{d}/{path}"
        s = open(p).read()
        assert s.count(old) == 1, (name, path, s.count(old), old[:60])
        open(p, "w").write(s.replace(old, new))
        compile(open(p).read(), p, "exec")
    tasks += [(d, name, i) for i in ids.split()]
bad = 0
with cf.ThreadPoolExecutor(jobs) as ex:
    for fu in cf.as_completed([ex.submit(one, t) for t in tasks]):
        name, cid, rc, out = fu.result()
        if rc:
            bad += 1
            lines = [l for l in out.splitlines() if l.strip()]
            print(f"## {name} {cid} rc={rc}")
            print("\n".join(l[:400] for l in lines[-8:]), flush=True)
        else:
            print(f"ok {name} {cid}", flush=True)
print("bad:", bad)
for t in tasks:
    shutil.rmtree(t[0], ignore_errors=True); shutil.rmtree(t[0] + ".ev", ignore_errors=True)
