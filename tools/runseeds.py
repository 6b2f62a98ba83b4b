"""runseeds.py [IDs..] [--prop P] -- runs each seed's own check (or P) on a patched copy."""
import json, os, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor
from seedtool import prep, sh, WT
args = [a for a in sys.argv[1:]]
prop = None
if "--prop" in args:
    i = args.index("--prop"); prop = args[i + 1]; del args[i:i + 2]
ids = args or sorted(os.listdir("/verif/seeded"))
prep()
def one(s):
    d = "/verif/seeded/" + s
    w = "/tmp/rs_" + s
    shutil.rmtree(w, ignore_errors=True)
    subprocess.check_call(["cp", "-a", WT, w])
    r = sh("git apply %s/patch.diff" % d, w)
    p = prop or json.load(open(d + "/meta.json"))["property"]
    if r.returncode:
        out = "PATCH FAILS " + r.stderr
    else:
        x = subprocess.run(["python3-vt", "-m", "sa.run", p], cwd="/verif", env=dict(os.environ, SA_REPO=w, SA_EVIDENCE="/tmp/rs_ev"), capture_output=True, text=True)
        v = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
        out = ("caught" if x.returncode == 1 and v else "MISSED rc=%d" % x.returncode) + " by " + p + "  " + "; ".join((x.stdout + x.stderr).strip().splitlines()[:2])[:220]
    shutil.rmtree(w, ignore_errors=True)
    return s, out
with ThreadPoolExecutor(6) as ex:
    for s, o in ex.map(one, ids):
        print("%-26s %s" % (s, o))
