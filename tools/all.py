"""run every registered check and print one line each"""
import json, subprocess, concurrent.futures as cf, time, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(os.path.join(V, "MANIFEST.json")))
ids = sys.argv[1:] or [c.get("property") or c.get("id") for c in m["checks"]]
def f(i):
    t = time.time(); r = subprocess.run(["python3", "check.py", i], capture_output=True, text=True, cwd=V)
    return i, r.returncode, round(time.time() - t), (r.stdout.strip().splitlines() or [r.stderr[-100:]])[-1][:110]
with cf.ThreadPoolExecutor(3) as ex:
    for x in ex.map(f, ids): print(*x)
