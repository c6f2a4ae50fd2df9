"""runseeds.py [-j N] [-p PROP,...] [ID...]: run the check of each planted bug's property (or the given properties) on a scratch copy with the bug."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
jobs, props = 3, None
while args and args[0] in ("-j", "-p"):
    if args[0] == "-j":
        jobs = int(args[1])
    else:
        props = args[1].split(",")
    args = args[2:]
ids = args or sorted(os.listdir(os.path.join(VERIF, "seeded")))
work = tempfile.mkdtemp(prefix="runseeds-")
v = os.path.join(work, "v")
shutil.copytree(VERIF, v, ignore=shutil.ignore_patterns("seeded", ".git", "replays", "evidence"))


def one(i):
    d = os.path.join(VERIF, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    r = os.path.join(work, i)
    subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
    a = subprocess.run(["git", "-C", r, "apply", os.path.join(d, "patch.diff")])
    if a.returncode:
        return i, [("patch", "does not apply", 0, "")]
    out = []
    for p in props or [meta["property"]]:
        env = dict(os.environ, COLOSSEUM_SRC=r + "/src")
        t = time.time()
        q = subprocess.run([sys.executable, os.path.join(v, "harness/check.py"), p], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=v)
        o = q.stdout.decode("utf8", "replace")
        res = "caught" if q.returncode == 1 and f"VIOLATION property={p}" in o else "MISSED" if q.returncode == 0 else f"BROKEN rc={q.returncode}"
        lines = [x for x in o.splitlines() if x.startswith("  ") or x.startswith("MACHINERY") or "Error" in x]
        out.append((p, res, time.time() - t, lines[0][:230] if lines else ""))
    shutil.rmtree(r, ignore_errors=True)
    return i, out


try:
    with ThreadPoolExecutor(jobs) as ex:
        for i, out in ex.map(one, ids):
            for p, res, t, line in out:
                print(f"{i:26} {p} {res:8} {t:5.0f}s {line}", flush=True)
finally:
    shutil.rmtree(work, ignore_errors=True)
