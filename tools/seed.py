"""Make and confirm planted bugs.  seed.py DEFS.py [ID...]

DEFS.py defines SEEDS: list of dicts with id, property, edits [(file, old, new)...], demo (python), needs, breaks.
Each is confirmed in a scratch copy of /repo (builds, stable tests pass, demo 0 / nonzero) and written to seeded/<id>/."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO = '#!/bin/bash\n# exit 0 while the property holds, nonzero when it is broken\nPYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 timeout 60 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, cwd=None, env=None, timeout=300):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf8", "replace")


def one(s):
    d = tempfile.mkdtemp(prefix="seed-")
    try:
        r = os.path.join(d, "r")
        sh(f"git clone -q /repo {r}")
        for f, old, new in s["edits"]:
            p = os.path.join(r, "src/colosseum", f)
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                return f"edit matches {n} times in {f}: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", cwd=r)[1]
        dd = os.path.join(d, "demo")
        os.makedirs(dd)
        open(os.path.join(dd, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        open(os.path.join(dd, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(dd, "demo.sh"), 0o755)
        rc, out = sh(f"bash {dd}/demo.sh", cwd="/repo")
        if rc:
            return "demo fails on the clean tree: " + out[-600:]
        rc, out = sh(f"bash {dd}/demo.sh", cwd=r)
        if not rc:
            return "demo passes on the changed tree"
        if "AssertionError" not in out and not s.get("exc"):
            return "demo fails otherwise: " + out[-500:]
        env = dict(os.environ, PYTHONPATH=r + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
        rc, out = sh(PY + " -m pytest -q -p no:cacheprovider -x 2>&1 | tail -25", cwd=r, env=env)
        if "747 passed" not in out or " failed" in out.splitlines()[-1]:
            return "tests: " + "\n".join(x for x in out.splitlines() if "FAILED" in x or "passed" in x)
        t = os.path.join(VERIF, "seeded", s["id"])
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(dd, t)
        open(os.path.join(t, "patch.diff"), "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(t, "meta.json"), "w"), indent=1)
        return "ok"
    finally:
        shutil.rmtree(d, ignore_errors=True)


spec = importlib.util.spec_from_file_location("defs", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
from concurrent.futures import ThreadPoolExecutor
todo = [s for s in m.SEEDS if len(sys.argv) < 3 or s["id"] in sys.argv[2:]]
with ThreadPoolExecutor(8) as ex:
    for s, r in zip(todo, ex.map(one, todo)):
        print(s["id"], s["property"], r, flush=True)
