"""Judges surviving mutants (see mutants.py): executes the cases of all quick checks on each, and has TLC validate the traces that differ."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "harness"))
import pipeline, suites, tlc

PROPS = [f"C{k:02}" for k in range(1, 22)]


class Collect(suites.Run):
    def __init__(self, prop):
        super().__init__(prop, "quick", 1)
        self.sets = []

    def validate(self, module, driver, cases, from_model=0, **kw):
        for k, c in enumerate(cases):
            c["id"] = f"{k}:{c['id']}"
        self.sets.append((module, driver, cases))


def prepare(work):
    base = os.path.join(work, "cases")
    if os.path.exists(base + "/index.json"):
        return json.load(open(base + "/index.json"))
    os.makedirs(base, exist_ok=True)
    def one(p):
        r = Collect(p)
        suites.SUITES[p](r)
        index = []
        for k, (module, driver, cases) in enumerate(r.sets):
            if len(cases) > 1200:
                cases = cases[::len(cases) // 1200]
            src = os.path.join(base, f"{p}-{k}.in")
            with open(src, "w") as f:
                for c in cases:
                    f.write(json.dumps(c) + "\n")
            dst = src[:-3] + ".out"
            import time
            t = time.time()
            pipeline.drive(driver, src, dst, 600)
            index.append({"prop": p, "module": module, "driver": driver, "src": src, "dst": dst})
            print(p, k, len(cases), "cases", round(time.time() - t, 1), "s", flush=True)
        return index
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        index = [x for xs in ex.map(one, PROPS) for x in xs]
    json.dump(index, open(base + "/index.json", "w"))
    return index


WHERE = {"engine.py": PROPS[10:], "dimensions.py": ["C11", "C12", "C06", "C19", "C14"], "declaration.py": PROPS[:6], "constants.py": ["C01", "C02", "C04"], "validators.py": ["C02", "C01"],
         "parser.py": ["C07", "C09", "C10", "C02", "C03"], "units.py": ["C07", "C08", "C21", "C10"], "colors.py": ["C09"], "wrappers.py": ["C10", "C03", "C04", "C02"], "shapes.py": ["C10", "C04", "C02"]}


def relevant(m, x, everywhere=False):
    return everywhere or x["prop"] in WHERE[m["file"]]


def thin(index, most):
    """The same sets, sampled."""
    out = []
    for x in index:
        with open(x["src"]) as f, open(x["dst"]) as g:
            ls, os_ = f.readlines(), g.readlines()
        assert len(ls) == len(os_)
        step = max(1, len(ls) // most)
        y = dict(x, src=x["src"][:-3] + f".{most}.in", dst=x["src"][:-3] + f".{most}.out")
        with open(y["src"], "w") as f, open(y["dst"], "w") as g:
            f.writelines(ls[step // 2::step])
            g.writelines(os_[step // 2::step])
        out.append(y)
    return out


def drive(src_dir, x, dst):
    env = dict(os.environ, PYTHONPATH=f"{src_dir}:{os.path.join(VERIF, 'harness')}", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="1")
    return subprocess.run([pipeline.PY, os.path.join(VERIF, "harness", x["driver"]), x["src"], dst], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600).returncode


def judge(m, index, stop=True):
    w = tempfile.mkdtemp(prefix="judge-")
    out = {}
    try:
        shutil.copytree("/repo/src", os.path.join(w, "src"), ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
        with open(os.path.join(w, "src", "colosseum", m["file"]), "w") as f:
            f.write(m["text"])
        for x in index:
            if not relevant(m, x) or out.get(x["prop"]) == "caught" or (stop and "caught" in out.values()):
                continue
            dst = os.path.join(w, "t.out")
            try:
                if drive(os.path.join(w, "src"), x, dst):
                    out[x["prop"]] = "driver failed"
                    continue
            except subprocess.TimeoutExpired:
                out[x["prop"]] = "driver hung"
                continue
            with open(x["dst"]) as a, open(dst) as b:
                diff = [lb for la, lb in zip(a, b) if la != lb]
            if not diff:
                out.setdefault(x["prop"], "same")
                continue
            step = max(1, len(diff) // 40)
            try:
                marks, _ = pipeline.judge(x["module"], None, diff[::step][:40], 300, None, w)
            except tlc.Machinery as e:
                out[x["prop"]] = "machinery " + str(e)[:80]
                continue
            known = lambda k: k.get("kf")
            for b in {b for k in marks if not known(k) for b in k["blame"]}:
                out[b] = "caught"
            bad = [k for k in marks if (x["prop"] in k["blame"] or "*" in k["blame"]) and not known(k)]
            other = sorted({b for k in marks if not known(k) for b in k["blame"]})
            out[x["prop"]] = "caught" if bad else f"differs ({len(diff)}), blames {other}"
        return out
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main(work, jobs, only, share=1):
    """Mutants that the unit tests accept: on sampled cases, then (if not caught) all tests, then on all cases."""
    import mutants, random
    index = prepare(work)
    small = thin(index, 150)
    path = os.path.join(work, "judged.json")
    res = json.load(open(path)) if os.path.exists(path) else {}
    todo = []
    for f in only or mutants.FILES:
        ms = list(mutants.mutants(f))
        random.Random(1).shuffle(ms)
        todo += [m for m in ms[:int(len(ms) * share)] if m["id"] not in res]
    print(len(todo), "to judge", flush=True)

    def one(m):
        if not mutants.survives(m, True):
            return {"fate": "fails the unit tests"}
        out = judge(m, small)
        if "caught" in out.values():
            return {"fate": "caught", "out": out}
        if not mutants.survives(m, False):
            return {"fate": "fails the tests"}
        out = judge(m, index)
        return {"fate": "caught" if "caught" in out.values() else "LEFT", "out": out}
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for k, (m, r) in enumerate(zip(todo, ex.map(one, todo))):
            res[m["id"]] = dict({k: m[k] for k in ("file", "line", "desc", "src", "text")} if r["fate"] == "LEFT" else {"file": m["file"]}, **r)
            if k % 10 == 0 or r["fate"] == "LEFT":
                json.dump(res, open(path + ".new", "w"))
                os.replace(path + ".new", path)
            if r["fate"] == "LEFT":
                print(m["id"], m["file"], m["line"], m["desc"], "|", m["src"], "=>", sorted({v for v in r["out"].values()}), flush=True)
    json.dump(res, open(path, "w"))
    fates = {}
    for r in res.values():
        fates[r["fate"]] = fates.get(r["fate"], 0) + 1
    print(fates)
