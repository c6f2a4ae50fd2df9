"""Cases -> real code (driver subprocesses) -> traces -> TLC, in parallel chunks."""
import concurrent.futures, json, os, re, shutil, subprocess, tempfile, time

import tlc

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
JOBS = 8


class Outcome:
    def __init__(self):
        self.marks, self.cases, self.events, self.states = [], 0, 0, 0
        self.samples = []


def drive(driver, src, dst, timeout, chunk=0):
    # the order of sets of texts depends on the hash seed: let it differ between chunks
    env = dict(os.environ, PYTHONPATH=f"{os.environ.get('COLOSSEUM_SRC', '/repo/src')}:{HERE}", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(chunk + 1))
    try:
        p = subprocess.run([PY, os.path.join(HERE, driver), src, dst], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise tlc.Machinery(f"{driver} took more than {timeout} s")
    if p.returncode:
        raise tlc.Machinery(f"{driver} ended with {p.returncode}:\n" + p.stdout.decode("utf8", "replace")[-1500:])


def judge(module, cfg, lines, timeout, env, work):
    """Validate traces.  Traces with an observation the specification gives no meaning to at all are singled out and reported."""
    path = os.path.join(work, "trace.ndjson")
    more = []
    for _ in range(4):
        with open(path, "w") as f:
            f.writelines(lines)
        try:
            r = tlc.run(module, cfg, env=dict(env or {}, TRACE=path), workers=1, timeout=timeout, heap="3g")
            break
        except tlc.Unexplained as e:
            r = e.result
            at = re.findall(r"vCase = (\d+)", r.out)
            if not at:
                raise
            k = int(at[-1]) - 1
            note = [x for x in r.out.splitlines() if x.startswith("Error") or "evaluat" in x or "ttempted" in x or "verflow" in x]
            more.append({"id": json.loads(lines[k])["id"], "i": 0, "cl": "no behaviour of the specification", "blame": ["*"], "kf": "", "detail": " ".join(note)[:500]})
            lines = lines[:k] + lines[k + 1:]
            if not lines:
                break
    return r.marks + more, r.states


def one(module, cfg, driver, cases, timeout, env, size, chunk=0):
    work = tempfile.mkdtemp(prefix="verif-")
    try:
        src, dst = os.path.join(work, "in.ndjson"), os.path.join(work, "out.ndjson")
        with open(src, "w") as f:
            for c in cases:
                f.write(json.dumps(c) + "\n")
        drive(driver, src, dst, timeout, chunk)
        with open(dst) as f:
            lines = f.readlines()
        marks, states = judge(module, cfg, lines, timeout, env, work)
        return marks, len(cases), sum(size(c) for c in cases), states, lines[0][:1500] if lines else ""
    finally:
        shutil.rmtree(work, ignore_errors=True)


def validate(module, driver, cases, cfg=None, timeout=700, env=None, size=lambda c: len(c["ops"]), jobs=JOBS, most=6000):
    """Execute the cases, validate their traces.  Returns an Outcome; its marks carry the case."""
    cases = list(cases)
    byid = {}
    for k, c in enumerate(cases):
        c["id"] = f"{k}:{c['id']}"
        byid[c["id"]] = c
    out = Outcome()
    total = sum(size(c) for c in cases)
    n = max(1, min(len(cases), max(jobs if total > 400 else 1, -(-total // most))))
    bins = [[] for _ in range(n)]
    load = [0] * n
    for c in cases:
        k = load.index(min(load))
        bins[k].append(c)
        load[k] += size(c) + 1
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        fs = [ex.submit(one, module, cfg, driver, b, timeout, env, size, k) for k, b in enumerate(bins) if b]
        for f in fs:
            marks, nc, ne, ns, sample = f.result()
            out.marks += marks
            out.cases += nc
            out.events += ne
            out.states += ns
            if sample:
                out.samples.append(sample)
    for m in out.marks:
        m["case"] = byid.get(m.get("id"))
        m["driver"], m["module"] = driver, module
    return out
