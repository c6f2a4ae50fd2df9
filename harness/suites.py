"""Which models are checked and which executions validated for each property."""
import concurrent.futures, json

import pipeline, tlc


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.marks, self.samples, self.detail, self.assumptions = [], [], {}, []
        self.states = self.transitions = self.traces = self.events = self.from_model = self.model_states = 0

    def model(self, module, env, timeout=None, workers=1, name=None, cfg=None):
        """Model-check; returns what it printed (histories to execute)."""
        timeout = timeout or (800 if self.quick else 3000)
        r = tlc.run(module, cfg, env=env, workers=workers, timeout=timeout)
        self.states += r.states
        self.model_states += r.states
        self.transitions += r.generated
        self.detail[name or module] = {"distinct_states": r.states, "transitions": r.generated, "histories_emitted": len(r.marks)}
        return r.marks

    def validate(self, module, driver, cases, from_model=0, **kw):
        o = pipeline.validate(module, driver, cases, **kw)
        self.marks += o.marks
        self.traces += o.cases
        self.events += o.events
        self.states += o.states
        self.transitions += o.events
        self.from_model += from_model
        self.samples += [json.loads(json.dumps(s)) for s in o.samples[:1]]
        d = self.detail.setdefault(module, {"traces": 0, "events": 0})
        d["traces"] += o.cases
        d["events"] += o.events
        return o


def style(run):
    import gen_style
    depth, emit = {"C01": (3, 3), "C02": (3, 3), "C03": (3, 2), "C04": (4, 3), "C05": (3, 2), "C06": (3, 2)}[run.prop]
    if not run.quick:
        depth, emit = {"C01": (5, 4), "C02": (5, 3), "C03": (4, 3), "C04": (6, 6), "C05": (4, 3), "C06": (4, 3)}[run.prop]
    hs = run.model("MC_Style", {"FOCUS": run.prop, "DEPTH": str(depth), "EMIT": str(emit)})
    cases = [{"id": f"model-{k}", "pars": h["pars"], "ops": h["ops"]} for k, h in enumerate(hs)]
    cases += list(gen_style.gen(run.prop, run.tier, run.seed))
    run.validate("Trace_Style", "drive_style.py", cases, from_model=len(hs))


SUITES = {p: style for p in ("C01", "C02", "C03", "C04", "C05", "C06")}


def texts(run, plan):
    """Every text of so many tokens of each grammar, printed by the model and parsed by the real code."""
    def one(x):
        fn, depth = x
        return fn, depth, run.model("MC_Texts", {"FN": fn, "DEPTH": str(depth)}, name=f"MC_Texts({fn}, {depth})")
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for fn, depth, marks in ex.map(one, plan):
            ts = sorted(m["s"] for m in marks)
            for k in range(0, len(ts), 25):
                yield {"id": f"text-{fn}-{k}", "ops": [{"op": "parse", "fn": fn, "raw": {"k": "str", "s": s}} for s in ts[k:k + 25]]}


TEXTS = {"C07": ([("length", 4)], [("length", 5)]), "C08": ([("length", 2)], [("length", 3)]), "C09": ([("color", 3)], [("color", 4)]),
         "C10": ([("rect", 4), ("spacing", 4), ("quotes", 4), ("uri", 5), ("cursor", 4)], [("rect", 5), ("spacing", 6), ("quotes", 6), ("uri", 6), ("cursor", 5)])}


def values(run):
    import gen_values, re, os
    cases = list(texts(run, TEXTS[run.prop][0 if run.quick else 1]))
    n = len(cases)
    with open(os.path.join(tlc.SPEC, "NamedColors.tla")) as f:
        names = re.findall(r'"([a-z]+)" :>', f.read())
    cases += list(gen_values.gen(run.prop, run.tier, run.seed, names))
    run.validate("Trace_Values", "drive_values.py", cases, from_model=n, most=20000)


SUITES.update({p: values for p in ("C07", "C08", "C09", "C10")})


def box(run):
    import gen_box
    plan = {"C11": [("chain", 2, 1)], "C12": [("chain", 3, 2), ("fork", 3, 2)]}[run.prop]
    if not run.quick:
        plan = {"C11": [("chain", 3, 2), ("fork", 2, 2)], "C12": [("chain", 4, 2), ("fork", 4, 2), ("deep", 3, 2)]}[run.prop]
    cases = []

    def one(x):
        tree, depth, emit = x
        return run.model("MC_Box", {"FOCUS": run.prop, "TREE": tree, "DEPTH": str(depth), "EMIT": str(emit)}, name=f"MC_Box({tree}, {depth})")
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for hs in ex.map(one, plan):
            cases += [{"id": f"model-{k}", "par": h["par"], "ops": h["ops"]} for k, h in enumerate(hs)]
    n = len(cases)
    cases += list(gen_box.gen(run.prop, run.tier, run.seed))
    run.validate("Trace_Box", "drive_box.py", cases, from_model=n, most=20000)
    # ... and as the layout uses them
    import gen_layout
    run.validate("Trace_Layout", "drive_layout.py", list(gen_layout.gen(run.prop, run.tier, run.seed, scale=0.4 if run.prop == "C11" else 1.0)), most=20000)


SUITES.update({p: box for p in ("C11", "C12")})


def layout(run):
    import gen_layout
    hs = run.model("MC_Layout", {"FOCUS": run.prop, "DEPTH": "2" if run.quick else "3", "BIG": "0" if run.quick else "1"}, workers=8, timeout=850 if run.quick else 3000)
    hs.sort(key=lambda h: json.dumps(h, sort_keys=True))
    want = gen_layout.WANT.get(run.prop, [])
    cases = []
    for k, h in enumerate(hs):
        for op in h["ops"]:
            if op["op"] == "layout":
                op["want"] = want
        for nd in h["doc"]["nodes"]:
            nd["st"] = nd["st"] or {}
        cases.append({"id": f"model-{k}", "doc": h["doc"], "ops": h["ops"]})
    cases += list(gen_layout.gen(run.prop, run.tier, run.seed))
    run.validate("Trace_Layout", "drive_layout.py", cases, from_model=len(hs), most=20000, timeout=700 if run.quick else 3000)


SUITES.update({p: layout for p in ("C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C24")})


def blocks(run):
    import gen_blocks
    plan = {"C22": [("choices", 1, 1), ("defs", 4, 2)], "C23": [("short", 3, 3)]}[run.prop]
    if not run.quick:
        plan = {"C22": [("choices", 1, 1), ("defs", 7, 3)], "C23": [("short", 4, 4)]}[run.prop]
    cases = []
    for focus, depth, emit in plan:
        hs = run.model("MC_Blocks", {"FOCUS": focus, "DEPTH": str(depth), "EMIT": str(emit)}, name=f"MC_Blocks({focus}, {depth})", workers=8)
        hs.sort(key=lambda h: json.dumps(h, sort_keys=True))
        cases += [{"id": f"model-{focus}-{k}", "ops": h["ops"]} for k, h in enumerate(hs)]
    run.validate("Trace_Blocks", "drive_blocks.py", cases + list(gen_blocks.gen(run.prop, run.tier, run.seed)), from_model=len(cases), most=20000)


SUITES.update({p: blocks for p in ("C22", "C23")})
