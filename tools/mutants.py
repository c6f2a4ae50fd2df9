"""mutants.py WORK judge JOBS SHARE [FILE...]: single-point mutants of the code that the repository's tests accept, and whether the checks see them.

Not part of any check: a search for changes the checks miss.  WORK/judged.json is resumed.
"""
import ast, concurrent.futures, copy, hashlib, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, os.path.join(VERIF, "harness"))
SRC = "/repo/src/colosseum"
FILES = ["declaration.py", "constants.py", "validators.py", "parser.py", "units.py", "colors.py", "shapes.py", "wrappers.py", "dimensions.py", "engine.py"]
PY = "/opt/venv/bin/python"
SWAP = [("top", "bottom"), ("left", "right"), ("width", "height"), ("horizontal", "vertical"), ("min", "max"), ("opening", "closing"), ("border", "padding"), ("margin", "padding"), ("content", "border"), ("LTR", "RTL")]


def swaps(name):
    parts = name.split("_")
    for a, b in SWAP:
        for x, y in ((a, b), (b, a)):
            if x in parts:
                yield "_".join(y if p == x else p for p in parts)


def variants(node):
    """Replacements for one node: (description, new node)."""
    def put(desc, **kw):
        n = copy.copy(node)
        for k, v in kw.items():
            setattr(n, k, v)
        return desc, n
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        t = type(node.ops[0])
        m = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
             ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
        for x in m.get(t, []):
            yield put(f"{t.__name__}->{x.__name__}", ops=[x()])
    if isinstance(node, ast.BoolOp):
        yield put("and<->or", op=ast.Or() if isinstance(node.op, ast.And) else ast.And())
        for k in range(len(node.values)):
            vs = node.values[:k] + node.values[k + 1:]
            yield ("drop operand", vs[0]) if len(vs) == 1 else put("drop operand", values=vs)
    if isinstance(node, ast.BinOp):
        m = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult, ast.FloorDiv], ast.FloorDiv: [ast.Div], ast.Mod: [ast.Mult]}
        for x in m.get(type(node.op), []):
            yield put("op", op=x())
        if isinstance(node.op, (ast.Add, ast.Sub)):
            yield "drop term", node.left
            yield "drop first term", node.right
    if isinstance(node, ast.AugAssign):
        yield put("aug", op=ast.Sub() if isinstance(node.op, ast.Add) else ast.Add())
        yield "aug->assign", ast.Assign(targets=[node.target], value=node.value, lineno=node.lineno)
    if isinstance(node, ast.UnaryOp):
        yield "drop unary", node.operand
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            yield put("bool", value=not v)
        elif isinstance(v, int):
            yield put("+1", value=v + 1)
            if v > 0:
                yield put("-1", value=v - 1)
        elif isinstance(v, float):
            yield put("*1.01", value=v * 1.01 if v else 0.5)
        elif v is None:
            yield put("None->0", value=0)
        elif isinstance(v, str) and v and len(v) < 40 and " " not in v.strip():
            for s in swaps(v.strip("_%")):
                yield put("str swap", value=v.replace(v.strip("_%"), s))
    if isinstance(node, ast.Attribute):
        for s in swaps(node.attr):
            yield put(f"{node.attr}->{s}", attr=s)
    if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
        for s in swaps(node.id):
            yield put(f"{node.id}->{s}", id=s)
    if isinstance(node, (ast.If, ast.IfExp, ast.While)):
        yield put("if False", test=ast.Constant(False))
        if not isinstance(node, ast.While):
            yield put("if True", test=ast.Constant(True))
    if isinstance(node, (ast.Assign, ast.AugAssign, ast.Raise)) or (isinstance(node, ast.Expr) and isinstance(node.value, ast.Call)):
        yield "delete", ast.Pass(lineno=node.lineno)
    if isinstance(node, ast.Continue):
        yield "break", ast.Break(lineno=node.lineno)
    if isinstance(node, ast.Call) and len(node.args) + len(node.keywords) > 1:
        for k in range(len(node.args)):
            yield put(f"drop argument {k}", args=node.args[:k] + node.args[k + 1:])
        for k in range(len(node.keywords)):
            yield put(f"drop keyword {node.keywords[k].arg}", keywords=node.keywords[:k] + node.keywords[k + 1:])
    if isinstance(node, (ast.List, ast.Tuple)) and len(node.elts) > 1 and isinstance(node.ctx, ast.Load):
        for k in range(len(node.elts)):
            yield put(f"drop element {k}", elts=node.elts[:k] + node.elts[k + 1:])
        yield put("swap elements", elts=[node.elts[1], node.elts[0]] + node.elts[2:])
    if isinstance(node, ast.Slice):
        if node.lower:
            yield put("no lower", lower=None)
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ("max", "min", "round", "abs", "int", "float", "sorted", "str", "repr"):
        if node.func.id in ("max", "min"):
            yield put("max<->min", func=ast.Name("min" if node.func.id == "max" else "max", ast.Load()))
        elif node.args:
            yield f"drop {node.func.id}()", node.args[0]
            if node.func.id == "round":
                yield put("round->int", func=ast.Name("int", ast.Load()))
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("strip", "lower", "copy"):
        yield f"drop .{node.func.attr}()", node.func.value


def mutants(fname):
    text = open(os.path.join(SRC, fname)).read()
    tree = ast.parse(text)
    seen = {ast.unparse(tree)}
    todo = []

    def visit(parent, field, idx, node):
        todo.append((parent, field, idx, node))
        for f, v in ast.iter_fields(node):
            if isinstance(v, list):
                for k, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        visit(node, f, k, x)
            elif isinstance(v, ast.AST):
                visit(node, f, None, v)
    visit(None, None, None, tree)
    for parent, field, idx, node in todo:
        if parent is None or not hasattr(node, "lineno"):
            continue
        if isinstance(parent, ast.JoinedStr) or isinstance(parent, ast.FormattedValue):
            continue
        if fname == "colors.py" and node.lineno > 66:      # the table of names: each is checked
            continue
        for desc, new in list(variants(node)):
            old = getattr(parent, field)
            if idx is None:
                setattr(parent, field, new)
            else:
                old = list(old)
                getattr(parent, field)[idx] = new
            try:
                s = ast.unparse(tree)
            except Exception:
                s = None
            setattr(parent, field, old)
            if s and s not in seen:
                seen.add(s)
                yield {"file": fname, "line": node.lineno, "desc": desc, "src": text.splitlines()[node.lineno - 1].strip()[:100], "text": s,
                       "id": hashlib.sha1((fname + s).encode()).hexdigest()[:10]}


def survives(m, unit):
    w = tempfile.mkdtemp(prefix="mutant-")
    try:
        shutil.copytree("/repo/src", os.path.join(w, "src"), ignore=shutil.ignore_patterns("__pycache__", "*.egg-info"))
        with open(os.path.join(w, "src", "colosseum", m["file"]), "w") as f:
            f.write(m["text"])
        env = dict(os.environ, PYTHONPATH=os.path.join(w, "src"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
        quick = ["tests/test_color.py", "tests/test_declaration.py", "tests/test_dimensions.py", "tests/test_parser.py", "tests/test_shapes.py", "tests/test_units.py", "tests/test_validators.py", "tests/test_wrappers.py", "tests/engine"]
        for sel in [quick if unit else []]:
            try:
                p = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"] + sel, cwd="/repo", env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=120)
            except subprocess.TimeoutExpired:
                return False
            if p.returncode:
                return False
        return True
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    work, what = sys.argv[1], sys.argv[2]
    os.makedirs(work, exist_ok=True)
    if what == "count":
        for f in FILES:
            print(f, sum(1 for _ in mutants(f)))
    else:
        import mutant_judge
        mutant_judge.main(work, int(sys.argv[3]), sys.argv[5:], float(sys.argv[4]))
