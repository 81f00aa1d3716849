"""mutate.py gen N SEED OUTDIR [file-substrings...] | test OUTDIR | check OUTDIR: small random changes of the code under test, those that
the repository's tests let pass, and which checks notice them (development tool, used by no check)."""
import ast, collections, copy, glob, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo/yaocptool/"
SW = {"x_min": "x_max", "x_max": "x_min", "y_min": "y_max", "y_max": "y_min", "u_min": "u_max", "u_max": "u_min", "n_x": "n_y", "n_y": "n_x",
      "n_u": "n_u_par", "n_u_par": "n_u", "t_0": "t_f", "t_f": "t_0", "size1": "size2", "horzcat": "vertcat", "vertcat": "horzcat", "p": "theta",
      "n_p": "n_theta", "n_theta": "n_p", "x": "y", "y": "x", "u": "u_par", "u_par": "u", "lb": "ub", "ub": "lb", "degree": "degree_control",
      "degree_control": "degree", "delta_u_min": "delta_u_max", "delta_u_max": "delta_u_min", "x_guess": "x_0", "theta_opt_min": "theta_opt_max",
      "p_opt_min": "p_opt_max", "numel": "size1", "inf": "0", "append": "extend", "max": "min", "min": "max", "any": "all", "all": "any", "ode": "alg", "alg": "ode"}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
       ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}

def variants(node):
    """(kind, replacement text) for one node"""
    n = copy.deepcopy(node)
    u = ast.unparse
    if isinstance(node, ast.Compare) and type(n.ops[0]) in CMP:
        n.ops[0] = CMP[type(n.ops[0])](); yield "cmp", "(%s)" % u(n)
    elif isinstance(node, ast.BoolOp):
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); yield "bool", "(%s)" % u(n)
        for i in range(len(node.values)):
            m = copy.deepcopy(node); del m.values[i]; yield "drop-cond", "(%s)" % u(m if len(m.values) > 1 else m.values[0])
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
        yield "unary", "(%s)" % u(n.operand)
    elif isinstance(node, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)) and not isinstance(n.left, ast.JoinedStr):
        n.op = BIN[type(n.op)](); yield "bin", "(%s)" % u(n)
        yield "bin-left", "(%s)" % u(node.left); yield "bin-right", "(%s)" % u(node.right)
    elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
        yield "const", str(not node.value)
    elif isinstance(node, ast.Constant) and isinstance(node.value, int):
        yield "const", str(node.value + 1)
        if node.value: yield "const", str(node.value - 1)
    elif isinstance(node, ast.Attribute) and node.attr in SW and SW[node.attr] != "0":
        n.attr = SW[node.attr]; yield "attr", u(n)
    elif isinstance(node, ast.Name) and node.id in SW and isinstance(node.ctx, ast.Load):
        yield "name", SW[node.id]
    elif isinstance(node, ast.IfExp):
        yield "ifexp", "(%s)" % u(node.body); yield "ifexp", "(%s)" % u(node.orelse)
    elif isinstance(node, ast.Call):
        f = u(node.func)
        if f.split(".")[-1] in ("ValueError", "Exception", "warn", "print", "format", "NotImplementedError"): return
        for i in range(len(node.keywords)):
            m = copy.deepcopy(node); del m.keywords[i]; yield "drop-kw", u(m)
        if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args):
            m = copy.deepcopy(node); m.args[0], m.args[1] = m.args[1], m.args[0]; yield "swap-args", u(m)
        if len(node.args) == 1 and f.split(".")[-1] in ("deepcopy", "copy", "list", "dict", "DM", "reversed", "sorted", "vec", "abs", "fabs"):
            yield "drop-call", "(%s)" % u(node.args[0])
        if not node.args and isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "T"):
            yield "drop-call", "(%s)" % u(node.func.value)

def candidates(rel, lines):
    src = open(R + rel).read(); tree = ast.parse(src)
    off = [0]
    for l in src.splitlines(True): off.append(off[-1] + len(l.encode()))
    b = src.encode()
    out = []
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.Assert)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, (ast.FunctionDef,)):
            for m in (n.returns,) + tuple(a.annotation for a in n.args.args):
                if m is not None: skip.update(id(k) for k in ast.walk(m))
        if isinstance(n, ast.AnnAssign): skip.update(id(k) for k in ast.walk(n.annotation))
    for n in ast.walk(tree):
        if id(n) in skip or not hasattr(n, "lineno"): continue
        if not any(l in lines for l in range(n.lineno, n.end_lineno + 1)) or n.lineno not in lines: continue
        s, e = off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset
        if isinstance(n, ast.stmt):
            if (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)) or isinstance(n, (ast.AugAssign, ast.Delete)) or \
               (isinstance(n, ast.Assign) and not isinstance(n.targets[0], (ast.Name, ast.Tuple))):
                out.append(("del", n.lineno, s, e, "pass"))
            if isinstance(n, (ast.Continue, ast.Break)): out.append(("del", n.lineno, s, e, "pass"))
            if isinstance(n, ast.If):
                t = n.test
                ts, te = off[t.lineno - 1] + t.col_offset, off[t.end_lineno - 1] + t.end_col_offset
                out.append(("if-true", n.lineno, ts, te, "True")); out.append(("if-false", n.lineno, ts, te, "False"))
            continue
        for kind, txt in variants(n):
            out.append((kind, n.lineno, s, e, txt))
    res = []
    for kind, line, s, e, txt in out:
        new = b[:s] + txt.encode() + b[e:]
        try: compile(new, rel, "exec")
        except SyntaxError: continue
        if new != b: res.append(dict(file=rel, kind=kind, line=line, old=b[s:e].decode(), new=txt, text=new.decode()))
    return res

def gen(n, seed, out, subs):
    cov = collections.defaultdict(set)
    for f in glob.glob("/tmp/w/cov/*.lines.json"):
        for k, v in json.load(open(f)).items(): cov[k].update(v)
    os.makedirs(out, exist_ok=True)
    c = []
    for rel, lines in sorted(cov.items()):
        if subs and not any(s in rel for s in subs): continue
        c += candidates(rel, lines)
    print("candidates", len(c))
    rnd = random.Random(int(seed)); rnd.shuffle(c)
    # one per (file, line) first, so that the sample spreads
    seen, a, b = set(), [], []
    for m in c:
        (b if (m["file"], m["line"]) in seen else a).append(m); seen.add((m["file"], m["line"]))
    for i, m in enumerate((a + b)[: int(n)]):
        json.dump(dict(m, id=i), open("%s/m%04d.json" % (out, i), "w"))

def with_copy(m, fn):
    w = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        open(w + "/repo/yaocptool/" + m["file"], "w").write(m["text"])
        return fn(w)
    finally:
        shutil.rmtree(w, ignore_errors=True)

def test(out):
    def one(f):
        m = json.load(open(f))
        if "tests" in m: return
        def go(w):
            try:
                r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=60", "tests"], cwd=w + "/repo", capture_output=True,
                               text=True, timeout=200, env=dict(os.environ, PYTHONPATH=w + "/repo", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLCONFIGDIR="/tmp/w/mplc"))
                return "170 passed" in r.stdout
            except subprocess.TimeoutExpired:
                return False
        m["tests"] = with_copy(m, go)
        json.dump(m, open(f, "w"))
    with ThreadPoolExecutor(8) as ex: list(ex.map(one, sorted(glob.glob(out + "/m*.json"))))
    ms = [json.load(open(f)) for f in glob.glob(out + "/m*.json")]
    print("pass the tests:", sum(m["tests"] for m in ms), "of", len(ms))

MAP = [("modelling/mixins", "C01 C02 C03 C04 C05"), ("modelling/system_model", "C01 C02 C03 C04 C06 C05 C07"), ("modelling/dae_system", "C05 C06 C13"), ("modelling/dataset", "C17 C15"),
       ("modelling/simulation", "C05 C17"), ("modelling/ocp", "C11 C12 C04 C05 C13 C15"), ("modelling/network", "C12 C20"), ("modelling/utils", "C02"),
       ("optimization", "C09 C10 C18"), ("util/util", "C08 C07 C18"), ("util", "C18"), ("methods/classic/coll", "C13 C15 C16 C14"), ("methods/classic/mult", "C13 C15 C16"),
       ("methods/classic/ind", "C14"), ("methods/classic/dir", "C13 C16"), ("methods/aug", "C19 C20"), ("methods/network", "C20"), ("mpc/", "C21"), ("estimation/", "C22 C21"), ("stochastic/", "C22 C23"),
       ("methods/base/opt", "C15 C13"), ("methods/base", "C13 C15 C16 C14"), ("mpc", "C21"), ("estim", "C22"), ("stoch", "C23"), ("", "C01 C05 C13")]
def check(out, par=4):
    covs = {}
    for f in glob.glob("/tmp/w/cov/*.lines.json"):
        covs[os.path.basename(f)[:3]] = {k: set(v) for k, v in json.load(open(f)).items()}
    def one(f):
        m = json.load(open(f))
        if not m.get("tests") or "caught" in m: return
        first = next(b for a, b in MAP if a in m["file"]).split()
        props = [p for p in first + [q for q in sorted(covs) if q not in first] if p in covs and m["line"] in covs[p].get(m["file"], ())]
        def go(w):
            for p in props:
                if p in m.get("ran", []): continue
                r = subprocess.run(["/opt/venv/bin/python", "-m", "vfw.run", p, "-j", "2"], cwd=V, capture_output=True, text=True,
                                   env=dict(os.environ, VERIF_REPO=w + "/repo", VERIF_OUT=w + "/out", VERIF_STOP="1"))
                if r.returncode == 1: return p
            return None
        m["caught"] = with_copy(m, go); m["props"] = props
        json.dump(m, open(f, "w"))
        if not m["caught"]: print("SURVIVES %s %s:%d %s: %r -> %r" % (os.path.basename(f), m["file"], m["line"], m["kind"], m["old"][:100], m["new"][:100]), flush=True)
    with ThreadPoolExecutor(par) as ex: list(ex.map(one, sorted(glob.glob(out + "/m*.json"))))
    ms = [m for m in (json.load(open(f)) for f in glob.glob(out + "/m*.json")) if m.get("tests")]
    print("caught", sum(bool(m.get("caught")) for m in ms), "of", len(ms), collections.Counter(m.get("caught") for m in ms))

if __name__ == "__main__":
    a = sys.argv
    {"gen": lambda: gen(a[2], a[3], a[4], a[5:]), "test": lambda: test(a[2]), "check": lambda: check(a[2])}[a[1]]()
