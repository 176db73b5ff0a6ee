"""Mutation campaign (development only): small syntactic changes of the code under test, each run
against the quick checks until one of them reports a violation.  Survivors are printed for review.

    python tools/mutate.py FILE[,FILE..] COUNT SEED OUT.jsonl [workers per check]

With MUT_GUARD=1 the change acts only under a randomly chosen condition (size of the register, order of
the wires, size or sign of an angle, batch size, memory layout, gradient mode), elsewhere the original runs.
"""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "deepquantum/gates/"
ORDER = {
    G + "qoperator.py": "C01 C05 C04 C10 C23 C24 C09 C13 C06 C03 C11 C12 C22 C14 C26",
    G + "qcircuit.py": "C03 C14 C11 C12 C24 C23 C22 C04 C05 C13 C26",
    G + "qmath.py": "C15 C16 C17 C13 C01 C22 C02",
    G + "qtensornetwork.py": "C07 C08 C04 C12 C22 C14 C23",
    G + "qgate.py": "C20 C26",
    "deepquantum/layers/qlayers.py": "C02 C05 C04 C10 C23 C24 C09 C13 C06 C03 C11 C12 C22 C14 C26",
    "deepquantum/layers/qlayer.py": "C21",
    "deepquantum/embeddings/qembedding.py": "C18 C24 C23",
    "deepquantum/embeddings/qstate.py": "C18",
    "deepquantum/nn/modules/quanv.py": "C19 C26",
}


def sites(tree):
    """-> list of (description, function(tree copy node) mutating in place)."""
    out = []
    for path, node in walk(tree, ()):
        def add(what, f, path=path):
            out.append((what, getattr(node, "lineno", 0), path, f))
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            o = node.ops[0]
            alt = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
                   ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}.get(type(o), [])
            for a in alt:
                add("compare %s->%s" % (type(o).__name__, a.__name__), lambda n, a=a: setattr(n, "ops", [a()]))
        elif isinstance(node, ast.BinOp):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.MatMult: None, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv,
                   ast.Pow: ast.Mult}.get(type(node.op))
            if alt:
                add("binop %s->%s" % (type(node.op).__name__, alt.__name__), lambda n, a=alt: setattr(n, "op", a()))
            if isinstance(node.op, ast.MatMult):
                add("swap matmul", swap)
            if isinstance(node.op, ast.Add) and isinstance(node.right, ast.Constant) and node.right.value == 0j:
                out.pop()
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            add("drop minus", lambda n: setattr(n, "op", ast.UAdd()))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            add("drop not", lambda n: (setattr(n, "op", ast.Not()), setattr(n, "operand", ast.UnaryOp(ast.Not(), n.operand))))
        elif isinstance(node, ast.Constant) and type(node.value) in (int, float, bool, complex):
            v = node.value
            for w in ([not v] if isinstance(v, bool) else [v + 1, v - 1] if isinstance(v, int) else [v * 2, v + 1e-3]):
                add("constant %r->%r" % (v, w), lambda n, w=w: setattr(n, "value", w))
        elif isinstance(node, ast.BoolOp):
            add("and/or", lambda n: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And()))
            for i in range(len(node.values)):
                add("drop operand %d" % i, lambda n, i=i: n.values.pop(i) if len(n.values) > 1 else None)
        elif isinstance(node, ast.If):
            add("if True", lambda n: setattr(n, "test", ast.Constant(True)))
            add("if False", lambda n: setattr(n, "test", ast.Constant(False)))
        elif isinstance(node, ast.Call):
            if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args):
                add("swap arguments", lambda n: n.args.__setitem__(slice(0, 2), n.args[:2][::-1]))
            if node.keywords:
                add("drop keyword", lambda n: n.keywords.pop())
            if isinstance(node.func, ast.Attribute) and not node.args and node.func.attr in ("conj", "clone", "detach", "t", "squeeze", "sort", "copy"):
                add("drop .%s()" % node.func.attr, "drop")
        elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            if node.slice.upper is not None:
                add("slice upper-1", lambda n: setattr(n.slice, "upper", ast.BinOp(n.slice.upper, ast.Sub(), ast.Constant(1))))
            if node.slice.lower is not None:
                add("slice lower+1", lambda n: setattr(n.slice, "lower", ast.BinOp(n.slice.lower, ast.Add(), ast.Constant(1))))
        elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Raise)) or (isinstance(node, ast.Expr) and isinstance(node.value, ast.Call)):
            if "print" not in ast.unparse(node)[:6]:
                add("delete statement", "delete")
        elif isinstance(node, (ast.Break, ast.Continue)):
            add("delete statement", "delete")
        elif isinstance(node, ast.Return) and node.value is not None and isinstance(node.value, ast.BinOp):
            add("return left operand", lambda n: setattr(n, "value", n.value.left))
    return out


def swap(n):
    n.left, n.right = n.right, n.left


def walk(node, path):
    yield path, node
    for f, v in ast.iter_fields(node):
        if isinstance(v, list):
            for i, x in enumerate(v):
                if isinstance(x, ast.AST):
                    for y in walk(x, path + ((f, i),)):
                        yield y
        elif isinstance(v, ast.AST):
            for y in walk(v, path + ((f, None),)):
                yield y


def at(tree, path):
    n = tree
    for f, i in path:
        n = getattr(n, f) if i is None else getattr(n, f)[i]
    return n


def put(tree, path, new):
    p = at(tree, path[:-1])
    f, i = path[-1]
    if i is None:
        setattr(p, f, new)
    else:
        getattr(p, f)[i] = new


GUARDS = {
    "self": ["self.nqubits >= 6", "self.nqubits >= 7", "self.nqubits == 5", "self.nqubits == 1", "list(self.wires)[0] == self.nqubits - 1", "self.wires == self.nqubits - 1 and self.nqubits > 3",
             "list(self.wires) != sorted(self.wires) and self.nqubits >= 4", "max(self.wires) - min(self.wires) >= 3", "len(self.wires) >= 4",
             "not torch.is_grad_enabled()", "len(self.gate) >= 6", "len(self.gate) == 1"],
    "params": ["float(torch.as_tensor(self.params).abs().max()) > 3.2", "bool((torch.as_tensor(self.params) == 0).any())", "bool((torch.as_tensor(self.params) < 0).all())",
               "torch.as_tensor(self.params).requires_grad", "not torch.as_tensor(self.params).is_leaf"],
    "MPS": ["MPS.shape[0] >= 4 and batch_mod", "batch_mod and MPS.shape[0] == 1", "not MPS.is_contiguous()", "MPS.requires_grad", "MPS[0].shape[2] == 1", "max(x.shape[0] for x in [y[0] for y in MPS]) >= 4"],
    "wires": ["list(wires) != sorted(wires)", "len(wires) >= 4", "len(wires) == N", "max(wires) - min(wires) >= 3", "wires == N - 1 and N > 3"],
    "theta": ["abs(float(theta)) > 3.2", "float(theta) == 0", "torch.is_tensor(theta) and theta.requires_grad"],
    "params_lst": ["max(abs(float(x)) for x in params_lst) > 3.2", "len(params_lst) > 9", "any(float(x) == 0 for x in params_lst)", "not torch.is_tensor(params_lst)"],
    "target_qubit": ["target_qubit == self.n_qubits - 1 and self.n_qubits > 2", "self.n_qubits >= 5", "len(self.u) >= 6", "self.n_qubits == 1"],
    "U": ["N >= 5", "N == 2"], "left_to_right": ["len(self.u) >= 6", "len(self.gate) >= 8", "self.nqubits >= 6", "self.n_qubits >= 5"],
    "x": ["x.shape[0] > 3", "x.requires_grad", "x.shape[-1] == x.shape[-2]", "x.shape[-1] > 5", "not x.is_contiguous()"],
    "N": ["N >= 6", "N == 5", "N >= 7", "N == 1", "N == 2"],
    "rho": ["N >= 5", "len(trace_lst) >= 3", "rho.requires_grad", "0 in trace_lst and N - 1 in trace_lst"],
    "n_qubit": ["n_qubit >= 6", "n_qubit == 1"],
    "psi": ["N >= 6", "N == 1", "psi.requires_grad"],
    "tensor": ["tensor.shape[-1] >= 4", "tensor.shape[-1] == 1", "tensor.shape[-2] > tensor.shape[-1]"],
}


DIRECT = {"TN_operation": "C04 C12", "TN_contract": "C05 C06 C13", "U_expand": "C01 C02 C13", "operation_dagger": "C09 C12", "params_update": "C10 C11 C13",
          "info": "C24", "label_init": "C24", "__init__": "C01 C02 C10 C24 C23", "check_wires": "C23", "check_params": "C23", "lst2tensor": "C10 C13"}


def guarded(tree, path, mutated, rng):
    """The statement around the mutated node, mutated only under a condition -> description or None."""
    k = max((i for i in range(1, len(path) + 1) if isinstance(at(tree, path[:i]), ast.stmt)), default=0)
    fun = [at(tree, path[:i]) for i in range(1, k) if isinstance(at(tree, path[:i]), ast.FunctionDef)]
    if not fun or isinstance(at(tree, path[:k]), ast.FunctionDef):
        return None
    names = [a.arg for a in fun[-1].args.args]
    if fun[-1].name == "__init__":
        names.remove("self")
    pool = [g for n in names + (["params"] if "self" in names else []) for g in GUARDS.get(n, [])]
    own = [at(tree, path[:i]) for i in range(1, k) if isinstance(at(tree, path[:i]), ast.ClassDef)]
    body = ast.unparse(own[-1]) if own else ""
    pool = [g for g in pool if all(a + " =" in body for a in ("self.params", "self.nqubits", "self.n_qubits", "self.gate", "self.u", "self.wires") if a in g.replace("self.n_qubits", "")
                                   or (a == "self.n_qubits" and a in g)) or (own and own[-1].name == "SingleGateOperation")]
    if not pool:
        return None
    g = rng.choice(pool)
    new = ast.If(ast.parse("_guard(lambda: %s)" % g, mode="eval").body, [at(mutated, path[:k])], [at(tree, path[:k])])
    put(tree, path[:k], new)
    guarded.fun = fun[-1].name
    tree.body.append(ast.parse("def _guard(f):\n    try:\n        return bool(f())\n    except Exception:\n        return False").body[0])
    return g


def main(files, count, seed, out, workers="4"):
    rng = random.Random(seed)
    w = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    subprocess.check_call(["cp", "-a", "/repo", w + "/repo"])
    subprocess.check_call(["cp", "-a", "/repo/deepquantum", w + "/deepquantum"])
    os.mkdir(w + "/orig")
    os.rename(w + "/deepquantum", w + "/orig/deepquantum")
    todo = []
    for f in files:
        src = open(w + "/orig/" + f, encoding="utf-8").read()
        tree = ast.parse(src)
        for s in sites(tree):
            top = tree.body[s[2][0][1]] if s[2] and s[2][0][0] == "body" else None
            if isinstance(top, ast.If) or isinstance(top, (ast.Import, ast.ImportFrom)):      # the __main__ blocks
                continue
            todo.append((f, s))
    rng.shuffle(todo)
    done = 0
    env = dict(os.environ, VERIF_REPO=w + "/repo", VERIF_SEED="1", VERIF_FAILFAST="1", VERIF_WORKERS=workers, PYTHONDONTWRITEBYTECODE="1", VERIF_EVIDENCE=w)
    try:
        for f, (what, line, path, fn) in todo:
            if done >= count:
                break
            src = open(w + "/orig/" + f, encoding="utf-8").read()
            tree = ast.parse(src)
            base = ast.unparse(tree)
            node = at(tree, path)
            if fn == "delete":
                put(tree, path, ast.Pass())
            elif fn == "drop":
                put(tree, path, node.func.value)
            else:
                fn(node)
            if os.environ.get("MUT_GUARD"):
                orig = ast.parse(src)
                g = guarded(orig, path, tree, rng)
                if g is None:
                    continue
                tree, what = orig, what + " if " + g
            ast.fix_missing_locations(tree)
            try:
                new = ast.unparse(tree)
            except Exception:
                continue
            if new == base:
                continue
            open(w + "/repo/" + f, "w", encoding="utf-8").write(new)
            done += 1
            res = "SURVIVED"
            r = subprocess.run(["/opt/venv/bin/python", "-c", "import deepquantum, deepquantum.gates.qgate, deepquantum.layers.qlayer, deepquantum.nn.modules.quanv"],
                               cwd=w + "/repo", env=env, capture_output=True, text=True)
            if r.returncode:
                res = "import"
            else:
                order = ORDER[f].split()
                if os.environ.get("MUT_GUARD") and f.endswith(("qoperator.py", "qlayers.py")):      # the checks nearest to the method
                    order = [c for c in DIRECT.get(guarded.fun, ORDER[f]).split() if c != ("C02" if "qoperator" in f else "C01")]
                for c in order:
                    try:
                        r = subprocess.run([VERIF + "/check", c, "quick"], cwd=VERIF, env=env, capture_output=True, text=True, timeout=400)
                        if r.returncode == 1:
                            res = c
                            break
                        if r.returncode == 2:
                            res = c + "?"
                    except subprocess.TimeoutExpired:
                        res = c + " timeout"
                        break
            diff = [(a, b) for a, b in zip(base.splitlines(), new.splitlines()) if a != b][:2 if os.environ.get("MUT_GUARD") else 1]
            open(out, "a").write(json.dumps({"file": f, "line": line, "what": what, "res": res, "diff": diff}) + "\n")
            if res == "SURVIVED" or "?" in res or "timeout" in res:
                print(res, f, line, what, diff, flush=True)
            open(w + "/repo/" + f, "w", encoding="utf-8").write(src)
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    a = sys.argv[1:]
    main([G + x if "/" not in x else x for x in a[0].split(",")] if a[0] != "all" else list(ORDER), int(a[1]), int(a[2]), *a[3:])
