"""World D: the parallel loops of py_fatigue's kernels over simulated workers.

`for i in prange(n): body` becomes a generator function that executes `body`
for the indices one worker got, giving up control before every statement and
between computing a value and storing it in an array.  As in the compiled code
every worker has its own copy of the scalars, arrays are shared, and scalars
accumulated with +=, *=, min or max are combined at the end.

Kernels are found by what they do (a function of py_fatigue with a prange
loop), not by name; one that cannot be transformed is left as it is."""
import ast
import inspect
import sys
import textwrap
import types

_STATE = {"sched": None, "log": None}
_OPS = {ast.Add: "+", ast.Sub: "+", ast.Mult: "*"}


class Untransformable(Exception):
    pass


def _is_prange(node):
    if not isinstance(node, ast.Call):
        return False
    f = node.func
    return (isinstance(f, ast.Attribute) and f.attr == "prange") or (isinstance(f, ast.Name) and f.id == "prange")


def _stored(body):
    out = set()
    for n in body:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
            elif isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal)):
                raise Untransformable(type(x).__name__)
    return out


def _reductions(body):
    """{name: operation} of scalars accumulated in the loop."""
    out = {}
    for n in body:
        for x in ast.walk(n):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and type(x.op) in _OPS:
                out[x.target.id] = _OPS[type(x.op)]
            elif (isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)
                  and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id in ("min", "max")
                  and any(isinstance(a, ast.Name) and a.id == x.targets[0].id for a in x.value.args)):
                out[x.targets[0].id] = x.value.func.id
    return out


class _Steps(ast.NodeTransformer):
    """Yields before statements, and between computing and storing."""

    def __init__(self):
        self.k = 0

    def block(self, stmts):
        out = []
        for s in stmts:
            out.append(ast.Expr(ast.Yield(None)))
            out += self.one(s)
        return out

    def tmp(self):
        self.k += 1
        return f"_sim_tmp{self.k}"

    def one(self, s):
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Subscript) for t in s.targets):
            n = self.tmp()
            return [ast.Assign([ast.Name(n, ast.Store())], s.value), ast.Expr(ast.Yield(None)),
                    ast.Assign(s.targets, ast.Name(n, ast.Load()))]
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Subscript):
            n = self.tmp()
            load = ast.Subscript(s.target.value, s.target.slice, ast.Load())
            return [ast.Assign([ast.Name(n, ast.Store())], ast.BinOp(load, s.op, s.value)), ast.Expr(ast.Yield(None)),
                    ast.Assign([s.target], ast.Name(n, ast.Load()))]
        for f in ("body", "orelse", "finalbody"):
            b = getattr(s, f, None)
            if isinstance(b, list) and b and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                setattr(s, f, self.block(b))
        return [s]


class _Loops(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_For(self, node):
        if not _is_prange(node.iter):
            return self.generic_visit(node)
        if not isinstance(node.target, ast.Name) or node.orelse:
            raise Untransformable("loop form")
        k = self.n
        self.n += 1
        red = _reductions(node.body)
        private = sorted(_stored(node.body) - {node.target.id})
        init = [ast.parse(f"if {p!r} in _first: {p} = _sim_init({red.get(p)!r}, _first[{p!r}])").body[0] for p in private]
        loop = ast.For(node.target, ast.Name("_its", ast.Load()), _Steps().block(node.body), [])
        ret = ast.parse("return {" + ", ".join(f"{p!r}: {p}" for p in private if p in red) + "}").body[0]
        if any(p in red for p in private):
            # a worker without iterations, or names not defined before, have nothing to give
            ret = ast.parse("return {k: v for k, v in locals().items() if k in " + repr(sorted(red)) + "}").body[0]
        fn = ast.parse(f"def _sim_loop{k}(_its, _first):\n    if False: yield").body[0]
        fn.body += init + [loop, ret]
        call = ast.parse(f"_sim_res = _sim_run(_sim_loop{k}, (0,), dict(locals()))").body[0]
        call.value.args[1] = ast.Tuple(node.iter.args, ast.Load())
        out = [fn, call]
        for p in sorted(red):
            out.append(ast.parse(f"if {p!r} in locals(): {p} = _sim_reduce({red[p]!r}, {p}, [r[{p!r}] for r in _sim_res if {p!r} in r])").body[0])
        return out


def _init(op, value):
    import numpy as np

    if op == "+":
        return np.zeros_like(value) if isinstance(value, np.ndarray) else 0
    if op == "*":
        return np.ones_like(value) if isinstance(value, np.ndarray) else 1
    return value


def _reduce(op, value, parts):
    for p in parts:
        value = value + p if op == "+" else value * p if op == "*" else (min if op == "min" else max)(value, p)
    return value


def _run(loop, args, first):
    """Divide range(*args) over the planned workers and interleave them."""
    its = list(range(*[int(a) for a in args]))
    s = _STATE["sched"]
    k = s["workers"]
    if s["split"] == "chunks":
        cuts = sorted(min(len(its), int(c * (len(its) + 1))) for c in s["cuts"][:k - 1])
        cuts = [0] + cuts + [len(its)]
        parts = [its[a:b] for a, b in zip(cuts, cuts[1:])]
    elif s["split"] == "even":
        q = -(-len(its) // k) or 1
        parts = [its[i:i + q] for i in range(0, len(its), q)]
    elif s["split"] == "cyclic":
        parts = [its[i::k] for i in range(k)]
    else:  # every worker takes some, in its own order
        parts = [[] for _ in range(k)]
        for i in its:
            parts[int(s["cuts"][i % len(s["cuts"])] * k) % k].append(i)
        parts = [p[::-1] if j % 2 else p for j, p in enumerate(parts)]
    gens = [loop(p, first) for p in parts]
    out = [{} for _ in gens]
    alive = list(range(len(gens)))
    n, switches, last = 0, 0, None
    picks, burst = s["picks"], s["burst"]
    while alive:
        j = alive[int(picks[n % len(picks)] * len(alive)) % len(alive)] if s["how"] == "random" else alive[n % len(alive)]
        n += 1
        if j != last:
            switches += 1
            last = j
        for _ in range(burst):
            try:
                next(gens[j])
            except StopIteration as e:
                out[j] = e.value or {}
                alive.remove(j)
                break
    _STATE["log"].append((len(its), [len(p) for p in parts], switches))
    return out


def transform(fn):
    """The function with its prange loops run by _run, or None."""
    if not isinstance(fn, types.FunctionType) or fn.__closure__:
        return None
    try:
        src = textwrap.dedent(inspect.getsource(fn))
        tree = ast.parse(src)
        node = tree.body[0]
        if not isinstance(node, ast.FunctionDef) or not any(_is_prange(x) for x in ast.walk(node)):
            return None
        for d in node.decorator_list:
            d = d.func if isinstance(d, ast.Call) else d
            if (d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "")) not in ("njit", "jit"):
                return None
        node.decorator_list = []
        lo = _Loops()
        node = lo.visit(node)
        if not lo.n:
            return None
        tree.body = [node]
        ast.fix_missing_locations(tree)
        ns = dict(fn.__globals__, _sim_run=_run, _sim_init=_init, _sim_reduce=_reduce)
        exec(compile(tree, fn.__code__.co_filename, "exec"), ns)  # pylint: disable=exec-used
        return ns[node.name]
    except (Untransformable, SyntaxError, OSError, TypeError, IndexError, KeyError):
        return None


_found = None


def found():
    """[(module, attribute, original, transformed)] over py_fatigue."""
    global _found
    if _found is None:
        _found, made = [], {}
        for name in sorted(m for m in sys.modules if m.startswith("py_fatigue")):
            mod = sys.modules[name]
            for k, v in sorted(vars(mod).items()):
                if isinstance(v, types.FunctionType) and (v.__module__ or "").startswith("py_fatigue"):
                    if v not in made:
                        made[v] = transform(v)
                    if made[v] is not None:
                        _found.append((mod, k, v, made[v]))
    return _found


class split:
    """While active, parallel loops follow the schedule; `loops` says how."""

    def __init__(self, sched):
        self.sched, self.loops = sched, []

    def __enter__(self):
        _STATE["sched"], _STATE["log"] = self.sched, self.loops
        for mod, k, _v, t in found():
            setattr(mod, k, t)
        return self

    def __exit__(self, *exc):
        for mod, k, v, _t in found():
            setattr(mod, k, v)
        _STATE["sched"] = _STATE["log"] = None
        return False


def gen_schedule(rng):
    return {"workers": rng.choice([1, 2, 2, 3, 4, 4, 8, 13]), "split": rng.choice(["chunks", "even", "cyclic", "scatter"]),
            "cuts": [round(rng.random(), 3) for _ in range(rng.choice([3, 13]))], "how": rng.choice(["random", "random", "turns"]),
            "picks": [round(rng.random(), 3) for _ in range(rng.choice([1, 5, 17, 64]))], "burst": rng.choice([1, 1, 1, 2, 5, 1000])}
