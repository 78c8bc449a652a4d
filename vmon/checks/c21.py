"""C21: path finding and custom backends work without NumPy."""
import json
import os
import subprocess
import sys

import numpy as np
import opt_einsum as oe

from .. import boot, gen, oracle, strategies
from ..core import VERIF, Family, Violation

RULE = "distinct (structure, sizes, strategy, backend) searched and contracted in a process in which no array library can be imported"
ASSUMPTIONS = ["array libraries are made unavailable by an import hook raising ModuleNotFoundError",
               "the array libraries meant are NumPy, torch, tensorflow, jax, dask, sparse, autograd, cupy, theano and mars; NumPy itself is imported if present"]
CHILD = os.path.join(VERIF, "vmon", "child_nonumpy.py")
BK = os.path.join(VERIF, "vmon", "bk")


def child(mode, cases, steps=()):
    env = dict(os.environ)
    r = subprocess.run([sys.executable, "-B", CHILD, boot.REPO, BK, mode], input=json.dumps({"cases": cases, "steps": list(steps)}),
                       capture_output=True, text=True, env=env, timeout=900)
    if r.returncode:
        if "harness" in r.stderr:
            raise RuntimeError(r.stderr[-500:])
        raise Violation(f"the process without array libraries ended with {r.returncode}: {r.stderr[-1500:]}")
    d = json.loads(r.stdout)
    if d["import"]:
        raise Violation(f"opt_einsum cannot be imported without array libraries: {d['import']}")
    if not boot.in_repo(d["file"]):
        raise RuntimeError(f"harness: child imported {d['file']}")
    return d


def tdable(con, path):
    """All steps are tensordots: two terms, every index on both and summed or on one and kept."""
    if con.ones:
        return False
    for t in con.terms:
        if len(set(t)) != len(t):
            return False
    for s in oracle.replay(con.terms, con.output, con.eff_sizes(), path):
        if len(s.pos) != 2:
            return False
        a, b = s.terms
        if (a & b) != s.removed:
            return False
    return True


def draw_case(rng, data):
    if data:
        con = gen.contraction(rng, 1, 5, budget=600, sizes=(1, 2, 2, 3), bcast=0.1, zero=0.03, maxrank=4)
    elif rng.random() < 0.25:
        con = gen.contraction(rng, 15, rng.choice((30, 60, 110)), budget=None, sizes=(1, 2, 3, 7, 64), bcast=0.05, maxlabels=300)
    else:
        con = gen.contraction(rng, 1, 10, budget=None, sizes=(1, 2, 3, 7, 64), bcast=0.05, maxlabels=60)
    sym = gen.symbols(rng, con, "mixed" if len(con.labels) > 52 else None)
    lim = rng.choice((None, None, None, -1, 4, "max_input")) if con.n <= 20 else None
    r = rng.random()
    if r < 0.3:
        opt = [list(p) for p in gen.random_path(rng, con.n)]
    else:
        opt = rng.choice(strategies.names_for(con.n, lim is not None))
        if con.n > 30 and rng.random() < 0.6:
            opt = rng.choice(("greedy", "eager", "auto", "auto-hq", "random-greedy"))
        if opt == "random-greedy-128" and con.n > 8:
            opt = "random-greedy"
    if 2 < con.n <= 30 and rng.random() < 0.3:
        while True:
            (cls, options), _ = strategies.optimizer(rng, con.n)
            if cls == "RandomGreedy":
                if rng.random() < 0.5:
                    options["max_time"] = 1e6
                options["parallel"] = False
            if cls == "RandomGreedy" or "jitter" not in options.get("cost_fn", ""):
                break
        opt = {"class": cls, "options": options}
    vals = None
    backend = "vpy"
    if data:
        g = gen.nprng(rng)
        vals = [np.asarray(g.integers(-3, 3, size=s, endpoint=True)).astype("int64") for s in con.shapes()]
    case = {"eq": con.eq(sym), "shapes": [list(s) for s in con.shapes()], "optimize": opt, "limit": lim,
            "data": [[int(x) for x in v.reshape(-1)] for v in vals] if data else None, "backend": backend,
            "constants": sorted(rng.sample(range(con.n), rng.randint(0, con.n))) if data else []}
    return con, sym, case, vals


def here(case):
    """The search with NumPy."""
    opt = case["optimize"]
    try:
        p, info = oe.contract_path(case["eq"], *[tuple(s) for s in case["shapes"]], shapes=True, memory_limit=case["limit"],
                                   optimize=[tuple(x) for x in opt] if isinstance(opt, list) else
                                   getattr(oe, opt["class"])(**opt["options"]) if isinstance(opt, dict) else opt)
    except RuntimeError as e:
        if case["limit"] not in (None, -1) and "memory_limit" in str(e):
            return ["error", "RuntimeError", str(e)[:300]]
        raise
    return [[list(map(int, x)) for x in p], str(info.opt_cost), str(info.naive_cost), str(info.largest_intermediate), str(info)]


def fam_block(rng, mon):
    todo = [draw_case(rng, rng.random() < 0.6) for _ in range(50)]
    refs = []
    for con, sym, case, vals in todo:
        ref = here(case)
        refs.append(ref)
        if vals is not None and ref[0] != "error" and rng.random() < 0.7 and tdable(con, ref[0]):
            case["backend"] = "vpytd"
    d = child("block", [t[2] for t in todo], ["oe.contract('ab,bc', [[1, 2]], [[3], [4]])", "oe.contract_path('ab,bc,cd', (2, 3), (4, 5), (5, 6), shapes=True)",
                                              "oe.contract_path('ab,bc->ad', (2, 3), (3, 5), shapes=True)", "value = oe.contract_path('ab,bc->ac', (2, 3), (3, 5), shapes=True)[0]"])
    for k in set(d["tried import"] + d["tried"]) - {"numpy"}:
        raise Violation(f"{k} was imported although no {k} array was used")
    mon.ev("processes without NumPy")
    for (con, sym, case, vals), ref, res in zip(todo, refs, d["cases"]):
        mon.describe(eq=case["eq"], shapes=case["shapes"], optimize=str(case["optimize"]), limit=case["limit"], backend=case["backend"])
        what = f"{case['eq']!r} {case['shapes']} optimize={case['optimize']} memory_limit={case['limit']}"
        if res["path"] != ref:
            raise Violation(f"contract_path({what}): {ref[:4]} with NumPy, {res['path'][:4]} without")
        mon.ev("searches compared")
        mon.sig(con.key(), str(case["optimize"]), case["limit"], case["backend"])
        if vals is None:
            if ref[0] != "error" and (not isinstance(res["expression text"], str)):
                raise Violation(f"contract_expression({what}) without NumPy: {res['expression text']}")
            continue
        if ref[0] == "error":
            bad = [k for k, v in res.items() if v[0] != "error" and not (k == "constants")]
            if bad:
                raise Violation(f"{what}: {bad} succeeded, the path search did not")
            continue
        if res["path arrays"] != ref:
            raise Violation(f"contract_path({what}) with arrays: {ref[:4]} with NumPy, {res['path arrays'][:4]} without")
        if all(v.size for v in vals) and res["path nested"] != ref:
            raise Violation(f"contract_path({what}) with nested sequences: {ref[:4]} with NumPy, {res['path nested'][:4]} without")
        want = oracle.einsum(con.terms, con.output, vals)
        exp = [list(want.shape), [int(x) for x in want.reshape(-1)], case["backend"]]

        def same(name, got):
            if got != exp:
                raise Violation(f"{name}({what}) with {case['backend']} arrays and without NumPy: {str(got)[:400]}, expected {exp}")

        same("contract", res["contract"])
        if res["expression"][0] == "error":
            raise Violation(f"expression({what}) without NumPy: {res['expression']}")
        same("expression", res["expression"][0])
        same("expression, again", res["expression"][1])
        for key in ("constants", "shared"):
            if key in res:
                if res[key][0] == "error":
                    raise Violation(f"{key}({what}) without NumPy: {res[key]}")
                for v in res[key]:
                    same(key, v)
        mon.ev("contractions with " + case["backend"])
    s = d["steps"]
    if not s[0].get("error") or not s[1].get("error") or not s[2].get("error"):
        raise Violation(f"without NumPy, an impossible or malformed contraction gave {s[:3]}")
    if s[3].get("error"):
        raise Violation(f"without NumPy, a search after rejected ones: {s[3]}")
    mon.sample({"eq": todo[0][2]["eq"], "strategy": str(todo[0][2]["optimize"])})


USES = {
    "numpy": ("import numpy as np\nx = np.arange(6).reshape(2, 3)\noe.contract('ab,cb,ad->cd', x, x, x)\n"
              "e = oe.contract_expression('ab,cb,ad->cd', x, x.shape, x.shape, constants=[0]); e(x, x); e(x, x)\n"
              "oe.contract('ab,bc', x.astype(object), x.T.astype(object))\n"
              "with oe.shared_intermediates(): oe.contract('ab,cb,ad->cd', x, x, x)", {"numpy"}),
    "lists": ("oe.contract('ab,bc', [[1, 2]], [[3], [4]])", {"numpy"}),
    "paths": ("for s in ('auto', 'auto-hq', 'dp', 'optimal', 'random-greedy', 'branch-2', 'greedy'): "
              "oe.contract_path('ab,bc,cd,de', (2, 3), (3, 4), (4, 5), (5, 6), shapes=True, optimize=s)", set()),
    "optimizers": ("for o in (oe.RandomGreedy(max_repeats=3, max_time=1000.0, parallel=False), oe.RandomGreedy(max_repeats=3, minimize='size', temperature=0.0), "
                   "oe.BranchBound(nbranch=2, minimize='size'), oe.DynamicProgramming(minimize='combo', search_outer=True)): "
                   "oe.contract_path('ab,bc,cd,de', (2, 3), (3, 4), (4, 5), (5, 6), shapes=True, optimize=o)", set()),
    "parallel": ("from concurrent.futures import ThreadPoolExecutor\nwith ThreadPoolExecutor(2) as p: "
                 "oe.contract_path('ab,bc,cd,de', (2, 3), (3, 4), (4, 5), (5, 6), shapes=True, optimize=oe.RandomGreedy(max_repeats=4, parallel=p))", set()),
    "names": ("value = ''.join(map(oe.get_symbol, range(200)))\noe.parser.gen_unused_symbols('abc', 30)\noe.helpers.compute_size_by_dict('ab', {'a': 2, 'b': 3})", set()),
    "vpy": ("import vpy\nx = vpy.Arr((2, 2), [1, 2, 3, 4])\noe.contract('ab,bc,cd', x, x, x)\noe.contract_expression('ab,bc', (2, 2), (2, 2))(x, x)", set()),
    "printing": ("str(oe.contract_path('ab,bc,cd,de', (2, 3), (3, 4), (4, 5), (5, 6), shapes=True)[1])", set()),
    "rejected": ("try:\n    oe.contract_path('ab,bc', (2, 3), (4, 5), shapes=True)\nexcept ValueError: pass", set()),
    "sparse": ("import sparse\nx = sparse.COO.from_numpy(__import__('numpy').eye(3))\noe.contract('ab,bc,cd', x, x, x)", {"sparse", "numpy", "scipy", "dask", "pandas", "torch", "jax", "cupy"}),
    "torch": ("import torch\nx = torch.ones(2, 2)\noe.contract('ab,bc,cd', x, x, x)", {"torch", "numpy", "scipy", "pandas", "dask", "jax", "cupy", "pytest"}),
    "dask": ("import dask.array as da\nx = da.ones((2, 2))\noe.contract('ab,bc,cd', x, x, x).compute()", {"dask", "numpy", "scipy", "pandas", "sparse", "torch", "jax", "cupy", "pytest"}),
}


def fam_watch(rng, mon):
    """With array libraries installed: only those used are imported."""
    light = [k for k in USES if k not in ("torch", "sparse", "dask")]
    steps = [rng.choice(light) for _ in range(rng.randint(2, 6))]
    if rng.random() < 0.25:
        steps.insert(rng.randint(0, len(steps)), rng.choice(("torch", "sparse", "dask")))
    mon.describe(steps=steps)
    d = child("watch", [], [USES[s][0] for s in steps])
    for k in set(d["tried import"]) - {"numpy", "scipy"}:
        raise Violation(f"importing opt_einsum imports {k}")
    for s, r in zip(steps, d["steps"]):
        if r.get("error"):
            if s in ("torch", "sparse", "dask") and r["error"][1] in ("ModuleNotFoundError", "ImportError"):
                mon.ev("library not installed: " + s)
                continue
            raise Violation(f"{s}, in the history {steps}: {r['error']}")
        extra = set(r["tried"]) - USES[s][1] - {"numpy", "scipy", "pytest"}
        if extra:
            raise Violation(f"{s}, in the history {steps}: {sorted(extra)} imported")
        mon.ev("imports watched: " + s)
    mon.sig(tuple(steps))


FAMILIES = [
    Family("block", fam_block, 60, 800, chunk=1, wall=0),
    Family("watch", fam_watch, 60, 500, chunk=2, wall=0),
]
