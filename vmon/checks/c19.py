"""C19: path searches are deterministic and independent of index names."""
import json
import os
import random
import subprocess
import sys

import opt_einsum as oe
from opt_einsum import paths

from .. import boot, gen, history, strategies
from ..core import VERIF, Family, Skip, Violation

RULE = "distinct (structure, sizes, strategy, kind of perturbation) for which two searches were compared"
ASSUMPTIONS = ["hash randomisation is exercised by child processes with different PYTHONHASHSEED",
               "BranchBound with the jitter cost function draws from the process-global generator and is not one of the built-in strategies"]
CHILD = os.path.join(VERIF, "vmon", "child_paths.py")


def search(con, sym, s, lim=None):
    try:
        p, info = oe.contract_path(con.eq(sym), *con.shapes(), shapes=True, optimize=s, memory_limit=lim)
    except RuntimeError as e:
        if lim is not None and "memory_limit" in str(e):
            return "does not fit", None
        raise
    return [tuple(int(x) for x in st) for st in p], info.opt_cost


def draw(rng, nmin=3, nmax=9, big=0.15):
    if rng.random() < big:
        return gen.contraction(rng, 10, 40, budget=None, sizes=(2, 3, 4, 9), maxlabels=90, maxrank=5,
                               profile=rng.choice(("chain", "ring", "tree", "net", "grid", "batch")))
    # equal sizes give ties
    return gen.contraction(rng, nmin, nmax, budget=None, sizes=rng.choice(((2,), (2, 3), (1, 2), (1, 2, 3, 5, 8, 13), (4, 4, 4, 7))), bcast=0.05)


def pick(rng, n, limited):
    if rng.random() < 0.2 and n <= 9:
        d, f = strategies.optimizer(rng, n)
        if d[0] != "BranchBound" or d[1]["cost_fn"] == "memory-removed":
            return str(d), f
    names = [s for s in strategies.names_for(n, limited) if s != "random-greedy-128" or n <= 12]
    s = rng.choice(names)
    return s, lambda: s


def disturb(rng, mon):
    """What may have happened before."""
    for _ in range(rng.randint(0, 3)):
        k = rng.choice(("random", "numpy", "search", "fail", "sharing", "hashes"))
        if k == "random":
            random.seed(rng.random())
            random.random()
        elif k == "numpy":
            import numpy as np

            np.random.seed(rng.randrange(2 ** 31))
        elif k == "search":
            c = gen.contraction(rng, 2, 6, budget=None, sizes=(1, 2, 3, 9))
            search(c, gen.symbols(rng, c), rng.choice(strategies.names_for(c.n, True)[:12]), rng.choice((None, 5)))
        elif k == "fail":
            try:
                oe.contract_path("ab,bc,cd", (2, 3), (4, 5), (5, 6), shapes=True, optimize="dp")
            except Exception:
                pass
        elif k == "sharing":
            with oe.shared_intermediates():
                search(*(lambda c: (c, gen.symbols(rng, c)))(gen.contraction(rng, 3, 5, budget=None)), "greedy")
        else:
            {str(rng.random()) for _ in range(50)}
        mon.ev("disturbed by " + k)


def fam_repeat(rng, mon):
    con = draw(rng)
    sym = gen.symbols(rng, con, "mixed" if len(con.labels) > 52 else None)
    lim = None if rng.random() < 0.7 or con.n > 12 else rng.choice((1, 20, 1000))
    name, f = pick(rng, con.n, lim is not None)
    mon.describe(con=con.describe(), strategy=name, memory_limit=lim)
    a = search(con, sym, f(), lim)
    for _ in range(rng.randint(1, 3)):
        disturb(rng, mon)
        history.prelude(rng, mon, con, sym, p=0.4, strategy=name)
        b = search(con, sym, f(), lim)
        if a != b:
            raise Violation(f"{name} on {con.describe()} memory_limit={lim}: found {a}, and then {b}")
        mon.ev("searches repeated")
    mon.sig(con.key(), name, lim)
    mon.sample({"con": con.describe(), "strategy": name})


def fam_rename(rng, mon):
    con = draw(rng, nmax=8)
    lim = None if rng.random() < 0.7 or con.n > 12 else rng.choice((1, 20, 1000))
    name, f = pick(rng, con.n, lim is not None)
    mon.describe(con=con.describe(), strategy=name, memory_limit=lim)
    a = None
    for _ in range(rng.randint(2, 5)):
        sym = history.symbols(rng, mon, con, "mixed" if len(con.labels) > 52 else rng.choice(("letters", "exotic", "mixed")), p=0.4,
                              strategy=name)
        b = search(con, sym, f(), lim)
        if a is not None and a != b:
            raise Violation(f"{name} on {con.describe()} memory_limit={lim}: found {a}, and with the indices renamed (now {con.eq(sym)!r}) {b}")
        a = b
        mon.ev("namings compared")
    # called directly, with any hashable labels and sets built in another order
    if con.n > 1:
        o = f()
        fn = paths.get_path_fn(o) if isinstance(o, str) else o
        k = rng.choice(("str", "int", "tuple"))
        nm = {c: {"str": f"idx{rng.random()}", "int": rng.randrange(10 ** 9), "tuple": (c, rng.random())}[k] for c in con.labels}
        ins = [set(rng.sample([nm[c] for c in set(t)], len(set(t)))) for t in con.terms]
        sizes = {nm[c]: d for c, d in con.eff_sizes().items()}
        if rng.random() < 0.5 and not uses_randomness(name):
            items = list(sizes.items())
            rng.shuffle(items)
            sizes = dict(items)
        try:
            p = fn(ins, {nm[c] for c in con.output}, sizes, lim)
            p = [tuple(int(x) for x in st) for st in p]
        except RuntimeError as e:
            if lim is None or "memory_limit" not in str(e):
                raise
            p = "does not fit"
        if con.n > 2 and p != a[0]:
            raise Violation(f"{name} on {con.describe()} memory_limit={lim}: found {a[0]}, called directly with {k} labels {p}")
        mon.ev("namings compared")
    mon.sig(con.key(), name, lim)


def uses_randomness(name):
    return "andom" in name or name == "auto-hq"


def fam_process(rng, mon):
    """The same searches in processes with other hash seeds."""
    cases, cons = [], []
    while len(cases) < 120:
        con = draw(rng, big=0.1)
        sym = gen.symbols(rng, con, "mixed" if len(con.labels) > 52 else None)
        lim = None if rng.random() < 0.7 or con.n > 12 else rng.choice((1, 20, 1000))
        s = rng.choice([s for s in strategies.names_for(con.n, lim is not None) if s != "random-greedy-128" or con.n <= 12])
        history.prelude(rng, mon, con, sym, p=0.5, strategy=s)  # the other process has not seen this
        cases.append({"eq": con.eq(sym), "shapes": con.shapes(), "optimize": s, "limit": lim})
        cons.append(con)
    mine = []
    for c in cases:
        try:
            p, info = oe.contract_path(c["eq"], *c["shapes"], shapes=True, optimize=c["optimize"], memory_limit=c["limit"])
            mine.append([[list(map(int, x)) for x in p], str(info.opt_cost), [k[2] for k in info.contraction_list]])
        except RuntimeError as e:
            mine.append(["RuntimeError", str(e)[:100]])
    hs = str(rng.randrange(1, 2 ** 32))
    env = dict(os.environ, PYTHONHASHSEED=hs)
    r = subprocess.run([sys.executable, "-B", CHILD, boot.REPO], input=json.dumps(cases), capture_output=True, text=True, env=env, timeout=600)
    if r.returncode:
        raise Violation(f"the searches failed in a process with PYTHONHASHSEED={hs}: {r.stderr[-800:]}")
    d = json.loads(r.stdout)
    if not boot.in_repo(d["file"]):
        raise RuntimeError(f"harness: child imported {d['file']}")
    mon.ev("child processes")
    for c, con, a, b in zip(cases, cons, mine, d["out"]):
        if a != b:
            mon.describe(**{k: str(v) for k, v in c.items()})
            raise Violation(f"{c['optimize']} on {c['eq']!r} {c['shapes']} limit={c['limit']}: {a} here, {b} with PYTHONHASHSEED={hs}")
        mon.ev("searches compared across processes")
        mon.sig(con.key(), c["optimize"], c["limit"], "process")
    mon.sig("hash", d["hash"])


FAMILIES = [
    Family("repeat", fam_repeat, 4000, 40000),
    Family("rename", fam_rename, 4000, 40000),
    Family("process", fam_process, 24, 300, chunk=1, wall=0),
]
