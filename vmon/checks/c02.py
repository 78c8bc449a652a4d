"""C02: every path strategy terminates with a complete, valid path."""
import opt_einsum as oe
from opt_einsum import paths

from .. import gen, history, oracle, strategies
from ..core import Family, Violation

RULE = "distinct (structure, sizes, strategy) whose path was checked step by step"
ASSUMPTIONS = ["termination is decided by a CPU-time watchdog (60 s, confirmed by a second run with 120 s) on searches that take milliseconds"]


def judge(path, n, what, pairwise=True):
    if not isinstance(path, list):
        raise Violation(f"{what}: the path is a {type(path).__name__}, not a list")
    for st in path:
        if not isinstance(st, tuple):
            raise Violation(f"{what}: step {st!r} is not a tuple")
    try:
        oracle.check_path(path, n, pairwise)
    except oracle.BadPath as e:
        raise Violation(f"{what}: invalid path {path}: {e}")


def search(mon, con, s, desc, limit=None, direct=False, sym=None):
    sizes = con.eff_sizes()
    limited = limit not in (None, -1)
    what = f"{desc} on {con.describe()} limit={limit}"
    mon.describe(con=con.describe(), strategy=str(desc), memory_limit=limit, direct=direct)
    try:
        if direct:
            fn = paths.get_path_fn(s) if isinstance(s, str) else s
            inputs = [frozenset(sym[c] for c in t) for t in con.terms]
            if direct == "set":
                inputs = [set(i) for i in inputs]
            out = set(sym[c] for c in con.output) if direct == "set" else frozenset(sym[c] for c in con.output)
            path = fn(inputs, out, {sym[c]: d for c, d in sizes.items()}, limit)
        else:
            path, _ = oe.contract_path(con.eq(sym), *con.shapes(), shapes=True, optimize=s, memory_limit=limit)
    except RuntimeError as e:
        if limited and "memory_limit" in str(e):
            mon.ev("dp: no contraction within the memory limit")
            return
        raise
    judge(path, con.n, what, pairwise=not limited and con.n > 2)
    mon.ev("paths checked")
    mon.ev("steps checked", len(path))
    mon.sig(con.key(), str(desc), str(limit))


def limits(rng):
    return rng.choice((None, None, None, -1, "max_input", 1, 2, 7, 30, 1000))


def run(rng, mon, con, k):
    sym = history.symbols(rng, mon, con, "mixed" if len(con.labels) > 52 else None)
    for _ in range(k):
        lim = limits(rng)
        if con.n > 14:
            lim = rng.choice((None, None, None, lim)) if con.n < 24 else None
        limited = lim not in (None, -1)
        names = strategies.names_for(con.n, limited)
        if limited and con.n > 7:
            names = [s for s in names if s not in ("branch-2",)]
        if rng.random() < 0.25:
            d, f = strategies.optimizer(rng, con.n)
            search(mon, con, f(), d, lim, sym=sym)
            mon.ev("strategy " + d[0])
        else:
            s = rng.choice(names)
            direct = rng.choice((False, False, "set", "frozenset")) if lim != "max_input" and lim != -1 else False
            search(mon, con, s, s, lim, direct=direct, sym=sym)
            mon.ev("strategy " + s)
    for f in con.features():
        mon.ev("with " + f)


def fam_small(rng, mon):
    con = gen.contraction(rng, 1, 7, budget=10 ** 9, bcast=0.1, zero=0.08, sizes=(1, 2, 3, 4, 7, 10, 64))
    run(rng, mon, con, 4)
    mon.sample(con.describe())


def fam_medium(rng, mon):
    con = gen.contraction(rng, 7, 12, budget=None, zero=0.04, sizes=(1, 2, 3, 4, 10, 50), maxrank=8)
    run(rng, mon, con, 3)


def fam_large(rng, mon):
    big = rng.choice(((13, 40), (13, 40), (40, 120), (120, 250)))
    con = gen.contraction(rng, *big, budget=None, sizes=(1, 2, 2, 3, 8), maxlabels=600, maxrank=rng.choice((3, 6, 12)),
                          zero=0.02, profile=rng.choice(gen.PROFILES) if big[1] <= 40 else
                          rng.choice(("chain", "ring", "tree", "star", "net", "grid", "outer", "mixed")))
    run(rng, mon, con, 2)
    mon.ev("large network")


def fam_degenerate(rng, mon):
    """Only scalars, only duplicates, everything in the output, everything disconnected, size-1 and size-0 indices."""
    n = rng.randint(1, 9)
    k = rng.choice(("scalars", "same", "alone", "mixscalar", "hub", "twice", "nosum"))
    if k == "scalars":
        terms, out = [()] * n, ()
    elif k == "same":
        t = tuple(range(rng.randint(1, 4)))
        terms, out = [tuple(rng.sample(t, len(t))) for _ in range(n)], tuple(rng.sample(t, rng.randint(0, len(t))))
    elif k == "alone":
        terms = [tuple(range(3 * i, 3 * i + rng.randint(0, 3))) for i in range(n)]
        labs = [c for t in terms for c in t]
        out = tuple(rng.sample(labs, rng.randint(0, len(labs))))
    elif k == "mixscalar":
        terms = [(rng.randrange(4),) if rng.random() < 0.5 else () for _ in range(n)]
        labs = sorted({c for t in terms for c in t})
        out = tuple(rng.sample(labs, rng.randint(0, len(labs))))
    elif k == "hub":
        terms = [(0,) + ((i + 1,) if rng.random() < 0.7 else ()) for i in range(n)]
        labs = sorted({c for t in terms for c in t})
        out = tuple(rng.sample(labs, rng.randint(0, len(labs))))
    elif k == "twice":
        terms = [(i // 2, i // 2) for i in range(n)]
        labs = sorted({c for t in terms for c in t})
        out = tuple(rng.sample(labs, rng.randint(0, len(labs))))
    else:
        terms = [tuple(rng.sample(range(5), rng.randint(0, 3))) for _ in range(n)]
        out = tuple(sorted({c for t in terms for c in t}))
    labs = {c for t in terms for c in t}
    con = gen.Con(terms, out, {c: rng.choice((0, 1, 1, 2, 3)) if rng.random() < 0.3 else rng.choice((1, 2, 3)) for c in labs})
    run(rng, mon, con, 4)
    mon.ev("degenerate " + k)


def fam_huge(rng, mon):
    """Terms and intermediates with more elements than a float can count."""
    con = gen.contraction(rng, 3, 7, budget=None, sizes=(10 ** 20, 10 ** 40, 10 ** 80, 2, 10 ** 160), maxrank=12)
    sym = history.symbols(rng, mon, con)
    for s in rng.sample([x for x in strategies.names_for(con.n) if x != "random-greedy-128"], 4):
        try:
            search(mon, con, s, s, None, sym=sym)
        except OverflowError as e:
            if s == "random-greedy":
                raise Violation(f"{s} on {con.describe()}: {e}", finding="random-greedy-float-overflow")
            raise
        mon.ev("huge sizes")


def fam_long(rng, mon):
    """Dynamic programming on long contractions: chains, rings and many separate parts, beyond 64 operands."""
    n = rng.choice((rng.randint(12, 40), rng.randint(41, 60), rng.randint(61, 72)))
    kind = rng.choice(("chain", "chain", "ring", "parts") if n <= 60 else ("chain", "parts"))
    part = n if kind != "parts" else rng.choice((1, 2, 3, 6, n // 2))
    terms, k = [[] for _ in range(n)], 0
    for i in range(n):
        if (i + 1) % part and i + 1 < n:
            terms[i].append(k)
            terms[i + 1].append(k)
            k += 1
    if kind == "ring":
        terms[0].append(k)
        terms[-1].append(k)
        k += 1
    else:
        for i in rng.sample(range(n), rng.randint(0, 4)):
            terms[i].append(k)
            k += 1
    labs = list(range(k))
    once = [c for c in labs if sum(c in t for t in terms) == 1]
    rng.shuffle(terms)
    con = gen.Con([tuple(t) for t in terms], tuple(once[: rng.randint(0, 2)]), {c: rng.choice((2, 3, 4)) for c in labs})
    sym = gen.symbols(rng, con, "mixed")
    o = rng.choice(("dp", "dp", "minimize"))
    if o == "minimize":
        m = rng.choice(("size", "write", "combo-2", "limit"))
        search(mon, con, oe.DynamicProgramming(minimize=m), f"DynamicProgramming({m})", sym=sym)
    else:
        search(mon, con, o, o, sym=sym)
    mon.ev("long dp " + kind)
    if n > 64:
        mon.ev("dp beyond 64 operands")


def fam_giant(rng, mon):
    """Hundreds to thousands of operands."""
    n = rng.choice((300, 513, 700, 1001, 1100, 1500, 2050))
    kind = rng.choice(("chain", "ring", "tree", "net"))
    terms, k = [[] for _ in range(n)], 0

    def bond(i, j):
        nonlocal k
        terms[i].append(k)
        terms[j].append(k)
        k += 1

    for i in range(1, n):
        bond(i, i - 1 if kind in ("chain", "ring") else rng.randrange(max(0, i - 8), i))
    if kind == "ring":
        bond(0, n - 1)
    if kind == "net":
        for _ in range(n // 3):
            i = rng.randrange(n - 5)
            j = i + rng.randint(1, 4)
            bond(i, j)
    rng.shuffle(terms)
    con = gen.Con([tuple(t) for t in terms], (), {c: rng.choice((2, 2, 3)) for c in range(k)})
    s = rng.choice(("greedy", "greedy", "auto", "auto", "auto-hq", "eager", "opportunistic", "random-greedy"))
    if s == "auto-hq" and n > 600 or s == "random-greedy":
        s = "auto"
    sym = dict(zip(range(k), rng.sample([chr(i) for i in range(0x4E00, 0x4E00 + 9000)], k)))
    search(mon, con, s, s, sym=sym, direct=rng.choice((False, "frozenset")))
    mon.ev("giant " + kind)


FAMILIES = [
    Family("giant", fam_giant, 24, 300, chunk=1, cpu=200),
    Family("long", fam_long, 60, 1500, chunk=2, cpu=200),
    Family("huge", fam_huge, 300, 4000),
    Family("small", fam_small, 6000, 80000),
    Family("medium", fam_medium, 800, 15000),
    Family("large", fam_large, 120, 4000, chunk=2),
    Family("degenerate", fam_degenerate, 3000, 30000),
]
