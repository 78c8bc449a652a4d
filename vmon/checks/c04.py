"""C04: 'optimal' is never costlier than the best order of pairwise contractions."""
import opt_einsum as oe

from .. import gen, history, oracle, strategies
from ..core import Family, Skip, Violation

RULE = "distinct (structure, sizes, limit) whose 'optimal' cost was compared with an independent exhaustive optimum"
ASSUMPTIONS = ["the cost of a pairwise step is the product of the sizes of its indices, twice that if an index is summed",
               "the optimum over all pairwise orders is computed by dynamic programming over subsets of the operands"]


def cost_of(con, path, what):
    try:
        oracle.check_path(path, con.n)
    except oracle.BadPath as e:
        raise Violation(f"{what}: invalid path {path}: {e}")
    st = oracle.replay(con.terms, con.output, con.eff_sizes(), path)
    return oracle.total_flops(st), st


def ask(con, eq, limit, how):
    """The path and the cost reported for it."""
    if how == "info":
        path, info = oe.contract_path(eq, *con.shapes(), shapes=True, optimize="optimal", memory_limit=limit)
        return path, int(info.opt_cost)
    sym_terms, out = eq.split("->")
    terms = [frozenset(t) for t in sym_terms.split(",")]
    sd = {}
    for t, s in zip(sym_terms.split(","), con.shapes()):
        for c, d in zip(t, s):
            if sd.get(c, 1) == 1:
                sd[c] = d
    return oe.paths.optimal(terms, frozenset(out), sd, limit), None


def body(rng, mon, con, others=True):
    eq = con.eq(history.symbols(rng, mon, con))
    limit = None
    if rng.random() < 0.35:
        limit = rng.choice((1, 2, 3, 4, 6, 8, 12, 20, 60, 250, 10 ** 4))
    how = rng.choice(("info", "info", "fn")) if con.n > 2 else "info"
    mon.describe(eq=eq, shapes=con.shapes(), limit=limit, how=how)
    path, rep = ask(con, eq, limit, how)
    what = f"optimal for {eq!r} with {con.shapes()} and limit {limit}"
    c, st = cost_of(con, path, what)
    if rep is not None and rep != c:
        raise Violation(f"{what}: reported cost {rep}, true cost {c}")
    sizes = con.eff_sizes()
    best = oracle.best_pairwise(con.terms, con.output, sizes, limit)
    mon.ev("optima compared")
    if best is None:
        mon.ev("no pairwise order fits the limit")
    elif con.n == 1:
        pass
    elif c > best:
        raise Violation(f"{what}: {path} costs {c}, the best order costs {best}")
    elif limit is None and c != best:
        raise Violation(f"{what}: {path} costs {c}, less than the least possible {best}")
    if limit is not None and best is not None and any(len(s.pos) > 2 for s in st):
        mon.ev("limit: several terms contracted at once and cheaper")
    if limit is None and con.n > 2 and others:
        for s in strategies.names_for(con.n):
            if s in ("optimal", "random-greedy-128") and rng.random() < 0.9:
                continue
            p = oe.contract_path(eq, *con.shapes(), shapes=True, optimize=s)[0]
            c2, st2 = cost_of(con, p, s)
            if all(len(x.pos) == 2 for x in st2):
                mon.ev("other strategies compared")
                if c2 < c:
                    raise Violation(f"{what}: costs {c}, but {s!r} found {p} of cost {c2}")
    for f in con.features():
        mon.ev("with " + f)
    mon.sig(con.key(), limit)
    mon.sample({"eq": eq, "shapes": con.shapes(), "limit": limit, "cost": c, "best": best})


def fam_small(rng, mon):
    body(rng, mon, gen.contraction(rng, 2, 5, budget=None, bcast=0.1, zero=0.03, sizes=(1, 2, 2, 3, 3, 4, 5, 9, 20)))


def fam_six(rng, mon):
    body(rng, mon, gen.contraction(rng, n=6, budget=None, bcast=0.05, zero=0.02, sizes=(1, 2, 2, 3, 4, 7, 30), maxlabels=16))


def fam_seven(rng, mon):
    body(rng, mon, gen.contraction(rng, n=7, budget=None, profile=rng.choice(("net", "chain", "ring", "tree", "grid", "mixed", "hyper")),
                                   sizes=(1, 2, 3, 4, 7), maxlabels=16))


def fam_more(rng, mon):
    """Eight operands; sparse networks, which the search gets through in time."""
    con = gen.contraction(rng, n=8, budget=None, profile=rng.choice(("chain", "ring", "tree", "net")),
                          sizes=rng.choice(((1, 2, 3, 4, 7), (2, 5, 9, 20), (2, 2, 3))), maxlabels=14, scalar=0, diag=0.02)
    # many kept indices leave little to prune
    con = con.with_output([c for c in con.output[:2]])
    if rng.random() < 0.9 and any(not t for t in con.terms):
        raise Skip("scalars")
    body(rng, mon, con, others=False)


def fam_hyper(rng, mon):
    """Hyperedges, outer products, duplicates: where pair results depend on what remains."""
    body(rng, mon, gen.contraction(rng, 3, 5, budget=None, profile=rng.choice(("hyper", "batch", "dupes", "outer", "mixed")),
                                   sizes=(2, 3, 5, 10), scalar=0.02, diag=0.05, sum1=0.5))


def fam_close(rng, mon):
    """Costs that differ by less than a float resolves."""
    b = rng.choice((10 ** 6, 10 ** 8, 10 ** 9, 2 ** 27, 10 ** 17))
    body(rng, mon, gen.contraction(rng, 3, 5, budget=None, sizes=(b, b + 1, b + 2, b - 1, 2), maxrank=5, scalar=0.02, sum1=0.2), others=False)


FAMILIES = [
    Family("close", fam_close, 1500, 20000),
    Family("small", fam_small, 4000, 60000),
    Family("hyper", fam_hyper, 4000, 60000),
    Family("six", fam_six, 700, 8000),
    Family("more", fam_more, 600, 6000, chunk=10),
    Family("seven", fam_seven, 120, 1500, chunk=2),
]
