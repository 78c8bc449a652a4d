"""C06: no intermediate exceeds the memory limit."""
from decimal import Decimal

import numpy as np

import opt_einsum as oe
import vrec
import vtd

from .. import entry, gen, history, oracle, strategies, trace
from ..core import Family, Violation

RULE = "distinct (structure, sizes, strategy, limit) whose every array built by the backend was measured"
ASSUMPTIONS = ["'the largest tensor' includes the output, as the code has it"]

LIMITED = ["auto", "auto-hq", "optimal", "branch-all", "branch-2", "branch-1", "greedy", "eager", "opportunistic", "dp",
           "dynamic-programming", "random-greedy"]


def resolve(con, limit):
    if limit == "max_input":
        sz = con.eff_sizes()
        return max([oracle.size(t, sz) for t in con.terms] + [oracle.size(con.output, sz)])
    return int(limit)


def draw_limit(rng, con):
    if rng.random() < 0.3:
        return "max_input"
    r = rng.random()
    if r < 0.5:
        # near the sizes that matter
        sz = con.eff_sizes()
        base = rng.choice([oracle.size(set(t), sz) for t in con.terms] + [oracle.size(con.output, sz)])
        v = max(1, base + rng.choice((-1, 0, 0, 1)))
    else:
        v = rng.choice((1, 2, 3, 4, 5, 6, 8, 9, 12, 16, 24, 36, 60, 128, 1000))
    return rng.choice((v, v, v, Decimal(v), np.int64(v), float(v), v + 0.5))


def tight_limit(rng, con, eq, opt):
    """A limit just around or below a result that the strategy builds when it is free."""
    p, info = oe.contract_path(eq, *con.shapes(), shapes=True, optimize=opt)
    v = rng.choice(list(info.size_list)[:-1] or [1])
    return max(1, int(v) - rng.choice((0, 1, 1, v // 2)))


def body(rng, mon, con, dp=False, tight=False):
    eq = con.eq(history.symbols(rng, mon, con))
    n = con.n
    limit = draw_limit(rng, con)
    d = None
    lim = resolve(con, limit)
    r = rng.random()
    if (r < 0.2 or dp) and n > 2:
        d, f = strategies.optimizer(rng, n, "dp" if dp else None)
        name, opt = d[0], f()
    else:
        name = opt = rng.choice([s for s in LIMITED if n <= strategies.CAP[s] and not (s == "auto-hq" and 9 < n < 17)])
        if rng.random() < 0.1:
            name, opt = "auto", rng.choice((True, None))
    if tight:
        limit = tight_limit(rng, con, eq, f() if d else opt)
        lim = resolve(con, limit)
    how = rng.choice(("run", "run", "path"))
    what = f"{how} {eq!r} {con.shapes()} optimize={d or name!r} memory_limit={limit!r}"
    mon.describe(eq=eq, shapes=con.shapes(), optimize=str(d or opt), limit=str(limit), how=how)
    comps, red = oracle.summed_components(con.terms, con.output)
    outer = name == "DynamicProgramming" and d[1]["search_outer"]
    if outer:
        # everything is searched together, except for operands that are summed up on their own
        gone = [i for i in range(n) if not red[i] and con.terms[i]]
        comps = [[i for i in range(n) if i not in gone]] + [[i] for i in gone]
    sizes = con.eff_sizes()
    arrays = [np.ones(s, dtype=np.int64) for s in con.shapes()]
    rec = trace.fresh()
    ops = trace.wrap(vrec, arrays)
    try:
        if how == "run":
            how, fn = entry.prepare(rng, con, eq, ops, dict(optimize=opt, memory_limit=limit))
            what = f"{how} {what}"
            mon.describe(how=how)
            fn()
            mon.ev("by " + how.split(" ")[0])
        else:
            p, info = oe.contract_path(eq, *con.shapes(), shapes=True, optimize=opt, memory_limit=limit)
            oe.contract(eq, *ops, optimize=p)
            if len(info.size_list) > 1 and name not in ("dp", "dynamic-programming", "auto-hq", "DynamicProgramming", "random-greedy",
                                                        "RandomGreedy") and max(list(info.size_list)[:-1]) > lim:
                raise Violation(f"{what}: reported intermediate sizes {info.size_list}")
    except RuntimeError as e:
        isdp = name in ("dp", "dynamic-programming", "DynamicProgramming") or (name == "auto-hq" and 6 <= n <= 16)
        if not isdp or "memory_limit" not in str(e):
            raise
        if all(oracle.dp_best([red[i] for i in c], set(con.output), sizes, "write", 1, outer, lim) is not None for c in comps if c):
            raise Violation(f"{what}: {e!r} although the limit can be met")
        mon.ev("unsatisfiable limit: error")
        return
    ts = trace.steps(rec.log)
    mon.ev("executions measured")
    mon.ev("arrays measured", len(rec.log))
    bad = None
    for k, t in enumerate(ts[:-1]):
        if t.out.size > lim:
            parts = [frozenset(int(x[1:]) for x in p) for p in t.parts]
            f = finding(name, n, parts, comps)
            bad = bad or (k, t, f)
            if f is None:
                bad = (k, t, f)
                break
    if any(len(t.parts) > 2 for t in ts[:-1]):
        raise Violation(f"{what}: more than two terms were combined before the last step: {ts}")
    if any(len(t.parts) > 2 for t in ts):
        mon.ev("remaining terms contracted together")
    mon.ev("strategy " + name)
    mon.sig(con.key(), name, lim)
    if bad:
        k, t, f = bad
        raise Violation(f"{what}: step {k} {t} built {t.out.size} elements, the limit is {lim}", finding=f)
    mon.sample({"eq": eq, "shapes": con.shapes(), "optimize": name, "limit": str(limit), "sizes": [t.out.size for t in ts]})


def finding(name, n, parts, comps):
    if name in ("random-greedy", "random-greedy-128", "RandomGreedy") or (name == "auto-hq" and n > 16):
        return "random-greedy-ignores-memory-limit"
    if name in ("dp", "dynamic-programming", "DynamicProgramming") or (name == "auto-hq" and 6 <= n <= 16):
        if len(parts) == 1:
            return "dp-single-term-reduction-over-limit"
        leaves = frozenset().union(*parts)
        if not any(leaves <= set(c) for c in comps):
            return "dp-outer-product-over-limit"
    return None


def fam_small(rng, mon):
    body(rng, mon, gen.contraction(rng, 2, 6, budget=4000, zero=0.02, bcast=0.05, sizes=(1, 2, 2, 3, 4, 5)))


def fam_connected(rng, mon):
    body(rng, mon, gen.contraction(rng, 3, 8, budget=20000, profile=rng.choice(("net", "hyper", "chain", "ring", "tree", "grid", "star")),
                                   sizes=(2, 2, 3, 4), scalar=0, sum1=0.4, maxlabels=14))


def fam_tight(rng, mon):
    body(rng, mon, gen.contraction(rng, 3, 7, budget=20000, profile=rng.choice(("net", "hyper", "chain", "ring", "tree", "grid", "star", None)),
                                   sizes=(2, 2, 3, 4), scalar=0.05, sum1=0.4, maxlabels=14), tight=True)


def fam_dp(rng, mon):
    body(rng, mon, gen.contraction(rng, 3, 7, budget=20000, profile=rng.choice(("net", "hyper", "chain", "ring", "tree", "grid", "star", None)),
                                   sizes=(2, 2, 3, 4), scalar=0.05, sum1=0.2, maxlabels=14), dp=True, tight=rng.random() < 0.8)


def fam_more(rng, mon):
    body(rng, mon, gen.contraction(rng, 9, 20, budget=30000, profile=rng.choice(("chain", "ring", "tree", "net")), sizes=(1, 2, 2, 3),
                                   maxlabels=20, scalar=0.01, sum1=0.6))


def fam_huge(rng, mon):
    """Limits of billions of elements and beyond (an array that does not fit is exactly what they are for): nothing is
    built, the arrays of the path are measured on its indices."""
    con = gen.contraction(rng, 3, 6, budget=None, sizes=rng.choice(((2, 1000, 4096), (50, 300, 10**4), (10**5, 10**7, 3), (2**16, 2**20, 7))),
                          profile=rng.choice(("net", "hyper", "chain", "ring", "tree", "star", None)), scalar=0.03, sum1=0.3, maxlabels=12)
    eq = con.eq(history.symbols(rng, mon, con))
    n = con.n
    d = None
    if rng.random() < 0.2:
        d, f = strategies.optimizer(rng, n)
        name, opt = d[0], f()
    else:
        name = opt = rng.choice([s for s in LIMITED if n <= strategies.CAP[s] and s != "random-greedy"])
    r = rng.random()
    if r < 0.2:
        limit = "max_input"
    elif r < 0.8:
        limit = tight_limit(rng, con, eq, f() if d else opt)
        limit = rng.choice((limit, Decimal(limit)))
    else:
        limit = 2 ** rng.randint(20, 70) + rng.choice((-1, 0, 1))
    lim = resolve(con, limit)
    what = f"path {eq!r} {con.shapes()} optimize={d or name!r} memory_limit={limit!r}"
    mon.describe(eq=eq, shapes=con.shapes(), optimize=str(d or opt), limit=str(limit))
    sizes = con.eff_sizes()
    comps, red = oracle.summed_components(con.terms, con.output)
    outer = name == "DynamicProgramming" and d[1]["search_outer"]
    if outer:
        gone = [i for i in range(n) if not red[i] and con.terms[i]]
        comps = [[i for i in range(n) if i not in gone]] + [[i] for i in gone]
    try:
        p, info = oe.contract_path(eq, *con.shapes(), shapes=True, optimize=opt, memory_limit=limit)
    except RuntimeError as e:
        isdp = name in ("dp", "dynamic-programming", "DynamicProgramming") or (name == "auto-hq" and n >= 6)
        if not isdp or "memory_limit" not in str(e):
            raise
        if all(oracle.dp_best([red[i] for i in c], set(con.output), sizes, "write", 1, outer, lim) is not None for c in comps if c):
            raise Violation(f"{what}: {e!r} although the limit can be met")
        mon.ev("unsatisfiable limit: error")
        return
    steps = oracle.replay(con.terms, con.output, sizes, p)
    bad = None
    for k, s in enumerate(steps[:-1]):
        if len(s.parts) > 2:
            raise Violation(f"{what}: more than two terms are combined before the last step: {p}")
        if s.size > lim:
            f = finding(name, n, s.parts, comps)
            bad = bad if bad and f else (k, s, f)
            if f is None:
                break
    mon.ev("huge limits: paths measured")
    mon.ev("huge limits of 2**31 and more", int(lim >= 2**31))
    mon.ev("huge limits that bind", int(any(len(s.parts) > 2 for s in steps)))
    mon.sig(con.key(), name, lim)
    if bad:
        k, s, f = bad
        raise Violation(f"{what}: step {k} of {p} builds {s.size} elements, the limit is {lim}", finding=f)


def fam_unlimited(rng, mon):
    """None and -1 are the same as not giving a limit; a limit above everything restricts nothing."""
    con = gen.contraction(rng, 2, 9, budget=None, sizes=(1, 2, 3, 10, 100))
    eq = con.eq(history.symbols(rng, mon, con))
    s = rng.choice([x for x in strategies.DETERMINISTIC if con.n <= strategies.CAP[x]])
    mon.describe(eq=eq, shapes=con.shapes(), optimize=s)
    ref = oe.contract_path(eq, *con.shapes(), shapes=True, optimize=s)
    for lim in (None, -1, Decimal(-1)):
        got = oe.contract_path(eq, *con.shapes(), shapes=True, optimize=s, memory_limit=lim)
        if [tuple(p) for p in got[0]] != [tuple(p) for p in ref[0]] or got[1].opt_cost != ref[1].opt_cost:
            raise Violation(f"{eq!r} {con.shapes()} {s}: memory_limit={lim!r} gives {got[0]} instead of {ref[0]}")
    big = oracle.size(con.labels, {c: max(1, d) for c, d in con.sizes.items()})
    got = oe.contract_path(eq, *con.shapes(), shapes=True, optimize=s, memory_limit=big)
    if con.n > 1 and any(len(p) > 2 for p in got[0]):
        raise Violation(f"{eq!r} {con.shapes()} {s}: a limit of {big} elements makes {got[0]}")
    if s in ("optimal", "dp", "dynamic-programming") and got[1].opt_cost != ref[1].opt_cost:
        raise Violation(f"{eq!r} {con.shapes()} {s}: a limit of {big} elements costs {got[1].opt_cost} instead of {ref[1].opt_cost}")
    mon.ev("unlimited searches compared")
    mon.sig(con.key(), s, "unlimited")


FAMILIES = [
    Family("small", fam_small, 6000, 80000),
    Family("connected", fam_connected, 4000, 50000),
    Family("tight", fam_tight, 6000, 80000),
    Family("dp", fam_dp, 6000, 80000),
    Family("more", fam_more, 250, 3000),
    Family("huge", fam_huge, 5000, 60000),
    Family("unlimited", fam_unlimited, 3000, 30000),
]
