"""C03: reported path information is true of the contraction that is executed."""
import re
from decimal import Decimal

import numpy as np
import opt_einsum as oe
import vrec

from .. import entry, gen, history, oracle, strategies, trace
from ..core import Family, Violation
from .c01 import draw_limit

RULE = "distinct (structure, sizes, path) whose every reported field was recomputed, and whose execution was traced"
ASSUMPTIONS = ["the cost model is: product of all index sizes of a step times max(1, terms-1), plus once if an index is summed; "
               "the naive count is that of one step, summing if an index is on two operands"]


def eqv(got, want, what):
    if got != want:
        raise Violation(f"{what}: reported {got!r}, true is {want!r}")


def check_info(con, sym, path, info, blas, what):
    sizes = con.eff_sizes()
    terms = ["".join(sym[c] for c in t) for t in con.terms]
    out = "".join(sym[c] for c in con.output)
    sd = {sym[c]: d for c, d in sizes.items()}
    st = oracle.replay(terms, out, sd, path)
    eqv([tuple(x) for x in info.path], [tuple(x) for x in path], what + " path")
    eqv(info.opt_cost, Decimal(oracle.total_flops(st)), what + " opt_cost")
    naive = oracle.naive_cost(terms, sd)
    eqv(info.naive_cost, Decimal(naive), what + " naive_cost")
    sp = Decimal(naive) / max(Decimal(oracle.total_flops(st)), Decimal(1))
    if abs(info.speedup - sp) > abs(sp) * Decimal("1e-12"):
        raise Violation(f"{what} speedup: reported {info.speedup}, true is {sp}")
    eqv(list(info.scale_list), [len(s.union) for s in st], what + " scale_list")
    eqv(list(info.size_list), [s.size for s in st], what + " size_list")
    eqv(info.largest_intermediate, Decimal(max(s.size for s in st)), what + " largest_intermediate")
    eqv(info.eq, ",".join(terms) + "->" + out, what + " eq")
    eqv(info.input_subscripts, ",".join(terms), what + " input_subscripts")
    eqv(info.output_subscript, out, what + " output_subscript")
    eqv(frozenset(info.indices), frozenset(sd), what + " indices")
    eqv(dict(info.size_dict), sd, what + " size_dict")
    eqv([tuple(s) for s in info.shapes], [tuple(sd[c] for c in t) for t in terms], what + " shapes")
    # the steps
    eqv(len(info.contraction_list), len(path), what + " number of steps")
    cur = list(terms)
    for k, (c, s) in enumerate(zip(info.contraction_list, st)):
        inds, removed, eq, remaining, flag = c
        eqv(tuple(sorted(inds)), tuple(sorted(path[k])), f"{what} step {k} positions")
        eqv(frozenset(removed), s.removed, f"{what} step {k} removed indices")
        lhs, _, rhs = eq.partition("->")
        # inds are popped one after the other, from the right
        mine = [cur.pop(i) for i in sorted(inds, reverse=True)]
        eqv(sorted(lhs.split(",")), sorted(mine), f"{what} step {k} operands")
        eqv(frozenset(rhs), s.result, f"{what} step {k} result")
        if len(set(rhs)) != len(rhs):
            raise Violation(f"{what} step {k}: repeated index in {eq!r}")
        if k == len(path) - 1:
            eqv(rhs, out, f"{what} final output")
        cur.append(rhs)
        if len(cur) <= 20:
            eqv(tuple(remaining) if remaining is not None else None, tuple(cur), f"{what} step {k} remaining")
        elif remaining is not None:
            eqv(tuple(remaining), tuple(cur), f"{what} step {k} remaining")
        if not blas and flag:
            raise Violation(f"{what} step {k}: marked {flag!r} although use_blas=False")
    return st


NUM = r"\s*([-+0-9.eE]+|Infinity|NaN)"


def check_repr(info, st, what):
    txt = repr(info)
    eqv(str(info), txt, what + " str")

    def field(name):
        m = re.search(name + ":" + NUM, txt)
        if not m:
            raise Violation(f"{what}: no {name!r} in the printed information")
        return m.group(1)

    if "Complete contraction:  " + info.eq + "\n" not in txt:
        raise Violation(f"{what}: printed equation is not {info.eq!r}")
    eqv(int(field("Naive scaling")), len(info.indices), what + " printed naive scaling")
    eqv(int(field("Optimized scaling")), max(len(s.union) for s in st), what + " printed scaling")
    eqv(field("Naive FLOP count"), f"{info.naive_cost:.3e}", what + " printed naive cost")
    eqv(field("Optimized FLOP count"), f"{info.opt_cost:.3e}", what + " printed cost")
    eqv(field("Theoretical speedup"), f"{info.speedup:.3e}", what + " printed speedup")
    eqv(field("Largest intermediate"), f"{info.largest_intermediate:.3e}", what + " printed largest intermediate")
    rows = txt.split("-" * 80)[-1].strip("\n").split("\n")
    eqv(len(rows), len(st), what + " printed rows")
    for k, (row, s, c) in enumerate(zip(rows, st, info.contraction_list)):
        f = row.split()
        eqv(int(f[0]), len(s.union), f"{what} printed scaling of step {k}")
        if f[1] not in ((str(c[4]),) if c[4] else ("0", "False")):
            raise Violation(f"{what} printed BLAS of step {k}: {f[1]!r}, it is {c[4]!r}")
        eqv(f[2], c[2], f"{what} printed equation of step {k}")
        eqv(f[3], (",".join(c[3]) + "->" + info.output_subscript) if c[3] is not None else "...", f"{what} printed remaining terms of step {k}")


FIELDS = ("path", "opt_cost", "naive_cost", "speedup", "scale_list", "size_list", "largest_intermediate", "eq", "input_subscripts",
          "output_subscript", "indices", "size_dict", "shapes")


def given(rng, con):
    """The shapes as the caller might hold them."""
    if rng.random() < 0.3:
        t = rng.choice((np.int32, np.int64, np.int16))
        return [tuple(map(t, s)) for s in con.shapes()]
    return [entry.shape_as(rng, s) for s in con.shapes()]


def draw(rng, con):
    r = rng.random()
    if r < 0.1:
        return "False", False
    if r < 0.4:
        p = gen.random_path(rng, con.n)
        return "path", p
    if r < 0.5 and con.n > 2:
        d, f = strategies.optimizer(rng, con.n)
        return d[0], f()
    s = rng.choice([s for s in strategies.names_for(con.n, True) if s != "random-greedy-128"])
    return s, s


def body(rng, mon, con, execute=True):
    sym = history.symbols(rng, mon, con)
    eq = con.eq(sym)
    arrays = gen.values(rng, con, "int64")
    d, opt = draw(rng, con)
    blas = rng.random() < 0.7
    lim = draw_limit(rng, con)
    mon.describe(eq=eq, shapes=con.shapes(), optimize=str(opt), use_blas=blas, memory_limit=lim)
    kw = dict(optimize=opt, use_blas=blas, memory_limit=lim)
    try:
        path, info = oe.contract_path(eq, *[entry.shape_as(rng, s) for s in con.shapes()], shapes=True, **kw)
    except RuntimeError as e:
        if lim not in (None, -1) and "memory_limit" in str(e):
            mon.ev("dp: no contraction within the memory limit")
            return
        raise
    try:
        oracle.check_path(path, con.n)
    except oracle.BadPath as e:
        raise Violation(f"invalid path: {e}")
    st = check_info(con, sym, path, info, blas, f"contract_path({eq!r}, {d})")
    check_repr(info, st, f"contract_path({eq!r}, {d})")
    kept = [tuple(p) for p in path]
    mon.ev("reports checked")
    mon.ev("steps checked", len(st))
    mon.sig(con.key(), tuple(map(tuple, path)), blas)
    # with arrays
    path2, info2 = oe.contract_path(eq, *arrays, optimize=path, use_blas=blas)
    eqv([tuple(p) for p in path2], [tuple(p) for p in path], "path with arrays")
    for f in FIELDS:
        if f != "path":
            eqv(getattr(info2, f), getattr(info, f), f"{f} with arrays instead of shapes")
    eqv([(tuple(c[0]), frozenset(c[1]), c[2], c[3], c[4]) for c in info2.contraction_list],
        [(tuple(c[0]), frozenset(c[1]), c[2], c[3], c[4]) for c in info.contraction_list], "steps with arrays")
    if rng.random() < 0.3:
        # what was said stays true whatever is looked at later
        history.prelude(rng, mon, con, sym, p=1.0)
        if [tuple(p) for p in path] != kept:
            raise Violation(f"contract_path({eq!r}, {d}): the path returned was {kept} and is {path} after later calls")
        check_repr(info, check_info(con, sym, path, info, blas, f"contract_path({eq!r}, {d}), after later calls"), f"contract_path({eq!r}, {d}), after later calls")
        mon.ev("reports looked at again after later calls")
    if not execute:
        return
    # execute
    rec = trace.fresh()
    how, fn = entry.prepare(rng, con, eq, trace.wrap(vrec, arrays), dict(optimize=path, use_blas=blas))
    mon.describe(how=how)
    res = fn()
    ts = trace.steps(rec.log)
    mon.ev("by " + how.split(" ")[0])
    if how.startswith("constants"):
        ts = trace.in_path_order(ts, st, f"{how}({eq!r}, optimize={path})")
    trace.match_path(ts, st, f"contract({eq!r}, optimize={path})", sizes=not con.ones)
    if res.data.shape != con.out_shape():
        raise Violation(f"contract({eq!r}, optimize={path}): shape {res.data.shape}")
    for k, (t, c) in enumerate(zip(ts, info.contraction_list)):
        dot = bool(c[4]) and "EINSUM" not in str(c[4])
        if (t.op == "tensordot") != dot:
            raise Violation(f"contract({eq!r}, optimize={path}): step {k} reported as {c[4]!r} was done with {t.op}")
    mon.ev("executions traced")
    mon.ev("backend operations observed", len(rec.log))
    mon.sample({"eq": eq, "path": [tuple(p) for p in path], "sizes": [s.size for s in st]})


def fam_small(rng, mon):
    con = gen.contraction(rng, 1, 6, budget=20000, bcast=0.15, zero=0.05)
    body(rng, mon, con)


def fam_big(rng, mon):
    """Reports only: sizes far beyond memory, more operands (also more than 20), exact big numbers."""
    con = gen.contraction(rng, 2, 9, budget=None, sizes=(1, 2, 7, 10, 99, 1000, 12345), maxrank=8)
    sym = history.symbols(rng, mon, con)
    eq = con.eq(sym)
    if rng.random() < 0.5:
        opt = gen.random_path(rng, con.n)
    else:
        opt = rng.choice([s for s in strategies.names_for(con.n) if s != "random-greedy-128"])
    blas = rng.random() < 0.7
    mon.describe(eq=eq, shapes=con.shapes(), optimize=str(opt))
    path, info = oe.contract_path(eq, *given(rng, con), shapes=True, optimize=opt, use_blas=blas)
    st = check_info(con, sym, path, info, blas, f"contract_path({eq!r}, {opt})")
    check_repr(info, st, f"contract_path({eq!r}, {opt})")
    mon.ev("reports checked")
    mon.sig(con.key(), tuple(map(tuple, path)))


def fam_many(rng, mon):
    con = gen.contraction(rng, 15, 40, budget=None, profile=rng.choice(("chain", "ring", "tree", "net", "grid")), sizes=(1, 2, 3, 9),
                          maxlabels=90, maxrank=5)
    sym = gen.symbols(rng, con, "mixed" if len(con.labels) > 52 else None)
    eq = con.eq(sym)
    opt = rng.choice(("auto", "greedy", gen.random_path(rng, con.n, "pair")))
    mon.describe(eq=eq, shapes=con.shapes(), optimize=str(opt))
    path, info = oe.contract_path(eq, *given(rng, con), shapes=True, optimize=opt)
    st = check_info(con, sym, path, info, True, f"contract_path({eq!r}, {opt})")
    check_repr(info, st, f"contract_path({eq!r}, {opt})")
    mon.ev("reports checked")
    mon.sig(con.key(), tuple(map(tuple, path)))


FAMILIES = [
    Family("small", fam_small, 12000, 150000),
    Family("big", fam_big, 4000, 40000),
    Family("many", fam_many, 400, 4000),
]
