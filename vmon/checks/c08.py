"""C08: malformed contractions are rejected, never computed, and leave no trace."""
import numpy as np

import opt_einsum as oe
from opt_einsum import sharing

from .. import gen, history, oracle, strategies
from ..core import Family, Skip, Violation

RULE = "distinct (structure, fault, entry point) for which an exception was required and observed"
ASSUMPTIONS = ["any exception counts as a rejection",
               "the documented lack of checks of the rank of arrays given to an expression is not a fault; strategy names are looked up "
               "only when there are three or more operands"]


def occ(con):
    """label -> list of (term, position, dim)"""
    d = {}
    for i, (t, s) in enumerate(zip(con.terms, con.shapes())):
        for j, (c, k) in enumerate(zip(t, s)):
            d.setdefault(c, []).append((i, j, k))
    return d


def arr(rng, shape):
    return gen.nprng(rng).integers(-3, 3, size=shape, endpoint=True)


# Every fault: (rng, con, sym, shapes) -> (equation, shapes, kwargs) or None.


def f_drop_operand(rng, con, eq, sh):
    k = rng.randrange(len(sh))
    return eq, sh[:k] + sh[k + 1:], {}


def f_extra_operand(rng, con, eq, sh):
    k = rng.randint(0, len(sh))
    extra = rng.choice([(), (2,), rng.choice(sh)])
    return eq, sh[:k] + [extra] + sh[k:], {}


def f_extra_term(rng, con, eq, sh):
    lhs, out = eq.split("->")
    ts = lhs.split(",")
    ts.insert(rng.randint(0, len(ts)), rng.choice(ts + [""]))
    return ",".join(ts) + "->" + out, sh, {}


def f_extra_dim(rng, con, eq, sh):
    k = rng.randrange(len(sh))
    p = rng.randint(0, len(sh[k]))
    return eq, sh[:k] + [sh[k][:p] + (rng.choice((1, 2, 3)),) + sh[k][p:]] + sh[k + 1:], {}


def f_missing_dim(rng, con, eq, sh):
    ks = [k for k in range(len(sh)) if sh[k]]
    if not ks:
        return None
    k = rng.choice(ks)
    p = rng.randrange(len(sh[k]))
    return eq, sh[:k] + [sh[k][:p] + sh[k][p + 1:]] + sh[k + 1:], {}


def f_extra_label(rng, con, eq, sh):
    lhs, out = eq.split("->")
    ts = lhs.split(",")
    k = rng.randrange(len(ts))
    p = rng.randint(0, len(ts[k]))
    c = rng.choice([x for x in lhs if x != ","] + ["q", "Z"])
    ts[k] = ts[k][:p] + c + ts[k][p:]
    return ",".join(ts) + "->" + out, sh, {}


def f_missing_label(rng, con, eq, sh):
    lhs, out = eq.split("->")
    ts = lhs.split(",")
    ks = [k for k in range(len(ts)) if ts[k]]
    if not ks:
        return None
    k = rng.choice(ks)
    p = rng.randrange(len(ts[k]))
    ts[k] = ts[k][:p] + ts[k][p + 1:]
    lhs = ",".join(ts)
    return lhs + "->" + "".join(c for c in out if c in lhs), sh, {}


def f_size(rng, con, eq, sh):
    o = {c: v for c, v in occ(con).items() if sum(d != 1 for _, _, d in v) >= 2}
    if not o:
        return None
    c = rng.choice(sorted(o))
    i, j, d = rng.choice([x for x in o[c] if x[2] != 1])
    new = rng.choice([x for x in (d + 1, d + 2, 2 * d + 3, d - 1) if x > 1 and x != d] + ([0] if d else []))
    sh = list(sh)
    sh[i] = sh[i][:j] + (new,) + sh[i][j + 1:]
    return eq, sh, {}


def f_out_twice(rng, con, eq, sh):
    lhs, out = eq.split("->")
    cs = [c for c in lhs if c != ","]
    if not cs:
        return None
    c = rng.choice(list(out) or cs)
    if c not in out:
        out += c
    p = rng.randint(0, len(out))
    return lhs + "->" + out[:p] + c + out[p:], sh, {}


def f_out_unknown(rng, con, eq, sh):
    lhs, out = eq.split("->")
    c = next(x for x in rng.sample(gen.LETTERS + "".join(gen.EXOTIC), 60) if x not in lhs)
    p = rng.randint(0, len(out))
    return lhs + "->" + out[:p] + c + out[p:], sh, {}


def f_arrow(rng, con, eq, sh):
    lhs, out = eq.split("->")
    p = rng.randint(0, len(lhs))
    if rng.random() < 0.4:
        # a stray character in the place of an index, so that the number of indices fits
        c = rng.choice("->")
        ts, sh = lhs.split(","), [tuple(s) for s in sh]
        k, d = rng.randrange(len(ts)), rng.choice((1, 2, 3))
        q = rng.randint(0, len(ts[k]))
        ts[k], sh[k] = ts[k][:q] + c + ts[k][q:], sh[k][:q] + (d,) + sh[k][q:]
        o = rng.randint(0, len(out))
        return ",".join(ts) + "->" + (out[:o] + c + out[o:] if rng.random() < 0.3 else out), sh, {}
    return rng.choice((f"{lhs}-{out}", f"{lhs}>{out}", f"{lhs}->->{out}", f"{lhs}->{out}->", f"{lhs}>-{out}", f"{lhs}-->{out}",
                       f"{lhs}->>{out}", f"{lhs[:p]}-{lhs[p:]}->{out}", f"{lhs[:p]}>{lhs[p:]}->{out}", f"->{lhs}->{out}",
                       f"{lhs}->{out}-", f"{lhs}->{out}>", f"{lhs[:p]}->{lhs[p:]}->{out}")), sh, {}


def f_dots(rng, con, eq, sh):
    lhs, out = eq.split("->")
    ts = lhs.split(",")
    k = rng.randrange(len(ts))
    p = rng.randint(0, len(ts[k]))
    q = rng.randint(0, len(out))
    kind = rng.choice(("in", "in", "out", "two"))
    sh = list(sh)
    if rng.random() < 0.7:
        # so many dimensions that the dots could be taken for something
        sh[k] = sh[k][:p] + tuple(rng.randint(1, 3) for _ in range(rng.randint(1, 4))) + sh[k][p:]
    if kind == "in":
        ts[k] = ts[k][:p] + rng.choice((".", "..", "....", ".....", "......")) + ts[k][p:]
    elif kind == "two":
        r = rng.randint(p, len(ts[k]))
        ts[k] = ts[k][:p] + "..." + ts[k][p:r] + rng.choice(("...", ".", "..")) + ts[k][r:]
    else:
        out = out[:q] + rng.choice((".", "..", "....", ".....")) + out[q:]
    if kind != "out":
        out = rng.choice(("->" + out, "->..." + out, ""))
    else:
        out = "->" + out
    return ",".join(ts) + out, sh, {}


def f_ellipsis_short(rng, con, eq, sh):
    """An ellipsis for fewer than zero dimensions."""
    lhs, out = eq.split("->")
    ts = lhs.split(",")
    ks = [k for k in range(len(sh)) if len(sh[k]) >= 1]
    if not ks:
        return None
    k = rng.choice(ks)
    p = rng.randint(0, len(ts[k]))
    ts[k] = ts[k][:p] + "..." + ts[k][p:]
    sh = list(sh)
    sh[k] = sh[k][1:]
    if not sh[k] and False:
        return None
    return ",".join(ts) + "->..." + out, sh, {}


def f_ellipsis_size(rng, con, eq, sh):
    """Conflicting sizes of an ellipsis dimension."""
    lhs, out = eq.split("->")
    ts = lhs.split(",")
    if len(ts) < 2:
        return None
    i, j = rng.sample(range(len(ts)), 2)
    sh = list(sh)
    a, b = rng.sample((2, 3, 4, 5), 2)
    for k, d in ((i, a), (j, b)):
        p = rng.randint(0, len(ts[k]))
        ts[k] = ts[k][:p] + "..." + ts[k][p:]
        sh[k] = sh[k][:p] + (d,) + sh[k][p:]
    return ",".join(ts) + "->..." + out, sh, {}


def f_memory(rng, con, eq, sh):
    return eq, sh, {"memory_limit": rng.choice((0, -2, -10, 0.5, -0.5, "max", "max_inputs", "", "none", "5", -1.5, [], {}, (1,)))}


def f_strategy(rng, con, eq, sh):
    if con.n < 3:
        return None
    return eq, sh, {"optimize": rng.choice(("optimum", "greed", "", "auto_hq", "branch-3", "dp ", "dynamic programming", "random-greedy-64", "none",
                                            "False", "branch", "optimal-"))}


def f_path(rng, con, eq, sh):
    n = con.n
    p = [tuple(x) for x in gen.random_path(rng, n, "pair")]
    if n == 1:
        p = rng.choice(([(1,)], [(0, 1)], [()]))
    else:
        k = rng.choice(("cut", "range", "after", "empty", "word", "wrongn", "twice"))
        if k == "cut":
            p = p[:-1]
        elif k == "wrongn":
            p = [tuple(x) for x in gen.random_path(rng, n + rng.choice((1, -1)) if n > 2 else n + 1, "pair")]
            if n > 2 and len(p) == n - 1:
                return None
        elif k == "range":
            s = rng.randrange(len(p))
            p[s] = (p[s][0], n - s + rng.randint(0, 2))
        elif k == "after":
            p = p + [(0, 1)]
        elif k == "twice":
            # one position twice, in a step too many
            s = rng.randrange(len(p))
            q = rng.randrange(n - s)
            p.insert(s, (q, q))
        elif k == "empty":
            p.insert(rng.randint(0, len(p)), ())
        else:
            p[rng.randrange(len(p))] = rng.choice((("a", "b"), (0.5, 1.5), (None, 0)))
    if not p:
        # an empty list means that no path was given to contract_expression, which is an error as well
        p = []
    return eq, sh, {"optimize": p}


def f_kwarg(rng, con, eq, sh):
    return eq, sh, {rng.choice(("optimise", "shape", "memory", "blas", "foo")): rng.choice((1, 2.5, "x"))}


def f_build(rng, con, eq, sh):
    k = rng.choice(("out", "backend", "opt", "const", "neg"))
    if k == "out":
        return eq, sh, {"out": np.zeros(con.out_shape())}
    if k == "backend":
        return eq, sh, {"backend": "numpy"}
    if k == "opt":
        return eq, sh, {"optimize": False}
    return eq, sh, {"constants": [con.n + rng.randint(0, 2)]}


FAULTS = {f.__name__[2:]: f for f in (f_drop_operand, f_extra_operand, f_extra_term, f_extra_dim, f_missing_dim, f_extra_label, f_missing_label,
                                      f_size, f_out_twice, f_out_unknown, f_arrow, f_dots, f_ellipsis_short, f_ellipsis_size, f_memory,
                                      f_strategy, f_path, f_kwarg, f_build)}
SEARCHED = ("memory", "strategy", "path")


def call(entry, rng, eq, sh, kw, strat):
    kw = dict({"optimize": strat}, **kw)
    if entry == "contract":
        return oe.contract(eq, *[arr(rng, s) for s in sh], **kw)
    if entry == "noblas":
        return oe.contract(eq, *[arr(rng, s) for s in sh], **dict(kw, use_blas=False))
    if entry == "false":
        kw["optimize"] = False
        return oe.contract(eq, *[arr(rng, s) for s in sh], **kw)
    if entry == "path":
        return oe.contract_path(eq, *[arr(rng, s) for s in sh], **kw)
    if entry == "shapes":
        return oe.contract_path(eq, *sh, shapes=True, **kw)
    if entry == "expr":
        return oe.contract_expression(eq, *sh, **kw)
    raise AssertionError(entry)


def zero_diagonal(eq, sh):
    """An index repeated inside of one operand, of size 0 on one axis and of another size on another: NumPy's own einsum, to which
    optimize=False hands the call unchanged, reads uninitialised memory here instead of raising (np.einsum("ii", np.ones((0, 2))))."""
    for t, s in zip(eq.split("->")[0].split(","), sh):
        for c in set(t):
            d = {s[k] for k in range(min(len(t), len(s))) if t[k] == c}
            if 0 in d and len(d) > 1:
                return True
    return False


def probe(rng, con, eq, arrays, want, expr, what):
    """Valid use still works."""
    if sharing.currently_sharing():
        raise Violation(f"{what}: the thread is left sharing")
    for k, r in (("contract", oe.contract(eq, *arrays)), ("expression", expr(*arrays))):
        if np.shape(r) != want.shape or not np.array_equal(r, want):
            raise Violation(f"{what}: a valid {k} gives another result afterwards")


def body(rng, mon):
    con = gen.contraction(rng, 1, 5, budget=2000, bcast=0.15, zero=0.02, sizes=(1, 2, 2, 3, 4))
    eq = con.eq(history.symbols(rng, mon, con))
    arrays = [arr(rng, s) for s in con.shapes()]
    want = oracle.of(con, arrays)
    expr = oe.contract_expression(eq, *con.shapes())
    probe(rng, con, eq, arrays, want, expr, "valid call")
    done = 0
    for _ in range(4):
        name = rng.choice(list(FAULTS))
        r = FAULTS[name](rng, con, eq, list(con.shapes()))
        if r is None:
            continue
        beq, bsh, kw = r
        if name == "build":
            entry = "expr"
        elif name == "kwarg":
            entry = rng.choice(("path", "shapes", "contract"))
        elif name in SEARCHED:
            entry = rng.choice(("contract", "noblas", "path", "shapes", "expr"))
        else:
            entry = rng.choice(("contract", "noblas", "path", "shapes", "expr", "false"))
        if entry == "false" and zero_diagonal(beq, bsh):
            entry = "path"
        strat = rng.choice([s for s in strategies.names_for(max(1, con.n)) if s != "random-greedy-128"] + [True])
        implicit = rng.random() < 0.2 and name in ("drop_operand", "extra_operand", "extra_dim", "missing_dim", "size", "extra_label",
                                                   "memory", "strategy")
        if implicit:
            beq = beq.split("->")[0]
        what = f"{entry}({beq!r}, {bsh}, {kw}) [{name}]"
        mon.describe(fault=name, entry=entry, eq=beq, shapes=bsh, kwargs=kw, valid=eq)
        share = rng.random() < 0.25
        try:
            if share:
                with oe.shared_intermediates():
                    res = call(entry, rng, beq, bsh, kw, strat)
            else:
                res = call(entry, rng, beq, bsh, kw, strat)
        except Exception:
            mon.ev("rejections observed")
            mon.ev("fault " + name)
            mon.sig(con.key(), name, entry, str(kw), beq if name in ("arrow", "dots") else "")
        else:
            raise Violation(f"{what} was accepted and gave {str(res)[:200]}")
        done += 1
        probe(rng, con, eq, arrays, want, expr, f"after {what}")
    if not done:
        raise Skip("no fault applies")
    mon.sample({"what": what})


def fam_faults(rng, mon):
    body(rng, mon)


def fam_large(rng, mon):
    """Sizes that do not agree, of dimensions far larger than any array here: told from the shapes alone."""
    con = gen.contraction(rng, 1, 5, budget=None, bcast=0.1, sizes=rng.choice(((2, 1000, 5000), (2**10, 2**16, 3), (2**20 + 1, 2**31, 2**33), (10**9, 10**13, 2))))
    eq = con.eq(history.symbols(rng, mon, con))
    oe.contract_path(eq, *con.shapes(), shapes=True)
    o = {c: v for c, v in occ(con).items() if sum(d != 1 for _, _, d in v) >= 2}
    if not o:
        raise Skip("no index occurs twice")
    c = rng.choice(sorted(o))
    i, j, d = rng.choice([x for x in o[c] if x[2] != 1])
    new = rng.choice([x for x in (d + 1, d - 1, 2 * d, d * d, d // 2, d + 2**31, d + 2**32, 2 * d + 3) if x > 1 and x != d])
    sh = list(con.shapes())
    sh[i] = sh[i][:j] + (new,) + sh[i][j + 1:]
    entry = rng.choice(("shapes", "expr"))
    strat = rng.choice([s for s in strategies.names_for(max(1, con.n)) if s != "random-greedy-128"] + [True])
    what = f"{entry}({eq!r}, {sh})"
    mon.describe(entry=entry, eq=eq, shapes=sh)
    try:
        res = call(entry, rng, eq, sh, {}, strat)
    except Exception:
        mon.ev("rejections observed")
        mon.ev("fault large size")
        mon.sig(con.key(), "large", entry, new)
    else:
        raise Violation(f"{what} was accepted and gave {str(res)[:200]}")


def fam_expression(rng, mon):
    """Calls of a valid expression with the wrong number of arrays or conflicting sizes, and valid calls around them."""
    con = gen.contraction(rng, 1, 5, budget=2000, sizes=(2, 2, 3, 4))
    eq = con.eq(gen.symbols(rng, con))
    arrays = [arr(rng, s) for s in con.shapes()]
    want = oracle.of(con, arrays)
    consts = [i for i in range(con.n) if rng.random() < 0.3]
    strat = rng.choice([s for s in strategies.names_for(con.n) if s != "random-greedy-128"])
    expr = oe.contract_expression(eq, *[arrays[i] if i in consts else con.shapes()[i] for i in range(con.n)], constants=consts,
                                  optimize=strat, use_blas=rng.random() < 0.6)
    var = [i for i in range(con.n) if i not in consts]
    started = rng.random() < 0.6 and var
    if started:
        if not np.array_equal(expr(*[arrays[i] for i in var]), want):
            raise Violation(f"{expr}: wrong value")
    for _ in range(3):
        kind = rng.choice(("few", "many", "size", "all"))
        args = [arrays[i] for i in var]
        if kind == "few":
            if not args:
                continue
            del args[rng.randrange(len(args))]
        elif kind == "many":
            args.insert(rng.randint(0, len(args)), arr(rng, rng.choice(con.shapes() + [()])))
        elif kind == "all":
            if not consts:
                continue
            args = list(arrays)
        else:
            o = [(c, i, j) for c, v in occ(con).items() if len(v) > 1 for i, j, d in v if i in var and d > 1]
            if not o:
                continue
            c, i, j = rng.choice(o)
            s = list(con.shapes()[i])
            s[j] += rng.randint(1, 3)
            args[var.index(i)] = arr(rng, tuple(s))
        what = f"{expr!r} called with shapes {[a.shape for a in args]} [{kind}]"
        mon.describe(what=what, eq=eq, shapes=con.shapes(), constants=consts)
        try:
            if rng.random() < 0.3:
                with oe.shared_intermediates():
                    res = expr(*args)
            else:
                res = expr(*args)
        except Exception:
            mon.ev("rejections observed")
            mon.ev("expression fault " + kind)
            mon.sig(con.key(), kind, tuple(consts), tuple(a.shape for a in args))
        else:
            raise Violation(f"{what} gave {str(res)[:200]}")
        if sharing.currently_sharing():
            raise Violation(f"{what}: the thread is left sharing")
        if var or consts:
            r = expr(*[arrays[i] for i in var])
            if np.shape(r) != want.shape or not np.array_equal(r, want):
                raise Violation(f"{what}: the next valid call gives another result")
            mon.ev("valid calls after a rejection")


def fam_interleaved(rng, mon):
    """Faults in the interleaved format."""
    con = gen.contraction(rng, 1, 4, budget=500, sizes=(2, 2, 3))
    arrays = [arr(rng, s) for s in con.shapes()]
    subs = [list(t) for t in con.terms]
    out = list(con.output)
    kind = rng.choice(("rank", "size", "outtwice", "outunknown", "mixed", "unhashable", "two-ellipsis"))
    k = rng.randrange(con.n)
    if kind == "rank":
        arrays[k] = arr(rng, con.shapes()[k] + (2,))
    elif kind == "size":
        o = [(i, j) for c, v in occ(con).items() if len(v) > 1 for i, j, d in v if d > 1]
        if not o:
            raise Skip("no shared label")
        i, j = rng.choice(o)
        s = list(con.shapes()[i])
        s[j] += 2
        arrays[i] = arr(rng, tuple(s))
    elif kind == "outtwice":
        if not con.labels:
            raise Skip("no labels")
        c = rng.choice(con.labels)
        out = [c] + [x for x in out if x != c] + [c]
    elif kind == "outunknown":
        out.append(10 ** 6)
    elif kind == "mixed":
        if not con.labels:
            raise Skip("no labels")
        subs[k] = subs[k] + ["x"]
        arrays[k] = arr(rng, con.shapes()[k] + (2,))
    elif kind == "unhashable":
        subs[k] = subs[k] + [[7]]
        arrays[k] = arr(rng, con.shapes()[k] + (2,))
    else:
        subs[k] = [Ellipsis] + subs[k] + [Ellipsis]
    args = [x for a, s in zip(arrays, subs) for x in (a, s)]
    args.append(out)
    entry = rng.choice(("contract", "path", "expr", "false"))
    what = f"{entry} interleaved {subs} -> {out} [{kind}]"
    mon.describe(what=what, shapes=[a.shape for a in arrays])
    try:
        if entry == "contract":
            res = oe.contract(*args)
        elif entry == "false":
            res = oe.contract(*args, optimize=False)
        elif entry == "path":
            res = oe.contract_path(*args)
        else:
            res = oe.contract_expression(*[a.shape if i % 2 == 0 and i < 2 * con.n else a for i, a in enumerate(args)])
    except Exception:
        mon.ev("rejections observed")
        mon.ev("interleaved fault " + kind)
        mon.sig(con.key(), kind, entry)
    else:
        raise Violation(f"{what} gave {str(res)[:200]}")


FAMILIES = [
    Family("faults", fam_faults, 12000, 150000),
    Family("large", fam_large, 2000, 20000),
    Family("expression", fam_expression, 5000, 60000),
    Family("interleaved", fam_interleaved, 3000, 30000),
]
