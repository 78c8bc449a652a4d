"""C10: constant operands change only how often work is done."""
from collections import Counter

import numpy as np

import opt_einsum as oe
import vrec
import vrx
import vrxx
import vry
from vrec_base import REC

from .. import gen, oracle, trace
from ..core import Family, Skip, Violation
from .c09 import build, resize, torch

RULE = "distinct (structure, path, constants, call history) with values compared and every backend operation attributed to constants or variables"
ASSUMPTIONS = ["integer-valued operands small enough to be exact", "constants are not modified by the caller after the expression is built"]


def draw(rng, nmax=5, all_ok=False, ones=0.0):
    con = gen.contraction(rng, 1, nmax, budget=1500, sizes=(1, 2, 2, 3), bcast=ones)
    consts = [i for i in range(con.n) if rng.random() < 0.55]
    if len(consts) == con.n and not all_ok:
        consts.remove(rng.choice(consts))
    return con, consts


def vals(rng, con, dtype=np.int64, m=2):
    g = gen.nprng(rng)
    return [np.asarray(g.integers(-m, m, size=s, endpoint=True)).astype(dtype) for s in con.shapes()]


def parts(s):
    return tuple(sorted(tuple(sorted(p)) for p in s.parts))


def leading(st, cset):
    """Constant-only steps before the first step on other operands: their results' leaves, they, and the rest."""
    k = next((i for i, s in enumerate(st) if not s.leaves <= cset), len(st))
    return {s.leaves for s in st[:k]}, sorted(map(parts, st[:k])), sorted(map(parts, st[k:]))


def tparts(s):
    return tuple(sorted(tuple(sorted(int(l[1:]) for l in p)) for p in s.parts))


def subtract(a, b):
    return Counter(a) - Counter(b)


def executed(log):
    return sorted(map(tparts, trace.steps(log)))


def fam_trace(rng, mon):
    """Recording backends: which operations are executed, and when."""
    con, consts = draw(rng, 6, all_ok=True, ones=0.1)
    if not consts:
        raise Skip("no constants drawn")
    eq, kw = build(rng, mon, con)
    path, info = oe.contract_path(eq, *con.shapes(), shapes=True, optimize=kw["optimize"], use_blas=kw["use_blas"])
    kw["optimize"] = [tuple(p) for p in path]
    st = oracle.replay(con.terms, con.output, con.eff_sizes(), path)
    cset = frozenset(consts)
    _, want_const, want_var = leading(st, cset)
    base = vals(rng, con)
    full = trace.wrap(vrec, base)
    order = rng.sample(consts, len(consts))
    args = [full[i] if i in cset else con.shapes()[i] for i in range(con.n)]
    what0 = f"expression {eq!r} {kw['optimize']} constants={order}"
    mon.describe(eq=eq, shapes=con.shapes(), path=kw["optimize"], constants=order)
    REC.reset()
    expr = oe.contract_expression(eq, *args, constants=rng.choice((list, tuple, set))(order), **kw)
    r0 = repr(expr)
    if REC.log:
        raise Violation(f"{what0}: operations were executed while building")
    var = [i for i in range(con.n) if i not in cset]
    seen, hist = set(), []
    backends = ["vrx", "vry", "auto", "vrxx"]
    for _ in range(rng.randint(3, 7) if rng.random() < 0.99 else rng.randint(30, 140)):
        bk = rng.choice(backends)
        x = vals(rng, con)
        cur = [base[i] if i in cset else x[i] for i in range(con.n)]
        ops = [vrec.Arr(x[i], [f"x{i}"]) for i in var]
        REC.reset()
        eff = "vrec" if bk == "auto" else bk
        what = f"{what0} after {hist[-12:]}, called with backend {bk}"
        mon.describe(history=list(hist) + [bk])
        kw2 = {} if bk == "auto" else {"backend": bk}
        mode = rng.choice(("plain", "plain", "out", "pre", "arity", "share", "again"))
        into = None
        if mode == "arity":
            try:
                expr(*(ops + [full[0]]), **kw2)
            except Exception:
                pass
            else:
                raise Violation(f"{what}: too many arrays accepted")
            # whatever it executed counts towards this backend
        elif mode == "pre" and eff not in seen:
            expr.evaluate_constants(eff)
        log0 = list(REC.log)
        REC.reset()
        if mode == "out":
            into = {"vrec": vrec, "vrx": vrx, "vry": vry, "vrxx": vrxx}[eff].Arr(np.full(con.out_shape(), 99), ["out"])
            res = expr(*ops, out=into, **kw2)
            if res is not into:
                raise Violation(f"{what}: out was not returned")
            mon.ev("calls with out")
        elif mode == "share":
            with oe.shared_intermediates():
                res = expr(*ops, **kw2)
        elif mode == "again":
            # the same arrays twice
            res = expr(*ops, **kw2)
            log0 += REC.log
            REC.reset()
            if not oracle.same(expr(*ops, **kw2).data, res.data):
                raise Violation(f"{what}: another result for the same arrays")
            if executed(REC.log) != want_var:
                raise Violation(f"{what}: the second call executed {executed(REC.log)}, expected {want_var}")
            REC.reset()
        else:
            res = expr(*ops, **kw2)
        log = log0 + list(REC.log)
        if any(e.backend != eff for e in log):
            raise Violation(f"{what}: executed with {[e.backend for e in log]}")
        if st and (len(st) > 0) and var and type(res) is not {"vrec": vrec, "vrx": vrx, "vry": vry, "vrxx": vrxx}[eff].Arr:
            raise Violation(f"{what}: result is a {type(res)}")
        want = oracle.of(con, cur)
        if np.shape(res.data) != want.shape or not oracle.same(res.data, want):
            raise Violation(f"{what}: wrong result")
        got = executed(log)
        if eff in seen:
            if (got != want_var) if mode != "share" else subtract(got, want_var):
                raise Violation(f"{what}: a later call executed {got}, expected {want_var}")
            mon.ev("later calls without constant operations")
        else:
            want_all = sorted(want_const + want_var)
            if (got != want_all) if mode != "share" else subtract(got, want_all):
                raise Violation(f"{what}: the first call executed {got}, expected {want_const} and {want_var}")
            seen.add(eff)
            mon.ev("first calls")
            mon.ev("constant operations", len(want_const))
        if repr(expr) != r0:
            raise Violation(f"{what}: repr changed to {expr!r}")
        mon.ev("calls compared")
        hist.append(bk + ("" if mode == "plain" else "/" + mode))
    mon.sig(con.key(), tuple(kw["optimize"]), tuple(consts), tuple(hist))
    mon.sample({"eq": eq, "constants": consts, "path": kw["optimize"], "history": hist, "constant steps": len(want_const)})


class Boom(RuntimeError):
    pass


def fam_fault(rng, mon):
    """The k-th operation of the first call fails; the next call is right and ends the constant work."""
    con, consts = draw(rng, 5)
    if not consts:
        raise Skip("no constants drawn")
    eq, kw = build(rng, mon, con)
    path, _ = oe.contract_path(eq, *con.shapes(), shapes=True, optimize=kw["optimize"], use_blas=kw["use_blas"])
    kw["optimize"] = [tuple(p) for p in path]
    base = vals(rng, con)
    full = trace.wrap(vrec, base)
    cset = set(consts)
    _, want_const, want_var = leading(oracle.replay(con.terms, con.output, con.eff_sizes(), path), cset)
    expr = oe.contract_expression(eq, *[full[i] if i in cset else con.shapes()[i] for i in range(con.n)], constants=consts, **kw)
    ops = [full[i] for i in range(con.n) if i not in cset]
    want = oracle.of(con, base)
    mon.describe(eq=eq, shapes=con.shapes(), kw=str(kw), constants=consts)
    k = rng.randint(1, max(1, 2 * con.n))
    REC.reset()

    def fault(c, op):
        if c == k:
            raise Boom(op)

    REC.fault = fault
    failed = False
    try:
        res = expr(*ops)
    except Boom:
        failed = True
    finally:
        REC.fault = None
    if not failed:
        mon.ev("no fault reached")
        if not oracle.same(res.data, want):
            raise Violation(f"expression {eq!r} constants={consts}: wrong result")
    else:
        mon.ev("faults injected")
    for r in range(2):
        REC.log = []
        if not oracle.same(expr(*ops).data, want):
            raise Violation(f"expression {eq!r} constants={consts}: wrong result after operation {k} of the first call failed")
        if (r or not failed) and executed(REC.log) != want_var:
            raise Violation(f"expression {eq!r} constants={consts}: constant operations executed again")
        mon.ev("calls compared")
    mon.sig(con.key(), tuple(consts), k, failed)


def fam_numpy(rng, mon):
    """NumPy and converting backends, any history; all-constant expressions."""
    con, consts = draw(rng, 5, all_ok=True)
    use_torch = rng.random() < 0.5
    if len(consts) == con.n:
        use_torch = False
    eq, kw = build(rng, mon, con)
    cset = set(consts)
    base = vals(rng, con, np.float64)
    if rng.random() < 0.4:
        # one array in several places
        for i in range(1, con.n):
            for j in range(i):
                if base[i].shape == base[j].shape and rng.random() < 0.7:
                    base[i] = base[j]
                    mon.ev("one array in several places")
    args = [base[i] if i in cset else con.shapes()[i] for i in range(con.n)]
    what0 = f"expression {eq!r} {con.shapes()} {kw} constants={consts}"
    mon.describe(eq=eq, shapes=con.shapes(), kw=str(kw), constants=consts)
    snap = [b.copy() for b in base]
    expr = oe.contract_expression(eq, *args, constants=consts, **kw)
    var = [i for i in range(con.n) if i not in cset]
    hist = []
    for _ in range(rng.randint(2, 6)):
        # sizes of indices that are on variables only may change
        fixed = {c for i in consts for c in con.terms[i]}
        sz = dict(con.sizes)
        if rng.random() < 0.4:
            for c in sz:
                if c not in fixed:
                    sz[c] = rng.choice((1, 2, 3))
        c2 = gen.Con(con.terms, con.output, sz)
        x = vals(rng, c2, np.float64)
        cur = [base[i] if i in cset else x[i] for i in range(con.n)]
        ops = [np.ascontiguousarray(x[i]).reshape(x[i].shape) for i in var]
        want = oracle.of(c2, cur, np.int64)
        kind = rng.choice(("plain", "numpy", "out", "share", "fail") + (("torch", "totorch", "torch", "totorch", "outtorch") if use_torch else ()))
        what = f"{what0} after {hist}: {kind} {c2.shapes()}"
        mon.describe(history=hist + [kind])
        if kind == "fail":
            try:
                expr(*(ops + [base[0]]))
            except Exception:
                hist.append(kind)
                continue
            raise Violation(f"{what}: accepted")
        if kind == "plain":
            res = expr(*ops)
        elif kind == "numpy":
            res = expr(*ops, backend="numpy")
        elif kind == "out":
            out = np.full(want.shape, 9.0)
            res = expr(*ops, out=out)
            if res is not out:
                raise Violation(f"{what}: out was not returned")
        elif kind == "share":
            with oe.shared_intermediates():
                res = expr(*ops)
                res2 = expr(*ops)
            if not oracle.same(res, res2):
                raise Violation(f"{what}: another result for the same arrays")
        elif kind == "torch":
            t = torch()
            res = expr(*[t.from_numpy(o) for o in ops])
            if not isinstance(res, t.Tensor):
                raise Violation(f"{what}: result is a {type(res)}")
            res = res.numpy()
        else:
            torch()
            if kind == "outtorch":
                out = np.full(want.shape, 9.0)
                res = expr(*ops, out=out, backend="torch")
                if res is not out:
                    raise Violation(f"{what}: out was not returned")
            else:
                res = expr(*ops, backend="torch")
        if isinstance(res, np.ndarray) or np.isscalar(res):
            pass
        if np.shape(res) != want.shape or not np.array_equal(np.asarray(res), want):
            raise Violation(f"{what}: wrong result")
        for b, s in zip(base, snap):
            if not np.array_equal(b, s):
                raise Violation(f"{what}: a constant was modified")
        hist.append(kind + ("'" if c2.sizes != con.sizes else ""))
        mon.ev("calls compared")
        mon.ev("call " + kind)
    if len(consts) == con.n:
        mon.ev("all constant")
    mon.sig(con.key(), tuple(consts), tuple(hist))


FAMILIES = [
    Family("trace", fam_trace, 5000, 60000),
    Family("fault", fam_fault, 3000, 30000),
    Family("numpy", fam_numpy, 3000, 30000, chunk=150),
]
