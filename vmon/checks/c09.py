"""C09: expressions equal direct contraction over any call history."""
import numpy as np

import opt_einsum as oe
import vrec
import vrec2
import vrx
import vry
from opt_einsum import sharing

from .. import entry, gen, history, oracle, strategies, trace
from ..core import Family, Skip, Violation

RULE = "distinct (structure, strategy, call history) with every call compared with the einsum value and with direct contraction"
ASSUMPTIONS = ["integer-valued operands small enough to be exact in every dtype used",
               "calls with other sizes introduce no broadcasting that the expression was not built for"]


def torch():
    import torch as t

    t.set_num_threads(1)
    return t


def resize(rng, con, sizes=(1, 2, 2, 3)):
    """The same structure with other sizes; no broadcasting."""
    if rng.random() < 0.4:
        return con
    sz = {c: rng.choice(sizes) for c in con.sizes}
    p = 1
    for c in sz:
        p *= sz[c]
        if p > 3000:
            sz[c] = 1
            p //= 2
    return gen.Con(con.terms, con.output, sz)


def build(rng, mon, con, nobcast=False):
    eq = con.eq(history.symbols(rng, mon, con))
    names = [s for s in strategies.names_for(con.n) if s != "random-greedy-128"]
    r = rng.random()
    if r < 0.6:
        opt = rng.choice(names + [True])
    elif r < 0.8:
        opt = gen.random_path(rng, con.n)
    else:
        opt = strategies.optimizer(rng, con.n)[1]() if con.n > 2 else "auto"
    kw = dict(optimize=opt, use_blas=rng.random() < 0.7)
    if rng.random() < 0.15:
        kw["memory_limit"] = rng.choice((-1, 10 ** 6, None))
    return eq, kw


def call_once(rng, mon, con, eq, expr, kinds, what, cache=None, kept=None):
    """One call; returns a short description."""
    kind = rng.choice(kinds)
    c2 = con if con.ones else resize(rng, con)
    g = gen.nprng(rng)
    m = 2
    dtype = rng.choice(("int64", "float64", "float64", "complex128"))
    if kind in ("torch", "totorch"):
        dtype = "float64"
    arrays = [np.asarray(g.integers(-m, m, size=s, endpoint=True)).astype(dtype) for s in c2.shapes()]
    ops = [gen.relayout(rng, a) for a in arrays]
    want = oracle.of(c2, arrays, np.complex128 if dtype == "complex128" else np.int64)
    what = f"{what}; now {kind} {c2.shapes()} {dtype}"
    if kind == "fail":
        bad = ops + [ops[0]] if rng.random() < 0.5 else ops[:-1]
        try:
            expr(*bad)
        except Exception:
            mon.ev("failing calls")
            return "fail"
        raise Violation(f"{what}: wrong number of arrays accepted")
    if kind == "lists":
        # nested sequences in place of some of the arrays
        ops = [o.tolist() if o.ndim and (rng.random() < 0.5 or len(ops) == 1) else o for o in ops]
    if kind in ("plain", "lists"):
        res = expr(*ops)
    elif kind == "numpy":
        res = expr(*ops, backend="numpy")
    elif kind == "share":
        with oe.shared_intermediates(cache):
            res = expr(*ops)
            if rng.random() < 0.5:
                again = expr(*ops)
                if not oracle.same(again, res):
                    raise Violation(f"{what}: the second call in a sharing context gives another result")
    elif kind == "out":
        out = gen.relayout(rng, np.full(want.shape, 77, dtype=dtype), rng.choice(("C", "F", "T", "neg", "gap")))
        res = expr(*ops, out=out)
        if res is not out:
            raise Violation(f"{what}: out was not returned")
    elif kind in ("vrec", "vrec2"):
        mod = {"vrec": vrec, "vrec2": vrec2}[kind]
        trace.fresh()
        res = expr(*trace.wrap(mod, arrays))
        if type(res) is not mod.Arr:
            raise Violation(f"{what}: result is a {type(res)}")
        direct = oe.contract(eq, *trace.wrap(mod, arrays))
        if not oracle.same(direct.data, res.data):
            raise Violation(f"{what}: differs from direct contraction")
        res = res.data
    elif kind == "torch":
        t = torch()
        ts = [t.from_numpy(np.ascontiguousarray(a).reshape(a.shape)) for a in arrays]
        res = expr(*ts)
        if not isinstance(res, t.Tensor):
            raise Violation(f"{what}: result is a {type(res)}")
        res = res.numpy()
    elif kind == "totorch":
        torch()
        res = expr(*[np.ascontiguousarray(a).reshape(a.shape) for a in arrays], backend="torch")
        if not isinstance(res, np.ndarray):
            raise Violation(f"{what}: result is a {type(res)}")
    else:
        raise AssertionError(kind)
    if np.shape(res) != want.shape or not np.array_equal(np.asarray(res), want):
        raise Violation(f"{what}: wrong result")
    if kept is not None:
        kept.append((what, res, want))
    if kind in ("plain", "numpy", "share", "lists"):
        direct = oe.contract(eq, *ops)
        if np.asarray(direct).dtype != np.asarray(res).dtype or not oracle.same(direct, res):
            raise Violation(f"{what}: differs from direct contraction ({np.asarray(res).dtype}, {np.asarray(direct).dtype})")
    if sharing.currently_sharing():
        raise Violation(f"{what}: the thread is left sharing")
    mon.ev("calls compared")
    mon.ev("call " + kind)
    return kind + ("" if c2 is con else "'")


def run_history(rng, mon, kinds, nmax=5):
    con = gen.contraction(rng, 1, nmax, budget=1500, bcast=0.1, sizes=(1, 2, 2, 3), zero=0.0)
    if con.ones:
        kinds = [k for k in kinds if k not in ("torch", "totorch")]
    eq, kw = build(rng, mon, con)
    mon.describe(eq=eq, shapes=con.shapes(), kw={k: str(v) for k, v in kw.items()})
    inter = rng.random() < 0.2
    expr = (oe.contract_expression(*entry.weave([entry.shape_as(rng, s) for s in con.shapes()], entry.labels(rng, con)), **kw) if inter
            else oe.contract_expression(eq, *[entry.shape_as(rng, s) for s in con.shapes()], **kw))
    r0, s0 = repr(expr), str(expr)
    if not inter and eq not in r0:
        raise Violation(f"repr {r0!r} does not show {eq!r}")
    hist, kept = [], []
    cache = {} if rng.random() < 0.3 else None
    for _ in range(rng.randint(3, 7)):
        mon.describe(history=list(hist))
        hist.append(call_once(rng, mon, con, eq, expr, kinds, f"expression {eq!r} {kw} after {hist}", cache, kept))
        if repr(expr) != r0 or str(expr) != s0:
            raise Violation(f"expression {eq!r} after {hist}: its description changed from {s0!r} to {str(expr)!r}")
    for what, res, want in kept:
        if not np.array_equal(np.asarray(res), want):
            raise Violation(f"{what}: the result returned then was changed by a later call of {hist}")
    mon.ev("earlier results looked at again", len(kept))
    mon.sig(con.key(), str(kw["optimize"]) if isinstance(kw["optimize"], (str, list)) else type(kw["optimize"]).__name__, tuple(hist))
    mon.sample({"eq": eq, "shapes": con.shapes(), "history": hist})


def fam_numpy(rng, mon):
    run_history(rng, mon, ["plain", "plain", "numpy", "share", "out", "fail", "vrec", "vrec2", "lists"])


def fam_torch(rng, mon):
    run_history(rng, mon, ["plain", "share", "out", "fail", "vrec", "torch", "totorch", "torch", "totorch"])


def fam_two(rng, mon):
    """Two expressions, of different structure, called in turn, also with the same arrays and within one context."""
    con = gen.contraction(rng, 1, 4, budget=500, sizes=(2, 2, 3))
    perm = list(range(con.n))
    exprs = []
    for k in range(2):
        out = rng.sample(con.labels, rng.randint(0, min(4, len(con.labels))))
        c = con.with_output(out)
        eq, kw = build(rng, mon, c)
        exprs.append((c, eq, oe.contract_expression(eq, *c.shapes(), **kw)))
    g = gen.nprng(rng)
    pool = [[g.integers(-3, 3, size=s, endpoint=True) for s in con.shapes()] for _ in range(2)]
    with oe.shared_intermediates() if rng.random() < 0.5 else oe.shared_intermediates({}):
        for _ in range(8):
            c, eq, ex = rng.choice(exprs)
            a = rng.choice(pool)
            mon.describe(eq=eq, shapes=c.shapes(), others=[e[1] for e in exprs])
            if not oracle.same(ex(*a), oracle.of(c, a)):
                raise Violation(f"expression {eq!r}: wrong result in a history with {[e[1] for e in exprs]}")
            mon.ev("calls compared")
    mon.sig(con.key(), tuple(e[0].output for e in exprs))


def fam_constants(rng, mon):
    """Expressions with constants, called with several backends in turn, in and out of sharing contexts."""
    con = gen.contraction(rng, 2, 5, budget=1500, bcast=0.1, sizes=(1, 2, 2, 3))
    eq, kw = build(rng, mon, con)
    g = gen.nprng(rng)

    def vals():
        return [np.asarray(g.integers(-2, 2, size=s, endpoint=True)) for s in con.shapes()]

    cs, given = entry.pick_constants(rng, con.n)
    base = vals()
    consts = trace.wrap(vrec, base)
    args = [consts[i] if i in cs else entry.shape_as(rng, s) for i, s in enumerate(con.shapes())]
    inter = rng.random() < 0.3
    mon.describe(eq=eq, shapes=con.shapes(), kw={k: str(v) for k, v in kw.items()}, constants=str(given), interleaved=inter)
    expr = (oe.contract_expression(*entry.weave(args, entry.labels(rng, con)), constants=given, **kw) if inter
            else oe.contract_expression(eq, *args, constants=given, **kw))
    r0 = repr(expr)
    hist = []
    for _ in range(rng.randint(3, 8)):
        bk = rng.choice((None, None, "vrx", "vry", "auto"))
        mode = rng.choice(("plain", "plain", "share", "out", "fail", "print"))
        new = vals()
        cur = [base[i] if i in cs else new[i] for i in range(con.n)]
        wrapped = trace.wrap(vrec, cur)
        ops = [w for i, w in enumerate(wrapped) if i not in cs]
        k2 = {} if bk is None else {"backend": bk}
        mod = {"vrx": vrx, "vry": vry}.get(bk, vrec)
        what = f"expression {eq!r} {kw} constants={given} after {hist}: {mode} {bk}"
        mon.describe(history=hist + [f"{mode}/{bk}"])
        trace.fresh()
        want = oracle.of(con, cur)
        res = None
        if mode == "fail":
            try:
                expr(*ops, ops[0], **k2)
            except Exception:
                mon.ev("failing calls")
            else:
                raise Violation(f"{what}: wrong number of arrays accepted")
        elif mode == "share":
            with oe.shared_intermediates():
                res = expr(*ops, **k2)
        elif mode == "out":
            o = mod.Arr(np.full(want.shape, 55), ["out"])
            res = expr(*ops, out=o, **k2)
            if res is not o:
                raise Violation(f"{what}: out was not returned")
        elif mode == "plain":
            res = expr(*ops, **k2)
        if mode == "print":
            str(expr)
        if repr(expr) != r0:
            raise Violation(f"{what}: its description changed from {r0!r} to {repr(expr)!r}")
        if res is not None:
            if type(res) is not mod.Arr or np.shape(res.data) != want.shape or not np.array_equal(res.data, want):
                raise Violation(f"{what}: wrong result")
            mon.ev("calls compared")
            mon.ev("calls with constants")
        hist.append(f"{mode}/{bk}")
    mon.sig(con.key(), tuple(sorted(cs)), tuple(hist))


def fam_kwargs(rng, mon):
    """Expressions built with a dtype, an order or a casting rule, which every call follows."""
    con = gen.contraction(rng, 1, 5, budget=1500, sizes=(1, 2, 2, 3))
    eq, kw = build(rng, mon, con)
    src = rng.choice(("float32", "int32", "float64"))
    req = {}
    if rng.random() < 0.8:
        req["dtype"] = {"float32": rng.choice(("float64", "complex128")), "int32": rng.choice(("int64", "float64")),
                        "float64": "complex128"}[src]
    if rng.random() < 0.5:
        req["order"] = rng.choice(("C", "F", "A"))
    if rng.random() < 0.3:
        req["casting"] = rng.choice(("same_kind", "unsafe"))
    cset = {i for i in range(con.n) if rng.random() < 0.3}
    g = gen.nprng(rng)

    def vals():
        return [np.asarray(g.integers(-2, 2, size=s, endpoint=True)).astype(src) for s in con.shapes()]

    base = vals()
    path = oe.contract_path(eq, *con.shapes(), shapes=True, optimize=kw["optimize"])[0]
    if rng.random() < 0.5:
        cset = set()
    if rng.random() < 0.5:
        path = rng.choice([x for x in ("auto", "optimal", "greedy", "dp", "branch-2") if x in strategies.names_for(con.n)] + [True])
    kw["optimize"] = path
    mon.describe(eq=eq, shapes=con.shapes(), path=path, kwargs=req, constants=sorted(cset), src=src)
    siblings = []
    for _ in range(rng.randint(0, 2)):
        # built before from the same equation and shapes with other requests (or other constants)
        oreq = rng.choice(({}, {"dtype": "complex128"}, {"dtype": "float64", "casting": "unsafe"}, {"order": "F"}))
        ob = vals()
        siblings.append(oe.contract_expression(eq, *[ob[i] if i in cset else s for i, s in enumerate(con.shapes())],
                                               constants=sorted(cset), **kw, **oreq))
        if rng.random() < 0.6:
            siblings[-1](*[ob[i] for i in range(con.n) if i not in cset])
        mon.ev("siblings with other requests")
    expr = oe.contract_expression(eq, *[base[i] if i in cset else s for i, s in enumerate(con.shapes())], constants=sorted(cset), **kw, **req)
    hist = []
    for _ in range(rng.randint(3, 6)):
        kind = rng.choice(("plain", "out", "share", "numpy", "fail"))
        x = vals()
        cur = [base[i] if i in cset else x[i] for i in range(con.n)]
        ops = [x[i] for i in range(con.n) if i not in cset]
        what = f"expression {eq!r} {path} {req} of {src}, constants {sorted(cset)}, after {hist}: {kind}"
        mon.describe(history=hist + [kind])
        want = oracle.of(con, cur, np.int64)
        direct = oe.contract(eq, *cur, **kw, **req)
        if kind == "fail":
            try:
                expr(*ops, base[0])
            except Exception:
                hist.append(kind)
                continue
            raise Violation(f"{what}: accepted")
        if kind == "out":
            out = np.full(want.shape, 9, dtype=req.get("dtype", src))
            res = expr(*ops, out=out)
            if res is not out:
                raise Violation(f"{what}: out was not returned")
        elif kind == "share":
            with oe.shared_intermediates():
                res = expr(*ops)
        else:
            res = expr(*ops, **({"backend": "numpy"} if kind == "numpy" else {}))
        if np.shape(res) != want.shape or not np.array_equal(np.asarray(res), want):
            raise Violation(f"{what}: wrong result")
        if kind != "out" and np.asarray(res).dtype != np.asarray(direct).dtype:
            raise Violation(f"{what}: dtype {np.asarray(res).dtype}, directly {np.asarray(direct).dtype}")
        o = req.get("order")
        if o in ("C", "F") and kind != "out" and isinstance(res, np.ndarray) and isinstance(direct, np.ndarray) and not cset:
            if direct.flags[o + "_CONTIGUOUS"] != res.flags[o + "_CONTIGUOUS"]:
                raise Violation(f"{what}: the result is not laid out like that of direct contraction")
        hist.append(kind)
        mon.ev("calls compared")
        mon.ev("keyword requests")
    mon.sig(con.key(), str(path), tuple(sorted(req.items())), tuple(hist))


def fam_many(rng, mon):
    """Expressions of many operands, some of them constant."""
    con = gen.contraction(rng, 20, 60, budget=None, profile=rng.choice(("chain", "ring", "tree")), sizes=(1, 2, 2), maxrank=4, maxlabels=100, sum1=0.5,
                          out=lambda r, l, c: r.sample([x for x in l if c[x] == 1], min(5, sum(c[x] == 1 for x in l))))
    sym = gen.symbols(rng, con, "mixed" if len(con.labels) > 52 else None)
    eq = con.eq(sym)
    path, info = oe.contract_path(eq, *con.shapes(), shapes=True, optimize="greedy")
    if info.largest_intermediate > 1e5:
        raise Skip("intermediates too large")
    kw = dict(optimize=rng.choice((path, "greedy", "auto")), use_blas=rng.random() < 0.7)
    cs = sorted(rng.sample(range(con.n), rng.choice((0, 0, 1, con.n // 2, con.n - 1))))
    mon.describe(eq=eq, shapes=con.shapes(), constants=cs)
    first = gen.values(rng, con, "int64")
    ex = oe.contract_expression(eq, *[first[i] if i in cs else s for i, s in enumerate(con.shapes())], constants=cs, **kw)
    for k in range(2):
        ops = [first[i] if i in cs else a for i, a in enumerate(gen.values(rng, con, "int64"))]
        res = ex(*[a for i, a in enumerate(ops) if i not in cs])
        if not oracle.same(res, oracle.of(con, ops, np.int64)):
            raise Violation(f"expression {eq!r} of {con.n} operands, constants {cs}, call {k}: wrong result")
        mon.ev("calls compared")
    mon.ev("expressions of many operands")
    mon.sig(con.key(), tuple(cs))


def fam_long(rng, mon):
    """One expression called hundreds of times, with arrays that are new, kept from earlier calls or changed in place."""
    con = gen.contraction(rng, 1, 3, budget=200, bcast=0.05, sizes=(1, 2, 2, 3))
    eq = con.eq(gen.symbols(rng, con))
    cs = sorted(rng.sample(range(con.n), rng.choice((0, 0, con.n // 2))))
    m = rng.choice((70, 140, 300, 600))
    first = gen.values(rng, con, "int64")
    ex = oe.contract_expression(eq, *[first[i] if i in cs else s for i, s in enumerate(con.shapes())], constants=cs, use_blas=rng.random() < 0.7)
    mon.describe(eq=eq, shapes=con.shapes(), constants=cs, calls=m)
    r0, ops, kept = repr(ex), list(first), []
    for k in range(m):
        r = rng.random()
        if r < 0.7:
            new = gen.values(rng, con, "int64")
            ops = [first[i] if i in cs else a for i, a in enumerate(new)]
        elif r < 0.85:
            for i, a in enumerate(ops):
                if i not in cs and a.flags.writeable:
                    a += 1
        var = [a for i, a in enumerate(ops) if i not in cs]
        if rng.random() < 0.1:
            with oe.shared_intermediates():
                res = ex(*var)
        else:
            res = ex(*var)
        want = oracle.of(con, ops)
        if not oracle.same(np.asarray(res, dtype=want.dtype), want):
            raise Violation(f"expression {eq!r}, constants {cs}, call {k} of {m}: wrong result")
        if rng.random() < 0.05 and not any(np.shares_memory(res, a) for a in ops):
            kept.append((k, res, np.array(res)))
    for k, res, was in kept:
        if not np.array_equal(res, was):
            raise Violation(f"expression {eq!r}, constants {cs}: the result of call {k} was changed by one of the {m - k - 1} later ones")
    if repr(ex) != r0:
        raise Violation(f"expression {eq!r}: its description changed over {m} calls")
    mon.ev("calls compared", m)
    mon.ev("long histories")
    mon.sig(con.key(), tuple(cs), m)


FAMILIES = [
    Family("numpy", fam_numpy, 5000, 60000),
    Family("torch", fam_torch, 1500, 20000, chunk=100),
    Family("kwargs", fam_kwargs, 3000, 30000),
    Family("constants", fam_constants, 3000, 30000),
    Family("many", fam_many, 300, 3000),
    Family("long", fam_long, 80, 800, chunk=5),
    Family("two", fam_two, 1500, 20000),
]
