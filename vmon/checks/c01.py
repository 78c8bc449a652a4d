"""C01: contract() returns the einsum value whatever the strategy."""
import numpy as np

import opt_einsum as oe

from .. import entry, gen, history, oracle, strategies
from ..core import Family, Skip, Violation

RULE = "distinct (structure, sizes, strategy, use_blas, memory limit kind, dtype) whose value was compared exactly with the oracle"
ASSUMPTIONS = ["NumPy's elementwise multiply, sum, transpose and diagonal are correct",
               "values are integers (mod 2**64) or small enough to be exact in floating point, so equality is exact"]


def expect(con, arrays, dtype):
    if dtype == "int64":
        return oracle.of(con, arrays)
    if dtype[0] == "c":
        return oracle.of(con, arrays, np.complex128)
    if dtype in gen.WRAPPING:
        return oracle.of(con, [a.astype(np.int64) for a in arrays], np.int64).astype(dtype)
    if dtype == "bool":
        return oracle.of(con, arrays, np.int64) != 0
    return oracle.of(con, arrays, np.int64)


def judge(con, res, want, what, dtype=None):
    if not isinstance(res, (np.ndarray, np.generic)):
        raise Violation(f"{what}: result is a {type(res).__name__}")
    if np.shape(res) != want.shape:
        raise Violation(f"{what}: shape {np.shape(res)} instead of {want.shape}")
    if not np.array_equal(np.asarray(res), want):
        raise Violation(f"{what}: wrong value")
    if dtype is not None and np.asarray(res).dtype != np.dtype(dtype):
        raise Violation(f"{what}: dtype {np.asarray(res).dtype} instead of {dtype}")


def draw_optimize(rng, con, limited=False, allow_false=True):
    n = con.n
    r = rng.random()
    nary_ok = con.prod() <= 60000 and len(con.labels) <= 45 and n <= 25
    if r < 0.06 and allow_false and nary_ok:
        return ("False",), False
    if r < 0.12:
        v = rng.choice((True, None))
        return (str(v),), v
    if r < 0.27:
        kind = None if nary_ok else "pair"
        p = gen.random_path(rng, n, kind)
        return ("path", tuple(p)), rng.choice((p, tuple(p), [list(x) for x in p]))
    if r < 0.4 and n > 2:
        d, f = strategies.optimizer(rng, n)
        return (d[0], tuple(sorted(map(str, d[1].items())))), f()
    names = strategies.names_for(n, limited)
    s = rng.choice(names)
    return (s,), s


def draw_limit(rng, con):
    r = rng.random()
    if r < 0.6:
        return None
    if r < 0.68:
        return -1
    if r < 0.8:
        return "max_input"
    return rng.choice((1, 2, 3, 5, 8, 13, 20, 50, 200, 10 ** 6))


def one(rng, mon, con, dtype, layouts=True, kwargs=None):
    arrays = gen.values(rng, con, dtype) if dtype != "bool" else [
        gen.nprng(rng).integers(0, 2, size=s).astype(bool) for s in con.shapes()]
    if arrays is None:
        dtype = "int64"
        arrays = gen.values(rng, con, dtype)
    ops = [gen.relayout(rng, a) for a in arrays] if layouts else arrays
    sym = history.symbols(rng, mon, con)
    eq = con.eq(sym)
    want = expect(con, arrays, dtype)
    configs = 3 if con.n > 1 else 2
    kept = []
    for _ in range(configs):
        limit = draw_limit(rng, con)
        limited = limit not in (None, -1)
        if limited and (con.prod() > 60000 or len(con.labels) > 45 or con.n > 24):
            limit, limited = None, False
        d, opt = draw_optimize(rng, con, limited)
        blas = rng.random() < 0.7
        mon.describe(eq=eq, shapes=con.shapes(), optimize=d, use_blas=blas, memory_limit=limit, dtype=dtype)
        kw = {}
        if opt is not False:
            kw = dict(use_blas=blas, memory_limit=limit)
        try:
            res = oe.contract(eq, *ops, optimize=opt, **kw)
        except RuntimeError as e:
            if limited and "memory_limit" in str(e):
                mon.ev("dp: no contraction within the memory limit")
                continue
            raise
        judge(con, res, want, f"contract({eq!r}, optimize={d}, use_blas={blas}, memory_limit={limit})", dtype)
        kept.append((d, res))
        mon.ev("values compared")
        mon.ev("strategy " + d[0])
        for f in con.features():
            mon.ev("with " + f)
        mon.sig(con.key(), d, blas, str(limit), dtype)
    history.prelude(rng, mon, con, sym, p=0.2)
    for k, (e, res) in enumerate(kept):
        judge(con, res, want, f"contract({eq!r}, optimize={e}), looked at again after {len(kept) - 1 - k} more calls")
    mon.ev("earlier results looked at again", len(kept))
    mon.sample({"eq": eq, "shapes": con.shapes(), "optimize": str(d), "dtype": dtype})


def fam_small(rng, mon):
    con = gen.contraction(rng, 1, 6, budget=20000, bcast=0.25, zero=0.05)
    one(rng, mon, con, rng.choice(("int64", "int64", "float64", "complex128", "float32")))


def fam_medium(rng, mon):
    con = gen.contraction(rng, 5, 14, budget=60000, bcast=0.15, zero=0.03, sizes=(1, 2, 2, 2, 3), maxlabels=30)
    one(rng, mon, con, rng.choice(("int64", "float64")))


def fam_large(rng, mon):
    prof = rng.choice(("chain", "ring", "tree", "star", "net", "mixed"))
    con = gen.contraction(rng, 15, 60, budget=None, profile=prof, sizes=(1, 2, 2, 3), maxrank=4 if prof != "star" else 18,
                          maxlabels=100, sum1=0.5, out=lambda r, l, c: r.sample([x for x in l if c[x] == 1], min(6, sum(c[x] == 1 for x in l))))
    if prof == "star" and con.n > 18:
        con = gen.contraction(rng, 15, 18, budget=None, profile=prof, sizes=(1, 2, 2), maxrank=18, maxlabels=100, sum1=0.9)
    if peak(con) > 1e6:
        raise Skip("greedy intermediates too large")
    arrays = gen.values(rng, con, "int64")
    want = oracle.of(con, arrays)
    sym = gen.symbols(rng, con, "mixed" if len(con.labels) > 52 else None)
    eq = con.eq(sym)
    for s in rng.sample(["auto", "auto-hq", "greedy", "random-greedy", True, "branch-1"], 2):
        if s == "branch-1" and con.n > 30:
            continue
        mon.describe(eq=eq, shapes=con.shapes(), optimize=s)
        info = oe.contract_path(eq, *con.shapes(), shapes=True, optimize=s)
        if info[1].largest_intermediate > 2e6:
            mon.ev("intermediate too large to execute")
            continue
        # execute exactly that path
        res = oe.contract(eq, *arrays, optimize=rng.choice((info[0], s)), use_blas=rng.random() < 0.7)
        judge(con, res, want, f"contract({eq!r}, optimize={s!r})", "int64")
        mon.ev("values compared")
        mon.ev("large network")
        mon.sig(con.key(), str(s))


def peak(con):
    """Size of the largest intermediate of a simple left-to-right elimination, as a sanity bound."""
    path = [(0, 1)] + [(0, k - 1) for k in range(con.n - 1, 1, -1)] if con.n > 1 else [(0,)]
    # fold sequentially: result is appended at the end, so contract (0, last)
    steps = oracle.replay(con.terms, con.output, con.sizes, path)
    return min(max(s.size for s in steps), 10 ** 12)


def fam_dtypes(rng, mon):
    con = gen.contraction(rng, 1, 5, budget=500, bcast=0.1, sizes=(1, 2, 2, 3))
    dtype = rng.choice(("float32", "complex64", "int32", "bool", "float64", "complex128", "float16", "longdouble", "clongdouble") + gen.WRAPPING)
    one(rng, mon, con, dtype)


def fam_kwargs(rng, mon):
    """dtype, order and casting requests."""
    con = gen.contraction(rng, 1, 5, budget=2000, sizes=(1, 2, 2, 3))
    src = rng.choice(("float32", "int32", "float64"))
    arrays = gen.values(rng, con, src)
    if arrays is None or gen.magnitude(con, "float32") == 0:
        raise Skip("magnitude")
    g = gen.nprng(rng)
    m = gen.magnitude(con, "float32")
    arrays = [g.integers(-m, m, size=s, endpoint=True).astype(src) for s in con.shapes()]
    ops = [gen.relayout(rng, a) for a in arrays]
    want = oracle.of(con, arrays, np.int64)
    eq = con.eq(history.symbols(rng, mon, con))
    kw = {}
    dt = src
    if rng.random() < 0.7:
        dt = {"float32": rng.choice(("float32", "float64", "complex128")), "int32": rng.choice(("int64", "float64")),
              "float64": rng.choice(("float64", "complex128"))}[src]
        kw["dtype"] = rng.choice((dt, np.dtype(dt), getattr(np, dt)))
    if rng.random() < 0.5:
        kw["order"] = rng.choice(("C", "F", "K", "A"))
    if rng.random() < 0.3:
        kw["casting"] = rng.choice(("safe", "same_kind", "unsafe"))
        if kw["casting"] == "unsafe" and rng.random() < 0.5:
            dt = "float32"
            kw["dtype"] = dt
    d, opt = draw_optimize(rng, con)
    blas = rng.random() < 0.7
    if opt is not False:
        kw2 = dict(kw, use_blas=blas)
    else:
        kw2 = kw
    mon.describe(eq=eq, shapes=con.shapes(), optimize=d, kwargs={k: str(v) for k, v in kw.items()}, src=src)
    res = oe.contract(eq, *ops, optimize=opt, **kw2)
    judge(con, res, want, f"contract({eq!r}, optimize={d}, {kw})", None if _view_result(con, opt) else dt)
    o = kw.get("order")
    if o in ("C", "F") and isinstance(res, np.ndarray) and not res.flags[o + "_CONTIGUOUS"] and not _view_result(con, opt):
        raise Violation(f"contract({eq!r}, optimize={d}, order={o!r}) is not {o}-contiguous")
    mon.ev("keyword requests")
    mon.sig(con.key(), d, src, tuple(sorted((k, str(v)) for k, v in kw.items())))


def _view_result(con, opt):
    """einsum of one operand may return a view of it, whatever order is requested."""
    if con.n == 1:
        return True
    return isinstance(opt, (list, tuple)) and len(opt[-1]) == 1


def fam_mixed(rng, mon):
    """Operands of different dtypes, python scalars and nested lists: small values, no overflow anywhere."""
    con = gen.contraction(rng, 1, 5, budget=200, sizes=(1, 2, 2, 3), bcast=0.1)
    g = gen.nprng(rng)
    m = 1
    if con.prod() * m ** con.n >= 120:
        raise Skip("could overflow the smallest dtype")
    ops, arrays = [], []
    for s in con.shapes():
        x = g.integers(0, 1, size=s, endpoint=True)
        arrays.append(x)
        k = rng.choice(("int8", "int64", "float32", "float64", "complex128", "list", "uint8"))
        if k == "list":
            y = x.tolist()
            if x.ndim and 0 in x.shape:
                y = x
        else:
            y = x.astype(k)
        ops.append(y)
    want = oracle.of(con, arrays)
    eq = con.eq(history.symbols(rng, mon, con))
    d, opt = draw_optimize(rng, con)
    mon.describe(eq=eq, shapes=con.shapes(), optimize=d, types=[str(getattr(o, "dtype", type(o).__name__)) for o in ops])
    res = oe.contract(eq, *ops, optimize=opt)
    if np.shape(res) != want.shape or not np.array_equal(np.asarray(res), want):
        raise Violation(f"contract({eq!r}) of mixed operands: wrong value")
    mon.ev("mixed operand types")
    mon.sig(con.key(), d, "mixed")


def fam_long(rng, mon):
    """One or two indices of hundreds or thousands, around powers of two."""
    con = gen.contraction(rng, 2, 4, budget=40, sizes=(1, 2, 2, 3), sum1=0.2)
    if not con.labels:
        raise Skip("no index")
    sizes = dict(con.sizes)
    for c in rng.sample(con.labels, min(len(con.labels), rng.choice((1, 1, 2)))):
        sizes[c] = rng.choice((129, 257, 513, 1000, 1025, 2049, 4097, 8193, 5000)) + rng.choice((0, 0, -1, -2, 1))
    con = gen.Con(con.terms, con.output, sizes)
    if con.prod() > 100000 or max(int(np.prod(s)) for s in con.shapes()) > 100000:
        raise Skip("too large")
    one(rng, mon, con, rng.choice(("int64", "float64", "complex128")), layouts=rng.random() < 0.5)
    mon.ev("long dimensions")


def fam_widen(rng, mon):
    """A wider dtype than that of the operands is requested, which no step could do without."""
    con = gen.contraction(rng, 1, 5, budget=60, sizes=(1, 2, 2, 3), bcast=0.1)
    src, dst, m = rng.choice((("int8", "int64", 127), ("int8", "float64", 127), ("uint8", "int64", 255), ("int16", "int64", 3000), ("uint8", "uint64", 255),
                              ("float16", "float64", 2000), ("float32", "float64", 20000), ("float32", "complex128", 20000), ("int8", "int32", 40), ("bool", "int64", 1)))
    top = con.prod() * m ** con.n
    if top >= (2 ** 31 if dst == "int32" else 2 ** 53):
        raise Skip("could overflow the wider dtype")
    g = gen.nprng(rng)
    ints = [np.asarray(g.integers(0 if src in ("uint8", "uint16", "bool") else -m, m, size=x, endpoint=True)) for x in con.shapes()]
    want = oracle.of(con, ints, np.int64)
    ops = [x.astype(src) for x in ints]
    eq = con.eq(history.symbols(rng, mon, con))
    d, opt = draw_optimize(rng, con)
    kw = {"optimize": opt, "dtype": rng.choice((dst, np.dtype(dst), getattr(np, dst)))}
    if opt is not False:
        kw["use_blas"] = rng.random() < 0.7
    how, fn = entry.prepare(rng, con, eq, ops, kw)
    mon.describe(eq=eq, shapes=con.shapes(), optimize=d, how=how, src=src, dst=dst)
    judge(con, fn(), want, f"{how}({eq!r}, {src} operands, optimize={d}, dtype={dst})", None if _view_result(con, opt) else dst)
    mon.ev("wider dtype by " + how.split(" ")[0])
    mon.sig(con.key(), d, "widen", src, dst, how.split(" ")[0])


def fam_strategies(rng, mon):
    """One contraction under every strategy, with and without BLAS."""
    con = gen.contraction(rng, 2, 6, budget=3000, bcast=0.15)
    arrays = gen.values(rng, con, "int64")
    want = oracle.of(con, arrays)
    eq = con.eq(history.symbols(rng, mon, con))
    for s in [False, True, None] + strategies.names_for(con.n):
        if s == "random-greedy-128" and rng.random() < 0.8:
            continue
        for blas in (True, False):
            mon.describe(eq=eq, shapes=con.shapes(), optimize=s, use_blas=blas)
            kw = {} if s is False else {"use_blas": blas}
            judge(con, oe.contract(eq, *arrays, optimize=s, **kw), want, f"contract({eq!r}, optimize={s!r}, use_blas={blas})", "int64")
            mon.ev("values compared")
    mon.sig(con.key(), "all")


def fam_wide(rng, mon):
    """Operands of high rank: tens of indices in one step, most of size 1."""
    n = rng.choice((1, 2, 2, 3, 4))
    nl = rng.randint(20, 51)
    terms = [[] for _ in range(n)]
    for c in range(nl):
        ts = rng.sample(range(n), rng.choice((1, 1, 2, 2, n)) if n > 1 else 1)
        for t in ts:
            if len(terms[t]) < 50:
                terms[t].append(c)
    for t in terms:
        rng.shuffle(t)
        if t and rng.random() < 0.2 and len(t) < 50:
            t.insert(rng.randint(0, len(t)), rng.choice(t))
    labels = sorted({c for t in terms for c in t})
    sizes = dict.fromkeys(labels, 1)
    p = 1
    for c in rng.sample(labels, len(labels)):
        d = rng.choice((1, 2, 2, 3))
        if p * d <= rng.choice((64, 512, 2048)):
            sizes[c] = d
            p *= d
    o = [c for c in labels if rng.random() < rng.choice((0.1, 0.5, 0.9))]
    rng.shuffle(o)
    con = gen.Con(terms, o, sizes)
    mon.ev("widest step indices over 26" if len(labels) > 26 else "widest step up to 26")
    one(rng, mon, con, rng.choice(("int64", "float64")), layouts=rng.random() < 0.3)


FAMILIES = [
    Family("small", fam_small, 9000, 120000),
    Family("medium", fam_medium, 1500, 20000),
    Family("large", fam_large, 240, 3000),
    Family("dtypes", fam_dtypes, 2500, 30000),
    Family("kwargs", fam_kwargs, 3000, 40000),
    Family("mixed", fam_mixed, 1500, 15000),
    Family("long", fam_long, 1500, 15000),
    Family("widen", fam_widen, 2500, 25000),
    Family("strategies", fam_strategies, 500, 6000),
    Family("wide", fam_wide, 1500, 15000),
]
