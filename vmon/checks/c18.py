"""C18: inputs are never modified and out is completely written."""
import copy

import numpy as np
import opt_einsum as oe
from opt_einsum import paths

from .. import entry, gen, history, oracle, strategies
from ..core import Family, Skip, Violation
from ..pool import Pool

RULE = "distinct (structure, options, layout of operands and out, history) after which operands, constants, requests and guard memory were compared"
ASSUMPTIONS = ["out does not overlap the operands of the last step, and has the dtype of the result"]


class Guard:
    """Whole underlying buffers of arrays, byte for byte, with shape, strides, dtype and flags."""

    def __init__(self, arrays):
        self.items = []
        for a in arrays:
            base = a
            while isinstance(base.base, np.ndarray):
                base = base.base
            self.items.append((a, base, base.tobytes("A"), a.shape, a.strides, a.dtype, a.flags.writeable))

    def check(self, what):
        for k, (a, base, raw, shape, strides, dtype, wr) in enumerate(self.items):
            if (a.shape, a.strides, a.dtype, a.flags.writeable) != (shape, strides, dtype, wr):
                raise Violation(f"{what}: array {k} was changed to shape {a.shape} strides {a.strides} dtype {a.dtype} writeable {a.flags.writeable}")
            if base.tobytes("A") != raw:
                raise Violation(f"{what}: array {k} was written to")


PATTERN = 0x5A


class Out:
    """An out array inside of guard memory, in a random layout, filled with rubbish."""

    def __init__(self, rng, shape, dtype, rubbish=None):
        nd = len(shape)
        perm = list(range(nd))
        if rng.random() < 0.6:
            rng.shuffle(perm)
        full, sl = [], []
        for ax in perm:
            d = shape[ax]
            step = rng.choice((1, 1, 2, -1, -2, 3))
            lead, tail = rng.randint(0, 2), rng.randint(0, 2)
            span = (d - 1) * abs(step) + 1 if d else 0
            full.append(lead + span + tail)
            if d == 0:
                sl.append(slice(lead, lead))
            elif step > 0:
                sl.append(slice(lead, lead + span, step))
            else:
                stop = lead - 1
                sl.append(slice(lead + span - 1, stop if stop >= 0 else None, step))
        self.buf = np.empty([1 + max(1, int(np.prod(full))) * 1 + 1], dtype)
        raw = self.buf.view(np.uint8)
        raw[:] = PATTERN
        inner = self.buf[1:1 + int(np.prod(full))].reshape(full)
        v = inner[tuple(sl)] if nd else inner.reshape(())
        inv = [perm.index(k) for k in range(nd)]
        self.arr = v.transpose(inv) if nd else v
        if self.arr.shape != tuple(shape):
            raise RuntimeError(f"harness: {self.arr.shape} {shape}")
        mask = np.zeros(self.buf.shape, bool)
        # which elements of the buffer belong to out
        idx = np.arange(self.buf.size)
        mi = idx[1:1 + int(np.prod(full))].reshape(full)
        mi = mi[tuple(sl)] if nd else mi.reshape(())
        mask[np.asarray(mi).reshape(-1)] = True
        self.outside = ~mask
        if self.arr.size:
            self.arr[...] = rubbish if rubbish is not None else 77

    def check(self, got, want, what):
        if got is not self.arr:
            raise Violation(f"{what}: did not return the out array")
        if not np.array_equal(self.arr, want):
            raise Violation(f"{what}: out holds {self.arr.tolist()!r}, expected {np.asarray(want).tolist()!r}"[:600])
        raw = self.buf.view(np.uint8).reshape(self.buf.size, -1)[self.outside]
        if raw.size and not np.all(raw == PATTERN):
            raise Violation(f"{what}: memory outside of out was written")


def value(con, arrays, dtype):
    return oracle.einsum(con.terms, con.output, arrays).astype(dtype)


def draw(rng, nmin=1, nmax=5, zero=0.04, bcast=0.12):
    con = gen.contraction(rng, nmin, nmax, budget=6000, sizes=(1, 2, 2, 3, 4), bcast=bcast, zero=zero)
    dtype = rng.choice(("int64", "float64", "float64", "complex128", "float32"))
    arrays = gen.values(rng, con, dtype)
    if arrays is None:
        dtype, arrays = "int64", gen.values(rng, con, "int64")
    return con, dtype, [gen.relayout(rng, a) for a in arrays]


def draw_opt(rng, con):
    r = rng.random()
    if r < 0.15:
        return False
    if r < 0.5:
        return gen.random_path(rng, con.n)
    return rng.choice(strategies.names_for(con.n, True)[:11])


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a.items()) == list(b.items())
    return a == b


def fam_contract(rng, mon):
    con, dtype, arrays = draw(rng)
    sym = history.symbols(rng, mon, con)
    eq = con.eq(sym)
    opt = draw_opt(rng, con)
    if isinstance(opt, list) and rng.random() < 0.5:
        opt = [list(p) for p in opt]
    opt0 = copy.deepcopy(opt)
    share = rng.random() < 0.3
    without = rng.random() < 0.6
    inter = rng.random() < 0.3
    kw = {"use_blas": rng.random() < 0.7, "memory_limit": rng.choice((None, None, -1, 3))}
    want = value(con, arrays, dtype)
    out = Out(rng, want.shape, dtype, np.nan if np.dtype(dtype).kind in "fc" and rng.random() < 0.7 else None) if without else None
    if without:
        kw["out"] = out.arr
    labels = [[c for c in t] for t in con.terms] + [list(con.output)]
    labels0 = copy.deepcopy(labels)
    g = Guard(arrays)
    mon.describe(eq=eq, shapes=con.shapes(), dtype=dtype, optimize=str(opt), out=without, sharing=share, interleaved=inter,
                 layout=[a.strides for a in arrays], out_strides=out.arr.strides if without else None, kw={k: str(v) for k, v in kw.items() if k != "out"})
    what = f"contract({eq!r}, {con.shapes()}, {dtype}, optimize={opt}{', out' if without else ''}{', sharing' if share else ''})"

    def call():
        if inter:
            args = []
            for a, l in zip(arrays, labels):
                args += [a, l]
            return oe.contract(*args, labels[-1], optimize=opt, **kw)
        return oe.contract(eq, *arrays, optimize=opt, **kw)

    first = None
    try:
        if share:
            with oe.shared_intermediates():
                if rng.random() < 0.6:
                    # the same results, cached before
                    kw2 = {k: v for k, v in kw.items() if k != "out"}
                    first = oe.contract(eq, *arrays, optimize=opt, **kw2)
                    first0 = np.array(first, copy=True)
                    # give out other contents again
                    if without:
                        out.arr[...] = 55
                r = call()
                if first is not None and not np.array_equal(first, first0):
                    raise Violation(f"{what}: an earlier result was modified")
                if without and rng.random() < 0.7:
                    out.check(r, want, what)
                    out.arr[...] = 66
                    # what was cached is not the caller's out array
                    again = oe.contract(eq, *arrays, optimize=opt, **{k: v for k, v in kw.items() if k != "out"})
                    if not np.array_equal(again, want):
                        raise Violation(f"{what}: the cached result is the caller's out array")
                    mon.ev("cached results after out was overwritten")
                    o2 = Out(rng, want.shape, dtype)
                    kw["out"] = o2.arr
                    o2.check(call(), want, what + " again")
                    if not np.all(out.arr == 66):
                        raise Violation(f"{what}: another out array of before was written")
                    r, out = o2.arr, o2
        else:
            r = call()
    except RuntimeError as e:
        if kw["memory_limit"] == 3 and "memory_limit" in str(e):
            raise Skip("dp: no contraction within the memory limit")
        raise
    g.check(what)
    if not same(opt, opt0):
        raise Violation(f"{what}: the path was changed from {opt0} to {opt}")
    if labels != labels0:
        raise Violation(f"{what}: the label lists were changed")
    if without:
        out.check(r, want, what)
        mon.ev("out arrays checked")
    elif not np.array_equal(r, want):
        raise Violation(f"{what}: wrong value")
    mon.ev("operands compared", len(arrays))
    mon.sig(con.key(), dtype, str(opt), without, share, inter, tuple(a.strides for a in arrays))
    mon.sample({"eq": eq, "optimize": str(opt), "out": without, "sharing": share})


def fam_expression(rng, mon):
    """A history of calls of one expression, with and without constants and out arrays."""
    con, dtype, arrays = draw(rng, 2, 5, zero=0.02, bcast=0.05)
    sym = history.symbols(rng, mon, con)
    eq = con.eq(sym)
    opt = draw_opt(rng, con) or "auto"
    cs = rng.sample(range(con.n), rng.randint(0, con.n))
    cs = rng.choice((list, list, tuple, set))(cs)
    shapes = [list(s) if rng.random() < 0.5 and s else s for s in con.shapes()]
    args = [arrays[i] if i in cs else s for i, s in enumerate(shapes)]
    shapes0, cs0, opt0 = copy.deepcopy(shapes), copy.deepcopy(cs), copy.deepcopy(opt)
    kw = {"constants": cs, "optimize": opt} if cs or rng.random() < 0.5 else {"optimize": opt}
    lab = entry.labels(rng, con)
    lab0 = copy.deepcopy(lab)
    mon.describe(eq=eq, shapes=con.shapes(), dtype=dtype, optimize=str(opt), constants=cs)
    what = f"contract_expression({eq!r}, {con.shapes()}, constants={cs}, optimize={opt})"
    allg = [Guard(arrays)]
    ex = oe.contract_expression(eq, *args, **kw) if rng.random() < 0.7 else oe.contract_expression(*entry.weave(args, lab), **kw)
    if not same(shapes, shapes0) or cs != cs0 or type(cs) is not type(cs0) or not same(opt, opt0) or not same(lab, lab0):
        raise Violation(f"{what}: the arguments were changed")
    results = []
    hist = []
    ctx = oe.shared_intermediates() if rng.random() < 0.3 else None
    if ctx:
        ctx.__enter__()
    try:
        cur = arrays
        for call in range(rng.randint(1, 5)):
            if rng.random() < 0.5:
                new = gen.values(rng, con, dtype)
                cur = [arrays[i] if i in cs else gen.relayout(rng, new[i]) for i in range(con.n)]
            g = Guard(cur)
            want = value(con, cur, dtype)
            mode = rng.choice(("plain", "out", "torch" if dtype in ("float64", "float32", "int64") else "plain", "reuse"))
            xs = [a for i, a in enumerate(cur) if i not in cs]
            if mode in ("out", "reuse"):
                prev = [x for x in results if x[2]]
                if mode == "reuse" and prev:
                    o = rng.choice(prev)
                    results = [x for x in results if x is not o]
                    o = o[2]
                else:
                    o = Out(rng, want.shape, dtype)
                r = ex(*xs, out=o.arr)
                o.check(r, want, f"{what}, call {call}")
                results.append((r, want, o))
                mon.ev("out arrays checked")
            elif mode == "torch" and all(a.flags.writeable and min(a.strides, default=1) >= 0 for a in cur) and (xs or not cs):
                if rng.random() < 0.5:
                    o = Out(rng, want.shape, dtype)
                    r = ex(*xs, out=o.arr, backend="torch")
                    o.check(r, want, f"{what}, call {call} with torch")
                    results.append((r, want, o))
                    mon.ev("out arrays checked with torch")
                else:
                    r = ex(*xs, backend="torch")
                    if not np.array_equal(np.asarray(r), want):
                        raise Violation(f"{what}, call {call} with torch: wrong value")
                mon.ev("torch calls")
            else:
                r = ex(*xs)
                if not np.array_equal(r, want):
                    raise Violation(f"{what}, call {call}: wrong value")
                results.append((r, want, None))
            g.check(f"{what}, call {call}")
            for a in allg:
                a.check(f"{what}, call {call}")
            for k, (x, w, o) in enumerate(results):
                if not np.array_equal(x, w):
                    raise Violation(f"{what}, call {call} ({mode}): an earlier result (number {k}) was modified")
            mon.ev("earlier results compared", len(results))
            mon.ev("operands compared", len(cur))
            hist.append(mode)
    finally:
        if ctx:
            ctx.__exit__(None, None, None)
    mon.sig(con.key(), dtype, str(opt), tuple(cs), tuple(hist), bool(ctx))


def fam_search(rng, mon):
    """Path searches leave their arguments alone."""
    n = rng.randint(1, 8)
    con = gen.contraction(rng, budget=None, n=n, sizes=(1, 2, 3, 5, 9), bcast=0.1)
    sym = history.symbols(rng, mon, con)
    inputs = [set(sym[c] for c in t) for t in con.terms]
    output = set(sym[c] for c in con.output)
    sizes = {sym[c]: d for c, d in con.eff_sizes().items()}
    if rng.random() < 0.3:
        # sizes of indices that do not occur
        sizes = dict(rng.sample(list(sizes.items()) + [("unused%d" % k, rng.randint(0, 9)) for k in range(rng.randint(1, 3))], len(sizes) + 1))
        sizes.update({sym[c]: d for c, d in con.eff_sizes().items()})
    frozen = rng.random() < 0.3
    if frozen:
        inputs = [frozenset(i) for i in inputs]
        output = frozenset(output)
    before = (list(inputs), [set(i) for i in inputs], set(output), dict(sizes), list(sizes))
    lim = rng.choice((None, None, 5, 1000))
    if rng.random() < 0.5 and n > 1:
        d, f = strategies.optimizer(rng, n)
        name, fn = d[0], f()
    else:
        name = rng.choice([s for s in strategies.names_for(n, True)])
        fn = paths.get_path_fn(name)
    mon.describe(con=con.describe(), strategy=str(name), memory_limit=lim)
    what = f"{name} on {con.describe()} memory_limit={lim}"
    try:
        p1 = fn(inputs, output, sizes, lim)
    except RuntimeError as e:
        if lim is None or "memory_limit" not in str(e):
            raise
        p1 = None
    after = (list(inputs), [set(i) for i in inputs], set(output), dict(sizes), list(sizes))
    if before != after or any(a is not b for a, b in zip(before[0], after[0])):
        raise Violation(f"{what}: the arguments were changed from {before[1:4]} to {after[1:4]}")
    if p1 is not None:
        # conversions leave their argument alone, and what they return is not changed by another use
        try:
            oracle.check_path(p1, n, pairwise=False)
        except oracle.BadPath as e:
            raise Violation(f"{what}: {e}")
        p = [tuple(x) for x in p1]
        ssa = paths.linear_to_ssa(p1)
        s0 = copy.deepcopy(ssa)
        lin = paths.ssa_to_linear(ssa)
        if [tuple(x) for x in p1] != p or not same(ssa, s0):
            raise Violation(f"{what}: converting the path changed it")
        res, info = oe.contract_path(con.eq(sym), *con.shapes(), shapes=True, optimize=p1)
        if [tuple(x) for x in p1] != p:
            raise Violation(f"{what}: using the path changed it")
        repr(info), str(info)
        if [tuple(x) for x in info.path] != p:
            raise Violation(f"{what}: printing the information changed it")
        # what a search returned is the caller's: changing it changes no later search
        if rng.random() < 0.5:
            opt = name if isinstance(name, str) and name in strategies.names_for(n, True) and rng.random() < 0.7 else "auto"
            a, ai = oe.contract_path(con.eq(sym), *con.shapes(), shapes=True, optimize=opt)
            a0, c0 = [tuple(x) for x in a], ai.opt_cost
            r0 = repr(ai)
            history.spoil(a, ai)
            if isinstance(p1, list):
                p1.reverse()
                p1.append((0, 0))
            b, bi = oe.contract_path(con.eq(sym), *con.shapes(), shapes=True, optimize=opt)
            if [tuple(x) for x in b] != a0 or bi.opt_cost != c0 or repr(bi) != r0:
                raise Violation(f"{opt} on {con.describe()}: after the returned path was changed in place the search gives {b} instead of {a0}")
            mon.ev("returned paths changed in place")
    # shapes given as lists
    sh = [list(s) for s in con.shapes()]
    if all(sh) and rng.random() < 0.5:
        sh0 = copy.deepcopy(sh)
        oe.contract_path(con.eq(sym), *sh, shapes=True, optimize=rng.choice(("auto", "greedy", gen.random_path(rng, n))))
        if sh != sh0:
            raise Violation(f"contract_path on {con.describe()}: the shapes were changed to {sh}")
        mon.ev("shape lists compared")
    mon.ev("searches")
    mon.sig(con.key(), str(name), lim, frozen)


def fam_pool(rng, mon):
    """Long histories over shared operands with sharing contexts: nothing ever changes."""
    pool = Pool(rng, k=5)
    keep = [(a, a.copy()) for a in pool.arrays]
    results = []
    cache = None
    with oe.shared_intermediates() as cache:
        for k in range(rng.randint(5, 25)):
            pos, terms, out = pool.equation()
            arrs = [pool.arrays[p] for p in pos]
            want = pool.value(terms, out, arrs)
            eq = ",".join(terms) + "->" + out
            mon.describe(step=k, eq=eq, shapes=[a.shape for a in arrs])
            opt = rng.choice(("auto", "greedy", False, "optimal"))
            if rng.random() < 0.4:
                o = Out(rng, want.shape, "int64")
                r = oe.contract(eq, *arrs, optimize=opt, out=o.arr)
                o.check(r, want, f"contract({eq!r}, out) after {k} contractions with sharing")
                if rng.random() < 0.5:
                    o.arr[...] = -99
                else:
                    results.append((r, want, eq))
                mon.ev("out arrays checked")
            else:
                r = oe.contract(eq, *arrs, optimize=opt)
                if not np.array_equal(r, want):
                    raise Violation(f"contract({eq!r}) after {k} contractions with sharing: wrong value")
                results.append((r, want, eq))
            for a, b in keep:
                if not np.array_equal(a, b):
                    raise Violation(f"contract({eq!r}, optimize={opt}): an array was modified")
            for x, w, e in results:
                if not np.array_equal(x, w):
                    raise Violation(f"contract({eq!r}, optimize={opt}): the earlier result of {e!r} was modified")
            mon.ev("operands compared", len(keep))
            mon.ev("earlier results compared", len(results))
            mon.sig(eq, opt, k)


MAY_REFUSE = ("sparse", "jax", "tensorflow", "object", "dask")  # libraries without assignment, or without all kinds of it


def fam_libraries(rng, mon):
    """Arrays of other libraries and an out array of theirs: it is returned holding the result, or the call is refused."""
    from . import c14

    lib = rng.choice(("torch", "torch", "torch", "ignores", "ignores", "dask", "sparse", "jax", "object", "numpy"))
    con = c14.draw(rng, lib)
    dtype = "float64" if lib in ("jax", "object") else "int64" if lib in ("ignores", "numpy") else rng.choice(c14.DTYPES[lib])
    x = c14.vals(rng, con, dtype)
    want = oracle.of(con, x, np.complex128 if dtype.startswith("complex") else np.int64)
    eq = con.eq(history.symbols(rng, mon, con))
    kw = c14.kwargs(rng, con)
    o = None
    if lib in ("torch", "numpy", "ignores"):
        o = Out(rng, want.shape, dtype)
        while min(o.arr.strides, default=1) < 0 and lib == "torch":
            o = Out(rng, want.shape, dtype)
    extra = {}
    if lib == "torch":
        ops, out = [c14.to(lib, a, rng) for a in x], c14.get(lib).from_numpy(o.arr)
    elif lib in ("numpy", "ignores"):
        ops, out = x, o.arr
        extra = {"backend": ignoring()} if lib == "ignores" else {}
    elif lib == "object":
        ops, out, extra = [a.astype(object) for a in x], np.full(want.shape, None, object), {"backend": "object"}
    else:
        ops, out = [c14.to(lib, a, rng) for a in x], c14.to(lib, np.full(want.shape, 77).astype(dtype), rng)
    use = rng.choice(("contract", "contract", "false", "expression", "constants", "sharing"))
    what = f"{lib} {use} {eq!r} {con.shapes()} {dtype} {kw} with out"
    mon.describe(lib=lib, use=use, eq=eq, shapes=con.shapes(), dtype=dtype, kw=str(kw))
    consts = [i for i in range(con.n) if rng.random() < 0.5] if use == "constants" else []
    if len(consts) == con.n and lib == "torch":
        consts = consts[1:]
    calls = rng.randint(1, 2)
    try:
        if use == "contract":
            rs = [oe.contract(eq, *ops, out=out, **kw, **extra) for _ in range(calls)]
        elif use == "false":
            rs = [oe.contract(eq, *ops, out=out, optimize=False, **extra) for _ in range(calls)]
        elif use == "sharing":
            with oe.shared_intermediates():
                rs = [oe.contract(eq, *ops, out=out, **kw, **extra), oe.contract(eq, *ops, out=out, **kw, **extra)]
        else:
            e = oe.contract_expression(eq, *[ops[i] if i in consts else s for i, s in enumerate(con.shapes())], constants=consts, **kw)
            v = [a for i, a in enumerate(ops) if i not in consts]
            rs = [e(*v, out=out, **extra) for _ in range(calls)]
    except Exception as e:
        if lib in MAY_REFUSE:
            mon.ev("refused by " + lib)
            raise Skip(f"{lib} refuses out")
        raise Violation(f"{what}: {type(e).__name__}: {e}")
    for r in rs:
        if r is not out:
            raise Violation(f"{what}: did not return the out array")
    try:
        got = out if lib in ("numpy", "ignores", "object") else c14.back(lib, out)
    except ValueError:
        if lib != "dask":
            raise
        raise Skip("dask refuses to assign when computing")
    if got.shape != want.shape or not np.array_equal(got.astype(want.dtype) if lib == "object" else got, want):
        raise Violation(f"{what}: out does not hold the result")
    if o is not None:
        o.check(o.arr, want, what)
    for a, b in zip(ops, x):
        if not np.array_equal(a if lib in ("numpy", "ignores", "object") else c14.back(lib, a), b):
            raise Violation(f"{what}: an operand was modified")
    mon.ev("out of " + lib)
    mon.sig(lib, con.key(), use, str(kw), dtype, tuple(consts))


def ignoring():
    """A library whose functions do not support out."""
    import sys
    import types

    name = "vmon_ignores_out"
    if name not in sys.modules:
        m = types.ModuleType(name)
        m.tensordot = lambda a, b, axes: np.tensordot(a, b, axes)
        m.transpose = lambda a, axes: np.transpose(a, axes)
        m.einsum = lambda eq, *a, **kw: np.einsum(eq, *a)
        sys.modules[name] = m
    return name


def fam_reused(rng, mon):
    """out is one of the operands, which is used up before the last step."""
    con, dtype, arrays = draw(rng, 3, 6, zero=0.02, bcast=0.0)
    plain = [k for k, t in enumerate(con.terms) if len(set(t)) == len(t)]
    if not plain:
        raise Skip("no operand without a diagonal")
    k = rng.choice(plain)
    out = list(con.terms[k])
    rng.shuffle(out)
    con = con.with_output(out)
    arrays = gen.values(rng, con, dtype)
    if arrays is None:
        dtype, arrays = "int64", gen.values(rng, con, "int64")
    for _ in range(20):
        path = gen.random_path(rng, con.n)
        used = [s for s in oracle.replay(con.terms, con.output, con.eff_sizes(), path) if any(set(p) == {k} for p in s.parts)]
        if len(used) == 1 and len(used[0].parts) > 1 and not used[0].final and len(set().union(*used[0].parts)) < con.n:
            break
    else:
        raise Skip("the operand is part of the last step")
    eq = con.eq(history.symbols(rng, mon, con))
    want = value(con, arrays, dtype)
    base = arrays[k] = np.array(arrays[k])
    o = base.transpose([con.terms[k].index(c) for c in out])
    g = Guard([a for i, a in enumerate(arrays) if i != k])
    kw = {"optimize": path, "use_blas": rng.random() < 0.7}
    how = rng.choice(("contract", "expression"))
    mon.describe(eq=eq, shapes=con.shapes(), dtype=dtype, how=how, operand=k, **{a: str(b) for a, b in kw.items()})
    what = f"{how}({eq!r}, {con.shapes()}, {dtype}, {kw}, out=operand {k})"
    r = oe.contract(eq, *arrays, out=o, **kw) if how == "contract" else oe.contract_expression(eq, *con.shapes(), **kw)(*arrays, out=o)
    if r is not o:
        raise Violation(f"{what}: did not return the out array")
    if not np.array_equal(o, want):
        raise Violation(f"{what}: out holds {o.tolist()!r}, expected {want.tolist()!r}"[:600])
    g.check(what)
    mon.ev("operands used as out")
    mon.sig(con.key(), dtype, tuple(path), k, how)


FAMILIES = [
    Family("libraries", fam_libraries, 1200, 15000, chunk=100, cpu=200),
    Family("contract", fam_contract, 8000, 100000),
    Family("expression", fam_expression, 3000, 40000),
    Family("search", fam_search, 3000, 30000),
    Family("pool", fam_pool, 500, 6000),
    Family("reused", fam_reused, 2500, 25000),
]
