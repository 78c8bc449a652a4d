"""C11: sharing intermediates never changes a result."""
import gc

import numpy as np

import opt_einsum as oe
import vrec
from opt_einsum import sharing

from .. import gen, oracle, strategies
from ..core import Family, Violation
from ..pool import Pool, rename

RULE = "distinct (history of calls inside sharing contexts) with the value of every call compared with the einsum value"
ASSUMPTIONS = ["integer-valued operands small enough to be exact", "the caller does not modify arrays while a context that has seen them is in use"]


def eqstr(terms, out):
    return ",".join(terms) + "->" + out


def pick_opt(rng, n):
    r = rng.random()
    if r < 0.15 or n == 1:
        return rng.choice(("auto", True))
    if r < 0.25:
        return False
    if r < 0.6:
        return rng.choice([s for s in strategies.names_for(n) if "random" not in s])
    return gen.random_path(rng, n)


class Contexts:
    """A model of the stack of contexts; entered and left at random."""

    def __init__(self, rng):
        self.rng, self.stack, self.old = rng, [], []

    def enter(self):
        cache = self.rng.choice(self.old) if self.old and self.rng.random() < 0.5 else (None if self.rng.random() < 0.7 else {})
        cm = oe.shared_intermediates(cache) if cache is not None or self.rng.random() < 0.5 else oe.shared_intermediates()
        c = cm.__enter__()
        if cache is not None and c is not cache:
            raise Violation("the context does not use the cache it was given")
        self.stack.append((cm, c))
        if not any(c is o for o in self.old):
            self.old.append(c)
        return "resume" if cache else "enter"

    def leave(self):
        cm, c = self.stack.pop()
        if self.rng.random() < 0.3:
            e = KeyError("left by an exception")
            if cm.__exit__(KeyError, e, None):
                raise Violation("the context swallowed an exception")
        else:
            cm.__exit__(None, None, None)

    def step(self):
        r = self.rng.random()
        if not self.stack or (r < 0.5 and len(self.stack) < 4):
            return self.enter()
        self.leave()
        return "leave"

    def close(self):
        while self.stack:
            cm, _ = self.stack.pop()
            cm.__exit__(None, None, None)


def outside(fn):
    """Run something without any sharing: in a thread that never shared."""
    import threading

    box = []
    t = threading.Thread(target=lambda: box.append(fn()))
    t.start()
    t.join()
    return box[0]


def fam_history(rng, mon):
    """contract() on a pool of arrays that come and go."""
    dtype = rng.choice(("int64", "float64", "complex128", "int64"))
    pool = Pool(rng, rng.randint(2, 5), dtype)
    ctx = Contexts(rng)
    ctx.enter()
    recent, hist = [], []
    try:
        for _ in range(rng.randint(8, 30) if rng.random() < 0.98 else rng.randint(100, 400)):
            r = rng.random()
            if r < 0.12:
                hist.append(ctx.step())
                continue
            if r < 0.24:
                i = pool.replace(same_shape=rng.random() < 0.85)
                recent = [x for x in recent if True]
                hist.append(f"new{i}")
                continue
            if recent and r < 0.6:
                pos, terms, out = rng.choice(recent)
                if any(len(t) != pool.arrays[p].ndim for p, t in zip(pos, terms)):
                    continue
                k = rng.random()
                if k < 0.35:
                    terms, out = rename(rng, terms, out)
                if k < 0.7:
                    o = rng.sample(range(len(pos)), len(pos))
                    pos, terms = [pos[j] for j in o], [terms[j] for j in o]
                elif k < 0.8:
                    j = rng.randrange(len(terms))
                    terms = list(terms)
                    terms[j] = "".join(rng.sample(terms[j], len(terms[j])))
                elif k < 0.9:
                    out = "".join(rng.sample(out, len(out)))
                dims = {}
                if any(dims.setdefault(c, d) != d for p, t in zip(pos, terms) for c, d in zip(t, pool.arrays[p].shape)):
                    continue
            else:
                pos, terms, out = pool.equation()
                recent.append((pos, terms, out))
            arrays = [pool.arrays[p] for p in pos]
            if rng.random() < 0.15:
                j = rng.randrange(len(arrays))
                arrays[j] = pool.new(arrays[j].shape)  # a temporary, dropped after the call
            kw = {"use_blas": rng.random() < 0.7}
            opt = pick_opt(rng, len(pos))
            kw["optimize"] = opt
            want = pool.value(terms, out, arrays)
            eq = eqstr(terms, out)
            kind = "plain"
            z = rng.random()
            buf = None
            if z < 0.12:
                buf = gen.relayout(rng, np.full(want.shape, 99, dtype=dtype), rng.choice(("C", "F", "gap", "neg")))
                kw["out"] = buf
                kind = "out"
            elif z < 0.2:
                kw["dtype"] = rng.choice(("complex128", "float64") if dtype != "complex128" else ("complex128",))
                kind = "dtype"
            elif z < 0.25:
                kw["order"] = rng.choice("CFAK")
                kind = "order"
            if opt is False:
                kw.pop("use_blas")
            mon.describe(eq=eq, shapes=[a.shape for a in arrays], kw=str({k: v for k, v in kw.items() if k != "out"}), history=hist[-12:])
            if rng.random() < 0.1 and opt is not False:
                res = oe.contract(*[x for a, t in zip(arrays, terms) for x in (a, list(t))], list(out), **kw)
            else:
                res = oe.contract(eq, *arrays, **kw)
            what = f"{eq!r} {kind} optimize={opt} in a sharing context after {hist[-8:]}"
            if np.shape(res) != want.shape or not oracle.same(res, want):
                raise Violation(f"{what}: got {np.asarray(res).tolist()!r:.300}, expected {want.tolist()!r:.300}")
            if buf is not None and res is not buf:
                raise Violation(f"{what}: out was not returned")
            if kind == "plain" and np.asarray(res).dtype != np.dtype(dtype):
                raise Violation(f"{what}: dtype {np.asarray(res).dtype} instead of {dtype}")
            if kind == "dtype" and len(pos) > 1:
                ref = outside(lambda: oe.contract(eq, *arrays, **kw))
                if np.asarray(ref).dtype != np.asarray(res).dtype:
                    raise Violation(f"{what}: dtype {np.asarray(res).dtype}, outside {np.asarray(ref).dtype}")
            hist.append(f"{eq}@{''.join(map(str, pos))}" + ("" if kind == "plain" else "/" + kind))
            mon.ev("calls compared")
            mon.ev("call " + kind)
            mon.ev("depth %d" % len(ctx.stack))
            del arrays, res, want, buf, kw
    finally:
        ctx.close()
    if sharing.currently_sharing():
        raise Violation("sharing after the last context was left")
    mon.sig(tuple(hist))
    mon.sample({"history": hist[:10]})


def view(rng, a):
    """Another array on the same memory, mostly of the same shape."""
    k = rng.randrange(6)
    if k == 0:
        return a.transpose(rng.sample(range(a.ndim), a.ndim))
    if k == 1:
        return a[tuple(slice(None, None, rng.choice((1, -1))) for _ in a.shape)]
    if k == 2:
        return a.view()
    if k == 3:
        return a.T
    if k == 4:
        return a.reshape(-1, order="A").reshape(a.shape, order=rng.choice("CF"))
    return np.lib.stride_tricks.as_strided(a, a.shape, rng.sample(a.strides, a.ndim)) if a.flags.c_contiguous and len(set(a.shape)) == 1 else a[...]


def fam_views(rng, mon):
    """Different arrays on the same memory: same address, often same shape, different values."""
    dtype = rng.choice(("int64", "float64"))
    pool = Pool(rng, 0, dtype)
    d = rng.choice((2, 2, 3))
    base = [pool.new((d,) * rng.choice((2, 2, 3))) for _ in range(rng.randint(1, 2))]
    pool.arrays = list(base) + [view(rng, rng.choice(base)) for _ in range(rng.randint(2, 5))]
    recent, hist = [], []
    with oe.shared_intermediates():
        for _ in range(rng.randint(8, 20)):
            if recent and rng.random() < 0.6:
                pos, terms, out = rng.choice(recent)
                # the same equation on other views
                pos = [rng.choice([q for q in range(len(pool.arrays)) if pool.arrays[q].shape == pool.arrays[p].shape]) for p in pos]
            else:
                pos, terms, out = pool.equation(3)
            recent.append((pos, terms, out))
            arrays = [pool.arrays[p] for p in pos]
            if rng.random() < 0.2:
                j = rng.randrange(len(arrays))
                arrays[j] = view(rng, arrays[j])
            eq, opt, blas = eqstr(terms, out), pick_opt(rng, len(pos)), rng.random() < 0.8
            mon.describe(eq=eq, strides=[a.strides for a in arrays], shapes=[a.shape for a in arrays], optimize=str(opt), history=hist[-10:])
            if rng.random() < 0.3:
                res = oe.contract_expression(eq, *[a.shape for a in arrays], use_blas=blas)(*arrays)
            else:
                res = oe.contract(eq, *arrays, optimize=opt, **({} if opt is False else {"use_blas": blas}))
            want = pool.value(terms, out, arrays)
            if np.shape(res) != want.shape or not oracle.same(res, want):
                raise Violation(f"{eq!r} on views at {pos} in a sharing context after {hist[-8:]}: got {np.asarray(res).tolist()!r:.300}, "
                                f"expected {want.tolist()!r:.300}")
            hist.append(f"{eq}@{pos}")
            mon.ev("calls on views compared")
    mon.sig(dtype, d, tuple(hist))


def fam_pairing(rng, mon):
    """Two or three arrays whose axes are all of one size, contracted over differently paired axes: only the pairing differs."""
    d = rng.choice((2, 2, 3))
    k = rng.randint(2, 3)
    ranks = [rng.randint(2, 4 if d == 2 else 3) for _ in range(k)]
    g = gen.nprng(rng)
    arrs = [g.integers(-3, 3, size=(d,) * r, endpoint=True) for r in ranks]
    if rng.random() < 0.2:
        arrs[1] = arrs[0]
        ranks[1] = ranks[0]
    hist, prev = [], []
    blas = rng.random() < 0.8
    with oe.shared_intermediates():
        for _ in range(rng.randint(6, 14)):
            i, j = rng.sample(range(k), 2)
            if prev and rng.random() < 0.6:
                i, j, nc, pa, pb = rng.choice(prev)
                if rng.random() < 0.5:
                    pb = rng.sample(pb, len(pb))
                if rng.random() < 0.3:
                    pa = rng.sample(pa, len(pa))
            else:
                nc = rng.randint(0, min(ranks[i], ranks[j]))
                pa, pb = rng.sample(range(ranks[i]), nc), rng.sample(range(ranks[j]), nc)
            prev.append((i, j, nc, pa, pb))
            ta, tb = [None] * ranks[i], [None] * ranks[j]
            free = iter(gen.LETTERS)
            for x, y in zip(pa, pb):
                ta[x] = tb[y] = next(free)
            keep = []
            for t in (ta, tb):
                for x in range(len(t)):
                    if t[x] is None:
                        t[x] = next(free)
                        keep.append(t[x])
            if rng.random() < 0.4:
                rng.shuffle(keep)
            if keep and rng.random() < 0.15:
                keep = keep[:-1]
            if nc and rng.random() < 0.15:
                keep = keep + [ta[pa[0]]]
            terms, out = ["".join(ta), "".join(tb)], "".join(keep)
            ops = [arrs[i], arrs[j]]
            if k == 3 and rng.random() < 0.3:
                z = 3 - i - j
                terms.append("".join(rng.choice("ABCD" if rng.random() < 0.3 else "abcd") for _ in range(ranks[z])))
                ops.append(arrs[z])
                out = "".join(dict.fromkeys(out))
            if len(set(out)) != len(out):
                continue
            eq = eqstr(terms, out)
            want = oracle.einsum([tuple(t) for t in terms], tuple(out), ops)
            mon.describe(eq=eq, size=d, ranks=ranks, history=hist[-12:])
            res = oe.contract(eq, *ops, use_blas=blas)
            if not oracle.same(res, want):
                raise Violation(f"{eq!r} on axes of size {d} in a sharing context after {hist}: wrong result")
            hist.append(f"{eq}@{i}{j}")
            mon.ev("calls compared")
    mon.sig(d, tuple(hist))


def fam_recycle(rng, mon):
    """Many short-lived operands of one shape: addresses recur all the time."""
    shape = rng.choice(((2,), (2, 2), (3, 3), (2, 3)))
    g = gen.nprng(rng)
    lab = "ab"[: len(shape)]
    forms = [f"{lab}->", f"{lab}->{lab[::-1]}", f"{lab},{lab}->", f"{lab},{lab}->{lab}", f"{lab},{lab[::-1]}->" if len(set(shape)) < len(shape) else f"{lab}->{lab[0]}",
             f"{lab},{lab[0]}->{lab[1:]}", f"{lab},{lab[0]},{lab[-1]}->", f"{lab},cd->{lab}cd", f"{lab},{lab[0]}d->d{lab[1:]}"]
    backend = rng.choice(("contract", "contract", "expr", "const"))
    used = set()
    ids, reused = set(), 0
    calls = rng.randint(10, 40)
    if rng.random() < 0.03:
        # a long context; few operations, on arrays at addresses used before where there are any
        calls, forms = rng.choice((300, 700, 1200)), rng.sample(forms, 2)
        mon.ev("long contexts")
    with oe.shared_intermediates():
        for k in range(calls):
            f = rng.choice(forms)
            terms = f.split("->")[0].split(",")
            sz = dict(zip(lab, shape), c=2, d=2)
            shapes = [tuple(sz[c] for c in t) for t in terms]
            ops = []
            for s in shapes:
                some = [g.integers(-3, 3, size=s, endpoint=True) for _ in range(1 if calls < 300 else 12)]
                ops.append(next((o for o in some if id(o) in ids), some[-1]))
                del some
            for o in ops:
                reused += id(o) in ids
                ids.add(id(o))
            want = oracle.einsum([tuple(t) for t in terms], tuple(f.split("->")[1]), ops)
            mon.describe(eq=f, shapes=shapes, call=k, via=backend)
            if backend == "contract":
                res = oe.contract(f, *ops, use_blas=rng.random() < 0.5)
            elif backend == "expr":
                res = oe.contract_expression(f, *shapes)(*ops)
            else:
                res = oe.contract_expression(f, ops[0], *shapes[1:], constants=[0])(*ops[1:])
            if not oracle.same(res, want):
                raise Violation(f"{f!r} of new arrays in a sharing context (call {k}, via {backend}): wrong result")
            used.add(f)
            mon.ev("calls compared")
            del ops, res
    # arrays that the cache does not hold any longer than needed are of no concern here
    mon.ev("operand addresses recurring", reused)
    mon.sig(shape, backend, tuple(sorted(used)), k)


def fam_results(rng, mon):
    """Results of earlier contractions are operands of later ones; results may be dropped in between."""
    pool = Pool(rng, 3, "int64", maxrank=2)
    val = [a.copy() for a in pool.arrays]  # expected values, kept outside of the contexts
    hist = []
    ctx = Contexts(rng)
    ctx.enter()
    try:
        for _ in range(rng.randint(6, 20)):
            if rng.random() < 0.12:
                hist.append(ctx.step())
            pos, terms, out = pool.equation(nmax=3)
            eq = eqstr(terms, out)
            want = pool.value(terms, out, [val[p] for p in pos])
            mon.describe(eq=eq, history=hist[-10:])
            res = oe.contract(eq, *[pool.arrays[p] for p in pos], optimize=pick_opt(rng, len(pos)))
            if not oracle.same(res, want):
                raise Violation(f"{eq!r} on earlier results, after {hist[-8:]}: wrong result")
            hist.append(eq)
            mon.ev("calls compared")
            if np.ndim(res) <= 3 and isinstance(res, np.ndarray):
                j = rng.randrange(len(pool.arrays) + 1)
                if j == len(pool.arrays) and j < 6:
                    pool.arrays.append(res)
                    val.append(want.copy())
                else:
                    j = min(j, len(pool.arrays) - 1)
                    pool.arrays[j] = res
                    val[j] = want.copy()
    finally:
        ctx.close()
    mon.sig(tuple(hist))


def torch():
    import torch as t

    t.set_num_threads(1)
    return t


def fam_convert(rng, mon):
    """Expressions converting NumPy arrays to other backends, constants, several backends in one context."""
    t = torch()
    pool = Pool(rng, 4, "float64")
    exprs, hist = [], []
    for _ in range(rng.randint(1, 3)):
        pos, terms, out = pool.equation(nmax=3, diag=False)
        consts = [i for i in range(len(pos)) if rng.random() < 0.3][: len(pos) - 1]
        shapes = [pool.arrays[p].shape for p in pos]
        cv = {i: pool.arrays[pos[i]] for i in consts}
        e = oe.contract_expression(eqstr(terms, out), *[cv.get(i, s) for i, s in enumerate(shapes)], constants=consts)
        exprs.append((pos, terms, out, consts, shapes, cv, e))
    ctx = Contexts(rng)
    ctx.enter()
    backs = ["numpy", "torch", "torch", "torchtensor"] + (["jax", "tensorflow"] if rng.random() < 0.0 else [])
    try:
        for _ in range(rng.randint(5, 16)):
            r = rng.random()
            if r < 0.12:
                hist.append(ctx.step())
                continue
            if r < 0.35:
                i = rng.randrange(len(pool.arrays))
                pool.replace(i)
                if rng.random() < 0.2:
                    gc.collect()
                hist.append(f"new{i}")
                continue
            pos, terms, out, consts, shapes, cv, e = rng.choice(exprs)
            full = [cv.get(i, pool.arrays[p]) for i, p in enumerate(pos)]
            if rng.random() < 0.3:
                full = [cv.get(i, pool.new(s)) for i, s in enumerate(shapes)]
            var = [a for i, a in enumerate(full) if i not in consts]
            want = pool.value(terms, out, full)
            b = rng.choice(backs)
            eq = eqstr(terms, out)
            mon.describe(eq=eq, consts=consts, backend=b, history=hist[-10:])
            kw = {}
            buf = None
            if rng.random() < 0.15 and b != "torchtensor":
                buf = kw["out"] = np.full(want.shape, 7.0)
            if b == "torchtensor":
                if not var:
                    continue
                res = e(*[t.from_numpy(np.ascontiguousarray(a)).reshape(a.shape) for a in var])
                if not isinstance(res, t.Tensor):
                    raise Violation(f"{eq!r} on torch tensors returns {type(res)}")
                res = res.numpy()
            else:
                res = e(*var, backend=b, **kw)
                if not isinstance(res, (np.ndarray, np.generic, float)):
                    raise Violation(f"{eq!r} on NumPy arrays with backend {b} returns {type(res)}")
            if buf is not None and res is not buf:
                raise Violation(f"{eq!r} with backend {b}: out was not returned")
            if np.shape(res) != want.shape or not np.array_equal(np.asarray(res), want):
                raise Violation(f"{eq!r} constants={consts} with backend {b} after {hist[-8:]}: wrong result")
            hist.append(f"{eq}/{b}")
            mon.ev("calls compared")
            mon.ev("backend " + b)
            del full, var, res
    finally:
        ctx.close()
    mon.sig(tuple(hist))


def fam_recycle_torch(rng, mon):
    """Short-lived NumPy arrays converted to torch: their addresses recur."""
    torch()
    s = rng.choice(((2, 2), (3, 3)))
    eq, k = rng.choice((("ab,bc->ac", 2), ("ab,ab->", 2), ("ab,bc,cd->ad", 3), ("ab,ab->ab", 2)))
    e = oe.contract_expression(eq, *[s] * k)
    g = gen.nprng(rng)
    ids, reused = set(), 0
    with oe.shared_intermediates():
        for i in range(12):
            ops = [g.integers(-3, 3, size=s, endpoint=True).astype(float) for _ in range(k)]
            if rng.random() < 0.3:
                ops[-1] = rng.choice((ops[0].T, ops[0][::-1], ops[0][:]))  # another array in the same memory
            for o in ops:
                reused += id(o) in ids
                ids.add(id(o))
            want = oracle.einsum([tuple(t) for t in eq.split("->")[0].split(",")], tuple(eq.split("->")[1]), ops)
            mon.describe(eq=eq, shape=s, call=i)
            res = e(*ops, backend="torch")
            if not oracle.same(np.asarray(res), want):
                raise Violation(f"{eq!r} of new arrays with backend torch in a sharing context (call {i}): wrong result")
            mon.ev("calls compared")
            del ops, res
    mon.ev("operand addresses recurring", reused)
    mon.sig(eq, s, i)


def fam_backends(rng, mon):
    """The same arrays with several recording backends in one context."""
    import vrx
    import vrxx
    import vry

    pool = Pool(rng, 4, "int64")
    arrs = [vrec.Arr(a, [f"x{i}"]) for i, a in enumerate(pool.arrays)]
    hist = []
    with oe.shared_intermediates():
        for _ in range(rng.randint(5, 15)):
            if hist and rng.random() < 0.5:
                pos, terms, out, _ = rng.choice(hist)
            else:
                pos, terms, out = pool.equation(nmax=3)
            b = rng.choice(("vrx", "vry", "vrxx", "vrec", "auto"))
            want = pool.value(terms, out, [pool.arrays[p] for p in pos])
            mon.describe(eq=eqstr(terms, out), backend=b, history=[h[1:] for h in hist])
            res = oe.contract(eqstr(terms, out), *[arrs[p] for p in pos], backend=b)
            mod = {"vrx": vrx, "vry": vry, "vrxx": vrxx}.get(b, vrec)
            if not isinstance(res, mod.Arr):
                raise Violation(f"{eqstr(terms, out)!r} with backend {b} returns {type(res)} in a sharing context after {hist}")
            if not oracle.same(res.data, want):
                raise Violation(f"{eqstr(terms, out)!r} with backend {b}: wrong result")
            hist.append((pos, terms, out, b))
            mon.ev("calls compared")
    mon.sig(tuple((tuple(h[0]), tuple(h[1]), h[2], h[3]) for h in hist))


FAMILIES = [
    Family("history", fam_history, 4000, 80000),
    Family("views", fam_views, 3000, 30000),
    Family("pairing", fam_pairing, 2500, 40000),
    Family("recycle", fam_recycle, 1500, 20000),
    Family("results", fam_results, 2000, 30000),
    Family("convert", fam_convert, 1500, 20000, chunk=100),
    Family("recycle_torch", fam_recycle_torch, 600, 8000, chunk=100),
    Family("backends", fam_backends, 1000, 15000),
]
