"""C25: arrays are released when they are no longer needed."""
import contextlib
import gc
import weakref

import numpy as np
import opt_einsum as oe
import vlive

from .. import entry, gen, history, strategies
from ..core import Family, Skip, Violation
from .c14 import get

RULE = "distinct (structure, path, way of asking, history, library) whose operands, intermediates and results were followed by weak references until released"
ASSUMPTIONS = ["an object counts as released if it is gone after a full garbage collection",
               "an intermediate may outlive the step that used it by one step, as a local variable would"]


class Boom(Exception):
    pass


def gone(what, refs, names):
    """All of the references are dead, at the latest after a collection."""
    left = [n for r, n in zip(refs, names) if r() is not None]
    if left:
        gc.collect()
        left = [n for r, n in zip(refs, names) if r() is not None]
    if left:
        raise Violation(f"{what}: still referenced: {left}")


def draw(rng, mon, nmin=1, nmax=8, **kw):
    con = gen.contraction(rng, nmin, nmax, budget=4000, sizes=(1, 2, 2, 3), **kw)
    sym = history.symbols(rng, mon, con)
    return con, con.eq(sym)


def some_path(rng, n):
    return gen.random_path(rng, n) if rng.random() < 0.6 else rng.choice(strategies.names_for(n))


def fresh(rng, con, tag):
    return [vlive.Arr(a, [f"{tag}{i}"]) for i, a in enumerate(gen.values(rng, con, "int64"))]


def fam_steps(rng, mon):
    """Calls one after another, some of which fail, in or out of sharing contexts."""
    con, eq = draw(rng, mon)
    kw = dict(optimize=some_path(rng, con.n), use_blas=rng.random() < 0.7)
    if rng.random() < 0.15:
        kw = dict(optimize=False)
    vlive.LIVE.reset(judge=False)
    held = fresh(rng, con, "c")
    how, fn = entry.prepare(rng, con, eq, held, kw)
    const = frozenset().union(*[x.leaves for x in held])
    what = f"{how}({eq!r}, {con.shapes()}, {kw})"
    mon.describe(eq=eq, shapes=con.shapes(), how=how, kw=str(kw))
    hist = []
    for k in range(rng.choice((1, 1, 2, 3))):
        mode = rng.choice(("plain", "plain", "fault", "sharing", "captured", "resumed"))
        hist.append(mode)
        vlive.LIVE.reset(judge=mode in ("plain", "fault"), const=const)
        if mode == "fault":
            at = rng.randint(1, max(1, con.n))
            exc = rng.choice((Boom, ValueError, KeyError))

            def fault(count, at=at, exc=exc):
                if count == at:
                    raise exc("injected")

            vlive.LIVE.fault = fault
        ops = fresh(rng, con, f"v{k}.")
        refs, names = [weakref.ref(x) for x in ops], [f"operand {i}" for i in range(con.n)]
        cache = None
        res = None
        try:
            if mode in ("plain", "fault"):
                res = fn(ops)
            else:
                times = rng.choice((1, 2)) if mode != "resumed" else 1
                with oe.shared_intermediates() as cache:
                    for _ in range(times):
                        res = fn(ops)
                if mode == "resumed":
                    with oe.shared_intermediates(cache):
                        res = fn(ops)
        except (Boom, ValueError, KeyError) as e:
            if mode != "fault" or "injected" not in str(e):
                raise
            mon.ev("failed calls")
        at = f"{what}, calls {hist}"
        if vlive.LIVE.bad:
            raise Violation(f"{at}: {vlive.LIVE.bad[0]}")
        if mode == "captured":
            cache.clear()
        del cache
        # only what the caller holds is left: the operands and the result
        mine = {id(res)} | {id(x) for x in ops}
        made = [r for r in vlive.LIVE.made if not r.leaves <= const and not (r.w() is not None and id(r.w()) in mine)]
        gone(f"{at}, with operands and result still there", [r.w for r in made], [f"intermediate of {sorted(r.leaves)}" for r in made])
        rr = [] if res is None else [weakref.ref(res)]
        keep = res is not None and res.leaves <= const  # of constants alone
        del ops, res
        gone(at, refs + ([] if keep else rr), names + ["the result"])
        mon.ev("objects followed to their end", len(refs) + len(made))
        mon.ev("intermediates judged in steps", vlive.LIVE.checked)
        mon.ev("calls " + mode)
    del fn, held
    if how.startswith(("constants", "expression")):
        # with the expression its constants and what was made of them are gone
        gone(f"{what}, calls {hist}, after the expression was dropped", [r.w for r in vlive.LIVE.made], [f"intermediate of {sorted(r.leaves)}" for r in vlive.LIVE.made])
    mon.ev("by " + how.split(" ")[0])
    mon.sig(con.key(), how.split(" ")[0], str(kw["optimize"]), tuple(hist))
    mon.sample({"eq": eq, "how": how, "kw": str(kw), "calls": hist})


def fam_numpy(rng, mon):
    """NumPy arrays: operands, results and output arrays of all the entry points."""
    con, eq = draw(rng, mon, bcast=0.1, zero=0.05)
    how = rng.choice(("path", "path", "info", "contract", "contract", "out", "dtype", "malformed", "expression out"))
    opt = rng.choice((some_path(rng, con.n), some_path(rng, con.n), False))
    if how in ("path", "info") and rng.random() < 0.4:
        opt = rng.choice((oe.RandomGreedy(max_repeats=2), oe.BranchBound(nbranch=1)) + ((oe.DynamicProgramming(),) if con.n < 9 else ()))
    if how == "expression out" and opt is False:
        opt = True
    what = f"{how} of {eq!r}, {con.shapes()}, optimize={opt}"
    mon.describe(eq=eq, shapes=con.shapes(), how=how, optimize=str(opt))
    ops = gen.values(rng, con, "float64" if how == "dtype" else "int64")
    out = np.empty(con.out_shape(), ops[0].dtype if how != "dtype" else "complex128")
    ex = oe.contract_expression(eq, *con.shapes(), optimize=opt) if how == "expression out" else None
    refs, names = [weakref.ref(x) for x in ops] + [weakref.ref(out)], [f"operand {i}" for i in range(con.n)] + ["out"]
    share = contextlib.nullcontext() if rng.random() < 0.6 else oe.shared_intermediates()
    res = None
    with share:
        if how in ("path", "info"):
            lab = entry.labels(rng, con)
            args = entry.weave(ops, lab) if rng.random() < 0.4 else [eq, *ops]
            res = oe.contract_path(*args, optimize=opt)
            del args
        elif how == "contract":
            res = oe.contract(eq, *ops, optimize=opt)
        elif how == "out":
            res = oe.contract(eq, *ops, optimize=opt, out=out)
        elif how == "dtype":
            res = oe.contract(eq, *ops, optimize=opt, dtype="complex128")
        elif how == "expression out":
            res = ex(*ops, out=out)
        else:
            bad = list(ops)
            i = rng.randrange(con.n)
            bad[i] = np.zeros((2,) * (bad[i].ndim + 1))
            refs.append(weakref.ref(bad[i]))
            names.append("the malformed operand")
            try:
                oe.contract(eq, *bad, optimize=opt)
            except Exception:
                pass
            else:
                raise Skip("accepted")
            del bad
    del share
    if how in ("path", "info"):
        hold = res  # the path and its description stay
    else:
        if isinstance(res, np.ndarray):
            refs.append(weakref.ref(res))
            names.append("the result")
    del ops, out
    res = None
    gone(what, refs, names)
    hold = None
    mon.ev("objects followed to their end", len(refs))
    mon.ev("numpy " + how)
    mon.sig(con.key(), how, str(type(opt) if callable(opt) else opt))


def fam_libs(rng, mon):
    """Converted to another library and back."""
    lib = rng.choice(("torch", "torch", "jax", "tensorflow"))
    get(lib)
    con, eq = draw(rng, mon, 2, 5, bcast=0.0)
    path = gen.random_path(rng, con.n)
    arrays = gen.values(rng, con, "float64")
    cs = rng.sample(range(con.n), rng.randint(1, con.n - 1)) if rng.random() < 0.4 else []
    mon.describe(lib=lib, eq=eq, shapes=con.shapes(), path=path, constants=cs)
    what = f"{lib}: expression {eq!r}, {con.shapes()}, {path}, constants {cs}"
    ex = oe.contract_expression(eq, *[arrays[i] if i in cs else s for i, s in enumerate(con.shapes())], constants=cs or None, optimize=path)
    for k in range(rng.choice((1, 2, 3))):
        ops = [a.copy() for i, a in enumerate(gen.values(rng, con, "float64")) if i not in cs]
        refs = [weakref.ref(x) for x in ops]
        with contextlib.nullcontext() if rng.random() < 0.7 else oe.shared_intermediates():
            res = ex(*ops, backend=lib)
        del ops, res
        gone(f"{what}, call {k}", refs, [f"operand {i}" for i in range(len(refs))])
        mon.ev("objects followed to their end", len(refs))
    mon.ev("calls with " + lib)
    mon.sig(lib, con.key(), tuple(path), tuple(cs))


FAMILIES = [
    Family("steps", fam_steps, 6000, 60000),
    Family("numpy", fam_numpy, 4000, 40000),
    Family("libs", fam_libs, 160, 1600, cpu=120),
]
