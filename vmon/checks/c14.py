"""C14: all array backends agree in value and array type."""
import contextlib
import importlib.util
import json
import os
import subprocess
import sys

import numpy as np

import opt_einsum as oe

from .. import boot, gen, oracle, strategies
from ..core import VERIF, Family, Skip, Violation

RULE = "distinct (library, structure, path, dtype, use) whose array types and values were compared with the einsum value"
ASSUMPTIONS = ["integer-valued operands small enough to be exact in the dtype used", "no broadcasting of size-1 dimensions outside NumPy and object arrays",
               "contractions are within what the library's own einsum, tensordot and transpose support"]
TF1 = os.path.join(VERIF, "vmon", "child_tf1.py")
SOFT = {"quick": 300, "thorough": 2400}


def get(lib):
    if lib == "torch":
        import torch

        torch.set_num_threads(1)
        return torch
    if lib == "tensorflow":
        import tensorflow

        return tensorflow
    if lib == "jax":
        import jax

        jax.config.update("jax_enable_x64", True)
        return jax
    if lib == "dask":
        import dask
        import dask.array

        dask.config.set(scheduler="synchronous")
        return dask.array
    if lib == "sparse":
        import sparse

        return sparse
    if lib == "autograd":
        import autograd
        import autograd.numpy

        return autograd
    raise AssertionError(lib)


def to(lib, x, rng):
    m = get(lib)
    if lib == "torch":
        t = m.from_numpy(np.array(x))
        if t.ndim > 1 and rng.random() < 0.3:
            p = rng.sample(range(t.ndim), t.ndim)
            t = t.permute(p).contiguous().permute([p.index(i) for i in range(t.ndim)])
        return t
    if lib == "tensorflow":
        return m.convert_to_tensor(np.array(x))
    if lib == "jax":
        return m.numpy.asarray(np.array(x))
    if lib == "dask":
        return m.from_array(np.array(x), chunks=tuple(max(1, rng.randint(1, d)) for d in x.shape) if x.ndim else ())
    if lib == "sparse":
        return m.COO.from_numpy(np.array(x))
    raise AssertionError(lib)


def check_type(lib, r, what, scalar):
    m = get(lib)
    cls = {"torch": lambda: m.Tensor, "tensorflow": lambda: m.Tensor, "jax": lambda: m.Array, "dask": lambda: m.Array, "sparse": lambda: m.SparseArray}[lib]()
    if not isinstance(r, cls):
        if lib == "sparse" and (scalar or isinstance(r, np.ndarray)):
            return  # the library's own operations return scalars, and dense arrays where they see fit
        raise Violation(f"{what}: the result is a {type(r)}, not of {lib}")


def back(lib, r):
    if lib == "torch":
        return r.detach().numpy()
    if lib == "tensorflow":
        return r.numpy()
    if lib == "dask":
        return np.asarray(r.compute())
    if lib == "sparse":
        return r.todense() if hasattr(r, "todense") else np.asarray(r)
    return np.asarray(r)


DTYPES = {"torch": ("float64", "float32", "int64", "complex128"), "tensorflow": ("float64", "float32", "complex128"),
          "jax": ("float64", "float32", "int32", "complex64"), "dask": ("float64", "int64"), "sparse": ("float64", "int64")}
# repeated indices of a term are beyond autograd's gradients, dask's chunks and sparse
DIAG = {"torch": 0.15, "tensorflow": 0.15, "jax": 0.15, "dask": 0.0, "sparse": 0.0, "autograd": 0.0}


def draw(rng, lib, nmax=5, **kw):
    con = gen.contraction(rng, 1, nmax, budget=600, sizes=(1, 2, 2, 3), diag=DIAG.get(lib, 0.15), maxrank=4, **kw)
    if lib == "sparse" and rng.random() < 0.7:
        con = gen.contraction(rng, 1, nmax, budget=600, sizes=(1, 2, 2, 3), diag=0, maxrank=4, scalar=0, sum1=0, profile=rng.choice(("net", "hyper", "chain", "tree", "batch")))
    if lib == "tensorflow" and any(len(t) == 0 for t in con.terms) and rng.random() < 0.5:
        con = gen.contraction(rng, 1, nmax, budget=600, sizes=(1, 2, 2, 3), diag=DIAG.get(lib, 0.15), maxrank=4, scalar=0)
    return con


def vals(rng, con, dtype, m=2):
    g = gen.nprng(rng)
    out = []
    for s in con.shapes():
        x = np.asarray(g.integers(-m, m, size=s, endpoint=True))
        if dtype.startswith("complex"):
            x = x + 1j * g.integers(-1, 1, size=s, endpoint=True)
        out.append(np.asarray(x).astype(dtype))
    return out


def kwargs(rng, con):
    opt = gen.random_path(rng, con.n) if rng.random() < 0.5 else rng.choice([s for s in strategies.names_for(con.n) if "random" not in s] + [True])
    return dict(optimize=opt, use_blas=rng.random() < 0.75)


def compare(lib, r, want, what, dtype=None):
    got = back(lib, r)
    if np.shape(got) != want.shape:
        raise Violation(f"{what}: shape {np.shape(got)} instead of {want.shape}")
    if not np.array_equal(got, want):
        raise Violation(f"{what}: wrong values")
    if dtype is not None and np.asarray(got).dtype != np.dtype(dtype):
        raise Violation(f"{what}: dtype {np.asarray(got).dtype} instead of {dtype}")


def direct(lib):
    def fam(rng, mon):
        try:
            fam_(rng, mon)
        except ValueError as e:
            if lib == "sparse" and "fill" in str(e):
                raise Skip("sparse: a scalar with a fill value")
            raise

    def fam_(rng, mon):
        con = draw(rng, lib)
        dtype = rng.choice(DTYPES[lib])
        x = vals(rng, con, dtype)
        want = oracle.of(con, x, np.complex128 if dtype.startswith("complex") else np.int64)
        kw = kwargs(rng, con)
        eq = con.eq(gen.symbols(rng, con))
        ops = [to(lib, a, rng) for a in x]
        snap = [back(lib, o).copy() for o in ops]
        use = rng.choice(("contract", "contract", "expr", "const", "share", "named", "interleaved", "false"))
        what = f"{lib} {use} {eq!r} {con.shapes()} {dtype} {kw}"
        mon.describe(lib=lib, use=use, eq=eq, shapes=con.shapes(), dtype=dtype, kw=str(kw))
        rs = []
        if use == "contract":
            rs.append(oe.contract(eq, *ops, **kw))
        elif use == "named":
            rs.append(oe.contract(eq, *ops, backend=lib, **kw))
        elif use == "false":
            rs.append(oe.contract(eq, *ops, optimize=False))
        elif use == "interleaved":
            a = [y for o, t in zip(ops, con.terms) for y in (o, list(t))] + [list(con.output)]
            rs.append(oe.contract(*a, **kw))
        elif use == "expr":
            e = oe.contract_expression(eq, *con.shapes(), **kw)
            rs += [e(*ops), e(*ops, backend=lib)]
        elif use == "share":
            with oe.shared_intermediates():
                rs += [oe.contract(eq, *ops, **kw), oe.contract(eq, *ops, **kw)]
        else:
            consts = [i for i in range(con.n) if rng.random() < 0.5][: con.n - 1]
            e = oe.contract_expression(eq, *[ops[i] if i in consts else s for i, s in enumerate(con.shapes())], constants=consts, **kw)
            v = [o for i, o in enumerate(ops) if i not in consts]
            rs += [e(*v), e(*v)]
        for r in rs:
            check_type(lib, r, what, want.ndim == 0)
            compare(lib, r, want, what, None if lib in ("sparse", "dask") else dtype)
            mon.ev("results compared")
        for o, s in zip(ops, snap):
            if not np.array_equal(back(lib, o), s):
                raise Violation(f"{what}: an operand was modified")
        mon.ev(f"{lib} {use}")
        mon.sig(lib, con.key(), str(kw), dtype, use)
        mon.sample({"lib": lib, "use": use, "eq": eq, "shapes": con.shapes()})

    return fam


def convert(lib):
    def fam(rng, mon):
        """NumPy arrays through a converting expression, with constants, over several calls."""
        get(lib)
        con = draw(rng, lib)
        dtype = rng.choice(("float64", "float32"))
        kw = kwargs(rng, con)
        eq = con.eq(gen.symbols(rng, con))
        # libraries that promote take arrays of different dtypes
        mixed = lib == "jax" and rng.random() < 0.3
        dts = [rng.choice(("float64", "int64", "int32", "float32", "complex128")) for _ in range(con.n)] if mixed else [dtype] * con.n
        if mixed:
            dtype = str(np.dtype(np.result_type(*dts, "float64")) if any(d[0] in "fc" for d in dts) else np.result_type(*dts))
            mon.ev("arrays of different dtypes", len(set(dts)) > 1)
        values = lambda: [a.astype(d) for a, d in zip(vals(rng, con, "float64"), dts)]
        x0 = values()
        consts = [i for i in range(con.n) if rng.random() < 0.4] if rng.random() < 0.6 else []
        if len(consts) == con.n:
            consts = consts[:-1]
        what0 = f"{lib} expression {eq!r} {con.shapes()} {dts if mixed else dtype} {kw} constants={consts}"
        mon.describe(lib=lib, eq=eq, shapes=con.shapes(), kw=str(kw), constants=consts)
        e = oe.contract_expression(eq, *[gen.relayout(rng, x0[i], rng.choice(("C", "F", "T", "neg", "gap"))) if i in consts else s for i, s in enumerate(con.shapes())], constants=consts, **kw)
        hist, v, kept = [], None, []
        for _ in range(rng.randint(1, 4) if lib != "jax" else rng.randint(1, 3)):
            x = values()
            again = ""
            if v is not None and rng.random() < 0.4:
                # the same array objects, some with new contents
                again = " again"
                for a, i in zip(v, [i for i in range(con.n) if i not in consts]):
                    if a.flags.writeable and rng.random() < 0.6:
                        a[...] = x[i]
                    else:
                        x[i] = np.array(a)
            else:
                v = [gen.relayout(rng, x[i], rng.choice(("C", "C", "F", "T", "neg", "gap", "off", "ro"))) for i in range(con.n) if i not in consts]
            cur = [x0[i] if i in consts else x[i] for i in range(con.n)]
            want = oracle.of(con, cur, np.complex128 if dtype.startswith("complex") else np.int64)
            use = rng.choice(("plain", "plain", "out", "share", "numpy", "native"))
            hist.append(use + again)
            what = f"{what0} {hist}"
            if use == "native":
                m = [to(lib, a, rng) for a in v]
                r = e(*m)
                check_type(lib, r, what, want.ndim == 0)
                compare(lib, r, want, what)
                mon.ev("results compared")
                continue
            if use == "numpy":
                r = e(*v)
            elif use == "out":
                out = np.full(want.shape, 3, dtype=dtype)
                r = e(*v, backend=lib, out=out)
                if r is not out:
                    raise Violation(f"{what}: out was not returned")
            elif use == "share":
                with oe.shared_intermediates():
                    r = e(*v, backend=lib)
                    r2 = e(*v, backend=lib)
                if not np.array_equal(r, r2):
                    raise Violation(f"{what}: another result when repeated")
            else:
                r = e(*v, backend=lib)
            if not isinstance(r, (np.ndarray, np.generic)):
                raise Violation(f"{what}: {type(r)} returned for NumPy arrays")
            if np.shape(r) != want.shape or not np.array_equal(r, want):
                raise Violation(f"{what}: wrong result")
            if np.asarray(r).dtype.kind != np.dtype(dtype).kind or not mixed and np.asarray(r).dtype != np.dtype(dtype):
                raise Violation(f"{what}: dtype {np.asarray(r).dtype}")
            mon.ev("results compared")
            mon.ev(f"{lib} converted " + use + again)
            if con.n > 1:
                for r2, w2 in kept:
                    if not np.array_equal(r2, w2):
                        raise Violation(f"{what}: a call changed the result of an earlier one")
                kept.append((r, want))
                if isinstance(r, np.ndarray) and r.flags.writeable and rng.random() < 0.3:
                    kept.pop()
                    r[...] = 77  # the caller's own array
        mon.sig(lib, con.key(), str(kw), tuple(consts), tuple(hist))

    return fam


def gradients(con, x, w):
    """Exact gradients of sum(w * einsum(x)): the contraction is linear in every operand."""
    out = []
    for i, a in enumerate(x):
        g = np.zeros(a.shape)
        for pos in np.ndindex(*a.shape):
            u = np.zeros(a.shape, dtype=np.int64)
            u[pos] = 1
            y = [u if j == i else b.astype(np.int64) for j, b in enumerate(x)]
            g[pos] = (oracle.of(con, y) * w).sum()
        out.append(g)
    return out


def grad(lib):
    def fam(rng, mon):
        con = gen.contraction(rng, 1, 4, budget=100, sizes=(1, 2, 2, 3), maxrank=3, diag=DIAG.get(lib, 0.15))
        if sum(int(np.prod(s)) for s in con.shapes()) > 60:
            raise Skip("too many entries")
        x = vals(rng, con, "float64")
        w = np.asarray(gen.nprng(rng).integers(-2, 2, size=con.out_shape(), endpoint=True)).astype(float)
        kw = kwargs(rng, con)
        eq = con.eq(gen.symbols(rng, con))
        what = f"gradient by {lib} of {eq!r} {con.shapes()} {kw}"
        mon.describe(lib=lib, eq=eq, shapes=con.shapes(), kw=str(kw))
        use_expr = rng.random() < 0.4
        consts = [i for i in range(con.n) if rng.random() < 0.3][: con.n - 1] if use_expr else []
        m = get(lib)

        def value(*ops):
            if use_expr:
                e = oe.contract_expression(eq, *[ops[i] if i in consts else s for i, s in enumerate(con.shapes())], constants=consts, **kw)
                return e(*[o for i, o in enumerate(ops) if i not in consts])
            if share:
                with oe.shared_intermediates():
                    return oe.contract(eq, *ops, **kw)
            return oe.contract(eq, *ops, **kw)

        share = rng.random() < 0.2 and not use_expr
        if lib == "torch":
            ops = [m.from_numpy(np.array(a)).requires_grad_(True) for a in x]
            loss = (value(*ops) * m.from_numpy(np.array(w))).sum()
            got = m.autograd.grad(loss, ops, allow_unused=True) if loss.requires_grad else [None] * con.n
            got = [np.zeros(a.shape) if g is None else g.numpy() for g, a in zip(got, x)]
        elif lib == "tensorflow":
            ops = [m.Variable(np.array(a)) for a in x]
            with m.GradientTape() as tape:
                loss = m.reduce_sum(value(*[m.identity(o) for o in ops]) * m.convert_to_tensor(w))
            got = [np.zeros(a.shape) if g is None else m.convert_to_tensor(g).numpy() for g, a in zip(tape.gradient(loss, ops), x)]
        elif lib == "jax":
            import jax.numpy as jnp

            def f(ops):
                return (value(*ops) * jnp.asarray(w)).sum()

            got = [np.asarray(g) for g in m.grad(f)([jnp.asarray(a) for a in x])]
        else:
            def f(*ops):
                return m.numpy.sum(value(*ops) * w)

            got = [m.grad(f, i)(*x) for i in range(con.n)]
        for i, (g, ref) in enumerate(zip(got, gradients(con, x, w))):
            if np.shape(g) != ref.shape or not np.allclose(g, ref, rtol=1e-9, atol=1e-9):
                raise Violation(f"{what}: wrong gradient with respect to operand {i}")
            mon.ev("gradients compared")
        mon.ev(f"{lib} gradients")
        mon.sig("grad", lib, con.key(), str(kw), use_expr)

    return fam


class Poly:
    """A ring element without any NumPy help: integers modulo a prime, with only + and *."""

    __slots__ = ("v",)
    P = 1000003

    def __init__(self, v):
        self.v = v % self.P

    def __add__(self, o):
        return Poly(self.v + o.v) if isinstance(o, Poly) else NotImplemented

    def __mul__(self, o):
        return Poly(self.v * o.v) if isinstance(o, Poly) else NotImplemented

    def __eq__(self, o):
        return isinstance(o, Poly) and o.v == self.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return f"P{self.v}"


class Acc(Poly):
    """The same, with in-place operations."""

    __slots__ = ()

    def __add__(self, o):
        return Acc(self.v + o.v) if isinstance(o, Poly) else NotImplemented

    def __mul__(self, o):
        return Acc(self.v * o.v) if isinstance(o, Poly) else NotImplemented

    def __iadd__(self, o):
        self.v = (self.v + o.v) % self.P
        return self

    def __imul__(self, o):
        self.v = (self.v * o.v) % self.P
        return self


def fam_object(rng, mon):
    """Arrays of Python objects."""
    con = gen.contraction(rng, 1, 4, budget=200, sizes=(1, 2, 2, 3), bcast=0.2)
    kw = kwargs(rng, con)
    eq = con.eq(gen.symbols(rng, con))
    g = gen.nprng(rng)
    ints = [np.asarray(g.integers(0, 50, size=s)) for s in con.shapes()]
    kind = rng.choice(("ring", "big", "fraction", "mutable"))
    wantint = oracle.einsum(con.terms, con.output, [i.astype(object) for i in ints])

    def mk(a, f):
        out = np.empty(a.shape, dtype=object)
        for p in np.ndindex(*a.shape):
            out[p] = f(int(a[p]))
        return out

    if kind == "ring":
        ops = [mk(a, Poly) for a in ints]
        ok = lambda v, w: isinstance(v, Poly) and v.v == w % Poly.P
    elif kind == "mutable":
        ops = [mk(a, Acc) for a in ints]
        ok = lambda v, w: isinstance(v, Acc) and v.v == w % Poly.P
    elif kind == "fraction":
        from fractions import Fraction

        ops = [mk(a, lambda v: Fraction(v, 3)) for a in ints]
        ok = lambda v, w: v == Fraction(int(w), 3 ** con.n)
    else:
        ops = [mk(a, lambda v: v * 10 ** 30) for a in ints]
        ok = lambda v, w: v == int(w) * 10 ** (30 * con.n)
    what = f"object arrays ({kind}) {eq!r} {con.shapes()} {kw}"
    mon.describe(eq=eq, shapes=con.shapes(), kind=kind, kw=str(kw))
    use = rng.choice(("contract", "expr", "share", "false"))
    e = oe.contract_expression(eq, *con.shapes(), **kw) if use == "expr" else None
    elements = [[(o[p], getattr(o[p], "v", o[p])) for p in np.ndindex(*o.shape)] for o in ops]
    for _ in range(2):
        if use == "contract":
            r = oe.contract(eq, *ops, backend="object", **kw)
        elif use == "false":
            r = oe.contract(eq, *ops, backend="object", optimize=False)
        elif use == "expr":
            r = e(*ops, backend="object")
        else:
            with oe.shared_intermediates():
                r = oe.contract(eq, *ops, backend="object", **kw)
        if isinstance(r, np.ndarray):
            if r.dtype != object or r.shape != wantint.shape:
                raise Violation(f"{what}: {r.dtype} array of shape {r.shape}, expected {wantint.shape}")
            for p in np.ndindex(*r.shape):
                if not ok(r[p], wantint[p]):
                    raise Violation(f"{what}: {r[p]!r} at {p}, expected {wantint[p]}")
        elif wantint.shape != () or not ok(r, wantint[()]):
            raise Violation(f"{what}: {r!r:.200}")
        for o, el in zip(ops, elements):
            for p, (x, v) in zip(np.ndindex(*o.shape), el):
                if o[p] is not x or getattr(x, "v", x) != v:
                    raise Violation(f"{what}: an operand's element was modified")
    mon.ev("object " + kind)
    mon.ev("results compared")
    mon.sig("object", kind, con.key(), str(kw), use)


def fam_modules(rng, mon):
    """Arrays of several generated modules, in turn: equal class names, classes in submodules, functions missing."""
    from .. import fakes
    from .c15 import td_only

    con = td_only(rng, 4)
    hard = draw(rng, "module", 4)
    mods = [fakes.make_module(rng) for _ in range(rng.randint(2, 3))]
    e = {}
    kw = {}
    for c in (con, hard):
        kw[c] = kwargs(rng, c)
        if isinstance(kw[c]["optimize"], list) and c is con:
            kw[c]["optimize"] = gen.random_path(rng, c.n, "pair")
        e[c] = oe.contract_expression(c.eq(gen.symbols(rng, c)), *c.shapes(), **kw[c])
    eqs = {c: c.eq(gen.symbols(rng, c)) for c in (con, hard)}
    hist = []
    mon.describe(mods=[m.about for m in mods], eqs=list(eqs.values()), kw=str(list(kw.values())))
    for _ in range(rng.randint(2, 6)):
        m = rng.choice(mods)
        c = hard if "einsum" in m.has and rng.random() < 0.6 else con
        if c is con and "einsum" not in m.has and not kw[c]["use_blas"]:
            continue
        x = vals(rng, c, "int64")
        want = oracle.of(c, x, np.int64)
        ops = [m.wrap(a) for a in x]
        use = rng.choice(("contract", "expr", "share", "named"))
        if use == "named" and "subclass" in m.about:
            use = "expr"
        hist.append((m.about, use))
        what = f"{eqs[c]!r} {c.shapes()} {kw[c]}, modules {[k.about for k in mods]}, history {hist}"
        if use == "expr":
            r = e[c](*ops)
        elif use == "named":
            r = oe.contract(eqs[c], *ops, backend=m.name, **kw[c])
        elif use == "share":
            with oe.shared_intermediates():
                r = oe.contract(eqs[c], *ops, **kw[c])
        else:
            r = oe.contract(eqs[c], *ops, **kw[c])
        if type(r) is not m.cls and not (m.unwrap is np.asarray and isinstance(r, (np.ndarray, np.generic))):
            raise Violation(f"{what}: a {type(r)}, not an array of {m.name}")
        got = m.unwrap(r)
        if got.shape != want.shape or not np.array_equal(got, want):
            raise Violation(f"{what}: wrong result")
        mon.ev("results compared")
        mon.ev("generated module " + use)
    mon.sig("modules", con.key(), hard.key(), tuple(hist), str(kw))


_FRESH = {}


@contextlib.contextmanager
def old_torch(has):
    """A fresh instance of the torch backend that sees a torch with or without tensordot."""
    t = get("torch")
    name = f"opt_einsum.backends.vmon_torch_{has}"
    keep = t.tensordot
    if not has:
        del t.tensordot
    try:
        if name not in _FRESH:
            from opt_einsum.backends import torch as orig

            spec = importlib.util.spec_from_file_location(name, orig.__file__)
            sys.modules[name] = _FRESH[name] = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(_FRESH[name])
        yield name, _FRESH[name]
    finally:
        t.tensordot = keep


def fam_torch_fallback(rng, mon):
    """The torch backend's own tensordot, transpose and einsum, with and without torch.tensordot."""
    t = get("torch")
    con = draw(rng, "torch")
    x = vals(rng, con, "float64")
    want = oracle.of(con, x, np.int64)
    kw = kwargs(rng, con)
    eq = con.eq(gen.symbols(rng, con))
    mon.describe(eq=eq, shapes=con.shapes(), kw=str(kw))
    # all forms of axes
    n = rng.choice((2, 3))
    a, b = (np.asarray(gen.nprng(rng).integers(-2, 2, size=(n,) * rng.randint(1, 3))).astype(float) for _ in range(2))
    k = rng.randint(0, min(a.ndim, b.ndim))
    ax = rng.choice((k, (rng.sample(range(a.ndim), k), rng.sample(range(b.ndim), k)), (rng.randrange(a.ndim), rng.randrange(b.ndim))))
    for has in (False, True):
        with old_torch(has) as (name, bt):
            r = oe.contract(eq, *[t.from_numpy(np.array(a)) for a in x], backend=name, **kw)
            if not isinstance(r, t.Tensor):
                raise Violation(f"{eq!r}: {type(r)}")
            compare("torch", r, want, f"torch (with tensordot: {has}) {eq!r} {con.shapes()} {kw}", "float64")
            mon.ev("results compared")
            if has and not isinstance(ax, int) and isinstance(ax[0], int):
                continue  # a form torch itself does not take
            y = bt.tensordot(t.from_numpy(a), t.from_numpy(b), axes=ax)
            if not np.array_equal(y.numpy(), np.tensordot(a, b, ax)):
                raise Violation(f"torch tensordot of {a.shape}, {b.shape} over {ax} (has torch.tensordot: {has}): wrong result")
            mon.ev("torch tensordot, torch " + ("has it" if has else "lacks it"))
    mon.sig("fallback", con.key(), str(kw), str(ax))


def fam_standins(rng, mon):
    """Libraries that are not installed, by stand-ins: a device library, and a symbolic one without einsum."""
    from .. import fakes
    from .c15 import td_only

    lib = rng.choice(("cupy", "theano"))
    con = td_only(rng, 5) if lib == "theano" else draw(rng, lib)
    opt = gen.random_path(rng, con.n, "pair") if rng.random() < 0.5 else rng.choice([s for s in strategies.names_for(con.n) if "random" not in s])
    if lib == "cupy" and rng.random() < 0.3:
        opt = gen.random_path(rng, con.n)
    eq = con.eq(gen.symbols(rng, con))
    x0 = vals(rng, con, "float64")
    consts = [i for i in range(con.n) if rng.random() < 0.4] if rng.random() < 0.7 else []
    if len(consts) == con.n:
        consts = consts[:-1]
    what0 = f"{lib} stand-in {eq!r} {con.shapes()} optimize={opt} constants={consts}"
    mon.describe(lib=lib, eq=eq, shapes=con.shapes(), optimize=str(opt), constants=consts)
    e = oe.contract_expression(eq, *[gen.relayout(rng, x0[i], rng.choice(("C", "F", "T", "neg", "gap"))) if i in consts else s for i, s in enumerate(con.shapes())], constants=consts, optimize=opt)
    hist = []
    with fakes.installed(lib) as m:
        for _ in range(rng.randint(1, 4)):
            x = vals(rng, con, "float64")
            v = [x[i] for i in range(con.n) if i not in consts]
            want = oracle.of(con, [x0[i] if i in consts else x[i] for i in range(con.n)], np.int64)
            use = rng.choice(("plain", "plain", "out", "share", "numpy") + (("native",) if lib == "cupy" else ()))
            if lib == "theano" and use == "share":
                use = "plain"  # a symbolic graph made in a context is outside of this property
            hist.append(use)
            what = f"{what0} {hist}"
            if use == "numpy":
                r = e(*v)
            elif use == "native":
                r = e(*[m.asarray(a) for a in v])
                if not isinstance(r, m.ndarray):
                    raise Violation(f"{what}: {type(r)}")
                r = r._data
            elif use == "out":
                out = np.full(want.shape, 3.0)
                r = e(*v, backend=lib, out=out)
                if r is not out:
                    raise Violation(f"{what}: out was not returned")
            elif use == "share":
                with oe.shared_intermediates():
                    r = e(*v, backend=lib)
                    k = len(m.log)
                    r2 = e(*v, backend=lib)
                    if set(m.log[k:]) - {"get"}:
                        raise Violation(f"{what}: repeated in a sharing context, executed {m.log[k:]}")
                if not np.array_equal(r, r2):
                    raise Violation(f"{what}: another result when repeated")
            else:
                r = e(*v, backend=lib)
            if not isinstance(r, (np.ndarray, np.generic)) or np.shape(r) != want.shape or not np.array_equal(r, want):
                raise Violation(f"{what}: wrong result")
            mon.ev("results compared")
            mon.ev(f"{lib} stand-in {use}")
    mon.sig(lib, con.key(), str(opt), tuple(consts), tuple(hist))


def fam_graph(rng, mon):
    """TensorFlow in graph mode, by a stand-in for the old library in a fresh process."""
    cases, judge = [], []
    for _ in range(40):
        con = gen.contraction(rng, 1, 5, budget=3000, sizes=(1, 2, 3, 4), maxrank=4)
        eq = con.eq(gen.symbols(rng, con))
        consts = [i for i in range(con.n) if rng.random() < 0.4] if rng.random() < 0.7 else []
        if len(consts) == con.n:
            consts = consts[:-1]
        dt = rng.choice(("float32", "float64", "int64"))
        x0 = vals(rng, con, dt)

        def js(a):
            return [list(np.shape(a)), np.asarray(a).reshape(-1).tolist(), str(a.dtype)]

        calls, wants = [], []
        for _ in range(rng.randint(1, 4)):
            use = rng.choice(("plain", "plain", "tensors", "share", "numpy") + (() if consts else ("contract",)))
            x = vals(rng, con, dt)
            calls.append([use, [js(x[i]) for i in range(con.n) if i not in consts]])
            wants.append(oracle.of(con, [x0[i] if i in consts else x[i] for i in range(con.n)], np.int64))
        opt = rng.choice((True, "eager", "greedy", [list(s) for s in gen.random_path(rng, con.n)]))
        cases.append(dict(eq=eq, shapes=[list(s) for s in con.shapes()], values=[js(a) for a in x0], consts=consts, optimize=opt, calls=calls))
        judge.append((con, wants, dt))
    p = subprocess.run([sys.executable, "-B", TF1, boot.REPO, rng.choice(("told", "untold"))], input=json.dumps(cases), capture_output=True, text=True, timeout=300)
    if p.returncode:
        raise Violation(f"importing opt_einsum and contracting in graph mode failed: {p.stderr[-600:]}")
    res = json.loads(p.stdout)
    if not boot.in_repo(res["file"]):
        raise RuntimeError(f"the child imported {res['file']}")
    for c, (con, wants, dt), got in zip(cases, judge, res["out"]):
        hist = [u for u, _ in c["calls"]]
        mon.describe(eq=c["eq"], shapes=c["shapes"], constants=c["consts"], optimize=str(c["optimize"]), uses=hist)
        what = f"tensorflow in graph mode, {c['eq']!r} {c['shapes']} {dt} constants={c['consts']} optimize={c['optimize']} {hist}"
        if len(got) != len(wants):
            raise Violation(f"{what}: {got}")
        for w, g in zip(wants, got):
            if g[0] != "array" or tuple(g[1]) != w.shape or g[2] != dt or g[3] != w.reshape(-1).tolist():
                raise Violation(f"{what}: {str(g)[:300]}, expected {w.tolist()}")
            mon.ev("results compared")
        for u in hist:
            mon.ev("tensorflow graph " + u)
        mon.sig("graph", con.key(), str(c["optimize"]), tuple(c["consts"]), tuple(hist))


FAMILIES = [
    Family("graph", fam_graph, 16, 300, chunk=1, cpu=200),
    Family("standins", fam_standins, 1500, 20000),
    Family("modules", fam_modules, 1200, 20000),
    Family("torch", direct("torch"), 3000, 20000),
    Family("jax", direct("jax"), 400, 2500, chunk=20, cpu=200),
    Family("tensorflow", direct("tensorflow"), 400, 6000, chunk=50, cpu=200),
    Family("dask", direct("dask"), 300, 5000, chunk=40, cpu=200),
    Family("sparse", direct("sparse"), 300, 5000, chunk=40, cpu=200),
    Family("to_torch", convert("torch"), 1500, 20000),
    Family("to_jax", convert("jax"), 300, 1500, chunk=13, cpu=200),
    Family("to_tensorflow", convert("tensorflow"), 400, 6000, chunk=50, cpu=200),
    Family("grad_torch", grad("torch"), 500, 6000, chunk=60),
    Family("grad_autograd", grad("autograd"), 300, 4000, chunk=40),
    Family("grad_tensorflow", grad("tensorflow"), 150, 2500, chunk=20, cpu=200),
    Family("grad_jax", grad("jax"), 120, 900, chunk=8, cpu=200),
    Family("object", fam_object, 1500, 20000),
    Family("torch_fallback", fam_torch_fallback, 400, 5000),
]
