"""What a process may have done before the judged call: related calls whose results are not judged.

Every call is on a variant of the same contraction under the same symbols (other sizes, operands in another order, axes in another
order, broadcast dimensions switched, another output) or on the same contraction with other options, so that anything the library
remembers too coarsely between calls shows in the judged call that follows."""
import warnings

import numpy as np

import opt_einsum as oe

from . import gen, strategies


def variant(rng, con):
    """Another contraction that looks similar."""
    k = rng.choice(("same", "sizes", "order", "axes", "ones", "output", "terms", "relabel"))
    terms, out, sizes, ones = [list(t) for t in con.terms], list(con.output), dict(con.sizes), set(con.ones)
    labels = con.labels
    if k == "sizes" and labels:
        for c in rng.sample(labels, rng.randint(1, len(labels))):
            sizes[c] = rng.choice((1, 2, 3, 4, sizes[c] + 1))
    elif k == "order":
        perm = list(range(con.n))
        rng.shuffle(perm)
        return k, con.permuted(perm)
    elif k == "axes":
        for t in terms:
            rng.shuffle(t)
        rng.shuffle(out)
        ones = set()
    elif k == "ones":
        occ = {}
        for i, t in enumerate(terms):
            for j, c in enumerate(t):
                occ.setdefault(c, []).append((i, j))
        ones = set() if ones and rng.random() < 0.5 else {rng.choice(v) for v in occ.values() if len(v) > 1 and rng.random() < 0.5}
    elif k == "output":
        out = [c for c in labels if rng.random() < 0.5]
        rng.shuffle(out)
    elif k == "terms" and con.n > 1:
        i = rng.randrange(con.n)
        del terms[i]
        left = {c for t in terms for c in t}
        out = [c for c in out if c in left]
        ones = set()
    elif k == "relabel" and len(labels) > 1:
        a, b = rng.sample(labels, 2)
        sw = {a: b, b: a}
        terms = [[sw.get(c, c) for c in t] for t in terms]
        out = [sw.get(c, c) for c in out]
        sizes[a], sizes[b] = sizes[b], sizes[a]
    return k, gen.Con(terms, out, sizes, ones)


def spoil(path, info):
    """The caller owns what was returned."""
    for x in (path, getattr(info, "path", None), getattr(info, "scale_list", None), getattr(info, "size_list", None)):
        if isinstance(x, list):
            x.reverse()
            x.append((0, 0))


def prelude(rng, mon, con, sym, p=0.3, maxn=9, budget=3000, strategy=None):
    """One to four related calls, none of them judged.  ``strategy``: the one of the judged call, used half of the time."""
    if rng.random() >= p or con.n > maxn or len(con.labels) > 40 or any(d > 10 ** 6 for d in con.sizes.values()):
        return
    for _ in range(rng.randint(1, 4)):
        k, v = variant(rng, con)
        names = strategies.names_for(max(1, v.n), True)
        names = [s for s in names if s != "random-greedy-128"]
        opt = strategy if strategy in names and rng.random() < 0.5 else rng.choice(names)
        lim = rng.choice((None, None, None, -1, 3, 30, "max_input"))
        blas = rng.random() < 0.6
        call = rng.choice(("path", "path", "expr", "contract", "constants"))
        eff = 1
        for c in v.labels:
            eff *= max(1, v.sizes[c])
        big = max((float(np.prod([float(d) for d in sh])) for sh in v.shapes()), default=0)
        if call != "path" and (eff > budget or big > budget):
            call = "path"
        eq = v.eq(sym)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if call == "path":
                    r = oe.contract_path(eq, *v.shapes(), shapes=True, optimize=opt, memory_limit=lim, use_blas=blas)
                    if rng.random() < 0.5:
                        spoil(*r)
                        mon.ev("before: a returned path was changed in place")
                else:
                    dt = rng.choice(("int64", "float64", "float32", "complex128"))
                    arrays = [gen.nprng(rng).integers(-3, 4, size=s).astype(dt) for s in v.shapes()]
                    kw = dict(optimize=opt, memory_limit=lim, use_blas=blas)
                    if rng.random() < 0.3:
                        kw["dtype"] = rng.choice(("float64", "complex128"))
                        kw["casting"] = "unsafe"
                    if call == "contract":
                        oe.contract(eq, *arrays, **kw)
                    else:
                        cs = [i for i in range(v.n) if call == "constants" and rng.random() < 0.5]
                        e = oe.contract_expression(eq, *[arrays[i] if i in cs else v.shapes()[i] for i in range(v.n)], constants=cs, **kw)
                        if rng.random() < 0.6:
                            e(*[arrays[i] for i in range(v.n) if i not in cs])
        except Exception:
            mon.ev("before: an unjudged call failed")
        mon.ev("before: " + call + " on the same contraction, changed in " + k)


def symbols(rng, mon, con, kind=None, **kw):
    """Names for the indices, after what may have been done with the same names before."""
    sym = gen.symbols(rng, con, kind)
    prelude(rng, mon, con, sym, **kw)
    return sym
