"""C22: generated random contractions are valid and as requested."""
import random

import numpy as np
import opt_einsum as oe
from opt_einsum import testing

from .. import gen, history
from ..core import Family, Skip, Violation

RULE = "distinct generated contractions all of whose indices, sizes and shapes were recounted"
ASSUMPTIONS = ["at least two operands (one operand cannot hold a bond)"]


def fam_rand(rng, mon):
    n = rng.choice((2, 2, 3, 4, 5, 10, 20, 45)) if rng.random() < 0.98 else rng.choice((64, 90, 101, 128, 160, 260))
    reg = rng.randint(1, 5)
    n_out = rng.choice((0, 0, 1, 2, 5, 5, rng.choice((9, 30, 60))))
    dmin = rng.choice((1, 2, 3))
    dmax = dmin + rng.choice((0, 1, 5))
    gd = rng.random() < 0.4
    sd = rng.random() < 0.7
    seed = rng.choice((None, rng.randrange(2 ** 31), rng.choice((0, 0, 1, 2, 7, 2 ** 31, 2 ** 32 - 1))))
    if n * reg // 2 * 2 + n_out < n:
        raise Skip("fewer indices than operands")
    if seed is None:
        np.random.seed(rng.randrange(2 ** 31))
    kw = dict(n=n, regularity=reg, n_out=n_out, d_min=dmin, d_max=dmax, global_dim=gd, seed=seed)
    mon.describe(**kw)
    r = testing.rand_equation(return_size_dict=sd, **kw)
    if len(r) != (3 if sd else 2):
        raise Violation(f"rand_equation({kw}, return_size_dict={sd}) returned {len(r)} values")
    eq, shapes = r[:2]
    lhs, arrow, out = eq.partition("->")
    terms = lhs.split(",")
    what = f"rand_equation({kw}): {eq!r} {shapes}"
    if not arrow or len(terms) != n or len(shapes) != n:
        raise Violation(f"{what}: not {n} operands")
    sizes = {}
    for t, s in zip(terms, shapes):
        if len(t) != len(s):
            raise Violation(f"{what}: shape {s} for {t!r}")
        if not t:
            raise Violation(f"{what}: an operand without index")
        if len(set(t)) != len(t):
            raise Violation(f"{what}: repeated index in {t!r}")
        for c, d in zip(t, s):
            if sizes.setdefault(c, d) != d:
                raise Violation(f"{what}: sizes {d} and {sizes[c]} of {c!r}")
            if not dmin <= d <= dmax:
                raise Violation(f"{what}: size {d} of {c!r}")
    num = n * reg // 2 + n_out + gd
    if len(sizes) != num:
        raise Violation(f"{what}: {len(sizes)} indices instead of {num}")
    if len(set(out)) != len(out) or len(out) != n_out + gd:
        raise Violation(f"{what}: output {out!r}")
    cnt = {c: sum(c in t for t in terms) for c in sizes}
    glob = [c for c in out if cnt[c] == n] if gd else []
    if gd and not glob:
        raise Violation(f"{what}: no index on all operands and the output")
    wrong = [c for c in sizes if (cnt[c] != 2 if c not in out else cnt[c] not in ((1, n) if gd else (1,)))]
    if wrong or sum(cnt[c] == n for c in out) > (1 if gd and n > 1 else 0):
        raise Violation(f"{what}: the indices {wrong} occur {[cnt[c] for c in wrong]} times")
    if sd and dict(r[2]) != sizes:
        raise Violation(f"{what}: size_dict {r[2]}")
    if seed is not None:
        np.random.seed(rng.randrange(2 ** 31))
        r2 = testing.rand_equation(return_size_dict=True, **kw)
        if r2[0] != eq or list(r2[1]) != list(shapes):
            raise Violation(f"{what}: the same seed also gave {r2[:2]}")
        mon.ev("seeds repeated")
    # it is a valid contraction
    p, info = oe.contract_path(eq, *shapes, shapes=True, optimize="greedy")
    if info.size_dict != sizes:
        raise Violation(f"{what}: parsed with sizes {info.size_dict}")
    mon.ev("equations generated")
    mon.sig(eq, tuple(shapes))
    mon.sample({"eq": eq, "shapes": shapes})


def fam_views(rng, mon):
    con = gen.contraction(rng, 1, 6, budget=5000, sizes=(1, 2, 3, 4), zero=0.15)
    sym = history.symbols(rng, mon, con)
    eq = con.eq(sym, output=rng.random() < 0.7)
    sizes = {sym[c]: d for c, d in con.sizes.items()}
    sizes0 = dict(sizes)
    mon.describe(eq=eq, sizes=sizes)
    want = [tuple(s) for s in con.shapes()]
    usual = testing.build_shapes(",".join("abcdefghijk"))
    got = testing.build_shapes(eq, dimension_dict=sizes)
    if [tuple(s) for s in got] != want:
        raise Violation(f"build_shapes({eq!r}, {sizes}) is {got}")
    v = testing.build_views(eq, dimension_dict=sizes)
    if [tuple(np.shape(x)) for x in v] != want:
        raise Violation(f"build_views({eq!r}, {sizes}) has shapes {[np.shape(x) for x in v]}")
    if sizes != sizes0:
        raise Violation("the sizes were changed")
    a = testing.build_arrays_from_tuples(want)
    if [x.shape if hasattr(x, "shape") else () for x in a] != want:
        raise Violation(f"build_arrays_from_tuples({want}) has shapes {[np.shape(x) for x in a]}")
    mon.ev("arrays built", len(v))
    # a caller's sizes, few or many, do not become anyone else's defaults
    few = {c: rng.choice((11, 13, 17)) for c in rng.sample("abcdefghijk", rng.choice((1, 1, 2, 3)))}
    t = "".join(few)
    fn = rng.choice((testing.build_shapes, testing.build_views))
    x = fn(t, dimension_dict=few) if rng.random() < 0.5 else fn(t, few)
    if [tuple(getattr(y, "shape", y)) for y in x] != [tuple(few.values())] or list(few) != list(t):
        raise Violation(f"{fn.__name__}({t!r}, {few}) is of shapes {[getattr(y, 'shape', y) for y in x]}")
    again = testing.build_shapes(",".join("abcdefghijk"))
    if again != usual or not all(2 <= d <= 7 for s in again for d in s):
        raise Violation(f"the default sizes are {again}, were {usual} before build_shapes({eq!r}, {sizes}) and {fn.__name__}({t!r}, {few})")
    # default sizes are consistent and an ellipsis is the same dimensions everywhere
    s = "".join(rng.choice("abcdefgh") for _ in range(3))
    e2 = f"{s}...,...{s[::-1]}->{s[0]}..." if rng.random() < 0.5 else f"...{s},{s[1:]}->..."
    sh = testing.build_shapes(e2, replace_ellipsis=True)
    terms = e2.split("->")[0].split(",")
    dims = {}
    for t, x in zip(terms, sh):
        if "..." in t:
            pre, post = t.split("...")
            mid = x[len(pre):len(x) - len(post)]
            labs = [*pre, *[f".{k}" for k in range(len(mid))], *post]
        else:
            labs = list(t)
        if len(labs) != len(x) or any(dims.setdefault(c, d) != d for c, d in zip(labs, x)):
            raise Violation(f"build_shapes({e2!r}) is {sh}")
    try:
        testing.build_shapes(e2)
    except ValueError:
        mon.ev("ellipses rejected")
    else:
        raise Violation(f"build_shapes({e2!r}) accepted an ellipsis")
    mon.sig(eq, e2)


FAMILIES = [
    Family("rand", fam_rand, 6000, 60000),
    Family("views", fam_views, 4000, 40000),
]
