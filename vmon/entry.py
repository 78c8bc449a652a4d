"""One contraction through every way of asking for it: contract, expressions, expressions with constants; equation or interleaved."""
import numpy as np

import opt_einsum as oe

WAYS = ("contract", "interleaved", "expression", "expression-interleaved", "constants", "constants-interleaved")


def labels(rng, con):
    """Labels for the interleaved form."""
    k = rng.choice(("int", "str", "tuple", "far"))
    f = {"int": lambda c: c, "str": lambda c: f"ix{c:03d}", "tuple": lambda c: (c // 3, c % 3), "far": lambda c: 1000 - 7 * c}[k]
    seq = rng.choice((list, tuple))
    return [seq(f(c) for c in t) for t in con.terms], seq(f(c) for c in con.output)


def shape_as(rng, s):
    """The same shape in another container or with other integers."""
    s = tuple(int(d) for d in s)
    k = rng.choice(("tuple", "tuple", "list", "int64", "int32", "small"))
    if k == "tuple":
        return s
    if k == "list":
        return list(s)
    if k == "int64":
        return tuple(np.int64(d) for d in s)
    if k == "int32":
        return tuple(np.int32(d) if d < 2 ** 31 else d for d in s)
    return tuple(np.int8(d) if d < 128 else np.int16(d) if d < 2 ** 15 else np.int64(d) for d in s)


def weave(ops, lab):
    ins, out = lab
    return [x for o, t in zip(ops, ins) for x in (o, t)] + [out]


def pick_constants(rng, n):
    cs = rng.sample(range(n), rng.randint(1, max(1, n - 1)))
    return cs, rng.choice((list, tuple, set, list))(cs)


def prepare(rng, con, eq, ops, kw, ways=WAYS, shapes=None):
    """(name, function giving the result); the function can be called several times."""
    opt = kw.get("optimize", True)
    if opt is None or opt is False:
        ways = [w for w in ways if w in ("contract", "interleaved")]
    if con.n == 1:
        ways = [w for w in ways if not w.startswith("constants")]
    way = rng.choice(list(ways))
    lab = labels(rng, con)
    if way == "contract":
        return way, lambda ops=ops: oe.contract(eq, *ops, **kw)
    if way == "interleaved":
        return way, lambda ops=ops: oe.contract(*weave(ops, lab), **kw)
    shapes = shapes or [shape_as(rng, s) for s in con.shapes()]
    cs, given = (), ()
    if way.startswith("constants"):
        cs, given = pick_constants(rng, con.n)
        kw = dict(kw, constants=given)
    mixed = [ops[i] if i in cs else s for i, s in enumerate(shapes)]
    ex = oe.contract_expression(*weave(mixed, lab), **kw) if "interleaved" in way else oe.contract_expression(eq, *mixed, **kw)
    name = way if not cs else f"{way} {given}"
    return name, lambda ops=ops: ex(*[o for i, o in enumerate(ops) if i not in cs])


def run(rng, con, eq, ops, kw, ways=WAYS, shapes=None):
    name, fn = prepare(rng, con, eq, ops, kw, ways, shapes)
    return name, fn()
