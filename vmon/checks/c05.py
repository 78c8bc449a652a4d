"""C05: dynamic programming minimises the objective it was asked to minimise."""
import opt_einsum as oe

from .. import gen, history, oracle
from ..core import Family, Violation

RULE = "distinct (structure, sizes, objective, cap, outer search, limit) whose achieved objective was compared with the optimum"
ASSUMPTIONS = ["the operations of a step are the product of the sizes of its indices; indices on a single operand that are summed are "
               "summed beforehand; parts are connected by summed indices",
               "the optimum over all orders is computed by dynamic programming over subsets without any cap"]


def objective(kind, factor, steps, sizes):
    tot = 0
    for s in steps:
        c = oracle.dp_step_cost(kind, factor, oracle.size(s.union, sizes), s.size)
        tot = max(tot, c) if kind in ("size", "peak") else tot + c
    return tot


def parse(minimize):
    kind, _, f = minimize.partition("-")
    return kind, (float(f) if f else 64)


def achieved(con, path, comps, red, kind, factor, what):
    """Objective of the given path within every part.  A part's steps are those combining two pieces that
    both lie within the part."""
    sizes = con.eff_sizes()
    try:
        oracle.check_path(path, con.n, pairwise=True)
    except oracle.BadPath as e:
        raise Violation(f"{what}: invalid path {path}: {e}")
    st = oracle.replay(con.terms, con.output, sizes, path)
    out = frozenset(con.output)
    res, outer = [], False
    for comp in comps:
        cs = frozenset(comp)
        tot = 0
        done = None
        for s in st:
            if len(s.pos) != 2 or not s.leaves <= cs:
                continue
            rest = cs - s.leaves
            legs = []
            for p in s.parts:
                ins = frozenset().union(*(red[i] for i in p))
                oth = frozenset().union(*(red[i] for i in range(con.n) if i not in p))
                legs.append(ins & (out | oth) if len(p) > 1 else ins)
            union = legs[0] | legs[1]
            allin = frozenset().union(*(red[i] for i in s.leaves))
            other = frozenset().union(*(red[i] for i in range(con.n) if i not in s.leaves))
            rs = oracle.size(allin & (out | other), sizes)
            if not (legs[0] & legs[1]) - out:
                outer = True
            c = oracle.dp_step_cost(kind, factor, oracle.size(union, sizes), rs)
            tot = max(tot, c) if kind in ("size", "peak") else tot + c
            if not rest:
                done = True
        if len(comp) > 1 and not done:
            raise Violation(f"{what}: {path} mixes the connected part {sorted(comp)} with other operands")
        res.append(tot)
    return res, outer, st


class Local:
    """A local cost function as a user might write one; what it is told is compared with what it works out itself."""

    def __init__(self, kind, bad):
        self.kind, self.bad, self.calls = kind, bad, 0

    def __call__(self, cost1, cost2, i1_union_i2, size_dict, cost_cap, s1, s2, xn, g, all_tensors, inputs, i1_cut_i2_wo_output, memory_limit,
                 contract1, contract2):
        self.calls += 1
        s = s1 | s2
        if s1 & s2 or s & ~g or g & ~all_tensors:
            self.bad.append(f"asked to merge {s1:b} and {s2:b} in {g:b}")
        rest = frozenset().union(*(t for k, t in enumerate(inputs) if (g & ~s) >> k & 1))
        legs = frozenset(i1_union_i2) - (frozenset(i1_cut_i2_wo_output) - rest)
        f, mem = 1, 1
        for c in i1_union_i2:
            f *= size_dict[c]
        for c in legs:
            mem *= size_dict[c]
        c = oracle.dp_step_cost(self.kind, 0, f, mem)
        cost = max(cost1, cost2, c) if self.kind == "peak" else cost1 + cost2 + c
        if cost <= cost_cap and (s not in xn or cost < xn[s][1]) and (memory_limit is None or mem <= memory_limit):
            xn[s] = (legs, cost, (contract1, contract2))


def abstract(con):
    return [frozenset("i%d" % c for c in t) for t in con.terms], frozenset("i%d" % c for c in con.output), {"i%d" % c: d for c, d in con.eff_sizes().items()}


MIN = ("flops", "size", "write", "combo", "limit", "combo-1", "combo-3", "combo-256", "limit-1", "limit-3", "limit-512")


def body(rng, mon, con, outer_ok=True, custom=None):
    minimize = custom or rng.choice(MIN)
    if rng.random() < 0.15 and not custom:
        minimize = rng.choice(("combo", "limit")) + "-%d" % rng.choice((0, 0, 2, 5, 10, 17, 64, 1000, 10 ** 6))
    kind, factor = parse(minimize)
    cap = rng.choice((True, True, True, False, 1, 7, 100, 10 ** 5))
    outer = outer_ok and rng.random() < 0.25
    limit = None
    if rng.random() < 0.4:
        limit = rng.choice((1, 2, 3, 4, 6, 8, 12, 20, 60, 250, 10 ** 4))
    eq = con.eq(history.symbols(rng, mon, con))
    what = f"DynamicProgramming(minimize={minimize!r}, cost_cap={cap}, search_outer={outer}) for {eq!r} {con.shapes()} limit {limit}"
    mon.describe(eq=eq, shapes=con.shapes(), minimize=minimize, cost_cap=cap, search_outer=outer, limit=limit)
    sizes = con.eff_sizes()
    comps, red = oracle.summed_components(con.terms, con.output)
    # operands that are completely summed on their own take part in nothing
    gone = {i for i in range(con.n) if not red[i] and con.terms[i]}
    if outer:
        rest = [i for i in range(con.n) if i not in gone]
        comps = ([rest] if rest else []) + [[i] for i in sorted(gone)]
    want = [oracle.dp_best([red[i] for i in c], set(con.output), sizes, kind, factor, outer, limit) for c in comps]
    bad = []
    opt = oe.DynamicProgramming(minimize=Local(kind, bad) if custom else minimize, cost_cap=cap, search_outer=outer)
    if rng.random() < 0.4 and con.n <= 9:
        # the same object has searched other contractions before
        for _ in range(rng.randint(1, 3)):
            k, v = history.variant(rng, con)
            try:
                p = opt(*abstract(v), rng.choice((None, None, limit, 2, 1000)))
                if rng.random() < 0.3:
                    p.reverse()
            except RuntimeError:
                pass
            mon.ev("object used before, changed in " + k)
        del bad[:]
    how = rng.choice(("path", "call"))
    try:
        if how == "path" or con.n <= 2:
            path = oe.contract_path(eq, *con.shapes(), shapes=True, optimize=opt, memory_limit=limit)[0]
        else:
            lhs, o = eq.split("->")
            sd = {}
            for t, s in zip(lhs.split(","), con.shapes()):
                for c, d in zip(t, s):
                    if sd.get(c, 1) == 1:
                        sd[c] = d
            path = opt([frozenset(t) for t in lhs.split(",")], frozenset(o), sd, limit)
    except RuntimeError as e:
        if any(w is None for w in want):
            mon.ev("limit unsatisfiable: error raised")
            mon.sig(con.key(), minimize, cap, outer, limit)
            return
        raise Violation(f"{what}: raised {e!r} although an order of cost {want} fits")
    if any(w is None for w in want):
        raise Violation(f"{what}: no order fits the limit, but {path} was returned")
    if bad:
        raise Violation(f"{what}: {bad[0]}")
    got, out, st = achieved(con, path, comps, red, kind, factor, what)
    if out and not outer:
        raise Violation(f"{what}: {path} contains an outer product inside of a connected part")
    # factors are floats: beyond 2**50 sums are rounded
    if any(abs(g - w) > (1e-12 * w if kind == "tiny" or (factor and kind in ("combo", "limit") and w > 2 ** 50) else 0) for g, w in zip(got, want)) or len(got) != len(want):
        raise Violation(f"{what}: {path} achieves {got}, the optimum is {want} (parts {comps})")
    mon.ev("optima compared")
    mon.ev("parts compared", sum(len(c) > 1 for c in comps))
    mon.ev("objective " + kind)
    if limit is not None:
        mon.ev("with a limit")
    if outer:
        mon.ev("with outer products searched")
    mon.ev(f"cost_cap {cap}")
    for f in con.features():
        mon.ev("with " + f)
    mon.sig(con.key(), minimize, cap, outer, limit)
    mon.sample({"eq": eq, "shapes": con.shapes(), "minimize": minimize, "cap": cap, "value": got})


def n3(rng, lo, hi, **kw):
    return gen.contraction(rng, lo, hi, budget=None, **kw)


def fam_small(rng, mon):
    body(rng, mon, n3(rng, 3, 6, bcast=0.05, zero=0.04, sizes=(1, 2, 2, 3, 4, 7, 20)))


def fam_connected(rng, mon):
    body(rng, mon, n3(rng, 3, 7, profile=rng.choice(("net", "hyper", "mixed", "chain", "ring", "grid", "tree", "star")),
                      sizes=(1, 2, 3, 4, 5, 9, 30), scalar=0.01, diag=0.05, sum1=0.4))


def fam_larger(rng, mon):
    body(rng, mon, n3(rng, 8, 10, profile=rng.choice(("net", "chain", "ring", "grid", "tree", "mixed")), sizes=(1, 2, 3, 4, 5), scalar=0.02),
         outer_ok=False)


def fam_huge(rng, mon):
    """Sizes whose products exceed 53 bits, and all orders of up to eight operands."""
    n = rng.choice((4, 5, 6, 7, 8))
    body(rng, mon, n3(rng, n, n, profile=rng.choice(("net", "chain", "ring", "grid", "tree", "hyper")),
                      sizes=rng.choice(((1000, 1001, 1003, 1024), (10 ** 6, 10 ** 6 + 1, 3), (2, 3, 5))), scalar=0.02), outer_ok=True)


def fam_custom(rng, mon):
    """Local cost functions of the caller, on all scales."""
    body(rng, mon, n3(rng, 3, 6, bcast=0.05, sizes=(1, 2, 2, 3, 4, 7), profile=rng.choice(("net", "hyper", "mixed", "chain", "ring", "grid", None))),
         custom=rng.choice(("square", "peak", "tiny", "steps")))
    mon.ev("custom local costs")


def fam_parts(rng, mon):
    """Several connected parts, joined by outer products or output indices only."""
    a = n3(rng, 2, 4, profile=rng.choice(("net", "hyper", "chain", "ring")), sizes=(2, 3, 4, 5))
    b = n3(rng, 2, 4, profile=rng.choice(("net", "hyper", "chain", "ring")), sizes=(2, 3, 4, 5))
    off = max(a.labels, default=0) + 1
    terms = list(a.terms) + [tuple(c + off for c in t) for t in b.terms]
    out = list(a.output) + [c + off for c in b.output]
    sz = dict(a.sizes)
    sz.update({c + off: d for c, d in b.sizes.items()})
    con = gen.Con(terms, out, sz)
    if rng.random() < 0.3 and a.output and b.output:
        # a common output index
        x, y = rng.choice(a.output), rng.choice(b.output) + off
        terms = [tuple(x if c == y else c for c in t) for t in terms]
        out = [c for c in out if c != y]
        con = gen.Con(terms, out, sz)
    perm = list(range(con.n))
    rng.shuffle(perm)
    con = con.permuted(perm)
    body(rng, mon, con, outer_ok=con.n <= 7)


FAMILIES = [
    Family("small", fam_small, 5000, 60000),
    Family("connected", fam_connected, 5000, 60000),
    Family("parts", fam_parts, 1500, 15000),
    Family("custom", fam_custom, 1500, 15000),
    Family("huge", fam_huge, 400, 4000),
    Family("larger", fam_larger, 250, 3000),
]
