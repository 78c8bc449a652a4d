"""C07: all input formats describe the same contraction."""
import numpy as np

import opt_einsum as oe

from .. import gen, oracle
from ..core import Family, Skip, Violation

RULE = "distinct (structure, ellipsis layout, rendering) whose result, path and cost were compared with the fully explicit contraction"
ASSUMPTIONS = ["an ellipsis stands for trailing-aligned broadcast dimensions; an explicit output of an equation with ellipses contains one"]


class Ell:
    """A contraction with ellipsis dimensions.

    con: the fully explicit contraction; E: labels of the ellipsis dimensions (first to last);
    at[i]: None, or (position, m): operand i has the last m ellipsis labels at that position of its named labels."""

    def __init__(self, con, E, at, out_pos, named):
        self.con, self.E, self.at, self.out_pos, self.named = con, E, at, out_pos, named


def draw(rng, nmax=5, budget=4000, bcast=0.2, ell=0.5):
    base = gen.contraction(rng, 1, nmax, budget=budget, sizes=(1, 2, 2, 3, 4))
    if rng.random() > ell:
        con = gen.contraction(rng, 1, nmax, budget=budget, sizes=(1, 2, 2, 3, 4), bcast=bcast, zero=0.03)
        return Ell(con, [], [None] * con.n, None, con.terms)
    k = rng.randint(0, 3) if rng.random() < 0.95 else rng.randint(4, 14)
    top = max(base.labels, default=0) + 1
    E = [top + i for i in range(k)]
    sizes = dict(base.sizes)
    p = base.prod()
    for e in E:
        sizes[e] = rng.choice((1, 2, 2, 3)) if p < budget else 1
        p *= sizes[e]
    terms, at, ones = [], [], set()
    for i, t in enumerate(base.terms):
        if rng.random() < 0.75 or (i == base.n - 1 and not any(at)):
            m = rng.randint(0, k) if rng.random() < 0.5 else k
            pos = rng.randint(0, len(t))
            at.append((pos, m))
            terms.append(t[:pos] + tuple(E[k - m:]) + t[pos:])
            for j in range(m):
                if rng.random() < 0.2:
                    ones.add((i, pos + j))
        else:
            at.append(None)
            terms.append(t)
    longest = max(a[1] for a in at if a)
    E = E[k - longest:]
    out_pos = rng.randint(0, len(base.output))
    out = base.output[:out_pos] + tuple(E) + base.output[out_pos:]
    con = gen.Con(terms, out, sizes, ones)
    return Ell(con, E, at, out_pos, base.terms)


def implicit(e, key):
    """Labels of the implicit output."""
    cnt = {}
    for t in e.con.terms:
        for c in t:
            cnt[c] = cnt.get(c, 0) + 1
    return tuple(e.E) + tuple(sorted((c for c in cnt if cnt[c] == 1 and c not in e.E), key=key))


def spaces(rng, s):
    """Whitespace, except within an arrow or ellipsis."""
    if rng.random() < 0.5:
        return s
    toks, i = [], 0
    while i < len(s):
        if s.startswith("...", i):
            toks.append("...")
            i += 3
        elif s.startswith("->", i):
            toks.append("->")
            i += 2
        else:
            toks.append(s[i])
            i += 1
    out = ""
    for t in toks:
        out += " " * rng.choice((0, 0, 1, 2)) + t
    return out + " " * rng.choice((0, 1))


def equation(rng, e, sym, use_ell, with_out):
    """The equation string, ellipses rendered as such if ``use_ell``."""
    terms = []
    for i, t in enumerate(e.con.terms):
        if use_ell and e.at[i]:
            pos, _ = e.at[i]
            n = e.named[i]
            terms.append("".join(sym[c] for c in n[:pos]) + "..." + "".join(sym[c] for c in n[pos:]))
        else:
            terms.append("".join(sym[c] for c in t))
    s = ",".join(terms)
    if with_out is not None:
        if use_ell:
            named = [c for c in with_out if c not in e.E]
            pos = next((k for k, c in enumerate(with_out) if c in e.E), rng.randint(0, len(named)))
            s += "->" + "".join(sym[c] for c in named[:pos]) + "..." + "".join(sym[c] for c in named[pos:])
        else:
            s += "->" + "".join(sym[c] for c in with_out)
    return s


def labels_for(rng, con):
    """label -> hashable, mutually comparable object"""
    labs = con.labels
    n = len(labs)
    k = rng.choice(("int", "int", "bigint", "str", "word", "tuple", "float", "upper"))
    if k == "int":
        vals = rng.sample(range(max(60, n)), n)
    elif k == "bigint":
        vals = rng.sample(range(-1000, 100000), n)
    elif k == "str":
        vals = rng.sample(list(gen.LETTERS) + gen.EXOTIC, n)
    elif k == "upper":
        vals = rng.sample(list(gen.LETTERS) if n <= 52 else list(gen.LETTERS) + gen.EXOTIC, n)
    elif k == "word":
        vals = rng.sample(["ix%d" % i for i in range(max(40, n))] + ["bond", "phys"], n)
    elif k == "tuple":
        vals = rng.sample([(i, j) for i in range(12) for j in range(12)], n)
    else:
        vals = rng.sample([i / 8 for i in range(200)], n)
    return k, dict(zip(labs, vals))


def container(rng, sub):
    """The same list of labels in another container, or with equal labels of another type."""
    k = rng.random()
    if k < 0.45:
        return list(sub)
    if k < 0.7:
        return tuple(sub)
    if all(type(x) is int for x in sub):
        if sub and k < 0.8:
            return np.array(sub)
        if k < 0.85 and len(sub) > 1 and sub == list(range(sub[0], sub[-1] + 1)):
            return range(sub[0], sub[-1] + 1)
    if k < 0.9 and all(isinstance(x, str) and len(x) == 1 for x in sub):
        return "".join(sub)
    return [rng.choice((np.int64, int, float, np.int32))(x) if type(x) is int else x for x in sub]


def interleaved(rng, e, lab, use_ell, with_out, ops):
    args = []
    for i, t in enumerate(e.con.terms):
        if use_ell and e.at[i]:
            pos, _ = e.at[i]
            n = e.named[i]
            sub = [lab[c] for c in n[:pos]] + [Ellipsis] + [lab[c] for c in n[pos:]]
        else:
            sub = [lab[c] for c in t]
        args += [ops[i], container(rng, sub)]
    if with_out is not None:
        if use_ell:
            named = [c for c in with_out if c not in e.E]
            pos = next((k for k, c in enumerate(with_out) if c in e.E), rng.randint(0, len(named)))
            sub = [lab[c] for c in named[:pos]] + [Ellipsis] + [lab[c] for c in named[pos:]]
        else:
            sub = [lab[c] for c in with_out]
        args.append(container(rng, sub))
    return args


def dress(rng, a):
    """The same operand in another form."""
    r = rng.random()
    if r < 0.7 or (a.ndim and 0 in a.shape):
        return a
    return a.tolist()


def check(con, res, want, what):
    if np.shape(res) != want.shape:
        raise Violation(f"{what}: shape {np.shape(res)} instead of {want.shape}")
    if not np.array_equal(np.asarray(res), want):
        raise Violation(f"{what}: wrong value")


def norm(p):
    return [tuple(sorted(x)) for x in p]


def body(rng, mon, e, renderings=4, strategy=None, slow=False):
    con = e.con
    m = 3
    g = gen.nprng(rng)
    arrays = [g.integers(-m, m, size=s, endpoint=True) for s in con.shapes()]
    ell = any(e.at)
    base = dict(zip(con.labels, gen.LETTERS)) if len(con.labels) <= 52 else dict(zip(con.labels, list(gen.LETTERS) + gen.EXOTIC))
    outs = {}
    for _ in range(renderings):
        fmt = rng.choice(("eq", "eq", "inter", "inter"))
        use_ell = ell and rng.random() < 0.85
        if fmt == "eq":
            sym = gen.symbols(rng, con, None if len(con.labels) <= 52 else "mixed")
            key = sym.get
        else:
            lk, lab = labels_for(rng, con)
            key = lab.get
        if rng.random() < 0.4:
            out, given = implicit(e, key), None
            if ell and not use_ell and e.E:
                given = out
        else:
            out = given = con.output
        ck = tuple(out)
        if ck not in outs:
            c2 = con.with_output(out)
            want = oracle.of(c2, arrays)
            p, info = oe.contract_path(c2.eq(base), *c2.shapes(), shapes=True, optimize=strategy or "auto")
            outs[ck] = (c2, want, norm(p), info)
        c2, want, path, info = outs[ck]
        how = rng.choice(("contract", "contract", "path", "shapes", "expr", "false"))
        if how == "false" and slow:
            how = "contract"
        ops = [dress(rng, a) for a in arrays] if how in ("contract", "false", "path") else arrays
        if how in ("shapes", "expr"):
            ops_ = [tuple(a.shape) if rng.random() < 0.7 or not a.ndim else list(a.shape) for a in arrays]
            consts = [i for i in range(con.n) if rng.random() < 0.3] if how == "expr" and rng.random() < 0.5 else []
            ops_ = [dress(rng, a) if i in consts else o for i, (a, o) in enumerate(zip(arrays, ops_))]
        else:
            ops_ = ops
        if fmt == "eq":
            eq = spaces(rng, equation(rng, e, sym, use_ell, given))
            args = [eq] + list(ops_)
            what = f"{how}({eq!r}) on {con.shapes()}"
        else:
            args = interleaved(rng, e, lab, use_ell, given, ops_)
            what = f"{how} interleaved ({lk}) {args[1::2]}{' -> ' + str(args[-1]) if len(args) % 2 else ''} on {con.shapes()}"
        mon.describe(what=what, out=out, shapes=con.shapes())
        opt = strategy or "auto"
        if how == "contract":
            check(c2, oe.contract(*args, optimize=opt), want, what)
        elif how == "false":
            check(c2, oe.contract(*args, optimize=False), want, what)
        elif how == "expr":
            ex = oe.contract_expression(*args, optimize=opt, constants=consts)
            check(c2, ex(*[dress(rng, a) for i, a in enumerate(arrays) if i not in consts]), want, f"{what} constants {consts}")
        else:
            p, inf = oe.contract_path(*args, optimize=opt, shapes=how == "shapes")
            if norm(p) != path:
                raise Violation(f"{what}: path {p} instead of {path}")
            for f in ("opt_cost", "naive_cost", "largest_intermediate"):
                if getattr(inf, f) != getattr(info, f):
                    raise Violation(f"{what}: {f} {getattr(inf, f)} instead of {getattr(info, f)}")
            if list(inf.size_list) != list(info.size_list) or list(inf.scale_list) != list(info.scale_list):
                raise Violation(f"{what}: sizes {inf.size_list} instead of {info.size_list}")
            if [tuple(s) for s in inf.shapes] != [tuple(s) for s in info.shapes]:
                raise Violation(f"{what}: shapes {inf.shapes} instead of {info.shapes}")
            eqs, outsub = inf.eq.split("->")
            if len(outsub) != len(out) or not same_eq(c2, eqs.split(","), outsub):
                raise Violation(f"{what}: understood as {inf.eq!r}")
        mon.ev("renderings compared")
        mon.ev(f"{fmt} {how}")
        if given is None:
            mon.ev("implicit output")
        if use_ell:
            mon.ev("with ellipsis")
        mon.sig(c2.key(), tuple(a for a in e.at), fmt, how, given is None, use_ell)
    mon.sample({"what": what})


def same_eq(con, terms, out):
    """Whether terms/out is a renaming of the contraction."""
    m = {}
    for t, s in zip(con.terms, terms):
        if len(t) != len(s):
            return False
        for c, x in zip(t, s):
            if m.setdefault(c, x) != x:
                return False
    if len(set(m.values())) != len(m):
        return False
    return tuple(m[c] for c in con.output) == tuple(out)


def fam_formats(rng, mon):
    body(rng, mon, draw(rng))


def fam_ellipsis(rng, mon):
    body(rng, mon, draw(rng, 4, 2000, ell=1.0))


def fam_many(rng, mon):
    """More labels than NumPy has symbols, in every format."""
    prof = rng.choice(("chain", "ring", "tree"))
    con = gen.contraction(rng, 20, 70, budget=None, profile=prof, sizes=(1, 2, 2), maxrank=4, maxlabels=120, sum1=0.8, diag=0.0,
                          scalar=0.0, out=lambda r, l, c: r.sample([x for x in l if c[x] == 1], min(5, sum(c[x] == 1 for x in l))))
    cnt = {}
    for t in con.terms:
        for c in t:
            cnt[c] = cnt.get(c, 0) + 1
    free = sum(v == 1 for v in cnt.values())
    if free > 14:
        raise Skip("too many free labels")
    body(rng, mon, Ell(con, [], [None] * con.n, None, con.terms), 3, "greedy", slow=True)


def fam_order(rng, mon):
    """Implicit outputs with many labels on few operands."""
    n = rng.randint(1, 3)
    k = rng.randint(5, 40)
    terms = [[] for _ in range(n)]
    for c in range(k):
        for t in rng.sample(range(n), rng.choice((1, 1, 2)) if n > 1 else 1):
            if len(terms[t]) < 30:
                terms[t].append(c)
    labs = {c for t in terms for c in t}
    sizes = {c: 1 for c in labs}
    for c in rng.sample(sorted(labs), min(len(labs), 9)):
        sizes[c] = rng.choice((2, 2, 3))
    for t in terms:
        rng.shuffle(t)
    con = gen.Con(terms, (), sizes)
    cnt = {c: sum(c in t for t in terms) for c in labs}
    out = [c for c in labs if cnt[c] == 1]
    if len(out) > 30:
        raise Skip("rank")
    con = con.with_output(out)
    body(rng, mon, Ell(con, [], [None] * n, None, con.terms), 3)


FAMILIES = [
    Family("formats", fam_formats, 7000, 80000),
    Family("ellipsis", fam_ellipsis, 6000, 80000),
    Family("many", fam_many, 250, 3000),
    Family("order", fam_order, 2000, 20000),
]
