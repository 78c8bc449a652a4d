"""C15: steps are classified and dispatched to tensordot soundly."""
import numpy as np

import opt_einsum as oe
import vrec
import vtd
from opt_einsum.blas import can_blas
from vrec_base import REC

from .. import entry, gen, history, oracle, strategies, trace
from ..core import Family, Violation
from .c11 import pick_opt

RULE = "distinct (step equation with dimensions, or structure and path) whose classification and executed operations were compared with the definition"
ASSUMPTIONS = ["the kinds are those documented for can_blas: DOT for equal terms, GEMM if the summed indices are contiguous at an end of both "
               "terms in the same order, GEMV/EINSUM if one term is summed completely, OUTER/EINSUM without summation, else TDOT"]


def model(inputs, result, shapes=None):
    """The kind of a step, or False."""
    if len(inputs) != 2:
        return False
    a, b = inputs
    if len(set(a)) < len(a) or len(set(b)) < len(b):
        return False
    for c in set(a) | set(b):
        both = c in a and c in b
        if both == (c in result):
            return False
        if both and shapes is not None and shapes[0][a.index(c)] != shapes[1][b.index(c)]:
            return False
    rm = [c for c in a if c in b]
    k = len(rm)
    if k == 0:
        return "OUTER/EINSUM"
    if a == b:
        return "DOT"
    if set(a) == set(b):
        return "DOT/EINSUM"
    # the summed indices of either term form one block at an end, in the same order
    ends_a = {a[:k], a[len(a) - k:]}
    ends_b = {b[:k], b[len(b) - k:]}
    if any(set(e) == set(rm) for e in ends_a & ends_b):
        return "GEMM"
    if k in (len(a), len(b)):
        return "GEMV/EINSUM"
    return "TDOT"


def fam_classify(rng, mon):
    n = 2 if rng.random() < 0.93 else rng.choice((1, 3))
    labs = rng.sample(gen.LETTERS + "αβγδ漢字", rng.randint(1, 6))
    for _ in range(20):
        r = rng.random()
        if r < 0.4 and n == 2:
            # sound by construction, then perhaps disturbed
            pool = rng.sample(labs, len(labs))
            i, j = sorted((rng.randint(0, len(pool)), rng.randint(0, len(pool))))
            rm, left, right = pool[:i], pool[i:j], pool[j:]
            if rng.random() < 0.5:
                l = rng.choice((rm + left, left + rm))
                rr = rng.choice((rm + right, right + rm))
            else:
                l, rr = rng.sample(rm + left, i + len(left)), rng.sample(rm + right, i + len(right))
            inputs = ["".join(l), "".join(rr)]
            res = left + right
            if rng.random() < 0.3:
                c = rng.choice(labs)
                res = [x for x in res if x != c] if c in res else res + ([c] if c in l + rr else [])
        else:
            inputs = ["".join(rng.choice(labs) for _ in range(rng.randint(0, 4))) if rng.random() < 0.3 else
                      "".join(rng.sample(labs, rng.randint(0, len(labs)))) for _ in range(n)]
            u = sorted(set("".join(inputs)))
            res = rng.sample(u, rng.randint(0, len(u)))
        rng.shuffle(res)
        res = "".join(res)
        rm = frozenset("".join(inputs)) - frozenset(res)
        shapes = None
        if rng.random() < 0.6:
            d = {c: rng.choice((1, 2, 3)) for c in labs}
            shapes = [tuple(1 if rng.random() < 0.08 else d[c] for c in t) for t in inputs]
        want = model(inputs, res, shapes)
        mon.describe(inputs=inputs, result=res, shapes=shapes)
        got = can_blas(inputs, res, rng.choice((set, frozenset))(rm), shapes) if shapes or rng.random() < 0.5 else can_blas(inputs, res, rm)
        if got != want or (want is False) != (got is False):
            raise Violation(f"can_blas({inputs}, {res!r}, {sorted(rm)}, {shapes}) is {got!r}, the step is {want!r}")
        mon.ev("classified " + str(want))
        m = {}
        for c in "".join(inputs):
            m.setdefault(c, len(m))
        mon.sig(tuple(tuple(m[c] for c in t) for t in inputs), frozenset(m[c] for c in res), shapes if shapes is None else tuple(map(tuple, shapes)))


def step_shapes(con, sym, path, info):
    """Dimensions of the operands of every step, size-1 broadcast dimensions included."""
    cur = [tuple(s) for s in con.shapes()]
    out = []
    for c in info.contraction_list:
        ins, rhs = c[2].split("->")
        ins = ins.split(",")
        sh = [cur.pop(i) for i in sorted(c[0], reverse=True)]
        dims = {}
        for t, s in zip(ins, sh):
            for x, d in zip(t, s):
                if dims.get(x, 1) == 1:
                    dims[x] = d
        out.append((ins, rhs, sh))
        cur.append(tuple(dims[x] for x in rhs))
    return out


def opts(rng, con):
    return gen.random_path(rng, con.n) if rng.random() < 0.5 else rng.choice([s for s in strategies.names_for(con.n) if "random" not in s])


def flags(con, sym, path, info, blas, what, mon):
    marks = []
    for k, ((ins, rhs, sh), c) in enumerate(zip(step_shapes(con, sym, path, info), info.contraction_list)):
        want = model(ins, rhs, sh) if blas else False
        if c[4] != want or (want is False and c[4] is not False):
            raise Violation(f"{what}: step {k} {c[2]!r} {sh} is marked {c[4]!r}, it is {want!r}")
        marks.append(want)
        mon.ev("step " + str(want))
    return marks


def fam_dispatch(rng, mon):
    """The marks of every step, and the operations executed for it."""
    con = gen.contraction(rng, 1, 6, budget=3000, sizes=(1, 2, 2, 3), bcast=0.25, zero=0.03, diag=0.08)
    sym = history.symbols(rng, mon, con)
    eq = con.eq(sym)
    blas = rng.random() < 0.75
    opt = opts(rng, con)
    what = f"{eq!r} {con.shapes()} optimize={opt} use_blas={blas}"
    mon.describe(eq=eq, shapes=con.shapes(), optimize=str(opt), use_blas=blas)
    path, info = oe.contract_path(eq, *con.shapes(), shapes=True, optimize=opt, use_blas=blas)
    marks = flags(con, sym, path, info, blas, what, mon)
    x = [np.asarray(gen.nprng(rng).integers(-2, 2, size=s, endpoint=True)) for s in con.shapes()]
    ops = trace.wrap(vrec, x)
    REC.reset()
    path = [tuple(p) for p in path]
    how, fn = entry.prepare(rng, con, eq, ops, dict(optimize=path, use_blas=blas))
    what = f"{how} {what}"
    mon.describe(how=how)
    r = fn()
    mon.ev("by " + how.split(" ")[0])
    if not oracle.same(r.data, oracle.of(con, x)):
        raise Violation(f"{what}: wrong result")
    st = trace.steps(REC.log)
    if len(st) != len(marks):
        raise Violation(f"{what}: {len(st)} steps executed, expected {len(marks)}: {st}")
    if how.startswith("constants"):
        st = trace.in_path_order(st, oracle.replay(con.terms, con.output, con.eff_sizes(), path), what)
    for k, (s, m, c) in enumerate(zip(st, marks, info.contraction_list)):
        op = "tensordot" if m and "EINSUM" not in m else "einsum"
        if s.op != op:
            raise Violation(f"{what}: step {k} {c[2]!r} marked {m!r} was done by {s.op}")
        if op == "tensordot":
            a, b = c[2].split("->")[0].split(",")
            ax = s.ops[0].spec
            pairs = sorted(zip((a[i] for i in ax[0]), (b[i] for i in ax[1])))
            if pairs != sorted((q, q) for q in c[1]):
                raise Violation(f"{what}: step {k} {c[2]!r} contracted the axes {ax}")
        mon.ev("executed by " + op)
    if not blas and any(e.op == "tensordot" for e in REC.log):
        raise Violation(f"{what}: tensordot called")
    mon.sig(con.key(), tuple(path), blas)
    mon.sample({"eq": eq, "path": path, "marks": marks})


def td_only(rng, nmax=6, nmin=2):
    """Every index is on two operands and summed, or on one and kept."""
    n = rng.randint(nmin, nmax)
    terms = [[] for _ in range(n)]
    lab, out = 0, []
    for _ in range(rng.randint(0, 2 * n)):
        if rng.random() < 0.6:
            i, j = rng.sample(range(n), 2)
            if len(terms[i]) < 4 and len(terms[j]) < 4:
                terms[i].append(lab)
                terms[j].append(lab)
                lab += 1
        else:
            i = rng.randrange(n)
            if len(terms[i]) < 4 and len(out) < 6:
                terms[i].append(lab)
                out.append(lab)
                lab += 1
    for t in terms:
        rng.shuffle(t)
    rng.shuffle(out)
    sz, p = {}, 1
    for c in range(lab):
        sz[c] = rng.choice((1, 2, 2, 3)) if p < 1500 else 1
        p *= sz[c]
    return gen.Con(terms, out, sz)


def fam_tensordot_only(rng, mon):
    """A backend without einsum."""
    con = td_only(rng)
    sym = history.symbols(rng, mon, con)
    eq = con.eq(sym)
    opt = gen.random_path(rng, con.n, "pair") if rng.random() < 0.5 else rng.choice(strategies.names_for(con.n) + [True])
    x = [np.asarray(gen.nprng(rng).integers(-2, 2, size=s, endpoint=True)) for s in con.shapes()]
    ops = trace.wrap(vtd, x)
    what = f"backend without einsum: {eq!r} {con.shapes()} optimize={opt}"
    mon.describe(eq=eq, shapes=con.shapes(), optimize=str(opt))
    REC.reset()
    use = rng.choice(("contract", "expr", "const", "share"))
    if use == "contract":
        r = oe.contract(eq, *ops, optimize=opt)
    elif use == "expr":
        r = oe.contract_expression(eq, *con.shapes(), optimize=opt)(*ops)
    elif use == "share":
        with oe.shared_intermediates():
            r = oe.contract(eq, *ops, optimize=opt)
            k = len(REC.log)
            oe.contract(eq, *ops, optimize=opt)
            if len(REC.log) != k and opt != "random-greedy":
                raise Violation(f"{what}: executed again in a sharing context")
    else:
        cs = [i for i in range(con.n) if rng.random() < 0.5][: con.n - 1]
        r = oe.contract_expression(eq, *[ops[i] if i in cs else s for i, s in enumerate(con.shapes())], constants=cs, optimize=opt)(
            *[o for i, o in enumerate(ops) if i not in cs])
    if type(r) is not vtd.Arr or not oracle.same(r.data, oracle.of(con, x)):
        raise Violation(f"{what}: wrong result")
    if any(e.op == "einsum" for e in REC.log):
        raise Violation(f"{what}: einsum called")
    mon.ev("without einsum: " + use)
    mon.ev("tensordots", sum(e.op == "tensordot" for e in REC.log))
    mon.sig("td", con.key(), str(opt), use)


def fam_needs_einsum(rng, mon):
    """A backend without einsum must fail, not compute something else, when a step is not of the form."""
    con = gen.contraction(rng, 2, 4, budget=500, sizes=(2, 2, 3))
    sym = history.symbols(rng, mon, con)
    eq = con.eq(sym)
    path = gen.random_path(rng, con.n)
    x = [np.asarray(gen.nprng(rng).integers(-2, 2, size=s, endpoint=True)) for s in con.shapes()]
    blas = rng.random() < 0.7
    _, info = oe.contract_path(eq, *con.shapes(), shapes=True, optimize=path, use_blas=blas)
    ok = all(blas and model(*s) for s in step_shapes(con, sym, path, info))
    what = f"backend without einsum: {eq!r} {con.shapes()} optimize={path} use_blas={blas}"
    mon.describe(eq=eq, shapes=con.shapes(), path=path)
    try:
        r = oe.contract(eq, *trace.wrap(vtd, x), optimize=path, use_blas=blas)
    except Exception:
        if ok:
            raise
        mon.ev("refused")
    else:
        if not ok:
            raise Violation(f"{what}: a step needs einsum, yet a result was returned")
        if not oracle.same(r.data, oracle.of(con, x)):
            raise Violation(f"{what}: wrong result")
        mon.ev("done")
    mon.sig("ne", con.key(), tuple(path), blas)


def fam_kwargs(rng, mon):
    """NumPy: whatever the kind of the steps, blas and non-blas results agree, with and without einsum arguments."""
    con = td_only(rng, 4) if rng.random() < 0.6 else gen.contraction(rng, 2, 4, budget=1000, bcast=0.2)
    eq = con.eq(history.symbols(rng, mon, con))
    x = [np.asarray(gen.nprng(rng).integers(-2, 2, size=s, endpoint=True)).astype(rng.choice(("float64", "int64"))) for s in con.shapes()]
    path = gen.random_path(rng, con.n)
    kw = rng.choice(({}, {}, {"dtype": "complex128"}, {"order": "F"}, {"dtype": "float64", "casting": "unsafe"}))
    want = oracle.of(con, x, np.int64)
    calls = {"tensordot": 0}
    mon.describe(eq=eq, shapes=con.shapes(), path=path, kw=str(kw))
    for blas in (True, False):
        r = oe.contract(eq, *x, optimize=path, use_blas=blas, **kw)
        if np.shape(r) != want.shape or not np.array_equal(r, want):
            raise Violation(f"{eq!r} {con.shapes()} {path} use_blas={blas} {kw}: wrong result")
        mon.ev("numpy results")
    mon.sig("np", con.key(), tuple(path), str(kw))


FAMILIES = [
    Family("classify", fam_classify, 12000, 60000),
    Family("dispatch", fam_dispatch, 20000, 80000),
    Family("tensordot_only", fam_tensordot_only, 10000, 40000),
    Family("needs_einsum", fam_needs_einsum, 1500, 20000),
    Family("kwargs", fam_kwargs, 2000, 25000),
]
