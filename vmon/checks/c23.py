"""C23: the documented building blocks compute what they document."""
import re

import numpy as np

import opt_einsum as oe
from opt_einsum import helpers, parser, sharing
from opt_einsum.contract import format_const_einsum_str

from .. import gen, history, oracle
from ..core import Family, Violation
from . import c07

RULE = "distinct (function, arguments) whose return value was compared with an independent computation"
ASSUMPTIONS = ["arguments are within the documented types", "index sets are frozensets"]


def want(what, got, exp):
    if got != exp:
        raise Violation(f"{what}: {got!r}, expected {exp!r}")


def fam_sets(rng, mon):
    """Sizes, operation counts and the bookkeeping of a step."""
    con = gen.contraction(rng, 1, 8 if rng.random() < 0.9 else 40, budget=None, sizes=(0, 1, 2, 3, 7, 64, 10 ** 6) if rng.random() < 0.2 else (1, 2, 3, 7, 64, 10 ** 6), maxlabels=30)
    sym = history.symbols(rng, mon, con)
    sizes = {sym[c]: con.sizes[c] for c in con.labels}
    ins = [frozenset(sym[c] for c in t) for t in con.terms]
    out = frozenset(sym[c] for c in con.output)
    k = rng.randint(1, con.n)
    pos = rng.sample(range(con.n), k)
    pos = rng.choice((tuple, list, set))(pos)
    mon.describe(terms=[sorted(t) for t in ins], out=sorted(out), pos=str(pos))
    keep = list(ins)
    r, rem, gone, used = helpers.find_contraction(pos, ins, out)
    what = f"find_contraction({pos}, {[sorted(t) for t in ins]}, {sorted(out)})"
    want(what + ", the input sets afterwards", ins, keep)
    rest = [t for i, t in enumerate(ins) if i not in pos]
    union = frozenset().union(*[ins[i] for i in pos])
    left = frozenset(c for c in union if c in out or any(c in t for t in rest))
    want(what, (set(r), [set(t) for t in rem], set(gone), set(used)), (set(left), [set(t) for t in rest] + [set(left)], set(union - left), set(union)))
    # products
    seq = [rng.choice(sorted(sizes)) for _ in range(rng.choice((rng.randint(0, 7), rng.randint(0, 60))))] if sizes else []
    p = 1
    for c in seq:
        p *= sizes[c]
    arg = rng.choice(("".join, tuple, list))(seq)
    want(f"compute_size_by_dict({arg!r}, {sizes})", helpers.compute_size_by_dict(arg, sizes), p)
    tab = [rng.choice((0, 1, 2, 5, 10 ** 9)) for _ in range(5)]
    ids = [rng.randrange(5) for _ in range(rng.randint(0, 6))]
    p2 = 1
    for i in ids:
        p2 *= tab[i]
    want(f"compute_size_by_dict({ids}, {tab})", helpers.compute_size_by_dict(ids, tab), p2)
    inner, m = rng.random() < 0.5, rng.choice((rng.randint(1, 6), rng.randint(1, 100)))
    want(f"flop_count({arg!r}, {inner}, {m}, {sizes})", helpers.flop_count(arg, inner, m, sizes), p * (max(1, m - 1) + inner))
    mon.ev("steps and sizes", 4)
    mon.sig("sets", con.key(), tuple(sorted(pos)), tuple(seq), inner, m)


def fam_outputs(rng, mon):
    """Implicit output and output shape."""
    con = gen.contraction(rng, 1, 6 if rng.random() < 0.9 else 30, budget=None, sizes=(1, 2, 3, 9), bcast=0.25, zero=0.1, maxlabels=30)
    sym = history.symbols(rng, mon, con)
    eq = con.eq(sym, False)
    imp = "".join(sym[c] for c in con.implicit_output(sym))
    mon.describe(eq=eq, shapes=con.shapes())
    want(f"find_output_str({eq!r})", parser.find_output_str(eq), imp)
    ins = ["".join(sym[c] for c in t) for t in con.terms]
    out = "".join(sym[c] for c in con.output)
    shapes = con.shapes()
    got = parser.find_output_shape(ins, shapes, out)
    want(f"find_output_shape({ins}, {shapes}, {out!r})", tuple(got), con.out_shape())
    mon.ev("outputs", 2)
    mon.sig("out", con.key())


class Shaped:
    def __init__(self, shape):
        self.shape = shape


def nested(rng, shape, kinds):
    if not shape:
        return rng.choice(kinds)
    return rng.choice((list, tuple))(nested(rng, shape[1:], kinds) for _ in range(shape[0]))


def fam_shapes(rng, mon):
    shape = tuple(rng.choice((0, 1, 1, 2, 3, 4)) for _ in range(rng.randint(0, 4)))
    if 0 in shape:
        shape = shape[:shape.index(0) + 1]  # what is below an empty sequence is not there
    kinds = rng.choice(((1, 2.5), (True, 3), (1j, 0.5), ("x", "abc"), (b"xy", b"")))
    form = rng.choice(("array", "nested", "shaped", "numbers"))
    if form == "array":
        x = np.zeros(shape)
    elif form == "shaped":
        x = Shaped(shape)
    elif form == "nested":
        x = nested(rng, shape, kinds)
    else:
        x = nested(rng, shape, (1, 2.5))
    mon.describe(form=form, shape=shape, kinds=kinds)
    want(f"get_shape({form}: {x!r:.300})", tuple(parser.get_shape(x)), shape)
    if form in ("array", "shaped"):
        if parser.possibly_convert_to_numpy(x) is not x:
            raise Violation(f"possibly_convert_to_numpy of an object with a shape returned another one ({form}, {shape})")
    elif form == "numbers":
        y = parser.possibly_convert_to_numpy(x)
        if not isinstance(y, np.ndarray) or y.shape != shape or not np.array_equal(y, np.array(x)):
            raise Violation(f"possibly_convert_to_numpy({x!r:.300}): {y!r:.300}")
    bad = rng.choice((None, {1: 2}, {1, 2}, object(), iter([1]), len))
    try:
        r = parser.get_shape(bad)
    except ValueError:
        pass
    else:
        raise Violation(f"get_shape({bad!r}) returned {r!r}")
    mon.ev("shapes")
    mon.sig("shape", form, shape, str(kinds))


def fam_parse(rng, mon):
    """The parsed form of equation strings and interleaved input."""
    e = c07.draw(rng, 5, ell=0.6)
    con = e.con
    sym = history.symbols(rng, mon, con)
    use_ell = bool(any(e.at)) and rng.random() < 0.9
    explicit = rng.random() < 0.6
    shapes = con.shapes()
    as_shapes = rng.random() < 0.3
    if use_ell and as_shapes and any(s == () for s in shapes):
        as_shapes = False
    ops = [tuple(s) for s in shapes] if as_shapes else [Shaped(s) for s in shapes]
    out = con.output if explicit else (c07.implicit(e, lambda c: sym[c]) if use_ell else con.implicit_output(sym))
    eq = c07.spaces(rng, c07.equation(rng, e, sym, use_ell, out if explicit else None))
    mon.describe(eq=eq, shapes=shapes)
    what = f"parse_einsum_input({eq!r}, {shapes})"
    ins, o, back = parser.parse_einsum_input((eq, *ops), **({"shapes": True} if as_shapes else {}))
    if len(back) != con.n or any(a is not b for a, b in zip(back, ops)):
        raise Violation(f"{what}: operands {back}")
    judge(what, con, out, ins, o, {c: sym[c] for c in con.labels if not (use_ell and c in e.E)})
    # interleaved
    lab = {c: 3 * i - 7 for i, c in enumerate(rng.sample(con.labels, len(con.labels)))}
    args = []
    for i, (x, t) in enumerate(zip(ops, con.terms)):
        if use_ell and e.at[i]:
            p, _ = e.at[i]
            named = e.named[i]
            sub = [lab[c] for c in named[:p]] + [Ellipsis] + [lab[c] for c in named[p:]]
        else:
            sub = [lab[c] for c in t]
        args += [x, sub]
    if explicit:
        if use_ell:
            named = [c for c in out if c not in e.E]
            p = next((k for k, c in enumerate(out) if c in e.E), 0)
            args.append([lab[c] for c in named[:p]] + [Ellipsis] + [lab[c] for c in named[p:]])
        else:
            args.append([lab[c] for c in out])
        iout = out
    else:
        iout = c07.implicit(e, lambda c: lab[c]) if use_ell else tuple(sorted(con.implicit_output(sym), key=lambda c: lab[c]))
    ins, o, back = parser.parse_einsum_input(tuple(args), **({"shapes": True} if as_shapes else {}))
    what = f"parse_einsum_input({args})"
    if len(back) != con.n or any(a is not b for a, b in zip(back, ops)):
        raise Violation(f"{what}: operands {back}")
    judge(what, con, iout, ins, o, {})
    mon.ev("parsed inputs", 2)
    mon.sig("parse", con.key(), use_ell, explicit, as_shapes)


def judge(what, con, out, ins, o, fixed):
    """ins->o is the contraction, renamed; the symbols in ``fixed`` are kept."""
    terms = ins.split(",")
    m = dict(fixed)
    if [len(t) for t in terms] != [len(t) for t in con.terms] or len(o) != len(out):
        raise Violation(f"{what}: {ins!r}, {o!r}; expected the structure {con.terms}->{out}")
    for t, u in list(zip(con.terms, terms)) + [(out, o)]:
        for c, s in zip(t, u):
            if m.setdefault(c, s) != s:
                raise Violation(f"{what}: {ins!r}, {o!r}; expected the structure {con.terms}->{out}")
    if len(set(m.values())) != len(m) or set("".join(m.values())) & set(".,-> "):
        raise Violation(f"{what}: {ins!r}, {o!r}: symbols clash")


def fam_text(rng, mon):
    """What an expression prints."""
    con = gen.contraction(rng, 1, 6, budget=2000, sizes=(1, 2, 3))
    sym = history.symbols(rng, mon, con)
    eq = con.eq(sym)
    consts = sorted(i for i in range(con.n) if rng.random() < 0.4) if rng.random() < 0.7 else []
    x = gen.values(rng, con, "float64")
    what = f"{eq!r}, constants {consts}"
    mon.describe(eq=eq, constants=consts)

    def judge_eq(s):
        plain = s.replace("[", "").replace("]", "")
        want(f"{what}: the equation without brackets", plain, eq)
        depth, k, inside = 0, 0, set()
        lhs = s.split("->")[0]
        if depth == 0 and not lhs.startswith("[") and con.n and 0 in consts:
            raise Violation(f"{what}: {s!r}: term 0 is not bracketed")
        for ch in lhs:
            if ch == "[":
                depth += 1
            elif ch == "]":
                depth -= 1
                inside.add(k)
            elif ch == ",":
                if depth:
                    inside.add(k)
                k += 1
        want(f"{what}: {s!r}: bracketed terms", sorted(inside), consts)

    judge_eq(format_const_einsum_str(eq, consts))
    opt = gen.random_path(rng, con.n)
    blas = rng.random() < 0.7
    e = oe.contract_expression(eq, *[x[i] if i in consts else s for i, s in enumerate(con.shapes())], constants=consts, optimize=opt, use_blas=blas)
    r = repr(e)
    m = re.fullmatch(r"<ContractExpression\('(.*)'(?:, constants=(\[.*\]))?\)>", r, re.S)
    if not m:
        raise Violation(f"{what}: repr {r!r}")
    judge_eq(m.group(1))
    want(f"{what}: constants in {r!r}", m.group(2), str(consts) if consts else None)
    _, info = oe.contract_path(eq, *con.shapes(), shapes=True, optimize=opt, use_blas=blas)
    lines = re.findall(r"^ +(\d+)\. +'(.*?)'(?: \[(.*?)\])?", str(e), re.M)
    steps = [(str(i + 1), c[2], str(c[-1]) if c[-1] else "") for i, c in enumerate(info.contraction_list)]
    want(f"{what}: steps printed by {str(e)!r}", lines, steps)
    if not str(e).startswith(r):
        raise Violation(f"{what}: str {str(e)!r}")
    mon.ev("expressions printed")
    mon.sig("text", con.key(), tuple(consts), str(opt))


def fam_counts(rng, mon):
    """The count of the operations cached in a context."""
    import vrec
    import vrec_base as vb

    from .. import trace

    con = gen.contraction(rng, 2, 6, budget=600, sizes=(2, 3), maxrank=4)
    sym = history.symbols(rng, mon, con)
    x = gen.values(rng, con, "int64")
    eq = con.eq(sym)
    mon.describe(eq=eq, shapes=con.shapes())
    vb.REC.reset()
    ops = trace.wrap(vrec, x)
    with oe.shared_intermediates() as cache:
        for _ in range(2):
            oe.contract(eq, *ops, optimize=gen.random_path(rng, con.n))
    done = {}
    for ev in vb.REC.log:
        done[ev.op] = done.get(ev.op, 0) + 1
    got = sharing.count_cached_ops(cache)
    want(f"count_cached_ops after {eq!r}", {k: got[k] for k in ("einsum", "tensordot", "transpose") if got[k]}, done)
    mon.ev("caches counted")
    mon.sig("count", con.key(), str(sorted(done.items())))


FAMILIES = [
    Family("sets", fam_sets, 24000, 240000),
    Family("outputs", fam_outputs, 20000, 200000),
    Family("shapes", fam_shapes, 9000, 90000),
    Family("parse", fam_parse, 20000, 200000),
    Family("text", fam_text, 6000, 60000),
    Family("counts", fam_counts, 3000, 30000),
]
