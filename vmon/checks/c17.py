"""C17: the requested path or strategy is the one that is used."""
import itertools

import numpy as np
import opt_einsum as oe
import vrec
import vrec2
from opt_einsum import paths

from .. import entry, gen, history, oracle, strategies, trace
from ..core import Family, Skip, Violation

RULE = "distinct (structure, path or strategy, way of asking for it) whose executed or reported steps were compared with the request"
ASSUMPTIONS = ["custom optimizers and registered functions are consulted for three or more operands; fewer leave nothing to choose",
               "the strategy behind 'auto' and 'auto-hq' is recognised by its path"]


def executed(eq, arrays, what, want, expr=None, calls=1, prefix="x", **kw):
    """Run the contraction on recording arrays and compare the executed steps with the replayed path ``want``."""
    rec = trace.fresh()
    if expr is None:
        oe.contract(eq, *trace.wrap(vrec, arrays, prefix), **kw)
        trace.match_path(trace.steps(rec.log), want, what, prefix, sizes=False)
        return len(want)
    n = 0
    for c in range(calls):
        rec = trace.fresh()
        mod = (vrec, vrec2)[c % 2]
        expr(*trace.wrap(mod, arrays, prefix))
        trace.match_path(trace.steps(rec.log), want, f"{what}, call {c}", prefix, sizes=False)
        n += len(want)
    return n


def everywhere(rng, mon, con, eq, arrays, what, want, kw, calls=(1, 1, 2)):
    """Through some way of asking for the contraction; the executed steps are those wanted."""
    ops = trace.wrap(vrec, arrays)
    rec = trace.fresh()
    how, fn = entry.prepare(rng, con, eq, ops, kw)
    mon.describe(how=how)
    n = 0
    for c in range(rng.choice(calls)):
        k = len(rec.log)
        fn()
        ts = trace.steps(rec.log[k:])
        if how.startswith("constants"):
            if c:
                break
            ts = trace.in_path_order(ts, want, f"{how} {what}")
        trace.match_path(ts, want, f"{how} {what}", sizes=False)
        n += len(want)
    mon.ev("by " + how.split(" ")[0])
    return n


def ask_info(rng, con, eq, arrays, kw):
    """contract_path in all its forms."""
    lab = entry.labels(rng, con)
    r = rng.random()
    if r < 0.25:
        return oe.contract_path(eq, *[entry.shape_as(rng, s) for s in con.shapes()], shapes=True, **kw)
    if r < 0.5:
        return oe.contract_path(*entry.weave([entry.shape_as(rng, s) for s in con.shapes()], lab), shapes=True, **kw)
    if r < 0.75:
        return oe.contract_path(*entry.weave(arrays, lab), **kw)
    return oe.contract_path(eq, *arrays, **kw)


def path_as(rng, path):
    """The same path written in another way."""
    k = rng.choice(("list", "tuple", "lists", "numpy", "reversed"))
    if k == "list":
        return k, [tuple(p) for p in path]
    if k == "tuple":
        return k, tuple(tuple(p) for p in path)
    if k == "lists":
        return k, [list(p) for p in path]
    if k == "numpy":
        return k, [tuple(np.int64(x) for x in p) for p in path]
    return k, [tuple(reversed(p)) for p in path]


def draw(rng, mon, nmin=1, nmax=7):
    con = gen.contraction(rng, nmin, nmax, budget=4000, sizes=(1, 2, 2, 3), bcast=0.1, zero=0.03)
    sym = history.symbols(rng, mon, con)
    return con, sym, con.eq(sym), gen.values(rng, con, "int64")


def fam_explicit(rng, mon):
    con, sym, eq, arrays = draw(rng, mon)
    path = gen.random_path(rng, con.n)
    kind, p = path_as(rng, path)
    want = oracle.replay(con.terms, con.output, con.eff_sizes(), path)
    how = rng.choice(("contract", "expression", "info", "constants", "any", "any"))
    blas = rng.random() < 0.7
    lim = rng.choice((None, None, 1, -1, "max_input"))
    kw = dict(optimize=p, use_blas=blas, memory_limit=lim)
    mon.describe(eq=eq, shapes=con.shapes(), path=path, written=kind, how=how, **{k: str(v) for k, v in kw.items()})
    what = f"{how}({eq!r}, optimize={p})"
    if how == "contract":
        n = executed(eq, arrays, what, want, **kw)
    elif how == "any":
        n = everywhere(rng, mon, con, eq, arrays, what, want, kw)
    elif how == "info":
        got, info = ask_info(rng, con, eq, arrays, kw)
        if [sorted(x) for x in got] != [sorted(x) for x in path] or [sorted(c[0]) for c in info.contraction_list] != [sorted(x) for x in path]:
            raise Violation(f"{what}: the path reported is {got}, steps {[c[0] for c in info.contraction_list]}")
        n = len(path)
    else:
        if not path:
            raise Skip("nothing to do")
        ex = oe.contract_expression(eq, *con.shapes(), **kw)
        n = executed(eq, arrays, what, want, expr=ex, calls=rng.randint(1, 3))
        if how == "constants" and con.n > 1:
            # the same pairings with constants: all operations of first and second call, in path order
            cs = sorted(rng.sample(range(con.n), rng.randint(1, con.n - 1)))
            wrapped = trace.wrap(vrec, arrays)
            ex = oe.contract_expression(eq, *[wrapped[i] if i in cs else s for i, s in enumerate(con.shapes())], constants=cs, **kw)
            rec = trace.fresh()
            ex(*[w for i, w in enumerate(wrapped) if i not in cs])
            got = sorted(tuple(sorted(tuple(sorted(q)) for q in t.parts)) for t in trace.steps(rec.log))
            exp = sorted(tuple(trace.leafnames(s.parts)) for s in want)
            if got != exp:
                raise Violation(f"{what} with constants {cs}: combined {got} instead of {exp}")
            mon.ev("with constants")
    mon.ev("steps compared", n)
    mon.ev("explicit " + how)
    mon.sig(con.key(), tuple(path), how, kind)
    mon.sample({"eq": eq, "path": path, "how": how, "written": kind})


class Asked:
    """What a custom optimizer was given."""

    def __init__(self, path):
        self.path, self.calls = path, []

    def __call__(self, inputs, output, size_dict, memory_limit=None):
        self.calls.append(([frozenset(i) for i in inputs], frozenset(output), dict(size_dict), memory_limit))
        return [tuple(p) for p in self.path]


class AskedOpt(paths.PathOptimizer):
    def __init__(self, path):
        self.asked = Asked(path)

    def __call__(self, inputs, output, size_dict, memory_limit=None):
        return self.asked(inputs, output, size_dict, memory_limit)


COUNT = itertools.count()


def anonymous(ins, out, sizes):
    """Index sets without names: where each index occurs, and its size."""
    return sorted((tuple(k for k, t in enumerate(ins) if c in t), c in out, d) for c, d in sizes.items())


def expect_args(asked, con, sym, lim, what, times, named=True):
    if len(asked.calls) != times:
        raise Violation(f"{what}: consulted {len(asked.calls)} times instead of {times}")
    ins = [frozenset(sym[c] for c in t) for t in con.terms]
    out = frozenset(sym[c] for c in con.output)
    sd = {sym[c]: d for c, d in con.eff_sizes().items()}
    if lim in (None, -1):
        want = (None,)
    elif lim == "max_input":
        # documented as the largest input or output
        sizes = [oracle.size(t, con.eff_sizes()) for t in con.terms] + [oracle.size(con.output, con.eff_sizes())]
        want = (max(sizes),)
    else:
        # sizes are integers: a fraction more is the same limit
        want = (lim, int(lim))
    for i, o, s, m in asked.calls:
        if not named:
            if not all(t <= set(s) for t in [*i, o]) or len(i) != len(ins) or anonymous(i, o, s) != anonymous(ins, out, sd):
                raise Violation(f"{what}: was given {i} -> {o} {s}, not a renamed {ins} -> {out} {sd}")
            i, o, s = ins, out, sd
        if i != ins:
            raise Violation(f"{what}: was given the index sets {i} instead of {ins}")
        if o != out:
            raise Violation(f"{what}: was given the output {o} instead of {out}")
        if s != sd:
            raise Violation(f"{what}: was given the sizes {s} instead of {sd}")
        if m not in want:
            raise Violation(f"{what}: was given the memory limit {m!r} instead of {want[0]!r}")


def fam_custom(rng, mon):
    con, sym, eq, arrays = draw(rng, mon, 3, 7)
    path = gen.random_path(rng, con.n)
    want = oracle.replay(con.terms, con.output, con.eff_sizes(), path)
    lim = rng.choice((None, -1, 1, 5, 1000, "max_input", 7.0, 4.5, 12.75))
    reg = rng.random() < 0.5
    name = None
    if reg:
        asked = Asked(path)
        name = "".join(rng.choice((c.upper(), c.lower())) for c in f"my-Strategy-{next(COUNT)}-{rng.randrange(10 ** 9)}")
        paths.register_path_fn(name, asked)
        opt = rng.choice((name, name.lower(), name.upper()))
    else:
        o = AskedOpt(path)
        asked, opt = o.asked, o
    how = rng.choice(("contract", "expression", "info", "arrays", "any", "any"))
    mon.describe(eq=eq, shapes=con.shapes(), path=path, registered=name, how=how, memory_limit=lim)
    what = f"{how}({eq!r}, optimize=<{'registered ' + name if reg else 'custom optimizer'} returning {path}>, memory_limit={lim!r})"
    try:
        kw = dict(optimize=opt, memory_limit=lim)
        if how == "contract":
            n = executed(eq, arrays, what, want, **kw)
        elif how == "any":
            n = everywhere(rng, mon, con, eq, arrays, what, want, kw, calls=(1,))
        elif how in ("info", "arrays"):
            got, info = oe.contract_path(eq, *(con.shapes() if how == "info" else arrays), shapes=how == "info", **kw)
            if [sorted(x) for x in got] != [sorted(x) for x in path]:
                raise Violation(f"{what}: the path reported is {got}")
            n = len(path)
        else:
            ex = oe.contract_expression(eq, *con.shapes(), **kw)
            n = executed(eq, arrays, what, want, expr=ex, calls=rng.randint(1, 3))
        expect_args(asked, con, sym, lim, what, 1, named=how != "any")
        if reg:
            fn = paths.get_path_fn(rng.choice((name, name.upper(), name.lower())))
            if fn is not asked:
                raise Violation(f"get_path_fn({name!r}) is not the registered function")
            other = Asked(path)
            again = rng.choice((name, name.upper(), name.lower(), name.swapcase()))
            try:
                paths.register_path_fn(again, other)
            except KeyError:
                mon.ev("registrations of a taken name rejected")
            else:
                raise Violation(f"{again!r} could be registered after {name!r}")
            if paths.get_path_fn(name) is not asked:
                raise Violation(f"registering {again!r} replaced {name!r} although it was rejected")
    finally:
        if reg:
            getattr(paths, "_PATH_OPTIONS", {}).pop(name.lower(), None)
    mon.ev("steps compared", n)
    mon.ev("registered function" if reg else "custom optimizer")
    mon.sig(con.key(), tuple(path), how, reg, lim)


ALIASES = [("eager", "greedy"), ("opportunistic", "greedy"), ("dynamic-programming", "dp")]


def cased(rng, s):
    return rng.choice((s.upper(), s.title(), "".join(rng.choice((c.upper(), c)) for c in s)))


def net(rng, n):
    """Contractions on which the strategies differ, cheap to search."""
    prof = rng.choice(("net", "tree", "ring", "mixed", "chain", "grid", "star") if n <= 8 else ("tree", "ring", "chain", "grid", "net"))
    return gen.contraction(rng, budget=None, n=n, profile=prof, sizes=(2, 3, 4, 5, 7, 9, 12, 20), diag=0.05, scalar=0.02, maxlabels=50, maxrank=5 if n > 8 else 6)


def search(con, eq, opt, lim=None):
    p, info = oe.contract_path(eq, *con.shapes(), shapes=True, optimize=opt, memory_limit=lim)
    return [tuple(x) for x in p], info.opt_cost


def fam_names(rng, mon):
    n = rng.randint(3, 9)
    con = net(rng, n)
    sym = history.symbols(rng, mon, con)
    eq = con.eq(sym)
    mon.describe(eq=eq, shapes=con.shapes())
    s = rng.choice([s for s in strategies.names_for(n) if s != "auto-hq" or n <= 9])
    lim = None if rng.random() < 0.7 else rng.choice((10, 1000, 10 ** 6))

    def get(o):
        try:
            return search(con, eq, o, lim)
        except RuntimeError as e:
            if lim is not None and "memory_limit" in str(e):
                return "does not fit"
            raise

    a, b = get(s), get(cased(rng, s))
    if a != b:
        raise Violation(f"{s!r} in another case gives {b} instead of {a} on {con.describe()}")
    for x, y in ALIASES:
        if n <= strategies.CAP[x]:
            a, b = get(cased(rng, x) if rng.random() < 0.3 else x), get(y)
            if a != b:
                raise Violation(f"{x!r} gives {a}, {y!r} gives {b} on {con.describe()}")
            mon.ev("aliases compared")
    t, f = get(True), get("auto")
    if t != f or get(None) != f:
        raise Violation(f"optimize=True gives {t}, 'auto' {f} on {con.describe()}")
    mon.ev("names compared")
    mon.sig(con.key(), s, lim)


def documented(kind, n):
    if kind == "auto":
        return "optimal" if n <= 4 else "branch-all" if n <= 6 else "branch-2" if n <= 8 else "branch-1" if n <= 14 else "greedy"
    return "optimal" if n <= 5 else "dp" if n <= 16 else "random-greedy-128"


def fam_auto(rng, mon):
    kind = rng.choice(("auto", "auto", "auto-hq"))
    n = rng.randint(3, 20 if kind == "auto" else 18)
    con = net(rng, n) if n <= 11 or kind == "auto" else gen.contraction(
        rng, budget=None, n=n, profile=rng.choice(("tree", "chain", "ring")), sizes=(2, 3, 4, 5, 7, 9, 12, 20), diag=0.03, scalar=0.0, maxlabels=50, maxrank=5)
    sym = history.symbols(rng, mon, con)
    eq = con.eq(sym)
    s = documented(kind, n)
    lim = None if rng.random() < 0.8 or n > 12 else rng.choice((50, 5000))
    mon.describe(eq=eq, shapes=con.shapes(), kind=kind, documented=s, memory_limit=lim)

    def get(o):
        try:
            return search(con, eq, o, lim)
        except RuntimeError as e:
            if lim is not None and "memory_limit" in str(e):
                return "does not fit"
            raise

    a, b = get(kind), get(s)
    if a != b:
        raise Violation(f"{kind!r} on {n} operands gives {a}, {s!r} gives {b} on {con.describe()}")
    # does this contraction tell the documented strategy from the neighbouring ones?
    others = {"auto": ["optimal", "branch-all", "branch-2", "branch-1", "greedy"], "auto-hq": ["optimal", "dp", "greedy"]}[kind]
    for o in others:
        if o != s and n <= min(9, strategies.CAP.get(o, 9)) or (o in ("greedy", "branch-1") and o != s):
            if get(o) != b:
                mon.ev(f"{s} told from {o}")
    mon.ev(f"{kind} with {n} operands")
    mon.sig(con.key(), kind)
    # and what is executed is that path
    if n <= 8 and rng.random() < 0.3 and a != "does not fit":
        small = gen.Con(con.terms, con.output, {c: 1 + d % 2 for c, d in con.sizes.items()}, con.ones)
        if small.prod() <= 5000:
            arrs = gen.values(rng, small, "int64")
            p, _ = search(small, eq, kind)
            want = oracle.replay(small.terms, small.output, small.eff_sizes(), p)
            mon.ev("steps compared", executed(eq, arrs, f"contract({eq!r}, optimize={kind!r})", want, optimize=kind))


def fam_taken(rng, mon):
    """Built-in names cannot be taken, in any case; unknown ones are unknown."""
    s = rng.choice(strategies.NAMES)
    name = rng.choice((s, s.upper(), s.title(), cased(rng, s)))
    before = paths.get_path_fn(s)

    def fn(*a):
        raise Violation(f"the built-in strategy {s!r} was replaced")

    try:
        paths.register_path_fn(name, fn)
    except KeyError:
        mon.ev("registrations of a taken name rejected")
    else:
        getattr(paths, "_PATH_OPTIONS", {})[s] = before
        raise Violation(f"{name!r} could be registered")
    if paths.get_path_fn(s) is not before or paths.get_path_fn(name) is not before:
        raise Violation(f"{name!r} is not what it was")
    mon.sig(name)


def fam_none(rng, mon):
    """optimize=False: one einsum of all the operands."""
    con, sym, eq, arrays = draw(rng, mon, 1, 6)
    mon.describe(eq=eq, shapes=con.shapes())
    what = f"contract({eq!r}, optimize=False)"
    got, info = ask_info(rng, con, eq, arrays, dict(optimize=False))
    if len(got) != 1 or sorted(got[0]) != list(range(con.n)) or len(info.contraction_list) != 1:
        raise Violation(f"{what}: contract_path reports {got}, {len(info.contraction_list)} steps")
    rec = trace.fresh()
    how, fn = entry.prepare(rng, con, eq, trace.wrap(vrec, arrays), dict(optimize=False))
    fn()
    if len(rec.log) != 1 or rec.log[0].op != "einsum" or sorted(tuple(i.leaves) for i in rec.log[0].ins) != sorted((f"x{k}",) for k in range(con.n)):
        raise Violation(f"{what} by {how}: executed {trace.steps(rec.log)} instead of one einsum of all operands")
    mon.ev("not optimized")
    mon.sig(con.key(), "none", how)


FAMILIES = [
    Family("explicit", fam_explicit, 6000, 60000),
    Family("custom", fam_custom, 4000, 40000),
    Family("names", fam_names, 800, 8000),
    Family("auto", fam_auto, 1500, 15000),
    Family("taken", fam_taken, 200, 2000),
    Family("none", fam_none, 1500, 15000),
]
