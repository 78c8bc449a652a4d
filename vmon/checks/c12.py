"""C12: sharing runs each operation once, and only within its context."""
import threading
from collections import Counter

import numpy as np

import opt_einsum as oe
import vrec
import vrec2
import vrx
import vrxx  # noqa: F401
import vry
from opt_einsum import sharing
from vrec_base import REC

from .. import gen, history, oracle, trace
from ..core import Family, Skip, Violation
from ..pool import Pool, rename
from .c11 import eqstr, pick_opt, torch

LEVEL = "fault_enumeration"
RULE = "distinct (history, context stack, fault point) whose log of executed operations was checked against the contexts' model"
ASSUMPTIONS = ["operand order is immaterial to sharing only for distinct arrays: an array used twice in one step may be computed once per order",
               "calls with dtype, order or out arguments are not shared"]


def canonical(eq, ins):
    """Key of an einsum modulo index names and, for distinct operands, modulo operand order."""
    lhs, rhs = eq.replace(" ", "").split("->")
    ts = list(zip(lhs.split(","), ins))
    if len({id(x) for _, x in ts}) == len(ts):
        ts.sort(key=lambda x: id(x[1]))
    m = {}
    for t, _ in ts:
        for c in t:
            m.setdefault(c, len(m))
    return tuple(tuple(m[c] for c in t) for t, _ in ts), tuple(m[c] for c in rhs), tuple(id(x) for _, x in ts)


def key(e):
    if e.op == "einsum":
        return (e.backend, "einsum") + canonical(e.spec, e.ins)
    if e.op == "tensordot":
        ax = e.spec
        x, y = e.ins
        if isinstance(ax, int):
            ax = (range(x.ndim - ax, x.ndim), range(ax))
        return e.backend, "tensordot", id(x), id(y), tuple(ax[0]), tuple(ax[1])
    return e.backend, "transpose", id(e.ins[0]), tuple(e.spec)


class Ledger:
    """Operations executed on behalf of each cache; operands are kept alive so that identities stay unique."""

    def __init__(self):
        self.by, self.keep = {}, []

    def add(self, cache, log, what):
        if cache is None:
            return
        self.keep.append((cache, log))
        seen = self.by.setdefault(id(cache), {})
        for e in log:
            k = key(e)
            if k in seen:
                raise Violation(f"{what}: {e} was executed again in the same sharing context")
            seen[k] = e

    def counts(self, cache):
        return Counter(e.op for e in self.by.get(id(cache), {}).values())


def fam_once(rng, mon):
    """Random contractions of a pool in nested and resumed contexts: nothing is executed twice per cache."""
    pool = Pool(rng, rng.randint(2, 4), "int64")
    arrs = [vrec.Arr(a, [f"x{i}"]) for i, a in enumerate(pool.arrays)]
    led, stack, caches, hist, recent = Ledger(), [], [], [], []
    done = {}  # (cache id, exact call) seen
    exprs = {}
    cms = []
    REC.reset()
    try:
        for _ in range(rng.randint(6, 22)):
            r = rng.random()
            if r < 0.2 or not (stack or hist):
                if stack and r < 0.09:
                    cms.pop().__exit__(None, None, None)
                    stack.pop()
                    hist.append("leave")
                else:
                    c = rng.choice(caches) if caches and rng.random() < 0.5 else None
                    cm = oe.shared_intermediates(c)
                    got = cm.__enter__()
                    if c is not None and got is not c:
                        raise Violation("the context does not use the cache it was given")
                    cms.append(cm)
                    stack.append(got)
                    if all(got is not x for x in caches):
                        caches.append(got)
                    hist.append("enter%d" % next(i for i, x in enumerate(caches) if x is got))
                if sharing.currently_sharing() != bool(stack):
                    raise Violation(f"currently_sharing() is {sharing.currently_sharing()} with {len(stack)} contexts entered")
                if stack and sharing.get_sharing_cache() is not stack[-1]:
                    raise Violation("get_sharing_cache() is not the innermost context's cache")
                continue
            if recent and rng.random() < 0.6:
                pos, terms, out, opt, blas, b = rng.choice(recent)
                k = rng.random()
                if k < 0.3:
                    terms, out = rename(rng, terms, out)
                elif k < 0.5:
                    o = rng.sample(range(len(pos)), len(pos))
                    pos, terms = [pos[j] for j in o], [terms[j] for j in o]
                if rng.random() < 0.2:
                    b = rng.choice(("auto", "vrx", "vrxx"))
            else:
                pos, terms, out = pool.equation(nmax=4)
                opt, blas, b = pick_opt(rng, len(pos)), rng.random() < 0.6, rng.choice(("auto", "auto", "vrx", "vry", "vrxx"))
            recent.append((pos, terms, out, opt, blas, b))
            eq = eqstr(terms, out)
            ops = [arrs[p] for p in pos]
            cache = stack[-1] if stack else None
            what = f"{eq!r} of {pos} optimize={opt} use_blas={blas} backend={b} after {hist[-10:]}"
            mon.describe(eq=eq, pos=pos, opt=str(opt), history=hist[-14:])
            REC.reset()
            ident = (eq, tuple(pos), str(opt), blas, b)
            how = rng.choice(("contract", "expr"))
            if opt is False:
                how = "contract"
                res = oe.contract(eq, *ops, optimize=False, backend=b)
            elif how == "contract":
                res = oe.contract(eq, *ops, optimize=opt, use_blas=blas, backend=b)
            else:
                if ident not in exprs:
                    exprs[ident] = oe.contract_expression(eq, *[o.shape for o in ops], optimize=opt, use_blas=blas)
                res = exprs[ident](*ops, backend=b)
            log = list(REC.log)
            eff = "vrec" if b == "auto" else b
            if any(e.backend != eff for e in log):
                raise Violation(f"{what}: executed by {[e.backend for e in log]}")
            for x in [x for e in log for x in e.ins] + [res]:
                if type(x).__module__ != eff and not any(x is a for a in ops):
                    raise Violation(f"{what}: used a {type(x).__module__} array, which another backend computed")
            if not oracle.same(res.data, pool.value(terms, out, [pool.arrays[p] for p in pos])):
                raise Violation(f"{what}: wrong result")
            led.add(cache, log, what)
            if cache is not None:
                if (id(cache), ident) in done:
                    if log:
                        raise Violation(f"{what}: repeated in the same context, yet executed {log}")
                    mon.ev("repetitions executing nothing")
                done[id(cache), ident] = True
                if led.counts(cache) != +Counter({k: v for k, v in oe.sharing.count_cached_ops(cache).items() if k in ("einsum", "tensordot", "transpose")}):
                    raise Violation(f"{what}: the cache counts {oe.sharing.count_cached_ops(cache)}, executed were {led.counts(cache)}")
                mon.ev("calls inside")
            else:
                n = len(trace.steps(log))
                want = expected_steps(eq, ops, opt, blas)
                if n != want:
                    raise Violation(f"{what}: {n} steps executed outside of any context, expected {want}")
                mon.ev("calls outside")
            mon.ev("operations executed", len(log))
            hist.append(f"{eq}@{''.join(map(str, pos))}/{b}")
    finally:
        while cms:
            cms.pop().__exit__(None, None, None)
    if sharing.currently_sharing():
        raise Violation("sharing after the last context was left")
    mon.sig(tuple(hist))
    mon.sample({"history": hist[:12], "caches": len(caches)})


def expected_steps(eq, ops, opt, blas):
    if opt is False:
        return 1
    path, _ = oe.contract_path(eq, *[o.shape for o in ops], shapes=True, optimize=opt, use_blas=blas)
    return len(path)


def fresh_case(rng, mon, nmax=5, mod=vrec):
    con = gen.contraction(rng, 1, nmax, budget=800, sizes=(1, 2, 2, 3))
    eq = con.eq(history.symbols(rng, mon, con))
    path, _ = oe.contract_path(eq, *con.shapes(), shapes=True, optimize=gen.random_path(rng, con.n) if rng.random() < 0.5 else "auto")
    path = [tuple(p) for p in path]
    vals = [np.asarray(gen.nprng(rng).integers(-2, 2, size=s, endpoint=True)) for s in con.shapes()]
    return con, eq, path, vals, trace.wrap(mod, vals)


def full_log(eq, ops, path, blas):
    """Operations without sharing, in a thread of their own."""
    REC.reset()
    oe.contract(eq, *ops, optimize=path, use_blas=blas)
    log = list(REC.log)
    REC.reset()
    return log


class Boom(Exception):
    pass


class Kill(BaseException):
    pass


def fam_fault(rng, mon):
    """Every operation of a contraction fails in turn; the context stays usable, retrying executes what is missing only."""
    con, eq, path, vals, ops = fresh_case(rng, mon)
    blas = rng.random() < 0.7
    log = full_log(eq, ops, path, blas)
    want = oracle.of(con, vals)
    n = len(log)
    exc = rng.choice((Boom, Kill))
    how = rng.choice(("contract", "expr"))
    expr = oe.contract_expression(eq, *con.shapes(), optimize=path, use_blas=blas)

    def run(ops_):
        return expr(*ops_) if how == "expr" else oe.contract(eq, *ops_, optimize=path, use_blas=blas)

    mon.describe(eq=eq, shapes=con.shapes(), path=path, how=how)
    for k in range(1, n + 1):
        ops = trace.wrap(vrec, vals)
        leave = rng.random() < 0.5
        cache = {}
        what = f"{eq!r} {path}: operation {k} of {n} failed ({exc.__name__})"
        REC.reset()

        def fault(c, op):
            if c == k:
                raise exc(op)

        REC.fault = fault
        outer = rng.random() < 0.3
        cm0 = oe.shared_intermediates() if outer else None
        if outer:
            oc = cm0.__enter__()
        try:
            with oe.shared_intermediates(cache):
                try:
                    run(ops)
                except exc:
                    if leave:
                        raise
                else:
                    raise Violation(f"{what}, yet a result was returned")
                REC.fault = None
                REC.log = []
                retry(run, ops, log, k, want, what, mon)
        except exc:
            if not leave:
                raise Violation(f"{what}: raised later")
            mon.ev("contexts left by a fault")
            REC.fault = None
            if sharing.currently_sharing() != outer:
                raise Violation(f"{what} and left the context: currently_sharing() is {sharing.currently_sharing()}")
            if outer and sharing.get_sharing_cache() is not oc:
                raise Violation(f"{what} and left the context: the outer context's cache is not used")
            if not outer:
                REC.log = []
                r = run(ops)
                if len(REC.log) != n or not oracle.same(r.data, want):
                    raise Violation(f"{what} and left the context: {len(REC.log)} operations of {n} executed outside")
            # resumed with its cache, only the rest is missing
            with oe.shared_intermediates(cache):
                REC.log = []
                retry(run, ops, log, k, want, what + ", context resumed", mon)
        finally:
            REC.fault = None
            if outer:
                cm0.__exit__(None, None, None)
        if sharing.currently_sharing():
            raise Violation(f"{what}: still sharing after the context was left")
        mon.ev("fault points")
    mon.sig(con.key(), tuple(path), blas, n, how)


def retry(run, ops, log, k, want, what, mon):
    res = run(ops)
    got = [e.op for e in REC.log]
    exp = [e.op for e in log[k - 1:]]
    if got != exp:
        raise Violation(f"{what}: retrying executed {got}, expected {exp}")
    if not oracle.same(res.data, want):
        raise Violation(f"{what}: wrong result when retried")
    REC.log = []
    if not oracle.same(run(ops).data, want) or REC.log:
        raise Violation(f"{what}: repeating it then executed {REC.log}")
    mon.ev("retries")


def fam_scope(rng, mon):
    """Sharing is in effect exactly inside: before, inside, in other threads, in an inner context, after."""
    con, eq, path, vals, ops = fresh_case(rng, mon)
    blas = rng.random() < 0.7
    n = len(full_log(eq, ops, path, blas))
    want = oracle.of(con, vals)
    mon.describe(eq=eq, shapes=con.shapes(), path=path)
    expr = oe.contract_expression(eq, *con.shapes(), optimize=path, use_blas=blas)

    def count(where, expect, sh):
        if sharing.currently_sharing() != sh:
            raise Violation(f"{where}: currently_sharing() is {not sh}")
        before = len(REC.log)
        r = expr(*ops) if rng.random() < 0.5 else oe.contract(eq, *ops, optimize=path, use_blas=blas)
        k = len(REC.log) - before
        if k != expect:
            raise Violation(f"{eq!r} {path}: {k} operations executed {where}, expected {expect}")
        if not oracle.same(r.data, want):
            raise Violation(f"{eq!r} {path}: wrong result {where}")
        mon.ev("scopes observed")

    def in_thread(where, fn):
        box = []

        def run():
            try:
                fn()
            except BaseException as e:  # noqa: BLE001
                box.append(e)

        t = threading.Thread(target=run)
        t.start()
        t.join()
        if box:
            raise box[0]

    def no_cache(where):
        try:
            c = sharing.get_sharing_cache()
        except Exception:
            pass
        else:
            raise Violation(f"get_sharing_cache() returned {type(c)} {where}")
        if sharing.currently_sharing():
            raise Violation(f"asking for the cache {where} started sharing")

    REC.reset()
    count("before the context", n, False)
    if rng.random() < 0.5:
        no_cache("before the context")
        count("before the context, after asking for its cache", n, False)
    with oe.shared_intermediates() as c1:
        count("in the context", n, True)
        count("repeated in the context", 0, True)
        act = rng.sample(("thread", "inner", "resume", "exc", "threadctx", "gen"), rng.randint(1, 4))
        for a in act:
            if a == "thread":
                def f():
                    no_cache("in another thread")
                    count("in another thread", n, False)
                    count("again in another thread", n, False)
                in_thread(a, f)
            elif a == "threadctx":
                def f():
                    with oe.shared_intermediates() as c2:
                        if sharing.get_sharing_cache() is not c2:
                            raise Violation("another thread's context uses another cache")
                        count("in another thread's context", n, True)
                        count("again in another thread's context", 0, True)
                    count("after another thread's context", n, False)
                in_thread(a, f)
            elif a == "inner":
                with oe.shared_intermediates() as c2:
                    if c2 is c1 or sharing.get_sharing_cache() is not c2:
                        raise Violation("the inner context does not use a cache of its own")
                    count("in an inner context", n, True)
                    count("again in an inner context", 0, True)
            elif a == "resume":
                with oe.shared_intermediates({}) as c2:
                    with oe.shared_intermediates(c1):
                        count("in an inner context resuming the outer cache", 0, True)
                    count("in a context with an empty cache", n, True)
            elif a == "exc":
                try:
                    with oe.shared_intermediates():
                        count("in an inner context", n, True)
                        raise rng.choice((Boom, Kill))
                except (Boom, Kill):
                    pass
            elif a == "gen":
                def g():
                    with oe.shared_intermediates():
                        yield count("in a generator's context", n, True)
                it = g()
                next(it)
                it.close()
            if sharing.get_sharing_cache() is not c1:
                raise Violation(f"after {a}: the context's cache is not used any more")
            count(f"in the context after {a}", 0, True)
            mon.ev("scope " + a)
    count("after the context", n, False)
    no_cache("after the context")
    with oe.shared_intermediates(c1):
        count("in a context resumed with the cache", 0, True)
    with oe.shared_intermediates():
        count("in a new context", n, True)
    count("after all contexts", n, False)
    mon.sig(con.key(), tuple(path), blas, tuple(act))


def fam_wrapped(rng, mon):
    """The memoizing decorators, directly: int and pair forms of axes, defaults, names, operand order."""
    calls = []

    def tensordot(x, y, axes=2, backend="numpy"):
        calls.append(("tensordot", backend))
        return np.tensordot(x, y, axes)

    def transpose(x, axes, backend="numpy"):
        calls.append(("transpose", backend))
        return np.transpose(x, axes)

    def einsum(*args, **kw):
        calls.append(("einsum", kw.get("backend", "numpy")))
        return np.einsum(*args)

    td, tr, es = sharing.tensordot_cache_wrap(tensordot), sharing.transpose_cache_wrap(transpose), sharing.einsum_cache_wrap(einsum)
    g = gen.nprng(rng)
    n = rng.choice((2, 3))
    x, y = (g.integers(-3, 3, size=(n,) * rng.randint(2, 3)) for _ in range(2))
    led = set()
    hist = []
    with oe.shared_intermediates():
        for _ in range(rng.randint(4, 12)):
            op = rng.choice(("tensordot", "transpose", "einsum"))
            calls.clear()
            bk = rng.choice(("numpy", "numpy", "numpy", "object", "vrec"))
            kw = {"backend": bk} if bk != "numpy" or rng.random() < 0.3 else {}
            if op == "tensordot":
                a, b = rng.choice(((x, y), (y, x), (x, x)))
                k = rng.randint(0, 2)
                if rng.random() < 0.5:
                    ax, pair = k, (tuple(range(a.ndim - k, a.ndim)), tuple(range(k)))
                else:
                    pair = (tuple(rng.sample(range(a.ndim), k)), tuple(rng.sample(range(b.ndim), k)))
                    ax = rng.choice((pair, [list(pair[0]), list(pair[1])]))
                res = td(a, b, ax, **kw)
                want = np.tensordot(a, b, pair)
                kk = (op, id(a), id(b), pair)
            elif op == "transpose":
                a = rng.choice((x, y))
                p = tuple(rng.sample(range(a.ndim), a.ndim))
                res, want, kk = tr(a, rng.choice((p, list(p))), **kw), a.transpose(p), (op, id(a), p)
            else:
                lab = rng.sample("abcdefghXYZ", 4)
                s = [(x, "".join(rng.choice(lab[:3]) for _ in range(x.ndim))), (y, "".join(rng.choice(lab[:3]) for _ in range(y.ndim)))]
                rng.shuffle(s)
                out = "".join(rng.sample(sorted(set(s[0][1] + s[1][1])), 1))
                eq = s[0][1] + "," + s[1][1] + "->" + out
                res = es(eq, s[0][0], s[1][0], **kw)
                want = oracle.einsum([tuple(s[0][1]), tuple(s[1][1])], tuple(out), [s[0][0], s[1][0]])
                kk = (op,) + canonical(eq, [s[0][0], s[1][0]])
            kk = kk + (bk,)
            if not oracle.same(res, want):
                raise Violation(f"shared {op} {hist}: wrong result")
            if any(c != (op, bk) for c in calls):
                raise Violation(f"shared {op} with backend {bk!r}: executed {calls}")
            if len(calls) != (kk not in led):
                raise Violation(f"shared {op} {kk}: executed {len(calls)} times, had been executed: {kk in led}")
            led.add(kk)
            hist.append(f"{op} {bk}")
            mon.ev("wrapped operations")
    mon.sig(tuple(hist), x.shape, y.shape)


def fam_convert(rng, mon):
    """Converting expressions repeated in a context execute no torch operation and convert nothing again."""
    t = torch()
    from torch.overrides import TorchFunctionMode

    heavy = {"einsum", "tensordot", "permute", "matmul", "bmm", "mm", "from_numpy", "as_tensor", "tensor", "to"}

    class Watch(TorchFunctionMode):
        def __init__(self):
            super().__init__()
            self.log = []

        def __torch_function__(self, func, types, args=(), kwargs=None):
            self.log.append(getattr(func, "__name__", str(func)))
            return func(*args, **(kwargs or {}))

    con, eq, path, vals, _ = fresh_case(rng, mon)
    ops = [gen.relayout(rng, v.astype(float), rng.choice(("C", "C", "F", "T", "gap", "off"))) for v in vals]
    if any(0 in v.shape for v in ops):
        raise Skip("empty operand")
    want = oracle.of(con, vals)
    consts = [i for i in range(con.n) if rng.random() < 0.3][: con.n - 1]
    expr = oe.contract_expression(eq, *[ops[i] if i in consts else s for i, s in enumerate(con.shapes())], optimize=path, constants=consts)
    var = [o for i, o in enumerate(ops) if i not in consts]
    mon.describe(eq=eq, shapes=con.shapes(), path=path, constants=consts)
    seen = []
    with oe.shared_intermediates():
        for k in range(3):
            with Watch() as w:
                res = expr(*var, backend="torch")
            if not oracle.same(np.asarray(res), want):
                raise Violation(f"{eq!r} with backend torch, call {k} in a context: wrong result")
            got = [x for x in w.log if x in heavy]
            seen.append(len(got))
            if k and got:
                raise Violation(f"{eq!r} {path} constants={consts}: repeated with backend torch in a context, executed {got}")
            mon.ev("torch calls")
    mon.ev("torch operations in first calls", seen[0])
    with Watch() as w:
        expr(*var, backend="torch")
    if seen[0] and not [x for x in w.log if x in heavy] and path and not consts:
        raise Violation(f"{eq!r}: nothing executed after the context was left")
    mon.sig(con.key(), tuple(path), tuple(consts))


def fam_long(rng, mon):
    """Hundreds of distinct operations in one context: all of them are still shared at the end."""
    m = rng.choice((60, 150, 300, 700))
    npr = gen.nprng(rng)
    k = rng.randint(2, 12)
    arrs = [vrec.Arr(np.asarray(npr.integers(-2, 2, size=(2, 3), endpoint=True)), [f"x{i}"]) for i in range(m if rng.random() < 0.5 else k)]
    blas = rng.random() < 0.5
    calls = []
    for i in range(m):
        a, b = rng.randrange(len(arrs)), rng.randrange(len(arrs))
        eq = rng.choice(("ab,cb->ac", "ab,ac->bc", "ab,cd->abcd", "ab,cb->a", "ab,ab->ab", "ab->ba", "ab->a"))
        calls.append((eq, (a, b) if "," in eq else (a,)))
    mon.describe(calls=m, arrays=len(arrs))
    led = Ledger()
    REC.reset()
    with oe.shared_intermediates() as cache:
        for rep in range(2):
            for i, (eq, pos) in enumerate(calls):
                REC.log = []
                oe.contract(eq, *[arrs[p] for p in pos], use_blas=blas)
                log = list(REC.log)
                led.add(cache, log, f"call {i} of {m} in one context, round {rep}, {eq!r} of {pos}")
                if rep and log:
                    raise Violation(f"{eq!r} of {pos}, repeated after {m} other calls in one context, executed {log}")
        mon.ev("operations in one context", len(cache))
        mon.ev("long contexts")
    mon.sig(tuple(calls))


def fam_deep(rng, mon):
    """Many contexts inside of each other: every operation is shared in the innermost, and each is resumed when that is left."""
    depth = rng.choice((6, 12, 20, 40, 70))
    arrs = [vrec.Arr(np.full((2, 2), i + 1), [f"x{i}"]) for i in range(3)]
    eqs = ("ab,bc->ac", "ab,cb->ac", "ab->ba", "ab->a", "ab,cd->abcd")
    mon.describe(depth=depth)
    cms, caches, seen = [], [], []
    REC.reset()

    def use(where):
        if sharing.get_sharing_cache() is not caches[-1]:
            raise Violation(f"{where}: get_sharing_cache() is not the innermost context's cache")
        for _ in range(rng.randint(1, 2)):
            eq = rng.choice(eqs)
            pos = tuple(rng.randrange(3) for _ in eq.split("->")[0].split(","))
            k = (eq, pos)
            sizes = [len(c) for c in caches]
            REC.log = []
            oe.contract(eq, *[arrs[p] for p in pos])
            if k in seen[-1]:
                if REC.log:
                    raise Violation(f"{where}: {eq!r} of {pos} repeated in this context, yet executed {REC.log}")
                mon.ev("repetitions executing nothing")
            elif not seen[-1] and not REC.log:
                raise Violation(f"{where}: the first call of this context, {eq!r} of {pos}, executed nothing")
            seen[-1].add(k)
            if any(len(c) != n for c, n in zip(caches[:-1], sizes[:-1]) if c is not caches[-1]):
                raise Violation(f"{where}: {eq!r} changed the cache of a context around the innermost")

    try:
        while len(cms) < depth:
            old = rng.randrange(len(caches)) if caches and rng.random() < 0.1 else None
            cms.append(oe.shared_intermediates(None if old is None else caches[old]))
            caches.append(cms[-1].__enter__())
            seen.append(set() if old is None else seen[old])
            use(f"entered {len(cms)} deep")
            if rng.random() < 0.2 and len(cms) > 1:
                cms.pop().__exit__(None, None, None), caches.pop(), seen.pop()
                use(f"back to {len(cms)} deep")
        while cms:
            use(f"leaving, {len(cms)} deep")
            cms.pop().__exit__(None, None, None), caches.pop(), seen.pop()
    finally:
        while cms:
            cms.pop().__exit__(None, None, None)
    if sharing.currently_sharing():
        raise Violation("sharing after the last context was left")
    mon.ev("contexts nested", depth)
    mon.sig(depth, rng.random())


FAMILIES = [
    Family("long", fam_long, 120, 1500, chunk=5),
    Family("once", fam_once, 5000, 80000),
    Family("fault", fam_fault, 1500, 20000),
    Family("scope", fam_scope, 1500, 20000),
    Family("deep", fam_deep, 150, 1500),
    Family("wrapped", fam_wrapped, 800, 8000),
    Family("convert", fam_convert, 500, 6000, chunk=100),
]
