"""C13: concurrent use from threads is isolated and correct."""
import contextlib
import sys
import threading

import numpy as np

import opt_einsum as oe
import vrec
import vrec2
import vrx
import vry
from opt_einsum import sharing
from vrec_base import REC

from .. import gen, oracle, sched, strategies, trace
from ..core import Family, Violation
from .c11 import torch

RULE = "distinct interleavings (sequences of thread switches at lines or instructions of the library) whose results and operation logs were checked"
ASSUMPTIONS = ["threads do not modify each other's operands", "interleavings are drawn at random, not enumerated; free-running stress is added to them"]
# the parts in which threads can meet; switching within searches is pointless and slow
FILES = {"contract.py", "sharing.py", "dispatch.py", "torch.py", "parser.py", "jax.py", "tensorflow.py"}


def case(rng, nmax=4, budget=200):
    con = gen.contraction(rng, 1, nmax, budget=budget, sizes=(1, 2, 2, 3), maxrank=3, unusual=0)
    eq = con.eq(gen.symbols(rng, con, "letters"))
    path = gen.random_path(rng, con.n, "pair")
    g = gen.nprng(rng)
    vals = [np.asarray(g.integers(-2, 2, size=s, endpoint=True)) for s in con.shapes()]
    return con, eq, path, vals, oracle.of(con, vals)


def execute(rng, mon, fns, what, files=FILES):
    """Scheduled or free-running; returns the results and a signature of the interleaving."""
    n = len(fns)
    REC.reset()
    if rng.random() < 0.85:
        s = sched.draw(rng, n, files)
        out = s.run(fns)
        if out is None:
            raise Violation(f"{what}: the threads got stuck")
        mon.ev("scheduled executions")
        mon.ev("thread switches", len(s.switches))
        mon.ev("scheduling points", s.points)
        mon.ev("turns taken over", s.steals)
        mon.ev("instruction-level points", s.ops)
        sig = s.signature()
    else:
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        out = [None] * n
        bar = threading.Barrier(n)

        def body(i):
            bar.wait()
            try:
                out[i] = (fns[i](), None)
            except BaseException as e:  # noqa: BLE001
                out[i] = (None, e)

        ts = [threading.Thread(target=body, args=(i,), daemon=True, name="worker") for i in range(n)]
        try:
            for t in ts:
                t.start()
            for t in ts:
                t.join(120)
        finally:
            sys.setswitchinterval(old)
        if any(t.is_alive() for t in ts):
            raise Violation(f"{what}: the threads got stuck")
        mon.ev("free-running executions")
        sig = ("free", rng.random())
    for i, (r, e) in enumerate(out):
        if e is not None:
            if isinstance(e, Violation):
                raise e
            import traceback

            txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
            raise Violation(f"{what}: thread {i} failed with {type(e).__name__}: {e}\n{txt}")
    if sharing.currently_sharing():
        raise Violation(f"{what}: the main thread is left sharing")
    return [r for r, _ in out], sig


def fam_isolated(rng, mon):
    """Each thread runs its own program of contexts and contractions; what it executes is what it would execute alone."""
    n = rng.randint(2, 4)
    shared = [case(rng, 3) for _ in range(2)]
    shared_ops = [trace.wrap(vrec, c[3]) for c in shared]
    progs = []
    for i in range(n):
        prog, depth = [], 0
        for _ in range(rng.randint(2, 5)):
            r = rng.random()
            if r < 0.35 and depth < 2:
                prog.append("enter")
                depth += 1
            elif r < 0.5 and depth:
                prog.append("leave")
                depth -= 1
            else:
                prog.append(rng.randrange(2))
        progs.append(prog + ["leave"] * depth)
    mon.describe(programs=progs, eqs=[c[1] for c in shared])
    exprs = [oe.contract_expression(c[1], *c[0].shapes(), optimize=c[2]) if rng.random() < 0.5 else None for c in shared]
    # operations of each contraction alone
    alone = []
    for c, ops in zip(shared, shared_ops):
        REC.reset()
        oe.contract(c[1], *ops, optimize=c[2])
        alone.append(len(REC.log))

    def thread(i):
        def run():
            tid = threading.get_ident()
            stack, cms = [], []
            try:
                for step in progs[i]:
                    if step == "enter":
                        cm = oe.shared_intermediates()
                        c = cm.__enter__()
                        cms.append(cm)
                        stack.append((c, set()))
                        if sharing.get_sharing_cache() is not c:
                            raise Violation(f"thread {i} {progs[i]}: its context uses another thread's cache")
                    elif step == "leave":
                        cms.pop().__exit__(None, None, None)
                        stack.pop()
                    else:
                        con, eq, path, vals, want = shared[step]
                        before = sum(e.thread == tid for e in list(REC.log))
                        if exprs[step] is not None:
                            r = exprs[step](*shared_ops[step])
                        else:
                            r = oe.contract(eq, *shared_ops[step], optimize=path)
                        k = sum(e.thread == tid for e in list(REC.log)) - before
                        if not oracle.same(r.data, want):
                            raise Violation(f"thread {i} {progs[i]}: wrong result of {eq!r}")
                        exp = 0 if stack and step in stack[-1][1] else alone[step]
                        if k != exp:
                            raise Violation(f"thread {i} of {progs}: {k} operations executed for {eq!r}, alone it would be {exp}")
                        if stack:
                            stack[-1][1].add(step)
                    if sharing.currently_sharing() != bool(stack):
                        raise Violation(f"thread {i} of {progs}: currently_sharing() is {not stack}")
            finally:
                while cms:
                    cms.pop().__exit__(None, None, None)
            if sharing.currently_sharing():
                raise Violation(f"thread {i} of {progs}: left sharing")
            return True

        return run

    # two different contractions on the same arrays would be shared across the programs of one thread
    _, sig = execute(rng, mon, [thread(i) for i in range(n)], f"programs {progs}", {"contract.py", "sharing.py"})
    mon.ev("thread programs", n)
    mon.sig(sig)
    mon.sample({"programs": progs, "switches": len(sig)})


def fam_expression(rng, mon):
    """One expression, with or without constants, called from several threads at once, also for the first time."""
    con, eq, path, vals, _ = case(rng, 5)
    n = rng.randint(2, 4)
    mode = rng.choice(("vrec", "numpy", "mixed"))
    opt = path if rng.random() < 0.5 else "auto"
    consts = [i for i in range(con.n) if rng.random() < 0.5]
    base = trace.wrap(vrec, vals)
    if mode == "numpy":
        base = vals
    expr = oe.contract_expression(eq, *[base[i] if i in consts else s for i, s in enumerate(con.shapes())], constants=consts, optimize=opt)
    var = [i for i in range(con.n) if i not in consts]
    g = gen.nprng(rng)
    calls = []
    for _ in range(n):
        mine = []
        for _ in range(rng.randint(1, 2)):
            x = [vals[i] if i in consts else np.asarray(g.integers(-2, 2, size=s, endpoint=True)) for i, s in enumerate(con.shapes())]
            bk = "vrec" if mode == "vrec" else rng.choice(("vrx", "vry", "vrec")) if mode == "mixed" else "numpy"
            mine.append((x, bk, rng.random() < 0.3, oracle.of(con, x)))
        calls.append(mine)
    mon.describe(eq=eq, shapes=con.shapes(), optimize=str(opt), constants=consts, backends=[[c[1] for c in m] for m in calls])
    mods = {"vrec": vrec, "vrx": vrx, "vry": vry}

    def thread(i):
        def run():
            for x, bk, share, want in calls[i]:
                ops = [x[j] if mode == "numpy" else vrec.Arr(x[j], [f"x{j}"]) for j in var]
                kw = {} if bk in ("numpy", "vrec") else {"backend": bk}
                if share:
                    with oe.shared_intermediates():
                        r = expr(*ops, **kw)
                else:
                    r = expr(*ops, **kw)
                d = r if mode == "numpy" else r.data
                if not oracle.same(d, want):
                    raise Violation(f"expression {eq!r} constants={consts} called in thread {i} with backend {bk}: wrong result")
                if mode != "numpy" and len(var) and type(r) is not mods[bk].Arr:
                    raise Violation(f"expression {eq!r} constants={consts}: {type(r)} from backend {bk}")
                mon.ev("calls compared")
            return True

        return run

    _, sig = execute(rng, mon, [thread(i) for i in range(n)], f"expression {eq!r} constants={consts}")
    # and afterwards, alone
    for x, bk, _, want in calls[0]:
        ops = [x[j] if mode == "numpy" else vrec.Arr(x[j], [f"x{j}"]) for j in var]
        r = expr(*ops) if bk in ("numpy", "vrec") else expr(*ops, backend=bk)
        if not oracle.same(r if mode == "numpy" else r.data, want):
            raise Violation(f"expression {eq!r} constants={consts}: wrong result after concurrent calls")
    mon.ev("expressions" + (" with constants" if consts else ""))
    mon.sig(sig)


def fam_torch(rng, mon):
    """A converting expression shared by threads, some of which share intermediates."""
    t = torch()
    con, eq, path, vals, _ = case(rng, 4)
    n = rng.randint(2, 3)
    consts = [i for i in range(con.n) if rng.random() < 0.4]
    if len(consts) == con.n:
        consts.pop()
    vals = [v.astype(float) for v in vals]
    expr = oe.contract_expression(eq, *[vals[i] if i in consts else s for i, s in enumerate(con.shapes())], constants=consts, optimize=path)
    var = [i for i in range(con.n) if i not in consts]
    g = gen.nprng(rng)
    xs = [[vals[i] if i in consts else np.asarray(g.integers(-2, 2, size=s, endpoint=True)).astype(float) for i, s in enumerate(con.shapes())] for _ in range(n)]
    wants = [oracle.of(con, x) for x in xs]
    bks = [rng.choice(("torch", "torch", "numpy", "tensor")) for _ in range(n)]
    shares = [rng.random() < 0.4 for _ in range(n)]
    mon.describe(eq=eq, shapes=con.shapes(), path=path, constants=consts, backends=bks)

    def thread(i):
        def run():
            ops = [xs[i][j] for j in var]
            if bks[i] == "tensor":
                ops = [t.from_numpy(o) for o in ops]
            kw = {"backend": bks[i]} if bks[i] == "torch" else {}
            for _ in range(2):
                if shares[i]:
                    with oe.shared_intermediates():
                        r = expr(*ops, **kw)
                else:
                    r = expr(*ops, **kw)
                if bks[i] == "tensor":
                    if not isinstance(r, t.Tensor):
                        raise Violation(f"{eq!r}: {type(r)} returned for tensors")
                    r = r.numpy()
                elif isinstance(r, t.Tensor):
                    raise Violation(f"{eq!r}: a tensor returned for NumPy arrays")
                if not oracle.same(r, wants[i]):
                    raise Violation(f"{eq!r} constants={consts} with {bks} in thread {i}: wrong result")
                mon.ev("calls compared")
            return True

        return run

    _, sig = execute(rng, mon, [thread(i) for i in range(n)], f"converting expression {eq!r}")
    mon.sig(sig)


def fam_cache(rng, mon):
    """Threads whose contexts use one cache, given to all of them."""
    cs = [case(rng, 3) for _ in range(2)]
    opss = [c[3] for c in cs]
    cache = {}
    n = rng.randint(2, 3)
    plan = [[rng.randrange(2) for _ in range(rng.randint(1, 3))] for _ in range(n)]
    mon.describe(eqs=[c[1] for c in cs], plan=plan)

    def thread(i):
        def run():
            with oe.shared_intermediates(cache) as c:
                if c is not cache:
                    raise Violation("the given cache is not used")
                for k in plan[i]:
                    con, eq, path, vals, want = cs[k]
                    tmp = np.arange(4.0)  # something to be allocated and dropped
                    if not oracle.same(oe.contract(eq, *opss[k], optimize=path), want):
                        raise Violation(f"{eq!r}: wrong result with a cache common to {n} threads")
                    if not oracle.same(oe.contract("a,a->", tmp, tmp), 14.0):
                        raise Violation("wrong result with a cache common to several threads")
                    mon.ev("calls compared")
            return True

        return run

    _, sig = execute(rng, mon, [thread(i) for i in range(n)], "common cache", {"contract.py", "sharing.py"})
    mon.sig(sig)


def fam_direct(rng, mon):
    """Threads contracting, searching paths, registering nothing, with failures in between."""
    n = rng.randint(2, 4)
    cs = [case(rng, 5) for _ in range(n)]
    names = ["auto", "optimal", "greedy", "dp", "branch-2", "branch-all"]
    todo = []
    for c in cs:
        s = rng.choice(names)
        todo.append((s, oe.contract_path(c[1], *c[0].shapes(), shapes=True, optimize=s)[0], rng.random() < 0.3))
    mon.describe(eqs=[c[1] for c in cs], strategies=[t[0] for t in todo])

    def thread(i):
        con, eq, path, vals, want = cs[i]
        s, p0, bad = todo[i]

        def run():
            if bad:
                try:
                    oe.contract(eq + ",", *vals)
                except Exception:
                    pass
                else:
                    raise Violation("malformed equation accepted")
            p, info = oe.contract_path(eq, *vals, optimize=s)
            if [tuple(x) for x in p] != [tuple(x) for x in p0]:
                raise Violation(f"{eq!r} with {s}: path {p} found in a thread, alone {p0}")
            if not oracle.same(oe.contract(eq, *vals, optimize=s), want):
                raise Violation(f"{eq!r} with {s}: wrong result in a thread")
            out = np.full(want.shape, 5, dtype=np.int64)
            if oe.contract(eq, *vals, optimize=s, out=out) is not out or not oracle.same(out, want):
                raise Violation(f"{eq!r} with {s}: wrong result in out in a thread")
            mon.ev("calls compared", 2)
            return True

        return run

    _, sig = execute(rng, mon, [thread(i) for i in range(n)], "contractions in threads", None)
    mon.sig(sig)


def fam_crowd(rng, mon):
    """Many threads, all of them inside of contexts at the same time."""
    n = rng.choice((9, 12, 17, 24, 33, 40))
    depth = [rng.choice((0, 1, 1, 1, 2)) for _ in range(n)]
    vals = [list(gen.nprng(rng).integers(-3, 4, size=(2, 3, 3))) for _ in range(n)]
    with oe.shared_intermediates() as c:
        oe.contract("ab,bc->ac", *vals[0])
        alone = sharing.count_cached_ops(c)
    mon.describe(threads=n, contexts=depth)
    bar = threading.Barrier(n, timeout=120)
    bad = []

    def run(i):
        try:
            with contextlib.ExitStack() as st:
                cs = [st.enter_context(oe.shared_intermediates()) for _ in range(depth[i])]
                bar.wait()
                a, b = vals[i]
                if not np.array_equal(oe.contract("ab,bc->ac", a, b), a @ b):
                    raise Violation(f"thread {i} of {n}: wrong result")
                if sharing.currently_sharing() != bool(cs):
                    raise Violation(f"thread {i} of {n}, in {len(cs)} contexts: currently_sharing() is {sharing.currently_sharing()}")
                if cs and sharing.get_sharing_cache() is not cs[-1]:
                    raise Violation(f"thread {i} of {n}: the innermost cache is not its own")
                bar.wait()
                for k, c in enumerate(cs):
                    held = sharing.count_cached_ops(c)
                    if held != (alone if k == len(cs) - 1 else {}):
                        raise Violation(f"thread {i} of {n}: context {k} of {len(cs)} holds {dict(held)}, alone it holds {dict(alone)}")
                bar.wait()
            if sharing.currently_sharing():
                raise Violation(f"thread {i} of {n}: left sharing")
        except BaseException as e:  # noqa: BLE001
            bad.append(e)
            bar.abort()

    ts = [threading.Thread(target=run, args=(i,)) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for e in bad:
        if not isinstance(e, threading.BrokenBarrierError):
            raise e
    mon.ev("crowds")
    mon.ev("threads in a crowd", n)
    mon.sig("crowd", n, tuple(depth))


# -- single and double preemptions, at every point in turn


def sc_expression(rng):
    con, eq, path, vals, _ = case(rng, 4)
    mode = rng.choice(("vrec", "numpy", "mixed"))
    consts = [i for i in range(con.n) if rng.random() < 0.6]
    base = vals if mode == "numpy" else trace.wrap(vrec, vals)
    var = [i for i in range(con.n) if i not in consts]
    bks = [rng.choice(("vrx", "vry", "vrec")) if mode == "mixed" else mode for _ in range(2)]
    shares = [rng.random() < 0.2 for _ in range(2)]
    g = gen.nprng(rng)
    xs = [[vals[i] if i in consts else np.asarray(g.integers(-2, 2, size=s, endpoint=True)) for i, s in enumerate(con.shapes())] for _ in range(2)]
    wants = [oracle.of(con, x) for x in xs]
    what = f"expression {eq!r} {path} constants={consts} backends={bks}"

    def fresh():
        expr = oe.contract_expression(eq, *[base[i] if i in consts else s for i, s in enumerate(con.shapes())], constants=consts, optimize=path)

        def fn(i):
            def run(again=False):
                ops = [xs[i][j] if mode == "numpy" else vrec.Arr(xs[i][j], [f"x{j}"]) for j in var]
                kw = {} if bks[i] in ("numpy", "vrec") else {"backend": bks[i]}
                if shares[i]:
                    with oe.shared_intermediates():
                        r = expr(*ops, **kw)
                else:
                    r = expr(*ops, **kw)
                if not oracle.same(r if mode == "numpy" else r.data, wants[i]):
                    raise Violation(f"{what}, thread {i}{', afterwards' if again else ''}: wrong result")
            return run

        fns = [fn(0), fn(1)]
        return fns, lambda: [f(True) for f in fns]

    return what, fresh, {"contract.py", "dispatch.py", "sharing.py"}


def sc_torch(rng):
    t = torch()
    con, eq, path, vals, _ = case(rng, 3)
    vals = [v.astype(float) for v in vals]
    consts = [i for i in range(con.n) if rng.random() < 0.5]
    if len(consts) == con.n:
        consts.pop()
    var = [i for i in range(con.n) if i not in consts]
    bks = [rng.choice(("torch", "torch", "numpy", "tensor")) for _ in range(2)]
    want = oracle.of(con, vals)
    what = f"converting expression {eq!r} {path} constants={consts} {bks}"

    def fresh():
        expr = oe.contract_expression(eq, *[vals[i] if i in consts else s for i, s in enumerate(con.shapes())], constants=consts, optimize=path)

        def fn(i):
            def run():
                ops = [t.from_numpy(vals[j]) if bks[i] == "tensor" else vals[j] for j in var]
                r = expr(*ops, **({"backend": "torch"} if bks[i] == "torch" else {}))
                if isinstance(r, t.Tensor) != (bks[i] == "tensor"):
                    raise Violation(f"{what}: {type(r)} returned")
                if not oracle.same(np.asarray(r), want):
                    raise Violation(f"{what}, thread {i}: wrong result")
            return run

        fns = [fn(0), fn(1)]
        return fns, lambda: [f() for f in fns]

    return what, fresh, {"contract.py", "dispatch.py", "torch.py", "sharing.py"}


def sc_contexts(rng):
    jobs = []
    for _ in range(2):
        if jobs and rng.random() < 0.4:
            jobs.append(jobs[0])
            break
        con, eq, path, vals, want = case(rng, 3)
        ops = trace.wrap(vrec, vals)
        REC.reset()
        oe.contract(eq, *ops, optimize=path)
        jobs.append((eq, ops, path, want, len(REC.log)))
    progs = [rng.choice(("EcL", "EccL", "c", "EEcLcL", "EcLEcL", "ELc", "cEcL", "E!c")) for _ in range(2)]
    what = f"{[j[0] for j in jobs]} in the programs {progs}"

    def fresh():
        def fn(i):
            def run():
                tid = threading.get_ident()
                cms, done = [], []
                eq, ops, path, want, alone = jobs[i]
                try:
                    for a in progs[i]:
                        if a == "E":
                            cm = oe.shared_intermediates()
                            c = cm.__enter__()
                            cms.append(cm)
                            done.append(False)
                            if sharing.get_sharing_cache() is not c:
                                raise Violation(f"{what}: thread {i} uses another cache than its own")
                        elif a == "L":
                            cms.pop().__exit__(None, None, None)
                            done.pop()
                        elif a == "!":
                            try:
                                cms.pop().__exit__(KeyError, KeyError("x"), None)
                            except KeyError:
                                pass
                            done.pop()
                        else:
                            k0 = sum(e.thread == tid for e in list(REC.log))
                            r = oe.contract(eq, *ops, optimize=path)
                            k = sum(e.thread == tid for e in list(REC.log)) - k0
                            if not oracle.same(r.data, want):
                                raise Violation(f"{what}: wrong result in thread {i}")
                            if k != (0 if done and done[-1] else alone):
                                raise Violation(f"{what}: {k} operations executed in thread {i}, alone it would be {0 if done and done[-1] else alone}")
                            if done:
                                done[-1] = True
                        if sharing.currently_sharing() != bool(cms):
                            raise Violation(f"{what}: currently_sharing() is {not cms} in thread {i}")
                finally:
                    while cms:
                        cms.pop().__exit__(None, None, None)
            return run

        return [fn(0), fn(1)], lambda: None

    return what, fresh, {"contract.py", "sharing.py"}


NEW = iter(range(10 ** 9))


def sc_library(rng):
    """The first use of a library by two threads at once."""
    import types

    con, eq, path, vals, want = case(rng, 3)
    einsum = rng.random() < 0.6
    if not einsum:
        con = gen.Con([(0, 1), (1, 2), (2, 3)], (0, 3), {0: 2, 1: 3, 2: 2, 3: 2})
        path = [(0, 1), (0, 1)]
        eq = con.eq(dict(zip(range(4), "abcd")))
        g = gen.nprng(rng)
        vals = [np.asarray(g.integers(-2, 2, size=s, endpoint=True)) for s in con.shapes()]
        want = oracle.of(con, vals)
    what = f"{eq!r} {path} with a library {'with' if einsum else 'without'} einsum"

    def fresh():
        name = f"vnew{next(NEW)}x{rng.getrandbits(40)}"
        m = types.ModuleType(name)

        class A:
            def __init__(self, data):
                self.data = np.asarray(data)
                self.shape = self.data.shape

            def transpose(self, axes):
                return A(self.data.transpose(axes))

        A.__module__ = name
        m.A = A
        m.tensordot = lambda x, y, axes=2: A(np.tensordot(x.data, y.data, axes=axes))
        if einsum:
            m.einsum = lambda e, *o: A(np.einsum(e, *[x.data for x in o]))
        sys.modules[name] = m

        def fn(i):
            def run():
                r = oe.contract(eq, *[A(v) for v in vals], optimize=path)
                if type(r) is not A or not oracle.same(r.data, want):
                    raise Violation(f"{what}: wrong result in thread {i}: {type(r)}")
            return run

        fns = [fn(0), fn(1)]

        def after():
            for f in fns:
                f()
            sys.modules.pop(name, None)

        return fns, after

    return what, fresh, {"contract.py", "dispatch.py", "sharing.py"}


def sc_paths(rng):
    cons = [case(rng, 5) for _ in range(2)] if rng.random() < 0.5 else [case(rng, 5)] * 2
    kinds = [rng.choice(("auto", "optimal", "greedy", "dp", "branch-2", "auto-hq", "combo", "size")) for _ in range(2)]

    def opt(k):
        return oe.DynamicProgramming(minimize=k) if k in ("combo", "size") else k

    ref = [oe.contract_path(c[1], *c[0].shapes(), shapes=True, optimize=opt(k)) for c, k in zip(cons, kinds)]
    what = f"{[c[1] for c in cons]} with {kinds}"

    def fresh():
        def fn(i):
            def run():
                con, eq = cons[i][:2]
                p, info = oe.contract_path(eq, *con.shapes(), shapes=True, optimize=opt(kinds[i]))
                if list(map(tuple, p)) != list(map(tuple, ref[i][0])) or str(info) != str(ref[i][1]):
                    raise Violation(f"{what}: path {p} in thread {i}, alone {ref[i][0]}")
            return run

        return [fn(0), fn(1)], lambda: None

    return what, fresh, {"contract.py", "paths.py", "helpers.py", "parser.py"}


SCENARIOS = [sc_expression, sc_expression, sc_expression, sc_contexts, sc_contexts, sc_library, sc_paths]


def preempt(rng, mon, scenario, most=60):
    what, fresh, files = scenario(rng)
    mon.describe(scenario=scenario.__name__, what=what)
    opcodes = rng.random() < 0.3
    if rng.random() < 0.6:
        files = None  # all of the code under test

    def go(cuts, first):
        fns, after = fresh()
        REC.reset()
        s = sched.Sched(rng.getrandbits(40), 2, "cut", opcodes=opcodes, files=files, cuts=cuts, first=first)
        out = s.run(fns)
        if out is None:
            raise Violation(f"{what}: the threads got stuck")
        for i, (r, e) in enumerate(out):
            if isinstance(e, Violation):
                raise e
            if e is not None:
                import traceback

                txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:]
                raise Violation(f"{what}: thread {i}, with preemptions at {cuts}, failed with {type(e).__name__}: {e}\n{txt}")
        after()
        if sharing.currently_sharing():
            raise Violation(f"{what}: the main thread is left sharing")
        return s

    first = rng.randrange(2)
    s = go({}, first)
    other = s.counts[1 - first]
    if not s.counts[first]:
        mon.ev("nothing to preempt")
        return
    # every place in the code in turn, and every time it is passed as far as the budget goes
    at = {}
    for k, place in enumerate(s.places[first], 1):
        at.setdefault(place, []).append(k)
    queues = list(at.values())
    for q in queues:
        rng.shuffle(q)
    rng.shuffle(queues)
    pts = []
    while queues and len(pts) < most:
        queues = [q for q in queues if q]
        pts += [q.pop() for q in queues]
    mon.ev("places preempted", min(len(at), most))
    for k in pts[:most]:
        cuts = {first: {k}}
        if other and rng.random() < 0.3:
            cuts[1 - first] = {rng.randint(1, other)}
        mon.describe(cuts={a: sorted(b) for a, b in cuts.items()}, first=first)
        s = go(cuts, first)
        mon.ev("preemptions placed")
        mon.ev("calls compared", 2)
        mon.sig(what, first, str(cuts), s.signature())
    mon.ev("scenario " + scenario.__name__)


def fam_preempt(rng, mon):
    preempt(rng, mon, rng.choice(SCENARIOS))


def fam_preempt_torch(rng, mon):
    preempt(rng, mon, sc_torch, 40)


FAMILIES = [
    Family("isolated", fam_isolated, 1200, 12000, cpu=300),
    Family("expression", fam_expression, 3000, 20000, cpu=300),
    Family("preempt", fam_preempt, 400, 4000, chunk=10, cpu=600),
    Family("preempt-torch", fam_preempt_torch, 40, 600, chunk=5, cpu=600),
    Family("torch", fam_torch, 300, 5000, chunk=50, cpu=300),
    Family("cache", fam_cache, 300, 5000, cpu=300),
    Family("crowd", fam_crowd, 150, 1500, cpu=300),
    Family("direct", fam_direct, 200, 3000, cpu=300),
]
