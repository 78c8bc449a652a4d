"""C16: repeated random searches account for every trial and keep the best."""
import random
import sys
import threading
import time
from decimal import Decimal
from concurrent.futures import Future, ThreadPoolExecutor

import opt_einsum as oe
from opt_einsum import path_random, paths

from .. import gen, oracle
from ..core import Family, Skip, Violation

RULE = "distinct (script of trials, executor, pre-dispatch, history of searches) and (structure, configuration) whose trial logs were checked"
ASSUMPTIONS = ["the criterion is (operations, largest intermediate) or (largest intermediate, operations), the first best trial being kept",
               "in-process executors are checked with trials that depend on their number only"]


class Script(path_random.RandomOptimizer):
    """Trials with given results; logs which were run."""

    def __init__(self, script, delay=0.0, **kw):
        self.script, self.delay, self.log, self.lock = script, delay, [], threading.Lock()
        self.setups = []
        super().__init__(**kw)

    def setup(self, inputs, output, size_dict):
        self.setups.append((inputs, output, size_dict))

        def trial(r, *args):
            if args != ("extra", 7):
                raise Violation(f"trial {r} was given the arguments {args}")
            with self.lock:
                self.log.append(r)
            if self.delay:
                time.sleep(self.delay)
            return self.script[r % len(self.script)]

        return trial, ("extra", 7)


class FakeFuture:
    def __init__(self, pool, fn, args):
        self.pool, self.fn, self.args, self.done_, self.value, self.taken, self.cancelled_ = pool, fn, args, False, None, False, False

    def run(self):
        if not self.done_ and not self.cancelled_:
            self.value = self.fn(*self.args)
            self.done_ = True

    def result(self, timeout=None):
        if self.cancelled_:
            raise Violation("the result of a cancelled trial was asked for")
        if self.pool.mode == "reverse":
            for f in reversed(self.pool.futures):
                f.run()
        elif self.pool.mode == "shuffle":
            fs = list(self.pool.futures)
            self.pool.rng.shuffle(fs)
            for f in fs:
                if f is self or self.pool.rng.random() < 0.5:
                    f.run()
        self.run()
        if not self.taken:
            self.taken = True
            self.pool.outstanding -= 1
        return self.value

    def cancel(self):
        if not self.taken:
            self.taken = True
            self.pool.outstanding -= 1
        if self.done_:
            return False
        self.cancelled_ = True
        return True

    def done(self):
        return self.done_ or self.cancelled_

    def cancelled(self):
        return self.cancelled_

    def running(self):
        return False


class FakePool:
    """An executor under our control: trials run when submitted, when asked for, all in reverse, or at random."""

    def __init__(self, mode, seed):
        self.mode, self.rng = mode, random.Random(seed)
        self.futures, self.outstanding, self.peak, self.submitted, self.shut = [], 0, 0, 0, False

    def submit(self, fn, *args, **kw):
        f = FakeFuture(self, fn, args)
        self.futures.append(f)
        self.submitted += 1
        self.outstanding += 1
        self.peak = max(self.peak, self.outstanding)
        if self.mode == "eager":
            f.run()
        return f

    def shutdown(self, *a, **k):
        self.shut = True


def rand_ssa(rng, n):
    ids, path, nxt = list(range(n)), [], n
    while len(ids) > 1:
        i, j = rng.sample(ids, 2)
        ids = [x for x in ids if x not in (i, j)] + [nxt]
        nxt += 1
        path.append((i, j))
    return path


def ssa_steps(path, n):
    """Sets of operands combined by a single-assignment path."""
    s = {i: frozenset([i]) for i in range(n)}
    out, nxt = [], n
    for st in path:
        parts = [s.pop(i) for i in st]
        s[nxt] = frozenset().union(*parts)
        out.append(frozenset(parts))
        nxt += 1
    return out


def lin_steps(path, n):
    s = [frozenset([i]) for i in range(n)]
    out = []
    for st in path:
        parts = [s.pop(i) for i in sorted(st, reverse=True)]
        s.append(frozenset().union(*parts))
        out.append(frozenset(parts))
    return out


def best_of(trials, minimize):
    key = (lambda t: (t[1], t[2])) if minimize == "flops" else (lambda t: (t[2], t[1]))
    return min(trials, key=key)  # the first one of equals


def fam_script(rng, mon):
    n = rng.randint(3, 6)
    script = [(rand_ssa(rng, n), rng.choice((0, 1, 2, 5, 10, 10, 100)) * rng.randint(1, 3), rng.choice((0, 1, 2, 2, 3, 50))) for _ in range(rng.randint(1, 40))]
    minimize = rng.choice(("flops", "size"))
    ex = rng.choice(("serial", "threads", "eager", "lazy", "reverse", "shuffle"))
    pre = rng.choice((1, 2, 3, 5, 16, 128))
    pool = None
    if ex == "threads":
        pool = ThreadPoolExecutor(rng.randint(1, 4))
    elif ex != "serial":
        pool = FakePool(ex, rng.random())
    reps = rng.choice((1, 2, 3, 5, 17, 33)) if rng.random() < 0.97 else rng.choice((128, 129, 300, 1100))
    opt = Script(script, max_repeats=reps, minimize=minimize, parallel=pool if pool is not None else False, pre_dispatch=pre)
    inputs = [frozenset("ab"[: i % 2 + 1]) for i in range(n)]
    out, sizes = frozenset("a"), {"a": 2, "b": 3}
    what = f"{ex} search of {len(script)} scripted trials, max_repeats={reps} pre_dispatch={pre} minimize={minimize}"
    mon.describe(executor=ex, pre_dispatch=pre, repeats=reps, minimize=minimize, script=[(c, s) for _, c, s in script])
    done = 0
    hist = []
    try:
        for call in range(rng.randint(1, 4)):
            if call and rng.random() < 0.3:
                opt.max_repeats = reps = rng.choice((1, 2, 9))
            if call and rng.random() < 0.2:
                opt.parallel = False
                ex2 = "serial"
            else:
                ex2 = ex
            prev = (opt.best["flops"], opt.best["size"])
            opt.log = []
            if isinstance(pool, FakePool):
                pool.futures, pool.peak = [], 0
            path = opt(inputs, out, sizes, rng.choice((None, 10)))
            want = list(range(done, done + reps))
            if sorted(opt.log) != want:
                raise Violation(f"{what}, search {call}: the trials {sorted(opt.log)} were run, expected {want}")
            if ex2 == "serial" and opt.log != want:
                raise Violation(f"{what}, search {call}: trials run in the order {opt.log}")
            done += reps
            trials = [script[r % len(script)] for r in range(done)]
            if list(opt.costs) != [t[1] for t in trials] or list(opt.sizes) != [t[2] for t in trials]:
                raise Violation(f"{what}, search {call}: recorded costs {opt.costs} and sizes {opt.sizes} are not those of the trials")
            b = best_of(trials, minimize)
            if (opt.best["flops"], opt.best["size"]) != (b[1], b[2]):
                raise Violation(f"{what}, search {call}: best is {opt.best}, expected {b}")
            if lin_steps(path, n) != ssa_steps(b[0], n) or lin_steps(opt.path, n) != ssa_steps(b[0], n):
                raise Violation(f"{what}, search {call}: path {path} is not that of the best trial {b}")
            if isinstance(pool, FakePool) and ex2 != "serial":
                if pool.peak > pre:
                    raise Violation(f"{what}: {pool.peak} trials were pending at once")
                if pool.outstanding:
                    raise Violation(f"{what}: {pool.outstanding} trials were never collected nor cancelled")
                if pool.shut:
                    raise Violation(f"{what}: the caller's executor was shut down")
            mon.ev("searches")
            mon.ev("trials logged", reps)
            hist.append((ex2, reps))
    finally:
        if ex == "threads":
            pool.shutdown()
    mon.ev("executor " + ex)
    mon.sig(tuple((t[1], t[2]) for t in script), ex, pre, minimize, tuple(hist))
    mon.sample({"executor": ex, "pre_dispatch": pre, "history": hist})


def fam_time(rng, mon):
    """A time budget."""
    n = 4
    script = [(rand_ssa(rng, n), rng.randint(rng.choice((0, 1)), 50), rng.randint(0, 9)) for _ in range(60)]
    ex = rng.choice(("serial", "threads", "eager", "lazy"))
    pool = ThreadPoolExecutor(2) if ex == "threads" else FakePool(ex, 1) if ex != "serial" else None
    budget = rng.choice((0, 0.0, 0.001, 0.004, 0.01, 1000.0, 1000, 1e9, float("inf")))
    reps = 60 if budget < 1 else rng.choice((1, 5, 40, 128, 150))
    opt = Script(script, delay=0.002 if reps <= 60 else 0, max_repeats=reps, max_time=budget, parallel=pool if pool is not None else False,
                 pre_dispatch=rng.choice((1, 3, 8)))
    inputs, out, sizes = [frozenset("ab")] * n, frozenset(), {"a": 2, "b": 3}
    mon.describe(executor=ex, budget=budget)
    what = f"{ex} search with max_time={budget}"
    again = []
    try:
        path = opt(inputs, out, sizes)
        k = len(opt.costs)
        for _ in range(rng.choice((0, 1, 1, 2))):
            # and once more: with what is left of the last search behind it
            if ex == "threads" and rng.random() < 0.5:
                time.sleep(0.01)
            m = len(opt.costs)
            opt.max_time, opt.max_repeats = rng.choice(((None, 1), (None, 4), (1000, 7)))
            p2 = opt(inputs, out, sizes)
            again.append((m, opt.max_repeats, list(opt.costs), list(opt.sizes), p2))
    finally:
        if ex == "threads":
            pool.shutdown()
    for m, r, costs, szs, p2 in again:
        ts = [script[j % len(script)] for j in range(m + r)]
        if costs != [t[1] for t in ts] or szs != [t[2] for t in ts]:
            raise Violation(f"{what}: searched again with {r} trials after {m}, recorded {costs}, expected {[t[1] for t in ts]}")
        if lin_steps(p2, n) != ssa_steps(best_of(ts, "flops")[0], n):
            raise Violation(f"{what}: searched again with {r} trials after {m}: not the path of the best trial")
        mon.ev("searches after one with a time budget")
    opt.costs, opt.sizes, opt.max_repeats = opt.costs[:k], opt.sizes[:k], reps
    if k < 1 or len(opt.sizes) != k:
        raise Violation(f"{what}: {k} costs, {len(opt.sizes)} sizes recorded")
    trials = [script[r % len(script)] for r in range(k)]
    if list(opt.costs) != [t[1] for t in trials]:
        raise Violation(f"{what}: recorded costs {opt.costs} are not those of the first {k} trials")
    if lin_steps(path, n) != ssa_steps(best_of(trials, "flops")[0], n):
        raise Violation(f"{what}: not the path of the best of the {k} trials that were run")
    if budget > 1 and k != opt.max_repeats:
        raise Violation(f"{what}: {k} trials of {opt.max_repeats} run")
    # each trial takes at least 2 ms (serially): the budget must have stopped the search
    if budget < 1 and ex in ("serial", "lazy") and (k - 1) * 0.002 > budget + 1e-3:
        raise Violation(f"{what}: {k} trials of 2 ms were run")
    if isinstance(pool, FakePool) and pool.outstanding:
        raise Violation(f"{what}: {pool.outstanding} trials were neither collected nor cancelled")
    mon.ev("time budgets")
    mon.ev("time budget trials", k)
    mon.sig(ex, budget, k, tuple(opt.costs))


def abstract(con, sym):
    return [frozenset(sym[c] for c in t) for t in con.terms], frozenset(sym[c] for c in con.output), {sym[c]: d for c, d in con.eff_sizes().items()}


def cost_size(con, path):
    st = oracle.replay(con.terms, con.output, con.eff_sizes(), path)
    return oracle.total_flops(st), max((s.size for s in st), default=0)


def ssa_cost(con, ssa):
    """Operation count and largest intermediate of a single-assignment path of pairs."""
    n = con.n
    ids, path = list(range(n)), []
    for k, st in enumerate(ssa):
        pos = sorted((ids.index(i) for i in st), reverse=True)
        path.append(tuple(pos))
        for p in pos:
            ids.pop(p)
        ids.append(n + k)
    return cost_size(con, path)


def fam_greedy(rng, mon):
    """The random-greedy search: every trial's costs are true, the best is returned, searching again is never worse."""
    con = gen.contraction(rng, 3, 10, budget=None, sizes=(1, 2, 3, 4, 8), bcast=0.1)
    r = rng.random()
    if r < 0.03:
        con = gen.contraction(rng, 20, 60, budget=None, sizes=(2, 3, 4), maxlabels=90, profile=rng.choice(("chain", "ring", "tree", "net", "grid")))
    elif r < 0.08:
        con = gen.contraction(rng, 3, 6, budget=None, sizes=(2, 10 ** 5 + 3, 10 ** 6 + 1, 10 ** 6 + 2, 10 ** 7), maxrank=6)
    sym = gen.symbols(rng, con)
    inputs, out, sizes = abstract(con, sym)
    kw = dict(max_repeats=rng.choice((1, 3, 8)), minimize=rng.choice(("flops", "size")), temperature=rng.choice((0.0, 0.3, 1.0, 20.0)),
              rel_temperature=rng.random() < 0.5, nbranch=rng.choice((1, 2, 8)), cost_fn=rng.choice(("memory-removed", "memory-removed-jitter")))
    what = f"RandomGreedy({kw}) on {con.describe()}"
    mon.describe(con=con.describe(), kw=str(kw))
    opt = oe.RandomGreedy(**kw)
    ref = oe.RandomGreedy(**kw)
    fn, args = ref.setup(inputs, out, sizes)
    trials = []
    last = None
    key = (lambda c, s: (c, s)) if kw["minimize"] == "flops" else (lambda c, s: (s, c))
    for call in range(rng.randint(1, 3)):
        if rng.random() < 0.5:
            path, info = oe.contract_path(con.eq(sym), *con.shapes(), shapes=True, optimize=opt)
        else:
            path = opt(inputs, out, sizes)
        for r in range(len(trials), len(trials) + kw["max_repeats"]):
            t = fn(r, *args)
            c, s = ssa_cost(con, t[0])
            if (t[1], t[2]) != (c, s):
                raise Violation(f"{what}: trial {r} reports cost {t[1]} and size {t[2]}, its path {t[0]} has {c} and {s}")
            trials.append(t)
        if list(opt.costs) != [t[1] for t in trials] or list(opt.sizes) != [t[2] for t in trials]:
            raise Violation(f"{what}: the recorded costs {opt.costs} {opt.sizes} are not those of trials 0..{len(trials) - 1}: {[t[1:] for t in trials]}")
        b = best_of(trials, kw["minimize"])
        if lin_steps(path, con.n) != ssa_steps(b[0], con.n):
            raise Violation(f"{what}: path {path} is not that of the best trial")
        cs = cost_size(con, path)
        if cs != (opt.best["flops"], opt.best["size"]):
            raise Violation(f"{what}: best is {opt.best}, the path has {cs}")
        if last is not None and key(*cs) > last:
            raise Violation(f"{what}: searching again gave {cs}, worse than before")
        last = key(*cs)
        mon.ev("searches")
        mon.ev("trials logged", kw["max_repeats"])
    mon.sig(con.key(), str(kw), call)


def fam_guarantee(rng, mon):
    """Never worse than greedy; more branches never worse than one; reuse never worse."""
    con = gen.contraction(rng, 3, 8, budget=None, sizes=(1, 2, 3, 4, 10), bcast=0.05)
    sym = gen.symbols(rng, con)
    eq, sh = con.eq(sym), con.shapes()
    mon.describe(con=con.describe())

    def run(o):
        p, _ = oe.contract_path(eq, *sh, shapes=True, optimize=o)
        return cost_size(con, p)

    g = run("greedy")
    m = rng.choice(("flops", "size"))
    k = (lambda cs: cs) if m == "flops" else (lambda cs: cs[::-1])
    rg = run(oe.RandomGreedy(cost_fn="memory-removed", minimize=m, max_repeats=rng.choice((1, 2, 6)), nbranch=rng.choice((1, 2, 8)),
                             temperature=rng.choice((0.0, 1.0, 5.0))))
    if k(rg) > k(g):
        raise Violation(f"random-greedy with the deterministic cost function has {rg}, greedy {g} (minimizing {m}) on {con.describe()}")
    mon.ev("compared with greedy")
    cut = rng.choice((1, 2, 4, None))  # the cutoff prunes against all that was assessed, so it has to be the same one
    one = run(oe.BranchBound(nbranch=1, minimize=m, cutoff_flops_factor=cut))
    for nb in (2, 3, None):
        if nb != 2 and con.n > 6:
            continue
        b = oe.BranchBound(nbranch=nb, minimize=m, cutoff_flops_factor=cut)
        r = run(b)
        if (r[0] > one[0]) if m == "flops" else (r[1] > one[1]):
            raise Violation(f"branching into {nb} gives {r}, following one {one} (minimizing {m}) on {con.describe()}")
        if rng.random() < 0.3:
            r2 = run(b)
            if k(r2) > k(r):
                raise Violation(f"BranchBound used again gives {r2} after {r} on {con.describe()}")
            mon.ev("searched again")
        mon.ev("compared with one branch")
    b1 = run("branch-1")
    for s in ("branch-2", "branch-all"):
        if con.n <= 6 or s == "branch-2":
            if run(s)[0] > b1[0]:
                raise Violation(f"{s} gives {run(s)}, branch-1 {b1} on {con.describe()}")
            mon.ev("compared with one branch")
    mon.sig(con.key(), m)


def fam_different(rng, mon):
    """An optimizer used for another contraction raises and stays as it was."""
    con = gen.contraction(rng, 3, 6, budget=None, sizes=(2, 3, 4))
    sym = gen.symbols(rng, con)
    inputs, out, sizes = abstract(con, sym)
    kind = rng.choice(("RandomGreedy", "BranchBound", "Script"))
    opt = {"RandomGreedy": lambda: oe.RandomGreedy(max_repeats=3), "BranchBound": lambda: oe.BranchBound(nbranch=2),
           "Script": lambda: Script([(rand_ssa(rng, con.n), 5, 5)], max_repeats=2)}[kind]()
    if not con.labels:
        raise Skip("no index")
    given = list(inputs), set(out), dict(sizes)  # the caller may change these later
    p0 = opt(*given)
    how = rng.choice(("size", "output", "terms", "order"))
    i2, o2, s2 = list(inputs), out, dict(sizes)
    c = rng.choice(sorted(sizes))
    if how == "size":
        s2[c] += 1
    elif how == "output":
        o2 = out ^ {c}
    elif how == "terms":
        j = rng.randrange(len(i2))
        i2[j] = i2[j] ^ {c}
    else:
        i2 = i2[::-1]
        if i2 == inputs:
            raise Skip("palindrome")
    if rng.random() < 0.4:
        how += " in place"
        given[0][:] = i2
        given[1].clear()
        given[1].update(o2)
        given[2].update(s2)
        i2, o2, s2 = given
    mon.describe(con=con.describe(), kind=kind, how=how)
    state = (list(getattr(opt, "costs", [])), dict(opt.best))
    try:
        r = opt(i2, o2, s2)
    except Exception:
        mon.ev("rejected")
    else:
        raise Violation(f"{kind} used for {con.describe()} and then with another {how}: returned {r}")
    if state != (list(getattr(opt, "costs", [])), dict(opt.best)):
        raise Violation(f"{kind}: the rejected call changed its records")
    p1 = opt([frozenset(i) for i in inputs], frozenset(out), dict(sizes))
    if kind == "Script" and lin_steps(p1, con.n) != lin_steps(p0, con.n):
        raise Violation(f"{kind}: another path after a rejected call")
    mon.sig(con.key(), kind, how)


def spawn_setup():
    # the workers of this harness are forked from a process with threads, so pools inside of them must not fork again
    import multiprocessing as mp

    mp.set_start_method("spawn", force=True)


def fam_process(rng, mon):
    """Process pools give what a serial search gives."""
    con = gen.contraction(rng, 4, 12, budget=None, sizes=(2, 3, 4, 8))
    sym = gen.symbols(rng, con)
    eq, sh = con.eq(sym), con.shapes()
    kw = dict(max_repeats=rng.choice((1, 4, 9)), minimize=rng.choice(("flops", "size")), cost_fn=rng.choice(("memory-removed", "memory-removed-jitter")))
    par = rng.choice((1, 2, 2, True))
    mon.describe(con=con.describe(), kw=str(kw), parallel=par)
    a = oe.RandomGreedy(**kw)
    b = oe.RandomGreedy(parallel=par, pre_dispatch=rng.choice((1, 2, 128)), **kw)
    for call in range(2):
        pa, _ = oe.contract_path(eq, *sh, shapes=True, optimize=a)
        pb, _ = oe.contract_path(eq, *sh, shapes=True, optimize=b)
        if list(a.costs) != list(b.costs) or list(a.sizes) != list(b.sizes):
            raise Violation(f"RandomGreedy({kw}) on {con.describe()}: costs {a.costs} serially, {b.costs} with parallel={par}")
        if [tuple(x) for x in pa] != [tuple(x) for x in pb]:
            raise Violation(f"RandomGreedy({kw}) on {con.describe()}: path {pa} serially, {pb} with parallel={par}")
        mon.ev("parallel searches")
    b.parallel = False
    pb, _ = oe.contract_path(eq, *sh, shapes=True, optimize=b)
    pa, _ = oe.contract_path(eq, *sh, shapes=True, optimize=a)
    if list(a.costs) != list(b.costs) or [tuple(x) for x in pa] != [tuple(x) for x in pb]:
        raise Violation(f"RandomGreedy({kw}): differs after switching to serial search")
    mon.sig(con.key(), str(kw), par)


class OwnPool(FakePool):
    """Stands in for a process pool: records how it was made and whether it was shut down."""

    made = []

    def __init__(self, max_workers=None, *a, **k):
        super().__init__("eager", 1)
        self.workers = max_workers
        OwnPool.made.append(self)


def fam_pools(rng, mon):
    """The pools a search makes: one per request, of the size asked for, used for all trials, and shut down."""
    import concurrent.futures as cf
    import gc

    real = cf.ProcessPoolExecutor
    spots = [(m, k) for m in (cf, path_random, sys.modules.get("concurrent.futures.process")) if m for k, v in list(vars(m).items()) if v is real]
    con = gen.contraction(rng, 3, 8, budget=None, sizes=(2, 3, 4))
    sym = gen.symbols(rng, con)
    inputs = [frozenset(sym[c] for c in t) for t in con.terms]
    out, sizes = frozenset(sym[c] for c in con.output), {sym[c]: con.sizes[c] for c in con.labels}
    wants = [rng.choice((True, 1, 2, 3, 8, False, "own", Decimal(3))) for _ in range(rng.randint(1, 4))]
    mon.describe(con=con.describe(), parallel=str(wants))
    what = f"RandomGreedy with parallel set to {wants} one after another"
    OwnPool.made = []
    alive = []
    try:
        for m, k in spots:
            setattr(m, k, OwnPool)
        opt, serial = None, oe.RandomGreedy(max_repeats=3)
        for w in wants:
            mine = FakePool("eager", 1) if w == "own" else None
            val = mine if mine is not None else w
            before = len(OwnPool.made)
            if opt is None:
                opt = oe.RandomGreedy(max_repeats=3, parallel=val)
            else:
                opt.parallel = val
            if opt.parallel is not val and opt.parallel != val:
                raise Violation(f"{what}: parallel is {opt.parallel!r} after setting it to {val!r}")
            path = opt(inputs, out, sizes)
            ref = serial(inputs, out, sizes)
            if list(path) != list(ref) or list(opt.costs) != list(serial.costs):
                raise Violation(f"{what}: path {path}, costs {opt.costs}; serially {ref}, {serial.costs}")
            new = OwnPool.made[before:]
            if w is False or mine is not None:
                if new:
                    raise Violation(f"{what}: a pool was made for parallel={val!r}")
                if mine is not None and mine.submitted != 3:
                    raise Violation(f"{what}: {mine.submitted} trials submitted to the executor given")
            else:
                # (none at all if the pools are not made through the names replaced above)
                if OwnPool.made and [p.workers for p in new] != [None if w is True else int(w)]:
                    raise Violation(f"{what}: for parallel={w!r} pools of {[p.workers for p in new]} workers were made")
                if new and new[0].submitted != 3:
                    raise Violation(f"{what}: {new[0].submitted} trials were submitted to the pool made for parallel={w!r}, expected 3")
            if mine is not None:
                alive.append(mine)
            mon.ev("pools made", len(new))
            old = OwnPool.made[:before]
            if any(not p.shut for p in old):
                raise Violation(f"{what}: a pool that was replaced was not shut down")
        if any(p.shut for p in alive):
            raise Violation(f"{what}: an executor of the caller was shut down")
        del opt
        gc.collect()
        if any(not p.shut for p in OwnPool.made):
            raise Violation(f"{what}: a pool is left after the optimizer is gone")
        if any(p.shut for p in alive):
            raise Violation(f"{what}: an executor of the caller was shut down with the optimizer")
    finally:
        for m, k in spots:
            setattr(m, k, real)
    mon.sig(con.key(), str(wants))


FAMILIES = [
    Family("script", fam_script, 3000, 40000),
    Family("time", fam_time, 120, 1500),
    Family("greedy", fam_greedy, 2500, 30000),
    Family("guarantee", fam_guarantee, 2000, 30000),
    Family("different", fam_different, 1500, 15000),
    Family("pools", fam_pools, 800, 8000, setup=spawn_setup),
    Family("process", fam_process, 24, 300, chunk=3, cpu=200, setup=spawn_setup, wall=0),
]
