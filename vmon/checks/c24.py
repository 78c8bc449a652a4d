"""C24: the heuristic strategies choose as they document."""
import functools
import heapq
import itertools
import math
import random

import opt_einsum as oe
from opt_einsum import path_random, paths

from .. import gen, oracle
from ..core import Family, Skip, Violation

RULE = "distinct (structure, sizes, strategy) all of whose choices were compared with the pairs that were available"
ASSUMPTIONS = ["greedy choices are judged on contractions of three or more operands in which every index is on at most two of them, where the size of a pair's "
               "result does not depend on when it is contracted",
               "random choices are judged by frequencies with bounds of six standard deviations"]


def prod(k, sizes):
    p = 1
    for c in k:
        p *= sizes[c]
    return p


def network(rng, nmin=3, nmax=9):
    """Operands with every index on one or two of them: (list of frozensets, output, sizes)."""
    n = rng.randint(nmin, nmax)
    if nmax >= 9 and rng.random() < 0.02:
        n = rng.randint(10, 32)
    terms = [set() for _ in range(n)]
    out = set()
    names = [chr(c) for c in range(97, 123)] + [chr(c) for c in range(65, 91)] + [chr(c) for c in range(0x400, 0x460)]
    rng.shuffle(names)
    it = iter(names)
    if rng.random() < 0.7:
        for i in range(1, n):
            if rng.random() < 0.85:
                c = next(it)
                terms[i].add(c)
                terms[rng.randrange(i)].add(c)
    for _ in range(rng.randint(0, 2 * n)):
        i, j = rng.sample(range(n), 2)
        c = next(it)
        terms[i].add(c)
        terms[j].add(c)
        if rng.random() < 0.08:
            out.add(c)
    for t in terms:
        while rng.random() < 0.3:
            c = next(it)
            t.add(c)
            if rng.random() < 0.8:
                out.add(c)
    pool = rng.choice(((2,), (2, 3), (1, 2, 3, 5, 8), (2, 10, 100, 1000), tuple(range(2, 40)), (2, 3), (1, 2, 3, 5, 8), (10 ** 6, 10 ** 6 + 1, 10 ** 8 + 1, 10 ** 8)))
    labels = sorted(set().union(*terms))
    rng.shuffle(labels)
    return [frozenset(t) for t in terms], frozenset(out), {c: rng.choice(pool) for c in labels}


COSTS = {
    "memory-removed": lambda s12, s1, s2, k12, k1, k2: s12 - s1 - s2,
    "result": lambda s12, s1, s2, k12, k1, k2: s12,
    "rank": lambda s12, s1, s2, k12, k1, k2: len(k12),
    "product": lambda s12, s1, s2, k12, k1, k2: -s1 * s2,
    "weighted": lambda s12, s1, s2, k12, k1, k2: 3 * s12 - s1 - s2,
    "smallest": lambda s12, s1, s2, k12, k1, k2: s1 + s2,
}


class Watched:
    """A cost function that checks what it is told."""

    def __init__(self, name, sizes, output, what):
        self.f, self.sizes, self.output, self.what, self.calls, self.bad = COSTS[name], sizes, output, what, 0, None

    def __call__(self, s12, s1, s2, k12, k1, k2):
        self.calls += 1
        if self.bad is None:
            if s12 != prod(k12, self.sizes) or s1 != prod(k1, self.sizes) or s2 != prod(k2, self.sizes):
                self.bad = f"sizes {s12}, {s1}, {s2} for {sorted(k12)}, {sorted(k1)}, {sorted(k2)}"
            elif not (set(k1) | set(k2)) & self.output <= set(k12) <= set(k1) | set(k2):
                self.bad = f"result {sorted(k12)} of {sorted(k1)}, {sorted(k2)}, output {sorted(self.output)}"
        return self.f(s12, s1, s2, k12, k1, k2)

    def judge(self):
        if self.bad:
            raise Violation(f"{self.what}: the cost function was told {self.bad}")


def plain(rng, w, mon):
    """The cost function as users write it: most often a function, and not always of a name of its own."""
    k = rng.choice(("object", "function", "function", "lambda", "partial", "method"))
    mon.ev("cost function given as " + k)
    if k == "function":
        def cost(*a):
            return w(*a)
        return cost
    return {"object": w, "lambda": lambda *a: w(*a), "partial": functools.partial(w), "method": w.__call__}[k]


class State:
    """The terms while a path is followed."""

    def __init__(self, terms, output, sizes, cost):
        self.t = [(k, True, None) for k in terms]  # indices, original, best partners when made
        self.output, self.sizes, self.cost = output, sizes, cost

    def result(self, a, b):
        rest = set(self.output).union(*[k for i, (k, _, _) in enumerate(self.t) if i not in (a, b)])
        return frozenset((self.t[a][0] | self.t[b][0]) & rest)

    def adjacent(self, a, b):
        return bool((self.t[a][0] & self.t[b][0]) - self.output)

    def price(self, a, b):
        k12, k1, k2 = self.result(a, b), self.t[a][0], self.t[b][0]
        return self.cost(prod(k12, self.sizes), prod(k1, self.sizes), prod(k2, self.sizes), k12, k1, k2)

    def merge(self, a, b, keep=False):
        # the product of terms with the same indices counts as having these, although they may be gone; no other term has them
        k = self.t[a][0] if keep and self.t[a][0] == self.t[b][0] else self.result(a, b)
        self.t = [x for i, x in enumerate(self.t) if i not in (a, b)]
        self.t.append((k, False, None))
        n = len(self.t) - 1
        near = [(self.price(i, n), self.t[i][0]) for i in range(n) if self.adjacent(i, n)]
        if near:
            m = min(p for p, _ in near)
            self.t[n] = (k, False, [x for p, x in near if p == m])

    def offered(self, everything):
        """Prices of pairs that must have been considered."""
        n = len(self.t)
        out = []
        keys = {k for k, _, _ in self.t}
        for a, b in itertools.combinations(range(n), 2):
            if not self.adjacent(a, b):
                continue
            (ka, oa, _), (kb, ob, pb) = self.t[a], self.t[b]
            if everything or (oa and ob) or b == n - 1 and not ob:
                out.append(self.price(a, b))
            else:
                for x, other in ((self.t[a], kb), (self.t[b], ka)):
                    if x[2] and other in x[2] and all(p in keys for p in x[2]):
                        out.append(self.price(a, b))
        return out


def judge_greedy(what, path, terms, output, sizes, cost, everything, mon):
    try:
        oracle.check_path(path, len(terms))
    except oracle.BadPath as e:
        raise Violation(f"{what}: {e}")
    st = State(terms, output, sizes, cost)
    outer = False
    dup0 = {k for k in terms if terms.count(k) > 1}
    for step, con in enumerate(path):
        if len(con) != 2:
            raise Violation(f"{what}: step {con}")
        a, b = sorted(con)
        keys = [k for k, _, _ in st.t]
        if step < len(terms) - len(set(terms)):
            if keys[a] != keys[b] or keys[a] not in dup0:
                raise Violation(f"{what}: step {step} is {con} although operands with the same indices are left")
            mon.ev("products of equal indices")
        elif keys.count(keys[-1]) > 1 and not st.t[-1][1] and not outer:
            if keys[a] != keys[b]:
                raise Violation(f"{what}: step {step} is {con} although the result before has the same indices as another term")
            mon.ev("products of equal indices")
        else:
            off = st.offered(everything)
            if st.adjacent(a, b):
                p = st.price(a, b)
                if off and p > min(off):
                    raise Violation(f"{what}: step {step} of {path} costs {p}, a pair of cost {min(off)} was there")
                mon.ev("choices by cost")
            elif off:
                raise Violation(f"{what}: step {step} of {path} is an outer product, a pair of cost {min(off)} was there")
            elif not any(st.adjacent(x, y) for x, y in itertools.combinations(range(len(keys)), 2)):
                s = [prod(k & output, sizes) for k in keys]
                if sorted((s[a], s[b])) != sorted(s)[:2]:
                    raise Violation(f"{what}: step {step} of {path} multiplies terms of sizes {s[a]}, {s[b]}; there are {sorted(s)}")
                outer = True
                mon.ev("outer products by size")
            else:
                mon.ev("not judged further")
                return  # a pair that was not offered again
        st.merge(a, b, True)


def simple_net(rng, **kw):
    terms, output, sizes = network(rng, **kw)
    for k in set(terms):
        if terms.count(k) > 1 and k - output:
            raise Skip("equal operands whose indices vanish at once")
    if frozenset.intersection(*terms) - output:
        raise Skip("an index on all operands")
    return terms, output, sizes


def fam_greedy(rng, mon):
    terms, output, sizes = simple_net(rng, nmax=rng.choice((5, 9, 14)))
    name = rng.choice(("memory-removed", "memory-removed", "memory-removed") + tuple(COSTS))
    what = f"greedy {[''.join(sorted(t)) for t in terms]}->{''.join(sorted(output))} {sizes} by {name}"
    mon.describe(terms=[sorted(t) for t in terms], out=sorted(output), sizes=sizes, cost=name)
    if name == "memory-removed" and rng.random() < 0.5:
        if rng.random() < 0.5:
            path = paths.greedy(list(terms), output, sizes)
        else:
            eq = ",".join("".join(sorted(t)) for t in terms) + "->" + "".join(sorted(output))
            path = oe.contract_path(eq, *[tuple(sizes[c] for c in sorted(t)) for t in terms], shapes=True, optimize="greedy")[0]
    else:
        w = Watched(name, sizes, output, what)
        path = paths.greedy(list(terms), output, sizes, cost_fn=plain(rng, w, mon))
        w.judge()
        mon.ev("pairs told to a cost function", w.calls)
    judge_greedy(what, [tuple(p) for p in path], terms, output, sizes, COSTS[name], False, mon)
    mon.sig("greedy", tuple(tuple(sorted(t)) for t in terms), tuple(sorted(sizes.items())), name)


def fam_zero(rng, mon):
    """Random-greedy at temperature zero: the best of all pairs, always."""
    terms, output, sizes = simple_net(rng, nmax=rng.choice((5, 8, 11)))
    name = rng.choice(("memory-removed", "memory-removed") + tuple(COSTS))
    nb, rel = rng.choice((2, 3, 8)), rng.random() < 0.5
    what = f"random-greedy at temperature 0, nbranch={nb}, rel_temperature={rel}, {[''.join(sorted(t)) for t in terms]}->{''.join(sorted(output))} {sizes} by {name}"
    mon.describe(terms=[sorted(t) for t in terms], out=sorted(output), sizes=sizes, cost=name, nbranch=nb)
    w = Watched(name, sizes, output, what)
    opt = oe.RandomGreedy(cost_fn=name if name == "memory-removed" else plain(rng, w, mon), temperature=0.0, rel_temperature=rel, nbranch=nb)
    fn, args = opt.setup(list(terms), output, sizes)
    for r in rng.sample(range(1, 100), 2):
        ssa = fn(r, *args)[0]
        judge_greedy(what + f", trial {r}", [tuple(p) for p in paths.ssa_to_linear(ssa)], terms, output, sizes, COSTS[name], True, mon)
    w.judge()
    mon.ev("trials at temperature zero", 2)
    mon.sig("zero", tuple(tuple(sorted(t)) for t in terms), tuple(sorted(sizes.items())), name, nb)


def fam_choose(rng, mon):
    """A custom choice decides."""
    terms, output, sizes = simple_net(rng, nmax=8)
    what = f"greedy with a custom choice, {[''.join(sorted(t)) for t in terms]}->{''.join(sorted(output))} {sizes}"
    mon.describe(terms=[sorted(t) for t in terms], out=sorted(output), sizes=sizes)
    chosen = []
    shown = []

    def choose(queue, remaining):
        live = [c for c in queue if c[1] in remaining and c[2] in remaining]
        if not live:
            queue.clear()
            return None
        c = rng.choice(sorted(live, key=lambda x: x[0]))
        shown.append(({frozenset((x[1], x[2])) for x in live}, set(remaining)))
        queue.remove(c)
        heapq.heapify(queue)
        chosen.append(frozenset((c[1], c[2])))
        return c

    path = [tuple(p) for p in paths.greedy(list(terms), output, sizes, choose_fn=choose)]
    st = State(terms, output, sizes, COSTS["memory-removed"])
    k = 0
    for step, con in enumerate(path):
        a, b = sorted(con)
        ka, kb = st.t[a][0], st.t[b][0]
        if k < len(chosen) and frozenset((ka, kb)) == chosen[k]:
            pairs, rem = shown[k]
            want = {frozenset((st.t[x][0], st.t[y][0])) for x, y in itertools.combinations(range(len(st.t)), 2) if st.adjacent(x, y)}
            if not want <= pairs:
                raise Violation(f"{what}: step {step}: the choice was not offered {[[sorted(x) for x in p] for p in want - pairs]}")
            k += 1
        elif ka != kb and k < len(chosen):
            raise Violation(f"{what}: step {step} of {path} combines {sorted(ka)} and {sorted(kb)}, chosen was {[sorted(x) for x in chosen[k]]}")
        st.merge(a, b, True)
    if k != len(chosen):
        raise Violation(f"{what}: {len(chosen)} choices, {k} of them in the path")
    mon.ev("custom choices", k)
    mon.sig("choose", tuple(tuple(sorted(t)) for t in terms), tuple(path))


def fam_offers(rng, mon):
    """What a custom choice is told of each pair, on any contraction: its result given the terms that are left."""
    con, terms, output, sizes = general(rng, rng.choice((5, 8, 12)))
    what = f"greedy with a custom choice, {[sorted(t) for t in terms]}->{sorted(output)} {sizes}"
    mon.describe(terms=[sorted(t) for t in terms], out=sorted(output), sizes=sizes)
    kept = output | frozenset.intersection(*terms)
    seen = set()
    bad = []
    told = [0]

    def choose(queue, remaining):
        for cost, k1, k2, k12 in queue:
            if k1 not in remaining or k2 not in remaining or (cost[1:], k1, k2) in seen:
                continue
            seen.add((cost[1:], k1, k2))
            told[0] += 1
            rest = kept.union(*[k for k in remaining if k != k1 and k != k2])
            if k12 != (k1 | k2) & rest:
                bad.append((sorted(k1), sorted(k2), sorted(k12), [sorted(k) for k in remaining]))
            if cost[0] != prod(k12, sizes) - prod(k1, sizes) - prod(k2, sizes):
                bad.append((sorted(k1), sorted(k2), sorted(k12), cost))
            if not (k1 & k2) - kept:
                bad.append((sorted(k1), sorted(k2), "nothing to sum"))
        live = [c for c in queue if c[1] in remaining and c[2] in remaining]
        if not live:
            queue.clear()
            return None
        c = rng.choice(live)
        queue.remove(c)
        heapq.heapify(queue)
        return c

    path = [tuple(p) for p in paths.greedy(list(terms), output, sizes, choose_fn=choose)]
    if con.n > 1:
        try:
            oracle.check_path(path, con.n)
        except oracle.BadPath as e:
            raise Violation(f"{what}: {e}")
    if bad:
        raise Violation(f"{what}: the choice was offered {bad[0]}")
    mon.ev("pairs told to a choice", told[0])
    mon.sig("offers", con.key())


def fam_thermal(rng, mon):
    """The Boltzmann choice: which candidates, with which frequencies."""
    n = rng.randint(1, 10)
    keys = [frozenset((i,)) for i in range(7)]
    remaining = {k: i for i, k in enumerate(keys) if rng.random() < 0.8}
    scale = rng.choice((1, 10, 1000))
    cands = []
    for i in range(n):
        a, b = rng.sample(range(7), 2)
        cands.append(((rng.randint(-3 * scale, scale), i, a), keys[a], keys[b], keys[a] | keys[b]))
    T = rng.choice((0.0, 0.1, 1.0, 5.0, 100.0))
    rel = rng.random() < 0.5
    nb = rng.choice((1, 2, 3, 8, 20))
    live = sorted(c for c in cands if c[1] in remaining and c[2] in remaining)
    if nb > 1 and rng.random() < 0.7:
        choose = oe.RandomGreedy(temperature=T, rel_temperature=rel, nbranch=nb).choose_fn
        how = "RandomGreedy.choose_fn"
    else:
        def choose(q, r):
            return path_random.thermal_chooser(q, r, nbranch=nb, temperature=T, rel_temperature=rel)

        how = "thermal_chooser"
    what = f"{how} nbranch={nb} temperature={T} rel_temperature={rel} costs {[c[0][0] for c in live]} (and {n - len(live)} obsolete)"
    mon.describe(how=how, nbranch=nb, temperature=T, rel=rel, costs=[c[0] for c in live])
    top = live[:nb]
    reps = 250 if len(top) > 1 else 3
    count = {}
    state = random.getstate()
    random.seed(rng.randrange(2 ** 31))
    try:
        for _ in range(reps):
            q = list(cands)
            heapq.heapify(q)
            r = choose(q, remaining)
            if not live:
                if r is not None:
                    raise Violation(f"{what}: chose {r}")
                continue
            if r is None or r not in top:
                raise Violation(f"{what}: chose {r}, not of the {nb} best")
            left = sorted(c for c in q if c[1] in remaining and c[2] in remaining)
            if left != [c for c in live if c != r]:
                raise Violation(f"{what}: choosing {r[0]} leaves {[c[0] for c in left]}")
            if any(q[i] < q[(i - 1) // 2] for i in range(1, len(q))):
                raise Violation(f"{what}: what is left is not a heap")
            count[r] = count.get(r, 0) + 1
    finally:
        random.setstate(state)
    if len(top) > 1:
        c0 = top[0][0][0]
        t = T * (max(1, abs(c0)) if rel else 1)
        w = [(1.0 if c[0][0] == c0 else 0.0) if t == 0 else math.exp(-(c[0][0] - c0) / t) for c in top]
        for c, x in zip(top, w):
            p = x / sum(w)
            if abs(count.get(c, 0) - reps * p) > 6 * math.sqrt(reps * p * (1 - p)) + (3 if p > 1e-9 else 0):
                raise Violation(f"{what}: cost {c[0][0]} was chosen {count.get(c, 0)} times of {reps}, expected {reps * p:.1f}")
        mon.ev("frequencies", len(top))
    mon.ev("random choices", reps)
    mon.sig("thermal", tuple(c[0] for c in live), T, rel, nb, how)


def general(rng, nmax):
    con = gen.contraction(rng, 2, nmax, budget=None, sizes=(1, 2, 3, 5, 8), maxlabels=20)
    terms = [frozenset(f"{c}" for c in t) for t in con.terms]
    return con, terms, frozenset(f"{c}" for c in con.output), {f"{c}": con.sizes[c] for c in con.labels}


def fam_one(rng, mon):
    """One branch: the pair of the lowest cost among those sharing an index."""
    con, terms, output, sizes = general(rng, 8)
    name = rng.choice(("memory-removed", "memory-removed") + tuple(COSTS))
    what = f"BranchBound(nbranch=1, cutoff_flops_factor=None) {[sorted(t) for t in terms]}->{sorted(output)} {sizes} by {name}"
    mon.describe(terms=[sorted(t) for t in terms], out=sorted(output), sizes=sizes, cost=name)
    w = Watched(name, sizes, output, what)
    opt = oe.BranchBound(nbranch=1, cutoff_flops_factor=None, minimize=rng.choice(("flops", "size")), cost_fn=name if name == "memory-removed" and rng.random() < 0.5 else plain(rng, w, mon))
    path = [tuple(p) for p in opt(list(terms), output, sizes)]
    w.judge()
    st = State(terms, output, sizes, COSTS[name])
    for step, con_ in enumerate(path):
        a, b = sorted(con_)
        pairs = list(itertools.combinations(range(len(st.t)), 2))
        share = [(x, y) for x, y in pairs if st.t[x][0] & st.t[y][0]]
        best = min(st.price(x, y) for x, y in (share or pairs))
        if share and (a, b) not in share:
            raise Violation(f"{what}: step {step} of {path} is an outer product although terms share an index")
        if st.price(a, b) > best:
            raise Violation(f"{what}: step {step} of {path} costs {st.price(a, b)}, a pair of cost {best} was there")
        st.merge(a, b)
        mon.ev("choices by cost")
    mon.sig("one", con.key(), name)


def restricted(terms, output, sizes, key, limit=None):
    """The best (by ``key`` of flops, size) of the orders that form outer products only when no two terms share an index.

    With a limit, of those all of whose results fit; None if there is none."""
    best = [None]

    def go(cur, flops, size):
        if best[0] is not None and key(flops, size) >= best[0]:
            return
        if len(cur) == 1:
            best[0] = key(flops, size)
            return
        pairs = list(itertools.combinations(range(len(cur)), 2))
        share = [p for p in pairs if cur[p[0]] & cur[p[1]]]
        for a, b in share or pairs:
            rest = [k for i, k in enumerate(cur) if i not in (a, b)]
            u = cur[a] | cur[b]
            k = frozenset(u & output.union(*rest))
            if limit is not None and prod(k, sizes) > limit:
                continue
            f = prod(u, sizes) * (2 if u - k else 1)
            go(rest + [k], flops + f, max(size, prod(k, sizes)))

    go(list(terms), 0, 0)
    return best[0]


def fam_all(rng, mon):
    """All branches without cutoff: the best order that forms outer products only when it has to."""
    con, terms, output, sizes = general(rng, 5 if rng.random() < 0.7 else 6)
    minimize = rng.choice(("flops", "flops", "size"))
    what = f"BranchBound(cutoff_flops_factor=None, minimize={minimize!r}) {[sorted(t) for t in terms]}->{sorted(output)} {sizes}"
    mon.describe(terms=[sorted(t) for t in terms], out=sorted(output), sizes=sizes, minimize=minimize)
    opt = oe.BranchBound(nbranch=None, cutoff_flops_factor=None, minimize=minimize)
    limit = None
    if minimize == "flops" and rng.random() < 0.4:
        limit = rng.choice((max(prod(t, sizes) for t in terms), prod(output, sizes), rng.choice((8, 30, 100, 1000))))
        what += f" limit {limit}"
    path = [tuple(p) for p in opt(list(terms), output, sizes, limit)]
    cur, flops, size = list(terms), 0, 0
    for p in path:
        u = frozenset().union(*[cur[i] for i in p])
        rest = [k for i, k in enumerate(cur) if i not in p]
        k = frozenset(u & output.union(*rest))
        flops += prod(u, sizes) * (2 if u - k else 1)
        size = max(size, prod(k, sizes))
        cur = rest + [k]
    key = (lambda f, s: (f, s)) if minimize == "flops" else (lambda f, s: (s, f))
    best = restricted(terms, output, sizes, key, limit)
    if limit is not None:
        mon.ev("exhaustive branching with a limit" if best else "no order fits the limit")
    if best and (key(flops, size) > best if limit is None else flops > best[0]):
        raise Violation(f"{what}: path {path} achieves {key(flops, size)}, there is one of {best}")
    mon.ev("exhaustive branching")
    mon.sig("all", con.key(), minimize)


FAMILIES = [
    Family("greedy", fam_greedy, 24000, 300000),
    Family("zero", fam_zero, 8000, 80000),
    Family("choose", fam_choose, 8000, 80000),
    Family("offers", fam_offers, 12000, 120000),
    Family("thermal", fam_thermal, 8000, 80000),
    Family("one", fam_one, 15000, 150000),
    Family("all", fam_all, 8000, 80000, cpu=60),
]
