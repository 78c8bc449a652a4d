"""Independent reference semantics.

einsum values come from variable elimination with plain broadcasting multiplication and sums (neither
numpy.einsum nor tensordot); costs, sizes and optima come from replaying or enumerating merges of index sets.
"""
import itertools

import numpy as np


def _align(labels, arr, target):
    """Reshape/transposes ``arr`` (axes ``labels``, distinct) so that its axes follow ``target``."""
    order = sorted(range(len(labels)), key=lambda k: target.index(labels[k]))
    arr = arr.transpose(order) if order else arr
    it = iter(arr.shape)
    have = set(labels)
    return arr.reshape([next(it) if c in have else 1 for c in target])


def _diagonal(labels, arr):
    """Collapse repeated labels of one term."""
    labels = list(labels)
    while len(set(labels)) < len(labels):
        c = next(c for c in labels if labels.count(c) > 1)
        i = labels.index(c)
        j = labels.index(c, i + 1)
        arr = np.diagonal(arr, axis1=i, axis2=j)
        del labels[j], labels[i]
        labels.append(c)
    return labels, arr


def boxed(r):
    """An array, also of a single object."""
    if not isinstance(r, (np.ndarray, np.generic)):
        box = np.empty((), dtype=object)
        box[()] = r
        return box
    return np.asarray(r)


def einsum(terms, output, arrays, work=None):
    """The value of the contraction.  int64 arithmetic wraps (exact modulo 2**64)."""
    ts = []
    for t, a in zip(terms, arrays):
        a = np.asarray(a)
        if work is not None:
            a = a.astype(work)
        ts.append(_diagonal(t, a))
    inner = {c for ls, _ in ts for c in ls} - set(output)

    def combined(c):
        labs = []
        for ls, _ in ts:
            if c in ls:
                for d in ls:
                    if d not in labs:
                        labs.append(d)
        return labs

    dims = {}
    for ls, a in ts:
        for c, d in zip(ls, a.shape):
            if dims.get(c, 1) == 1:
                dims[c] = d

    def cost(c):
        p = 1
        for d in combined(c):
            p *= max(1, dims[d])
        return p

    def multiply(group, labs):
        r = None
        for ls, a in group:
            x = _align(ls, a, labs)
            r = x if r is None else r * x
        return r

    while inner:
        c = min(sorted(inner), key=cost)
        inner.discard(c)
        labs = combined(c)
        group = [t for t in ts if c in t[0]]
        ts = [t for t in ts if c not in t[0]]
        r = multiply(group, labs)
        r = r.sum(axis=labs.index(c), dtype=r.dtype)
        ts.append(([d for d in labs if d != c], boxed(r)))
    labs = list(output)
    return boxed(multiply(ts, labs))


def of(con, arrays, work=None):
    return einsum(con.terms, con.output, arrays, work)


def same(a, b):
    """Exact equality of value and shape."""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


# ---------------------------------------------------------------- paths


def size(labels, sizes):
    p = 1
    for c in labels:
        p *= sizes[c]
    return p


class BadPath(Exception):
    pass


def check_path(path, n, pairwise=False, single_ok=True):
    """Raise BadPath unless ``path`` is a complete valid path for n terms in position numbering."""
    if not isinstance(path, (list, tuple)):
        raise BadPath(f"not a list: {path!r}")
    k = n
    for num, step in enumerate(path):
        if not isinstance(step, (tuple, list)):
            raise BadPath(f"step {num} is not a tuple: {step!r}")
        st = [int(x) for x in step]
        if len(st) == 0 or len(set(st)) != len(st):
            raise BadPath(f"step {num} is empty or repeats a position: {step!r}")
        if any(x != y or isinstance(y, bool) for x, y in zip(st, step)):
            raise BadPath(f"step {num} has non-integer positions: {step!r}")
        if min(st) < 0 or max(st) >= k:
            raise BadPath(f"step {num} {step!r} is out of range for {k} terms")
        if pairwise and len(st) > 2:
            raise BadPath(f"step {num} {step!r} combines more than two terms")
        k -= len(st) - 1
    if k != 1:
        raise BadPath(f"{k} terms are left")
    if n > 1 and not path:
        raise BadPath("empty path")


class Step:
    __slots__ = ("pos", "terms", "union", "result", "removed", "flops", "size", "leaves", "parts", "final")


def replay(terms, output, sizes, path):
    """Replay a path on index sets.  Cost of a step: product of the sizes of all indices involved times
    max(1, terms - 1), plus once more if any index is summed."""
    ts = [frozenset(t) for t in terms]
    lv = [frozenset([i]) for i in range(len(ts))]
    out = frozenset(output)
    steps = []
    for num, pos in enumerate(path):
        s = Step()
        s.pos = tuple(sorted(pos, reverse=True))
        s.terms = [ts.pop(p) for p in s.pos]
        s.parts = [lv.pop(p) for p in s.pos]
        s.union = frozenset().union(*s.terms)
        keep = out.union(*ts)
        s.result = s.union & keep
        s.removed = s.union - s.result
        s.flops = size(s.union, sizes) * (max(1, len(s.pos) - 1) + (1 if s.removed else 0))
        s.size = size(s.result, sizes)
        s.leaves = frozenset().union(*s.parts)
        s.final = num == len(path) - 1
        ts.append(s.result)
        lv.append(s.leaves)
        steps.append(s)
    return steps


def total_flops(steps):
    return sum(s.flops for s in steps)


def subset_legs(terms, output):
    """legs[S] = indices of the result of contracting the operands in bitmask S (singletons: all of their indices)."""
    n = len(terms)
    ts = [frozenset(t) for t in terms]
    full = (1 << n) - 1
    ins = [frozenset()] * (full + 1)
    for s in range(1, full + 1):
        low = s & -s
        ins[s] = ins[s ^ low] | ts[low.bit_length() - 1]
    out = frozenset(output)
    legs = [None] * (full + 1)
    for s in range(1, full + 1):
        legs[s] = ins[s] & (out | ins[full ^ s]) if s & (s - 1) else ins[s]
    return legs


def best_pairwise(terms, output, sizes, limit=None):
    """Minimum total flops over all orders of pairwise contractions whose results (the final one included)
    have at most ``limit`` elements; None if there is none."""
    n = len(terms)
    if n == 1:
        return replay(terms, output, sizes, [(0,)])[0].flops
    legs = subset_legs(terms, output)
    full = (1 << n) - 1
    best = {1 << i: 0 for i in range(n)}
    for s in range(3, full + 1):
        if s in best or not s & (s - 1):
            continue
        if limit is not None and size(legs[s], sizes) > limit:
            continue
        b = None
        t = (s - 1) & s
        while t:
            u = s ^ t
            if t < u and t in best and u in best:
                un = legs[t] | legs[u]
                c = best[t] + best[u] + size(un, sizes) * (2 if un - legs[s] else 1)
                if b is None or c < b:
                    b = c
            t = (t - 1) & s
        if b is not None:
            best[s] = b
    return best.get(full)


def summed_components(terms, output):
    """Partition of the operands into parts connected by summed indices; and the operands' indices without
    those that occur on one operand only and are not in the output."""
    cnt = {}
    for t in terms:
        for c in set(t):
            cnt[c] = cnt.get(c, 0) + 1
    out = set(output)
    red = [frozenset(c for c in t if cnt[c] > 1 or c in out) for t in terms]
    n = len(terms)
    par = list(range(n))

    def find(x):
        while par[x] != x:
            par[x] = par[par[x]]
            x = par[x]
        return x

    where = {}
    for i, t in enumerate(red):
        for c in t - out:
            if c in where:
                par[find(i)] = find(where[c])
            else:
                where[c] = i
    comps = {}
    for i in range(n):
        comps.setdefault(find(i), []).append(i)
    return list(comps.values()), red


def dp_step_cost(kind, factor, union_size, res_size):
    if kind == "flops":
        return union_size
    if kind in ("size", "write"):
        return res_size
    if kind == "combo":
        return union_size + factor * res_size
    if kind == "limit":
        return max(union_size, factor * res_size)
    # custom local costs
    if kind == "square":
        return res_size ** 2 + union_size
    if kind == "peak":
        return union_size
    if kind == "tiny":
        return union_size * 1e-9
    if kind == "steps":
        return -res_size + 10 ** 9
    raise AssertionError(kind)


def dp_best(terms, output, sizes, kind, factor=64, outer=False, limit=None):
    """Optimum of the objective over the orders of pairwise contraction of these (connected) operands.
    Outer products (no common summed index) are excluded unless ``outer``.  None if no order fits."""
    n = len(terms)
    legs = subset_legs(terms, output)
    out = frozenset(output)
    full = (1 << n) - 1
    best = {1 << i: 0 for i in range(n)}
    if n == 1:
        return 0
    for s in range(3, full + 1):
        if not s & (s - 1):
            continue
        res = size(legs[s], sizes)
        if limit is not None and res > limit:
            continue
        b = None
        t = (s - 1) & s
        while t:
            u = s ^ t
            if t < u and t in best and u in best and (outer or (legs[t] & legs[u]) - out):
                sc = dp_step_cost(kind, factor, size(legs[t] | legs[u], sizes), res)
                c = max(best[t], best[u], sc) if kind in ("size", "peak") else best[t] + best[u] + sc
                if b is None or c < b:
                    b = c
            t = (t - 1) & s
        if b is not None:
            best[s] = b
    return best.get(full)


def naive_cost(terms, sizes):
    labels = {c for t in terms for c in t}
    inner = sum(len(set(t)) for t in terms) > len(labels)
    return size(labels, sizes) * (max(1, len(terms) - 1) + (1 if inner else 0))


def all_pair_paths(n):
    """Every path of pairwise contractions in position numbering."""
    if n == 1:
        yield []
        return
    for i, j in itertools.combinations(range(n), 2):
        for rest in all_pair_paths(n - 1):
            yield [(i, j)] + rest
