"""Random contractions: structure, sizes, symbols, operands.  Independent of opt_einsum."""
import string

import numpy as np

LETTERS = string.ascii_lowercase + string.ascii_uppercase
# symbols outside of NumPy's alphabet: latin, greek, cyrillic, CJK, astral
ASCII = list("abcdxyzABZ0123456789_@#$&*+/:;!?|~^=")
EXOTIC = [chr(c) for c in range(0xC0, 0x250)] + [chr(c) for c in range(0x391, 0x3C9) if c != 0x3A2] + [
    chr(c) for c in range(0x430, 0x450)] + [chr(c) for c in range(0x4E00, 0x4E80)] + [chr(c) for c in range(0x1F300, 0x1F340)]


class Con:
    """terms: tuple of tuples of int labels; output: tuple of labels; sizes: label -> size;
    ones: set of (term, position) whose dimension is 1 although the label's size is larger (broadcast)."""

    def __init__(self, terms, output, sizes, ones=()):
        self.terms = tuple(tuple(t) for t in terms)
        self.output = tuple(output)
        self.sizes = dict(sizes)
        self.ones = frozenset(ones)

    @property
    def n(self):
        return len(self.terms)

    @property
    def labels(self):
        seen = []
        for t in self.terms:
            for c in t:
                if c not in seen:
                    seen.append(c)
        return seen

    def shapes(self):
        return [tuple(1 if (i, j) in self.ones else self.sizes[c] for j, c in enumerate(t)) for i, t in enumerate(self.terms)]

    def out_shape(self):
        """Sizes of the output, taking broadcasting into account."""
        return tuple(self.eff_sizes()[c] for c in self.output)

    def eff_sizes(self):
        eff = {}
        for t, s in zip(self.terms, self.shapes()):
            for c, d in zip(t, s):
                if eff.get(c, 1) == 1:
                    eff[c] = d
        return eff

    def prod(self):
        p = 1
        for c in self.labels:
            p *= self.sizes[c]
        return p

    def eq(self, sym, output=True):
        s = ",".join("".join(sym[c] for c in t) for t in self.terms)
        return s + "->" + "".join(sym[c] for c in self.output) if output else s

    def implicit_output(self, sym):
        """Labels occurring exactly once, in symbol order."""
        cnt = {}
        for t in self.terms:
            for c in t:
                cnt[c] = cnt.get(c, 0) + 1
        return tuple(sorted((c for c in cnt if cnt[c] == 1), key=lambda c: sym[c]))

    def with_output(self, out):
        return Con(self.terms, out, self.sizes, self.ones)

    def permuted(self, perm):
        inv = {p: k for k, p in enumerate(perm)}
        return Con([self.terms[p] for p in perm], self.output, self.sizes, {(inv[i], j) for i, j in self.ones})

    def features(self):
        cnt = {}
        for t in self.terms:
            for c in set(t):
                cnt[c] = cnt.get(c, 0) + 1
        out = set(self.output)
        f = []
        if any(v > 2 for v in cnt.values()):
            f.append("hyper")
        if any(len(set(t)) < len(t) for t in self.terms):
            f.append("diag")
        if any(not t for t in self.terms):
            f.append("scalar")
        if any(v == 1 and c not in out for c, v in cnt.items()):
            f.append("sum1")
        if any(v > 1 and c in out for c, v in cnt.items()):
            f.append("batch")
        if len({frozenset(t) for t in self.terms}) < len(self.terms):
            f.append("dup")
        if self.ones:
            f.append("bcast")
        if any(self.sizes[c] == 0 for c in self.labels):
            f.append("zero")
        if any(self.sizes[c] == 1 for c in self.labels):
            f.append("size1")
        if not self.output:
            f.append("full")
        if components(self) > 1:
            f.append("disc")
        return tuple(f)

    def key(self):
        """Canonical signature of structure and sizes."""
        m = {}
        for t in self.terms:
            for c in t:
                m.setdefault(c, len(m))
        return (tuple(tuple(m[c] for c in t) for t in self.terms), tuple(m[c] for c in self.output),
                tuple(self.sizes[c] for c in m), tuple(sorted(self.ones)))

    def describe(self):
        sym = dict(zip(self.labels, LETTERS)) if len(self.labels) <= 52 else {c: f"[{c}]" for c in self.labels}
        return {"eq": self.eq(sym), "shapes": self.shapes()}


def components(con):
    n = con.n
    par = list(range(n))

    def find(x):
        while par[x] != x:
            x = par[x]
        return x

    where = {}
    for i, t in enumerate(con.terms):
        for c in t:
            if c in where:
                par[find(i)] = find(where[c])
            else:
                where[c] = i
    return len({find(i) for i in range(n)})


PROFILES = ("net", "net", "hyper", "hyper", "mixed", "mixed", "chain", "ring", "star", "tree", "outer", "dupes", "batch", "grid")


UNUSUAL = 0.05


def contraction(rng, nmin=1, nmax=6, budget=20000, profile=None, diag=0.15, scalar=0.08, sum1=0.2, bcast=0.0, zero=0.0,
                sizes=(1, 2, 2, 3, 3, 4, 5), maxrank=6, out=None, maxlabels=40, n=None, unusual=UNUSUAL):
    """Draw a contraction.  ``budget`` bounds the product of all index sizes (None: unbounded).

    Of those to be executed a few are of unusual extent: many operands, operands of many dimensions, or a long dimension."""
    extent = None
    if budget is not None and n is None and profile is None and rng.random() < unusual:
        extent = rng.choice(("crowd", "wide", "long") if maxrank >= 6 else ("crowd", "long"))
        if extent == "crowd":
            n, maxlabels, sizes = rng.randint(12, 24), rng.randint(3, 12), (1, 2, 2)
        elif extent == "wide":
            nmax, maxrank, sizes, profile = min(nmax, 3), 14, (1, 2, 2), "wide"
    n = n or rng.randint(min(nmin, nmax), nmax)
    profile = profile or rng.choice(PROFILES)
    terms = [[] for _ in range(n)]
    lab = iter(range(10 ** 6))

    def put(c, *ts):
        for t in ts:
            if len(terms[t]) < maxrank:
                terms[t].append(c)

    if profile == "chain":
        for i in range(n - 1):
            put(next(lab), i, i + 1)
        for e in (0, n - 1):
            if rng.random() < 0.7:
                put(next(lab), e)
    elif profile == "ring":
        for i in range(n):
            if n > 1:
                put(next(lab), *{i, (i + 1) % n})
    elif profile == "star":
        for i in range(1, n):
            put(next(lab), 0, i)
            if rng.random() < 0.4:
                put(next(lab), i)
    elif profile == "tree":
        for i in range(1, n):
            put(next(lab), rng.randrange(i), i)
        for i in range(n):
            if rng.random() < 0.3:
                put(next(lab), i)
    elif profile == "grid":
        w = max(1, int(n ** 0.5))
        for i in range(n):
            if i % w != w - 1 and i + 1 < n:
                put(next(lab), i, i + 1)
            if i + w < n:
                put(next(lab), i, i + w)
    elif profile == "outer":
        for i in range(n):
            for _ in range(rng.randint(0, 2)):
                put(next(lab), i)
        if n > 1 and rng.random() < 0.5:
            put(next(lab), *rng.sample(range(n), 2))
    elif profile == "dupes":
        base = [next(lab) for _ in range(rng.randint(1, 4))]
        for i in range(n):
            k = rng.randint(0, len(base)) if rng.random() < 0.4 else len(base)
            put_ = rng.sample(base, k)
            for c in put_:
                put(c, i)
    elif profile == "wide":
        base = [next(lab) for _ in range(rng.randint(7, 14))]
        for i in range(n):
            for c in rng.sample(base, rng.randint(0 if i else 5, min(len(base), 12))):
                put(c, i)
    elif profile == "batch":
        for _ in range(rng.randint(1, 2)):
            c = next(lab)
            for i in range(n):
                if rng.random() < 0.9:
                    put(c, i)
        for _ in range(rng.randint(0, n)):
            if n > 1:
                put(next(lab), *rng.sample(range(n), 2))
    else:
        k = rng.randint(1, max(2, 2 * n))
        for _ in range(k):
            c = next(lab)
            if profile == "net":
                m = rng.choice((1, 2, 2, 2, 2))
            elif profile == "hyper":
                m = rng.randint(1, n)
            else:
                m = rng.choice((1, 1, 2, 2, 2, 3, rng.randint(1, n)))
            put(c, *rng.sample(range(n), min(n, m)))
    for i in range(n):
        if scalar and rng.random() < scalar:
            terms[i] = []
        if diag and rng.random() < diag and terms[i] and len(terms[i]) < maxrank:
            terms[i].insert(rng.randint(0, len(terms[i])), rng.choice(terms[i]))
        if rng.random() < 0.8:
            rng.shuffle(terms[i])
    labels = sorted({c for t in terms for c in t})
    if len(labels) > maxlabels:
        drop = set(rng.sample(labels, len(labels) - maxlabels))
        terms = [[c for c in t if c not in drop] for t in terms]
        labels = [c for c in labels if c not in drop]
    sz = {c: rng.choice(sizes) for c in labels}
    if budget is not None:
        p = 1
        for c in rng.sample(labels, len(labels)):
            while p * sz[c] > budget and sz[c] > 1:
                sz[c] -= 1
            p *= sz[c]
        if extent == "long" and labels:
            c = rng.choice(labels)
            big = [d for d in (9, 17, 33, 65, 130, 257, 1030) if p // sz[c] * d <= max(budget, 2000)]
            sz[c] = rng.choice(big or [sz[c]])
    cnt = {c: sum(c in t for t in terms) for c in labels}
    if out is None:
        mode = rng.random()
        if mode < 0.25:
            o = []
        elif mode < 0.6:
            o = [c for c in labels if cnt[c] == 1 and rng.random() > sum1]
        elif mode < 0.9:
            o = [c for c in labels if rng.random() < (0.3 if cnt[c] > 1 else 1 - sum1)]
        else:
            o = list(labels)
    else:
        o = out(rng, labels, cnt)
    o = o[:20]
    rng.shuffle(o)
    ones = set()
    if bcast and rng.random() < bcast:
        for i, t in enumerate(terms):
            for j, c in enumerate(t):
                if t.count(c) == 1 and cnt[c] > 1 and sz[c] > 1 and rng.random() < 0.3:
                    ones.add((i, j))
    if zero and labels and rng.random() < zero:
        sz[rng.choice(labels)] = 0
    return Con(terms, o, sz, ones)


def symbols(rng, con, kind=None):
    """label -> single character"""
    kind = kind or rng.choice(("lower", "letters", "letters", "exotic", "mixed", "ascii"))
    labs = con.labels
    if kind == "lower" and len(labs) > 26:
        kind = "letters"
    if kind == "letters" and len(labs) > 52:
        kind = "mixed"
    if kind == "ascii" and len(labs) > len(ASCII):
        kind = "mixed"
    pool = {"ascii": ASCII, "lower": list(LETTERS[:26]), "letters": list(LETTERS), "exotic": EXOTIC, "mixed": list(LETTERS) + EXOTIC}[kind]
    return dict(zip(labs, rng.sample(pool, len(labs))))


def nprng(rng):
    return np.random.default_rng(rng.getrandbits(64))


DT_EXACT = {"float64": 2 ** 53, "float32": 2 ** 24, "complex128": 2 ** 51, "complex64": 2 ** 22, "int32": 2 ** 31 - 1,
            "float16": 2 ** 11, "longdouble": 2 ** 53, "clongdouble": 2 ** 51}
WRAPPING = ("int8", "uint8", "int16", "uint16", "uint32", "uint64")  # exact modulo a power of two


def magnitude(con, dtype):
    """Largest m such that every partial sum of products of entries |x| <= m is exact; 0 if there is none."""
    lim = DT_EXACT[dtype]
    p = max(1, con.prod())
    best = 0
    for m in (1, 2, 3, 5, 9):
        mm = m if dtype[0] != "c" else 2 * m
        if p * mm ** con.n < lim:
            best = m
    return best


def values(rng, con, dtype="int64", nprng_=None):
    """Contiguous arrays with random, exactly representable values."""
    g = nprng_ or nprng(rng)
    arrs = []
    if dtype == "int64":
        for s in con.shapes():
            arrs.append(g.integers(-(2 ** 63), 2 ** 63 - 1, size=s, dtype=np.int64, endpoint=True))
        return arrs
    if dtype in WRAPPING:
        i = np.iinfo(dtype)
        return [g.integers(i.min, i.max, size=s, dtype=dtype, endpoint=True) for s in con.shapes()]
    m = magnitude(con, dtype)
    if m == 0:
        return None
    for s in con.shapes():
        x = g.integers(-m, m, size=s, endpoint=True)
        if dtype[0] == "c":
            x = x + 1j * g.integers(-m, m, size=s, endpoint=True)
        arrs.append(np.asarray(x).astype(dtype))
    return arrs


LAYOUTS = ("C", "F", "T", "neg", "gap", "ro", "off", "bro")


def relayout(rng, x, kind=None):
    """An array equal to x with a different memory layout."""
    kind = kind or rng.choice(LAYOUTS)
    if kind == "C" or (x.ndim == 0 and kind not in ("ro",)):
        return np.ascontiguousarray(x).reshape(x.shape)
    if kind == "F":
        return np.asfortranarray(x)
    if kind == "T":
        p = list(range(x.ndim))
        rng.shuffle(p)
        inv = np.argsort(p)
        return np.ascontiguousarray(x.transpose(p)).transpose(inv)
    if kind == "neg":
        ax = rng.randrange(x.ndim)
        return np.flip(np.ascontiguousarray(np.flip(x, ax)), ax)
    if kind == "gap":
        ax = rng.randrange(x.ndim)
        sh = list(x.shape)
        sh[ax] = sh[ax] * 2 + 1
        buf = np.zeros(sh, x.dtype)
        sl = [slice(None)] * x.ndim
        sl[ax] = slice(1, 1 + 2 * x.shape[ax], 2)
        buf[tuple(sl)] = x
        return buf[tuple(sl)]
    if kind == "off":
        buf = np.empty(x.size + 3, x.dtype)
        buf[3:] = x.reshape(-1)
        return buf[3:].reshape(x.shape)
    if kind == "bro":
        if x.size == 0:
            return x
        ax = rng.randrange(x.ndim)
        first = np.take(x, [0], axis=ax)
        y = np.broadcast_to(first, x.shape)
        if np.array_equal(y, x):
            return y
        return np.ascontiguousarray(x)
    if kind == "ro":
        y = np.array(x, copy=True)
        y.flags.writeable = False
        return y
    raise AssertionError(kind)


def random_path(rng, n, kind=None):
    """A random valid path in position numbering."""
    kind = kind or rng.choice(("pair", "pair", "nary", "single"))
    path, k = [], n
    if n == 1:
        return [(0,)]
    while k > 1:
        if kind == "pair":
            m = 2
        elif kind == "nary":
            m = rng.randint(2, min(k, 4))
        else:
            m = rng.choice((1, 2, 2, 3)) if k > 2 else rng.choice((1, 2, 2))
            m = min(m, k)
        pos = rng.sample(range(k), m)
        path.append(tuple(pos))
        k -= m - 1
        if len(path) > 4 * n:
            kind = "pair"
    return path
