"""Random equations over a fixed pool of arrays (axes of size 2 or 3), for histories on shared operands."""
import itertools

import numpy as np

from . import gen, oracle

BY_SIZE = {2: "abcdABCD", 3: "wxyzWXYZ", 1: "uvUV"}


class Pool:
    flips = True

    def __init__(self, rng, k=5, dtype="int64", sizes=(2, 2, 3), maxrank=3, m=2):
        self.rng, self.dtype, self.sizes, self.maxrank, self.m = rng, dtype, sizes, maxrank, m
        self.g = gen.nprng(rng)
        self.arrays = []
        for _ in range(k):
            self.arrays.append(self.new())

    def new(self, shape=None):
        if shape is None:
            shape = tuple(self.rng.choice(self.sizes) for _ in range(self.rng.choice((0, 1, 2, 2, 2, 3, 3)[: self.maxrank + 4])))
        if self.rng.random() < 0.2:
            v = self.view(shape)
            if v is not None:
                return v
        return np.asarray(self.g.integers(-self.m, self.m, size=shape, endpoint=True)).astype(self.dtype)

    def view(self, shape):
        """Another array of that shape in the memory of one of the pool: transposed, reversed, or just another object."""
        shape = tuple(shape)
        cands = [a for a in getattr(self, "arrays", ()) if isinstance(a, np.ndarray) and sorted(a.shape) == sorted(shape)]
        if not cands:
            return None
        a = self.rng.choice(cands)
        perms = [p for p in itertools.permutations(range(a.ndim)) if tuple(a.shape[k] for k in p) == shape]
        v = a.transpose(self.rng.choice(perms))
        if not shape:
            return v
        return v[tuple(slice(None, None, -1) if self.flips and self.rng.random() < 0.3 else slice(None) for _ in shape)]

    def replace(self, i=None, same_shape=True):
        """Drop an array and allocate another one, likely at the same address."""
        i = self.rng.randrange(len(self.arrays)) if i is None else i
        shape = self.arrays[i].shape if same_shape else None
        self.arrays[i] = None
        self.arrays[i] = self.new(shape)
        return i

    def equation(self, nmax=4, diag=True, which=None, shapes=None):
        """(positions, terms, output) of a random contraction of arrays of the pool; few labels, so equations recur."""
        rng = self.rng
        pos = which or [rng.randrange(len(self.arrays)) for _ in range(rng.randint(1, nmax))]
        nlab = rng.randint(1, 4)
        terms = []
        for p in pos:
            t = []
            for d in (shapes[p] if shapes else self.arrays[p].shape):
                labs = BY_SIZE[d][:nlab]
                c = rng.choice(labs)
                if not diag:
                    labs = [x for x in BY_SIZE[d] if x not in t]
                    c = rng.choice(labs[:nlab] or labs)
                t.append(c)
            terms.append("".join(t))
        labels = sorted(set("".join(terms)))
        out = rng.sample(labels, rng.randint(0, min(3, len(labels))))
        return pos, terms, "".join(out)

    def value(self, terms, output, arrays):
        return oracle.einsum([tuple(t) for t in terms], tuple(output), arrays)


def rename(rng, terms, output):
    """The same equation with other labels."""
    labels = sorted(set("".join(terms)))
    pool = list(gen.LETTERS) + (gen.EXOTIC if rng.random() < 0.2 else [])
    m = dict(zip(labels, rng.sample(pool, len(labels))))
    return ["".join(m[c] for c in t) for t in terms], "".join(m[c] for c in output)
