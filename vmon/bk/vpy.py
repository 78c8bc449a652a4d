"""A complete array library in pure Python: exact integers in flat lists."""
import itertools


class Arr:
    def __init__(self, shape, data):
        self.shape, self.data = tuple(shape), list(data)
        n = 1
        for d in self.shape:
            n *= d
        if n != len(self.data):
            raise ValueError("shape and data do not match")

    @property
    def ndim(self):
        return len(self.shape)

    def get(self, idx):
        k = 0
        for i, d in zip(idx, self.shape):
            k = k * d + (i if d != 1 else 0)
        return self.data[k]


def _cells(shape):
    return itertools.product(*[range(d) for d in shape])


def transpose(x, axes):
    if sorted(axes) != list(range(x.ndim)):
        raise ValueError(f"axes {axes} for {x.ndim} dimensions")
    shape = tuple(x.shape[a] for a in axes)
    out = []
    for idx in _cells(shape):
        src = [0] * x.ndim
        for a, i in zip(axes, idx):
            src[a] = i
        out.append(x.get(src))
    return type(x)(shape, out)


def tensordot(x, y, axes=2):
    if isinstance(axes, int):
        ax, ay = list(range(x.ndim - axes, x.ndim)), list(range(axes))
    else:
        ax, ay = [list(a) for a in axes]
    if [x.shape[a] for a in ax] != [y.shape[a] for a in ay]:
        raise ValueError("shape mismatch in tensordot")
    fx = [a for a in range(x.ndim) if a not in ax]
    fy = [a for a in range(y.ndim) if a not in ay]
    shape = tuple(x.shape[a] for a in fx) + tuple(y.shape[a] for a in fy)
    inner = list(_cells([x.shape[a] for a in ax]))
    out = []
    for idx in _cells(shape):
        i, j = [0] * x.ndim, [0] * y.ndim
        for a, v in zip(fx, idx):
            i[a] = v
        for a, v in zip(fy, idx[len(fx):]):
            j[a] = v
        s = 0
        for k in inner:
            for a, v in zip(ax, k):
                i[a] = v
            for a, v in zip(ay, k):
                j[a] = v
            s += x.get(i) * y.get(j)
        out.append(s)
    return type(x)(shape, out)


def einsum(eq, *ops):
    lhs, rhs = eq.split("->")
    terms = lhs.split(",")
    if len(terms) != len(ops):
        raise ValueError("number of operands")
    sizes = {}
    for t, x in zip(terms, ops):
        if len(t) != x.ndim:
            raise ValueError("number of indices")
        for c, d in zip(t, x.shape):
            if sizes.get(c, 1) == 1:
                sizes[c] = d
            elif d not in (1, sizes[c]):
                raise ValueError("sizes differ")
    inner = [c for c in sizes if c not in rhs]
    out = []
    for idx in _cells([sizes[c] for c in rhs]):
        v = dict(zip(rhs, idx))
        s = 0
        for k in _cells([sizes[c] for c in inner]):
            v.update(zip(inner, k))
            p = 1
            for t, x in zip(terms, ops):
                p *= x.get([v[c] for c in t])
                if not p:
                    break
            s += p
        out.append(s)
    return type(ops[0])([sizes[c] for c in rhs], out)
