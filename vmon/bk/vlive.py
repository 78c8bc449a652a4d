"""Backend whose arrays are followed by weak references only: which intermediates exist when an operation begins."""
import weakref

import numpy as np


class Live:
    def __init__(self):
        self.reset()

    def reset(self, judge=True, const=frozenset()):
        self.made = []  # weak references to all intermediates, in order
        self.used = {}  # id of the weak reference's record -> step that used it
        self.step = -1
        self.last = None  # weak reference to the result of the last tensordot
        self.bad = []
        self.fault = None
        self.ops = 0
        self.judge, self.const = judge, const
        self.checked = 0


LIVE = Live()


class Arr:
    def __init__(self, data, leaves):
        self.data, self.leaves, self.ref = np.asarray(data), frozenset(leaves), None

    def __setitem__(self, key, other):
        self.data[key] = other.data if isinstance(other, Arr) else other

    shape = property(lambda self: self.data.shape)
    ndim = property(lambda self: self.data.ndim)
    dtype = property(lambda self: self.data.dtype)
    size = property(lambda self: self.data.size)


class Ref:
    """An intermediate, without keeping it alive."""

    def __init__(self, x):
        self.w, self.leaves, self.made, self.used = weakref.ref(x), x.leaves, LIVE.step, None

    def alive(self):
        return self.w() is not None


def begin(op, ins):
    LIVE.ops += 1
    if not (op == "transpose" and LIVE.last is not None and LIVE.last() is ins[0]):
        LIVE.step += 1
    LIVE.last = None
    if LIVE.judge:
        for r in LIVE.made:
            if r.used is not None and r.used <= LIVE.step - 2 and not r.leaves <= LIVE.const:
                LIVE.checked += 1
                if r.alive():
                    LIVE.bad.append(f"the result of step {r.made}, of {sorted(r.leaves)}, used in step {r.used}, still exists in step {LIVE.step}")
    for x in ins:
        if x.ref is not None:
            x.ref.used = LIVE.step
    if LIVE.fault is not None:
        LIVE.fault(LIVE.ops)


def done(op, ins, data):
    out = Arr(data, frozenset().union(*[x.leaves for x in ins]))
    out.ref = Ref(out)
    LIVE.made.append(out.ref)
    if op == "tensordot":
        LIVE.last = out.ref.w
    return out


def tensordot(x, y, axes=2):
    begin("tensordot", (x, y))
    return done("tensordot", (x, y), np.tensordot(x.data, y.data, axes=axes))


def transpose(x, axes):
    begin("transpose", (x,))
    return done("transpose", (x,), np.transpose(x.data, axes))


def einsum(eq, *ops, out=None, **kwargs):
    begin("einsum", ops)
    res = done("einsum", ops, np.einsum(eq, *[x.data for x in ops]))
    if out is not None:
        out[...] = res
        return out
    return res
