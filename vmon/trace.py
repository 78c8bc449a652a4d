"""Offline checks over the log of a recording backend."""
from vrec_base import REC

from .core import Violation


def wrap(mod, arrays, prefix="x"):
    """Recording arrays with one leaf each."""
    return [mod.Arr(a, [f"{prefix}{i}"]) for i, a in enumerate(arrays)]


class TStep:
    __slots__ = ("parts", "ins", "out", "ops", "op")

    def __repr__(self):
        return f"<{'+'.join(e.op for e in self.ops)} {[sorted(p) for p in self.parts]}>"


def steps(log):
    """Group the log into steps: an einsum, or a tensordot with the transpose of its result."""
    out = []
    for e in log:
        if e.op == "transpose" and out and out[-1].op == "tensordot" and e.ins[0] is out[-1].out:
            out[-1].ops.append(e)
            out[-1].out = e.out
            continue
        s = TStep()
        s.ins, s.out, s.ops, s.op = e.ins, e.out, [e], e.op
        s.parts = [i.leaves for i in e.ins]
        out.append(s)
    return out


def leafnames(parts, prefix="x"):
    return sorted(tuple(sorted(f"{prefix}{i}" for i in p)) for p in parts)


def match_path(tsteps, rsteps, what, prefix="x", sizes=True):
    """The executed steps are those of the replayed path, in order."""
    if len(tsteps) != len(rsteps):
        raise Violation(f"{what}: {len(tsteps)} steps were executed instead of {len(rsteps)}: {tsteps}")
    for k, (t, r) in enumerate(zip(tsteps, rsteps)):
        got = sorted(tuple(sorted(p)) for p in t.parts)
        want = leafnames(r.parts, prefix)
        if got != want:
            raise Violation(f"{what}: step {k} combined {got} instead of {want}")
        if sizes and t.out.size != r.size:
            raise Violation(f"{what}: step {k} built {t.out.size} elements instead of {r.size}")


def fresh():
    REC.reset()
    return REC


def by_union(steps):
    """Steps by the leaves they combine; constants are contracted first, so that the order differs between but not within these."""
    out = {}
    for s in steps:
        out.setdefault(frozenset().union(*s.parts), []).append(s)
    return out


def in_path_order(tsteps, rsteps, what, prefix="x"):
    """The executed steps, put into the order of the path; the ways through constants execute them in another one."""
    have = by_union(tsteps)
    out = []
    for r in rsteps:
        k = frozenset(f"{prefix}{i}" for p in r.parts for i in p)
        if not have.get(k):
            raise Violation(f"{what}: no step combined {sorted(k)}: {tsteps}")
        out.append(have[k].pop(0))
    if any(have.values()):
        raise Violation(f"{what}: {len(tsteps)} steps were executed instead of {len(rsteps)}: {tsteps}")
    return out
