"""Cooperative scheduling of real threads: one thread runs at a time, switched at lines (or byte-code instructions)
of the code under test by a seeded policy.  A thread that blocks elsewhere (a lock) loses its turn after a while."""
import gc
import random
import sys
import threading
import time
import types

from . import boot


_ACTIVE = {}  # thread -> (scheduler, number)
_CODES = None
_STATE = {}
_TOOL = 4


def _codes():
    """All code objects of the code under test."""
    global _CODES
    if _CODES is None:
        seen = {}

        def walk(c):
            if c in seen or not boot.in_repo(c.co_filename):
                return
            seen[c] = c.co_filename.rsplit("/", 1)[-1]
            for k in c.co_consts:
                if isinstance(k, types.CodeType):
                    walk(k)

        for o in gc.get_objects():
            if isinstance(o, types.FunctionType):
                walk(o.__code__)
        _CODES = seen
    return _CODES


def _on_line(code, line):
    a = _ACTIVE.get(threading.get_ident())
    if a is not None:
        a[0].point(a[1], (code, line))


def _on_instruction(code, offset):
    a = _ACTIVE.get(threading.get_ident())
    if a is not None:
        a[0].ops += 1
        a[0].point(a[1], (code, offset))


def instrument(files, opcodes):
    """Switch on line (and instruction) events of the given files of the code under test."""
    mon = sys.monitoring
    if not _STATE:
        mon.use_tool_id(_TOOL, "vmon")
        mon.register_callback(_TOOL, mon.events.LINE, _on_line)
        mon.register_callback(_TOOL, mon.events.INSTRUCTION, _on_instruction)
        _STATE["on"] = True
    for c, name in _codes().items():
        want = 0
        if files is None or name in files:
            want = mon.events.INSTRUCTION if opcodes else mon.events.LINE
        if _STATE.get(c, 0) != want:
            mon.set_local_events(_TOOL, c, want)
            _STATE[c] = want


class Sched:
    def __init__(self, seed, n, policy="random", p=0.2, opcodes=False, steal=0.01, files=None, cuts=None, first=None):
        self.rng = random.Random(seed)
        self.n, self.policy, self.p, self.opcodes, self.steal_after = n, policy, p, opcodes, steal
        self.cv = threading.Condition()
        self.turn = 0
        self.live = set(range(n))
        self.waiting = set()
        self.stuck = set()  # blocked outside of our control since its turn was taken over
        self.progress = 0
        self.switches = []
        self.steals = 0
        self.points = 0
        self.ops = 0
        self.prio = list(range(n))
        self.rng.shuffle(self.prio)
        # priority schedules: the running thread drops to the lowest priority at a few random points
        self.drops = {self.rng.randrange(1, 400) for _ in range(self.rng.randint(1, 4))}
        self.me = threading.local()
        self.local = {}
        self.files = files
        # "cut" schedules: thread -> numbers of its points at which it is preempted until the others have ended or been cut
        self.cuts = cuts or {}
        self.first = first
        self.counts = [0] * n
        self.places = [[] for _ in range(n)]  # "cut" schedules: where each point was

    # -- called with the lock held
    def _next(self, me):
        c = sorted(self.live - self.stuck) or sorted(self.live)
        if not c:
            return None
        if self.policy == "cut":
            others = [x for x in c if x != me]
            if me in self.live and (self.counts[me] not in self.cuts.get(me, ()) or not others):
                return me
            return others[0] if others else c[0]
        if self.policy == "random":
            if me in self.live and self.rng.random() > self.p:
                return me
            return self.rng.choice(c)
        if self.policy == "rr":
            later = [x for x in c if x > me]
            return (later or c)[0]
        return max(c, key=lambda x: self.prio[x])

    def _give(self, me, nxt):
        if nxt is not None and nxt != me:
            self.switches.append((me, nxt, self.points))
        self.turn = nxt
        self.progress += 1
        self.cv.notify_all()

    def point(self, me, place=None):
        with self.cv:
            self.points += 1
            self.counts[me] += 1
            if self.policy == "cut":
                self.places[me].append(place)
            self.stuck.discard(me)
            if self.turn == me:
                if self.policy == "prio" and self.points in self.drops:
                    self.prio[me] = min(self.prio) - 1
                nxt = self._next(me)
                self.progress += 1
                if nxt == me:
                    return
                self._give(me, nxt)
            self._wait(me)

    def _wait(self, me):
        self.waiting.add(me)
        seen, t0 = self.progress, time.monotonic()
        while self.turn != me:
            self.cv.wait(self.steal_after)
            if self.turn == me:
                break
            if self.progress != seen:
                seen, t0 = self.progress, time.monotonic()
            elif time.monotonic() - t0 >= self.steal_after and self.turn not in self.waiting:
                # whoever has the turn does not get anywhere: take it over
                self.steals += 1
                self.stuck.add(self.turn)
                self._give(self.turn, me)
        self.waiting.discard(me)

    def run(self, fns):
        """Run the functions in threads under this schedule; returns [(result, exception)]."""
        out = [None] * self.n
        ready = threading.Barrier(self.n)

        def body(i):
            ready.wait()
            with self.cv:
                if self.turn != i:
                    self._wait(i)
            _ACTIVE[threading.get_ident()] = (self, i)
            try:
                out[i] = (fns[i](), None)
            except BaseException as e:  # noqa: BLE001
                out[i] = (None, e)
            finally:
                _ACTIVE.pop(threading.get_ident(), None)
                with self.cv:
                    self.live.discard(i)
                    if self.turn == i:
                        self._give(i, self._next(i) if self.live else None)

        instrument(self.files, self.opcodes)
        self.turn = self.rng.randrange(self.n) if self.first is None else self.first
        ts = [threading.Thread(target=body, args=(i,), daemon=True, name="worker") for i in range(self.n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
        if any(t.is_alive() for t in ts):
            return None
        return out

    def signature(self):
        return tuple((a, b, c) for a, b, c in self.switches)


def draw(rng, n, files=None):
    pol = rng.choice(("random", "random", "rr", "prio", "prio"))
    return Sched(rng.getrandbits(48), n, pol, rng.choice((0.02, 0.1, 0.3, 0.7)), opcodes=rng.random() < 0.35, files=files)
