"""Runner: deterministic case families, worker pool, watchdog, known findings, evidence, replay."""
import argparse
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import threading
import time
import traceback
from collections import Counter

from . import boot

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")


class Violation(Exception):
    """The property does not hold on this execution.

    ``finding`` names the listed known finding this execution is an instance of, if any.
    """

    def __init__(self, msg, finding=None):
        super().__init__(msg)
        self.finding = finding


class Skip(Exception):
    """The drawn case is outside of the property's domain (counted, not evaluated)."""


class CaseTimeout(BaseException):
    pass


def h64(*parts):
    return int.from_bytes(hashlib.blake2b(repr(parts).encode("utf8", "backslashreplace"), digest_size=8).digest(), "big")


class Mon:
    """What the monitors saw."""

    def __init__(self):
        self.c = Counter()
        self.sigs = set()
        self.samples = []
        self.findings = {}
        self.case = {}

    def ev(self, name, n=1):
        self.c[name] += n

    def sig(self, *parts):
        """Record a distinct, non-trivial observed behaviour."""
        self.sigs.add(h64(*parts))

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def describe(self, **kw):
        self.case.update(kw)

    def known(self, finding, detail):
        self.findings.setdefault(finding, detail)

    def dump(self):
        return self.c, self.sigs, self.samples, self.findings


class Family:
    """A family of executions: fn(rng, mon) draws a case, runs the real code and judges what it observed."""

    def __init__(self, name, fn, quick, thorough, chunk=None, cpu=60, setup=None, wall=150):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough
        self.chunk, self.cpu, self.setup, self.wall = chunk, cpu, setup, wall


def case_rng(seed, pid, fam, i):
    return random.Random(f"{seed}/{pid}/{fam}/{i}")


def _alarm(sig, frame):
    f, inside = frame, False
    while f is not None:
        if boot.in_repo(f.f_code.co_filename):
            inside = True
            break
        f = f.f_back
    raise CaseTimeout("inside" if inside else "outside")


WALL = 150
_case_cpu = [0.0]


def _blocked(sig, frame):
    """Wall-clock watchdog: a case that stands still without using the processor is deadlocked."""
    if time.process_time() - _case_cpu[0] > 0.15 * WALL:
        signal.setitimer(signal.ITIMER_REAL, WALL)
        _case_cpu[0] = time.process_time()
        return
    for f in list(sys._current_frames().values()) + [frame]:
        while f is not None:
            if boot.in_repo(f.f_code.co_filename):
                raise CaseTimeout("blocked")
            f = f.f_back
    raise CaseTimeout("blocked outside")


def _from_repo(tb):
    return any(boot.in_repo(f.filename) for f in traceback.extract_tb(tb))


def _short(e, n=400):
    s = f"{type(e).__name__}: {e}"
    return s if len(s) <= n else s[:n] + "..."


def run_case(fam, seed, pid, i, mon):
    """-> None | ('skip',) | ('violation', msg, finding) | ('error', text)"""
    for attempt in (1, 2):
        mon.case = {}
        rng = case_rng(seed, pid, fam.name, i)
        limit = fam.cpu * attempt
        try:
            _case_cpu[0] = time.process_time()
            signal.setitimer(signal.ITIMER_VIRTUAL, limit)
            signal.setitimer(signal.ITIMER_REAL, fam.wall)  # 0: off
            try:
                fam.fn(rng, mon)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                signal.setitimer(signal.ITIMER_REAL, 0)
            return None
        except Skip as e:
            mon.ev("skipped: " + (str(e) or "out of domain"))
            return ("skip",)
        except Violation as e:
            return ("violation", str(e), e.finding)
        except CaseTimeout as e:
            if str(e) == "blocked":
                return ("violation", f"blocked for {WALL} s of wall-clock time without using the processor", None, True)
            if str(e) == "blocked outside":
                return ("error", f"harness blocked for {WALL} s")
            if attempt == 1:
                mon.ev("watchdog reruns")
                continue
            if str(e) == "inside":
                return ("violation", f"no result after {limit} s of CPU time", None, True)
            return ("error", f"harness exceeded {limit} s of CPU time")
        except BaseException as e:  # noqa: BLE001
            txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:]
            if isinstance(e, (KeyboardInterrupt, SystemExit)):
                raise
            if _from_repo(e.__traceback__):
                return ("violation", "unexpected exception from the code under test: " + _short(e) + "\n" + txt, None)
            if isinstance(e, (TypeError, ValueError, LookupError, AttributeError, AssertionError, ArithmeticError)):
                # the code under test returned something that is not even of the expected form
                return ("violation", "the result does not have the expected form: " + _short(e) + "\n" + txt, None)
            return ("error", txt)


_MOD = None


def load_check(pid):
    global _MOD
    if _MOD is None:
        boot.boot()
        _MOD = importlib.import_module(f"vmon.checks.{pid.lower()}")
    return _MOD


def _worker_init():
    import faulthandler

    faulthandler.register(signal.SIGUSR1)  # for debugging the harness
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.signal(signal.SIGALRM, _blocked)
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def run_chunk(args):
    pid, fam_name, seed, tier, start, stop, known = args
    os.environ["VERIF_TIER"] = tier
    mod = load_check(pid)
    fam = next(f for f in mod.FAMILIES if f.name == fam_name)
    if fam.setup:
        fam.setup()
    mon = Mon()
    viol, errs, ran, skipped = [], [], 0, 0
    t0 = time.time()
    for i in range(start, stop):
        r = run_case(fam, seed, pid, i, mon)
        if r is None:
            ran += 1
        elif r[0] == "skip":
            skipped += 1
        elif r[0] == "violation":
            ran += 1
            if r[2] and r[2] in known:
                mon.known(r[2], r[1])
                continue
            viol.append({"family": fam_name, "index": i, "chunk_start": start, "message": r[1], "case": safe(mon.case)})
            if len(viol) >= 3 or len(r) > 3:
                break
        else:
            errs.append({"family": fam_name, "index": i, "text": r[1]})
            if len(errs) >= 3:
                break
    c, sigs, samples, findings = mon.dump()
    return fam_name, ran, skipped, viol, errs, c, sigs, samples, findings, time.time() - t0


def safe(o, depth=0):
    if isinstance(o, dict):
        return {str(k): safe(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple)) and depth < 6:
        return [safe(v, depth + 1) for v in o][:200]
    if isinstance(o, (int, float, bool)) or o is None:
        return o
    if isinstance(o, str):
        return o.encode("ascii", "backslashreplace").decode()[:2000]
    return repr(o).encode("ascii", "backslashreplace").decode()[:600]


def load_known(pid):
    try:
        with open(KNOWN) as f:
            k = json.load(f)
    except FileNotFoundError:
        return {}
    return {e["id"]: e for e in k.get("findings", []) if e["property"] == pid and e.get("status") == "open"}


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    ap.add_argument("--family")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int, default=0)
    a = ap.parse_args(argv)
    pid = a.property
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(a.seed) if str(a.seed).lstrip("-").isdigit() else h64(a.seed)
    os.environ["VERIF_TIER"] = tier
    known = load_known(pid)
    t0 = time.time()
    try:
        mod = load_check(pid)
    except BaseException as e:  # the code under test cannot even be imported
        txt = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        if _from_repo(e.__traceback__):
            return report_import_failure(pid, tier, seed, txt, t0)
        print(txt)
        print(f"ERROR property={pid}: the harness could not start")
        return 2

    if a.replay:
        return replay(mod, pid, a.replay, known)

    fams = [f for f in mod.FAMILIES if not a.family or f.name == a.family]
    ncpu = os.cpu_count() or 4
    workers = a.workers or getattr(mod, "WORKERS", min(8, ncpu))
    soft = getattr(mod, "SOFT", {}).get(tier, 300 if tier == "quick" else 2400)

    jobs = []
    planned = {}
    for f in fams:
        n = max(1, int((f.quick if tier == "quick" else f.thorough) * a.scale))
        planned[f.name] = n
        ch = f.chunk or max(1, min(200, -(-n // (workers * 4))))
        for s in range(0, n, ch):
            jobs.append((pid, f.name, seed, tier, s, min(n, s + ch), tuple(known)))
    # interleave the families so that a time cap cuts all of them alike
    jobs.sort(key=lambda j: (j[4] / planned[j[1]], j[1]))

    import multiprocessing as mp
    from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait

    _adopt_orphans()
    method = getattr(mod, "START", "fork")
    total = Mon()
    viol, errs = [], []
    ran, skipped = Counter(), Counter()
    cputime = Counter()
    truncated = False
    it = iter(jobs)
    hard = soft + 400
    ex = ProcessPoolExecutor(workers, mp_context=mp.get_context(method), initializer=_worker_init)
    pend = set()
    broken = None
    try:
        def feed():
            nonlocal truncated
            while len(pend) < workers * 2:
                if time.time() - t0 > soft:
                    truncated = truncated or next(it, None) is not None
                    return
                j = next(it, None)
                if j is None:
                    return
                pend.add(ex.submit(run_chunk, j))

        feed()
        while pend:
            done, _ = wait(pend, timeout=5, return_when=FIRST_COMPLETED)
            for d in done:
                pend.discard(d)
                fam, r, s, v, e, c, sg, sm, fi, dt = d.result()
                ran[fam] += r
                skipped[fam] += s
                viol += v
                errs += e
                total.c.update(c)
                total.sigs |= sg
                total.samples += [x for x in sm if len(total.samples) < 40]
                cputime[fam] += dt
                for k, d_ in fi.items():
                    total.findings.setdefault(k, d_)
            if viol or errs or time.time() - t0 > hard:
                break
            feed()
        if pend and not (viol or errs):
            broken = f"workers still busy after {hard:.0f} s"
    except BaseException as e:  # noqa: BLE001
        broken = _short(e)
    finally:
        if pend or broken or viol or errs:
            _kill_descendants()
        ex.shutdown(wait=False, cancel_futures=True)

    wall = time.time() - t0
    nran = sum(ran.values())
    replays = []
    if viol:
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        for v in viol[:3]:
            fn = os.path.join(EVID, "replay", f"{pid}-{v['family']}-{v['index']}.json")
            with open(fn, "w") as f:
                json.dump(dict(v, property=pid, seed=seed, tier=tier), f, indent=1)
            replays.append(fn)
    cov = {
        "evaluations": int(nran),
        "distinct_nontrivial": len(total.sigs),
        "rule": getattr(mod, "RULE", "distinct structures of executions judged by the oracle"),
        "samples": [safe(s) for s in total.samples[:12]],
        "events": {k: int(v) for k, v in sorted(total.c.items())},
        "families": {f.name: {"planned": planned[f.name], "judged": ran[f.name], "skipped": skipped[f.name],
                              "worker_s": round(cputime[f.name], 1)} for f in fams},
        "truncated_by_time_cap": bool(truncated),
    }
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"), "coverage": cov,
        "wall_s": round(wall, 2),
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "violations": [{"family": v["family"], "index": v["index"], "message": v["message"][:1500], "replay": r}
                       for v, r in zip(viol, replays)],
        "known_findings_observed": {k: safe(v) for k, v in total.findings.items()},
    }
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, f".{pid}.{os.getpid()}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, f"{pid}.json"))

    for k, d in sorted(total.findings.items()):
        print(f"KNOWN-FINDING: property={pid} {known[k]['what']}")
    print(f"{pid} {tier} seed={seed}: {nran} executions judged, {sum(skipped.values())} skipped, "
          f"{len(total.sigs)} distinct, {wall:.1f} s" + (" (time cap)" if truncated else ""))
    for k, v in sorted(total.c.items()):
        print(f"    {k}: {v}")
    if viol:
        for v, r in list(zip(viol, replays)):
            print(f"--- {v['family']}[{v['index']}]: {v['message'][:1500]}")
            print("    case: " + json.dumps(v["case"])[:1500])
        print(f"VIOLATION property={pid} replay={replays[0]}")
        sys.stdout.flush()
        _hard_exit(1)
    if errs or broken:
        for e in errs[:3]:
            print(f"--- harness error in {e['family']}[{e['index']}]:\n{e['text']}")
        if broken:
            print("--- " + broken)
        print(f"ERROR property={pid}: inconclusive")
        sys.stdout.flush()
        _hard_exit(2)
    if nran == 0 or len(total.sigs) < getattr(mod, "MIN_DISTINCT", 2):
        print(f"ERROR property={pid}: the monitors observed too little")
        _hard_exit(2)
    sys.stdout.flush()
    _hard_exit(0)


def _descendants():
    kids = {}
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open(f"/proc/{d}/stat") as f:
                    st, pp = f.read().rsplit(")", 1)[1].split()[:2]
                if st != "Z":
                    kids.setdefault(int(pp), []).append(int(d))
            except (OSError, ValueError, IndexError):
                pass
    todo, found = [os.getpid()], []
    while todo:
        new = kids.get(todo.pop(), [])
        found += new
        todo += new
    return found


def _adopt_orphans():
    """Processes whose parent dies become children of this one, so that none is left behind."""
    try:
        import ctypes

        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)  # PR_SET_CHILD_SUBREAPER
    except Exception:
        pass


def _kill_descendants():
    """Kill all processes below this one (workers, and pools that workers started)."""
    for _ in range(20):
        found = _descendants()
        if not found:
            return
        for p in found:
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
        time.sleep(0.02)


def _hard_exit(code):
    _kill_descendants()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def report_import_failure(pid, tier, seed, txt, t0):
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    fn = os.path.join(EVID, "replay", f"{pid}-import.json")
    with open(fn, "w") as f:
        json.dump({"property": pid, "family": "import", "message": txt}, f, indent=1)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the package must import", "samples": ["import opt_einsum"]},
          "wall_s": round(time.time() - t0, 2), "violations": [{"message": txt[-1500:], "replay": fn}]}
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(txt)
    print(f"VIOLATION property={pid} replay={fn}")
    return 1


def replay(mod, pid, path, known):
    _worker_init()
    with open(path) as f:
        r = json.load(f)
    os.environ["VERIF_TIER"] = r["tier"]
    fam = next(f for f in mod.FAMILIES if f.name == r["family"])
    if fam.setup:
        fam.setup()
    mon = Mon()
    # first alone, then with the cases that preceded it in its worker
    for start in (r["index"], r["chunk_start"]):
        for i in range(start, r["index"] + 1):
            out = run_case(fam, r["seed"], pid, i, mon)
        if out and out[0] == "violation" and not (out[2] and out[2] in known):
            print(out[1])
            print(json.dumps(safe(mon.case), indent=1))
            print(f"VIOLATION property={pid} replay={path}")
            _hard_exit(1)
        if out and out[0] == "error":
            print(out[1])
            _hard_exit(2)
    print("did not reproduce: the property holds on this case")
    _hard_exit(0)
