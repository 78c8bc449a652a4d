"""Run in a fresh process: argv: repository, folder of backends, 'block' or 'watch'.  Reads work (JSON) from stdin.

'block': array libraries cannot be imported.  'watch': they can, and what is imported is recorded."""
import json
import sys

sys.dont_write_bytecode = True
REPO, BK, MODE = sys.argv[1:4]
LIBS = ("numpy", "torch", "tensorflow", "jax", "jaxlib", "dask", "sparse", "autograd", "cupy", "theano", "mars", "scipy", "pandas", "pytest")
TRIED = []


class Finder:
    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top in LIBS:
            TRIED.append(top)
            if MODE == "block":
                raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        return None


if any(m in sys.modules for m in LIBS):
    raise SystemExit("harness: an array library is already loaded")
sys.meta_path.insert(0, Finder())
sys.path.insert(0, REPO)
sys.path.insert(1, BK)


def tried():
    t = sorted(set(TRIED))
    TRIED.clear()
    return t


def err(e):
    return ["error", type(e).__name__, str(e)[:300]]


def arrays(case, mod):
    return [mod.Arr(s, d) for s, d in zip(case["shapes"], case["data"])]


def nested(shape, data, k):
    """Lists of lists, or tuples; a scalar."""
    if not shape:
        return data[0]
    n = len(data) // shape[0] if shape[0] else 0
    return (list, tuple)[k % 2](nested(shape[1:], data[i * n:(i + 1) * n], k) for i in range(shape[0]))


def val(r):
    return [list(r.shape), list(r.data), type(r).__module__]


class Kw(dict):
    """optimize and memory_limit; an optimizer object is new for every use."""

    def __init__(self, oe, case):
        o = case["optimize"]
        super().__init__(optimize=[tuple(p) for p in o] if isinstance(o, list) else o, memory_limit=case["limit"])
        self.oe = oe

    def __getitem__(self, k):
        v = super().__getitem__(k)
        return getattr(self.oe, v["class"])(**v["options"]) if isinstance(v, dict) else v


def fresh(kw):
    return {k: kw[k] for k in kw}


def one(oe, case):
    shapes = [tuple(s) for s in case["shapes"]]
    kw = Kw(oe, case)
    mod = __import__(case["backend"])
    out = {}

    def do(name, fn):
        try:
            out[name] = fn()
        except Exception as e:  # noqa: BLE001
            out[name] = err(e)

    def path(*a, **k):
        p, info = oe.contract_path(case["eq"], *a, **k, **fresh(kw))
        return [[list(map(int, x)) for x in p], str(info.opt_cost), str(info.naive_cost), str(info.largest_intermediate), str(info)]

    do("path", lambda: path(*shapes, shapes=True))
    if case["data"] is not None:
        do("path arrays", lambda: path(*arrays(case, mod)))
        do("path nested", lambda: path(*[nested(s, d, k) for k, (s, d) in enumerate(zip(case["shapes"], case["data"]))]))
        do("contract", lambda: val(oe.contract(case["eq"], *arrays(case, mod), **fresh(kw))))

        def expr():
            ex = oe.contract_expression(case["eq"], *shapes, **fresh(kw))
            return [val(ex(*arrays(case, mod))), val(ex(*arrays(case, mod))), str(ex)]

        do("expression", expr)

        def consts():
            a = arrays(case, mod)
            cs = case["constants"]
            ex = oe.contract_expression(case["eq"], *[a[i] if i in cs else s for i, s in enumerate(shapes)], constants=cs, **fresh(kw))
            return [val(ex(*[x for i, x in enumerate(a) if i not in cs], backend=case["backend"])) for _ in range(2)]

        if len(case["constants"]) < len(shapes):
            do("constants", consts)

        def shared():
            a = arrays(case, mod)
            with oe.shared_intermediates():
                r = [val(oe.contract(case["eq"], *a, **fresh(kw))) for _ in range(2)]
            if oe.sharing.currently_sharing():
                raise RuntimeError("still sharing")
            return r

        do("shared", shared)
    else:
        do("expression text", lambda: str(oe.contract_expression(case["eq"], *shapes, **fresh(kw))))
    return out


def main():
    work = json.load(sys.stdin)
    res = {"import": None, "cases": [], "tried": []}
    try:
        sys.pycache_prefix = "/nonexistent/vmon-no-cache"  # always from the current source
        import opt_einsum as oe

        sys.pycache_prefix = None

        for m in ("opt_einsum.paths", "opt_einsum.path_random", "opt_einsum.parser", "opt_einsum.sharing", "opt_einsum.backends", "opt_einsum.helpers",
                  "opt_einsum.blas", "opt_einsum.contract"):
            __import__(m)
    except Exception as e:  # noqa: BLE001
        res["import"] = err(e)
        json.dump(res, sys.stdout)
        return
    res["file"] = oe.__file__
    res["tried import"] = tried()
    for case in work["cases"]:
        res["cases"].append(one(oe, case))
    res["tried"] = tried()
    for code in work.get("steps", ()):
        r = {}
        try:
            ns = {"oe": oe}
            exec(code, ns)
            r["value"] = ns.get("value")
        except Exception as e:  # noqa: BLE001
            r["error"] = err(e)
        r["tried"] = tried()
        res.setdefault("steps", []).append(r)
    res["loaded"] = [m for m in LIBS if m in sys.modules]
    json.dump(res, sys.stdout)


main()
