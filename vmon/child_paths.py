"""Run in a fresh process: read searches (JSON) from stdin, write the paths found.  argv: repository root."""
import json
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
sys.pycache_prefix = "/nonexistent/vmon-no-cache"  # always from the current source
import opt_einsum as oe  # noqa: E402
sys.pycache_prefix = None


def main():
    cases = json.load(sys.stdin)
    out = []
    for c in cases:
        try:
            p, info = oe.contract_path(c["eq"], *[tuple(s) for s in c["shapes"]], shapes=True, optimize=c["optimize"], memory_limit=c["limit"])
            out.append([[list(map(int, x)) for x in p], str(info.opt_cost), [k[2] for k in info.contraction_list]])
        except RuntimeError as e:
            out.append(["RuntimeError", str(e)[:100]])
    json.dump({"file": oe.__file__, "hash": hash("opt_einsum"), "out": out}, sys.stdout)


main()
