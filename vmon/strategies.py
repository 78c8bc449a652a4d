"""Strategies and optimizer configurations drawn by the workloads."""
NAMES = ["auto", "auto-hq", "optimal", "branch-all", "branch-2", "branch-1", "greedy", "eager", "opportunistic", "dp",
         "dynamic-programming", "random-greedy", "random-greedy-128"]
DETERMINISTIC = ["auto", "optimal", "branch-all", "branch-2", "branch-1", "greedy", "eager", "opportunistic", "dp",
                 "dynamic-programming"]
# largest number of operands each strategy is asked for
CAP = {"optimal": 6, "branch-all": 7, "branch-2": 12, "branch-1": 40, "dp": 11, "dynamic-programming": 11,
       "random-greedy-128": 60, "random-greedy": 100, "auto-hq": 200, "auto": 300, "greedy": 300, "eager": 300,
       "opportunistic": 300}


def names_for(n, limited=False):
    """With a memory limit greedy is branch-1, and searches are slower."""
    out = []
    for s in NAMES:
        cap = CAP[s]
        if limited:
            cap = min(cap, 24)
        if s == "auto-hq" and 11 < n <= 16:
            continue
        if n <= cap:
            out.append(s)
    return out


def optimizer(rng, n, k=None):
    """(description, factory) of a PathOptimizer instance."""
    import opt_einsum as oe

    k = k or rng.choice(("bb", "dp", "rg"))
    if k == "bb" and n <= 7:
        kw = dict(nbranch=rng.choice((None, 1, 2, 3)), cutoff_flops_factor=rng.choice((1, 2, 4, 10, None)),
                  minimize=rng.choice(("flops", "size")), cost_fn=rng.choice(("memory-removed", "memory-removed-jitter")))
        return ("BranchBound", kw), lambda: oe.BranchBound(**kw)
    if k == "dp" and n <= 9:
        kw = dict(minimize=rng.choice(("flops", "size", "write", "combo", "limit", "combo-3", "limit-256", "combo-0", "limit-1")),
                  cost_cap=rng.choice((True, True, False, 1, 50, 10 ** 6)), search_outer=rng.random() < 0.3 and n <= 7)
        return ("DynamicProgramming", kw), lambda: oe.DynamicProgramming(**kw)
    kw = dict(max_repeats=rng.randint(1, 6), minimize=rng.choice(("flops", "size")), temperature=rng.choice((0.0, 0.1, 1.0, 10.0)),
              rel_temperature=rng.random() < 0.5, nbranch=rng.choice((1, 2, 8)),
              cost_fn=rng.choice(("memory-removed", "memory-removed-jitter")))
    return ("RandomGreedy", kw), lambda: oe.RandomGreedy(**kw)
