From 38618dfc70722f68b1f9bc82293ca53658e00ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:16 +0000
Subject: [PATCH 01/27] fix: count an index summed on a single term as an inner
 product in path searches

calc_k12_flops only counted indices shared by both terms, so the cost the
searches minimised (and RandomOptimizer.costs reports) differed from the cost
contract_path reports for the very same step, and 'optimal' was not optimal.
---
 opt_einsum/paths.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 5c38c45..32c5985 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -174,11 +174,10 @@ def calc_k12_flops(
     """
     k1, k2 = inputs[i], inputs[j]
     either = k1 | k2
-    shared = k1 & k2
     keep = frozenset.union(output, *map(inputs.__getitem__, remaining - {i, j}))
 
     k12 = either & keep
-    cost = flop_count(either, bool(shared - keep), 2, size_dict)
+    cost = flop_count(either, bool(either - keep), 2, size_dict)
 
     return k12, cost
 
-- 
2.43.0


From 5bd363053d790283633405821321d3bea6e11cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:16 +0000
Subject: [PATCH 02/27] fix: don't reuse cached pair costs for contractions
 with hyper-indices

When an index appears on more than two terms, what contracting a pair leaves
depends on the other remaining terms, but 'optimal' and BranchBound cached it by
the pair's indices alone: 'optimal' returned suboptimal paths and the memory
limit was checked against the wrong intermediate.
---
 opt_einsum/paths.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 32c5985..3b31e11 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -182,6 +182,14 @@ def calc_k12_flops(
     return k12, cost
 
 
+def _has_hyper_indices(inputs: Tuple[FrozenSet[str], ...]) -> bool:
+    """Whether any index appears on more than two terms. If so, the result of
+    contracting a pair of terms depends on which other terms remain, and so can't be
+    cached based on the indices of the pair alone.
+    """
+    return any(count > 2 for count in Counter(itertools.chain.from_iterable(inputs)).values())
+
+
 def _compute_oversize_flops(
     inputs: Tuple[FrozenSet[str]],
     remaining: List[ArrayIndexType],
@@ -231,6 +239,7 @@ def optimal(
     best_ssa_path = {"ssa_path": (tuple(range(len(inputs))),)}
     size_cache: Dict[FrozenSet[str], int] = {}
     result_cache: Dict[Tuple[ArrayIndexType, ArrayIndexType], Tuple[FrozenSet[str], int]] = {}
+    cache_results = not _has_hyper_indices(inputs_set)
 
     def _optimal_iterate(path, remaining, inputs, flops):
         # reached end of path (only ever get here if flops is best found so far)
@@ -247,7 +256,9 @@ def optimal(
             try:
                 k12, flops12 = result_cache[key]
             except KeyError:
-                k12, flops12 = result_cache[key] = calc_k12_flops(inputs, output_set, remaining, i, j, size_dict)
+                k12, flops12 = calc_k12_flops(inputs, output_set, remaining, i, j, size_dict)
+                if cache_results:
+                    result_cache[key] = k12, flops12
 
             # sieve based on current best flops
             new_flops = flops + flops12
@@ -400,6 +411,7 @@ class BranchBound(PathOptimizer):
 
         size_cache = {k: compute_size_by_dict(k, size_dict) for k in inputs}
         result_cache: Dict[Tuple[FrozenSet[str], FrozenSet[str]], Tuple[FrozenSet[str], int]] = {}
+        cache_results = not _has_hyper_indices(inputs)
 
         def _branch_iterate(path, inputs, remaining, flops, size):
             # reached end of path (only ever get here if flops is best found so far)
@@ -414,7 +426,9 @@ class BranchBound(PathOptimizer):
                 try:
                     k12, flops12 = result_cache[k1, k2]
                 except KeyError:
-                    k12, flops12 = result_cache[k1, k2] = calc_k12_flops(inputs, output, remaining, i, j, size_dict)
+                    k12, flops12 = calc_k12_flops(inputs, output, remaining, i, j, size_dict)
+                    if cache_results:
+                        result_cache[k1, k2] = k12, flops12
 
                 try:
                     size12 = size_cache[k12]
-- 
2.43.0


From 7857a9e455b6d41896d78d6f5bb652764ee7bff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:47 +0000
Subject: [PATCH 03/27] fix: dynamic programming search that never ends or
 wrongly gives up

With minimize='combo' or 'limit' a memory limit that can't be met was never
noticed and the search looped forever, as it did with a cost cap of zero; and with
a size-0 dimension the naive cost of zero made it raise 'No contraction found for
given memory_limit' without there being any limit.
---
 opt_einsum/paths.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 3b31e11..7077a88 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1060,8 +1060,8 @@ def _parse_minimize(minimize: Union[str, Callable]) -> Tuple[Callable, Union[int
     elif minimize == "write":
         return _dp_compare_write, 1
     elif callable(minimize):
-        # default to naive_scale=inf for this and remaining options
-        # as otherwise memory_limit check can cause problems
+        # default to naive_scale=inf for this option as nothing is known about the
+        # scale of the costs, and so the memory_limit check could cause problems
         return minimize, float("inf")
 
     # parse out a customized value for the combination factor
@@ -1072,9 +1072,9 @@ def _parse_minimize(minimize: Union[str, Callable]) -> Tuple[Callable, Union[int
     minimize, custom_factor = match.groups()
     factor = float(custom_factor) if custom_factor else DEFAULT_COMBO_FACTOR
     if minimize == "combo":
-        return functools.partial(_dp_compare_combo, factor=factor, combine=sum), float("inf")
+        return functools.partial(_dp_compare_combo, factor=factor, combine=sum), 1 + factor
     elif minimize == "limit":
-        return functools.partial(_dp_compare_combo, factor=factor, combine=max), float("inf")
+        return functools.partial(_dp_compare_combo, factor=factor, combine=max), 1 + factor
     else:
         raise ValueError(f"Couldn't parse `minimize` value: {minimize}.")
 
@@ -1206,7 +1206,7 @@ class DynamicProgramming(PathOptimizer):
         output = frozenset(symbol2int[c] for c in output_)
         size_dict_canonical = {symbol2int[c]: v for c, v in size_dict_.items() if c in symbol2int}
         size_dict = [size_dict_canonical[j] for j in range(len(size_dict_canonical))]
-        naive_cost = naive_scale * len(inputs) * functools.reduce(operator.mul, size_dict, 1)
+        naive_cost = naive_scale * len(inputs) * functools.reduce(operator.mul, (max(d, 1) for d in size_dict), 1)
 
         inputs, inputs_done, inputs_contractions = _dp_parse_out_single_term_ops(inputs, all_inds, ind_counts)
 
@@ -1296,8 +1296,8 @@ class DynamicProgramming(PathOptimizer):
                 if (cost_cap > naive_cost) and (len(x[-1]) == 0):
                     raise RuntimeError("No contraction found for given `memory_limit`.")
 
-                # increase cost cap for next iteration:
-                cost_cap = cost_increment * cost_cap
+                # increase cost cap for next iteration (ensure that it does increase):
+                cost_cap = max(cost_increment * cost_cap, 1)
 
             i, cost, contraction = list(x[-1].values())[0]
             subgraph_contractions.append(contraction)
-- 
2.43.0


From ec2d16b91beafdcfe00d4a1dc4bf49bfd0a1e188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:47 +0000
Subject: [PATCH 04/27] fix: accept cutoff_flops_factor=None in BranchBound, as
 documented

---
 opt_einsum/paths.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index 7077a88..d548d44 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -341,7 +341,7 @@ class BranchBound(PathOptimizer):
     def __init__(
         self,
         nbranch: Optional[int] = None,
-        cutoff_flops_factor: int = 4,
+        cutoff_flops_factor: Optional[int] = 4,
         minimize: str = "flops",
         cost_fn: str = "memory-removed",
     ):
@@ -356,7 +356,8 @@ class BranchBound(PathOptimizer):
                 each step. Defaults to None.
             cutoff_flops_factor: If at any point, a path is doing this much worse than the best path
                 found so far was, terminate it. The larger this is made, the more paths
-                will be fully explored and the slower the algorithm. Defaults to 4.
+                will be fully explored and the slower the algorithm. If None, don't terminate
+                any paths in this way. Defaults to 4.
             minimize: Whether to optimize the path with regard primarily to the total
                 estimated flop-count, or the size of the largest intermediate. The
                 option not chosen will still be used as a secondary criterion.
@@ -446,7 +447,9 @@ class BranchBound(PathOptimizer):
                 if new_flops < self.best_progress[len(inputs)]:
                     self.best_progress[len(inputs)] = new_flops
                 # sieve based on current progress relative to best
-                elif new_flops > self.cutoff_flops_factor * self.best_progress[len(inputs)]:
+                elif (self.cutoff_flops_factor is not None) and (
+                    new_flops > self.cutoff_flops_factor * self.best_progress[len(inputs)]
+                ):
                     return None
 
                 # sieve based on memory limit
-- 
2.43.0


From f719591c01f0b376c765c3dd6a1b9c71ca07f3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:47 +0000
Subject: [PATCH 05/27] fix: run every trial of a parallel random search

Once pre_dispatch trials were in flight, the trial number at which a result was
collected was never submitted, so max_repeats=10, pre_dispatch=4 ran 7 trials.
---
 opt_einsum/path_random.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/opt_einsum/path_random.py b/opt_einsum/path_random.py
index 1376822..579e81e 100644
--- a/opt_einsum/path_random.py
+++ b/opt_einsum/path_random.py
@@ -135,10 +135,9 @@ class RandomOptimizer(paths.PathOptimizer):
         # the idea here is to submit at least ``pre_dispatch`` jobs *before* we
         # yield any results, then do both in tandem, before draining the queue
         for r in repeats:
-            if len(self._futures) < self.pre_dispatch:
-                self._futures.append(self._executor.submit(trial_fn, r, *args))
-                continue
-            yield self._futures.popleft().result()
+            if len(self._futures) >= self.pre_dispatch:
+                yield self._futures.popleft().result()
+            self._futures.append(self._executor.submit(trial_fn, r, *args))
 
         while self._futures:
             yield self._futures.popleft().result()
-- 
2.43.0


From efb0483279a228d408ee0085674de40144be6a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:47 +0000
Subject: [PATCH 06/27] fix: get_sharing_cache outside of a context no longer
 marks the thread as sharing

The defaultdict lookup left an empty stack behind, after which currently_sharing()
was True and every contraction of that thread raised IndexError.
---
 opt_einsum/sharing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opt_einsum/sharing.py b/opt_einsum/sharing.py
index c9ee583..2eec170 100644
--- a/opt_einsum/sharing.py
+++ b/opt_einsum/sharing.py
@@ -7,7 +7,7 @@ import contextlib
 import functools
 import numbers
 import threading
-from collections import Counter, defaultdict
+from collections import Counter
 from typing import Any, Dict, Generator, List, Optional, Tuple, Union
 from typing import Counter as CounterType
 
@@ -27,7 +27,7 @@ __all__ = [
     "to_backend_cache_wrap",
 ]
 
-_SHARING_STACK: Dict[int, List[CacheType]] = defaultdict(list)
+_SHARING_STACK: Dict[int, List[CacheType]] = {}
 
 
 def currently_sharing() -> bool:
@@ -41,7 +41,7 @@ def get_sharing_cache() -> CacheType:
 
 
 def _add_sharing_cache(cache: CacheType) -> Any:
-    _SHARING_STACK[threading.get_ident()].append(cache)
+    _SHARING_STACK.setdefault(threading.get_ident(), []).append(cache)
 
 
 def _remove_sharing_cache() -> None:
-- 
2.43.0


From 8042125753f4b1d265ed583a4202eacc8f7235ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:47 +0000
Subject: [PATCH 07/27] fix: keep arrays converted inside shared_intermediates
 alive

Conversions are cached by id, but the array was not kept, so a later array that was
given the same id was silently replaced by the converted form of the first.
---
 opt_einsum/sharing.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/sharing.py b/opt_einsum/sharing.py
index 2eec170..258de7e 100644
--- a/opt_einsum/sharing.py
+++ b/opt_einsum/sharing.py
@@ -183,6 +183,19 @@ def einsum_cache_wrap(einsum: Any) -> Any:
     return cached_einsum
 
 
+class _Identity:
+    """Hashes an array by its id, and keeps it alive to prevent that id from being recycled."""
+
+    def __init__(self, array: ArrayType):
+        self.array = array
+
+    def __hash__(self) -> int:
+        return id(self.array)
+
+    def __eq__(self, other: Any) -> bool:
+        return isinstance(other, _Identity) and self.array is other.array
+
+
 def to_backend_cache_wrap(to_backend: Any = None, constants: Any = False) -> Any:
     """Decorates an ``to_backend()`` implementation to be memoized inside a
     :func:`shared_intermediates` context (e.g. ``to_cupy``, ``to_torch``).
@@ -199,7 +212,7 @@ def to_backend_cache_wrap(to_backend: Any = None, constants: Any = False) -> Any
                 return to_backend(array, constant=constant)
 
             # hash by id
-            key = to_backend.__name__, id(array), constant
+            key = to_backend.__name__, _Identity(array), constant
             return _memoize(key, to_backend, array, constant=constant)
 
     else:
@@ -210,7 +223,7 @@ def to_backend_cache_wrap(to_backend: Any = None, constants: Any = False) -> Any
                 return to_backend(array)
 
             # hash by id
-            key = to_backend.__name__, id(array)
+            key = to_backend.__name__, _Identity(array)
             return _memoize(key, to_backend, array)
 
     return cached_to_backend
-- 
2.43.0


From ec49081946456dea2eff160aecf952c117a7f7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:47 +0000
Subject: [PATCH 08/27] fix: honour out, dtype, casting and order for einsum
 inside shared_intermediates

The cached einsum dropped all keyword arguments: out was returned without having
been written to and dtype was ignored.
---
 opt_einsum/sharing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opt_einsum/sharing.py b/opt_einsum/sharing.py
index 258de7e..01c17b0 100644
--- a/opt_einsum/sharing.py
+++ b/opt_einsum/sharing.py
@@ -163,6 +163,10 @@ def einsum_cache_wrap(einsum: Any) -> Any:
         if not currently_sharing():
             return einsum(*args, **kwargs)
 
+        # can't share when e.g. ``out`` or ``dtype`` is specified, as they are not part of the key
+        if any(value is not None for name, value in kwargs.items() if name != "backend"):
+            return einsum(*args, **kwargs)
+
         # hash modulo commutativity by computing a canonical ordering and names
         backend = kwargs.pop("backend", "numpy")
         equation = args[0]
-- 
2.43.0


From a2b0225922f8d7169eeb0d9e1b6947a05d2e3352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:11 +0000
Subject: [PATCH 09/27] fix: parse the subscripts and honour the backend in
 contract(optimize=False)

The raw input went straight to numpy.einsum: unicode symbols together with an
ellipsis or whitespace were mangled into a wrong equation, labels that are not
integers raised TypeError and torch etc. tensors came back as numpy arrays.
---
 opt_einsum/contract.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 9ea929f..228f74a 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -581,7 +581,14 @@ def contract(
 
     # If no optimization, run pure einsum
     if optimize is False:
-        return _einsum(*operands_list, out=out, **kwargs)
+        input_subscripts, output_subscript, operands_prepped = parser.parse_einsum_input(operands_list)
+        return _einsum(
+            f"{input_subscripts}->{output_subscript}",
+            *operands_prepped,
+            backend=parse_backend(operands_prepped, backend),
+            out=out,
+            **kwargs,
+        )
 
     # Grab non-einsum kwargs
     gen_expression = kwargs.pop("_gen_expression", False)
-- 
2.43.0


From 4c302ce170df1a9d682c948ef42bb0015cc5d98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:11 +0000
Subject: [PATCH 10/27] fix: write a scalar result into a 0-dimensional out

---
 opt_einsum/contract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 228f74a..82bdae6 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -699,7 +699,7 @@ def _core_contract(
                 new_view = _transpose(new_view, axes=transpose, backend=backend)
 
                 if handle_out:
-                    out[:] = new_view  # type: ignore
+                    out[...] = new_view  # type: ignore
 
         else:
             # Call einsum
-- 
2.43.0


From 018c791ebe09b95b4209ee0d3c96fe8081bcfa13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:11 +0000
Subject: [PATCH 11/27] fix: use einsum for steps given keyword arguments
 tensordot does not take

contract(..., dtype=...) raised TypeError whenever a step was done with BLAS.
---
 opt_einsum/contract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 82bdae6..19de08c 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -669,8 +669,8 @@ def _core_contract(
         # Do we need to deal with the output?
         handle_out = specified_out and ((num + 1) == len(contraction_list))
 
-        # Call tensordot (check if should prefer einsum, but only if available)
-        if blas_flag and ("EINSUM" not in blas_flag or no_einsum):  # type: ignore
+        # Call tensordot (check if should prefer, or require, einsum, but only if available)
+        if blas_flag and (no_einsum or ("EINSUM" not in blas_flag and not kwargs)):  # type: ignore
             # Checks have already been handled
             input_str, results_index = einsum_str.split("->")
             input_left, input_right = input_str.split(",")
-- 
2.43.0


From 5ec9b12cdacc3b5ed2fe6fba4a618a31f9a55916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:11 +0000
Subject: [PATCH 12/27] fix: keep the order of interleaved labels when there
 are more than 26

The 27th label was mapped to 'A', which sorts before 'a', so that the dimensions
of an implicit output came out in the wrong order.
---
 opt_einsum/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index 316a421..245db85 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -270,7 +270,8 @@ def convert_interleaved_input(operands: Sequence[Any]) -> Tuple[str, Tuple[Any,
         symbol_set.discard(Ellipsis)
 
         # build the map based on sorted user symbols, retaining the order we lost in the `set`
-        symbol_map = {symbol: get_symbol(idx) for idx, symbol in enumerate(sorted(symbol_set))}
+        # note that `get_symbol` itself is not monotonic: "A" follows "z" but sorts before "a"
+        symbol_map = dict(zip(sorted(symbol_set), sorted(map(get_symbol, range(len(symbol_set))))))
 
     except TypeError:  # unhashable or uncomparable object
         raise TypeError(
-- 
2.43.0


From 44cb336fa2dab6999e5dbbe10b0cf616f717a153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:11 +0000
Subject: [PATCH 13/27] fix: race between threads making the first call of an
 expression with constants

A thread that found the evaluated constants before the reduced contraction list
was set applied the full list to the reduced operands.
---
 opt_einsum/contract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 19de08c..4d015b4 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -788,8 +788,9 @@ class ContractExpression:
         except KeyError:
             new_ops, new_contraction_list = self(*tmp_const_ops, backend=backend, evaluate_constants=True)
 
-        self._evaluated_constants[backend] = new_ops
+        # N.B. the constants must come last: once there, other threads use them with the reduced list
         self.contraction_list = new_contraction_list
+        self._evaluated_constants[backend] = new_ops
 
     def _get_evaluated_constants(self, backend: str) -> List[Optional[ArrayType]]:
         """Retrieve or generate the cached list of constant operators (mixed
-- 
2.43.0


From 559c953cb14c96e25f587fa82eef519d9a98f5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:41 +0000
Subject: [PATCH 14/27] fix: expressions whose operands are all constant can be
 called

---
 opt_einsum/contract.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 4d015b4..d13670d 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -712,7 +712,13 @@ def _core_contract(
         operands.append(new_view)
         del tmp_operands, new_view
 
+    if evaluate_constants:
+        # all of the operands are constant, there is nothing left to contract
+        return operands, []
+
     if specified_out:
+        if not contraction_list:
+            out[...] = operands[0]  # type: ignore
         return out
     else:
         return operands[0]
@@ -877,7 +883,7 @@ class ContractExpression:
         Returns:
             The contracted result.
         """
-        backend = parse_backend(arrays, backend)
+        backend = parse_backend(arrays or tuple(self._constants_dict.values()), backend)
 
         correct_num_args = self._full_num_args if evaluate_constants else self.num_args
 
-- 
2.43.0


From cf77587fad9c388dd39c9ea09448aafbaf57be52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:41 +0000
Subject: [PATCH 15/27] fix: shape of an empty sequence operand

---
 opt_einsum/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index 245db85..cd9683d 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -186,6 +186,8 @@ def get_shape(x: Any) -> TensorShapeType:
         shape = []
         while isinstance(x, Sequence) and not isinstance(x, _BaseTypes):
             shape.append(len(x))
+            if len(x) == 0:
+                break
             x = x[0]
         return tuple(shape)
     else:
-- 
2.43.0


From bbaf941440875c6879309a0e60ce0cda7f0955be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:41 +0000
Subject: [PATCH 16/27] fix: shape of an intermediate where a size-1 dimension
 is broadcast to size 0

---
 opt_einsum/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index cd9683d..485bc8a 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -166,7 +166,8 @@ def find_output_shape(inputs: List[str], shapes: List[TensorShapeType], output:
     >>> oe.parser.find_output_shape(["a", "a"], [(4, ), (1, )], "a")
     (4,)
     """
-    return tuple(max(shape[loc] for shape, loc in zip(shapes, [x.find(c) for x in inputs]) if loc >= 0) for c in output)
+    dims = ([shape[loc] for shape, loc in zip(shapes, [x.find(c) for x in inputs]) if loc >= 0] for c in output)
+    return tuple(0 if 0 in ds else max(ds) for ds in dims)
 
 
 _BaseTypes = (bool, int, float, complex, str, bytes)
-- 
2.43.0


From da4f25ba83e86b1e78a6ea3fdfda1b09a940197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:41 +0000
Subject: [PATCH 17/27] fix: broadcast size-1 dimensions in the object backend

The last operand determined the size of an index: the result was truncated, or
raised IndexError.
---
 opt_einsum/backends/object_arrays.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/opt_einsum/backends/object_arrays.py b/opt_einsum/backends/object_arrays.py
index 8954a18..ba577a9 100644
--- a/opt_einsum/backends/object_arrays.py
+++ b/opt_einsum/backends/object_arrays.py
@@ -36,7 +36,8 @@ def object_einsum(eq: str, *arrays: ArrayType) -> ArrayType:
     sizes = {}
     for term, array in zip(inputs, arrays):
         for k, d in zip(term, array.shape):
-            sizes[k] = d
+            # account for broadcast dimensions
+            sizes[k] = d if sizes.get(k, 1) == 1 else sizes[k]
 
     out_size = tuple(sizes[k] for k in output)
     out = np.empty(out_size, dtype=object)
@@ -50,7 +51,10 @@ def object_einsum(eq: str, *arrays: ArrayType) -> ArrayType:
         def gen_inner_sum():
             for coo_i in np.ndindex(*inner_size):
                 coord.update(dict(zip(inner, coo_i)))
-                locs = (tuple(coord[k] for k in term) for term in inputs)
+                locs = (
+                    tuple(0 if d == 1 else coord[k] for k, d in zip(term, array.shape))
+                    for term, array in zip(inputs, arrays)
+                )
                 elements = (array[loc] for array, loc in zip(arrays, locs))
                 yield functools.reduce(operator.mul, elements)
 
-- 
2.43.0


From f2fd7a74d1e2360aabc3c7ae7aae8178c11a7c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:40 +0000
Subject: [PATCH 18/27] fix: reject paths that don't contract all of the terms

contract(..., optimize=[(0, 1)]) of three terms returned one of the operands.
---
 opt_einsum/contract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index d13670d..74a8efa 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -408,6 +408,9 @@ def contract_path(
         contraction = (contract_inds, idx_removed, einsum_str, remaining, do_blas)
         contraction_list.append(contraction)
 
+    if len(input_list) != 1:
+        raise ValueError(f"The path {path_tuple} does not contract all of the terms to a single one.")
+
     opt_cost = sum(cost_list)
 
     if einsum_call_arg:
-- 
2.43.0


From 39311b7bf5a7a74e4f58698484886f0e86041941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:46 +0000
Subject: [PATCH 19/27] fix: random-greedy trials depended on the iteration
 order of sets

The candidates were enumerated in the order in which sets are iterated, which differs
between processes, so a trial's random cost jitter was applied to other candidates in a
worker process than in a serial search. Enumerate them in a fixed order.
---
 opt_einsum/paths.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index d548d44..d93d320 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -673,8 +673,8 @@ def ssa_greedy_optimize(
 
     # Find initial candidate contractions.
     queue: List[GreedyContractionType] = []
-    for dim, dim_keys in dim_to_keys.items():
-        dim_keys_list = sorted(dim_keys, key=remaining.__getitem__)
+    for dim in sizes:  # not `dim_to_keys`, the order of which depends on how sets are iterated
+        dim_keys_list = sorted(dim_to_keys.get(dim, ()), key=remaining.__getitem__)
         for i, k1 in enumerate(dim_keys_list[:-1]):
             k2s_guess = dim_keys_list[1 + i :]
             _push_candidate(
@@ -725,7 +725,7 @@ def ssa_greedy_optimize(
                 footprints,
                 dim_ref_counts,
                 k1,
-                list(k2s),
+                sorted(k2s, key=remaining.__getitem__),
                 queue,
                 push_all,
                 cost_fn,
-- 
2.43.0


From dac789dbb810ac0e32e04562b939de98160ac8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:27 +0000
Subject: [PATCH 20/27] fix: register_path_fn replaced an existing strategy if
 its name was given in another case

Strategy names are looked up in lower case, and registered in lower case, but whether the
name exists already was checked with the case as given.
---
 opt_einsum/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index d93d320..a7d6bd9 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -1395,7 +1395,7 @@ _PATH_OPTIONS: Dict[str, PathSearchFunctionType] = {
 
 def register_path_fn(name: str, fn: PathSearchFunctionType) -> None:
     """Add path finding function ``fn`` as an option with ``name``."""
-    if name in _PATH_OPTIONS:
+    if name.lower() in _PATH_OPTIONS:
         raise KeyError(f"Path optimizer '{name}' already exists.")
 
     _PATH_OPTIONS[name.lower()] = fn
-- 
2.43.0


From f62fe425c55671ec3abd481a4712fe9cc2f82f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:33 +0000
Subject: [PATCH 21/27] fix: random_greedy raised ValueError when called with a
 single term

---
 opt_einsum/path_random.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opt_einsum/path_random.py b/opt_einsum/path_random.py
index 579e81e..024150c 100644
--- a/opt_einsum/path_random.py
+++ b/opt_einsum/path_random.py
@@ -285,6 +285,12 @@ def ssa_path_compute_cost(
     """Compute the flops and max size of an ssa path."""
     inputs = list(map(frozenset, inputs))
     output = frozenset(output)
+    if len(inputs) == 1:
+        # the path is a single operation on the only term
+        k = inputs[0]
+        cost = helpers.flop_count(k, bool(k - output), 1, size_dict)
+        return cost, helpers.compute_size_by_dict(k & output, size_dict)
+
     remaining = set(range(len(inputs)))
     total_cost = 0
     max_size = 0
-- 
2.43.0


From 3d2a402a6c3907edc7a2b23a5a3f1ec97367ce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:35 +0000
Subject: [PATCH 22/27] fix: convert_to_valid_einsum_chars replaced the dots of
 an ellipsis by an index

---
 opt_einsum/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/parser.py b/opt_einsum/parser.py
index 485bc8a..a9a6b81 100644
--- a/opt_einsum/parser.py
+++ b/opt_einsum/parser.py
@@ -109,7 +109,7 @@ def convert_to_valid_einsum_chars(einsum_str: str) -> str:
     >>> oe.parser.convert_to_valid_einsum_chars("Ĥěļļö")
     'cbdda'
     """
-    symbols = sorted(set(einsum_str) - set(",->"))
+    symbols = sorted(set(einsum_str) - set(".,->"))
     replacer = {x: get_symbol(i) for i, x in enumerate(symbols)}
     return "".join(replacer.get(x, x) for x in einsum_str)
 
-- 
2.43.0


From 9c4f158dc2a1a0da8721f3d1bc1f4f1350b60478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:57 +0000
Subject: [PATCH 23/27] fix: numpy arrays with negative strides could not be
 contracted with backend='torch'

---
 opt_einsum/backends/torch.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opt_einsum/backends/torch.py b/opt_einsum/backends/torch.py
index f7f01f2..a1d2fb7 100644
--- a/opt_einsum/backends/torch.py
+++ b/opt_einsum/backends/torch.py
@@ -102,6 +102,9 @@ def to_torch(array):
     torch, device = _get_torch_and_device()
 
     if has_array_interface(array):
+        if any(stride < 0 for stride in array.strides):
+            # torch does not support negative strides, e.g. of flipped views
+            array = array.copy()
         return torch.from_numpy(array).to(device)
 
     return array
-- 
2.43.0


From 8b6cb28d4bed68e5bbf61f0e4fabddad5ae4cd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:32 +0000
Subject: [PATCH 24/27] fix: write to out also if the backend's einsum does not
 support it

---
 opt_einsum/contract.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/contract.py b/opt_einsum/contract.py
index 74a8efa..80e10ca 100644
--- a/opt_einsum/contract.py
+++ b/opt_einsum/contract.py
@@ -585,7 +585,7 @@ def contract(
     # If no optimization, run pure einsum
     if optimize is False:
         input_subscripts, output_subscript, operands_prepped = parser.parse_einsum_input(operands_list)
-        return _einsum(
+        result = _einsum(
             f"{input_subscripts}->{output_subscript}",
             *operands_prepped,
             backend=parse_backend(operands_prepped, backend),
@@ -593,6 +593,13 @@ def contract(
             **kwargs,
         )
 
+        # not every library's einsum writes to ``out``
+        if out is not None and result is not out:
+            out[...] = result
+            return out
+
+        return result
+
     # Grab non-einsum kwargs
     gen_expression = kwargs.pop("_gen_expression", False)
     constants_dict = kwargs.pop("_constants_dict", {})
@@ -711,6 +718,10 @@ def _core_contract(
                 out_kwarg = out
             new_view = _einsum(einsum_str, *tmp_operands, backend=backend, out=out_kwarg, **kwargs)
 
+            # not every library's einsum writes to ``out``
+            if handle_out and new_view is not out:
+                out[...] = new_view  # type: ignore
+
         # Append new items and dereference what we can
         operands.append(new_view)
         del tmp_operands, new_view
-- 
2.43.0


From 000da96a8370ade10933cf10bda9e1d87f658df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:43 +0000
Subject: [PATCH 25/27] fix: transpose torch tensors without dimensions, as
 needed for a scalar out

---
 opt_einsum/backends/torch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opt_einsum/backends/torch.py b/opt_einsum/backends/torch.py
index a1d2fb7..3ddbf6f 100644
--- a/opt_einsum/backends/torch.py
+++ b/opt_einsum/backends/torch.py
@@ -35,7 +35,7 @@ def _get_torch_and_device():
 
 def transpose(a, axes):
     """Normal torch transpose is only valid for 2D matrices."""
-    return a.permute(*axes)
+    return a.permute(tuple(axes))
 
 
 def einsum(equation, *operands, **kwargs):
-- 
2.43.0


From 1b2ba111785b50a027c19895fe05b85884d01f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:37 +0000
Subject: [PATCH 26/27] fix: optimizers notice a contraction that was changed
 in place

---
 opt_einsum/paths.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index a7d6bd9..e0a0129 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -59,7 +59,8 @@ class PathOptimizer:
         """Utility that stateful optimizers can use to ensure they are not
         called with different contractions across separate runs.
         """
-        args = (inputs, output, size_dict)
+        # N.B. take a copy, so that changes made in place by the caller are seen too
+        args = ([frozenset(term) for term in inputs], frozenset(output), dict(size_dict))
         if not hasattr(self, "_first_call_args"):
             # simply set the attribute as currently there is no global PathOptimizer init
             self._first_call_args = args
-- 
2.43.0


From 1e59cef080bc788ff137435bb07e8307c5618c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:18 +0000
Subject: [PATCH 27/27] fix: raise for a custom DP cost function with an
 unsatisfiable memory limit instead of searching forever

---
 opt_einsum/paths.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opt_einsum/paths.py b/opt_einsum/paths.py
index e0a0129..f9e03da 100644
--- a/opt_einsum/paths.py
+++ b/opt_einsum/paths.py
@@ -7,6 +7,7 @@ import itertools
 import operator
 import random
 import re
+import sys
 from collections import Counter, defaultdict
 from typing import Any, Callable, Dict, FrozenSet, Generator, List, Optional, Sequence, Set, Tuple, Union
 from typing import Counter as CounterType
@@ -1297,11 +1298,14 @@ class DynamicProgramming(PathOptimizer):
                                             contract2,
                                         )
 
-                if (cost_cap > naive_cost) and (len(x[-1]) == 0):
+                if (cost_cap > naive_cost or cost_cap == float("inf")) and (len(x[-1]) == 0):
                     raise RuntimeError("No contraction found for given `memory_limit`.")
 
                 # increase cost cap for next iteration (ensure that it does increase):
                 cost_cap = max(cost_increment * cost_cap, 1)
+                if cost_cap > sys.float_info.max:
+                    # beyond any cost: nothing is known about the scale of the costs of a custom function
+                    cost_cap = float("inf")  # type: ignore
 
             i, cost, contraction = list(x[-1].values())[0]
             subgraph_contractions.append(contraction)
-- 
2.43.0

