"""Run in a fresh process: contractions through a stand-in for TensorFlow in graph mode.  argv: repository root."""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
sys.path.insert(1, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np  # noqa: E402

from vmon import fakes  # noqa: E402

tf = fakes.make_tf1()
if sys.argv[2] == "told":
    tf.executing_eagerly = lambda: False
sys.modules["tensorflow"] = tf
sys.pycache_prefix = "/nonexistent/vmon-no-cache"  # always from the current source
import opt_einsum as oe  # noqa: E402
sys.pycache_prefix = None


def arr(x):
    return np.array(x[1], x[2]).reshape(x[0])


def plain(r):
    if isinstance(r, tf.Tensor):
        return ["tensor", list(r.shape)]
    if not isinstance(r, (np.ndarray, np.generic)):
        return ["other", str(type(r))]
    return ["array", list(r.shape), str(r.dtype), np.asarray(r).reshape(-1).tolist()]


def run(c):
    ops = [arr(a) if i in c["consts"] else tuple(s) for i, (a, s) in enumerate(zip(c["values"], c["shapes"]))]
    opt = [tuple(s) for s in c["optimize"]] if isinstance(c["optimize"], list) else c["optimize"]
    e = oe.contract_expression(c["eq"], *ops, constants=c["consts"], optimize=opt)
    out = []
    sess = tf.Session()
    with sess.as_default():
        for use, values in c["calls"]:
            v = [arr(a) for a in values]
            if use == "numpy":
                r = e(*v)
            elif use == "tensors":
                g = e(*[tf.convert_to_tensor(a) for a in v])
                if not isinstance(g, tf.Tensor):
                    r = g
                else:
                    r = sess.run(g)
            elif use == "contract":
                r = sess.run(oe.contract(c["eq"], *[tf.convert_to_tensor(a) for a in v], optimize=opt))
            elif use == "share":
                with oe.shared_intermediates():
                    r = e(*v, backend="tensorflow")
                    k = len(tf.log)
                    r2 = e(*v, backend="tensorflow")
                    if set(tf.log[k:]) - {"run"} or not np.array_equal(r, r2):
                        out.append(["repeated", tf.log[k:]])
                        continue
            else:
                r = e(*v, backend="tensorflow")
            out.append(plain(r))
    return out


def main():
    res = []
    for c in json.load(sys.stdin):
        try:
            res.append(run(c))
        except Exception as ex:
            res.append([["error", f"{type(ex).__name__}: {ex}"[:400]]])
    json.dump({"file": oe.__file__, "ops": {k: tf.log.count(k) for k in set(tf.log)}, "out": res}, sys.stdout)


main()
