"""Stand-ins for array libraries that are not installed: a device library (cupy) and a symbolic one without einsum (theano)."""
import contextlib
import sys
import types

import numpy as np


def make_cupy():
    m = types.ModuleType("cupy")

    class ndarray:
        def __init__(self, data):
            if not isinstance(data, np.ndarray):
                raise TypeError(f"cupy.ndarray of {type(data)}")
            self._data = data

        shape = property(lambda s: s._data.shape)
        dtype = property(lambda s: s._data.dtype)
        ndim = property(lambda s: s._data.ndim)

        def get(self):
            m.log.append("get")
            return np.array(self._data)

    ndarray.__module__ = "cupy"

    def arr(x):
        if not isinstance(x, ndarray):
            raise TypeError(f"cupy was given a {type(x)}")
        return x._data

    def asarray(x):
        if not isinstance(x, np.ndarray):
            raise TypeError(f"cupy.asarray of {type(x)}")
        m.log.append("asarray")
        return ndarray(np.array(x))

    def einsum(eq, *ops, **kw):
        m.log.append("einsum")
        return ndarray(np.asarray(np.einsum(eq, *map(arr, ops), **kw)))

    def tensordot(a, b, axes=2):
        m.log.append("tensordot")
        return ndarray(np.asarray(np.tensordot(arr(a), arr(b), axes)))

    def transpose(a, axes=None):
        m.log.append("transpose")
        return ndarray(np.transpose(arr(a), axes))

    m.ndarray, m.asarray, m.einsum, m.tensordot, m.transpose, m.log = ndarray, asarray, einsum, tensordot, transpose, []
    return m


def make_theano():
    m = types.ModuleType("theano")
    t = types.ModuleType("theano.tensor")

    class Var:
        def __init__(self, ndim, fn=None, parents=()):
            self.ndim, self.fn, self.parents = ndim, fn, parents

        @property
        def shape(self):
            raise AttributeError("symbolic shape")

        def value(self, env):
            if self in env:
                return env[self]
            if self.fn is None:
                raise ValueError("unbound theano variable")
            env[self] = r = self.fn(*[p.value(env) for p in self.parents])
            return r

        def eval(self):
            t.log.append("eval")
            return np.asarray(self.value({}))

    class TensorVariable(Var):
        pass

    class TensorConstant(Var):
        def __init__(self, data):
            super().__init__(data.ndim, lambda: data)
            self.data = data

    for c in (Var, TensorVariable, TensorConstant):
        c.__module__ = "theano.tensor.var"

    class TensorType:
        def __init__(self, dtype, broadcastable):
            self.dtype, self.b = np.dtype(dtype), list(broadcastable)

        def __call__(self):
            return TensorVariable(len(self.b))

    def constant(x):
        return TensorConstant(np.array(x))

    def need(*xs):
        for x in xs:
            if not isinstance(x, Var):
                raise TypeError(f"theano was given a {type(x)}")

    def tensordot(a, b, axes=2):
        need(a, b)
        ax = (tuple(axes[0]), tuple(axes[1]))
        t.log.append("tensordot")
        return TensorVariable(a.ndim + b.ndim - 2 * len(ax[0]), lambda x, y: np.tensordot(x, y, ax), (a, b))

    def transpose(a, axes):
        need(a)
        t.log.append("transpose")
        ax = tuple(axes)
        return TensorVariable(a.ndim, lambda x: np.transpose(x, ax), (a,))

    def function(ins, out):
        need(*ins)
        if any(isinstance(i, TensorConstant) for i in ins):
            raise TypeError("a constant cannot be an input of a theano function")
        if len(set(map(id, ins))) != len(ins):
            raise ValueError("repeated input variable")

        def call(*arrays):
            if len(arrays) != len(ins):
                raise TypeError(f"theano function of {len(ins)} inputs called with {len(arrays)}")
            for a, i in zip(arrays, ins):
                if not isinstance(a, np.ndarray) or a.ndim != i.ndim:
                    raise TypeError("bad input to a theano function")
            m.calls += 1
            return np.asarray(out.value(dict(zip(ins, arrays))))

        return call

    t.TensorVariable, t.TensorConstant, t.TensorType, t.constant = TensorVariable, TensorConstant, TensorType, constant
    t.tensordot, t.transpose, t.log = tensordot, transpose, []
    m.tensor, m.function, m.calls = t, function, 0
    return m


def make_tf1():
    """TensorFlow as it was before eager execution: placeholders, constants, graphs and sessions."""
    m = types.ModuleType("tensorflow")
    m.log, m.sessions = [], []

    class Op:
        def __init__(self, type):
            self.type = type

    class Tensor:
        def __init__(self, type, shape, dtype, fn=None, parents=()):
            self.op, self.shape, self.dtype, self.fn, self.parents = Op(type), tuple(shape), np.dtype(dtype), fn, parents

        def value(self, env):
            if id(self) not in env:
                if self.fn is None:
                    raise ValueError("You must feed a value for a placeholder")
                env[id(self)] = self.fn(*[p.value(env) for p in self.parents])
            return env[id(self)]

    Tensor.__module__ = "tensorflow.python.framework.ops"

    def node(name, fn, ops, probe):
        for x in ops:
            if not isinstance(x, Tensor):
                raise TypeError(f"tensorflow was given a {type(x)}")
        m.log.append(name)
        r = probe(*[np.zeros(x.shape, x.dtype) for x in ops])
        return Tensor(name, r.shape, r.dtype, fn, tuple(ops))

    def simple(name, ops, fn):
        return node(name, fn, ops, fn)

    class Session:
        def run(self, fetches, feed_dict=None):
            env = {}
            for p, a in (feed_dict or {}).items():
                if not isinstance(p, Tensor) or not isinstance(a, np.ndarray):
                    raise TypeError(f"a {type(a)} was fed for a {type(p)}")
                if p.shape != a.shape or p.dtype != a.dtype:
                    raise ValueError(f"a {a.dtype} array of shape {a.shape} was fed for a {p.dtype} tensor of shape {p.shape}")
                env[id(p)] = np.array(a)
            m.log.append("run")
            if isinstance(fetches, (list, tuple)):
                return [np.asarray(f.value(env)) for f in fetches]
            return np.asarray(fetches.value(env))

        @contextlib.contextmanager
        def as_default(self):
            m.sessions.append(self)
            try:
                yield self
            finally:
                m.sessions.pop()

    def placeholder(dtype, shape):
        m.log.append("placeholder")
        return Tensor("Placeholder", shape, dtype)

    def convert_to_tensor(x):
        if isinstance(x, Tensor):
            return x
        x = np.array(x)
        m.log.append("constant")
        return Tensor("Const", x.shape, x.dtype, lambda: x)

    def axes_of(axes):
        return axes if not isinstance(axes, (tuple, list)) else (tuple(axes[0]), tuple(axes[1]))

    m.Tensor, m.Session, m.placeholder, m.convert_to_tensor, m.constant = Tensor, Session, placeholder, convert_to_tensor, convert_to_tensor
    m.get_default_session = lambda: m.sessions[-1] if m.sessions else None
    m.tensordot = lambda a, b, axes=2: simple("tensordot", (a, b), lambda x, y, ax=axes_of(axes): np.asarray(np.tensordot(x, y, ax)))
    m.transpose = lambda a, axes=None: simple("transpose", (a,), lambda x, ax=tuple(axes): np.transpose(x, ax))
    m.einsum = lambda eq, *ops: simple("einsum", ops, lambda *x: np.asarray(np.einsum(eq, *x)))
    m.device = lambda name: contextlib.nullcontext()
    m.test = types.SimpleNamespace(gpu_device_name=lambda: "")
    return m


class Module:
    pass


_COUNT = [0]


def make_module(rng):
    """A new array library: its module, its class, which functions it has.  Strict: it takes only its own arrays."""
    _COUNT[0] += 1
    k = Module()
    k.name = rng.choice(("vlib", "vlib", "vlib", "numpyish", "torch_like", "jaxtra", "Vlib", "_vlib", "object_", "autogradient")) + str(_COUNT[0])
    mod = types.ModuleType(k.name)
    place = rng.choice(("", ".core", ".core.array", ".numpy", "._src.core.impl.arrays.cpu", ".torch.tensor", ".a.b.c.d.e.f.g.h"))
    cname = rng.choice(("Arr", "Arr", "ndarray", "Tensor"))
    kind = rng.choice(("einsum", "einsum", "no einsum", "subclass"))
    if kind == "subclass":
        # an ndarray subclass in a module without any function: NumPy's functions are meant
        cls = type(cname, (np.ndarray,), {"__module__": k.name + place})
        k.wrap, k.unwrap, k.has = (lambda x: np.array(x).view(cls)), np.asarray, ("einsum", "tensordot", "transpose")
    else:
        class cls:
            __slots__ = ("d",)

            def __init__(self, d):
                self.d = d

            shape = property(lambda s: s.d.shape)
            ndim = property(lambda s: s.d.ndim)

        cls.__name__ = cls.__qualname__ = cname
        cls.__module__ = k.name + place

        def get(x):
            if type(x) is not cls:
                raise TypeError(f"{k.name} was given a {type(x)}")
            return x.d

        mod.tensordot = lambda a, b, axes=2: cls(np.asarray(np.tensordot(get(a), get(b), axes)))
        mod.transpose = lambda a, axes=None: cls(np.transpose(get(a), axes))
        k.has = ("tensordot", "transpose")
        if kind == "einsum":
            mod.einsum = lambda eq, *ops: cls(np.asarray(np.einsum(eq, *map(get, ops))))
            k.has += ("einsum",)
        k.wrap, k.unwrap = (lambda x: cls(np.array(x))), get
    k.cls, k.about = cls, f"{cname}{place} ({kind})"
    sys.modules[k.name] = mod
    return k


_MODS = {}


@contextlib.contextmanager
def installed(name):
    """The stand-in, importable while the context lasts."""
    if name not in _MODS:
        _MODS[name] = {"cupy": make_cupy, "theano": make_theano}[name]()
    m = _MODS[name]
    names = {"cupy": {"cupy": m}, "theano": {"theano": m, "theano.tensor": getattr(m, "tensor", None)}}[name]
    if any(k in sys.modules and sys.modules[k] is not v for k, v in names.items()):
        raise RuntimeError(f"{name} is there already")
    sys.modules.update(names)
    try:
        yield m
    finally:
        for k in names:
            sys.modules.pop(k, None)
