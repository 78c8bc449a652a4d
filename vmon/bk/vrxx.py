"""Recording backend, with almost the same name as another, that accepts the arrays of any recording backend."""
from vrec_base import RecBase, make


class Arr(RecBase):
    pass


tensordot, transpose, einsum = make(Arr, "vrxx", True, RecBase)
