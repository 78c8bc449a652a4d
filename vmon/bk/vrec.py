"""Recording backend with einsum, tensordot and transpose."""
from vrec_base import RecBase, make


class Arr(RecBase):
    pass


tensordot, transpose, einsum = make(Arr, "vrec", True)
