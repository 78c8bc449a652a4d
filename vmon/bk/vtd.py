"""Recording backend without einsum."""
from vrec_base import RecBase, make


class Arr(RecBase):
    pass


tensordot, transpose = make(Arr, "vtd", False)
