"""Like vpy, without einsum."""
import vpy


class Arr(vpy.Arr):
    pass


transpose, tensordot = vpy.transpose, vpy.tensordot
