"""Contract of typed texts (core.types.smart_coerce), stated independently of the code."""
from pyvc.models import *
from pyvc.core import z3
from pyvc.values import uf, zstr, LOWER, STRIP

S = z3.StringSort()
IS_INT, INT = uf('is_int_text', S, z3.BoolSort()), uf('int_of_text', S, z3.IntSort())
IS_FLOAT, FLOAT = uf('is_float_text', S, z3.BoolSort()), uf('float_of_text', S, z3.RealSort())


def typed(z, v):
    """Condition: v is the typed value of the text z (null/none, true/false in any case, integer, number, else itself)."""
    low = LOWER(z)
    null, true, false = z3.Or(low == 'null', low == 'none'), low == 'true', low == 'false'
    if v is None:
        return null
    if isinstance(v, bool):
        return z3.And(z3.Not(null), true if v else z3.And(false, z3.Not(true)))
    if isinstance(v, SymBool):
        return z3.And(z3.Not(null), z3.Or(true, false), v.z == true)
    word = z3.Or(null, true, false)
    if isinstance(v, (int, SymInt)):
        return z3.And(z3.Not(word), IS_INT(z), znum(v) == INT(z))
    if isinstance(v, (float, SymReal)):
        return z3.And(z3.Not(word), z3.Not(IS_INT(z)), IS_FLOAT(z), znum(v) == FLOAT(z))
    if zstr(v) is not None:
        return z3.And(z3.Not(word), z3.Not(IS_INT(z)), z3.Not(IS_FLOAT(z)), zstr(v) == z)
    return False
