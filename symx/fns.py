"""Symbolic-aware versions of the builtins and math functions DRecPy calls."""
import builtins
import math as _math
import types

import numpy as np

from . import core
from .core import SymBase, SymBool, SymInt, SymNum, SymReal


def _lift(v):
    c = core.CTX
    return c.lift(v) if c is not None else v


def sx_float(x=0.0):
    if isinstance(x, SymReal):
        return x
    if isinstance(x, SymInt):
        return x.to_real()
    if type(x) is SymBool:
        return x._num().to_real()
    return _lift(builtins.float(x))


def sx_int(x=0, *a):
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymReal):
        return core.sym_int(x)
    if type(x) is SymBool:
        return x._num()
    if a:
        return builtins.int(x, *a)
    return _lift(builtins.int(x))


def sx_str(x='', *a):
    if a:
        return builtins.str(x, *a)
    c = core.CTX
    if c is not None and c.symbolic and isinstance(x, (int, float, np.integer, np.floating)) \
            and not isinstance(x, (bool, np.bool_)):
        if type(x) is float and not x.is_integer() and not (x * 1e6).is_integer():
            return builtins.str(x)  # random file / table names: never equal to the text of another number
        return c.str_token(_lift(x))
    return builtins.str(x)


def sx_repr(x):
    if isinstance(x, SymNum):
        return core.CTX.str_token(x)
    return builtins.repr(x)


def sx_round(x, n=None):
    if isinstance(x, SymNum):
        return core.sym_round(x, n)
    return builtins.round(x, n) if n is not None else builtins.round(x)


def sx_type(x):
    if isinstance(x, SymBase):
        return x.__class__
    return builtins.type(x)


def sx_eval(src, g=None, l=None):
    if isinstance(src, str):
        try:
            r = builtins.eval(src, g, l)
        except core.PathEnd:
            raise
        return _lift(r)
    return builtins.eval(src, g, l)


def sx_sum(xs, start=0):
    r = start
    for x in xs:
        r = r + x
    return r


def sx_abs(x):
    return builtins.abs(x)


def sx_min(*a, **k):
    return builtins.min(*a, **k)


def sx_max(*a, **k):
    return builtins.max(*a, **k)


CALLS = {'float': sx_float, 'int': sx_int, 'str': sx_str, 'round': sx_round, 'type': sx_type,
         'eval': sx_eval, 'repr': sx_repr}


# ---- math
def _mk_math():
    m = types.ModuleType('math')
    for k in dir(_math):
        setattr(m, k, getattr(_math, k))

    def guard(name):
        real = getattr(_math, name)

        def f(*a):
            if any(isinstance(v, SymBase) for v in a):
                core.raise_unsupported('math.' + name)
            return real(*a)
        return f
    for name in ('log', 'log10', 'log1p', 'exp', 'sin', 'cos', 'tan', 'atan', 'fmod', 'isclose'):
        setattr(m, name, guard(name))

    def log2(x):
        if isinstance(x, SymInt):
            x = int(x)
        if isinstance(x, SymBase):
            core.raise_unsupported('math.log2')
        return _math.log2(x)

    def pow(x, y):
        if not (isinstance(x, SymBase) or isinstance(y, SymBase)):
            return _math.pow(x, y)
        x, y = sx_float(x), sx_float(y)
        return x ** y

    def exp2(x):
        return sx_float(2.0 ** x) if isinstance(x, SymBase) else _math.exp2(x)

    def hypot(*xs):
        if not any(isinstance(x, SymBase) for x in xs):
            return _math.hypot(*xs)
        return sqrt(sum(sx_float(x) * sx_float(x) for x in xs))

    def sqrt(x):
        return core.sym_sqrt(x) if isinstance(x, SymNum) else _math.sqrt(x)

    def floor(x):
        return x.__floor__() if isinstance(x, SymNum) else _math.floor(x)

    def ceil(x):
        return x.__ceil__() if isinstance(x, SymNum) else _math.ceil(x)

    def fabs(x):
        return abs(sx_float(x))

    def isnan(x):
        return False if isinstance(x, SymNum) else _math.isnan(x)

    def isinf(x):
        return False if isinstance(x, SymNum) else _math.isinf(x)

    def isfinite(x):
        return True if isinstance(x, SymNum) else _math.isfinite(x)

    def fsum(xs):
        return sx_sum(xs)

    def trunc(x):
        return core.sym_int(x) if isinstance(x, SymNum) else _math.trunc(x)

    def prod(xs, start=1):
        r = start
        for x in xs:
            r = r * x
        return r
    for f in (log2, pow, exp2, hypot, sqrt, floor, ceil, fabs, isnan, isinf, isfinite, fsum, trunc, prod):
        setattr(m, f.__name__, f)
    return m


math = _mk_math()
