"""Symbolic numeric columns for real pandas: an ExtensionArray holding symbolic numbers."""
import numbers

import numpy as np
import pandas as pd
from pandas.api.extensions import ExtensionArray, ExtensionDtype

from . import core
from .core import SymBase, SymNum, SymReal, SymInt


class _SymDtype(ExtensionDtype):
    na_value = np.nan
    _is_numeric = True

    @classmethod
    def construct_array_type(cls):
        return SymArray

    @classmethod
    def construct_from_string(cls, string):
        if string == cls.name:
            return cls()
        raise TypeError(f'cannot construct {cls.__name__} from {string}')

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        return isinstance(o, type(self)) or (isinstance(o, str) and o == self.name)


class SymIntDtype(_SymDtype):
    name = 'int64sym'
    type = int
    kind = 'i'


class SymFloatDtype(_SymDtype):
    name = 'float64sym'
    type = float
    kind = 'f'


def _isfloat(v):
    return isinstance(v, (float, np.floating))


class SymArray(ExtensionArray):
    __array_priority__ = 2e9

    def __init__(self, values, dtype=None, copy=False):
        if isinstance(values, SymArray):
            dtype = dtype or values.dtype
            values = values._v
        v = np.empty(len(values), dtype=object)
        for i, x in enumerate(values):
            v[i] = x
        if dtype is None:
            dtype = SymFloatDtype() if any(_isfloat(x) for x in v) else SymIntDtype()
        if isinstance(dtype, SymFloatDtype):
            for i in range(len(v)):
                if isinstance(v[i], SymInt):
                    v[i] = v[i].to_real()
                elif not isinstance(v[i], SymBase) and v[i] is not None:
                    v[i] = float(v[i])
        self._v = v
        self._dtype = dtype

    # -- required interface
    @classmethod
    def _from_sequence(cls, scalars, dtype=None, copy=False):
        return cls(list(scalars), dtype=dtype if isinstance(dtype, _SymDtype) else None)

    @classmethod
    def _from_factorized(cls, values, original):
        return cls(values, dtype=original.dtype)

    def __getitem__(self, item):
        if isinstance(item, (int, np.integer)):
            return self._v[item]
        if isinstance(item, SymInt):
            return self._v[int(item)]
        item = _mask(item)
        return SymArray(self._v[item], dtype=self._dtype)

    def __setitem__(self, key, value):
        self._v[_mask(key)] = value

    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v)

    @property
    def dtype(self):
        return self._dtype

    @property
    def nbytes(self):
        return self._v.nbytes

    def isna(self):
        return np.array([x is None or (not isinstance(x, SymBase) and isinstance(x, float) and x != x)
                         for x in self._v], dtype=bool)

    def take(self, indices, allow_fill=False, fill_value=None):
        indices = np.asarray(indices, dtype=int)
        if allow_fill:
            out = []
            for i in indices:
                if i < -1:
                    raise ValueError('bad index')
                out.append(np.nan if i == -1 else self._v[i])
            return SymArray(out, dtype=self._dtype)
        return SymArray(self._v.take(indices), dtype=self._dtype)

    def copy(self, deep=True):
        return SymArray(self._v.copy(), dtype=self._dtype)

    @classmethod
    def _concat_same_type(cls, to_concat):
        vals = []
        for a in to_concat:
            vals.extend(a._v)
        d = SymFloatDtype() if any(isinstance(a.dtype, SymFloatDtype) for a in to_concat) else SymIntDtype()
        return cls(vals, dtype=d)

    def _values_for_factorize(self):
        return self._v, np.nan

    def _values_for_argsort(self):
        return self._v

    def argsort(self, ascending=True, kind='quicksort', *a, **k):
        idx = sorted(range(len(self._v)), key=lambda i: self._v[i])
        if not ascending:
            idx = idx[::-1]
        return np.array(idx, dtype=int)

    def factorize(self, na_sentinel=-1):
        codes, uniq = [], []
        for x in self._v:
            for j, u in enumerate(uniq):
                if x is u or bool(x == u):
                    codes.append(j)
                    break
            else:
                codes.append(len(uniq))
                uniq.append(x)
        return np.array(codes, dtype=np.int64), SymArray(uniq, dtype=self._dtype)

    def unique(self):
        return self.factorize()[1]

    def nunique(self):
        return len(self.unique())

    def astype(self, dtype, copy=True):
        if isinstance(dtype, _SymDtype):
            return SymArray(self._v, dtype=dtype)
        s = str(dtype)
        if dtype is float or 'float' in s:
            return SymArray(self._v, dtype=SymFloatDtype())
        if dtype is int or s.startswith('int') or "'int'" in s:
            return SymArray([core.sym_int(x) if isinstance(x, SymNum) else int(x) for x in self._v],
                            dtype=SymIntDtype())
        if dtype is object or s == 'object':
            return self._v.copy()
        if dtype is str or s.startswith('<U') or s == 'str':
            # text for a file: written once, read back as numbers
            return np.array([core.ctx().magic(x) if isinstance(x, SymNum) else str(x) for x in self._v], dtype=object)
        if dtype is bool or s == 'bool':
            return np.array([bool(x) for x in self._v], dtype=bool)
        core.raise_unsupported(f'astype {dtype}')

    def __array__(self, dtype=None, copy=None):
        return self._v.copy() if dtype is None else np.asarray(self._v, dtype=dtype)

    def tolist(self):
        return list(self._v)

    def item(self):
        return self._v[0]

    @property
    def ravel(self):
        return lambda *a, **k: self

    @property
    def flat(self):
        return self._v.flat

    # -- operators (element-wise; comparisons fork per element)
    def _other(self, o):
        if isinstance(o, (pd.Series, pd.Index)):
            o = o.values
        if isinstance(o, SymArray):
            return list(o._v)
        if isinstance(o, (list, tuple, np.ndarray)) and not np.isscalar(o) and np.ndim(o) == 1:
            if len(o) != len(self):
                raise ValueError('Lengths must match')
            return list(o)
        return None

    def _cmp(self, o, f):
        lst = self._other(o)
        if lst is None:
            lst = [o] * len(self)
        out = np.empty(len(self), dtype=bool)
        for i, (a, b) in enumerate(zip(self._v, lst)):
            out[i] = bool(f(a, b))
        return out

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._cmp(o, lambda a, b: a == b)
    def __ne__(self, o): return self._cmp(o, lambda a, b: a != b)

    def _arith(self, o, f):
        lst = self._other(o)
        if lst is None:
            lst = [o] * len(self)
        return SymArray([f(a, b) for a, b in zip(self._v, lst)])

    def __add__(self, o): return self._arith(o, lambda a, b: a + b)
    def __radd__(self, o): return self._arith(o, lambda a, b: b + a)
    def __sub__(self, o): return self._arith(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._arith(o, lambda a, b: b - a)
    def __mul__(self, o): return self._arith(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._arith(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._arith(o, lambda a, b: a / b)
    def __rtruediv__(self, o): return self._arith(o, lambda a, b: b / a)
    def __neg__(self): return SymArray([-a for a in self._v])

    def _reduce(self, name, skipna=True, **k):
        vals = list(self._v)
        if name in ('max', 'min'):
            if not vals:
                return np.nan
            r = core.extremum(name, vals)
            if r is not None:
                return r
            r = vals[0]
            for v in vals[1:]:
                if bool(v > r) if name == 'max' else bool(v < r):
                    r = v
            return r
        if name == 'sum':
            r = 0
            for v in vals:
                r = r + v
            return r
        if name == 'mean':
            if not vals:
                return np.nan
            r = 0
            for v in vals:
                r = r + v
            return r / len(vals)
        if name in ('any', 'all'):
            return (any if name == 'any' else all)(bool(v) for v in vals)
        core.raise_unsupported('reduction ' + name)

    def max(self, *a, **k): return self._reduce('max')
    def min(self, *a, **k): return self._reduce('min')
    def sum(self, *a, **k): return self._reduce('sum')
    def mean(self, *a, **k): return self._reduce('mean')
    def any(self, *a, **k): return self._reduce('any')
    def all(self, *a, **k): return self._reduce('all')

    def isin(self, values):
        vals = list(values)
        return np.array([any(bool(x == v) for v in vals) for x in self._v], dtype=bool)

    def fillna(self, value=None, method=None, limit=None):
        return self.copy()

    def map(self, f, *a, **k):
        return np.array([f(x) for x in self._v], dtype=object)

    def _formatting_values(self):
        return self._v

    def _formatter(self, boxed=False):
        return str

    def __repr__(self):
        return f'SymArray({[str(type(x).__name__) for x in self._v]})'


def _mask(item):
    if isinstance(item, (pd.Series, pd.Index)):
        item = item.values
    if isinstance(item, list):
        item = np.asarray(item)
    if isinstance(item, np.ndarray) and item.dtype == object:
        item = np.array([bool(x) for x in item], dtype=bool)
    return item


def as_column(values):
    """list -> pandas column: SymArray if any element is symbolic"""
    vals = list(values)
    if any(isinstance(v, SymBase) for v in vals):
        return SymArray(vals)
    return vals


def frame(columns, rows):
    data = {}
    df = pd.DataFrame(index=range(len(rows)))
    for j, c in enumerate(columns):
        df[c] = as_column([r[j] for r in rows])
    return df


# --------------------------------------------------------------------------- patches (symbolic process only)
def _numeric_dtype(dt):
    return isinstance(dt, _SymDtype) or (isinstance(dt, np.dtype) and dt.kind in 'iuf')


def install():
    real_values = pd.DataFrame.values.fget

    def values(self):
        dts = list(self.dtypes)
        if not any(isinstance(d, _SymDtype) for d in dts):
            return real_values(self)
        n, m = self.shape
        anyf = any(isinstance(d, SymFloatDtype) or (isinstance(d, np.dtype) and d.kind == 'f') for d in dts)
        allnum = all(_numeric_dtype(d) for d in dts)
        out = np.empty((n, m), dtype=object)
        for j in range(m):
            col = self.iloc[:, j]
            vals = list(col.array if isinstance(col.dtype, _SymDtype) else col.values)
            for i, v in enumerate(vals):
                if allnum and anyf:
                    v = v.to_real() if isinstance(v, SymInt) else (v if isinstance(v, SymBase) else np.float64(v))
                elif isinstance(v, np.generic):
                    v = v.item()   # object interleaving boxes native python numbers
                out[i, j] = v
        return out
    pd.DataFrame.values = property(values)
    pd.DataFrame.to_numpy = lambda self, dtype=None, copy=False: values(self)

    real_apply = pd.Series.apply

    def apply(self, func, convert_dtype=True, args=(), **kwds):
        if isinstance(self.dtype, _SymDtype) or any(isinstance(x, SymBase) for x in self.values):
            vals = [func(x, *args, **kwds) for x in self.array]
            return pd.Series(_col(vals), index=self.index, name=self.name)
        r = [func(x, *args, **kwds) for x in self.values] if len(self) else []
        if any(isinstance(x, SymBase) for x in r):
            return pd.Series(_col(r), index=self.index, name=self.name)
        return real_apply(self, func, convert_dtype=convert_dtype, args=args, **kwds)
    pd.Series.apply = apply
    real_map = pd.Series.map

    def smap(self, arg, na_action=None):
        if callable(arg) and not isinstance(arg, (dict, pd.Series)):
            return apply(self, arg)
        return real_map(self, arg, na_action)
    pd.Series.map = smap

    def _col(vals):
        if any(isinstance(v, SymBase) for v in vals):
            if all(isinstance(v, (int, float, np.integer, np.floating)) for v in vals):
                return SymArray(vals)
            a = np.empty(len(vals), dtype=object)
            for i, v in enumerate(vals):
                a[i] = v
            return a
        return vals

    real_isin = pd.Series.isin

    def isin(self, values):
        if isinstance(self.dtype, _SymDtype) or any(isinstance(v, SymBase) for v in values):
            vals = list(values)
            return pd.Series([any(bool(x == v) for v in vals) for x in self.array], index=self.index, name=self.name,
                             dtype=bool)
        return real_isin(self, values)
    pd.Series.isin = isin

    # real read_csv parses the magic numbers; turn the columns that hold them into symbolic columns
    real_read_csv = pd.read_csv

    def read_csv(*a, **k):
        df = real_read_csv(*a, **k)
        c = core.CTX
        if c is None or not c.symbolic or not isinstance(df, pd.DataFrame):
            return df
        for col in df.columns:
            vals = list(df[col].values)
            lifted = [c.lift(v) if isinstance(v, (int, float, np.integer, np.floating)) else v for v in vals]
            if any(isinstance(v, SymBase) for v in lifted):
                isf = df[col].dtype.kind == 'f'
                df[col] = SymArray(lifted, dtype=SymFloatDtype() if isf else SymIntDtype())
        return df
    pd.read_csv = read_csv
