"""symx core: path-forking symbolic execution of real Python code with z3.

Real Python code is executed by CPython with proxy values (SymInt / SymReal /
SymBool) whose operators build z3 terms.  Whenever the code needs a concrete
boolean (``if``, ``while``, ``in``, sorting, hashing, indexing ...) the engine asks the
solver which outcomes are feasible under the current path condition, follows one
and queues the other.  Paths are re-executed from scratch from a decision prefix,
so no state needs to be snapshotted.
"""
import sys
import time
from fractions import Fraction

if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402
import numpy as np  # noqa: E402

CTX = None  # the active context (one per process)

SOLVER_TIMEOUT_MS = 4000


class PathEnd(BaseException):
    """Base of the engine's control exceptions (never derive from Exception)."""


class Pruned(PathEnd):
    pass


class Unsupported(PathEnd):
    pass


class Violation(PathEnd):
    pass


class Hang(PathEnd):
    """The code under test waits for something that can never happen."""


def ctx():
    if CTX is None:
        raise RuntimeError('no active symx context')
    return CTX


# --------------------------------------------------------------------------- values
_EQ_CACHE_OK = True


def _is_num(x):
    return isinstance(x, (int, float, np.integer, np.floating, np.bool_, Fraction)) and not isinstance(x, SymBase)


def const_of(x):
    """python number -> z3 constant (int -> Int, float -> exact rational Real)"""
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    x = float(x)
    if x != x or x in (float('inf'), float('-inf')):
        raise_unsupported('non-finite float meets a symbolic value')
    f = Fraction(x)
    return z3.RealVal(f'{f.numerator}/{f.denominator}')


def raise_unsupported(reason):
    c = CTX
    if c is not None:
        c.unsupported = c.unsupported or str(reason)
    raise Unsupported(reason)


class SymBase:
    __slots__ = ()
    __array_ufunc__ = None
    __array_priority__ = 1e9


class SymBool(SymBase):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ctx().decide(self.e)

    @property
    def __class__(self):
        return bool

    def __and__(self, o):
        if isinstance(o, np.ndarray):
            return np.array([bool(self) and bool(v) for v in o.ravel()]).reshape(o.shape)
        return SymBool(z3.And(self.e, b_expr(o)))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray):
            return np.array([bool(self) or bool(v) for v in o.ravel()]).reshape(o.shape)
        return SymBool(z3.Or(self.e, b_expr(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, b_expr(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def _num(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __eq__(self, o):
        if type(o) is SymBool or isinstance(o, (bool, np.bool_)):
            return SymBool(self.e == b_expr(o))
        return self._num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return SymBool(z3.Not(r.e)) if type(r) is SymBool else (not r)

    def __hash__(self):
        return hash(bool(self))

    def __repr__(self):
        return f'SymBool({self.e})'

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __add__(self, o): return self._num() + o
    __radd__ = __add__
    def __sub__(self, o): return self._num() - o
    def __rsub__(self, o): return o - self._num()
    def __mul__(self, o): return self._num() * o
    __rmul__ = __mul__
    def __truediv__(self, o): return self._num() / o
    def __rtruediv__(self, o): return o / self._num()
    def __lt__(self, o): return self._num() < o
    def __le__(self, o): return self._num() <= o
    def __gt__(self, o): return self._num() > o
    def __ge__(self, o): return self._num() >= o


def b_expr(o):
    if type(o) is SymBool:
        return o.e
    if isinstance(o, (bool, np.bool_)):
        return z3.BoolVal(bool(o))
    if isinstance(o, SymNum):
        return o.e != 0
    if z3.is_expr(o):
        return o
    return z3.BoolVal(bool(o))


def _elementwise(op, a, arr, swap, boolean):
    """a (Sym) op arr (ndarray), element by element"""
    out = np.empty(arr.shape, dtype=bool if boolean else object)
    flat_in = arr.ravel()
    flat = out.ravel()
    for i in range(flat_in.shape[0]):
        v = flat_in[i]
        r = op(v, a) if swap else op(a, v)
        flat[i] = bool(r) if boolean else r
    return flat.reshape(arr.shape)


class SymNum(SymBase):
    __slots__ = ()

    # ---- arithmetic
    def _bin(self, o, fn, opname):
        if isinstance(o, np.ndarray):
            import operator
            return _elementwise(getattr(operator, opname), self, o, False, False)
        e = num_expr(o)
        if e is None:
            return NotImplemented
        return fn(self.e, e)

    def _rbin(self, o, fn, opname):
        if isinstance(o, np.ndarray):
            import operator
            return _elementwise(getattr(operator, opname), self, o, True, False)
        e = num_expr(o)
        if e is None:
            return NotImplemented
        return fn(e, self.e)

    def __add__(self, o): return self._bin(o, lambda a, b: wrap(_arith(a, b, 0)), 'add')
    def __radd__(self, o): return self._rbin(o, lambda a, b: wrap(_arith(a, b, 0)), 'add')
    def __sub__(self, o): return self._bin(o, lambda a, b: wrap(_arith(a, b, 1)), 'sub')
    def __rsub__(self, o): return self._rbin(o, lambda a, b: wrap(_arith(a, b, 1)), 'sub')
    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: wrap(_arith(a, b, 2)), 'mul')
    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple)):
            return o * self.__index__()
        return self._rbin(o, lambda a, b: wrap(_arith(a, b, 2)), 'mul')

    def __truediv__(self, o): return self._bin(o, _truediv, 'truediv')
    def __rtruediv__(self, o): return self._rbin(o, _truediv, 'truediv')
    def __floordiv__(self, o): return self._bin(o, _floordiv, 'floordiv')
    def __rfloordiv__(self, o): return self._rbin(o, _floordiv, 'floordiv')
    def __mod__(self, o): return self._bin(o, _mod, 'mod')
    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return self._rbin(o, _mod, 'mod')
    def __divmod__(self, o): return self // o, self % o

    def __pow__(self, o, m=None):
        if isinstance(o, np.ndarray):
            return self._bin(o, None, 'pow')
        if isinstance(o, SymBase):
            raise_unsupported('symbolic exponent on symbolic base')
        o2 = float(o)
        if o2 == int(o2) and 0 <= o2 <= 6:
            o2 = int(o2)
            if o2 == 0:
                return 1 if isinstance(self, SymInt) else 1.0
            r = self
            for _ in range(o2 - 1):
                r = r * self
            if isinstance(o, (float, np.floating)) and type(r) is SymInt:
                r = r.to_real()
            return r
        if o2 == 0.5:
            return sym_sqrt(self)
        if o2 == int(o2) and -6 <= o2 < 0:
            return 1 / (self ** (-int(o2)))
        raise_unsupported(f'power {o}')

    def __rpow__(self, o):
        if _is_num(o) and float(o) == 2.0:
            return pow2(self)
        raise_unsupported(f'{o} ** symbolic')

    def __neg__(self): return wrap(-self.e)
    def __pos__(self): return self
    def __abs__(self): return wrap(z3.If(self.e >= 0, self.e, -self.e))

    # ---- comparisons
    def _cmp(self, o, k, opname):
        if isinstance(o, np.ndarray):
            import operator
            return _elementwise(getattr(operator, opname), self, o, False, True)
        if isinstance(o, SymBool):
            o = o._num()
        if isinstance(o, (float, np.floating)) and not isinstance(o, SymBase):
            f = float(o)
            if f != f:
                return k == 5
            if f == float('inf'):
                return k in (0, 1, 5)
            if f == float('-inf'):
                return k in (2, 3, 5)
        e = num_expr(o)
        if e is None:
            return NotImplemented
        a, b = _coerce(self.e, e)
        if k == 0: r = a < b
        elif k == 1: r = a <= b
        elif k == 2: r = a > b
        elif k == 3: r = a >= b
        elif k == 4: r = a == b
        else: r = a != b
        return SymBool(r)

    def __lt__(self, o): return self._cmp(o, 0, 'lt')
    def __le__(self, o): return self._cmp(o, 1, 'le')
    def __gt__(self, o): return self._cmp(o, 2, 'gt')
    def __ge__(self, o): return self._cmp(o, 3, 'ge')
    def __eq__(self, o): return self._cmp(o, 4, 'eq')
    def __ne__(self, o): return self._cmp(o, 5, 'ne')

    def __bool__(self):
        return ctx().decide(self.e != 0)

    def __str__(self):
        return ctx().magic(self)

    def __repr__(self):
        return ctx().magic(self) if CTX is not None and CTX.symbolic else f'{type(self).__name__}({self.e})'

    def __format__(self, spec):
        m = _re.fullmatch(r'[<>=^]?[+ ]?0?\d*(?:\.(\d+))?([fFgGeE]?)', spec)
        if m is None:
            if spec in ('d', 'n'):
                return ctx().magic(self)
            raise_unsupported(f'format {spec!r}')
        digits, kind = m.group(1), m.group(2).lower()
        if kind == '' and digits is None:
            return ctx().magic(self)
        digits = 6 if digits is None else int(digits)
        if kind == 'e':
            kind, digits = 'g', digits + 1
        return ctx().magic_rounded(self, kind or 'g', max(digits, 1) if kind != 'f' else digits)

    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __reduce__(self):
        c = ctx()
        if not c.opts.get('pickle'):
            raise_unsupported('pickling a symbolic value')
        c.__dict__.setdefault('pickled', []).append(self)
        return _unpickle, (len(c.pickled) - 1,)

    def item(self): return self
    def conjugate(self): return self
    @property
    def real(self): return self
    def __complex__(self): raise_unsupported('complex')


def _unpickle(k):
    return ctx().pickled[k]


class SymInt(SymNum):
    __slots__ = ('e', '_h')

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return int

    def to_real(self):
        return SymReal(z3.ToReal(self.e))

    def __hash__(self):
        c = ctx()
        if c.opts.get('int_hash') == 'eq':   # sets/dicts fork on equality instead of enumerating values
            return c.real_hash(self)
        return hash(c.concretize(self.e))

    def __index__(self):
        return ctx().concretize(self.e)

    def __int__(self):
        return ctx().concretize(self.e)

    def __float__(self):
        return float(ctx().concretize(self.e))

    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    def __round__(self, n=None): return self
    def is_integer(self): return True
    def bit_length(self): return ctx().concretize(self.e).bit_length()

    def astype(self, t):
        if 'float' in str(t):
            return self.to_real()
        return self


class SymReal(SymNum):
    __slots__ = ('e', '_h')

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return float

    def __hash__(self):
        # reals are hashed by canonicalising against the reals hashed so far and against 0
        return ctx().real_hash(self)

    def __float__(self):
        raise_unsupported('float() of a symbolic real in native code')

    def __int__(self):
        return int(sym_int(self))

    def __index__(self):
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __trunc__(self): return sym_int(self)
    def __floor__(self): return SymInt(z3.ToInt(self.e))
    def __ceil__(self): return SymInt(-z3.ToInt(-self.e))
    def __round__(self, n=None): return sym_round(self, n)
    def is_integer(self): return SymBool(z3.IsInt(self.e))

    def astype(self, t):
        if 'int' in str(t):
            return sym_int(self)
        return self


def num_expr(o):
    if isinstance(o, SymNum):
        return o.e
    if type(o) is SymBool:
        return o._num().e
    if _is_num(o):
        if CTX is not None:
            o2 = CTX.lift(o)
            if isinstance(o2, SymNum):
                return o2.e
        return const_of(o)
    return None


def _coerce(a, b):
    if a.is_int() and not b.is_int():
        a = z3.ToReal(a) if not z3.is_int_value(a) else z3.RealVal(a.as_long())
    elif b.is_int() and not a.is_int():
        b = z3.ToReal(b) if not z3.is_int_value(b) else z3.RealVal(b.as_long())
    return a, b


def _arith(a, b, k):
    a, b = _coerce(a, b)
    if k == 0: return a + b
    if k == 1: return a - b
    return a * b


def wrap(e):
    if z3.is_bool(e):
        return SymBool(e)
    return SymInt(e) if e.is_int() else SymReal(e)


def _to_real(e):
    if e.is_int():
        return z3.RealVal(e.as_long()) if z3.is_int_value(e) else z3.ToReal(e)
    return e


def _truediv(a, b):
    a, b = _to_real(a), _to_real(b)
    if ctx().decide(b == 0):
        raise ZeroDivisionError('float division by zero')
    return SymReal(a / b)


def _floordiv(a, b):
    if a.is_int() and b.is_int():
        if ctx().decide(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if ctx().decide(b > 0):
            return SymInt(a / b)
        return SymInt((-a) / (-b))
    a, b = _to_real(a), _to_real(b)
    if ctx().decide(b == 0):
        raise ZeroDivisionError('float floor division by zero')
    return SymReal(z3.ToReal(z3.ToInt(a / b)))


def _mod(a, b):
    if a.is_int() and b.is_int():
        if ctx().decide(b == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if ctx().decide(b > 0):
            return SymInt(a % b)
        return SymInt(-((-a) % (-b)))
    q = _floordiv(a, b)
    a, b = _to_real(a), _to_real(b)
    return SymReal(a - b * q.e)


POW2 = z3.Function('pow2', z3.RealSort(), z3.RealSort())


def pow2(x):
    """2**x as an uninterpreted monotone function with exact values at small integers."""
    c = ctx()
    e = _to_real(x.e)
    t = POW2(e)
    c.add_axioms_pow2(e, t)
    return SymReal(t)


def _nonneg(e):
    """syntactically >= 0"""
    if z3.is_rational_value(e):
        return e.numerator_as_long() >= 0
    k = e.decl().kind()
    if k in (z3.Z3_OP_ADD,):
        return all(_nonneg(c) for c in e.children())
    if k == z3.Z3_OP_MUL:
        cs = [c for c in e.children() if not _nonneg(c)]
        while cs:
            c = cs.pop()
            j = next((i for i, d in enumerate(cs) if d.eq(c)), None)
            if j is None:
                return False
            cs.pop(j)
        return True
    if k == z3.Z3_OP_POWER:
        n = e.children()[1]
        return z3.is_rational_value(n) and n.denominator_as_long() == 1 and n.numerator_as_long() % 2 == 0
    if k == z3.Z3_OP_DIV:
        return all(_nonneg(c) for c in e.children())
    return False


def sym_sqrt(x):
    if not isinstance(x, SymNum):
        import math
        return math.sqrt(x)
    c = ctx()
    e = z3.simplify(_to_real(x.e))
    if not _nonneg(z3.simplify(_to_real(x.e), som=False)) and c.decide(e < 0):
        raise ValueError('math domain error')
    return c.sqrt_var(e)


def sym_int(x):
    """int(x): truncation toward zero"""
    if isinstance(x, SymInt):
        return x
    if ctx().decide(x.e >= 0):
        return SymInt(z3.ToInt(x.e))
    return SymInt(-z3.ToInt(-x.e))


def sym_round(x, n=None):
    if isinstance(x, SymInt):
        return x
    c = ctx()
    if n is None:
        # nearest int, ties anywhere in between (harnesses must tolerate both)
        v = c.fresh_int('round')
        c.add(z3.And(z3.ToReal(v) - x.e <= z3.Q(1, 2), x.e - z3.ToReal(v) <= z3.Q(1, 2)))
        return SymInt(v)
    return c.round_var(z3.simplify(x.e), int(n))


# --------------------------------------------------------------------------- context
class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.decisions = 0
        self.checks = 0


import os as _os
import re as _re
FORK_LOG = _os.environ.get('SYMX_FORKS')


class Ctx:
    """Symbolic context for one path."""
    symbolic = True
    MAGIC_BASE = 7300000000000

    def __init__(self, prefix=(), opts=None):
        self.prefix = list(prefix)
        self.opts = opts or {}
        self.trace = []          # decisions taken on this path
        self.alternatives = []   # prefixes to explore later
        self.solver = z3.Solver()
        self.solver.set('timeout', SOLVER_TIMEOUT_MS)
        self.model = None
        self.inputs = {}         # name -> (kind, expr or concrete)
        self.order = []
        self.stats = Stats()
        self.unsupported = None
        self.pruned = None
        self.incomplete = []     # branches the solver could not decide
        self.undecided = []      # property queries the solver could not decide
        self.failed = None
        self.ended = None
        self._magic = {}
        self._magic_by_id = {}
        self._magic_n = 0
        self._fresh = 0
        self._sqrt = []
        self._round = []
        self._pow2 = []
        self._rhash = []
        self._strs = []
        self.notes = []
        self.depth_limit = self.opts.get('max_decisions', 4000)

    # ---- solver plumbing
    def _check(self, *assumptions):
        t = time.perf_counter()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.perf_counter() - t
        self.stats.queries += 1
        self._alt = None
        if r == z3.unknown and _os.environ.get('SYMX_UNK'):
            open(_os.environ['SYMX_UNK'], 'a').write(str(self.solver.assertions()) + '\n??' + str(assumptions) + '\n\n')
        if r == z3.unknown:     # second opinion: the nonlinear real procedure
            t = time.perf_counter()
            try:
                alt = z3.Then('simplify', 'solve-eqs', 'qfnra-nlsat').solver()
                alt.set('timeout', SOLVER_TIMEOUT_MS)
                alt.add(self.solver.assertions())
                alt.add(*assumptions)
                r = alt.check()
                if r == z3.sat:
                    self._alt = alt.model()
            except z3.Z3Exception:
                r = z3.unknown
            self.stats.solver_s += time.perf_counter() - t
            self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    _alt = None

    def _last_model(self):
        return self._alt if self._alt is not None else self.solver.model()

    def add(self, e):
        """conjoin a definitional constraint (must not make the path infeasible)"""
        self.solver.add(e)
        if self.model is not None:
            if not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None

    def _ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self._last_model()
            elif r == z3.unsat:
                self.prune('infeasible')
            else:
                raise_unsupported('solver gave no model for the path condition')
        return self.model

    def prune(self, why):
        self.pruned = self.pruned or why
        raise Pruned(why)

    def _alive(self):
        if self.pruned is not None:
            raise Pruned(self.pruned)
        if self.ended is not None:
            raise Violation(self.ended)
        if self.unsupported is not None:
            raise Unsupported(self.unsupported)

    def assume(self, cond):
        if not self._is_sym(cond):
            if not cond:
                self.prune('assume')
            return
        self._alive()
        e = z3.simplify(b_expr(cond))
        if z3.is_true(e):
            return
        if z3.is_false(e):
            self.prune('assume')
        self.add(e)
        if self.model is None and len(self.trace) >= len(self.prefix):
            self._ensure_model()

    def decide(self, e):
        self._alive()
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        self.stats.decisions += 1
        pos = len(self.trace)
        if pos > self.depth_limit:
            self.prune('decision limit')
        if pos < len(self.prefix):
            kind, v = self.prefix[pos][0], self.prefix[pos][1]
            if kind != 'b':
                raise_unsupported('non-deterministic re-execution')
            self.trace.append(('b', v))
            self.solver.add(e if v else z3.Not(e))
            self.model = None
            return v
        m = self._ensure_model()
        v = z3.is_true(m.eval(e, model_completion=True))
        other = z3.Not(e) if v else e
        self.solver.push()
        self.solver.add(other)
        r = self._check()
        self.solver.pop()
        if r == z3.sat:
            if FORK_LOG:
                import traceback
                with open(FORK_LOG, 'a') as f:
                    f.write(' < '.join(f'{x.filename.split("/")[-1]}:{x.lineno}:{x.name}' for x in reversed(traceback.extract_stack(limit=9)[:-2])) + '\n')
            self.alternatives.append(self.trace + [('b', not v)])
        elif r == z3.unknown:
            self.incomplete.append('branch undecided by the solver')
        self.trace.append(('b', v))
        if r != z3.unsat:
            self.solver.add(e if v else z3.Not(e))
        return v

    def concretize(self, e):
        """Fork over the feasible integer values of e; returns a python int."""
        self._alive()
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        self.stats.decisions += 1
        pos = len(self.trace)
        excl = []
        if pos < len(self.prefix):
            ent = self.prefix[pos]
            if ent[0] != 'c':
                raise_unsupported('non-deterministic re-execution')
            v, excl = ent[1], list(ent[2])
            last = pos == len(self.prefix) - 1
            self.trace.append(('c', v, tuple(excl)))
            if last:
                self._push_conc_alt(e, excl + [v], pos)
            self.solver.add(e == v)
            self.model = None
            return v
        m = self._ensure_model()
        v = m.eval(e, model_completion=True).as_long()
        self.trace.append(('c', v, ()))
        self._push_conc_alt(e, [v], pos)
        self.solver.add(e == v)
        return v

    def _push_conc_alt(self, e, excl, pos):
        if len(excl) >= self.opts.get('max_conc', 64):
            self.incomplete.append('concretisation limit')
            return
        self.solver.push()
        for x in excl:
            self.solver.add(e != x)
        r = self._check()
        if r == z3.sat:
            v2 = self._last_model().eval(e, model_completion=True).as_long()
            self.alternatives.append(self.trace[:pos] + [('c', v2, tuple(excl))])
        elif r == z3.unknown:
            self.incomplete.append('concretisation undecided')
        self.solver.pop()

    # ---- inputs
    def _reg(self, name, kind, e):
        if name in self.inputs:
            raise RuntimeError('duplicate input ' + name)
        self.inputs[name] = (kind, e)
        return e

    def int(self, name, lo=None, hi=None):
        e = self._reg(name, 'int', z3.Int(name))
        if lo is not None:
            self.solver.add(e >= lo)
        if hi is not None:
            self.solver.add(e <= hi)
        self.model = None
        if lo is not None and lo == hi:
            return lo
        return SymInt(e)

    def real(self, name, lo=None, hi=None):
        e = self._reg(name, 'real', z3.Real(name))
        if lo is not None:
            self.solver.add(e >= _to_real(const_of(lo)))
        if hi is not None:
            self.solver.add(e <= _to_real(const_of(hi)))
        self.model = None
        return SymReal(e)

    def bool(self, name):
        """a concrete bool, both values explored"""
        e = self._reg(name, 'bool', z3.Bool(name))
        return self.decide(e)

    def choice(self, name, options):
        """a concrete element of options, every element explored"""
        options = list(options)
        if len(options) == 1:
            return options[0]
        e = self._reg(name, 'int', z3.Int(name))
        self.solver.add(e >= 0, e < len(options))
        self.model = None
        return options[self.concretize(e)]

    def cint(self, name, lo, hi):
        """a concretised int in [lo, hi]"""
        if lo == hi:
            return lo
        e = self._reg(name, 'int', z3.Int(name))
        self.solver.add(e >= lo, e <= hi)
        self.model = None
        return self.concretize(e)

    def fresh_int(self, hint):
        self._fresh += 1
        return z3.Int(f'${hint}{self._fresh}')

    def fresh_real(self, hint):
        self._fresh += 1
        return z3.Real(f'${hint}{self._fresh}')

    # ---- canonicalised derived values
    def sqrt_var(self, e):
        if z3.is_rational_value(e):
            f = Fraction(e.numerator_as_long(), e.denominator_as_long())
            import math
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return SymReal(z3.RealVal(f'{n}/{d}'))
        for e2, v in self._sqrt:
            if e2.eq(e):
                return SymReal(v)
        v = self.fresh_real('sqrt')
        self.add(z3.And(v >= 0, v * v == e))
        for e2, v2 in self._sqrt:   # congruence and monotonicity, linear hints
            self.add(z3.Implies(e2 == e, v2 == v))
        self._sqrt.append((e, v))
        return SymReal(v)

    def round_var(self, e, n):
        for e2, n2, v in self._round:
            if n2 == n and e2.eq(e):
                return SymReal(v)
        v = self.fresh_real('round')
        tol = z3.Q(1, 2 * 10 ** n)
        self.add(z3.And(v - e <= tol, e - v <= tol))
        for e2, n2, v2 in self._round:
            if n2 == n:
                self.add(z3.Implies(e2 == e, v2 == v))
        self._round.append((e, n, v))
        return SymReal(v)

    def add_axioms_pow2(self, e, t):
        for e2, _ in self._pow2:
            if e2.eq(e):
                return
        self.solver.add(t > 0)
        for k in range(-2, 9):
            val = z3.RealVal(str(Fraction(2) ** k))
            self.solver.add(z3.Implies(e == k, t == val), z3.Implies(e > k, t > val), z3.Implies(e < k, t < val))
        for e2, t2 in self._pow2:
            self.solver.add(z3.Implies(e < e2, t < t2), z3.Implies(e > e2, t > t2))
        self._pow2.append((e, t))
        self.model = None

    def real_hash(self, x):
        e = z3.simplify(x.e)
        if z3.is_int_value(e):
            return hash(e.as_long())
        if z3.is_rational_value(e):
            f = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return hash(float(f)) if Fraction(float(f)) == f else hash(f)
        for e2, h in self._rhash:
            if e2.eq(e):
                return h
        # equal to an integer-valued small number? (so that it meets concrete keys)
        for k in self.opts.get('hash_consts', ()):
            if self.decide(e == k):
                h = hash(k)
                self._rhash.append((e, h))
                return h
        for e2, h in list(self._rhash):
            if self.decide(e2 == e):
                self._rhash.append((e, h))
                return h
        h = 1000003 + len(self._rhash)
        self._rhash.append((e, h))
        return h

    # ---- magic tokens: symbolic values inside text
    def magic(self, v):
        e = z3.simplify(v.e)
        if z3.is_int_value(e):
            return str(e.as_long())
        if z3.is_rational_value(e):
            f = Fraction(e.numerator_as_long(), e.denominator_as_long())
            return repr(float(f))
        key = (e.get_id(), isinstance(v, SymInt))
        if key in self._magic_by_id:
            return self._magic_by_id[key]
        self._magic_n += 1
        n = self.MAGIC_BASE + self._magic_n
        w = SymInt(e) if e.is_int() else SymReal(e)
        if e.is_int():
            self._magic[n] = w
            s = str(n)
        else:
            self._magic[n + 0.5] = w
            s = f'{n}.5'
        self._magic_by_id[key] = s
        self.notes.append(e)  # keep the ast alive so ids stay unique
        return s

    def magic_rounded(self, v, kind, digits):
        """text of a number with a limited number of digits; its value is worked out only if the text is read back"""
        e = z3.simplify(_to_real(v.e))
        if z3.is_rational_value(e):
            return format(float(Fraction(e.numerator_as_long(), e.denominator_as_long())), f'.{digits}{kind}')
        key = (e.get_id(), kind, digits)
        if key not in self._magic_by_id:
            self._magic_n += 1
            n = self.MAGIC_BASE + self._magic_n + 0.5
            self._magic[n] = lambda: self._rounded(e, kind, digits)
            self._magic_by_id[key] = str(n)
            self.notes.append(e)
        return self._magic_by_id[key]

    def _rounded(self, e, kind, digits):
        places = digits
        if kind == 'g':
            a = z3.If(e >= 0, e, -e)
            if self.decide(e == 0):
                return SymReal(z3.RealVal(0))
            for exp in range(5, -5, -1):
                if self.decide(a >= z3.RealVal(str(Fraction(10) ** exp))):
                    break
            else:
                raise_unsupported('text of a tiny number')
            if exp >= digits or self.decide(a >= 10 ** (exp + 1)):
                raise_unsupported('text of a large number')
            places = digits - 1 - exp
        k = self.fresh_int('text')
        d = z3.ToReal(k) - e * 10 ** places
        self.add(z3.And(d <= z3.Q(1, 2), -d <= z3.Q(1, 2)))
        return SymReal(z3.simplify(z3.ToReal(k) / 10 ** places))

    def lift(self, v):
        """magic number -> symbolic value"""
        if isinstance(v, SymBase) or isinstance(v, (bool, np.bool_)):
            return v
        if isinstance(v, (int, float, np.integer, np.floating)):
            if self._magic_n and -1e13 < v < 1e13 and (v > 7e12 or v < -7e12):
                f = float(v)
                if f > 0:
                    if f == int(f) and int(f) in self._magic:
                        w = self._magic[int(f)]
                        if isinstance(v, (float, np.floating)):
                            return w.to_real()
                        return w
                    if f in self._magic:
                        if callable(self._magic[f]):
                            self._magic[f] = self._magic[f]()
                        return self._magic[f]
                else:
                    r = self.lift(-v)
                    if isinstance(r, SymBase):
                        return -r
        return v

    def str_token(self, v):
        """canonical str(): equal values get equal text"""
        isf = isinstance(v, float)
        if isinstance(v, SymNum):
            e = z3.simplify(v.e)
            if z3.is_int_value(e):
                v = e.as_long()
            elif z3.is_rational_value(e):
                v = float(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        if not isinstance(v, SymNum):
            s = str(v)
            if isinstance(v, (int, float, np.integer, np.floating)):
                for w, t, f in self._strs:
                    if isinstance(w, SymNum) and f == isf and self.decide((w == v).e):
                        return t
                self._strs.append((v, s, isf))
            return s
        for w, t, f in self._strs:
            if f == isf:
                r = (v == w)
                if (self.decide(r.e) if isinstance(r, SymBool) else r):
                    return t
        s = self.magic(v)
        self._strs.append((v, s, isf))
        return s

    def cover(self, goal):
        self.__dict__.setdefault('covered', set()).add(goal)

    # ---- the property
    def _is_sym(self, c):
        return isinstance(c, SymBase) or z3.is_expr(c)

    def check(self, cond, msg, **info):
        """Assert the property: solver query  path-condition AND NOT cond."""
        self._alive()
        self.stats.checks += 1
        if not self._is_sym(cond):
            if cond:
                return
            self._ensure_model()
            self._fail(msg, info)
        e = z3.simplify(b_expr(cond))
        if z3.is_true(e):
            return
        self.solver.push()
        self.solver.add(z3.Not(e))
        r = self._check()
        if r == z3.sat:
            self.model = self._last_model()
            self._fail(msg, info)
        self.solver.pop()
        if r == z3.unknown:
            self.undecided.append(msg)
        self.add(e)

    def check_close(self, a, b, msg, tol=1e-6, **info):
        """|a-b| <= tol * max(1,|b|) style assertion (floats stand in for reals)"""
        if isinstance(a, SymBase) or isinstance(b, SymBase):
            d = a - b
            t = Fraction(tol).limit_denominator(10 ** 12)
            if isinstance(d, SymNum):
                te = z3.RealVal(str(t))
                de = _to_real(d.e)
                self.check(SymBool(z3.And(de <= te, -de <= te)), msg, **info)
                return
            self.check(abs(d) <= tol, msg, **info)
        else:
            self.check(close(a, b, tol), f'{msg} [{a!r} vs {b!r}]', **info)

    def _fail(self, msg, info):
        self.failed = {'msg': str(msg), 'info': {k: str(v) for k, v in info.items()},
                       'inputs': self.extract_inputs()}
        self.ended = str(msg)
        raise Violation(msg)

    def extract_inputs(self, nice=True):
        """concrete values of the inputs in the current model (prefers short decimals)"""
        try:
            m = self._nice_model() if nice else None
        except z3.Z3Exception:
            m = None
        if m is None:
            m = self.model
            if m is None:
                if self.solver.check() == z3.sat:
                    m = self._last_model()
                else:
                    return None
        out = {}
        for name, (kind, e) in self.inputs.items():
            v = m.eval(e, model_completion=True)
            if kind == 'int':
                out[name] = v.as_long()
            elif kind == 'bool':
                out[name] = z3.is_true(v)
            else:
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                out[name] = float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        return out

    def _nice_model(self):
        reals = [e for k, e in self.inputs.values() if k == 'real']
        self.solver.set('timeout', 1500)
        try:
            for denom in (1, 4, 64):
                self.solver.push()
                for i, e in enumerate(reals):
                    v = z3.Int(f'$nice{i}')
                    self.solver.add(e * denom == z3.ToReal(v))
                r = self._check()
                m = self._last_model() if r == z3.sat else None
                self.solver.pop()
                if m is not None:
                    return m
                if not reals:
                    return None
        finally:
            self.solver.set('timeout', SOLVER_TIMEOUT_MS)
        return None


def close(a, b, tol=1e-6):
    if isinstance(a, SymBase) or isinstance(b, SymBase):
        t = Fraction(tol).limit_denominator(10 ** 12)
        d = a - b
        if isinstance(d, SymNum):
            te = z3.RealVal(str(t))
            de = _to_real(d.e)
            return SymBool(z3.And(de <= te, -de <= te))
        return abs(d) <= tol
    a, b = float(a), float(b)
    if a != a or b != b:
        return False
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


class ConcreteCtx:
    """Same interface, concrete inputs: used to replay a path on the real stack."""
    symbolic = False

    def __init__(self, inputs, opts=None):
        self.given = dict(inputs or {})
        self.opts = opts or {}
        self.failed = None
        self.pruned = None
        self.unsupported = None
        self.ended = None
        self.stats = Stats()
        self.notes = []
        self.missing = []

    rand = None      # replay of coverage goals: inputs are drawn at random

    def cover(self, goal):
        self.__dict__.setdefault('covered', set()).add(goal)

    def _get(self, name, default):
        if name not in self.given:
            self.missing.append(name)
            return default
        return self.given[name]

    def _alive(self):
        if self.pruned is not None:
            raise Pruned(self.pruned)
        if self.ended is not None:
            raise Violation(self.ended)

    def prune(self, why):
        self.pruned = self.pruned or why
        raise Pruned(why)

    def assume(self, cond):
        if not cond:
            self.prune('assume')

    def int(self, name, lo=None, hi=None):
        if lo is not None and lo == hi:
            return lo
        if self.rand is not None:
            return self.rand.randint(-100 if lo is None else lo, 100 if hi is None else hi)
        v = int(self._get(name, lo if lo is not None else 0))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            self.prune('input out of range')
        return v

    cint = int

    def real(self, name, lo=None, hi=None):
        if self.rand is not None:
            return self.rand.uniform(-100 if lo is None else lo, 100 if hi is None else hi)
        return float(self._get(name, lo if lo is not None else 0.0))

    def bool(self, name):
        if self.rand is not None:
            return self.rand.random() < 0.5
        return bool(self._get(name, False))

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        i = self._get(name, 0) if self.rand is None else self.rand.randrange(len(options))
        if not 0 <= i < len(options):
            self.prune('choice out of range')
        return options[i]

    def lift(self, v):
        return v

    def check(self, cond, msg, **info):
        self._alive()
        self.stats.checks += 1
        if isinstance(cond, np.bool_):
            cond = bool(cond)
        if not cond:
            self.failed = {'msg': str(msg), 'info': {k: str(v) for k, v in info.items()}}
            self.ended = str(msg)
            raise Violation(msg)

    def check_close(self, a, b, msg, tol=1e-6, **info):
        self.check(close(a, b, tol), f'{msg} [{a!r} vs {b!r}]', **info)


# --------------------------------------------------------------------------- helpers for harnesses
def And(*xs):
    if all(not isinstance(x, SymBase) for x in xs):
        return all(bool(x) for x in xs)
    return SymBool(z3.And(*[b_expr(x) for x in xs]))


def Or(*xs):
    if all(not isinstance(x, SymBase) for x in xs):
        return any(bool(x) for x in xs)
    return SymBool(z3.Or(*[b_expr(x) for x in xs]))


def Not(x):
    return SymBool(z3.Not(x.e)) if isinstance(x, SymBase) else (not x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if not isinstance(a, SymBase) and not isinstance(b, SymBase):
        return bool(a) == bool(b)
    return SymBool(b_expr(a) == b_expr(b))


def If(c, a, b):
    if not isinstance(c, SymBase):
        return a if c else b
    ea, eb = _coerce(num_expr(a), num_expr(b))
    return wrap(z3.If(c.e, ea, eb))


def extremum(name, vals):
    """minimum / maximum of real values without forking, or None when the values are not of that kind"""
    if not vals or not all(isinstance(v, (SymReal, float)) for v in vals) or not any(isinstance(v, SymReal) for v in vals):
        return None
    c = ctx()
    key = (name, tuple(sorted(num_expr(v).get_id() for v in vals)))
    memo = c.__dict__.setdefault('_extrema', {})
    if key not in memo:
        es = [_to_real(num_expr(v)) for v in vals]
        x = c.fresh_real(name)
        c.add(z3.And(z3.Or(*[x == e for e in es]), *[x >= e if name == 'max' else x <= e for e in es]))
        memo[key] = (SymReal(x), es)    # the expressions stay alive: their ids are the key
    return memo[key][0]


def Sum(xs):
    r = 0
    for x in xs:
        r = r + x
    return r


def is_sym(x):
    return isinstance(x, SymBase)
