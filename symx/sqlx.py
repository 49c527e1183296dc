"""A small SQL engine with the sqlite3 DB-API surface, able to hold symbolic numbers.

Used only in the symbolic process; replays use the real sqlite3.  Database identity lives in
the file (a token), so os.remove / os.rename / os.path.isfile keep working on real paths.
"""
import os
import re
import types
import weakref

import numpy as np

from . import core
from .core import SymBase, SymBool, SymInt, SymNum, SymReal

NULL = None


class Error(Exception):
    pass


class DatabaseError(Error):
    pass


class OperationalError(DatabaseError):
    pass


class ProgrammingError(DatabaseError):
    pass


class IntegrityError(DatabaseError):
    pass


class InterfaceError(Error):
    pass


# --------------------------------------------------------------------------- lexer / parser
TOK = re.compile(r"""\s*(?:
    (?P<num>\d+\.\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|\d+(?:[eE][+-]?\d+)?)
  | (?P<id>[A-Za-z_][A-Za-z_0-9]*)
  | "(?P<dq>(?:[^"]|"")*)"
  | '(?P<sq>(?:[^']|'')*)'
  | `(?P<bt>[^`]*)`
  | \[(?P<br>[^\]]*)\]
  | (?P<op><>|<=|>=|==|!=|\|\||[-+*/%(),.;=<>?])
)""", re.X)


def lex(s):
    out, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise OperationalError(f'unrecognized token: "{s[i:i+10]}"')
        i = m.end()
        k = m.lastgroup
        v = m.group(k)
        if k == 'dq':
            v = v.replace('""', '"')
        if k == 'sq':
            v = v.replace("''", "'")
        if k in ('bt', 'br'):
            k = 'qid'
        out.append((k, v))
    return out


RESERVED = {'from', 'where', 'group', 'order', 'limit', 'and', 'or', 'not', 'in', 'is', 'null', 'select', 'distinct',
            'by', 'having', 'on', 'join', 'inner', 'left', 'cross', 'union', 'set', 'values', 'as', 'asc', 'desc',
            'between', 'like', 'exists', 'case', 'when', 'then', 'else', 'end', 'offset', 'cast', 'all', 'except',
            'intersect', 'outer', 'natural', 'using', 'into', 'insert', 'update', 'delete'}


class P:
    def __init__(self, sql):
        self.t = lex(sql)
        self.i = 0
        self.np = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def kw(self, *words):
        for j, w in enumerate(words):
            k, v = self.peek(j)
            if k != 'id' or v.lower() != w:
                return False
        self.i += len(words)
        return True

    def iskw(self, *words):
        for j, w in enumerate(words):
            k, v = self.peek(j)
            if k != 'id' or v.lower() != w:
                return False
        return True

    def op(self, o):
        k, v = self.peek()
        if k == 'op' and v == o:
            self.i += 1
            return True
        return False

    def need(self, o):
        if not self.op(o):
            raise OperationalError(f'near "{self.peek()[1]}": syntax error')

    def needkw(self, w):
        if not self.kw(w):
            raise OperationalError(f'near "{self.peek()[1]}": syntax error')

    def name(self):
        k, v = self.peek()
        if k in ('id', 'dq', 'qid', 'sq'):
            self.i += 1
            return v
        raise OperationalError(f'near "{v}": syntax error')

    # ---- expressions
    def expr(self):
        return self.p_or()

    def p_or(self):
        a = self.p_and()
        while self.kw('or'):
            a = ('or', a, self.p_and())
        return a

    def p_and(self):
        a = self.p_not()
        while self.kw('and'):
            a = ('and', a, self.p_not())
        return a

    def p_not(self):
        if self.iskw('not') and not self.iskw('not', 'exists'):
            self.kw('not')
            return ('not', self.p_not())
        return self.p_cmp()

    def p_cmp(self):
        a = self.p_add()
        while True:
            k, v = self.peek()
            if k == 'op' and v in ('=', '==', '!=', '<>', '<', '<=', '>', '>='):
                self.i += 1
                b = self.p_add()
                a = ('cmp', {'==': '=', '<>': '!='}.get(v, v), a, b)
            elif self.kw('is', 'not'):
                a = ('isnot', a, self.p_add())
            elif self.kw('is'):
                a = ('is', a, self.p_add())
            elif self.iskw('not', 'in') or self.iskw('in'):
                neg = self.kw('not')
                self.kw('in')
                a = ('in', a, self.p_inlist(), neg)
            elif self.iskw('not', 'between') or self.iskw('between'):
                neg = self.kw('not')
                self.kw('between')
                lo = self.p_add()
                self.needkw('and')
                hi = self.p_add()
                e = ('and', ('cmp', '>=', a, lo), ('cmp', '<=', a, hi))
                a = ('not', e) if neg else e
            elif self.kw('not', 'null') or self.kw('notnull'):
                a = ('isnot', a, ('lit', None))
            elif self.kw('isnull'):
                a = ('is', a, ('lit', None))
            elif self.iskw('like') or self.iskw('not', 'like'):
                neg = self.kw('not')
                self.kw('like')
                e = ('like', a, self.p_add())
                a = ('not', e) if neg else e
            else:
                return a

    def p_inlist(self):
        if not self.op('('):
            t = self.name()
            return ('sel', {'distinct': False, 'cols': [('*', None)], 'from': ('table', t, None), 'where': None,
                            'group': None, 'having': None, 'order': None, 'limit': None, 'offset': None, 'comp': None})
        if self.iskw('select'):
            s = self.select()
            self.need(')')
            return ('sel', s)
        items = []
        if not self.op(')'):
            items.append(self.expr())
            while self.op(','):
                items.append(self.expr())
            self.need(')')
        return ('list', items)

    def p_add(self):
        a = self.p_mul()
        while True:
            k, v = self.peek()
            if k == 'op' and v in ('+', '-', '||'):
                self.i += 1
                a = ('arith', v, a, self.p_mul())
            else:
                return a

    def p_mul(self):
        a = self.p_un()
        while True:
            k, v = self.peek()
            if k == 'op' and v in ('*', '/', '%'):
                self.i += 1
                a = ('arith', v, a, self.p_un())
            else:
                return a

    def p_un(self):
        if self.op('-'):
            return ('neg', self.p_un())
        if self.op('+'):
            return self.p_un()
        return self.p_prim()

    def p_prim(self):
        k, v = self.peek()
        if k == 'num':
            self.i += 1
            n = float(v) if ('.' in v or 'e' in v.lower()) else int(v)
            return ('lit', core.CTX.lift(n) if core.CTX is not None else n)
        if k == 'sq':
            self.i += 1
            return ('lit', v)
        if k == 'op' and v == '?':
            self.i += 1
            self.np += 1
            return ('param', self.np - 1)
        if k == 'op' and v == '(':
            self.i += 1
            if self.iskw('select'):
                s = self.select()
                self.need(')')
                return ('scalar', s)
            e = self.expr()
            if self.op(','):
                items = [e, self.expr()]
                while self.op(','):
                    items.append(self.expr())
                self.need(')')
                return ('row', items)
            self.need(')')
            return e
        if k == 'dq' or k == 'qid':
            self.i += 1
            if self.op('.'):
                return ('col', v, self.name())
            return ('dq' if k == 'dq' else 'col0', v)
        if k == 'id':
            lv = v.lower()
            if lv == 'null':
                self.i += 1
                return ('lit', None)
            if lv == 'true' or lv == 'false':
                self.i += 1
                return ('lit', int(lv == 'true'))
            if lv == 'exists' or self.iskw('not', 'exists'):
                neg = self.kw('not')
                self.kw('exists')
                self.need('(')
                s = self.select()
                self.need(')')
                return ('not', ('exists', s)) if neg else ('exists', s)
            if lv == 'case':
                return self.p_case()
            if lv == 'cast':
                self.i += 1
                self.need('(')
                e = self.expr()
                self.needkw('as')
                t = self.name()
                self.need(')')
                return ('cast', e, t)
            if self.peek(1) == ('op', '('):
                self.i += 2
                return self.p_func(lv)
            if lv in RESERVED:
                raise OperationalError(f'near "{v}": syntax error')
            self.i += 1
            if self.op('.'):
                if self.op('*'):
                    return ('tstar', v)
                return ('col', v, self.name())
            return ('col0', v)
        raise OperationalError(f'near "{v}": syntax error' if v is not None else 'incomplete input')

    def p_case(self):
        self.kw('case')
        base = None if self.iskw('when') else self.expr()
        whens, els = [], ('lit', None)
        while self.kw('when'):
            c = self.expr()
            self.needkw('then')
            whens.append((c if base is None else ('cmp', '=', base, c), self.expr()))
        if self.kw('else'):
            els = self.expr()
        self.needkw('end')
        return ('case', whens, els)

    def p_func(self, name):
        if self.op('*'):
            self.need(')')
            return self.p_over(('func', name, None, False))
        distinct = self.kw('distinct')
        args = []
        if not self.op(')'):
            args.append(self.expr())
            while self.op(','):
                args.append(self.expr())
            self.need(')')
        return self.p_over(('func', name, args, distinct))

    def p_over(self, f):
        if self.iskw('over') or self.iskw('filter'):
            core.raise_unsupported('SQL window function')
        return f

    # ---- select
    def select(self):
        s = self.select_core()
        comp = []
        while True:
            if self.kw('union', 'all'):
                comp.append(('all', self.select_core()))
            elif self.kw('union'):
                comp.append(('union', self.select_core()))
            elif self.kw('except'):
                comp.append(('except', self.select_core()))
            elif self.kw('intersect'):
                comp.append(('intersect', self.select_core()))
            else:
                break
        s['comp'] = comp or None
        s['order'] = None
        if self.kw('order', 'by'):
            s['order'] = [self.order_term()]
            while self.op(','):
                s['order'].append(self.order_term())
        s['limit'] = s['offset'] = None
        if self.kw('limit'):
            s['limit'] = self.expr()
            if self.kw('offset'):
                s['offset'] = self.expr()
            elif self.op(','):
                s['offset'] = s['limit']
                s['limit'] = self.expr()
        return s

    def order_term(self):
        e = self.expr()
        d = False
        if self.kw('desc'):
            d = True
        else:
            self.kw('asc')
        return (e, d)

    def select_core(self):
        self.needkw('select')
        s = {'distinct': False}
        if self.kw('distinct'):
            s['distinct'] = True
        else:
            self.kw('all')
        cols = [self.sel_item()]
        while self.op(','):
            cols.append(self.sel_item())
        s['cols'] = cols
        s['from'] = None
        if self.kw('from'):
            s['from'] = self.from_clause()
        s['where'] = self.expr() if self.kw('where') else None
        s['group'] = s['having'] = None
        if self.kw('group', 'by'):
            s['group'] = [self.expr()]
            while self.op(','):
                s['group'].append(self.expr())
        if self.kw('having'):
            s['having'] = self.expr()
        s['order'] = s['limit'] = s['offset'] = s['comp'] = None
        return s

    def sel_item(self):
        if self.op('*'):
            return ('*', None)
        e = self.expr()
        alias = None
        if self.kw('as'):
            alias = self.name()
        else:
            k, v = self.peek()
            if k == 'id' and v.lower() not in RESERVED or k in ('dq', 'qid'):
                alias = self.name()
        return (e, alias)

    def from_clause(self):
        src = self.from_item()
        while True:
            if self.op(','):
                src = ('join', src, self.from_item(), None, 'inner')
            elif self.iskw('join') or self.iskw('inner', 'join') or self.iskw('cross', 'join') or \
                    self.iskw('left', 'join') or self.iskw('left', 'outer', 'join'):
                kind = 'left' if self.iskw('left') else 'inner'
                while not self.kw('join'):
                    self.i += 1
                r = self.from_item()
                on = None
                if self.kw('on'):
                    on = self.expr()
                elif self.kw('using'):
                    core.raise_unsupported('SQL USING')
                src = ('join', src, r, on, kind)
            else:
                return src

    def from_item(self):
        if self.op('('):
            if self.iskw('select'):
                s = self.select()
                self.need(')')
                return ('sub', s, self.alias())
            src = self.from_clause()
            self.need(')')
            a = self.alias()
            if a and src[0] == 'table':
                src = ('table', src[1], a)
            return src
        n = self.name()
        if self.op('.'):
            n = self.name()
        return ('table', n, self.alias())

    def alias(self):
        if self.kw('as'):
            return self.name()
        k, v = self.peek()
        if k == 'id' and v.lower() not in RESERVED or k in ('dq', 'qid'):
            return self.name()
        return None

    # ---- statements
    def statement(self):
        k, v = self.peek()
        if k is None:
            return ('nop',)
        v = v.lower()
        if v == 'select':
            r = ('select', self.select())
        elif v == 'pragma':
            self.i += 1
            n = self.name()
            a = None
            if self.op('('):
                a = self.name()
                self.need(')')
            elif self.op('='):
                self.i = len(self.t)
            r = ('pragma', n.lower(), a)
        elif v in ('begin', 'commit', 'end', 'rollback', 'vacuum', 'analyze', 'reindex'):
            self.i = len(self.t)
            r = (v,)
        elif v == 'create':
            r = self.create()
        elif v == 'drop':
            self.i += 1
            kind = self.name().lower()
            ie = self.kw('if', 'exists')
            r = ('drop', kind, self.name(), ie)
        elif v == 'insert' or v == 'replace':
            r = self.insert()
        elif v == 'update':
            self.i += 1
            t = self.name()
            self.needkw('set')
            sets = [self.set_item()]
            while self.op(','):
                sets.append(self.set_item())
            w = self.expr() if self.kw('where') else None
            r = ('update', t, sets, w)
        elif v == 'delete':
            self.i += 1
            self.needkw('from')
            t = self.name()
            w = self.expr() if self.kw('where') else None
            r = ('delete', t, w)
        elif v == 'alter':
            self.i += 1
            self.needkw('table')
            t = self.name()
            if self.kw('rename', 'to'):
                r = ('rename', t, self.name())
            elif self.kw('add'):
                self.kw('column')
                c = self.name()
                ty = self.name() if self.peek()[0] == 'id' else ''
                r = ('addcol', t, c, ty)
            else:
                core.raise_unsupported('ALTER TABLE')
        else:
            core.raise_unsupported('SQL statement ' + v)
        self.op(';')
        if self.i != len(self.t):
            raise OperationalError(f'near "{self.peek()[1]}": syntax error')
        return r

    def set_item(self):
        n = self.name()
        self.need('=')
        return (n, self.expr())

    def create(self):
        self.i += 1
        self.kw('temp') or self.kw('temporary')
        uniq = self.kw('unique')
        if self.kw('index'):
            ine = self.kw('if', 'not', 'exists')
            n = self.name()
            self.needkw('on')
            t = self.name()
            self.need('(')
            cols = [self.name()]
            self.kw('asc') or self.kw('desc')
            while self.op(','):
                cols.append(self.name())
                self.kw('asc') or self.kw('desc')
            self.need(')')
            return ('cindex', n, t, cols, ine, uniq)
        self.needkw('table')
        ine = self.kw('if', 'not', 'exists')
        n = self.name()
        if self.kw('as'):
            return ('ctas', n, self.select(), ine)
        self.need('(')
        cols = []
        while True:
            if self.iskw('primary') or self.iskw('unique') or self.iskw('foreign') or self.iskw('constraint'):
                core.raise_unsupported('table constraint')
            c = self.name()
            ty, pk = [], False
            while not (self.peek() == ('op', ',') or self.peek() == ('op', ')')):
                k, v = self.peek()
                if k is None:
                    raise OperationalError('incomplete input')
                if k == 'id' and v.lower() == 'primary':
                    pk = True
                elif k == 'id' and v.lower() not in ('key', 'not', 'null', 'unique', 'autoincrement'):
                    ty.append(v)
                if self.op('('):
                    while not self.op(')'):
                        self.i += 1
                    continue
                self.i += 1
            cols.append((c, ' '.join(ty), pk))
            if self.op(','):
                continue
            self.need(')')
            break
        return ('ctable', n, cols, ine)

    def insert(self):
        mode = 'abort'
        if self.kw('replace'):
            mode = 'replace'
        else:
            self.i += 1
            if self.kw('or'):
                mode = self.name().lower()
        self.needkw('into')
        t = self.name()
        cols = None
        if self.op('('):
            cols = [self.name()]
            while self.op(','):
                cols.append(self.name())
            self.need(')')
        if self.kw('values'):
            rows = []
            while True:
                self.need('(')
                row = [self.expr()]
                while self.op(','):
                    row.append(self.expr())
                self.need(')')
                rows.append(row)
                if not self.op(','):
                    break
            return ('insert', t, cols, rows, None, mode)
        return ('insert', t, cols, None, self.select(), mode)


_PARSE = {}


def parse(sql):
    p = P(sql)
    return p.statement()


# --------------------------------------------------------------------------- values
def affinity(decl):
    d = decl.upper()
    if 'INT' in d:
        return 'i'
    if 'CHAR' in d or 'CLOB' in d or 'TEXT' in d:
        return 't'
    if 'BLOB' in d or d == '':
        return 'b'
    if 'REAL' in d or 'FLOA' in d or 'DOUB' in d:
        return 'r'
    return 'n'


NUMRE = re.compile(r'^\s*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\s*$')


def to_num(s):
    if not NUMRE.match(s):
        return None
    s = s.strip()
    n = float(s) if any(ch in s for ch in '.eE') else int(s)
    return core.CTX.lift(n)


def native(v):
    if isinstance(v, SymBase):
        if type(v) is SymBool:
            return v._num()
        return v
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    if isinstance(v, np.integer):
        # the DB-API has no adapter for numpy integers: stored as a blob by sqlite3
        return v.tobytes()
    if isinstance(v, np.floating):
        v = float(v)
    if v is None or isinstance(v, (str, bytes)):
        return v
    if isinstance(v, (int, float)):
        v = core.CTX.lift(v)
        if not isinstance(v, SymBase) and isinstance(v, float) and v != v:
            return None
        return v
    raise InterfaceError(f"Error binding parameter: type '{type(v).__name__}' is not supported")


def store(v, aff):
    if v is None or isinstance(v, bytes):
        return v
    if isinstance(v, str):
        if aff in ('i', 'n', 'r'):
            n = to_num(v)
            if n is not None:
                return store(n, aff)
        return v
    isf = isinstance(v, float)
    if aff in ('i', 'n'):
        if isinstance(v, SymReal):
            e = core.z3.simplify(v.e)
            if core.z3.is_app(e) and e.decl().kind() == core.z3.Z3_OP_TO_REAL:
                return SymInt(e.arg(0))
            if core.CTX.decide(core.z3.IsInt(e)):
                return SymInt(core.z3.ToInt(e))
            return v
        if isf and v == int(v):
            return int(v)
        return v
    if aff == 'r':
        if isinstance(v, SymInt):
            return v.to_real()
        return float(v) if not isinstance(v, SymBase) else v
    if aff == 't':
        if isinstance(v, SymNum):
            return core.CTX.str_token(v)
        return repr(v) if isf else str(v)
    return v


def _rank(v):
    if v is None:
        return 0
    if isinstance(v, (int, float)):
        return 1
    if isinstance(v, str):
        return 2
    return 3


def eq(a, b):
    """storage equality (NULLs equal) -> bool, forking"""
    ra, rb = _rank(a), _rank(b)
    if ra != rb:
        return False
    if ra == 0:
        return True
    if a is b:
        return True
    return bool(a == b)


def lt(a, b):
    ra, rb = _rank(a), _rank(b)
    if ra != rb:
        return ra < rb
    if ra == 0:
        return False
    return bool(a < b)


class T3:
    pass


class Key:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        for (a, d), (b, _) in zip(self.v, o.v):
            if eq(a, b):
                continue
            r = lt(a, b)
            return (not r) if d else r
        return False


# --------------------------------------------------------------------------- storage
class Table:
    def __init__(self, name, cols):
        self.name = name
        self.cols = cols                    # [(name, decl, pk)]
        self.idx = {c[0].lower(): i for i, c in enumerate(cols)}
        self.aff = [affinity(c[1]) for c in cols]
        self.pk = next((i for i, c in enumerate(cols) if c[2]), None)
        self.rows = []                      # [rowid, [values]] ordered by rowid

    def clone(self):
        t = Table(self.name, self.cols)
        t.rows = [[r[0], list(r[1])] for r in self.rows]
        return t


class DB:
    def __init__(self):
        self.tables = {}
        self.indexes = {}
        self.writer = None
        self.readers = weakref.WeakSet()    # cursors that returned rows


def _dbs():
    return core.ctx().__dict__.setdefault('sql_dbs', {})


class Connection:
    def __init__(self, path, **kw):
        self.path = path
        self.closed = False
        self.isolation_level = kw.get('isolation_level', '')
        self.row_factory = None
        self.work = None
        self.in_tx = False
        self.total_changes = 0
        if path == ':memory:':
            self.db = DB()
            return
        dbs = _dbs()
        tok = None
        if os.path.isfile(path):
            with open(path) as f:
                txt = f.read()
            if txt.startswith('SYMXDB:'):
                tok = txt
        elif not os.path.isdir(os.path.dirname(path) or '.'):
            raise OperationalError('unable to open database file')
        if tok is None or tok not in dbs:
            tok = f'SYMXDB:{len(dbs)}'
            dbs[tok] = DB()
            with open(path, 'w') as f:
                f.write(tok)
        self.db = dbs[tok]

    def _chk(self):
        if self.closed:
            raise ProgrammingError('Cannot operate on a closed database.')

    # state visible to this connection
    def state(self):
        return self.work if self.work is not None else (self.db.tables, self.db.indexes)

    def _begin_write(self, implicit):
        if self.db.writer is not None and self.db.writer is not self and not self.db.writer.closed:
            raise OperationalError('database is locked')
        if self.work is None:
            self.work = ({k: t.clone() for k, t in self.db.tables.items()}, dict(self.db.indexes))
        if implicit and self.isolation_level is not None:
            self.in_tx = True
        if self.in_tx:
            self.db.writer = self

    def _autocommit(self):
        if not self.in_tx:
            self._publish()

    def _publish(self):
        if self.work is not None:
            # a partially read result of another connection keeps its shared lock
            if any(c.connection is not self and c.pending() for c in self.db.readers):
                if not self.in_tx:
                    self.work = None
                raise OperationalError('database is locked')
            self.db.tables, self.db.indexes = self.work
            self.work = None
        if self.db.writer is self:
            self.db.writer = None

    @property
    def in_transaction(self):
        return self.in_tx

    def cursor(self, *a):
        self._chk()
        return Cursor(self)

    def execute(self, sql, params=()):
        return self.cursor().execute(sql, params)

    def executemany(self, sql, seq):
        return self.cursor().executemany(sql, seq)

    def executescript(self, s):
        c = self.cursor()
        self.commit()
        for st in s.split(';'):
            if st.strip():
                c.execute(st)
        return c

    def commit(self):
        self._chk()
        self._publish()
        self.in_tx = False

    def rollback(self):
        self._chk()
        self.in_tx = False
        self.work = None
        if self.db.writer is self:
            self.db.writer = None

    def close(self):
        if not self.closed:
            self.work = None
            if self.db.writer is self:
                self.db.writer = None
        self.closed = True

    def create_function(self, *a, **k):
        core.raise_unsupported('create_function')

    def backup(self, target, **k):
        t, i = self.state()
        target.db.tables = {k: v.clone() for k, v in t.items()}
        target.db.indexes = dict(i)

    def iterdump(self):
        core.raise_unsupported('iterdump')

    def __enter__(self): return self

    def __exit__(self, t, v, tb):
        if t is None:
            self.commit()
        else:
            self.rollback()


class Cursor:
    arraysize = 1

    def __init__(self, conn):
        self.connection = conn
        self._rows = []
        self._i = 0
        self.closed = False
        self.description = None
        self.rowcount = -1
        self.lastrowid = None

    def _chk(self):
        if self.closed:
            raise ProgrammingError('Cannot operate on a closed cursor.')
        self.connection._chk()

    def execute(self, sql, params=()):
        self._chk()
        params = [native(p) for p in params]
        st = parse(sql)
        self._rows, self._i, self.description = [], 0, None
        ex = Exec(self.connection, params)
        r = ex.run(st)
        if r is not None:
            names, rows = r
            self.description = tuple((n,) + (None,) * 6 for n in names)
            self._rows = rows
            if rows:
                self.connection.db.readers.add(self)
        self.rowcount = ex.rowcount
        self.lastrowid = ex.lastrowid
        return self

    def executemany(self, sql, seq):
        self._chk()
        for params in seq:
            self.execute(sql, params)
        return self

    def executescript(self, s):
        self.connection.executescript(s)
        return self

    def pending(self):
        return not self.closed and not self.connection.closed and self._i < len(self._rows)

    def fetchone(self):
        self._chk()
        if self._i < len(self._rows):
            self._i += 1
            return self._rows[self._i - 1]
        return None

    def fetchall(self):
        self._chk()
        r = self._rows[self._i:]
        self._i = len(self._rows)
        return r

    def fetchmany(self, size=1):
        self._chk()
        r = self._rows[self._i:self._i + size]
        self._i += len(r)
        return r

    def __iter__(self):
        return self

    def __next__(self):
        r = self.fetchone()
        if r is None:
            raise StopIteration
        return r

    def close(self):
        self.closed = True


# --------------------------------------------------------------------------- execution
AGG = {'count', 'min', 'max', 'sum', 'avg', 'total', 'group_concat'}


class Rel:
    """column list [(qualifier, name, affinity)] and rows (list of values)"""

    def __init__(self, cols, rows):
        self.cols, self.rows = cols, rows


class Exec:
    def __init__(self, conn, params):
        self.c = conn
        self.params = params
        self.rowcount = -1
        self.lastrowid = None

    def table(self, name, write=False):
        tabs = self.c.state()[0]
        t = tabs.get(name.lower())
        if t is None:
            raise OperationalError(f'no such table: {name}')
        return t

    def run(self, st):
        k = st[0]
        c = self.c
        if k == 'nop' or k in ('vacuum', 'analyze', 'reindex'):
            return None
        if k == 'select':
            rel = self.select(st[1], None)
            return [x[1] for x in rel.cols], [tuple(r) for r in rel.rows]
        if k == 'pragma':
            if st[1] == 'table_info':
                t = c.state()[0].get((st[2] or '').lower())
                rows = [] if t is None else [(i, n, d, 0, None, int(pk)) for i, (n, d, pk) in enumerate(t.cols)]
                return ['cid', 'name', 'type', 'notnull', 'dflt_value', 'pk'], rows
            if st[1] == 'journal_mode':
                return ['journal_mode'], [('off',)]
            return None
        if k == 'begin':
            if c.in_tx:
                raise OperationalError('cannot start a transaction within a transaction')
            c.in_tx = True
            return None
        if k in ('commit', 'end'):
            if not c.in_tx:
                raise OperationalError('cannot commit - no transaction is active')
            c.in_tx = False
            c._publish()
            return None
        if k == 'rollback':
            if not c.in_tx:
                raise OperationalError('cannot rollback - no transaction is active')
            c.rollback()
            return None
        dml = k in ('insert', 'update', 'delete')
        c._begin_write(implicit=dml)
        try:
            getattr(self, 'do_' + k)(*st[1:])
        finally:
            c._autocommit()
        return None

    # ---- DDL
    def do_ctable(self, name, cols, ine):
        tabs, idxs = self.c.state()
        if name.lower() in tabs:
            if ine:
                return
            raise OperationalError(f'table {name} already exists')
        tabs[name.lower()] = Table(name, cols)

    def do_ctas(self, name, sel, ine):
        rel = self.select(sel, None)
        decl = {'i': 'INT', 't': 'TEXT', 'r': 'REAL', 'n': 'NUM', 'b': ''}
        self.do_ctable(name, [(c[1], decl[c[2]], False) for c in rel.cols], ine)
        t = self.table(name)
        t.rows = [[i + 1, list(r)] for i, r in enumerate(rel.rows)]

    def do_cindex(self, n, t, cols, ine, uniq):
        tabs, idxs = self.c.state()
        if n.lower() in idxs:
            if ine:
                return
            raise OperationalError(f'index {n} already exists')
        tb = tabs.get(t.lower())
        if tb is None:
            raise OperationalError(f'no such table: main.{t}')
        for col in cols:
            if col.lower() not in tb.idx:
                raise OperationalError(f'no such column: {col}')
        idxs[n.lower()] = (t.lower(), cols, uniq)

    def do_drop(self, kind, name, ie):
        tabs, idxs = self.c.state()
        d = tabs if kind == 'table' else idxs
        if name.lower() not in d:
            if ie:
                return
            raise OperationalError(f'no such {kind}: {name}')
        del d[name.lower()]
        if kind == 'table':
            for n in [n for n, v in idxs.items() if v[0] == name.lower()]:
                del idxs[n]

    def do_rename(self, a, b):
        tabs, idxs = self.c.state()
        t = self.table(a)
        if b.lower() in tabs:
            raise OperationalError(f'there is already another table or index with this name: {b}')
        del tabs[a.lower()]
        t.name = b
        tabs[b.lower()] = t
        for n, v in list(idxs.items()):
            if v[0] == a.lower():
                idxs[n] = (b.lower(),) + v[1:]

    def do_addcol(self, t, c, ty):
        tb = self.table(t)
        nt = Table(tb.name, tb.cols + [(c, ty, False)])
        nt.rows = [[r[0], r[1] + [None]] for r in tb.rows]
        self.c.state()[0][t.lower()] = nt

    # ---- DML
    def do_insert(self, name, cols, rows, sel, mode):
        t = self.table(name)
        if cols is None:
            cols = [c[0] for c in t.cols]
        for c in cols:
            if c.lower() not in t.idx:
                raise OperationalError(f'table {name} has no column named {c}')
        if sel is not None:
            src = [list(r) for r in self.select(sel, None).rows]
        else:
            src = [[self.val(e, None) for e in r] for r in rows]
        n = 0
        for r in src:
            if len(r) != len(cols):
                raise OperationalError(f'{len(r)} values for {len(cols)} columns')
            vals = [None] * len(t.cols)
            for c, v in zip(cols, r):
                i = t.idx[c.lower()]
                vals[i] = store(v, t.aff[i])
            n += self._insert_row(t, vals, mode)
        self.rowcount = n

    def _insert_row(self, t, vals, mode):
        used = [r[0] for r in t.rows]
        if t.pk is not None and t.aff[t.pk] == 'i':
            if vals[t.pk] is None:
                rid = (used[-1] + 1) if used else 1
            else:
                if _rank(vals[t.pk]) != 1 or isinstance(vals[t.pk], float):
                    raise IntegrityError('datatype mismatch')
                rid = int(vals[t.pk])
            vals[t.pk] = rid
        else:
            rid = (used[-1] + 1) if used else 1
        if rid in used:
            if mode == 'replace':
                t.rows = [r for r in t.rows if r[0] != rid]
            elif mode == 'ignore':
                return 0
            else:
                raise IntegrityError(f'UNIQUE constraint failed: {t.name}.{t.cols[t.pk][0]}')
        pos = len(t.rows)
        while pos > 0 and t.rows[pos - 1][0] > rid:
            pos -= 1
        t.rows.insert(pos, [rid, vals])
        self.lastrowid = rid
        return 1

    def _trel(self, t, alias=None):
        return Rel([(alias or t.name, c[0], a) for c, a in zip(t.cols, t.aff)], [r[1] for r in t.rows])

    def do_update(self, name, sets, where):
        t = self.table(name)
        rel = self._trel(t)
        hits = [i for i, r in enumerate(rel.rows) if where is None or self.truth(where, Env(rel.cols, r))]
        new = []
        for i in hits:
            env = Env(rel.cols, rel.rows[i])
            upd = {}
            for cn, e in sets:
                if cn.lower() not in t.idx:
                    raise OperationalError(f'no such column: {cn}')
                j = t.idx[cn.lower()]
                upd[j] = store(self.val(e, env), t.aff[j])
            new.append((i, upd))
        for i, upd in new:
            for j, v in upd.items():
                if j == t.pk:
                    core.raise_unsupported('UPDATE of the primary key')
                t.rows[i][1][j] = v
        self.rowcount = len(hits)

    def do_delete(self, name, where):
        t = self.table(name)
        rel = self._trel(t)
        keep = []
        for r in t.rows:
            if where is None or self.truth(where, Env(rel.cols, r[1])):
                continue
            keep.append(r)
        self.rowcount = len(t.rows) - len(keep)
        t.rows = keep

    # ---- SELECT
    def source(self, f, outer):
        if f[0] == 'table':
            t = self.table(f[1])
            return self._trel(t, f[2])
        if f[0] == 'sub':
            r = self.select(f[1], None)
            return Rel([(f[2], c[1], c[2]) for c in r.cols], r.rows)
        if f[0] == 'join':
            a, b = self.source(f[1], outer), self.source(f[2], outer)
            cols = a.cols + b.cols
            rows = []
            for x in a.rows:
                any_ = False
                for y in b.rows:
                    row = list(x) + list(y)
                    if f[3] is None or self.truth(f[3], Env(cols, row, outer)):
                        rows.append(row)
                        any_ = True
                if f[4] == 'left' and not any_:
                    rows.append(list(x) + [None] * len(b.cols))
            return Rel(cols, rows)

    def select(self, s, outer):
        rel, keys = self._core(s, outer)
        if s['comp']:
            rows = rel.rows
            for kind, s2 in s['comp']:
                r2, _ = self._core(s2, outer)
                if kind == 'all':
                    rows = rows + r2.rows
                elif kind == 'union':
                    rows = self.distinct(rows + r2.rows)
                elif kind == 'except':
                    rows = self.distinct([r for r in rows if not any(self.roweq(r, q) for q in r2.rows)])
                else:
                    rows = self.distinct([r for r in rows if any(self.roweq(r, q) for q in r2.rows)])
            rel = Rel(rel.cols, rows)
            if s['order']:
                pairs = [(Key([(self.val(e, Env(rel.cols, r, outer)), d) for e, d in s['order']]), r) for r in rows]
                pairs.sort(key=lambda p: p[0])
                rel = Rel(rel.cols, [r for _, r in pairs])
        if s['limit'] is not None:
            off = int(self.val(s['offset'], None)) if s['offset'] is not None else 0
            n = int(self.val(s['limit'], None))
            rel = Rel(rel.cols, rel.rows[off:] if n < 0 else rel.rows[off:off + n])
        return rel

    def roweq(self, a, b):
        return all(eq(x, y) for x, y in zip(a, b))

    def distinct(self, rows):
        out = []
        for r in rows:
            if not any(self.roweq(r, q) for q in out):
                out.append(r)
        return out

    def _has_agg(self, e):
        if not isinstance(e, tuple):
            return False
        if e[0] == 'func' and e[1] in AGG and (e[2] is None or len(e[2]) == 1):
            return True
        if e[0] in ('scalar', 'exists'):
            return False
        if e[0] == 'in':
            return self._has_agg(e[1])
        for x in e[1:]:
            if isinstance(x, tuple) and self._has_agg(x):
                return True
            if isinstance(x, list) and any(isinstance(y, tuple) and self._has_agg(y) for y in x):
                return True
        return False

    def _core(self, s, outer):
        src = self.source(s['from'], outer) if s['from'] is not None else Rel([], [[]])
        rows = src.rows
        if s['where'] is not None:
            self.resolve_all(s['where'], src.cols, outer)
            rows = [r for r in rows if self.truth(s['where'], Env(src.cols, r, outer))]
        # expand *
        items = []
        for e, alias in s['cols']:
            if e == '*':
                for q, n, a in src.cols:
                    items.append((('colq', q, n), n))
            elif e[0] == 'tstar':
                for q, n, a in src.cols:
                    if q and q.lower() == e[1].lower():
                        items.append((('colq', q, n), n))
            else:
                nm = alias
                if nm is None:
                    nm = e[1] if e[0] in ('col0', 'dq') else e[2] if e[0] == 'col' else _text(e)
                items.append((e, nm))
        for e, _ in items:
            self.resolve_all(e, src.cols, outer)
        out_cols = [(None, n, self.aff_of(e, src.cols)) for e, n in items]
        order = None if s['comp'] else s['order']
        agg = s['group'] is not None or any(self._has_agg(e) for e, _ in items) or \
            (s['having'] is not None and self._has_agg(s['having']))
        out, keys = [], []
        alias_map = {n.lower(): e for e, n in items if n}

        def okey(env):
            ks = []
            for e, d in order:
                if e[0] == 'lit' and isinstance(e[1], int):
                    e = items[e[1] - 1][0]
                elif e[0] == 'col0' and e[1].lower() in alias_map and not self.has_col(env.cols, e[1]):
                    e = alias_map[e[1].lower()]
                ks.append((self.val(e, env), d))
            return Key(ks)
        if agg:
            groups = []
            if s['group'] is not None:
                gexprs = [alias_map.get(e[1].lower(), e) if e[0] == 'col0' and not self.has_col(src.cols, e[1]) else e
                          for e in s['group']]
                for r in rows:
                    env = Env(src.cols, r, outer)
                    k = [self.val(e, env) for e in gexprs]
                    for gk, gr in groups:
                        if self.roweq(gk, k):
                            gr.append(r)
                            break
                    else:
                        groups.append((k, [r]))
            else:
                groups = [([], rows)]
            for gk, gr in groups:
                env = Env(src.cols, gr[0] if gr else [None] * len(src.cols), outer, gr)
                # bare columns follow the row of a lone MIN/MAX
                mm = [e for e, _ in items if e[0] == 'func' and e[1] in ('min', 'max') and e[2] and len(e[2]) == 1]
                if len(mm) == 1 and len(gr) > 1 and len(items) > 1:
                    best = None
                    for r in gr:
                        v = self.val(mm[0][2][0], Env(src.cols, r, outer))
                        if v is None:
                            continue
                        if best is None or (lt(v, best[0]) if mm[0][1] == 'min' else lt(best[0], v)):
                            best = (v, r)
                    if best is not None:
                        env = Env(src.cols, best[1], outer, gr)
                if s['having'] is not None and not self.truth(s['having'], env):
                    continue
                out.append([self.val(e, env) for e, _ in items])
                if order:
                    keys.append(okey(env))
        else:
            for r in rows:
                env = Env(src.cols, r, outer)
                out.append([self.val(e, env) for e, _ in items])
                if order:
                    keys.append(okey(env))
        if s['distinct']:
            o2, k2 = [], []
            for i, r in enumerate(out):
                if not any(self.roweq(r, q) for q in o2):
                    o2.append(r)
                    if order:
                        k2.append(keys[i])
            out, keys = o2, k2
        if order:
            idx = sorted(range(len(out)), key=lambda i: keys[i])
            out = [out[i] for i in idx]
        return Rel(out_cols, out), keys

    # ---- expressions
    def has_col(self, cols, name):
        return any(n.lower() == name.lower() for _, n, _ in cols) or name.lower() == 'rowid'

    def resolve_all(self, e, cols, outer):
        """raise 'no such column' even when there are no rows"""
        if not isinstance(e, tuple):
            return
        if e[0] == 'col0':
            o = outer
            if self.has_col(cols, e[1]):
                return
            while o is not None:
                if self.has_col(o.cols, e[1]):
                    return
                o = o.outer
            raise OperationalError(f'no such column: {e[1]}')
        if e[0] in ('scalar', 'exists'):
            return
        for x in e[1:]:
            if isinstance(x, tuple):
                self.resolve_all(x, cols, outer)
            elif isinstance(x, list):
                for y in x:
                    self.resolve_all(y, cols, outer)

    def aff_of(self, e, cols):
        if e[0] in ('col0', 'dq'):
            for q, n, a in cols:
                if n.lower() == e[1].lower():
                    return a
            return 'b'
        if e[0] in ('col', 'colq'):
            for q, n, a in cols:
                if n.lower() == e[2].lower() and (e[1] is None or (q or '').lower() == e[1].lower()):
                    return a
            return 'b'
        if e[0] == 'cast':
            return affinity(e[2])
        return 'b'

    def truth(self, e, env):
        v = self.val(e, env)
        return False if v is None else bool(self._num(v) != 0) if not isinstance(v, SymBool) else bool(v)

    def _num(self, v):
        if isinstance(v, str):
            n = to_num(v)
            if n is None:
                m = re.match(r'\s*[+-]?\d+(\.\d*)?', v)
                n = float(m.group(0)) if m else 0
            return n
        if isinstance(v, bytes):
            return 0
        return v

    def val(self, e, env):
        k = e[0]
        if k == 'lit':
            return e[1]
        if k == 'param':
            if e[1] >= len(self.params):
                raise ProgrammingError('Incorrect number of bindings supplied.')
            return self.params[e[1]]
        if k == 'col0':
            return env.get(None, e[1])
        if k == 'dq':
            try:
                return env.get(None, e[1]) if env is not None else e[1]
            except OperationalError:
                return e[1]
        if k in ('col', 'colq'):
            return env.get(e[1], e[2])
        if k == 'and':
            a = self.val(e[1], env)
            fa = None if a is None else bool(a)
            if fa is False:
                return 0
            b = self.val(e[2], env)
            fb = None if b is None else bool(b)
            if fb is False:
                return 0
            return None if fa is None or fb is None else 1
        if k == 'or':
            a = self.val(e[1], env)
            fa = None if a is None else bool(a)
            if fa:
                return 1
            b = self.val(e[2], env)
            fb = None if b is None else bool(b)
            if fb:
                return 1
            return None if fa is None or fb is None else 0
        if k == 'not':
            a = self.val(e[1], env)
            return None if a is None else int(not bool(self._num(a) != 0))
        if k == 'cmp':
            return self.cmp(e[1], e[2], e[3], env)
        if k in ('is', 'isnot'):
            r = eq(self.val(e[1], env), self.val(e[2], env))
            return int(r if k == 'is' else not r)
        if k == 'in':
            return self.in_(e, env)
        if k == 'arith':
            a, b = self.val(e[2], env), self.val(e[3], env)
            if a is None or b is None:
                return None
            if e[1] == '||':
                return str(a) + str(b)
            a, b = self._num(a), self._num(b)
            if e[1] == '+': return a + b
            if e[1] == '-': return a - b
            if e[1] == '*': return a * b
            if bool(b == 0): return None
            if e[1] == '/':
                if isinstance(a, int) and isinstance(b, int):
                    q = abs(a) // abs(b)
                    return q if bool(a >= 0) == bool(b >= 0) else -q
                return a / b
            return a % b
        if k == 'neg':
            a = self.val(e[1], env)
            return None if a is None else -self._num(a)
        if k == 'scalar':
            r = self.select(e[1], env)
            return r.rows[0][0] if r.rows else None
        if k == 'exists':
            return int(len(self.select(e[1], env).rows) > 0)
        if k == 'case':
            for c, v in e[1]:
                if self.truth(c, env):
                    return self.val(v, env)
            return self.val(e[2], env)
        if k == 'cast':
            v = self.val(e[1], env)
            a = affinity(e[2])
            if v is None:
                return None
            if a == 'i':
                v = self._num(v)
                return core.sym_int(v) if isinstance(v, SymNum) else int(v)
            if a == 'r':
                v = self._num(v)
                return v.to_real() if isinstance(v, SymInt) else v if isinstance(v, SymBase) else float(v)
            return store(v, a)
        if k == 'like':
            a, b = self.val(e[1], env), self.val(e[2], env)
            if a is None or b is None:
                return None
            rx = re.escape(str(b)).replace('%', '.*').replace('_', '.')
            return int(re.fullmatch(rx, str(a), re.I | re.S) is not None)
        if k == 'func':
            return self.func(e, env)
        core.raise_unsupported('SQL expression ' + k)

    def cmp(self, op, ea, eb, env):
        a, b = self.val(ea, env), self.val(eb, env)
        if a is None or b is None:
            return None
        a, b = self.apply_aff(a, b, ea, eb, env)
        if op == '=': return int(eq(a, b))
        if op == '!=': return int(not eq(a, b))
        if op == '<': return int(lt(a, b))
        if op == '>': return int(lt(b, a))
        if op == '<=': return int(not lt(b, a))
        if op == '>=': return int(not lt(a, b))

    def apply_aff(self, a, b, ea, eb, env):
        cols = env.cols if env is not None else []
        fa, fb = self.aff_of(ea, cols), self.aff_of(eb, cols)
        if fa in 'irn' and fb not in 'irn' and isinstance(b, str):
            b = store(b, 'n')
        elif fb in 'irn' and fa not in 'irn' and isinstance(a, str):
            a = store(a, 'n')
        elif fa == 't' and fb == 'b' and not isinstance(b, (str, bytes)):
            b = store(b, 't')
        elif fb == 't' and fa == 'b' and not isinstance(a, (str, bytes)):
            a = store(a, 't')
        return a, b

    def in_(self, e, env):
        a = self.val(e[1], env)
        if e[2][0] == 'sel':
            rel = self._cached_sel(e[2][1], env)
            items = [r[0] for r in rel.rows]
            fa, fb = self.aff_of(e[1], env.cols if env else []), rel.cols[0][2]
        else:
            items = [self.val(x, env) for x in e[2][1]]
            fa, fb = self.aff_of(e[1], env.cols if env else []), 'b'
        neg = e[3]
        if not items:
            return int(neg)
        if a is None:
            return None
        null = False
        for b in items:
            if b is None:
                null = True
                continue
            x = a
            if fa in 'irn' and isinstance(b, str):
                b = store(b, 'n')
            if fa == 't' and not isinstance(b, (str, bytes)):
                b = store(b, 't')
            if eq(x, b):
                return int(not neg)
        if null:
            return None
        return int(neg)

    def _cached_sel(self, s, env):
        cache = self.__dict__.setdefault('_selcache', {})
        if id(s) not in cache:
            try:
                cache[id(s)] = self.select(s, None)
            except OperationalError:
                cache[id(s)] = None
        r = cache[id(s)]
        return r if r is not None else self.select(s, env)

    def func(self, e, env):
        _, name, args, distinct = e
        if name in AGG and (args is None or len(args) == 1):
            rows = env.group
            if rows is None:
                raise OperationalError(f'misuse of aggregate: {name.upper()}()')
            if args is None:
                return len(rows)
            vals = [self.val(args[0], Env(env.cols, r, env.outer)) for r in rows]
            vals = [v for v in vals if v is not None]
            if distinct:
                o = []
                for v in vals:
                    if not any(eq(v, w) for w in o):
                        o.append(v)
                vals = o
            if name == 'count':
                return len(vals)
            if name in ('min', 'max'):
                r = core.extremum(name, vals)
                if r is not None:
                    return r
                for v in vals:
                    if r is None or (lt(v, r) if name == 'min' else lt(r, v)):
                        r = v
                return r
            nums = [self._num(v) for v in vals]
            if name == 'sum':
                if not nums:
                    return None
                return core.Sum(nums)
            if name == 'total':
                return 0.0 + core.Sum(nums)
            if name == 'avg':
                return None if not nums else (0.0 + core.Sum(nums)) / len(nums)
            return None if not vals else ','.join(str(v) for v in vals)
        vals = [self.val(a, env) for a in args or []]
        if name in ('coalesce', 'ifnull'):
            return next((v for v in vals if v is not None), None)
        if name == 'abs':
            return None if vals[0] is None else abs(self._num(vals[0]))
        if name in ('min', 'max'):
            if any(v is None for v in vals):
                return None
            r = vals[0]
            for v in vals[1:]:
                if (lt(v, r) if name == 'min' else lt(r, v)):
                    r = v
            return r
        if name == 'length':
            return None if vals[0] is None else len(str(vals[0]))
        if name in ('lower', 'upper'):
            return None if vals[0] is None else getattr(str(vals[0]), name)()
        if name == 'typeof':
            v = vals[0]
            return 'null' if v is None else 'text' if isinstance(v, str) else 'real' if isinstance(v, float) else 'integer'
        core.raise_unsupported('SQL function ' + name)


def _text(e):
    if e[0] == 'func':
        return f'{e[1].upper()}({"*" if e[2] is None else ",".join(_text(a) for a in e[2])})'
    if e[0] in ('col0', 'dq'):
        return e[1]
    return 'expr'


class Env:
    __slots__ = ('cols', 'row', 'outer', 'group')

    def __init__(self, cols, row, outer=None, group=None):
        self.cols, self.row, self.outer, self.group = cols, row, outer, group

    def get(self, q, name):
        ln = name.lower()
        for i, (cq, n, _) in enumerate(self.cols):
            if n.lower() == ln and (q is None or (cq or '').lower() == q.lower()):
                return self.row[i]
        if ln in ('rowid', '_rowid_', 'oid'):
            for i, (cq, n, _) in enumerate(self.cols):
                if n.lower() == 'rid':
                    return self.row[i]
        if self.outer is not None:
            return self.outer.get(q, name)
        raise OperationalError(f'no such column: {name}')


def connect(path, *a, **kw):
    return Connection(str(path), **kw)


def make_module():
    m = types.ModuleType('sqlite3')
    m.connect = connect
    for c in (Error, DatabaseError, OperationalError, ProgrammingError, IntegrityError, InterfaceError, Connection,
              Cursor):
        setattr(m, c.__name__, c)
    m.Row = tuple
    m.PARSE_DECLTYPES = 1
    m.PARSE_COLNAMES = 2
    m.sqlite_version = '3.45.0'
    m.version = '2.6.0'
    m.register_adapter = lambda *a: None
    m.register_converter = lambda *a: None
    return m
