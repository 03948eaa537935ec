"""Values of the verifier: matrices as functions of (row, column), structs, optionals, references, states."""
from .terms import *
from . import terms as T


def lit_known(c, lits):
    """True/False if the condition c is decided syntactically by the path literals, else None"""
    if isinstance(c, bool):
        return c
    i = c.get_id()
    if i in lits:
        return True
    if z3.is_not(c):
        k = lit_known(c.arg(0), lits)
        return None if k is None else (not k)
    n = Not(c)
    if isz(n) and n.get_id() in lits:
        return False
    if z3.is_and(c):
        r = True
        for a in c.children():
            k = lit_known(a, lits)
            if k is False:
                return False
            if k is None:
                r = None
        return r
    if z3.is_or(c):
        r = False
        for a in c.children():
            k = lit_known(a, lits)
            if k is True:
                return True
            if k is None:
                r = None
        return r
    return None


class Mat:
    """rows x cols matrix; fn(i, j) -> scalar.  st: None for dense, else st(i, j) -> Bool 'coefficient is stored'.
    node: how it was built from a base by updates, for loop summaries."""
    __slots__ = ('rows', 'cols', 'fn', 'st', 'node', 'tag', 'major', 'comp', '_c', '_s', '_t', 'vec', 'sort', 'uid')
    _n = [0]

    def __init__(self, rows, cols, fn, st=None, major=None, comp=None, node=None, tag=None, vec=None, sort='real'):
        self.rows = rows
        self.cols = cols
        self.fn = fn
        self.st = st
        self.major = major
        self.comp = comp
        self.node = node
        self.tag = tag
        self._c = {}
        self._s = {}
        self._t = None
        self.vec = vec
        self.sort = sort
        Mat._n[0] += 1
        self.uid = Mat._n[0]

    def at(self, i, j=0):
        k = (i.get_id() if isz(i) else ('c', i), j.get_id() if isz(j) else ('c', j))
        r = self._c.get(k)
        if r is None:
            r = self.fn(i, j)
            self._c[k] = r
            if isz(i):
                T._keep.append(i)
            if isz(j):
                T._keep.append(j)
        return r

    def stored(self, i, j=0):
        if self.st is None:
            return True
        k = (i.get_id() if isz(i) else ('c', i), j.get_id() if isz(j) else ('c', j))
        r = self._s.get(k)
        if r is None:
            r = self.st(i, j)
            self._s[k] = r
            if isz(i):
                T._keep.append(i)
            if isz(j):
                T._keep.append(j)
        return r

    @property
    def sparse(self):
        return self.st is not None

    def size(self):
        return mul(self.rows, self.cols)

    def like(self, fn, st='same', **kw):
        d = dict(rows=self.rows, cols=self.cols, st=self.st if st == 'same' else st, major=self.major, comp=self.comp, vec=self.vec, sort=self.sort)
        d.update(kw)
        return Mat(d.pop('rows'), d.pop('cols'), fn, **d)

    def inb(self, i, j=0):
        return And(le(0, i), lt(i, self.rows), le(0, j), lt(j, self.cols))

    def subst(self, pairs):
        """pairs: list of (const, term)"""
        if not pairs:
            return self
        ps = pairs
        tmpl = self

        def fn(i, j):
            e = tmpl.at(I_, J_)
            e = T.subst(e, ps)
            return T.subst(e, [(I_, i), (J_, j)])
        st = None
        if self.st is not None:
            def st(i, j):
                e = T.subst(tmpl.stored(I_, J_), ps)
                return T.subst(e, [(I_, i), (J_, j)])
        return Mat(T.subst(self.rows, ps), T.subst(self.cols, ps), fn, st=st, major=self.major, comp=T.subst(self.comp, ps) if self.comp is not None else None,
                   vec=self.vec, sort=self.sort, tag=None)

    def __repr__(self):
        return f'Mat<{self.rows}x{self.cols}>'


class Diag:
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m

    def mat(self):
        m = self.m
        return Mat(m.rows, m.rows, lambda i, j: ite(eq(i, j), m.at(i, 0), Fraction(0)))


class SelfAdj:
    __slots__ = ('m', 'upper')

    def __init__(self, m, upper):
        self.m = m
        self.upper = upper

    def mat(self):
        m = self.m
        if self.upper:
            return Mat(m.rows, m.cols, lambda i, j: ite(le(i, j), m.at(i, j), m.at(j, i)), vec=False)
        return Mat(m.rows, m.cols, lambda i, j: ite(ge(i, j), m.at(i, j), m.at(j, i)), vec=False)


class TriView:
    __slots__ = ('m', 'upper')

    def __init__(self, m, upper):
        self.m = m
        self.upper = upper

    def mat(self):
        m = self.m
        if self.upper:
            return m.like(lambda i, j: ite(le(i, j), m.at(i, j), Fraction(0)), vec=False)
        return m.like(lambda i, j: ite(ge(i, j), m.at(i, j), Fraction(0)), vec=False)


class Struct:
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t = t
        self.f = f

    def with_(self, k, v):
        d = dict(self.f)
        d[k] = v
        return Struct(self.t, d)

    def __repr__(self):
        return f'{self.t}{{{", ".join(self.f)}}}'


class Opt:
    __slots__ = ('has', 'val')

    def __init__(self, has, val):
        self.has = has
        self.val = val

    def __repr__(self):
        return f'Opt({self.has},{self.val})'


class Lam:
    __slots__ = ('node', 'snap', 'this')

    def __init__(self, node, snap, this):
        self.node = node
        self.snap = snap
        self.this = this


class PyFun:
    """A function-valued input (a callable parameter of the verified function)."""
    __slots__ = ('name', 'fn')

    def __init__(self, name, fn):
        self.name = name
        self.fn = fn


class Vec:
    """std::vector<T>: length and element function (index -> value)"""
    __slots__ = ('n', 'fn', 'node')

    def __init__(self, n, fn, node=None):
        self.n = n
        self.fn = fn
        self.node = node


class Ptr:
    """pointer into a modelled array"""
    __slots__ = ('kind', 'obj', 'off')

    def __init__(self, kind, obj, off=0):
        self.kind = kind
        self.obj = obj
        self.off = off


class Void:
    def __repr__(self):
        return 'void'


VOID = Void()


class Unknown:
    """A value nothing depends on (streams, strings, manipulators)."""
    def __repr__(self):
        return '?'


UNK = Unknown()


class NullOpt:
    pass


NULLOPT = NullOpt()


class LRef:
    __slots__ = ('var', 'path')

    def __init__(self, var, path=()):
        self.var = var
        self.path = path

    def __repr__(self):
        return f'&{self.var}{self.path}'


class EntryIt:
    """An inner iterator standing at one stored entry"""
    __slots__ = ('mat', 'matref', 'row', 'col')

    def __init__(self, mat, matref, row, col):
        self.mat = mat
        self.matref = matref
        self.row = row
        self.col = col


class InnerItInit:
    __slots__ = ('mat', 'matref', 'outer')

    def __init__(self, mat, matref, outer):
        self.mat = mat
        self.matref = matref
        self.outer = outer


class State:
    __slots__ = ('vars', 'path', 'lits')

    def __init__(self, vars=None, path=(), lits=None):
        self.vars = vars if vars is not None else {}
        self.path = path
        self.lits = lits if lits is not None else frozenset()

    def copy(self):
        return State(dict(self.vars), self.path, self.lits)

    def assume(self, c):
        if isinstance(c, bool):
            if c:
                return self
            self.path = self.path + (z3.BoolVal(False),)
            return self
        if c.get_id() in self.lits:
            return self
        new = {c.get_id()}
        T._keep.append(c)
        stack = [c]
        while stack:
            e = stack.pop()
            if z3.is_and(e):
                for a in e.children():
                    new.add(a.get_id())
                    T._keep.append(a)
                    stack.append(a)
        self.path = self.path + (c,)
        self.lits = self.lits | new
        return self

    def dead(self):
        return any(z3.is_false(p) for p in self.path)


def merge_values(c, a, b, keep=None):
    """value that is a if c else b"""
    if a is b:
        return a
    if isinstance(a, Mat) and isinstance(b, Mat):
        st = None
        if a.sparse or b.sparse:
            st = lambda i, j: ite(c, a.stored(i, j), b.stored(i, j))
        return Mat(ite(c, a.rows, b.rows), ite(c, a.cols, b.cols), lambda i, j: ite(c, a.at(i, j), b.at(i, j)), st=st,
                   major=a.major or b.major, comp=ite(c, a.comp, b.comp) if a.comp is not None and b.comp is not None else None,
                   node=('ite', c, a, b), vec=a.vec if a.vec == b.vec else None, sort=a.sort)
    if isinstance(a, Struct) and isinstance(b, Struct):
        if set(a.f) != set(b.f):
            raise Unsupported('merging different structs')
        return Struct(a.t, {k: merge_values(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, Opt) and isinstance(b, Opt):
        if a.val is None or isinstance(a.val, Unknown):
            v = b.val
        elif b.val is None or isinstance(b.val, Unknown):
            v = a.val
        else:
            v = merge_values(c, a.val, b.val)
        return Opt(ite(c, a.has, b.has), v)
    if isinstance(a, Vec) and isinstance(b, Vec):
        return Vec(ite(c, a.n, b.n), lambda i: merge_values(c, a.fn(i), b.fn(i)), ('ite', c, a, b))
    if isinstance(a, (Unknown, Void)) or isinstance(b, (Unknown, Void)):
        return UNK
    if isinstance(a, Diag) and isinstance(b, Diag):
        return Diag(merge_values(c, a.m, b.m))
    if isinstance(a, LRef) and isinstance(b, LRef) and a.var == b.var and len(a.path) == len(b.path) and str(a.path) == str(b.path):
        return a
    if isinstance(a, Lam) or isinstance(a, PyFun) or isinstance(a, LRef) or isinstance(a, Ptr):
        if type(a) == type(b) and isinstance(a, Lam) and a.node is b.node:
            return a
        raise Unsupported('merging function or pointer values')
    if (is_const(a) or isz(a) or isinstance(a, Ext)) and (is_const(b) or isz(b) or isinstance(b, Ext)):
        return ite(c, a, b)
    raise Unsupported(f'merging {type(a).__name__} and {type(b).__name__}')


def resolve(v, lits, depth=0):
    """prune top level case distinctions decided by the path"""
    if isinstance(v, Mat):
        n = v.node
        if n and n[0] == 'ite':
            k = lit_known(n[1], lits)
            if k is True:
                return resolve(n[2], lits)
            if k is False:
                return resolve(n[3], lits)
        return v
    if isinstance(v, Vec):
        n = v.node
        if n and n[0] == 'ite':
            k = lit_known(n[1], lits)
            if k is True:
                return resolve(n[2], lits)
            if k is False:
                return resolve(n[3], lits)
        return v
    if isz(v):
        while z3.is_app_of(v, z3.Z3_OP_ITE):
            k = lit_known(v.arg(0), lits)
            if k is True:
                v = v.arg(1)
            elif k is False:
                v = v.arg(2)
            else:
                break
        if z3.is_bool(v) and not is_const(v):
            k = lit_known(v, lits)
            if k is not None:
                return k
        return norm_const(v)
    if isinstance(v, Ext):
        return mkext(resolve(v.k, lits), resolve(v.v, lits))
    if isinstance(v, Opt):
        return Opt(resolve(v.has, lits), resolve(v.val, lits))
    return v


def merge_states(a, b):
    """a, b: disjoint states with a common path prefix"""
    if a is None or a.dead():
        return b
    if b is None or b.dead():
        return a
    n = 0
    while n < len(a.path) and n < len(b.path) and a.path[n].eq(b.path[n]):
        n += 1
    ca = And(*a.path[n:])
    cb = And(*b.path[n:])
    s = State({}, (), frozenset())
    for p in a.path[:n]:
        s.assume(p)
    s.assume(Or(ca, cb))
    c = ca
    if isinstance(c, bool):
        if isinstance(cb, bool):
            c = z3.Bool(R.fresh('choice'))
        else:
            c = Not(cb)
    for k in a.vars:
        if k in b.vars:
            va, vb = a.vars[k], b.vars[k]
            if va is vb:
                s.vars[k] = va
            else:
                try:
                    s.vars[k] = merge_values(c, va, vb)
                except Unsupported:
                    s.vars[k] = UNK
    return s


def merge_all(states):
    r = None
    for s in states:
        r = s if r is None else merge_states(r, s)
    return r
