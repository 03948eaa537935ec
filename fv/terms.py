"""Scalars of the verifier.

Integers are python ints / z3 Int terms (mathematical integers), floating point numbers are Fractions / z3 Real terms
(mathematical reals) or Ext values (a real extended with +inf, -inf and nan) where infinities may occur.

Sums, maxima, counts, ... over a symbolic range are *folds*: uninterpreted symbols that are keyed by their canonical
body, whose defining properties are instantiated when an obligation is proved (see prove.py)."""
from fractions import Fraction
import z3

z3.set_param('smt.random_seed', 0)

IntV = z3.Int
RealV = z3.Real


class Unsupported(Exception):
    """The code left the subset the verifier understands: nothing is proved, nothing is refuted."""


def isz(x):
    return isinstance(x, z3.ExprRef)


def is_const(x):
    return isinstance(x, (bool, int, Fraction))


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def z(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, Ext):
        raise Unsupported('extended real where a finite real is needed')
    return x


def is_real(x):
    return isinstance(x, (Fraction, Ext)) or (isz(x) and z3.is_real(x))


def is_int(x):
    return (isinstance(x, int) and not isinstance(x, bool)) or (isz(x) and z3.is_int(x))


def is_bool(x):
    return isinstance(x, bool) or (isz(x) and z3.is_bool(x))


class Ext:
    """k: 0 finite, 1 +inf, -1 -inf, 2 nan; v: value if finite."""
    __slots__ = ('k', 'v')

    def __init__(self, k, v):
        self.k = k
        self.v = v

    def __repr__(self):
        return f'Ext({self.k},{self.v})'


INF = Ext(1, Fraction(0))
NINF = Ext(-1, Fraction(0))
NAN = Ext(2, Fraction(0))


def mkext(k, v):
    if isinstance(k, int) and k == 0:
        return v
    return Ext(k, v)


def ek(x):
    return x.k if isinstance(x, Ext) else 0


def ev(x):
    return x.v if isinstance(x, Ext) else x


# --- booleans -----------------------------------------------------------------------------------------------------

def Not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    if z3.is_true(a):
        return False
    if z3.is_false(a):
        return True
    return z3.Not(a)


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if isinstance(x, bool):
            if not x:
                return False
            continue
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        if any(x.eq(o) for o in out):
            continue
        out.append(x)
    if not out:
        return True
    for o in out:
        n = Not(o)
        if isz(n) and any(n.eq(p) for p in out):
            return False
    if len(out) == 1:
        return out[0]
    return z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = Or(*x)
        if isinstance(x, bool):
            if x:
                return True
            continue
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return True
        if any(x.eq(o) for o in out):
            continue
        out.append(x)
    if not out:
        return False
    for o in out:
        n = Not(o)
        if isz(n) and any(n.eq(p) for p in out):
            return True
    if len(out) == 1:
        return out[0]
    return z3.Or(*out)


def Implies(a, b):
    return Or(Not(a), b)


# --- arithmetic ---------------------------------------------------------------------------------------------------

def to_real(x):
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isz(x) and z3.is_bool(x):
        return z3.If(x, z3.RealVal(1), z3.RealVal(0))
    if isz(x) and z3.is_int(x):
        if z3.is_int_value(x):
            return Fraction(x.as_long())
        return z3.ToReal(x)
    return x


def to_int_from_bool(x):
    if isinstance(x, bool):
        return int(x)
    if isz(x) and z3.is_bool(x):
        return z3.If(x, z3.IntVal(1), z3.IntVal(0))
    return x


def coerce(a, b):
    if is_bool(a):
        a = to_int_from_bool(a)
    if is_bool(b):
        b = to_int_from_bool(b)
    if is_real(a) and not is_real(b):
        b = to_real(b)
    elif is_real(b) and not is_real(a):
        a = to_real(a)
    return a, b


def norm_const(x):
    if isz(x):
        if z3.is_int_value(x):
            return x.as_long()
        if z3.is_rational_value(x):
            return Fraction(x.numerator_as_long(), x.denominator_as_long())
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


def add(a, b):
    a, b = coerce(a, b)
    if isinstance(a, Ext) or isinstance(b, Ext):
        ka, kb = ek(a), ek(b)
        v = add(ev(a), ev(b))
        if isinstance(ka, int) and isinstance(kb, int):
            if ka == 2 or kb == 2 or ka * kb == -1:
                return NAN
            return mkext(ka if ka else kb, v)
        if isinstance(kb, int) and kb == 0:
            return Ext(ka, v)
        if isinstance(ka, int) and ka == 0:
            return Ext(kb, v)
        k = ite(Or(eq(ka, 2), eq(kb, 2), And(eq(ka, 1), eq(kb, -1)), And(eq(ka, -1), eq(kb, 1))), 2, ite(eq(ka, 0), kb, ka))
        return mkext(k, v)
    if is_const(a) and is_const(b):
        return a + b
    if is_const(a) and a == 0:
        return b
    if is_const(b) and b == 0:
        return a
    return z(a) + z(b)


def neg(a):
    if is_bool(a):
        a = to_int_from_bool(a)
    if isinstance(a, Ext):
        k = a.k
        if isinstance(k, int):
            return Ext(k if k == 2 else -k, neg(a.v))
        return Ext(ite(eq(k, 2), 2, neg(k)), neg(a.v))
    if is_const(a):
        return -a
    return -a


def sub(a, b):
    a, b = coerce(a, b)
    if isinstance(a, Ext) or isinstance(b, Ext):
        return add(a, neg(b))
    if is_const(a) and is_const(b):
        return a - b
    if is_const(b) and b == 0:
        return a
    if isz(a) and isz(b) and a.eq(b):
        return Fraction(0) if z3.is_real(a) else 0
    return z(a) - z(b)


def mul(a, b):
    a, b = coerce(a, b)
    if isinstance(a, Ext) or isinstance(b, Ext):
        ka, kb, va, vb = ek(a), ek(b), ev(a), ev(b)
        if isinstance(ka, int) and ka == 0 and isinstance(kb, int) and kb == 0:
            return mul(va, vb)
        sa = ite(eq(ka, 0), ite(gt(va, 0), 1, ite(lt(va, 0), -1, 0)), ka)
        sb = ite(eq(kb, 0), ite(gt(vb, 0), 1, ite(lt(vb, 0), -1, 0)), kb)
        nan = Or(eq(ka, 2), eq(kb, 2), And(Or(ne(ka, 0), ne(kb, 0)), Or(eq(sa, 0), eq(sb, 0))))
        k = ite(nan, 2, ite(And(eq(ka, 0), eq(kb, 0)), 0, ite(eq(sa, sb), 1, -1)))
        return mkext(k, mul(va, vb))
    if is_const(a) and is_const(b):
        return a * b
    for p, q in ((a, b), (b, a)):
        if is_const(p):
            if p == 0:
                return Fraction(0) if is_real(p) else 0
            if p == 1:
                return q
    return z(a) * z(b)


def div(a, b):
    """Real division; division by zero is reported by an obligation where it is executed."""
    a, b = to_real(a), to_real(b)
    if isinstance(b, Ext):
        raise Unsupported('division by an extended real')
    if isinstance(a, Ext):
        s = ite(gt(b, 0), a.k, neg(a.k)) if not (is_const(b)) else (a.k if b > 0 else neg(a.k))
        return mkext(ite(eq(a.k, 2), 2, s), div(a.v, b))
    if is_const(b):
        if b == 0:
            return z(a) / z3.RealVal(0)
        if is_const(a):
            return a / b
        if b == 1:
            return a
    return z(a) / z(b)


def idiv(a, b):
    """C++ truncating division."""
    if is_const(a) and is_const(b):
        if b == 0:
            raise Unsupported('constant division by zero')
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b > 0) else -q
    a, b = z(a), z(b)
    return z3.If(z3.Or(z3.And(a >= 0, b > 0)), a / b, z3.If(z3.And(a <= 0, b > 0), -((-a) / b), z3.If(a >= 0, -(a / (-b)), (-a) / (-b))))


def imod(a, b, nonneg=False):
    if is_const(a) and is_const(b) and b != 0:
        q = idiv(a, b)
        return a - q * b
    a, b = z(a), z(b)
    if nonneg:
        return a % b
    return z3.If(a >= 0, a % b, -((-a) % b))


def lt(a, b):
    a, b = coerce(a, b)
    if isinstance(a, Ext) or isinstance(b, Ext):
        ka, kb = ek(a), ek(b)
        nn = And(ne(ka, 2), ne(kb, 2))
        return And(nn, Or(lt(ka, kb), And(eq(ka, 0), eq(kb, 0), lt(ev(a), ev(b)))))
    if is_const(a) and is_const(b):
        return a < b
    return z(a) < z(b)


def le(a, b):
    a, b = coerce(a, b)
    if isinstance(a, Ext) or isinstance(b, Ext):
        ka, kb = ek(a), ek(b)
        nn = And(ne(ka, 2), ne(kb, 2))
        return And(nn, Or(lt(ka, kb), And(eq(ka, kb), Or(ne(ka, 0), le(ev(a), ev(b))))))
    if is_const(a) and is_const(b):
        return a <= b
    return z(a) <= z(b)


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if is_bool(a) and is_bool(b):
        if isinstance(a, bool):
            return b if a else Not(b)
        if isinstance(b, bool):
            return a if b else Not(a)
        if a.eq(b):
            return True
        return a == b
    a, b = coerce(a, b)
    if isinstance(a, Ext) or isinstance(b, Ext):
        ka, kb = ek(a), ek(b)
        return And(eq(ka, kb), ne(ka, 2), Or(ne(ka, 0), eq(ev(a), ev(b))))
    if is_const(a) and is_const(b):
        return a == b
    a, b = z(a), z(b)
    if a.eq(b):
        return True
    return a == b


def same(a, b):
    """Mathematical identity (nan is the same as nan); used by specifications."""
    if isinstance(a, Ext) or isinstance(b, Ext):
        a, b = to_real(a), to_real(b)
        return And(eq(ek(a), ek(b)), Or(ne(ek(a), 0), eq(ev(a), ev(b))))
    return eq(a, b)


def ne(a, b):
    return Not(eq(a, b))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b:
                return a
            return c if a else Not(c)
        if isinstance(a, bool):
            return Or(c, b) if a else And(Not(c), b)
        if isinstance(b, bool):
            return Or(Not(c), a) if b else And(c, a)
        if a.eq(b):
            return a
        return z3.If(c, a, b)
    a, b = coerce(a, b)
    if isinstance(a, Ext) or isinstance(b, Ext):
        return mkext(ite(c, ek(a), ek(b)), ite(c, ev(a), ev(b)))
    if is_const(a) and is_const(b) and a == b:
        return a
    a, b = z(a), z(b)
    if a.eq(b):
        return norm_const(a)
    # if(c, if(c, x, y), z) -> if(c, x, z)
    if z3.is_app_of(a, z3.Z3_OP_ITE) and a.arg(0).eq(c):
        a = a.arg(1)
    if z3.is_app_of(b, z3.Z3_OP_ITE) and b.arg(0).eq(c):
        b = b.arg(2)
    return z3.If(c, a, b)


def mx(a, b):
    a, b = coerce(a, b)
    if is_const(a) and is_const(b):
        return max(a, b)
    return ite(lt(a, b), b, a)


def mn(a, b):
    a, b = coerce(a, b)
    if is_const(a) and is_const(b):
        return min(a, b)
    return ite(lt(b, a), b, a)


def fabs(a):
    if is_const(a):
        return abs(a)
    if isinstance(a, Ext):
        if isinstance(a.k, int):
            return mkext(1 if a.k == -1 else a.k, fabs(a.v))
        return Ext(ite(eq(a.k, -1), 1, a.k), fabs(a.v))
    return ite(ge(a, 0), a, neg(a))


# --- expression utilities -----------------------------------------------------------------------------------------

_const_cache = {}


_keep = []


def consts_of(e):
    """Ordered tuple of the uninterpreted constants (arity 0) in a z3 term."""
    if not isz(e):
        return ()
    i = e.get_id()
    r = _const_cache.get(i)
    if r is not None:
        return r
    out = {}
    if z3.is_app(e):
        if e.num_args() == 0:
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[e.get_id()] = e
        else:
            for c in e.children():
                for k in consts_of(c):
                    out.setdefault(k.get_id(), k)
    r = tuple(out.values())
    _const_cache[i] = r
    _keep.append(e)
    return r


_decl_cache = {}


def decls_of(e):
    """Names of all uninterpreted symbols (constants and functions)."""
    if not isz(e):
        if isinstance(e, Ext):
            return decls_of(e.k) | decls_of(e.v)
        return frozenset()
    i = e.get_id()
    r = _decl_cache.get(i)
    if r is not None:
        return r
    s = set()
    if z3.is_app(e):
        d = e.decl()
        if d.kind() == z3.Z3_OP_UNINTERPRETED:
            s.add(d.name())
        for c in e.children():
            s |= decls_of(c)
    r = frozenset(s)
    _decl_cache[i] = r
    _keep.append(e)
    return r


def subst(e, pairs):
    if isinstance(e, Ext):
        return mkext(subst(e.k, pairs), subst(e.v, pairs))
    if not isz(e):
        return e
    ps = [(a, z(b)) for a, b in pairs]
    if not ps:
        return e
    return norm_const(z3.substitute(e, *ps))


def simp(e):
    if isinstance(e, Ext):
        return mkext(norm_const(simp(e.k)), simp(e.v))
    if not isz(e):
        return e
    return norm_const(z3.simplify(e))


def is_index(c):
    return c.decl().name().startswith('!')


def index_vars(*es):
    out = {}
    for e in es:
        if isinstance(e, Ext):
            for c in index_vars(e.k, e.v):
                out.setdefault(c.get_id(), c)
        elif isz(e):
            for c in consts_of(e):
                if is_index(c):
                    out.setdefault(c.get_id(), c)
    return list(out.values())


class Fold:
    """kind in sum,max,any,count,first ; value = UF(params) ; dom/body over params and bvs.
    sum/max: body Real.  any/count/first: body Bool (dom is part of it)."""
    __slots__ = ('kind', 'uf', 'params', 'bvs', 'dom', 'body', 'name', 'extra')


class Opaque:
    """value = UF(params, i, j): result of an operation of a dependency that is a function of its operands."""
    __slots__ = ('op', 'uf', 'params', 'operands', 'name')


class Registry:
    def __init__(self):
        self.n = 0
        self.folds = {}      # key -> Fold
        self.byname = {}     # uf name -> Fold/Opaque/Filter
        self.opq = {}
        self.taint = {}      # symbol name -> frozenset of base symbol names it may depend on
        self.filters = {}    # sel uf name -> dict
        self.dist = {}

    def fresh(self, base):
        self.n += 1
        return f'{base}~{self.n}'

    def int(self, base):
        return z3.Int(self.fresh(base))

    def idx(self, base):
        return z3.Int('!' + self.fresh(base))

    def real(self, base):
        return z3.Real(self.fresh(base))

    def bool(self, base):
        return z3.Bool(self.fresh(base))

    def func(self, base, *sorts):
        return z3.Function(self.fresh(base), *sorts)


R = Registry()
BV = [z3.Int(f'!bv{i}') for i in range(4)]
PAR = [z3.Int(f'!p{i}') for i in range(12)]
I_ = z3.Int('!I')
J_ = z3.Int('!J')


def _abstract(bvs, exprs):
    """Renames bound variables to canonical ones and free index variables to parameters."""
    bs = list(zip(bvs, BV))
    exprs = [subst(e, bs) for e in exprs]
    exprs = [simp(e) for e in exprs]
    bvid = {b.get_id() for b in BV}
    fv = [c for c in index_vars(*exprs) if c.get_id() not in bvid]
    ps = list(zip(fv, PAR))
    if len(fv) > len(PAR):
        raise Unsupported('too many index parameters')
    return [subst(e, ps) for e in exprs], fv


def _kid(e):
    if isinstance(e, Ext):
        return ('E', _kid(e.k), _kid(e.v))
    if isz(e):
        _keep.append(e)
        return e.get_id()
    return ('c', type(e).__name__, e)


def mkfold(kind, bvs, dom, body):
    """bvs: list of fresh index constants; dom: Bool; body over bvs."""
    if isinstance(body, Ext):
        raise Unsupported(f'{kind} over possibly infinite values')
    d = simp(dom)
    if isinstance(d, bool) and not d:
        return {'sum': Fraction(0), 'max': Fraction(0), 'any': False, 'count': 0, 'first': 0, 'isum': 0, 'prod': Fraction(1)}[kind]
    if kind in ('any', 'count', 'first'):
        body = And(dom, body)
        dom = True
        b = simp(body)
        if isinstance(b, bool) and not b:
            return False if kind == 'any' else 0
    if kind in ('sum', 'max', 'isum'):
        b = simp(body)
        if is_const(b) and b == 0:
            return 0 if kind == 'isum' else Fraction(0)
    (dom2, body2), fv = _abstract(bvs, [zb(dom), zb(body) if isinstance(body, bool) else z(body)])
    key = (kind, len(bvs), len(fv), _kid(dom2), _kid(body2))
    f = R.folds.get(key)
    if f is None:
        f = Fold()
        f.kind = kind
        f.name = R.fresh('fold_' + kind)
        sort = {'sum': z3.RealSort(), 'max': z3.RealSort(), 'any': z3.BoolSort(), 'count': z3.IntSort(), 'first': z3.IntSort(), 'isum': z3.IntSort(), 'prod': z3.RealSort()}[kind]
        f.uf = z3.Function(f.name, *([z3.IntSort()] * len(fv) + [sort])) if fv else z3.Const(f.name, sort)
        f.params = PAR[:len(fv)]
        f.bvs = BV[:len(bvs)]
        f.dom = dom2
        f.body = body2
        f.extra = None
        R.folds[key] = f
        R.byname[f.name] = f
    return f.uf(*fv) if fv else f.uf


def fold(kind, lo, hi, fn):
    """Fold over lo <= t < hi."""
    b = R.idx('b')
    if is_const(lo) and is_const(hi):
        if hi <= lo:
            return {'sum': Fraction(0), 'max': Fraction(0), 'any': False, 'count': 0, 'first': 0, 'isum': 0}[kind]
        if hi - lo <= 8 and kind in ('sum', 'max', 'any', 'isum'):
            acc = None
            for t in range(lo, hi):
                v = fn(t)
                if acc is None:
                    acc = mx(Fraction(0), v) if kind == 'max' else v
                else:
                    acc = {'sum': add, 'isum': add, 'max': mx, 'any': Or}[kind](acc, v)
            return acc
    dom = And(le(lo, b), lt(b, hi))
    return mkfold(kind, [b], dom, fn(b))


def opaque(op, operands, i, j, sort=None):
    """operands: list of ('m', rows, cols, fn) | ('s', expr).  Result element (i, j) as a term."""
    exprs = []
    shape = []
    for o in operands:
        if o[0] == 'm':
            e = o[3](I_, J_)
            exprs += [z(o[1]), z(o[2])]
            if isinstance(e, Ext):
                exprs += [z(e.k), z(e.v)]
                shape.append('M')
            else:
                exprs += [zb(e) if isinstance(e, bool) else z(e)]
                shape.append('m')
        else:
            e = o[1]
            if isinstance(e, Ext):
                exprs += [z(e.k), z(e.v)]
                shape.append('S')
            else:
                exprs += [zb(e) if isinstance(e, bool) else z(e)]
                shape.append('s')
    exprs = [simp(e) for e in exprs]
    loc = {I_.get_id(), J_.get_id()}
    fv = [c for c in index_vars(*exprs) if c.get_id() not in loc]
    exprs = [subst(e, list(zip(fv, PAR))) for e in exprs]
    key = (op, tuple(shape), len(fv)) + tuple(_kid(e) for e in exprs) + (str(sort),)
    f = R.opq.get(key)
    if f is None:
        f = Opaque()
        f.op = op
        f.name = R.fresh('op_' + op)
        f.params = PAR[:len(fv)]
        f.operands = (tuple(shape), exprs)
        f.uf = z3.Function(f.name, *([z3.IntSort()] * (len(fv) + 2) + [sort if sort is not None else z3.RealSort()]))
        R.opq[key] = f
        R.byname[f.name] = f
    return f.uf(*fv, z(i), z(j))


# square root, logarithm, ...: total functions with the facts listed in prove.FUN_AXIOMS
SQRT = z3.Function('fn_sqrt', z3.RealSort(), z3.RealSort())


def sqrt(a):
    if is_const(a):
        n, d = Fraction(a).numerator, Fraction(a).denominator
        import math
        if n >= 0 and math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
            return Fraction(math.isqrt(n), math.isqrt(d))
        return SQRT(z(Fraction(a)))
    if isinstance(a, Ext):
        raise Unsupported('sqrt of an extended real')
    return SQRT(z(a))
