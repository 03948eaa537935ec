"""Contracts of the dependencies (Eigen, the C++ standard library): what each operation returns, what it requires and
what it changes.  These are assumed, and replayed against the real libraries by the replay drivers."""
import re
from fractions import Fraction
from .terms import *
from . import terms as T
from .values import *
from .interp import parse_type, split_args, RefW, FLOAT_TYPES, INT_TYPES, MATS, Obl
from .prove import Forall

ZERO = Fraction(0)
ONE = Fraction(1)


def as_mat(I, v):
    v = I.rv(v)
    if isinstance(v, (Diag, SelfAdj, TriView)):
        return v.mat()
    if isinstance(v, Mat):
        return v
    if isinstance(v, Struct) and v.t == 'mpath':
        return v.f['m']
    if isinstance(v, Unknown):
        raise Unsupported('matrix of unknown value')
    if is_const(v) or isz(v) or isinstance(v, Ext):
        return Mat(1, 1, lambda i, j: v, vec=True)
    raise Unsupported(f'{type(v).__name__} used as a matrix')


def is_one(x):
    return is_const(x) and x == 1


def transpose(m):
    if isinstance(m, Diag):
        return m
    if isinstance(m, SelfAdj):
        return m
    st = (lambda i, j: m.stored(j, i)) if m.sparse else None
    r = Mat(m.cols, m.rows, lambda i, j: m.at(j, i), st=st, major={'row': 'col', 'col': 'row', None: None}[m.major], comp=m.comp,
            vec=True if is_one(m.rows) else None, sort=m.sort)
    r.node = ('T', m)
    if isinstance(m.node, tuple) and m.node and m.node[0] == 'T':
        return m.node[1]
    return r


def simp_le(a, b):
    r = T.simp(le(a, b))
    return r is True


def same_t(a, b):
    if is_const(a) and is_const(b):
        return a == b
    r = T.simp(sub(a, b))
    return is_const(r) and r == 0


def block(I, m, r0, c0, h, w):
    if isinstance(m, (Diag, SelfAdj, TriView)):
        m = m.mat()
    m = as_mat(I, m)
    n = m.node
    vec = True if is_one(w) else None
    k = 0
    while n and n[0] == 'bstore' and k < 50:
        _, base, a, b, hh, ww, src = n
        if same_t(a, r0) and same_t(b, c0) and same_t(hh, h) and same_t(ww, w) and not m.sparse:
            if src.vec != vec and vec is True and src.vec is not True:
                return Mat(h, w, src.at, vec=True, sort=src.sort)
            return src
        disj = simp_le(add(a, hh), r0) or simp_le(add(r0, h), a) or simp_le(add(b, ww), c0) or simp_le(add(c0, w), b)
        if not disj:
            break
        m = base
        n = m.node
        k += 1
    if is_const(r0) and r0 == 0 and is_const(c0) and c0 == 0 and same_t(h, m.rows) and same_t(w, m.cols):
        return m
    st = (lambda i, j: m.stored(add(i, r0), add(j, c0))) if m.sparse else None
    r = Mat(h, w, lambda i, j: m.at(add(i, r0), add(j, c0)), st=st, major=m.major, comp=m.comp, vec=vec, sort=m.sort)
    r.node = ('blk', m, r0, c0)
    return r


def mstore(I, m, i, j, val, touch=True):
    m = as_mat(I, m) if not isinstance(m, Mat) else m
    if m.sort == 'real':
        val = to_real(val)
        val = collapse(I, val)
    b = m

    def fn(a, c):
        return ite(And(eq(a, i), eq(c, j)), val, b.at(a, c))
    st = None
    comp = m.comp
    if m.sparse:
        def st(a, c):
            return Or(And(eq(a, i), eq(c, j)), b.stored(a, c))
        s = m.stored(i, j)
        k = lit_known(s, I.st.lits) if isz(s) else s
        if k is not True:
            comp = I.fresh('bool', 'comp')
    r = m.like(fn, st=st, comp=comp)
    r.node = ('store', b, i, j, val)
    return r


def collapse(I, v):
    """an extended real that is finite on this path"""
    if isinstance(v, Ext):
        if isinstance(v.k, int):
            return mkext(v.k, v.v)
        if I.known(eq(v.k, 0)):
            return v.v
    return v


def collapse_mat(I, m):
    e = m.at(I_, J_)
    if isinstance(e, Ext):
        if isinstance(e.k, int) and e.k == 0:
            pass
        elif not I.known(Implies(m.inb(I_, J_), eq(e.k, 0))):
            return m
        r = m.like(lambda i, j: ev(m.at(i, j)))
        r.tag = m.tag
        return r
    return m


def bstore(I, m, r0, c0, h, w, src):
    m = as_mat(I, m) if not isinstance(m, Mat) else m
    src = as_mat(I, src)
    if is_one(w) and not is_one(src.cols) and is_one(src.rows):
        src = transpose(src)
    if is_const(r0) and r0 == 0 and is_const(c0) and c0 == 0 and same_t(h, m.rows) and same_t(w, m.cols) and not m.sparse:
        return Mat(m.rows, m.cols, src.at, vec=m.vec, sort=m.sort, node=src.node if src.node and src.node[0] in ('bstore',) else None)
    b = m

    def inside(i, j):
        cs = []
        if not (is_const(r0) and r0 == 0):
            cs.append(le(r0, i))
        if not same_t(add(r0, h), m.rows):
            cs.append(lt(i, add(r0, h)))
        if not (is_const(c0) and c0 == 0):
            cs.append(le(c0, j))
        if not same_t(add(c0, w), m.cols):
            cs.append(lt(j, add(c0, w)))
        return And(*cs)
    if m.sparse:
        def fn(i, j):
            return ite(inside(i, j), ite(src.stored(sub(i, r0), sub(j, c0)), src.at(sub(i, r0), sub(j, c0)), ZERO), b.at(i, j))
        st = lambda i, j: ite(inside(i, j), src.stored(sub(i, r0), sub(j, c0)), b.stored(i, j))
        return m.like(fn, st=st)

    def fn(i, j):
        return ite(inside(i, j), src.at(sub(i, r0), sub(j, c0)), b.at(i, j))
    r = m.like(fn)
    r.node = ('bstore', b, r0, c0, h, w, src)
    return r


def from_list(I, v, r, c):
    if v and isinstance(v[0], list):
        rows, cols = len(v), len(v[0])
        get = lambda i, j: v[i][j]
    elif v and all(is_int(x) for x in v) and len(v) <= 2 and r == -1:
        return I.uninit_mat(v[0], v[1] if len(v) > 1 else 1)
    else:
        rows, cols = (len(v), 1) if c == 1 or r != 1 else (1, len(v))
        get = lambda i, j: v[i] if cols == 1 else v[j]

    def fn(i, j):
        if is_const(i) and is_const(j):
            return to_real(get(i, j))
        e = ZERO
        for a in range(rows):
            for b in range(cols):
                e = ite(And(eq(i, a), eq(j, b)), to_real(get(a, b)), e)
        return e
    return Mat(rows, cols, fn, vec=True if cols == 1 else None)


# --- matrix algebra -----------------------------------------------------------------------------------------------

def dims_eq(I, a, b, n, what):
    if isinstance(a, Mat) and isinstance(b, Mat):
        I.oblige('shape', And(eq(a.rows, b.rows), eq(a.cols, b.cols)), n, what)


def ew2(I, a, b, f, n, what='operand shapes differ'):
    a, b = as_mat(I, a), as_mat(I, b)
    dims_eq(I, a, b, n, what)
    st = None
    maj = None
    if a.sparse and b.sparse:
        maj = a.major
        st = lambda i, j: Or(a.stored(i, j), b.stored(i, j))
    return Mat(a.rows, a.cols, lambda i, j: f(a.at(i, j), b.at(i, j)), st=st, major=maj, comp=True if st else None, vec=a.vec or b.vec, sort=a.sort)


def ew1(I, a, f):
    a = as_mat(I, a)
    return Mat(a.rows, a.cols, lambda i, j: f(a.at(i, j)), st=a.st, major=a.major, comp=a.comp, vec=a.vec, sort=a.sort)


def matmul(I, a, b, n):
    if isinstance(a, Diag) and isinstance(b, Diag):
        x, y = a.m, b.m
        dims_eq(I, x, y, n, 'product of diagonals')
        return Diag(Mat(x.rows, 1, lambda i, j: mul(x.at(i, 0), y.at(i, 0)), vec=True))
    if isinstance(a, Diag):
        d, m = a.m, as_mat(I, b)
        I.oblige('shape', eq(d.rows, m.rows), n, 'diagonal times matrix')
        return Mat(m.rows, m.cols, lambda i, j: mul(d.at(i, 0), m.at(i, j)), st=m.st, major=m.major, comp=m.comp, vec=m.vec)
    if isinstance(b, Diag):
        m, d = as_mat(I, a), b.m
        I.oblige('shape', eq(d.rows, m.cols), n, 'matrix times diagonal')
        return Mat(m.rows, m.cols, lambda i, j: mul(m.at(i, j), d.at(j, 0)), st=m.st, major=m.major, comp=m.comp, vec=m.vec)
    if isinstance(a, Struct) and a.t == 'Perm':
        m = as_mat(I, b)
        K = a.f['K']
        I.oblige('shape', eq(m.rows, K.rows), n, 'permutation')
        if a.f['inv']:
            if m.tag and m.tag[0] == 'UDLP' and m.tag[1] is K:
                return ldlt_solution(K, m.tag[2])
            op = lambda i, j: opaque('perminv', [('m', K.rows, K.cols, K.at), ('m', m.rows, m.cols, m.at)], i, j)
            return Mat(m.rows, m.cols, op, vec=m.vec)
        r = Mat(m.rows, m.cols, lambda i, j: opaque('perm', [('m', K.rows, K.cols, K.at), ('m', m.rows, m.cols, m.at)], i, j), vec=m.vec)
        r.tag = ('P', K, m)
        return r
    a, b = as_mat(I, a), as_mat(I, b)
    I.oblige('shape', eq(a.cols, b.rows), n, 'matrix product')
    K = a.cols
    vec = b.vec if is_one(b.cols) else None
    st = None
    maj = None

    def fn(i, j):
        return fold('sum', 0, K, lambda k: mul(a.at(i, k), b.at(k, j)))
    if a.sparse and b.sparse:
        # the pattern of a sparse product contains the pattern of its nonzero values
        def st(i, j):
            return z3.Not(opaque('pattern', [('m', a.rows, a.cols, lambda p, q: a.stored(p, q)), ('m', b.rows, b.cols, lambda p, q: b.stored(p, q))], i, j, z3.IntSort()) == 0)
        maj = a.major
        g = fn

        def fn(i, j):
            s = st(i, j)
            return ite(s, g(i, j), ZERO)
        r = Mat(a.rows, b.cols, fn, st=st, major=maj, comp=True)
        r.node = ('sprod', g)
        # fact: unstored entries of the product are zero
        i, j = R.idx('pi'), R.idx('pj')
        I.fact(Forall([i, j] + list(I.qstack), Implies(Not(st(i, j)), eq(g(i, j), ZERO))), guarded=not I.qstack)
        return r
    return Mat(a.rows, b.cols, fn, vec=vec)


def ldlt_solution(K, rhs):
    return Mat(rhs.rows, rhs.cols, lambda i, j: opaque('ldlt_solve', [('m', K.rows, K.cols, K.at), ('m', rhs.rows, rhs.cols, rhs.at)], i, j), vec=rhs.vec)


def lpinf(m):
    if is_one(m.cols):
        return fold('max', 0, m.rows, lambda k: fabs(m.at(k, 0)))
    if is_one(m.rows):
        return fold('max', 0, m.cols, lambda k: fabs(m.at(0, k)))
    b, c = R.idx('b'), R.idx('c')
    return mkfold('max', [b, c], m.inb(b, c), fabs(m.at(b, c)))


def msum(m, f=lambda x: x):
    if is_one(m.cols):
        return fold('sum', 0, m.rows, lambda k: f(m.at(k, 0)))
    if is_one(m.rows):
        return fold('sum', 0, m.cols, lambda k: f(m.at(0, k)))
    b, c = R.idx('b'), R.idx('c')
    return mkfold('sum', [b, c], m.inb(b, c), f(m.at(b, c)))


def const_mat(rows, cols, v, sort='real'):
    return Mat(rows, cols, lambda i, j: v, vec=True if is_one(cols) else None, sort=sort)


# --- helpers for calls --------------------------------------------------------------------------------------------

def callee(n):
    x = n.inner[0]
    while x.kind in ('ImplicitCastExpr', 'ParenExpr'):
        x = x.inner[0]
    return x


def tmpl_int(I, n):
    """explicit template arguments in the source text of a call: foo<3>(...)"""
    t = I.u.text(n)
    m = re.search(r'<\s*([A-Za-z0-9_:\- ]+)\s*>\s*$', t) or re.search(r'<\s*([A-Za-z0-9_:\- ]+)\s*>', t)
    return m.group(1).strip() if m else None


def result_dims(n):
    """(rows, cols) of a fixed-size block expression from its type"""
    t = n.type
    name, args, ref = parse_type(t)
    if name.endswith('VectorBlock'):
        k = int(args[-1])
        return (k, 1)
    if name.endswith('Block'):
        return (int(args[1]), int(args[2]))
    return (-1, -1)


def lref_or_temp(I, x):
    return x


def sub_block(I, obj, r0, c0, h, w, n, rvalue):
    m = as_mat(I, obj)
    I.oblige('bounds', And(le(0, r0), le(0, c0), le(0, h), le(0, w), le(add(r0, h), m.rows), le(add(c0, w), m.cols)), n, 'block')
    if isinstance(obj, LRef):
        return LRef(obj.var, obj.path + (('b', r0, c0, h, w),))
    return block(I, m, r0, c0, h, w)


def assign(I, r, v, n, noalias=False):
    """matrix assignment to an lvalue"""
    if isinstance(r, Unknown):
        return r
    if not isinstance(r, LRef):
        I.unsupported('assignment to a temporary', n)
    old = I.rv(r) if not (r.path and r.path[-1][0] == 'coeffs') else None
    if isinstance(old, Opt):
        v = I.rv(v) if not isinstance(v, RefW) else v
        if v is NULLOPT:
            I.write(r, Opt(False, UNK))
        elif isinstance(v, Opt):
            I.write(r, v)
        else:
            I.write(r, Opt(True, v))
        return r
    v = I.rv(v)
    if isinstance(old, Mat):
        m = as_mat(I, v) if not isinstance(v, list) else from_list(I, v, -1, 1)
        m = collapse_mat(I, m)
        isblock = bool(r.path) and r.path[-1][0] in ('b', 'T', 'diag', 'coeffs')
        if isblock:
            if is_one(old.cols) and not is_one(m.cols) and is_one(m.rows):
                m = transpose(m)
            elif is_one(old.rows) and not is_one(m.rows) and is_one(m.cols):
                m = transpose(m)
            dims_eq(I, old, m, n, 'assignment to a block')
            I.write(r, m)
            return r
        if old.sparse:
            if not m.sparse:
                m0 = m
                m = Mat(m.rows, m.cols, m.at, st=lambda i, j: ne(m0.at(i, j), ZERO), major=old.major, comp=True)
            else:
                m = Mat(m.rows, m.cols, m.at, st=m.st, major=old.major, comp=True if m.comp is None else m.comp, node=m.node)
            I.write(r, m)
            return r
        if m.sparse:
            m = Mat(m.rows, m.cols, m.at)
        vec = old.vec
        if vec is True and not is_one(m.cols) and is_one(m.rows):
            m = transpose(m)
        if old.vec is None and is_const(old.rows) and old.rows == 1 and is_one(m.cols) and not is_one(m.rows):
            m = transpose(m)
        x = Mat(m.rows, m.cols, m.at, vec=True if vec is True else m.vec, sort=old.sort, node=m.node, tag=m.tag)
        I.write(r, x)
        return r
    if isinstance(old, (Struct, Vec, Lam)) or isinstance(v, (Struct, Vec)):
        I.write(r, v)
        return r
    I.write(r, v)
    return r


def ptr_index(I, p, i, n):
    i = add(p.off, i)
    if p.kind == 'outer':
        m = as_mat(I, p.obj)
        I.oblige('bounds', And(le(0, i), le(i, outer_size(m))), n, 'outer index')
        if is_const(i) and i == 0:
            return outer0(m)
        return opaque('outerptr', [('m', m.rows, m.cols, lambda a, b: m.stored(a, b)), ('s', 0 if m.major == 'col' else 1)], i, 0, z3.IntSort())
    if p.kind == 'data':
        m = I.rv(p.obj)
        I.oblige('bounds', m.inb(i, 0), n, 'pointer')
        return LRef(p.obj.var, p.obj.path + (('e', i, 0),))
    if p.kind == 'array':
        return p.obj(i)
    I.unsupported('pointer access', n)


def outer_size(m):
    if m.major is None:
        return m.rows if is_one(m.rows) and not is_one(m.cols) else m.cols
    return m.rows if m.major == 'row' else m.cols


def inner_size(m):
    if m.major is None:
        return m.cols if is_one(m.rows) and not is_one(m.cols) else m.rows
    return m.cols if m.major == 'row' else m.rows


def nnz_term(m):
    return opaque('nnz', [('m', m.rows, m.cols, lambda a, b: m.stored(a, b))], 0, 0, z3.IntSort())


def outer0(m):
    if isinstance(m.node, tuple) and m.node[0] == 'blk':
        p, r0, c0 = m.node[1:4]
        return opaque('outer0', [('m', p.rows, p.cols, lambda a, b: p.stored(a, b)), ('s', r0), ('s', c0)], 0, 0, z3.IntSort())
    return 0


# --- construction -------------------------------------------------------------------------------------------------

def construct(I, n):
    t = n.type
    name, args, ref = parse_type(t)
    inner = [c for c in n.inner]
    short = name.split('::')[-1]
    if 'InnerIterator' in short:
        mref = I.ev(inner[0])
        if len(inner) == 1:
            return I.rv(mref)
        o = I.val(inner[1])
        m = as_mat(I, mref)
        I.oblige('bounds', And(le(0, o), lt(o, outer_size(m))), n, 'inner iterator')
        return InnerItInit(m, mref if isinstance(mref, LRef) else None, o)
    if short == 'nullopt_t' or '__unspec' in t:
        return 0 if '__unspec' in t else NULLOPT
    h = I.ext.get('ctor:' + short)
    if h is not None:
        return h(I, n, args)
    cls = I.find_class(name, args) if not name.startswith(('std::', 'Eigen::')) else None
    if cls is not None:
        return construct_class(I, n, cls, name, inner)
    if name in MATS or name.endswith('::Matrix'):
        vals = [I.ev(c) for c in inner]
        if len(vals) >= 1 and isinstance(vals[-1], tuple) and vals[-1] and vals[-1][0] == 'default':
            vals = vals[:-1]
        if not vals:
            return I.default(t, n)
        r, c = I.mat_dims(name, args)
        v = I.rv(vals[0])
        isint = args[0] in INT_TYPES
        if len(vals) == 1 and isinstance(v, (Mat, Diag, SelfAdj, TriView, list)):
            return I.conv(v, t)
        if len(vals) == 1 and is_int(v) and (r == -1 or c == -1):
            I.oblige('bounds', le(0, v), n, 'size')
            return I.uninit_mat(v, c, isint) if c != -1 else I.uninit_mat(r, v, isint)
        if len(vals) == 2 and r == -1 and c == -1:
            a, b = v, I.rv(vals[1])
            return I.uninit_mat(a, b, isint)
        xs = [I.rv(x) for x in vals]
        return from_list(I, xs, r, c)
    if name.endswith('SparseMatrix'):
        vals = [I.ev(c) for c in inner]
        if not vals:
            return I.default(t)
        v = I.rv(vals[0])
        if len(vals) == 2 and is_int(v):
            return Mat(v, I.rv(vals[1]), lambda i, j: ZERO, st=lambda i, j: False, major='row' if len(args) > 1 and args[1] == '1' else 'col', comp=True)
        return I.conv(v, t)
    if name == 'std::optional':
        if not inner:
            return Opt(False, UNK)
        x = I.ev(inner[0])
        if parse_type(args[0])[0] == 'std::reference_wrapper':
            if isinstance(x, LRef) and not isinstance(I.rv_shallow(x), (Opt, RefW)):
                return Opt(True, RefW(x))
            y = I.rv_shallow(x) if isinstance(x, LRef) else x
            if isinstance(y, RefW):
                return Opt(True, y)
            if isinstance(y, Opt):
                return y
            if y is NULLOPT:
                return Opt(False, UNK)
            if isinstance(y, tuple) and y[0] == 'default':
                return Opt(False, UNK)
            if isinstance(y, Struct):
                vid = R.fresh('tmp')
                I.st.vars[vid] = y
                return Opt(True, RefW(LRef(vid)))
            I.unsupported('optional reference', n)
        return I.conv(x, t)
    if name == 'std::reference_wrapper':
        x = I.ev(inner[0])
        if isinstance(x, LRef):
            y = I.rv_shallow(x)
            return y if isinstance(y, RefW) else RefW(x)
        return x
    if 'LDLT' in short or 'LLT' in short:
        sp = 'Simplicial' in short
        if not inner:
            return I.default(t)
        m = I.val(inner[0])
        if isinstance(m, Struct) and m.t == 'LDLT':
            return m
        return ldlt_compute(I, m, args, sp, n)
    if name in ('std::basic_string', 'std::string') or short in ('setw', '_Setw'):
        for c in inner:
            pass
        return UNK
    if name.startswith('std::chrono::'):
        if not inner:
            return ZERO
        return I.val(inner[0])
    if name == 'std::vector':
        vals = [I.ev(c) for c in inner]
        vals = [v for v in vals if not (isinstance(v, tuple) and v and v[0] == 'default')]
        et = parse_type(args[0])[0]
        scalar = et in FLOAT_TYPES | INT_TYPES
        if not vals:
            return I.default(t)
        v = I.rv(vals[0])
        if isinstance(v, (Mat, Vec)) and len(vals) == 1:
            return v
        if isinstance(v, list):
            if scalar:
                return from_list(I, v, -1, 1) if v else I.default(t)
            return Vec(len(v), lambda i: v[i])
        if is_int(v):
            init = I.rv(vals[1]) if len(vals) > 1 else (ZERO if et in FLOAT_TYPES else 0)
            if scalar:
                return const_mat(v, 1, init, 'int' if et in INT_TYPES else 'real')
            x = I.rv(vals[1]) if len(vals) > 1 else I.default(args[0])
            return Vec(v, lambda i: x)
        I.unsupported('vector constructor', n)
    if name.startswith('std::pair') or name.startswith('std::tuple'):
        return tuple(I.rv(I.ev(c)) for c in inner)
    if len(inner) == 1:
        # copies and conversions of values that are modelled without their wrapper
        return I.ev(inner[0])
    if not inner:
        return I.default(t, n)
    I.unsupported(f'construction of {t}', n)


def construct_class(I, n, cls, name, inner):
    ct = (n.j.get('ctorType') or {}).get('qualType')
    ctors = []
    for c in cls.inner:
        if c.kind == 'CXXConstructorDecl':
            ctors.append(c)
        elif c.kind == 'FunctionTemplateDecl':
            ctors += [d for d in c.inner if d.kind == 'CXXConstructorDecl' and I.u.has_body(d)]
    norm = lambda s: (s or '').replace(' ', '')
    cand = [c for c in ctors if norm(c.qtype) == norm(ct) or norm(c.type) == norm(ct)]
    args = [I.ev(c) for c in inner]
    if len(args) == 1 and isinstance(I.rv(args[0]) if not isinstance(args[0], RefW) else None, Struct) and I.rv(args[0]).t.split('<')[0].split('::')[-1] == name.split('<')[0].split('::')[-1]:
        body = [c for c in cand if I.u.has_body(c) and not c.j.get('isImplicit') and not c.j.get('explicitlyDefaulted')]
        if not body:
            v = I.rv(args[0])
            h = I.ext.get('copy:' + cls.name)
            return copy_struct(I, v, cls, n)
    c = None
    for x in cand:
        if I.u.has_body(x) and not x.j.get('explicitlyDefaulted'):
            c = x
    if c is None:
        if len(cand) == 1 and I.u.has_body(cand[0]):
            c = cand[0]
    if c is None:
        if not args:
            return I.struct_default(cls, name)
        I.unsupported(f'constructor of {name}', n)
    vid = R.fresh('obj')
    f = {}
    for b in cls.inner:
        if b.kind == 'FieldDecl':
            f[b.name] = None
    I.st.vars[vid] = Struct(name, f)
    # fields without initializer in the constructor
    inits = {(x.j.get('anyInit') or {}).get('name') for x in c.inner if x.kind == 'CXXCtorInitializer'}
    for b in cls.inner:
        if b.kind == 'FieldDecl' and b.name not in inits:
            I.st.vars[vid] = I.st.vars[vid].with_(b.name, I.default(b.type))
    I.inline(c, LRef(vid), args, n)
    v = I.st.vars[vid]
    return v


def copy_struct(I, v, cls, n):
    """defaulted copy/move construction: memberwise, running the copy constructors the repository defines"""
    f = {}
    for b in cls.inner:
        if b.kind != 'FieldDecl':
            continue
        x = v.f.get(b.name)
        if isinstance(x, Struct) and x.t != 'LDLT':
            c2 = I.find_class(*parse_type(b.type)[:2])
            if c2 is not None:
                cc = [c for c in c2.inner if c.kind == 'CXXConstructorDecl' and I.u.has_body(c) and len([p for p in c.inner if p.kind == 'ParmVarDecl']) == 1
                      and c2.name in (c.qtype.split('(')[1] if '(' in c.qtype else '') and not c.j.get('explicitlyDefaulted')]
                cc = [c for c in cc if not c.qtype.rstrip(') noexcept').endswith('&&')]
                if cc:
                    vid = R.fresh('obj')
                    I.st.vars[vid] = Struct(x.t, {q.name: None for q in c2.inner if q.kind == 'FieldDecl'})
                    inits = {(y.j.get('anyInit') or {}).get('name') for y in cc[0].inner if y.kind == 'CXXCtorInitializer'}
                    for q in c2.inner:
                        if q.kind == 'FieldDecl' and q.name not in inits:
                            I.st.vars[vid] = I.st.vars[vid].with_(q.name, I.default(q.type))
                    src = R.fresh('obj')
                    I.st.vars[src] = x
                    I.inline(cc[0], LRef(vid), [LRef(src)], n)
                    x = I.st.vars[vid]
        f[b.name] = x
    return Struct(v.t, f)


def ldlt_compute(I, m, args, sp, n):
    m = as_mat(I, m)
    upper = any(a.strip() == '2' for a in args[1:2]) if args else True
    I.oblige('shape', eq(m.rows, m.cols), n, 'factorization of a square matrix')
    K = SelfAdj(m, upper).mat()
    return Struct('LDLT', {'K': K, 'pat': Mat(m.rows, m.cols, m.stored if m.sparse else (lambda i, j: True), sort='bool'), 'sp': sp})


# --- free function calls ------------------------------------------------------------------------------------------

def call(I, n):
    cal = callee(n)
    r = cal.ref()
    name = r.get('name') or cal.name
    rid = r.get('id')
    h = I.ext.get(name)
    argn = n.inner[1:]
    if h is not None:
        x = h(I, n, argn)
        if x is not NotImplemented:
            return x
    d = I.u.byid.get(rid)
    if d is not None and d.kind in ('FunctionDecl', 'CXXMethodDecl'):
        if not I.u.has_body(d):
            d = find_def(I, d)
        if d is not None and I.u.has_body(d):
            args = [I.ev(a) for a in argn]
            this = I.fn[-1].this if d.kind == 'CXXMethodDecl' else None
            return I.inline(d, this, args, n)
    if cal.kind == 'MemberExpr' or cal.kind == 'LambdaExpr':
        v = I.rv(I.ev(cal))
        if isinstance(v, Lam):
            return I.call_lambda(v, [I.ev(a) for a in argn], n)
    return builtin_call(I, n, name, argn, cal)


def find_def(I, d):
    for x in I.u.byid.values():
        if x.kind == d.kind and x.name == d.name and x.j.get('previousDecl') == d.id and I.u.has_body(x):
            return x
    for x in I.u.functions(d.name):
        if x.qtype == d.qtype:
            return x
    return None


def builtin_call(I, n, name, argn, cal):
    if name in ('move', 'forward', 'as_const', 'ref', 'cref', 'launder', 'addressof'):
        x = I.ev(argn[0])
        if name == 'move' and isinstance(x, LRef):
            return x
        if name in ('ref', 'cref'):
            return RefW(x) if isinstance(x, LRef) else x
        if name == 'addressof':
            return Ptr('lref', x)
        return x
    vals = None
    if name in ('max', 'min'):
        if not argn:
            t = parse_type(n.type)[0]
            if t in INT_TYPES:
                bits = {'int': 31, 'long': 63, 'unsigned int': 32, 'unsigned long': 64}.get(t, 63)
                return 2 ** bits - 1 if name == 'max' else (0 if t.startswith('unsigned') else -2 ** bits)
            import sys as _s
            return Fraction(_s.float_info.max) if name == 'max' else Fraction(_s.float_info.min)
        vals = [I.rv(I.ev(a)) for a in argn]
        if isinstance(vals[0], list):
            vals = [I.rv(v) for v in vals[0]]
        f = mx if name == 'max' else mn
        x = vals[0]
        for v in vals[1:]:
            x = f(x, v)
        return x
    if name in ('fabs', 'abs'):
        return fabs(I.val(argn[0]))
    if name == 'infinity':
        return INF
    if name == 'quiet_NaN':
        return NAN
    if name == 'epsilon':
        return Fraction(1, 2 ** 52) if 'float' not in n.type else Fraction(1, 2 ** 23)
    if name == 'lowest':
        import sys as _s
        return -Fraction(_s.float_info.max)
    if name == 'sqrt':
        x = I.val(argn[0])
        I.oblige('domain', ge(x, 0), n, 'square root')
        return T.sqrt(x)
    if name in ('isnan', 'isfinite', 'isinf'):
        x = I.val(argn[0])
        if isinstance(x, Ext):
            return {'isnan': eq(x.k, 2), 'isfinite': eq(x.k, 0), 'isinf': Or(eq(x.k, 1), eq(x.k, -1))}[name]
        return name == 'isfinite'
    if name == 'clamp':
        x, lo, hi = [I.val(a) for a in argn[:3]]
        return ite(lt(x, lo), lo, ite(lt(hi, x), hi, x))
    if name in ('pow', 'log', 'exp', 'sin', 'cos', 'floor', 'ceil', 'round', 'lrint', 'trunc'):
        xs = [to_real(I.val(a)) for a in argn]
        if name == 'floor':
            return to_real(z3.ToInt(xs[0])) if isz(xs[0]) else Fraction(xs[0].__floor__())
        if name == 'ceil':
            return to_real(-z3.ToInt(-xs[0])) if isz(xs[0]) else Fraction(xs[0].__ceil__())
        if name == 'trunc':
            x = xs[0]
            return to_real(z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))) if isz(x) else Fraction(int(x))
        f = z3.Function('fn_' + name, *([z3.RealSort()] * (len(xs) + 1)))
        return f(*[z(x) for x in xs])
    if name == 'now':
        I.nowcount += 1
        v = I.fresh('real', 'now')
        prev = I.st.vars.get('clock')
        if prev is not None:
            I.fact(ge(v, prev), guarded=False)
        I.st.vars['clock'] = v
        if I.wlog is not None:
            I.wlog.append(('clock', ()))
        return v
    if name in ('duration_cast', 'time_point_cast'):
        return I.val(argn[0])
    if name == 'swap':
        a, b = I.ev(argn[0]), I.ev(argn[1])
        va, vb = I.rv(a), I.rv(b)
        I.write(a, vb)
        I.write(b, va)
        return VOID
    if name in ('setw', 'setprecision', 'setfill', 'to_string', 'endl', 'left', 'right', 'fixed', 'scientific', 'flush'):
        for a in argn:
            I.ev(a)
        return UNK
    if name in ('make_pair', 'make_tuple', 'tuple', 'tie'):
        return tuple(I.rv(I.ev(a)) for a in argn)
    if name == 'exchange':
        r = I.ev(argn[0])
        old = I.rv(r)
        assign(I, r, I.ev(argn[1]), n)
        return old
    if name == 'fill_n':
        p = I.val(argn[0])
        cnt = I.val(argn[1])
        v = to_real(I.val(argn[2]))
        if isinstance(p, Ptr) and p.kind == 'values':
            m = as_mat(I, p.obj)
            I.oblige('fill', And(eq(p.off, outer0(m)), eq(cnt, nnz_term(m)), m.comp), n, 'fill covers exactly the stored coefficients')
            x = m.like(lambda i, j: ite(m.stored(i, j), v, ZERO))
            write_pattern(I, p.obj, x)
            return VOID
        I.unsupported('fill_n', n)
    if name == 'apply' and len(argn) == 2:
        f = I.rv(I.ev(argn[0]))
        t = I.rv(I.ev(argn[1]))
        if isinstance(t, tuple) and isinstance(f, Lam):
            return I.call_lambda(f, list(t), n)
    if name in ('Zero', 'Ones', 'Constant', 'Identity', 'Random', 'LinSpaced', 'UnitX', 'Unit'):
        return static_matrix(I, n, name, [I.val(a) for a in argn])
    if name == '__builtin_expect':
        return I.val(argn[0])
    if name in ('__assert_fail', '__glibcxx_assert_fail'):
        I.oblige('assert', False, n)
        return VOID
    if name == 'invoke':
        f = I.rv(I.ev(argn[0]))
        return call_value(I, f, [I.ev(a) for a in argn[1:]], n)
    # call through a value
    try:
        f = I.rv(I.ev(cal))
    except Unsupported:
        f = None
    if isinstance(f, (Lam,)) or (isinstance(f, PyFun) and f.fn is not None):
        return call_value(I, f, [I.ev(a) for a in argn], n)
    I.unsupported(f'call of {name}', n)


def call_value(I, f, args, n, method=None):
    if isinstance(f, Lam):
        return I.call_lambda(f, args, n, method)
    if isinstance(f, PyFun) and f.fn is not None:
        return f.fn(I, args, n)
    I.unsupported(f'call of a {type(f).__name__}', n)


def static_matrix(I, n, name, vals):
    name_, args, _ = parse_type(n.type)
    # CwiseNullaryOp<..., Matrix<...>>
    mt = None
    m = re.search(r'Matrix<[^<>]*>', n.type)
    if m is None:
        I.unsupported('static matrix', n)
    a = split_args(m.group(0)[7:-1])
    r, c = int(a[1]), int(a[2])
    sort = 'int' if a[0] in INT_TYPES else 'real'
    one, zero = (1, 0) if sort == 'int' else (ONE, ZERO)
    sizes = [v for v in vals]
    fill = {'Zero': zero, 'Ones': one, 'Identity': None}.get(name)
    if name == 'Constant':
        fill = to_real(sizes.pop()) if sort == 'real' else sizes.pop()
    if name in ('Unit', 'UnitX', 'Random', 'LinSpaced'):
        I.unsupported(name, n)
    if len(sizes) == 0:
        rows, cols = r, c
    elif len(sizes) == 1:
        rows, cols = (sizes[0], 1) if c == 1 else (1, sizes[0]) if r == 1 else (sizes[0], sizes[0])
    else:
        rows, cols = sizes
    if is_const(rows) and rows < 0:
        I.unsupported('size of static matrix', n)
    if name == 'Identity':
        return Mat(rows, cols, lambda i, j: ite(eq(i, j), one, zero), vec=True if is_one(cols) else None, sort=sort)
    return const_mat(rows, cols, fill, sort)


def write_pattern(I, ref, m):
    """write values of a sparse expression without changing its pattern"""
    if not isinstance(ref, LRef):
        I.unsupported('write to a sparse temporary')
    I.write(ref, m)


# --- member calls -------------------------------------------------------------------------------------------------

def member_call(I, n):
    me = n.inner[0]
    while me.kind in ('ParenExpr', 'ImplicitCastExpr') and me.kind != 'MemberExpr':
        me = me.inner[0]
    if me.kind != 'MemberExpr':
        I.unsupported(f'member call through {me.kind}', n)
    name = me.name
    argn = n.inner[1:]
    mid = me.j.get('referencedMemberDecl')
    on = me.inner[0] if me.inner else None
    h = I.ext.get('.' + name)
    if h is not None:
        x = h(I, n, on, argn)
        if x is not NotImplemented:
            return x
    d = I.u.byid.get(mid)
    if d is not None and d.kind in ('CXXMethodDecl', 'CXXConversionDecl'):
        if not I.u.has_body(d):
            d2 = find_def(I, d)
            d = d2 if d2 is not None else d
        if I.u.has_body(d):
            o = I.ev(on)
            if isinstance(o, Ptr):
                o = o.obj
            if isinstance(o, RefW):
                o = o.ref
            if isinstance(o, LRef):
                v = I.rv_shallow(o)
                if isinstance(v, Ptr) and v.kind == 'lref':
                    o = v.obj
                elif isinstance(v, RefW):
                    o = v.ref
            v = None
            if isinstance(o, Lam):
                return I.call_lambda(o, [I.ev(a) for a in argn], n, mid)
            if not isinstance(o, LRef):
                vid = R.fresh('tmp')
                I.st.vars[vid] = o
                o = LRef(vid)
            v = I.rv(o)
            if isinstance(v, Lam):
                return I.call_lambda(v, [I.ev(a) for a in argn], n, mid)
            if not isinstance(v, Struct) and name == 'operator()':
                return call_value(I, v, [I.ev(a) for a in argn], n)
            return I.inline(d, o, [I.ev(a) for a in argn], n)
    o = I.ev(on)
    if isinstance(o, Ptr) and o.kind == 'lref':
        o = o.obj
    v = I.rv(o) if not isinstance(o, RefW) else o
    if name == 'get' and isinstance(o, LRef) and isinstance(I.rv_shallow(o), RefW):
        return I.rv_shallow(o).ref
    if name == 'get' and isinstance(o, RefW):
        return o.ref
    if isinstance(v, Ptr) and v.kind == 'lref' and name not in ('get',):
        o = v.obj
        v = I.rv(o)
    if isinstance(v, Unknown):
        for a in argn:
            I.ev(a)
        return UNK
    if isinstance(v, Opt):
        return opt_method(I, o, v, name, argn, n)
    if isinstance(v, (EntryIt, InnerItInit)):
        return it_method(I, o, v, name, argn, n)
    if isinstance(v, Struct) and v.t in ('LDLT', 'LView', 'Perm'):
        return ldlt_method(I, o, v, name, argn, n)
    if isinstance(v, (Mat, Diag, SelfAdj, TriView)):
        return mat_method(I, o, v, name, argn, n, me)
    if isinstance(v, Vec):
        return vec_method(I, o, v, name, argn, n)
    if isinstance(v, Lam) and name.startswith('operator'):
        return I.call_lambda(v, [I.ev(a) for a in argn], n, mid)
    if isinstance(v, PyFun) and name == 'operator()':
        return call_value(I, v, [I.ev(a) for a in argn], n)
    if name == 'count' and not argn:
        return v
    if name in ('time_since_epoch',):
        return v
    if name == 'get' and isinstance(v, Struct):
        return o
    if name.startswith('operator ') and not argn:
        return v
    I.unsupported(f'method {name} of {type(v).__name__}', n)


def opt_method(I, o, v, name, argn, n):
    if name == 'has_value' or name == 'operator bool':
        return v.has
    if name in ('value',):
        I.oblige('opt', v.has, n, 'value of an empty optional')
        if isinstance(v.val, RefW):
            return v.val
        return LRef(o.var, o.path + (('opt',),)) if isinstance(o, LRef) else v.val
    if name == 'value_or':
        d = I.rv(I.ev(argn[0]))
        if v.val is UNK or v.val is None:
            return d
        return merge_values(v.has, v.val, d)
    if name == 'reset':
        I.write(o, Opt(False, UNK))
        return VOID
    if name == 'emplace':
        xs = [I.rv(I.ev(a)) for a in argn]
        I.write(o, Opt(True, xs[0]))
        return LRef(o.var, o.path + (('opt',),))
    if name in ('operator->', 'operator*'):
        I.oblige('opt', v.has, n, 'value of an empty optional')
        return LRef(o.var, o.path + (('opt',),)) if isinstance(o, LRef) else v.val
    I.unsupported(f'optional::{name}', n)


def it_method(I, o, v, name, argn, n):
    if name == 'operator bool':
        return v if isinstance(v, InnerItInit) else I.unsupported('iterator state', n)
    if isinstance(v, InnerItInit):
        I.unsupported('inner iterator used outside of its loop', n)
    if name == 'row':
        return v.row
    if name == 'col':
        return v.col
    if name == 'index':
        return v.row if v.mat.major != 'row' else v.col
    if name == 'outer':
        return v.col if v.mat.major != 'row' else v.row
    if name == 'value':
        e = v.mat.at(v.row, v.col) if v.matref is None else as_mat(I, v.matref).at(v.row, v.col)
        return resolve_deep(e, I.st.lits)
    if name == 'valueRef':
        if v.matref is None:
            I.unsupported('valueRef of a temporary', n)
        return LRef(v.matref.var, v.matref.path + (('v', v.row, v.col),))
    I.unsupported(f'iterator method {name}', n)


def resolve_deep(e, lits):
    return resolve(e, lits)


def ldlt_method(I, o, v, name, argn, n):
    if v.t == 'LView':
        if name == 'solveInPlace':
            r = I.ev(argn[0])
            m = as_mat(I, r)
            K = v.f['K']
            want, new = ('P', 'LP') if v.f['lower'] else ('DLP', 'UDLP')
            I.oblige('shape', eq(m.rows, K.rows), n, 'triangular solve')
            x = Mat(m.rows, m.cols, lambda i, j: opaque('trisolve' + new[0], [('m', K.rows, K.cols, K.at), ('m', m.rows, m.cols, m.at)], i, j), vec=m.vec)
            if m.tag and m.tag[0] == want and m.tag[1] is K:
                x.tag = (new, K, m.tag[2])
            I.write(r, x)
            return VOID
        I.unsupported(f'triangular view {name}', n)
    K = v.f['K']
    if name == 'info':
        return opaque('ldlt_info', [('m', K.rows, K.cols, K.at)], 0, 0, z3.IntSort())
    if name in ('compute', 'factorize', 'analyzePattern'):
        H = as_mat(I, I.ev(argn[0]))
        I.oblige('shape', eq(H.rows, H.cols), n, 'factorization of a square matrix')
        if H.sparse:
            if name == 'factorize':
                i, j = R.idx('fi'), R.idx('fj')
                p = v.f['pat']
                I.oblige('ldlt_pattern', And(eq(p.rows, H.rows), Implies(H.inb(i, j), eq(p.at(i, j), H.stored(i, j)))), n, 'factorize uses the analyzed pattern')
            if H.comp is not None:
                I.oblige('compressed', H.comp, n, 'factorization of a compressed matrix')
        pat = Mat(H.rows, H.cols, H.stored if H.sparse else (lambda i, j: True), sort='bool')
        f = dict(v.f)
        if name in ('compute', 'analyzePattern'):
            f['pat'] = pat
        if name in ('compute', 'factorize'):
            f['K'] = SelfAdj(H, True).mat()
        I.write(o, Struct('LDLT', f))
        return o
    if name == 'solve':
        b = as_mat(I, I.ev(argn[0]))
        I.oblige('shape', eq(b.rows, K.rows), n, 'solve')
        return ldlt_solution(K, b)
    if name == 'solveInPlace':
        r = I.ev(argn[0])
        b = as_mat(I, r)
        I.oblige('shape', eq(b.rows, K.rows), n, 'solve')
        I.write(r, ldlt_solution(K, b))
        return VOID
    if name in ('permutationP', 'permutationPinv'):
        return Struct('Perm', {'K': K, 'inv': name.endswith('inv')})
    if name == 'matrixL':
        return Struct('LView', {'K': K, 'lower': True})
    if name == 'matrixU':
        return Struct('LView', {'K': K, 'lower': False})
    if name == 'vectorD':
        m = Mat(K.rows, 1, lambda i, j: opaque('ldlt_D', [('m', K.rows, K.cols, K.at)], i, 0), vec=True)
        m.tag = ('D', K)
        return m
    I.unsupported(f'factorization method {name}', n)


PASS = {'array', 'matrix', 'derived', 'noalias', 'eval', 'const_cast_derived', 'lazyAssign', 'toDenseMatrix', 'nestedExpression', 'real', 'finalized'}


def mat_method(I, o, v, name, argn, n, me):
    lv = isinstance(o, LRef)
    if name in PASS:
        if name in ('eval', 'toDenseMatrix'):
            return v if not isinstance(v, (Diag, SelfAdj, TriView)) else v.mat()
        return o
    if name in ('asDiagonal',):
        return Diag(as_mat(I, v))
    if name == 'selfadjointView':
        m = as_mat(I, v)
        t = tmpl_int(I, me) or 'Upper'
        ty = parse_type(n.type)[1]
        up = (ty and ty[-1].strip() == '2') or (not ty and 'Upper' in t)
        I.oblige('shape', eq(m.rows, m.cols), n, 'selfadjoint view')
        return SelfAdj(m, up)
    if name == 'triangularView':
        ty = parse_type(n.type)[1]
        if ty and ty[-1].strip() in ('1', '2'):
            return TriView(as_mat(I, v), ty[-1].strip() == '2')
        I.unsupported('triangular view', n)
    if name == 'diagonal':
        if lv:
            return LRef(o.var, o.path + (('diag',),))
        if isinstance(v, Diag):
            return v.m
        m = as_mat(I, v)
        return Mat(mn(m.rows, m.cols), 1, lambda i, j: m.at(i, i), vec=True)
    m = as_mat(I, v)
    if name == 'rows':
        return m.rows
    if name == 'cols':
        return m.cols
    if name == 'size':
        return m.size()
    if name == 'outerSize':
        return outer_size(m)
    if name == 'innerSize':
        return inner_size(m)
    if name == 'nonZeros':
        return nnz_term(m) if m.sparse else m.size()
    if name == 'isCompressed':
        return m.comp
    if name == 'transpose' or name == 'adjoint':
        if lv:
            return LRef(o.var, o.path + (('T',),))
        return transpose(m)
    if name in ('setZero', 'setOnes', 'setConstant', 'fill', 'setIdentity', 'resize', 'conservativeResize'):
        vals = [I.val(a) for a in argn]
        return set_method(I, o, m, name, vals, n)
    if name in ('head', 'tail', 'segment', 'row', 'col', 'block', 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner',
                'middleCols', 'middleRows', 'leftCols', 'rightCols', 'topRows', 'bottomRows', 'innerVector'):
        vals = [I.val(a) for a in argn]
        r0, c0, h, w = block_args(I, m, name, vals, n)
        b = sub_block(I, o, r0, c0, h, w, n, not lv)
        return b
    if name in ('coeff', 'operator()', 'coeffRef', 'insert', 'x', 'y', 'z'):
        if name in ('x', 'y', 'z'):
            i, j = {'x': 0, 'y': 1, 'z': 2}[name], 0
        else:
            vals = [I.val(a) for a in argn]
            i, j = vals if len(vals) == 2 else ((vals[0], 0) if m.vec is True or not is_one(m.rows) else (0, vals[0]))
        I.bounds(m, i, j, n)
        if name in ('coeffRef', 'insert') and m.sparse:
            if name == 'insert':
                s = m.stored(i, j)
                I.oblige('insert', Not(s), n, 'insert of a coefficient that is already stored')
            k = m.stored(i, j)
            k = lit_known(k, I.st.lits) if isz(k) else k
            if k is not True:
                I.write(o, mstore_touch(I, m, i, j))
        if lv:
            return LRef(o.var, o.path + (('e', i, j),))
        return resolve(m.at(i, j), I.st.lits)
    if name == 'value' and is_one(m.rows) and is_one(m.cols):
        return m.at(0, 0)
    if name == 'cwiseProduct':
        return ew2(I, m, I.ev(argn[0]), mul, n)
    if name == 'cwiseQuotient':
        b = as_mat(I, I.ev(argn[0]))
        return ew2(I, m, b, div, n)
    if name in ('cwiseMax', 'cwiseMin'):
        f = mx if name == 'cwiseMax' else mn
        b = I.rv(I.ev(argn[0]))
        if isinstance(b, Mat):
            return ew2(I, m, b, lambda x, y: f(x, y), n)
        return ew1(I, m, lambda x: f(x, b))
    if name in ('max', 'min') and argn:
        f = mx if name == 'max' else mn
        b = I.rv(I.ev(argn[0]))
        return ew2(I, m, b, f, n) if isinstance(b, Mat) else ew1(I, m, lambda x: f(x, b))
    if name in ('cwiseInverse', 'inverse') and (name == 'cwiseInverse' or 'Array' in me.type or 'ArrayWrapper' in (me.inner[0].type if me.inner else '')):
        i = R.idx('d')
        e = m.at(i, 0) if is_one(m.cols) else None
        if e is not None:
            I.oblige('div', Implies(m.inb(i, 0), ne(e, 0)), n, 'inverse of a zero element')
        r = ew1(I, m, lambda x: div(ONE, x))
        if m.tag and m.tag[0] == 'D':
            r.tag = ('Dinv', m.tag[1])
        return r
    if name == 'cwiseSqrt' or name == 'sqrt':
        i, j = R.idx('d'), (0 if is_one(m.cols) else R.idx('d'))
        I.oblige('domain', Implies(m.inb(i, j), ge(m.at(i, j), 0)), n, 'square root')
        return ew1(I, m, T.sqrt)
    if name in ('cwiseAbs', 'abs'):
        return ew1(I, m, fabs)
    if name in ('cwiseAbs2', 'square', 'abs2'):
        return ew1(I, m, lambda x: mul(x, x))
    if name == 'lpNorm':
        t = tmpl_int(I, me) or ''
        if 'Infinity' in t or t == '-1':
            return lpinf(m)
        if t == '1':
            return msum(m, fabs)
        if t == '2':
            return T.sqrt(msum(m, lambda x: mul(x, x)))
        I.unsupported('norm', n)
    if name == 'norm':
        return T.sqrt(msum(m, lambda x: mul(x, x)))
    if name == 'squaredNorm':
        return msum(m, lambda x: mul(x, x))
    if name == 'sum':
        return msum(m)
    if name == 'mean':
        return div(msum(m), to_real(m.size()))
    if name == 'dot':
        b = as_mat(I, I.ev(argn[0]))
        I.oblige('shape', eq(m.size(), b.size()), n, 'dot product')
        f = (lambda x, k: x.at(k, 0) if is_one(x.cols) else x.at(0, k))
        return fold('sum', 0, m.size() if not is_one(m.cols) else m.rows, lambda k: mul(f(m, k), f(b, k)))
    if name == 'allFinite':
        return z3.Not(opaque('allfinite', [('m', m.rows, m.cols, m.at)], 0, 0, z3.IntSort()) == 0)
    if name in ('maxCoeff', 'minCoeff') and not argn:
        return opaque(name, [('m', m.rows, m.cols, m.at)], 0, 0)
    if name in ('all', 'any', 'isZero', 'hasNaN', 'isApprox'):
        if name in ('all', 'any') and not is_one(m.cols):
            I.unsupported(name, n)
        if name == 'all':
            return Not(fold('any', 0, m.rows, lambda k: Not(m.at(k, 0))))
        if name == 'any':
            return fold('any', 0, m.rows, lambda k: m.at(k, 0))
        if name == 'hasNaN':
            return z3.Not(opaque('hasnan', [('m', m.rows, m.cols, m.at)], 0, 0, z3.IntSort()) == 0)
        I.unsupported(name, n)
    if name == 'applyOnTheLeft':
        d = I.rv(I.ev(argn[0]))
        if isinstance(d, Diag):
            x = matmul(I, d, m, n)
            if d.m.tag and d.m.tag[0] == 'Dinv' and m.tag and m.tag[0] == 'LP' and m.tag[1] is d.m.tag[1]:
                x.tag = ('DLP', m.tag[1], m.tag[2])
        else:
            x = matmul(I, d, m, n)
        I.write(o, x)
        return VOID
    if name == 'applyOnTheRight':
        I.write(o, matmul(I, m, I.rv(I.ev(argn[0])), n))
        return VOID
    if name in ('reserve', 'prune', 'data_squeeze', 'shrink_to_fit'):
        for a in argn:
            I.ev(a)
        if name == 'reserve' and m.sparse:
            I.write(o, m.like(m.at, comp=False))
        return VOID
    if name == 'makeCompressed':
        x = m.like(m.at, comp=True)
        x.node = m.node if m.node and m.node[0] != 'ite' else None
        I.write(o, x)
        return VOID
    if name == 'uncompress':
        I.write(o, m.like(m.at, comp=False))
        return VOID
    if name == 'coeffs':
        I.oblige('compressed', m.comp if m.comp is not None else True, n, 'coeffs of a compressed matrix')
        return LRef(o.var, o.path + (('coeffs',),))
    if name == 'outerIndexPtr':
        return Ptr('outer', o)
    if name == 'valuePtr':
        return Ptr('values', o)
    if name in ('data', 'begin'):
        return Ptr('data', o)
    if name in ('push_back', 'emplace_back'):
        x = I.val(argn[0])
        k = m.rows
        I.write(o, Mat(add(k, 1), 1, lambda i, j: ite(eq(i, k), x, m.at(i, j)), vec=True, sort=m.sort))
        return VOID
    if name in ('empty',):
        return eq(m.rows, 0)
    if name in ('back', 'front'):
        k = sub(m.rows, 1) if name == 'back' else 0
        I.bounds(m, k, 0, n)
        return LRef(o.var, o.path + (('e', k, 0),)) if lv else m.at(k, 0)
    if name in ('at',):
        k = I.val(argn[0])
        I.bounds(m, k, 0, n)
        return LRef(o.var, o.path + (('e', k, 0),)) if lv else m.at(k, 0)
    if name == 'cast':
        return ew1(I, m, to_real)
    if name == 'clear':
        I.write(o, Mat(0, 1, lambda i, j: ZERO, vec=True, sort=m.sort))
        return VOID
    if name == 'colwise' or name == 'rowwise':
        I.unsupported(name, n)
    if name == 'select':
        a, b = [I.rv(I.ev(x)) for x in argn]
        g = lambda x, i, j: x.at(i, j) if isinstance(x, Mat) else x
        return Mat(m.rows, m.cols, lambda i, j: ite(m.at(i, j), g(a, i, j), g(b, i, j)), vec=m.vec)
    if name == 'addTo' or name == 'evalTo':
        I.unsupported(name, n)
    if name == 'swap':
        r = I.ev(argn[0])
        b = I.rv(r)
        I.write(o, b)
        I.write(r, m)
        return VOID
    I.unsupported(f'matrix method {name}', n)


def mstore_touch(I, m, i, j):
    b = m

    def st(a, c):
        return Or(And(eq(a, i), eq(c, j)), b.stored(a, c))
    r = m.like(b.at, st=st, comp=I.fresh('bool', 'comp'))
    r.node = ('touch', b, i, j)
    return r


def set_method(I, o, m, name, vals, n):
    if not isinstance(o, LRef):
        I.unsupported('modification of a temporary', n)
    one, zero = (1, 0) if m.sort == 'int' else (ONE, ZERO)
    if o.path and o.path[-1][0] == 'coeffs':
        base = LRef(o.var, o.path[:-1])
        b = as_mat(I, base)
        v = {'setZero': zero, 'setOnes': one}.get(name, to_real(vals[-1]) if vals else None)
        if v is None:
            I.unsupported('coeffs().' + name, n)
        I.write(base, b.like(lambda i, j: ite(b.stored(i, j), v, ZERO)))
        return base
    if m.sparse:
        isblock = any(p[0] == 'b' for p in o.path)
        if name == 'setZero':
            I.write(o, Mat(m.rows, m.cols, lambda i, j: ZERO, st=lambda i, j: False, major=m.major, comp=m.comp))
            return o
        if name == 'resize':
            I.write(o, Mat(vals[0], vals[1], lambda i, j: ZERO, st=lambda i, j: False, major=m.major, comp=True))
            return o
        if name == 'setIdentity':
            I.write(o, Mat(m.rows, m.cols, lambda i, j: ite(eq(i, j), ONE, ZERO), st=lambda i, j: eq(i, j), major=m.major, comp=True))
            return o
        I.unsupported(f'sparse {name}', n)
    isblock = bool(o.path) and o.path[-1][0] in ('b', 'T', 'diag')
    rows, cols = m.rows, m.cols
    fill = None
    if name in ('setConstant', 'fill'):
        fill = vals[-1]
        vals = vals[:-1]
        fill = to_real(fill) if m.sort == 'real' else fill
    elif name == 'setZero':
        fill = zero
    elif name == 'setOnes':
        fill = one
    if vals:
        if isblock:
            I.unsupported('resizing a block', n)
        if len(vals) == 1:
            rows, cols = (vals[0], 1) if m.vec is True or is_one(m.cols) else (1, vals[0])
        else:
            rows, cols = vals
        I.oblige('bounds', And(le(0, rows), le(0, cols)), n, 'size')
    if name == 'setIdentity':
        I.write(o, Mat(rows, cols, lambda i, j: ite(eq(i, j), one, zero), vec=m.vec, sort=m.sort))
        return o
    if name == 'resize':
        if same_t(rows, m.rows) and same_t(cols, m.cols):
            return VOID
        u = I.uninit_mat(rows, cols, m.sort == 'int')
        same = And(eq(rows, m.rows), eq(cols, m.cols))
        # a resize to the same size keeps the coefficients
        x = Mat(rows, cols, lambda i, j: ite(same, m.at(i, j), u.at(i, j)), vec=m.vec, sort=m.sort) if not isinstance(same, bool) else u
        I.write(o, x)
        return VOID
    if name == 'conservativeResize':
        u = I.uninit_mat(rows, cols, m.sort == 'int')
        I.write(o, Mat(rows, cols, lambda i, j: ite(m.inb(i, j), m.at(i, j), u.at(i, j)), vec=m.vec, sort=m.sort))
        return VOID
    I.write(o, Mat(rows, cols, lambda i, j: fill, vec=True if m.vec is True else None, sort=m.sort))
    return o


def block_args(I, m, name, vals, n):
    fr, fc = result_dims(n)
    R_, C_ = m.rows, m.cols
    isrowvec = is_one(R_) and m.vec is not True
    def one(k):
        return vals[k] if len(vals) > k else None
    if name in ('head', 'tail', 'segment'):
        if name == 'segment':
            s = vals[0]
            k = one(1)
        else:
            s = None
            k = one(0)
        if k is None:
            k = fr if not isrowvec else (fc if fc > 1 else fr)
            if k < 0:
                I.unsupported('block size', n)
        N = C_ if isrowvec else R_
        if name == 'head':
            s = 0
        elif name == 'tail':
            s = sub(N, k)
        return (0, s, 1, k) if isrowvec else (s, 0, k, 1)
    if name == 'row':
        return vals[0], 0, 1, C_
    if name in ('col', 'innerVector'):
        if name == 'innerVector' and m.major == 'row':
            return vals[0], 0, 1, C_
        return 0, vals[0], R_, 1
    if name == 'block':
        if len(vals) == 4:
            return tuple(vals)
        return vals[0], vals[1], fr, fc
    if name.endswith('Corner'):
        h, w = (vals if len(vals) == 2 else (fr, fc))
        r0 = 0 if name.startswith('top') else sub(R_, h)
        c0 = 0 if 'Left' in name else sub(C_, w)
        return r0, c0, h, w
    if name == 'middleCols':
        return 0, vals[0], R_, one(1) if one(1) is not None else fc
    if name == 'middleRows':
        return vals[0], 0, one(1) if one(1) is not None else fr, C_
    if name == 'leftCols':
        return 0, 0, R_, one(0) if vals else fc
    if name == 'rightCols':
        k = one(0) if vals else fc
        return 0, sub(C_, k), R_, k
    if name == 'topRows':
        return 0, 0, one(0) if vals else fr, C_
    if name == 'bottomRows':
        k = one(0) if vals else fr
        return sub(R_, k), 0, k, C_
    I.unsupported(name, n)


def vec_method(I, o, v, name, argn, n):
    lv = isinstance(o, LRef)
    if name == 'size':
        return v.n
    if name == 'empty':
        return eq(v.n, 0)
    if name in ('operator[]', 'at'):
        i = I.val(argn[0])
        I.oblige('bounds', And(le(0, i), lt(i, v.n)), n, 'vector')
        return LRef(o.var, o.path + (('x', i),)) if lv else v.fn(i)
    if name in ('back', 'front'):
        i = sub(v.n, 1) if name == 'back' else 0
        I.oblige('bounds', gt(v.n, 0), n, 'vector')
        return LRef(o.var, o.path + (('x', i),)) if lv else v.fn(i)
    if name in ('push_back', 'emplace_back'):
        x = I.val(argn[0])
        k = v.n
        I.write(o, Vec(add(k, 1), lambda i: x if (not isz(i) and not isz(k) and i == k) else merge_values(eq(i, k), x, v.fn(i)) if not is_const(k) or k > 0 else x))
        return VOID
    if name == 'reserve':
        for a in argn:
            I.ev(a)
        return VOID
    if name == 'clear':
        I.write(o, Vec(0, lambda i: I.unsupported('element of empty vector')))
        return VOID
    I.unsupported(f'vector::{name}', n)


# --- operators ----------------------------------------------------------------------------------------------------

def operator_call(I, n):
    cal = callee(n)
    r = cal.ref()
    op = (r.get('name') or '').replace('operator', '', 1)
    rid = r.get('id')
    argn = n.inner[1:]
    h = I.ext.get('op' + op)
    if h is not None:
        x = h(I, n, argn)
        if x is not NotImplemented:
            return x
    d = I.u.byid.get(rid)
    if op == '()':
        f = I.ev(argn[0])
        fv = I.rv(f) if not isinstance(f, RefW) else I.rv(f)
        if isinstance(fv, Lam):
            return I.call_lambda(fv, [I.ev(a) for a in argn[1:]], n, rid)
        if isinstance(fv, PyFun):
            return call_value(I, fv, [I.ev(a) for a in argn[1:]], n)
        if isinstance(fv, (Mat, Diag, SelfAdj)):
            return mat_method(I, f, fv, 'operator()', argn[1:], n, cal)
    if d is not None and d.kind in ('CXXMethodDecl', 'FunctionDecl'):
        if not I.u.has_body(d):
            d = find_def(I, d) or d
        if I.u.has_body(d) and not d.j.get('explicitlyDefaulted'):
            args = [I.ev(a) for a in argn]
            if d.kind == 'CXXMethodDecl':
                o = args[0]
                if isinstance(o, RefW):
                    o = o.ref
                if isinstance(o, LRef) and isinstance(I.rv_shallow(o), RefW):
                    o = I.rv_shallow(o).ref
                if not isinstance(o, LRef):
                    vid = R.fresh('tmp')
                    I.st.vars[vid] = I.rv(o)
                    o = LRef(vid)
                return I.inline(d, o, args[1:], n)
            return I.inline(d, None, args, n)
    if op == '=':
        l = I.ev(argn[0])
        v = I.ev(argn[1])
        lv = I.rv_shallow(l) if isinstance(l, LRef) else None
        if isinstance(v, RefW) and isinstance(lv, Opt):
            I.write(l, Opt(True, v))
            return l
        if d is not None and d.j.get('explicitlyDefaulted') or (isinstance(lv, Struct) and lv.t not in ('LDLT',)):
            # memberwise assignment, running assignment operators the repository defines
            src = I.rv(v)
            if isinstance(src, Struct) and isinstance(lv, Struct):
                return assign_struct(I, l, lv, src, n)
        return assign(I, l, v, n)
    if op in ('+=', '-=', '*=', '/='):
        l = I.ev(argn[0])
        b = I.rv(I.ev(argn[1]))
        a = I.rv(l)
        x = arith(I, op[0], a, b, n)
        if isinstance(a, Mat):
            x = as_mat(I, x)
            if a.sparse and not x.sparse:
                x0 = x
                x = Mat(x.rows, x.cols, x.at, st=lambda i, j: ne(x0.at(i, j), ZERO), major=a.major, comp=True)
            elif not a.sparse and not (l.path and l.path[-1][0] in ('b', 'T', 'diag')):
                x = Mat(x.rows, x.cols, x.at, vec=a.vec, sort=a.sort)
            x = collapse_mat(I, x)
        I.write(l, x)
        return l
    if op in ('<<',):
        l = I.ev(argn[0])
        for a in argn[1:]:
            I.ev(a)
        return l if isinstance(l, Unknown) else I.unsupported('stream insertion', n)
    if op in ('++', '--'):
        l = I.ev(argn[0])
        v = I.rv(l)
        if isinstance(v, EntryIt):
            if v.row is None:
                I.unsupported('iterator advanced twice', n)
            I.write(l, EntryIt(v.mat, v.matref, None, None))
            return l
        if is_int(v) or isinstance(v, Ptr):
            new = add(v, 1 if op == '++' else -1) if not isinstance(v, Ptr) else Ptr(v.kind, v.obj, add(v.off, 1))
            I.write(l, new)
            return l
        I.unsupported('increment', n)
    if op == '*' and len(argn) == 1:
        o = I.ev(argn[0])
        v = I.rv(o)
        if isinstance(v, Opt):
            I.oblige('opt', v.has, n, 'value of an empty optional')
            return LRef(o.var, o.path + (('opt',),)) if isinstance(o, LRef) else v.val
        if isinstance(v, Ptr) and v.kind == 'lref':
            return v.obj
        I.unsupported('dereference', n)
    if op == '->':
        o = I.ev(argn[0])
        v = I.rv(o)
        if isinstance(v, Opt):
            I.oblige('opt', v.has, n, 'value of an empty optional')
            return Ptr('lref', LRef(o.var, o.path + (('opt',),)))
        if isinstance(v, Ptr):
            return v
        return Ptr('lref', o) if isinstance(o, LRef) else I.unsupported('arrow', n)
    if op == '[]':
        o = I.ev(argn[0])
        v = I.rv(o)
        i = I.val(argn[1])
        if isinstance(v, (Mat,)):
            a, b = (i, 0) if (v.vec is True or not is_one(v.rows)) else (0, i)
            I.bounds(v, a, b, n)
            return LRef(o.var, o.path + (('e', a, b),)) if isinstance(o, LRef) else v.at(a, b)
        if isinstance(v, Vec):
            I.oblige('bounds', And(le(0, i), lt(i, v.n)), n, 'vector')
            return LRef(o.var, o.path + (('x', i),)) if isinstance(o, LRef) else v.fn(i)
        if isinstance(v, Ptr):
            return ptr_index(I, v, i, n)
        if isinstance(v, (list, tuple)) and is_const(i):
            return v[i]
        I.unsupported('subscript', n)
    vals = [I.rv(I.ev(a)) for a in argn]
    if any(isinstance(v, Unknown) for v in vals):
        return UNK
    if op in ('==', '!=', '<', '>', '<=', '>=', '<=>'):
        return compare(I, op, vals[0], vals[1], n)
    if len(vals) == 1:
        a = vals[0]
        if op == '-':
            if isinstance(a, Diag):
                return Diag(ew1(I, a.m, neg))
            return ew1(I, a, neg) if isinstance(a, (Mat, SelfAdj, TriView)) else neg(a)
        if op == '+':
            return a
        if op == '!':
            return Not(I.boolean(a))
        I.unsupported(f'unary operator {op}', n)
    if op in ('+', '-', '*', '/', '%', '&&', '||'):
        return arith(I, op, vals[0], vals[1], n)
    I.unsupported(f'operator {op}', n)


def assign_struct(I, l, lv, src, n):
    cls = I.find_class(*parse_type(lv.t)[:2])
    new = dict(lv.f)
    if cls is None:
        I.write(l, src)
        return l
    for b in cls.inner:
        if b.kind != 'FieldDecl':
            continue
        x = src.f.get(b.name)
        if isinstance(x, Struct) and x.t != 'LDLT':
            c2 = I.find_class(*parse_type(b.type)[:2])
            ops = [c for c in (c2.inner if c2 is not None else []) if c.kind == 'CXXMethodDecl' and c.name == 'operator=' and I.u.has_body(c) and not c.j.get('explicitlyDefaulted')]
            ops = [c for c in ops if '&&' not in c.qtype.split('(')[1].split(')')[0]]
            if ops:
                s = R.fresh('obj')
                I.st.vars[s] = x
                I.inline(ops[0], LRef(l.var, l.path + (('f', b.name),)), [LRef(s)], n)
                continue
        I.write(LRef(l.var, l.path + (('f', b.name),)), x)
    return l


def compare(I, op, a, b, n):
    if isinstance(a, Struct) and a.t == 'ord':
        return compare(I, op, a.f['a'], a.f['b'], n)
    if isinstance(b, Struct) and b.t == 'ord':
        return compare(I, op, b.f['b'], b.f['a'], n)
    if op == '<=>':
        return Struct('ord', {'a': a, 'b': b})
    if isinstance(a, Opt) or isinstance(b, Opt):
        if isinstance(a, Opt) and isinstance(b, Opt):
            e = And(eq(a.has, b.has), Or(Not(a.has), eq(a.val, b.val)))
        else:
            o, x = (a, b) if isinstance(a, Opt) else (b, a)
            if x is NULLOPT:
                e = Not(o.has)
            elif o.val is UNK or o.val is None:
                e = False
            else:
                e = And(o.has, eq(o.val, x))
        if op == '==':
            return e
        if op == '!=':
            return Not(e)
        I.unsupported('optional comparison', n)
    if isinstance(a, Mat) or isinstance(b, Mat):
        f = {'<': lt, '<=': le, '>': gt, '>=': ge, '==': eq, '!=': ne}[op]
        ma = a if isinstance(a, Mat) else b
        g = lambda x, i, j: x.at(i, j) if isinstance(x, Mat) else x
        return Mat(ma.rows, ma.cols, lambda i, j: f(g(a, i, j), g(b, i, j)), vec=ma.vec, sort='bool')
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return I.binop(op, a, b, n)
    f = {'<': lt, '<=': le, '>': gt, '>=': ge, '==': eq, '!=': ne}[op]
    return f(a, b)


MATT = (Mat, Diag, SelfAdj, TriView, Struct)


def isarray(n, k):
    return False


def arith(I, op, a, b, n):
    am, bm = isinstance(a, MATT), isinstance(b, MATT)
    if op in ('&&', '||'):
        return And(I.boolean(a), I.boolean(b)) if op == '&&' else Or(I.boolean(a), I.boolean(b))
    if not am and not bm:
        return I.binop(op, a, b, n)
    if op in ('+', '-'):
        f = add if op == '+' else sub
        if am and bm:
            if isinstance(a, Diag) and isinstance(b, Diag):
                return Diag(ew2(I, a.m, b.m, f, n))
            return ew2(I, a, b, f, n)
        # array with scalar
        m = a if am else b
        if am:
            return ew1(I, m, lambda x: f(x, b))
        return ew1(I, m, lambda x: f(a, x))
    if op == '*':
        if am and bm:
            if 'Array' in n.type.split('<')[0] or 'scalar_product_op' in n.type and 'Array' in n.type:
                return ew2(I, a, b, mul, n)
            return matmul(I, a, b, n)
        m, s = (a, b) if am else (b, a)
        if isinstance(m, Diag):
            return Diag(ew1(I, m.m, lambda x: mul(s, x)))
        if isinstance(m, SelfAdj):
            return SelfAdj(ew1(I, m.m, lambda x: mul(s, x)), m.upper)
        return ew1(I, m, lambda x: mul(s, x))
    if op == '/':
        if am and not bm:
            I.oblige('div', ne(b, 0), n, 'division by zero')
            return ew1(I, a, lambda x: div(x, b))
        if am and bm:
            return ew2(I, a, b, div, n)
    I.unsupported(f'matrix operator {op}', n)
