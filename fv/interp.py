"""Symbolic execution of the real code: generates the obligations of a function under contract.

Every statement of the function (as clang instantiated it from /repo) is executed once on symbolic values of unbounded
size; functions of the repository that it calls are entered, functions of the dependencies (Eigen, the standard
library) are replaced by the contracts in eig.py; loops are handled by loops.py."""
import re
from fractions import Fraction
from .terms import *
from . import terms as T
from .values import *
from . import cast as C


def split_args(s):
    """'A<b, c>, d' -> ['A<b, c>', 'd']"""
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([{':
            d += 1
        elif ch in '>)]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def parse_type(t):
    """-> (name without cv/ref, template args, is_ref)"""
    t = t.strip()
    ref = t.endswith('&')
    t = t.rstrip('&* ').strip()
    while True:
        o = t
        for p in ('const ', 'volatile ', 'struct ', 'class ', 'typename ', 'enum '):
            if t.startswith(p):
                t = t[len(p):]
        if t.endswith(' const'):
            t = t[:-6]
        if t == o:
            break
    i = t.find('<')
    if i < 0 or t.startswith('('):
        return t, [], ref
    # last top-level template group
    d = 0
    depth_start = None
    last = None
    for k, ch in enumerate(t):
        if ch == '<':
            if d == 0:
                depth_start = k
            d += 1
        elif ch == '>':
            d -= 1
            if d == 0:
                last = (depth_start, k)
    if last is None or last[1] != len(t) - 1:
        return t, [], ref
    return t[:last[0]], split_args(t[last[0] + 1:last[1]]), ref


INT_TYPES = {'int', 'long', 'unsigned int', 'unsigned long', 'short', 'unsigned short', 'char', 'signed char', 'unsigned char',
             'long long', 'unsigned long long', 'Eigen::Index', 'std::size_t', 'size_t', 'uint32_t', 'uint64_t', 'std::ptrdiff_t',
             'int32_t', 'int64_t', 'std::uint32_t', 'Ipopt::Index', 'uint8_t', 'ptrdiff_t', 'std::uint64_t', 'std::int64_t'}
UNSIGNED = {'unsigned int', 'unsigned long', 'unsigned short', 'unsigned char', 'unsigned long long', 'std::size_t', 'size_t', 'uint32_t', 'uint64_t', 'uint8_t', 'std::uint32_t', 'std::uint64_t'}
FLOAT_TYPES = {'double', 'float', 'long double', 'Scalar', 'Ipopt::Number'}
MATS = ('Eigen::Matrix', 'Matrix', 'Eigen::Array', 'Array', 'Eigen::Vector')


class RefW:
    """std::reference_wrapper or a stored reference"""
    __slots__ = ('ref',)

    def __init__(self, ref):
        self.ref = ref


class Obl:
    __slots__ = ('name', 'kind', 'where', 'path', 'goal', 'fn')

    def __init__(self, name, kind, where, path, goal, fn):
        self.name, self.kind, self.where, self.path, self.goal, self.fn = name, kind, where, path, goal, fn


class FnScope:
    def __init__(self, node, this):
        self.node = node
        self.this = this
        self.rets = []


class LoopScope:
    def __init__(self):
        self.brk = []
        self.cont = []


class Dead(Exception):
    pass


class Interp:
    def __init__(self, unit):
        self.u = unit
        self.st = State()
        self.facts = []          # (guards, formula | Forall)
        self.obls = []
        self.quiet = 0
        self.fn = []             # FnScope stack
        self.loops = []          # LoopScope stack (per function boundary: None)
        self.wlog = None
        self.ext = {}            # contracts of named functions: name -> fn(self, node, args)
        self.assumptions = set()
        self.functions = set()   # functions entered
        self.nloops = 0
        self.qstack = []         # loop index variables
        self.static_vars = {}
        self.names = {}          # decl id -> source name (for specs)
        self.checks = {'bounds', 'shape', 'init', 'div', 'opt'}
        self.nowcount = 0
        self.on_loop = None
        self.loop_log = []
        self.alias_guard = None

    # -- fresh symbols (functions of the enclosing loop indices)
    def fresh(self, sort, base):
        q = self.qstack
        s = {'int': z3.IntSort(), 'real': z3.RealSort(), 'bool': z3.BoolSort()}[sort]
        if q:
            f = R.func(base, *([z3.IntSort()] * len(q) + [s]))
            return f(*q)
        return z3.Const(R.fresh(base), s)

    def fresh_fn(self, sort, base, n=2):
        q = list(self.qstack)
        s = {'int': z3.IntSort(), 'real': z3.RealSort(), 'bool': z3.BoolSort()}[sort]
        f = R.func(base, *([z3.IntSort()] * (len(q) + n) + [s]))
        return lambda *a: f(*q, *[z(x) for x in a])

    # -- facts and obligations
    def guards(self):
        return self.st.path

    def fact(self, f, guarded=True):
        if isinstance(f, bool):
            if f:
                return
        self.facts.append((self.st.path if guarded else (), f))

    def oblige(self, kind, goal, node, what=''):
        if self.quiet:
            return
        if isinstance(goal, bool) and goal:
            goal = True
        fn = self.fn[-1].node.name if self.fn else ''
        w = self.u.where(node) if node is not None else ''
        self.obls.append(Obl(f'{fn}.{kind}.{len(self.obls)}', kind, w + (' ' + what if what else ''), self.st.path, goal, fn))

    def unsupported(self, msg, node=None):
        raise Unsupported(msg + (f' at {self.u.where(node)}' if node is not None else ''))

    # -- store
    def deref_once(self, r):
        return r

    def read(self, r):
        v = self.st.vars.get(r.var)
        if v is None:
            raise Unsupported(f'read of unmodelled variable {self.names.get(r.var, r.var)}')
        for p in r.path:
            v = self.step(v, p)
        return resolve(v, self.st.lits) if not isinstance(v, (Struct,)) else v

    def step(self, v, p):
        from . import eig
        k = p[0]
        if isinstance(v, RefW):
            v = self.read(v.ref)
        if isinstance(v, LRef):
            v = self.read(v)
        if isinstance(v, Unknown):
            return UNK
        if k == 'f':
            if not isinstance(v, Struct):
                raise Unsupported(f'field {p[1]} of {type(v).__name__}')
            if p[1] not in v.f:
                raise Unsupported(f'no field {p[1]} in {v.t}')
            return v.f[p[1]]
        if k == 'opt':
            return v.val
        v = resolve(v, self.st.lits)
        if k in ('e', 'v'):
            r = eig.as_mat(self, v).at(p[1], p[2])
            return r
        if k == 'b':
            return eig.block(self, v, *p[1:5])
        if k == 'T':
            return eig.transpose(eig.as_mat(self, v))
        if k == 'x':
            return v.fn(p[1])
        if k == 'coeffs':
            return v
        if k == 'diag':
            m = eig.as_mat(self, v)
            return Mat(mn(m.rows, m.cols), 1, lambda i, j: m.at(i, i), vec=True)
        raise Unsupported(f'access path {k}')

    def write(self, r, val):
        base = self.st.vars.get(r.var)
        if isinstance(base, RefW):
            return self.write(LRef(base.ref.var, base.ref.path + tuple(r.path)), val)
        if isinstance(base, LRef):
            return self.write(LRef(base.var, base.path + tuple(r.path)), val)
        # references stored in fields
        v = base
        for n, p in enumerate(r.path):
            if p[0] not in ('f', 'opt'):
                break
            if isinstance(v, Struct):
                v = v.f.get(p[1])
            elif isinstance(v, Opt):
                v = v.val
            if isinstance(v, RefW):
                return self.write(LRef(v.ref.var, v.ref.path + tuple(r.path[n + 1:])), val)
        if self.wlog is not None:
            fp = []
            for p in r.path:
                if p[0] == 'f':
                    fp.append(p)
                else:
                    break
            self.wlog.append((r.var, tuple(fp)))
        if r.path:
            self.st.vars[r.var] = self.upd(base, r.path, val)
        else:
            self.st.vars[r.var] = val

    def upd(self, v, path, val):
        from . import eig
        if not path:
            return val
        p, rest = path[0], path[1:]
        k = p[0]
        if v is None:
            raise Unsupported('write to unmodelled object')
        if isinstance(v, Unknown):
            return UNK
        if k == 'f':
            return v.with_(p[1], self.upd(v.f.get(p[1]), rest, val))
        if k == 'opt':
            return Opt(v.has, self.upd(v.val, rest, val))
        if k == 'e':
            return eig.mstore(self, v, p[1], p[2], self.upd(None, rest, val) if not rest else self.unsupported('nested element write'))
        if k == 'v':
            # through a reference to a stored coefficient: the pattern is unaffected
            b = v
            x = to_real(self.upd(None, rest, val))
            m = b.like(lambda i, j: ite(And(eq(i, p[1]), eq(j, p[2])), x, b.at(i, j)))
            m.node = ('store', b, p[1], p[2], x)
            return m
        if k == 'b' and len(rest) == 1 and rest[0][0] in ('e', 'v') and isinstance(v, Mat) and not (is_const(p[3]) and p[3] == 1 and not (is_const(p[4]) and p[4] == 1)):
            return self.upd(v, ((rest[0][0], add(p[1], rest[0][1]), add(p[2], rest[0][2])),), val)
        if k == 'b':
            sub = eig.block(self, v, *p[1:5])
            return eig.bstore(self, v, p[1], p[2], p[3], p[4], self.upd(sub, rest, val) if rest else val)
        if k == 'T':
            sub = eig.transpose(v)
            return eig.transpose(self.upd(sub, rest, val))
        if k == 'diag':
            if rest:
                self.unsupported('nested diagonal write')
            m = val
            b = v
            return Mat(b.rows, b.cols, lambda i, j: ite(eq(i, j), m.at(i, 0), b.at(i, j)), st=b.st, major=b.major, comp=b.comp, vec=b.vec, sort=b.sort)
        if k == 'x':
            i = p[1]
            new = self.upd(v.fn(i), rest, val)
            old = v
            return Vec(v.n, lambda t: merge_values(eq(t, i), new, old.fn(t)) if not (is_const(t) and is_const(i)) else (new if t == i else old.fn(t)),
                       ('xstore', old, i, new))
        raise Unsupported(f'write path {k}')

    # -- values
    def rv(self, x):
        n = 0
        while isinstance(x, (LRef, RefW)):
            x = self.read(x) if isinstance(x, LRef) else self.read(x.ref)
            n += 1
            if n > 20:
                raise Unsupported('reference cycle')
        return x

    def val(self, n):
        return self.rv(self.ev(n))

    def boolean(self, x):
        x = self.rv(x)
        if isinstance(x, Opt):
            return x.has
        if isinstance(x, Unknown):
            return self.fresh('bool', 'nondet')
        if is_bool(x):
            return resolve(x, self.st.lits) if isz(x) else x
        if is_const(x):
            return x != 0
        if isz(x) or isinstance(x, Ext):
            return ne(x, 0)
        if isinstance(x, Ptr):
            return x.kind != 'null'
        raise Unsupported(f'condition of type {type(x).__name__}')

    # -- symbolic inputs
    def sym(self, t, base, ext=False):
        name, args, ref = parse_type(t)
        if name in FLOAT_TYPES:
            v = z3.Real(base)
            if ext:
                k = z3.Int(base + '.k')
                self.facts.append(((), And(ge(k, -1), le(k, 1))))
                return Ext(k, v)
            return v
        if name == 'bool':
            return z3.Bool(base)
        if name in INT_TYPES:
            v = z3.Int(base)
            if name in UNSIGNED:
                self.facts.append(((), ge(v, 0)))
            return v
        if name in MATS or name.endswith('::Matrix'):
            r, c = self.mat_dims(name, args)
            rows = r if r >= 0 else z3.Int(base + '.rows')
            cols = c if c >= 0 else z3.Int(base + '.cols')
            for d in (rows, cols):
                if isz(d):
                    self.facts.append(((), ge(d, 0)))
            return self.symmat(base, rows, cols, ext=ext, sort='int' if args[0] in INT_TYPES else 'real')
        if name.endswith('SparseMatrix'):
            rows, cols = z3.Int(base + '.rows'), z3.Int(base + '.cols')
            for d in (rows, cols):
                self.facts.append(((), ge(d, 0)))
            return self.symsparse(base, rows, cols, 'row' if len(args) > 1 and args[1] == '1' else 'col')
        if name == 'std::optional':
            return Opt(z3.Bool(base + '.has'), self.sym(args[0], base + '.val', ext))
        if name == 'std::reference_wrapper':
            vid = R.fresh('ref')
            self.st.vars[vid] = self.sym(args[0], base, ext)
            return RefW(LRef(vid))
        if name == 'std::vector':
            if parse_type(args[0])[0] in FLOAT_TYPES | INT_TYPES:
                n = z3.Int(base + '.n')
                self.facts.append(((), ge(n, 0)))
                return self.symmat(base, n, 1, sort='int' if parse_type(args[0])[0] in INT_TYPES else 'real')
        if name.startswith('std::chrono::duration') or name in ('std::chrono::nanoseconds',) or name.startswith('std::chrono::time_point'):
            return z3.Real(base)
        if 'LDLT' in name:
            return self.sym_ldlt(base)
        if self.is_enum(name):
            return z3.Int(base)
        cls = self.find_class(name, args)
        if cls is not None:
            f = {}
            for b in cls.inner:
                if b.kind == 'FieldDecl':
                    f[b.name] = self.sym(b.type, base + '.' + b.name, ext)
            for bs in cls.j.get('bases', ()):
                pass
            return Struct(name, f)
        raise Unsupported(f'symbolic value of type {t}')

    def sym_ldlt(self, base):
        k = z3.Int(base + '.k')
        self.facts.append(((), ge(k, 0)))
        return Struct('LDLT', {'K': self.symmat(base + '.K', k, k), 'pat': self.symmat(base + '.pat', k, k, sort='bool'), 'sp': z3.Bool(base + '.sp')})

    def symmat(self, base, rows, cols, ext=False, sort='real'):
        s = {'real': z3.RealSort(), 'int': z3.IntSort(), 'bool': z3.BoolSort()}[sort]
        vec = is_const(cols) and cols == 1
        if vec:
            f = z3.Function(base, z3.IntSort(), s)
            g = lambda i, j: f(z(i))
        elif is_const(rows) and rows == 1:
            f = z3.Function(base, z3.IntSort(), s)
            g = lambda i, j: f(z(j))
        else:
            f = z3.Function(base, z3.IntSort(), z3.IntSort(), s)
            g = lambda i, j: f(z(i), z(j))
        if ext:
            kf = z3.Function(base + '.k', z3.IntSort(), z3.IntSort())
            from .prove import Forall
            self.facts.append(((), Forall([I_], And(ge(kf(I_), -1), le(kf(I_), 1)))))
            return Mat(rows, cols, lambda i, j: Ext(kf(z(i)), f(z(i))), vec=vec or None, sort=sort)
        return Mat(rows, cols, g, vec=vec or None, sort=sort)

    def symsparse(self, base, rows, cols, major, comp=None):
        f = z3.Function(base, z3.IntSort(), z3.IntSort(), z3.RealSort())
        s = z3.Function(base + '.st', z3.IntSort(), z3.IntSort(), z3.BoolSort())
        m = Mat(rows, cols, lambda i, j: ite(s(z(i), z(j)), f(z(i), z(j)), Fraction(0)), st=lambda i, j: s(z(i), z(j)), major=major,
                comp=z3.Bool(base + '.comp') if comp is None else comp)
        m.node = ('sym', base)
        return m

    def mat_dims(self, name, args):
        if name.endswith('Vector'):
            return int(args[1]), 1
        return int(args[1]), int(args[2])

    def is_enum(self, name):
        short = name.split('::')[-1]
        for n in self.u.byid.values():
            if n.kind == 'EnumDecl' and n.name == short:
                return True
        return False

    def find_class(self, name, args):
        short = name.split('::')[-1]
        cs = self.u.classes(short)
        if not cs:
            return None
        if len(cs) == 1:
            return cs[0]
        for c in cs:
            ta = []
            for x in c.inner:
                if x.kind == 'TemplateArgument':
                    if x.j.get('value') is not None:
                        ta.append(str(x.j['value']))
                    else:
                        ta.append(x.type)
            norm = lambda s: s.replace('smooth::feedback::', '').replace('Eigen::', '').replace(' ', '')
            if len(args) <= len(ta) and all(norm(a) == norm(b) for a, b in zip(args, ta)):
                return c
        return cs[0]

    # -- default values
    def default(self, t, node=None, uninit=True):
        name, args, ref = parse_type(t)
        if t.strip().endswith('*'):
            return Ptr('null', None)
        if name in FLOAT_TYPES:
            return self.fresh('real', 'uninit') if uninit else Fraction(0)
        if name == 'bool':
            return self.fresh('bool', 'uninit') if uninit else False
        if name in INT_TYPES:
            return self.fresh('int', 'uninit') if uninit else 0
        if name in MATS or name.endswith('::Matrix'):
            r, c = self.mat_dims(name, args)
            rows, cols = max(r, 0), max(c, 0)
            if c == -1 and r == 1:
                rows = 1
            if rows == 0 or cols == 0:
                return Mat(rows, cols, lambda i, j: Fraction(0), vec=True if c == 1 else None, sort='int' if args[0] in INT_TYPES else 'real')
            return self.uninit_mat(rows, cols, args[0] in INT_TYPES)
        if name.endswith('SparseMatrix'):
            return Mat(0, 0, lambda i, j: Fraction(0), st=lambda i, j: False, major='row' if len(args) > 1 and args[1] == '1' else 'col', comp=True)
        if name == 'std::optional':
            return Opt(False, UNK)
        if 'LDLT' in name:
            z0 = Mat(0, 0, lambda i, j: Fraction(0))
            return Struct('LDLT', {'K': z0, 'pat': Mat(0, 0, lambda i, j: False, sort='bool'), 'sp': 'Simplicial' in name})
        if name.startswith('std::chrono::duration') or name.startswith('std::chrono::time_point'):
            return Fraction(0)
        if name == 'std::vector':
            a = parse_type(args[0])[0]
            if a in FLOAT_TYPES | INT_TYPES:
                return Mat(0, 1, lambda i, j: Fraction(0), vec=True, sort='int' if a in INT_TYPES else 'real')
            return Vec(0, lambda i: self.unsupported('element of an empty vector'))
        if name.startswith('std::basic_string') or name == 'std::string':
            return UNK
        if self.is_enum(name):
            return self.fresh('int', 'uninit') if uninit else 0
        cls = self.find_class(name, args)
        if cls is not None:
            return self.struct_default(cls, name)
        self.unsupported(f'default value of {t}', node)

    def uninit_mat(self, rows, cols, isint=False):
        f = self.fresh_fn('int' if isint else 'real', 'uninit')
        return Mat(rows, cols, lambda i, j: f(i, j), vec=True if is_const(cols) and cols == 1 else None, sort='int' if isint else 'real')

    def struct_default(self, cls, name):
        f = {}
        for b in cls.inner:
            if b.kind == 'FieldDecl':
                init = [x for x in b.inner if x.kind not in ('FullComment',) and not x.kind.endswith('Attr') and not x.kind.endswith('Comment')]
                if init:
                    f[b.name] = self.conv(self.val(init[0]), b.type)
                else:
                    f[b.name] = self.default(b.type)
        return Struct(name, f)

    def conv(self, v, t):
        """value conversion on initialization / assignment to type t"""
        from . import eig
        name, args, ref = parse_type(t)
        v = self.rv(v)
        if isinstance(v, list) and len(v) == 0:
            return self.default(t, uninit=False)
        if name == 'std::optional':
            if isinstance(v, Opt):
                return v
            if v is NULLOPT:
                return Opt(False, UNK)
            return Opt(True, self.conv(v, args[0]))
        if name == 'std::reference_wrapper':
            return v
        if name in MATS or name.endswith('::Matrix'):
            if isinstance(v, list):
                r, c = self.mat_dims(name, args)
                return eig.from_list(self, v, r, c)
            m = eig.as_mat(self, v)
            if m.sparse:
                m = Mat(m.rows, m.cols, m.at)
            r, c = self.mat_dims(name, args)
            if c == 1 and m.vec is not True:
                m = Mat(m.rows, 1, m.at, vec=True, sort=m.sort, tag=m.tag, node=m.node) if not (is_const(m.rows) and m.rows == 1 and not (is_const(m.cols) and m.cols == 1)) else eig.transpose(m)
            return m
        if name.endswith('SparseMatrix') and isinstance(v, (Mat, Diag, SelfAdj, TriView)):
            m = eig.as_mat(self, v)
            maj = 'row' if len(args) > 1 and args[1] == '1' else 'col'
            st = m.st
            if st is None:
                st = lambda i, j: ne(m.at(i, j), Fraction(0))
            return Mat(m.rows, m.cols, m.at, st=st, major=maj, comp=True, node=m.node)
        if name in FLOAT_TYPES and (is_const(v) or isz(v)):
            return to_real(v)
        if isinstance(v, Mat) and v.sparse is False and name == 'double':
            return v.at(0, 0)
        return v

    # -- statements
    def exec(self, n):
        if self.st is None or n is None:
            return
        k = n.kind
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n)
        if k in ('Null', 'NullStmt') or k.endswith('Comment'):
            return
        self.ev(n)

    def s_CompoundStmt(self, n):
        for c in n.inner:
            if self.st is None:
                return
            self.exec(c)

    def s_DeclStmt(self, n):
        for d in n.inner:
            if d.kind == 'VarDecl':
                self.declare(d)
            elif d.kind == 'DecompositionDecl':
                self.decompose(d)
            elif d.kind in ('UsingDecl', 'TypeAliasDecl', 'TypedefDecl', 'StaticAssertDecl', 'UsingDirectiveDecl', 'EmptyDecl', 'CXXRecordDecl', 'NamespaceAliasDecl', 'UsingShadowDecl', 'UsingEnumDecl', 'EnumDecl'):
                pass
            else:
                self.unsupported(f'declaration {d.kind}', d)

    def var_init(self, d):
        return [x for x in d.inner if not x.kind.endswith('Comment') and not x.kind.endswith('Attr') and x.kind not in ('TypeVisibilityAttr',)]

    def declare(self, d):
        self.names[d.id] = d.name
        ini = self.var_init(d)
        t = d.type
        isref = d.qtype.rstrip().endswith('&') or t.rstrip().endswith('&')
        if d.j.get('storageClass') == 'static' and not t.startswith('const ') and not d.j.get('constexpr') and 'const' not in d.qtype and not isref:
            # a mutable static keeps its value between calls
            if d.id not in self.st.vars:
                self.st.vars[d.id] = self.sym(t, f'old.static.{d.name}')
            return
        if not ini:
            self.st.vars[d.id] = self.default(t, d)
            return
        v = self.ev(ini[0])
        if isref:
            if not isinstance(v, LRef):
                v = self.rv(v) if isinstance(v, RefW) and 'reference_wrapper' not in t else v
            self.st.vars[d.id] = v
        else:
            x = self.rv(v) if not isinstance(v, RefW) else v
            if isinstance(x, list):
                x = self.brace(x, t, d)
            self.st.vars[d.id] = self.conv(x, t) if not isinstance(x, (Lam, RefW)) else x
        if self.wlog is not None:
            pass

    def brace(self, xs, t, node):
        name, args, ref = parse_type(t)
        if name in FLOAT_TYPES | INT_TYPES | {'bool'}:
            return self.rv(xs[0]) if xs else (Fraction(0) if name in FLOAT_TYPES else 0 if name != 'bool' else False)
        if isinstance(xs, Struct):
            return xs
        return xs

    def decompose(self, d):
        ini = self.var_init(d)
        binds = [x for x in d.inner if x.kind == 'BindingDecl']
        src = [x for x in ini if x.kind != 'BindingDecl']
        v = self.ev(src[0])
        hv = R.fresh('tuple')
        self.bind_tuple(binds, v)

    def bind_tuple(self, binds, v):
        rvv = self.rv(v)
        if isinstance(rvv, tuple):
            for b, x in zip(binds, rvv):
                self.st.vars[b.id] = x
                self.names[b.id] = b.name
            return
        if isinstance(rvv, Struct):
            for b, k in zip(binds, rvv.f):
                self.st.vars[b.id] = LRef(v.var, v.path + (('f', k),)) if isinstance(v, LRef) else rvv.f[k]
            return
        raise Unsupported('structured binding')

    def s_IfStmt(self, n):
        inner = list(n.inner)
        pos = 0
        if n.j.get('hasInit'):
            self.exec(inner[0])
            pos = 1
        if n.j.get('hasVar'):
            self.exec(inner[pos])
            pos += 1
        c = self.boolean(self.ev(inner[pos]))
        then = inner[pos + 1] if len(inner) > pos + 1 else None
        els = inner[pos + 2] if len(inner) > pos + 2 else None
        self.branch(c, lambda: self.exec(then), (lambda: self.exec(els)) if els is not None else (lambda: None), n)

    def branch(self, c, f, g, node=None):
        c = resolve(c, self.st.lits) if isz(c) else c
        if isz(c):
            c = norm_const(c)
            s = T.simp(c)
            if isinstance(s, bool):
                c = s
        if isinstance(c, bool):
            (f if c else g)()
            return
        if node is not None:
            self.control(c, node)
        base = self.st
        a = base.copy().assume(c)
        b = base.copy().assume(Not(c))
        self.st = a
        f()
        a = self.st
        self.st = b
        g()
        b = self.st
        self.st = merge_states(a, b) if (a is not None or b is not None) else None
        if self.st is not None and a is not None and b is not None:
            # back to the common path: nothing was lost
            if len(a.path) and len(b.path):
                p = base.path
                if a.path[:len(p)] == p and len(a.path) == len(p) + 1 and len(b.path) == len(p) + 1:
                    self.st = State(self.st.vars, base.path, base.lits)

    def control(self, c, node):
        """hook: a branch depends on c"""
        self.loop_ctrl(c, node)

    ctrl = None

    def loop_ctrl(self, c, node):
        if self.ctrl is not None:
            self.ctrl.append((c, self.st.path, self.u.where(node)))

    def s_ReturnStmt(self, n):
        v = VOID
        if n.inner and n.inner[0].kind != 'Null':
            v = self.ev(n.inner[0])
            ft = self.fn[-1].rettype
            if not ft.rstrip().endswith('&'):
                v = self.rv(v) if not isinstance(v, RefW) else v
                if isinstance(v, list):
                    v = self.brace(v, ft, n)
                if not isinstance(v, (Lam, RefW)):
                    v = self.conv(v, ft) if ft not in ('auto', '') else v
            elif not isinstance(v, LRef):
                pass
        self.fn[-1].rets.append((self.st, v))
        self.st = None

    def s_BreakStmt(self, n):
        self.loops[-1].brk.append(self.st)
        self.st = None

    def s_ContinueStmt(self, n):
        i = len(self.loops) - 1
        while self.loops[i].__class__ is not LoopScope or getattr(self.loops[i], 'switch', False):
            i -= 1
        self.loops[i].cont.append(self.st)
        self.st = None

    def s_ForStmt(self, n):
        from . import loops
        init, condvar, cond, inc, body = (n.inner + [None] * 5)[:5]
        self.exec(init) if init is not None and init.kind != 'Null' else None
        loops.run(self, n, None if cond is None or cond.kind == 'Null' else cond, None if inc is None or inc.kind == 'Null' else inc, body)

    def s_WhileStmt(self, n):
        from . import loops
        loops.run(self, n, n.inner[-2], None, n.inner[-1])

    def s_DoStmt(self, n):
        from . import loops
        loops.run(self, n, n.inner[1], None, n.inner[0], dowhile=True)

    def s_CXXForRangeStmt(self, n):
        from . import loops
        loops.run_range(self, n)

    def s_SwitchStmt(self, n):
        cond, body = n.inner[-2], n.inner[-1]
        c = self.val(cond)
        ls = LoopScope()
        ls.switch = True
        self.loops.append(ls)
        base = self.st
        cases = []   # (values or None, index into stmts)
        stmts = []

        def flat(s):
            while s.kind in ('CaseStmt', 'DefaultStmt'):
                if s.kind == 'CaseStmt':
                    cases.append((self.val(s.inner[0]), len(stmts)))
                else:
                    cases.append((None, len(stmts)))
                s = s.inner[-1]
            stmts.append(s)
        for s in body.inner:
            if s.kind.endswith('Comment'):
                continue
            flat(s)
        vals = [v for v, _ in cases if v is not None]
        nomatch = And(*[ne(c, v) for v in vals])
        entry = {}
        for v, i in cases:
            cc = eq(c, v) if v is not None else nomatch
            entry.setdefault(i, []).append(cc)
        hasdef = any(v is None for v, _ in cases)
        cur = None
        for i, s in enumerate(stmts):
            if i in entry:
                cc = Or(*entry[i])
                if not (isinstance(cc, bool) and not cc):
                    e = base.copy().assume(cc)
                    cur = merge_states(cur, e) if cur is not None else e
            self.st = cur
            if cur is not None:
                self.exec(s)
            cur = self.st
        outs = ls.brk + ([cur] if cur is not None else [])
        self.loops.pop()
        if not hasdef:
            outs.append(base.copy().assume(nomatch))
        self.st = merge_all([o for o in outs if o is not None and not o.dead()])

    def s_CXXTryStmt(self, n):
        self.exec(n.inner[0])

    def s_AttributedStmt(self, n):
        self.exec(n.inner[-1])

    # -- expressions
    def ev(self, n):
        k = n.kind
        m = getattr(self, 'e_' + k, None)
        if m is None:
            self.unsupported(f'expression {k}', n)
        return m(n)

    def _pass(self, n):
        return self.ev(n.inner[0])

    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = _pass
    e_SubstNonTypeTemplateParmExpr = lambda self, n: self.ev(n.inner[-1])
    e_CXXRewrittenBinaryOperator = _pass

    def e_FullComment(self, n):
        return VOID

    def e_ConstantExpr(self, n):
        v = n.j.get('value')
        if v is not None and n.inner and n.inner[0].kind != 'DeclRefExpr':
            if v in ('true', 'false'):
                return v == 'true'
            try:
                return int(v)
            except ValueError:
                pass
        return self.ev(n.inner[0])

    def e_IntegerLiteral(self, n):
        return int(n.j['value'])

    def e_FloatingLiteral(self, n):
        return Fraction(str(n.j['value'])) if 'inf' not in str(n.j['value']).lower() else INF

    def e_CXXBoolLiteralExpr(self, n):
        v = n.j['value']
        return v if isinstance(v, bool) else v == 'true'

    def e_StringLiteral(self, n):
        return UNK

    e_CharacterLiteral = e_StringLiteral
    e_PredefinedExpr = e_StringLiteral

    def e_CXXNullPtrLiteralExpr(self, n):
        return Ptr('null', None)

    e_GNUNullExpr = e_CXXNullPtrLiteralExpr

    def e_CXXThisExpr(self, n):
        return Ptr('lref', self.fn[-1].this)

    def e_CXXDefaultArgExpr(self, n):
        if n.inner:
            return self.ev(n.inner[0])
        return ('default', n)

    def e_CXXDefaultInitExpr(self, n):
        return self.ev(n.inner[0])

    def e_TypeTraitExpr(self, n):
        return n.j.get('value') in (True, 'true')

    def e_UnaryExprOrTypeTraitExpr(self, n):
        self.unsupported('sizeof', n)

    def e_SizeOfPackExpr(self, n):
        self.unsupported('sizeof...', n)

    def e_DeclRefExpr(self, n):
        r = n.ref()
        rid = r.get('id')
        k = r.get('kind')
        if k == 'EnumConstantDecl':
            return self.enum(r, n)
        v = self.st.vars.get(rid)
        if v is not None:
            if isinstance(v, LRef):
                return v
            return LRef(rid)
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return PyFun(r.get('name'), None)
        d = self.u.byid.get(rid)
        nm = r.get('name')
        if d is not None and d.kind in ('VarDecl',):
            ini = self.var_init(d)
            if ini and (d.j.get('constexpr') or 'const' in d.qtype or 'const' in d.type):
                save, self.wlog = self.wlog, None
                v = self.conv(self.val(ini[0]), d.type)
                self.wlog = save
                self.st.vars[rid] = v
                return LRef(rid)
        if nm in ('cout', 'cerr', 'endl', 'left', 'right', 'scientific', 'fixed', 'flush'):
            return UNK
        if nm == 'nullopt':
            return NULLOPT
        if k == 'NonTypeTemplateParmDecl':
            self.unsupported(f'template parameter {nm}', n)
        h = self.ext.get('var:' + str(nm))
        if h is not None:
            return h(self, n)
        t = parse_type((r.get('type') or {}).get('qualType', ''))[0]
        if t.startswith('std::placeholder') or 'in_place' in str(nm) or 'adopt' in str(nm):
            return UNK
        if nm == 'unspec' or 'strong_ordering' in t:
            return 0
        self.unsupported(f'reference to {k} {nm}', n)

    def enum(self, r, n):
        d = self.u.byid.get(r['id'])
        if d is not None and d.parent is not None and d.parent.kind == 'EnumDecl':
            val = -1
            for c in d.parent.inner:
                if c.kind != 'EnumConstantDecl':
                    continue
                val += 1
                for x in c.inner:
                    if x.kind == 'ConstantExpr' and x.j.get('value') is not None:
                        val = int(x.j['value'])
                if c.id == r['id']:
                    return val
        h = self.ext.get('enum')
        if h:
            v = h(r.get('name'), (r.get('type') or {}).get('qualType', ''))
            if v is not None:
                return v
        self.unsupported(f'enumerator {r.get("name")}', n)

    def e_MemberExpr(self, n):
        o = self.ev(n.inner[0]) if n.inner else None
        mid = n.j.get('referencedMemberDecl')
        d = self.u.byid.get(mid)
        if d is not None and d.kind == 'VarDecl':
            rid = mid
            if rid in self.st.vars:
                return LRef(rid)
            ini = self.var_init(d)
            if ini:
                self.st.vars[rid] = self.conv(self.val(ini[0]), d.type)
                return LRef(rid)
        if isinstance(o, Ptr):
            o = o.obj if o.kind == 'lref' else self.unsupported('member of a null pointer', n)
        if isinstance(o, RefW):
            o = o.ref
        if isinstance(o, LRef):
            v = self.rv(o)
            if isinstance(v, Ptr) and v.kind == 'lref':
                o = v.obj
                v = self.rv(o)
            if isinstance(v, tuple):
                return v[0] if n.name == 'first' else v[1]
            if isinstance(v, Struct) and n.name not in v.f and ('base' in v.f):
                return LRef(o.var, o.path + (('f', 'base'), ('f', n.name)))
            f = self.step(v, ('f', n.name)) if isinstance(v, Struct) else None
            if isinstance(f, RefW):
                return f.ref
            return LRef(o.var, o.path + (('f', n.name),))
        if isinstance(o, tuple):
            return o[0] if n.name == 'first' else o[1]
        if isinstance(o, Struct):
            return o.f[n.name]
        if isinstance(o, Unknown):
            return UNK
        self.unsupported(f'member {n.name} of {type(o).__name__}', n)

    def cast(self, n):
        ck = n.j.get('castKind')
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'FunctionToPointerDecay', 'ArrayToPointerDecay', 'BuiltinFnToFnPtr', 'BaseToDerived', 'UserDefinedConversion', 'ConstructorConversion', 'BitCast'):
            return self.ev(n.inner[0])
        if ck == 'LValueToRValue':
            v = self.rv(self.ev(n.inner[0]))
            return v
        v = self.rv(self.ev(n.inner[0]))
        if ck == 'IntegralToFloating':
            return to_real(v)
        if ck in ('FloatingCast',):
            return to_real(v)
        if ck == 'IntegralCast':
            if is_bool(v):
                return to_int_from_bool(v)
            return v
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.boolean(v)
        if ck == 'FloatingToIntegral':
            if isinstance(v, Ext):
                self.unsupported('conversion of an infinity', n)
            if is_const(v):
                return int(v)
            return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        if ck == 'NullToPointer':
            return Ptr('null', None)
        if ck in ('ToVoid', 'Dependent'):
            return VOID
        self.unsupported(f'cast {ck}', n)

    e_ImplicitCastExpr = e_CXXStaticCastExpr = e_CStyleCastExpr = e_CXXConstCastExpr = cast

    def e_CXXFunctionalCastExpr(self, n):
        v = self.cast(n)
        return v

    def e_UnaryOperator(self, n):
        op = n.op
        if op in ('++', '--'):
            r = self.ev(n.inner[0])
            if not isinstance(r, LRef):
                self.unsupported('increment of a value', n)
            old = self.rv(r)
            if isinstance(old, Ptr):
                new = Ptr(old.kind, old.obj, add(old.off, 1 if op == '++' else -1))
            else:
                new = add(old, 1) if op == '++' else sub(old, 1)
            self.write(r, new)
            return old if n.j.get('isPostfix') else r
        if op == '&':
            r = self.ev(n.inner[0])
            return Ptr('lref', r) if isinstance(r, LRef) else self.unsupported('address of a value', n)
        if op == '*':
            v = self.rv(self.ev(n.inner[0]))
            if isinstance(v, Ptr) and v.kind == 'lref':
                return v.obj
            if isinstance(v, Ptr) and v.kind == 'data':
                return LRef(v.obj.var, v.obj.path + (('e', v.off, 0),))
            self.unsupported('dereference', n)
        v = self.rv(self.ev(n.inner[0]))
        if op == '-':
            return neg(v)
        if op == '+':
            return v
        if op == '!':
            return Not(self.boolean(v))
        self.unsupported(f'operator {op}', n)

    def e_BinaryOperator(self, n):
        op = n.op
        if op in ('&&', '||'):
            a = self.boolean(self.ev(n.inner[0]))
            if isinstance(a, bool):
                if a == (op == '||'):
                    return a
                return self.boolean(self.ev(n.inner[1]))
            box = {}

            def f():
                box['b'] = self.boolean(self.ev(n.inner[1]))
            base = self.st
            if op == '&&':
                self.branch(a, f, lambda: None)
            else:
                self.branch(a, lambda: None, f)
            b = box.get('b', op == '||')
            return And(a, b) if op == '&&' else Or(a, b)
        if op == '=':
            r = self.ev(n.inner[0])
            v = self.rv(self.ev(n.inner[1]))
            return self.assign_scalar(r, v, n)
        if op == ',':
            self.ev(n.inner[0])
            return self.ev(n.inner[1])
        a = self.rv(self.ev(n.inner[0]))
        b = self.rv(self.ev(n.inner[1]))
        return self.binop(op, a, b, n)

    def assign_scalar(self, r, v, n):
        if isinstance(r, Unknown):
            return r
        if not isinstance(r, LRef):
            self.unsupported('assignment to a value', n)
        self.write(r, v)
        return r

    def binop(self, op, a, b, n):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op in ('==', '!='):
                isnull = lambda p: isinstance(p, Ptr) and p.kind == 'null'
                if isnull(a) or isnull(b):
                    o = b if isnull(a) else a
                    e = isnull(o) if not hasattr(o, 'nullc') else o.nullc
                    if isinstance(o, Ptr) and o.kind == 'maybe':
                        e = o.off
                    return e if op == '==' else Not(e)
            if op == '+':
                p, o = (a, b) if isinstance(a, Ptr) else (b, a)
                return Ptr(p.kind, p.obj, add(p.off, o))
            if op == '-' and isinstance(a, Ptr) and not isinstance(b, Ptr):
                return Ptr(a.kind, a.obj, sub(a.off, b))
            self.unsupported('pointer arithmetic', n)
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return UNK
        isint = is_int(a) and is_int(b)
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            if isint:
                self.oblige('div', ne(b, 0), n, 'integer division by zero')
                return idiv(a, b)
            if not (is_const(b) and b != 0):
                self.oblige('div', ne(b, 0), n, 'division by zero')
            return div(a, b)
        if op == '%':
            self.oblige('div', ne(b, 0), n, 'remainder by zero')
            return imod(a, b)
        f = {'<': lt, '<=': le, '>': gt, '>=': ge, '==': eq, '!=': ne}.get(op)
        if f:
            return f(a, b)
        if is_bool(a) and is_bool(b):
            if op in ('&',):
                return And(a, b)
            if op in ('|',):
                return Or(a, b)
            if op == '^':
                return ne(a, b)
        self.unsupported(f'operator {op}', n)

    def e_CompoundAssignOperator(self, n):
        op = n.op[:-1]
        r = self.ev(n.inner[0])
        b = self.rv(self.ev(n.inner[1]))
        a = self.rv(r)
        if op in ('&', '|') and is_bool(a):
            v = And(a, self.boolean(b)) if op == '&' else Or(a, self.boolean(b))
        else:
            v = self.binop(op, a, b, n)
        if is_int(a) and is_real(v):
            v = int(v) if is_const(v) else z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        self.write(r, v)
        return r

    def e_ConditionalOperator(self, n):
        c = self.boolean(self.ev(n.inner[0]))
        box = {}

        def f():
            box['a'] = self.ev(n.inner[1])
            box['ar'] = self.rv(box['a'])

        def g():
            box['b'] = self.ev(n.inner[2])
            box['br'] = self.rv(box['b'])
        self.branch(c, f, g, n)
        if 'a' not in box:
            return box['b']
        if 'b' not in box:
            return box['a']
        a, b = box['ar'], box['br']
        if (is_const(a) or isz(a) or isinstance(a, Ext)) and (is_const(b) or isz(b) or isinstance(b, Ext)):
            return ite(c, a, b)
        return merge_values(c, a, b)

    def e_ArraySubscriptExpr(self, n):
        a = self.ev(n.inner[0])
        i = self.rv(self.ev(n.inner[1]))
        av = self.rv(a) if not isinstance(a, Ptr) else a
        from . import eig
        if isinstance(av, Ptr):
            return eig.ptr_index(self, av, i, n)
        if isinstance(av, list):
            if is_const(i):
                return av[i]
        if isinstance(a, LRef) and isinstance(av, Mat):
            self.bounds(av, i, 0, n)
            return LRef(a.var, a.path + (('e', i, 0),))
        self.unsupported('subscript', n)

    def bounds(self, m, i, j, n):
        self.oblige('bounds', m.inb(i, j), n)

    def e_InitListExpr(self, n):
        xs = [self.ev(c) for c in n.inner if not c.kind.endswith('Comment')]
        t = n.type
        name, args, ref = parse_type(t)
        cls = None
        if name not in FLOAT_TYPES | INT_TYPES and '[' not in t and t != 'void' and not name.startswith('std::'):
            cls = self.find_class(name, args)
        if cls is not None:
            f = {}
            fields = [b for b in cls.inner if b.kind == 'FieldDecl']
            vals = [self.rv(x) if not b.qtype.rstrip().endswith('&') else (RefW(x) if isinstance(x, LRef) else x) for x, b in zip(xs, fields)]
            for b, v in zip(fields, vals):
                f[b.name] = v if isinstance(v, (RefW, Lam)) else self.conv(v, b.type)
            for b in fields[len(vals):]:
                f[b.name] = self.default(b.type, uninit=False)
            return Struct(name, f)
        if name in FLOAT_TYPES | INT_TYPES | {'bool'} and '[' not in t:
            return self.brace(xs, t, n)
        return [self.rv(x) if not isinstance(x, RefW) else x for x in xs]

    def e_CXXStdInitializerListExpr(self, n):
        return self.ev(n.inner[0])

    def e_ImplicitValueInitExpr(self, n):
        return self.default(n.type, n, uninit=False)

    def e_CXXScalarValueInitExpr(self, n):
        return self.default(n.type, n, uninit=False)

    def e_LambdaExpr(self, n):
        rec = n.inner[0]
        snap = {}
        # init captures and copies: fields of the closure in capture order
        fields = [c for c in rec.inner if c.kind == 'FieldDecl']
        inits = [c for c in n.inner[1:] if c.kind not in ('CompoundStmt',)]
        for c in inits:
            # by-copy captured variables
            x = c
            while x.kind in ('ImplicitCastExpr', 'CXXConstructExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr') and x.inner:
                x = x.inner[0]
        return Lam(n, snap, self.fn[-1].this if self.fn else None)

    def e_CXXConstructExpr(self, n):
        from . import eig
        return eig.construct(self, n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CallExpr(self, n):
        from . import eig
        return eig.call(self, n)

    def e_CXXMemberCallExpr(self, n):
        from . import eig
        return eig.member_call(self, n)

    def e_CXXOperatorCallExpr(self, n):
        from . import eig
        return eig.operator_call(self, n)

    # -- calling functions of the repository
    def inline(self, d, this, args, n):
        """d: function declaration with a body; args: evaluated (possibly LRef) arguments"""
        if len(self.fn) > 40:
            self.unsupported('recursion', n)
        self.functions.add(d.name + '@' + self.u.where(d))
        sc = FnScope(d, this)
        t = d.type
        sc.rettype = self.ret_type(d)
        params = [c for c in d.inner if c.kind == 'ParmVarDecl']
        k = 0
        for p in params:
            self.names[p.id] = p.name
            if k >= len(args):
                ini = self.var_init(p)
                a = self.val(ini[0]) if ini else self.unsupported('missing argument', n)
            else:
                a = args[k]
            if isinstance(a, tuple) and len(a) == 2 and a[0] == 'default':
                ini = self.var_init(p)
                if not ini:
                    # the default lives on another declaration of the function
                    self.unsupported('default argument', n)
                a = self.ev(ini[0])
            k += 1
            isref = p.qtype.rstrip().endswith('&') or p.type.rstrip().endswith('&')
            if isref:
                if isinstance(a, RefW) and 'reference_wrapper' not in p.type:
                    a = a.ref
                if isinstance(a, list):
                    a = self.conv(self.brace(a, p.type, n), p.type)
                if not isinstance(a, LRef) and 'Matrix<' in p.type.split('<')[0] + '<' and not isinstance(a, (Lam, PyFun)):
                    a = self.conv(a, p.type)
                if isinstance(a, LRef) and p.type.strip().startswith('const') and parse_type(p.type)[0] == 'std::optional' and not isinstance(self.rv(a), Opt):
                    a = self.conv(a, p.type)
                self.st.vars[p.id] = a
            else:
                a = self.rv(a) if not isinstance(a, RefW) else a
                if isinstance(a, list):
                    a = self.brace(a, p.type, n)
                if isinstance(a, RefW) and parse_type(p.type)[0] == 'std::optional':
                    a = Opt(True, a)
                self.st.vars[p.id] = self.conv(a, p.type) if not isinstance(a, (Lam, PyFun, RefW, tuple)) else a
        self.fn.append(sc)
        ls = self.loops
        self.loops = []
        try:
            for c in d.inner:
                if c.kind == 'CXXCtorInitializer':
                    self.ctor_init(c)
            body = [c for c in d.inner if c.kind in ('CompoundStmt', 'CXXTryStmt')]
            if body:
                self.exec(body[0])
        finally:
            self.fn.pop()
            self.loops = ls
        outs = sc.rets
        if self.st is not None:
            outs = outs + [(self.st, VOID)]
        outs = [(s, v) for s, v in outs if not s.dead()]
        if not outs:
            self.st = None
            raise Dead()
        st, v = outs[0]
        if len(outs) > 1:
            # merge results through a variable
            key = R.fresh('ret')
            isref = any(isinstance(v, LRef) for _, v in outs)
            same_ref = all(isinstance(v, LRef) and str(v) == str(outs[0][1]) for _, v in outs)
            acc = None
            for s, v in outs:
                s.vars[key] = v if not isinstance(v, LRef) else None
                acc = s if acc is None else merge_states(acc, s)
            self.st = acc
            v = outs[0][1] if same_ref else acc.vars.get(key, VOID)
            acc.vars.pop(key, None)
            if v is None:
                self.unsupported('returning different references', n)
            return v
        self.st = st
        return v

    def ret_type(self, d):
        q = d.qtype
        # 'T (args) const'
        depth = 0
        t = d.type or q
        if '->' in t:
            return t.split('->')[-1].strip()
        for i, ch in enumerate(t):
            if ch in '<([':
                if ch == '(' and depth == 0:
                    return t[:i].strip()
                depth += 1
            elif ch in '>)]':
                depth -= 1
        return t

    def ctor_init(self, c):
        ai = c.j.get('anyInit') or {}
        this = self.fn[-1].this
        if ai.get('name'):
            nm = ai['name']
            d = self.u.byid.get(ai.get('id'))
            t = (d.type if d is not None else (ai.get('type') or {}).get('qualType', ''))
            if not c.inner:
                v = self.default(t)
            else:
                v = self.ev(c.inner[0])
                if t.rstrip().endswith('&'):
                    v = RefW(v) if isinstance(v, LRef) else v
                else:
                    v = self.rv(v) if not isinstance(v, RefW) else v
                    if isinstance(v, list):
                        v = self.brace(v, t, c)
                    if not isinstance(v, (Lam, RefW, PyFun)):
                        v = self.conv(v, t)
            self.write(LRef(this.var, this.path + (('f', nm),)), v)
        elif c.j.get('baseInit'):
            pass
        else:
            # delegating constructor
            if c.inner:
                v = self.rv(self.ev(c.inner[0]))
                if isinstance(v, Struct):
                    self.write(this, v)

    def call_lambda(self, lam, args, n, method=None):
        rec = lam.node.inner[0]
        ops = []

        def rec_ops(x):
            for c in x.inner:
                if c.kind == 'CXXMethodDecl' and c.name == 'operator()':
                    ops.append(c)
                elif c.kind == 'FunctionTemplateDecl' and c.name == 'operator()':
                    for d in c.inner:
                        if d.kind == 'CXXMethodDecl':
                            ops.append(d)
        rec_ops(rec)
        d = None
        if method is not None:
            for o in ops:
                if o.id == method:
                    d = o
        if d is None and len(ops) == 1:
            d = ops[0]
        if d is None and method is None:
            for o in ops[1:]:
                d = o
                break
        if d is None or not self.u.has_body(d):
            self.unsupported('lambda without instantiated body', n)
        return self.inline(d, lam.this, args, n)

    # -- entry points
    def run_method(self, d, self_value, args):
        """Executes the function/method d.  self_value: Struct or None; args: list of values.
        -> list of (state, value) merged into self.st, value"""
        this = None
        if self_value is not None:
            self.st.vars['self'] = self_value
            this = LRef('self')
        return self.inline(d, this, args, None)

    def rv_shallow(self, r):
        """the value a reference denotes, without following references it holds"""
        v = self.st.vars.get(r.var)
        if isinstance(v, LRef):
            return self.rv_shallow(LRef(v.var, v.path + tuple(r.path)))
        for p in r.path:
            v = self.step(v, p)
        return v

    def known(self, c):
        """is c provable on this path?"""
        if isinstance(c, bool):
            return c
        from .prove import Prover
        c2 = T.simp(c)
        if isinstance(c2, bool):
            return c2
        r, _ = Prover(self.facts).prove(c, self.st.path, timeout=3000, rounds=2, fast=True)
        return r == 'proved'
