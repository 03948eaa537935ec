"""Loops.  Counted loops and loops over the entries of a matrix are turned into closed forms (the invariant of such a loop
is that every variable has the value the first iterations give it); other loops get inductive invariants: a candidate set
is weakened until it holds on entry and is preserved by the body (Houdini).  Both are obligations of the code as it is."""
from fractions import Fraction
from .terms import *
from . import terms as T
from .values import *
from .prove import Forall, lin, Prover
from .interp import LoopScope, RefW, Dead, Obl

ZERO = Fraction(0)
OLD = {'real': z3.Real('OLD.r'), 'int': z3.Int('OLD.i'), 'bool': z3.Bool('OLD.b')}


class NotSummarizable(Exception):
    pass


def snapshot(I):
    return (I.st.copy(), len(I.obls), len(I.facts), [len(f.rets) for f in I.fn], dict(I.names), len(I.loop_log), len(I.ctrl) if I.ctrl is not None else 0)


def restore(I, s):
    I.st = s[0].copy()
    del I.obls[s[1]:]
    del I.facts[s[2]:]
    for f, k in zip(I.fn, s[3]):
        del f.rets[k:]
    del I.loop_log[s[5]:]
    if I.ctrl is not None:
        del I.ctrl[s[6]:]


def one_iter(I, cond, body, inc, skip=False):
    ls = LoopScope()
    c = True
    if cond is not None and not skip:
        c = I.boolean(I.ev(cond))
        I.st.assume(c)
    nret = len(I.fn[-1].rets)
    I.loops.append(ls)
    try:
        I.exec(body)
    finally:
        I.loops.pop()
    states = [s for s in ls.cont + [I.st] if s is not None and not s.dead()]
    I.st = merge_all(states)
    if I.st is not None and inc is not None:
        I.ev(inc)
    fall = I.st
    rets = I.fn[-1].rets[nret:]
    del I.fn[-1].rets[nret:]
    return c, fall, [b for b in ls.brk if not b.dead()], [(s, v) for s, v in rets if not s.dead()]


# --- leaves of the state ------------------------------------------------------------------------------------------

def get_at(v, path):
    for p in path:
        if p[0] == 'f':
            v = v.f[p[1]]
        elif p[0] == 'has':
            v = v.has
        elif p[0] == 'opt':
            v = v.val
    return v


def set_at(v, path, x):
    if not path:
        return x
    p = path[0]
    if p[0] == 'f':
        return v.with_(p[1], set_at(v.f[p[1]], path[1:], x))
    if p[0] == 'has':
        return Opt(x, v.val)
    return Opt(v.has, set_at(v.val, path[1:], x))


def flatten(v, path=()):
    if isinstance(v, Struct):
        out = []
        for k in v.f:
            out += flatten(v.f[k], path + (('f', k),))
        return out
    if isinstance(v, Opt):
        out = [(path + (('has',),), v.has)]
        if v.val is not UNK and v.val is not None:
            out += flatten(v.val, path + (('opt',),))
        return out
    return [(path, v)]


class Leaf:
    def __init__(self, var, path, init):
        self.var = var
        self.path = path
        self.init = init
        self.kind = 'm' if isinstance(init, Mat) else 's'
        self.closed = None
        self.closed_st = None
        if self.kind == 'm':
            self.sort = init.sort
        else:
            self.sort = 'bool' if is_bool(init) else 'int' if is_int(init) else 'real'

    def key(self):
        return (self.var, self.path)


def sorts(s):
    return {'real': z3.RealSort(), 'int': z3.IntSort(), 'bool': z3.BoolSort()}[s]


def discover(I, snap, cond, body, inc, skip, prep, maxr=5):
    """written leaves: list of (var, path)"""
    keys = {}
    I.quiet += 1
    try:
        for rnd in range(maxr):
            restore(I, snap)
            pre = prep()
            base = dict(I.st.vars)
            for (var, path), _ in keys.items():
                v = base[var]
                x = get_at(v, path)
                I.st.vars[var] = set_at(I.st.vars[var], path, placeholder(I, x, 'dsc'))
            save, I.wlog = I.wlog, []
            nvars = set(I.st.vars)
            try:
                c, fall, brk, rets = one_iter(I, cond, body, inc, skip)
            except Dead:
                fall, brk, rets = None, [], []
            log, I.wlog = I.wlog, save
            new = set()
            for var, path in log:
                if var in nvars and var in snap[0].vars:
                    v = snap[0].vars[var]
                    try:
                        w = get_at(v, path)
                    except Exception:
                        w = None
                    if w is None or isinstance(w, Unknown):
                        continue
                    for p, x in flatten(w, tuple(path)):
                        new.add((var, p))
            # optional values that become set
            for (var, p) in list(new):
                if p and p[-1] == ('has',):
                    for s in [fall] + brk:
                        if s is None:
                            continue
                        o = get_at(s.vars[var], p[:-1])
                        if isinstance(o, Opt) and o.val is not UNK and o.val is not None and isinstance(get_at(snap[0].vars[var], p[:-1]).val, Unknown):
                            keys.setdefault('opt', {})[(var, p[:-1])] = o.val if False else None
            keys.pop('opt', None)
            if all(k in keys for k in new):
                break
            for k in new:
                keys[k] = True
        else:
            raise NotSummarizable('writes do not stabilize')
    finally:
        I.quiet -= 1
        restore(I, snap)
    if I.wlog is not None:
        for var, path in keys:
            fp = tuple(p for p in path if p[0] == 'f')
            I.wlog.append((var, fp))
    return list(keys)


def placeholder(I, x, base):
    """an arbitrary value of the same shape"""
    if isinstance(x, Mat):
        f = I.fresh_fn(x.sort, base)
        st = None
        if x.sparse:
            g = I.fresh_fn('bool', base + '.st')
            st = lambda i, j: g(i, j)
        m = Mat(x.rows, x.cols, lambda i, j: f(i, j), st=st, major=x.major, comp=I.fresh('bool', base + '.comp') if x.comp is not None else None, vec=x.vec, sort=x.sort)
        m.node = ('ph',)
        return m
    if is_bool(x):
        return I.fresh('bool', base)
    if is_int(x):
        return I.fresh('int', base)
    if is_real(x):
        return I.fresh('real', base)
    if isinstance(x, (Unknown, Void)):
        return x
    if isinstance(x, (LRef, RefW, Lam, PyFun, Ptr)):
        return x
    if isinstance(x, Vec):
        raise NotSummarizable('vector of objects modified in a loop')
    if isinstance(x, (EntryIt, InnerItInit)):
        return x
    raise NotSummarizable(f'{type(x).__name__} modified in a loop')


# --- recurrences --------------------------------------------------------------------------------------------------

def conj(e):
    if isinstance(e, bool):
        return [] if e else [False]
    if z3.is_and(e):
        out = []
        for c in e.children():
            out += conj(c)
        return out
    return [e]


def eqs_of(c):
    out = []
    for e in conj(c):
        if isz(e) and z3.is_eq(e) and z3.is_int(e.arg(0)):
            out.append((e.arg(0), e.arg(1)))
    return out


def equal_under(a, b, eqs):
    if is_const(a) and is_const(b):
        return a == b
    d = T.simp(sub(a, b))
    if is_const(d):
        return d == 0
    seen = [a]
    todo = [a]
    while todo:
        x = todo.pop()
        for p, r in eqs:
            for s, t in ((p, r), (r, p)):
                if is_const(T.simp(sub(x, s))) and T.simp(sub(x, s)) == 0:
                    if not any(is_const(T.simp(sub(t, y))) and T.simp(sub(t, y)) == 0 for y in seen):
                        dd = T.simp(sub(t, b))
                        if is_const(dd) and dd == 0:
                            return True
                        seen.append(t)
                        todo.append(t)
    return False


def rw(e, uf, key, old, eqs, memo=None):
    """rewrite uf(a, b) to old where (a, b) is the key under the equalities in force"""
    if isinstance(e, Ext):
        return mkext(rw(e.k, uf, key, old, eqs), rw(e.v, uf, key, old, eqs))
    if not isz(e) or uf.name() not in decls_of(e):
        return e
    if memo is None:
        memo = {}
    kk = (e.get_id(), len(eqs), tuple((z(a).get_id(), z(b).get_id()) for a, b in eqs))
    if kk in memo:
        return memo[kk]
    if z3.is_app(e) and e.decl().eq(uf):
        args = e.children()
        k = args[-2:]
        if equal_under(k[0], key[0], eqs) and equal_under(k[1], key[1], eqs):
            memo[kk] = old
            return old
        memo[kk] = e
        return e
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c = rw(e.arg(0), uf, key, old, eqs, memo)
        a = rw(e.arg(1), uf, key, old, eqs + eqs_of(e.arg(0)), memo)
        b = rw(e.arg(2), uf, key, old, eqs, memo)
        r = ite(norm_const(c) if isz(c) else c, a, b)
    else:
        ch = [z(rw(c, uf, key, old, eqs, memo)) for c in e.children()]
        r = e.decl()(*ch)
    memo[kk] = r
    return r


def rebuild_apps(e, uf, fn, memo=None):
    """replace applications uf(..., a, b) by fn(a, b)"""
    if isinstance(e, Ext):
        return mkext(rebuild_apps(e.k, uf, fn), rebuild_apps(e.v, uf, fn))
    if not isz(e) or uf.name() not in decls_of(e):
        return e
    if memo is None:
        memo = {}
    if e.get_id() in memo:
        return memo[e.get_id()]
    ch = [rebuild_apps(c, uf, fn, memo) for c in e.children()]
    if z3.is_app(e) and e.decl().eq(uf):
        r = z(fn(ch[-2], ch[-1]))
    else:
        r = e.decl()(*[z(c) for c in ch]) if ch else e
    memo[e.get_id()] = r
    T._keep.append(e)
    return r


def pointwise(m, ph, uf, old, eqs=()):
    """value of the coefficient (I_, J_) of m in terms of its value in the placeholder matrix"""
    eqs = list(eqs)
    key = (I_, J_)
    if m is ph:
        return old
    n = m.node
    if n:
        if n[0] == 'store':
            _, b, i, j, val = n
            c = And(eq(I_, i), eq(J_, j))
            v = rw(val, uf, key, old, eqs + eqs_of(c))
            return ite(c, v, pointwise(b, ph, uf, old, eqs))
        if n[0] == 'touch':
            return pointwise(n[1], ph, uf, old, eqs)
        if n[0] == 'ite':
            c = n[1]
            return ite(rw(c, uf, key, old, eqs), pointwise(n[2], ph, uf, old, eqs + eqs_of(c)), pointwise(n[3], ph, uf, old, eqs))
    return rw(m.at(I_, J_), uf, key, old, eqs)


def pointwise_st(m, ph, uf, old):
    if m.st is ph.st:
        return old
    n = m.node
    if n:
        if n[0] in ('store', 'touch'):
            c = And(eq(I_, n[2]), eq(J_, n[3]))
            if n[1].st is m.st:   # the coefficient is already stored
                return pointwise_st(n[1], ph, uf, old)
            return Or(c, pointwise_st(n[1], ph, uf, old))
        if n[0] == 'ite':
            return ite(rw(n[1], uf, (I_, J_), old, []), pointwise_st(n[2], ph, uf, old), pointwise_st(n[3], ph, uf, old))
    return rw(m.stored(I_, J_), uf, (I_, J_), old, [])


def has(e, c):
    if isinstance(e, Ext):
        return has(e.k, c) or has(e.v, c)
    return isz(e) and any(x.eq(c) for x in consts_of(e))


def parse(e, old):
    """-> (kind, [(cond, value)])  kind in same/set/add/max/min/and/or"""
    if isz(e) and e.eq(old):
        return 'same', []
    if not has(e, old):
        return 'set', [(True, e)]
    if isinstance(e, Ext):
        raise NotSummarizable('recurrence over extended reals')
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c, a, b = e.children()
        if has(c, old):
            # max / min
            k = c.decl().kind()
            neg_ = False
            if z3.is_not(c):
                c = c.arg(0)
                k = c.decl().kind()
                neg_ = True
            if k in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE):
                x, y = c.children()
                if k in (z3.Z3_OP_GT, z3.Z3_OP_GE):
                    x, y = y, x
                if neg_:
                    x, y = y, x
                # x < y ? a : b
                if a.eq(y) and b.eq(x):
                    kind = 'max'
                elif a.eq(x) and b.eq(y):
                    kind = 'min'
                else:
                    raise NotSummarizable('conditional recurrence')
                s, t = (x, y) if has(x, old) else (y, x)
                if has(t, old):
                    raise NotSummarizable('recurrence')
                k1, l1 = parse(s, old)
                if k1 not in ('same', kind):
                    raise NotSummarizable('mixed recurrence')
                return kind, l1 + [(True, t)]
            # x == 0 ? v : x   (replace)
            raise NotSummarizable('condition on the updated variable')
        ka, la = parse(a, old)
        kb, lb = parse(b, old)
        if ka == 'same' and kb == 'same':
            return 'same', []
        if ka != 'same' and kb != 'same' and ka != kb:
            raise NotSummarizable('mixed recurrence')
        kind = ka if ka != 'same' else kb
        return kind, [(And(c, p), v) for p, v in la] + [(And(Not(c), p), v) for p, v in lb]
    k = e.decl().kind()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        ch = e.children()
        tot = []
        inner = None
        for n, x in enumerate(ch):
            sgn = 1 if (k == z3.Z3_OP_ADD or n == 0) else -1
            if has(x, old):
                if inner is not None or sgn < 0:
                    raise NotSummarizable('recurrence')
                inner = x
            else:
                tot.append(x if sgn > 0 else neg(x))
        k1, l1 = parse(inner, old)
        if k1 not in ('same', 'add'):
            raise NotSummarizable('mixed recurrence')
        s = tot[0]
        for t in tot[1:]:
            s = add(s, t)
        return 'add', l1 + [(True, s)]
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        kind = 'and' if k == z3.Z3_OP_AND else 'or'
        inner = [x for x in e.children() if has(x, old)]
        rest = [x for x in e.children() if not has(x, old)]
        l1 = []
        for x in inner:
            k1, l = parse(x, old)
            if k1 not in ('same', kind):
                raise NotSummarizable('mixed recurrence')
            l1 += l
        r = rest[0] if len(rest) == 1 else (And(*rest) if kind == 'and' else Or(*rest))
        return kind, l1 + ([(True, r)] if rest else [])
    raise NotSummarizable('recurrence form')


class Dom:
    """iteration domain: q ranges over the values with pred; pred(x): Bool"""
    def __init__(self, q, pred, counted, n=None):
        self.q = q
        self.pred = pred
        self.counted = counted
        self.n = n


def sub_q(e, q, x):
    if is_const(e):
        return e
    return T.subst(e, [(q, x)])


def foldq(kind, bvs, dom, body):
    """mkfold with folds over folds of the same kind turned into one fold"""
    if isz(body) and z3.is_app_of(body, z3.Z3_OP_ITE) and kind in ('sum', 'max', 'isum'):
        c, a, b = body.children()
        if (z3.is_rational_value(b) or z3.is_int_value(b)) and norm_const(b) == 0:
            return foldq(kind, bvs, And(dom, c), a)
    if isz(body) and z3.is_app(body):
        f = R.byname.get(body.decl().name()) if body.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
        if isinstance(f, Fold):
            ok = f.kind == kind or (kind == 'isum' and f.kind == 'count')
            if ok:
                nb = [R.idx('b') for _ in f.bvs]
                pairs = list(zip(f.params, body.children())) + list(zip(f.bvs, nb))
                d2 = T.subst(f.dom, pairs)
                b2 = T.subst(f.body, pairs)
                return foldq(f.kind, list(bvs) + nb, And(dom, d2), b2)
    if kind == 'isum' and is_const(body) and body == 1:
        return foldq('count', bvs, True, dom)
    if kind == 'count':
        # counting pairs: flatten counts of counts is not possible, but a conjunction is
        return mkfold('count', bvs, dom, body)
    if kind == 'any':
        cs = conj(body)
        for n, c in enumerate(cs):
            if isz(c) and z3.is_app(c) and c.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                f = R.byname.get(c.decl().name())
                if isinstance(f, Fold) and f.kind == 'any':
                    nb = [R.idx('b') for _ in f.bvs]
                    pairs = list(zip(f.params, c.children())) + list(zip(f.bvs, nb))
                    rest = cs[:n] + cs[n + 1:]
                    return foldq('any', list(bvs) + nb, And(dom, *rest), T.subst(f.body, pairs))
    return mkfold(kind, bvs, dom, body)


def find_inverse(cond, q):
    """q from an equation in cond: -> term or None"""
    for e in conj(cond):
        if isz(e) and z3.is_eq(e) and z3.is_int(e.arg(0)):
            d = sub(e.arg(0), e.arg(1))
            L = lin(d, q)
            if L is not None and L[0] in (1, -1) and not has(L[1], q):
                return neg(L[1]) if L[0] == 1 else L[1]
    return None


def find_rank(cond, q):
    """equation key == base + C(q) with C a prefix count: -> (C application, rank term)"""
    for e in conj(cond):
        if isz(e) and z3.is_eq(e) and z3.is_int(e.arg(0)):
            d = T.simp(sub(e.arg(0), e.arg(1)))
            apps = []

            def rec(x):
                if z3.is_app(x):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                        f = R.byname.get(x.decl().name())
                        if isinstance(f, Fold) and f.kind == 'count' and has(x, q):
                            apps.append(x)
                        return
                    for c in x.children():
                        rec(c)
            rec(d)
            if len(apps) == 1:
                v = z3.Int('!rank')
                L = lin(z3.substitute(d, (apps[0], v)), v)
                if L is not None and L[0] in (1, -1) and not has(L[1], q):
                    return apps[0], (neg(L[1]) if L[0] == 1 else L[1])
    return None


def selector(I, app, q, dom):
    """inverse of a prefix count C(q) over the loop domain"""
    key = app.decl().name()
    s = R.filters.get(key)
    if s is None:
        sel = z3.Function(R.fresh('sel'), z3.IntSort(), z3.IntSort())
        f = R.byname[key]
        t = R.idx('t')
        x = R.idx('x')
        C = lambda y: z3.substitute(app, (q, z(y)))
        # body of the count at q: the predicate without the prefix bound
        args = app.children()

        def body(y):
            big = z3.Int('!big')
            e = T.subst(f.body, list(zip(f.params, [a if not a.eq(q) else big for a in args])) + [(f.bvs[0], y)])
            return And(*[c for c in conj(e) if not (isz(c) and has(c, big))])
        N = dom.n
        I.facts.append(((), Forall([t], Implies(And(le(0, t), lt(t, C(N))), And(le(0, sel(t)), lt(sel(t), N), body(sel(t)), eq(C(sel(t)), t))))))
        I.facts.append(((), Forall([x], Implies(And(le(0, x), lt(x, N), body(x)), And(eq(sel(C(x)), x), le(0, C(x)), lt(C(x), C(N)))))))
        s = (sel, body, C)
        R.filters[key] = s
    return s


def closed_form(I, o0, kind, contrib, dom, sort, bound=None):
    """value after the iterations with index below bound (all, if bound is None)"""
    q = dom.q

    def dt(x):
        p = dom.pred(x)
        if bound is not None:
            p = And(p, lt(x, bound))
        return p
    if kind == 'same':
        return o0
    if kind in ('and', 'or'):
        for c, v in contrib:
            b = And(c, v) if kind == 'or' else And(c, Not(v))
            inv = find_inverse(b, q)
            if inv is not None:
                a = And(dt(inv), sub_q(b, q, inv))
            else:
                x = R.idx('b')
                a = foldq('any', [x], And(dt(x)), sub_q(b, q, x))
            o0 = Or(o0, a) if kind == 'or' else And(o0, Not(a))
        return o0
    if kind == 'set':
        vals = []
        generic = []
        for c, v in contrib:
            if isinstance(c, bool) and not c:
                continue
            inv = find_inverse(c, q)
            if inv is not None:
                vals.append((And(dt(inv), sub_q(c, q, inv)), sub_q(v, q, inv), inv))
                continue
            rk = find_rank(c, q)
            if rk is not None:
                app, t0 = rk
                sel, body, C = selector(I, app, q, dom)
                if not I.known(Implies(And(dom.pred(q), c), body(q))):
                    raise NotSummarizable('filtered store')
                total = C(dom.n) if bound is None else C(bound)
                x = sel(z(t0))
                rest = And(*[e for e in conj(c) if not (isz(e) and z3.is_eq(e) and app.get_id() in {a.get_id() for a in subterms(e)})])
                vals.append((And(le(0, t0), lt(t0, total), sub_q(rest, q, x)), sub_q(v, q, x), x))
                continue
            generic.append((c, v))
        if generic:
            if vals:
                raise NotSummarizable('mixed stores')
            same = all(not has(v, q) for _, v in generic)
            cs = [c for c, _ in generic]
            if same and (len(generic) == 1 or all(str(generic[0][1]) == str(v) for _, v in generic)):
                c = Or(*cs)
                if not has(c, q) and dom.counted:
                    n = dom.n if bound is None else mn(bound, dom.n)
                    return ite(And(c, lt(0, n)), generic[0][1], o0)
                x = R.idx('b')
                return ite(foldq('any', [x], dt(x), sub_q(c, q, x)), generic[0][1], o0)
            if dom.counted and all(not has(c, q) for c in cs):
                last = sub(dom.n if bound is None else bound, 1)
                r = o0
                for c, v in reversed(generic):
                    r = ite(And(dt(last), c), sub_q(v, q, last), r)
                return r
            if dom.counted:
                # the last iteration in which the store happened
                x = R.idx('b')
                c = Or(*cs)
                anyc = foldq('any', [x], dt(x), sub_q(c, q, x))
                y = R.idx('b')
                N = dom.n if bound is None else bound
                rev = mkfold('first', [y], True, And(dt(sub(sub(N, 1), y)), sub_q(c, q, sub(sub(N, 1), y)), le(0, y)))
                last = sub(sub(N, 1), rev)
                r = None
                for cc, v in reversed(generic):
                    vv = sub_q(v, q, last)
                    r = vv if r is None else ite(sub_q(cc, q, last), vv, r)
                return ite(anyc, r, o0)
            raise NotSummarizable('conditional store')
        if not vals:
            return o0
        r = o0
        # later iterations win
        done = []
        for n, (c, v, x) in enumerate(vals):
            win = And(*[Or(Not(c2), lt(x2, x) if n > m else le(x2, x)) if not same_term(x, x2) or True else True for m, (c2, v2, x2) in enumerate(vals) if m != n])
            if len(vals) == 1:
                win = True
            r = ite(And(c, win), v, r)
        return r
    if kind in ('add', 'max', 'min'):
        r = o0
        if kind == 'min':
            raise NotSummarizable('minimum')
        if kind == 'add':
            contrib = split_ites(contrib)
        for c, v in contrib:
            inv = find_inverse(c, q)
            if inv is not None:
                cc = And(dt(inv), sub_q(c, q, inv))
                vv = sub_q(v, q, inv)
                if kind == 'add':
                    r = add(r, ite(cc, vv, ZERO if sort == 'real' else 0))
                else:
                    r = ite(cc, mx(r, vv), r)
                continue
            x = R.idx('b')
            if kind == 'max':
                vq = v
                if not I.known(Implies(And(dom.pred(q), c), ge(vq, 0))) and not I.known(ge(o0, 0)):
                    raise NotSummarizable('maximum of possibly negative values')
                r = mx_sym(r, foldq('max', [x], And(dt(x), sub_q(c, q, x)), sub_q(v, q, x)))
            elif sort == 'int':
                if is_const(v) and v == 1 and dom.counted:
                    t = R.idx('t')
                    e = mkfold('count', [x], True, And(le(0, x), lt(x, t), sub_q(And(*strip_bound(dom, c)), q, x), dom_extra(dom, x)))
                    r = add(r, sub_q(e, t, dom.n if bound is None else bound))
                elif is_const(v) and v == 1:
                    r = add(r, foldq('count', [x], True, And(dt(x), sub_q(c, q, x))))
                else:
                    r = add(r, foldq('isum', [x], And(dt(x), sub_q(c, q, x)), sub_q(v, q, x)))
            else:
                r = add(r, foldq('sum', [x], And(dt(x), sub_q(c, q, x)), sub_q(v, q, x)))
        return r
    raise NotSummarizable(kind)


def split_ites(contrib):
    out = []
    for c, v in contrib:
        if isz(v) and z3.is_app_of(v, z3.Z3_OP_ITE):
            g, a, b = v.children()
            out += split_ites([(And(c, g), norm_const(a)), (And(c, Not(g)), norm_const(b))])
        elif is_const(v) and v == 0:
            continue
        else:
            out.append((c, v))
    return out


def strip_bound(dom, c):
    return conj(c)


def dom_extra(dom, x):
    return True


def subterms(e):
    out = []
    st = [e]
    while st:
        x = st.pop()
        out.append(x)
        st += x.children()
    return out


def same_term(a, b):
    d = T.simp(sub(a, b))
    return is_const(d) and d == 0


def mx_sym(a, b):
    if is_const(a) and a == 0:
        return b          # maxima are nonnegative
    return mx(a, b)


# --- entry point --------------------------------------------------------------------------------------------------

def loop_decls(n):
    ids = set()
    if n.kind == 'ForStmt' and n.inner and n.inner[0].kind == 'DeclStmt':
        for d in n.inner[0].inner:
            ids.add(d.id)
    return ids


def iter_var(I, cond):
    """`it` of a loop over the entries of a matrix"""
    x = cond
    while x is not None and x.kind in ('ImplicitCastExpr', 'ExprWithCleanups', 'ParenExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr'):
        x = x.inner[0]
    if x is not None and x.kind == 'CXXMemberCallExpr' and x.inner[0].name == 'operator bool':
        y = x.inner[0].inner[0]
        while y.kind in ('ImplicitCastExpr', 'ParenExpr'):
            y = y.inner[0]
        if y.kind == 'DeclRefExpr':
            vid = y.ref().get('id')
            v = I.st.vars.get(vid)
            if isinstance(v, InnerItInit):
                return vid
    return None


def run(I, n, cond, inc, body, dowhile=False):
    I.nloops += 1
    vid = iter_var(I, cond) if cond is not None and not dowhile else None
    if vid is None and unroll(I, n, cond, inc, body, dowhile):
        return
    snap = snapshot(I)
    if not dowhile:
        try:
            if vid is not None:
                return entries(I, n, vid, cond, inc, body, snap)
            return counted(I, n, cond, inc, body, snap)
        except NotSummarizable as ex:
            restore(I, snap)
            I.last_reason = f'{ex} at {I.u.where(n)}'
            if vid is not None:
                raise Unsupported(f'loop over entries: {ex} at {I.u.where(n)}')
    try:
        general(I, n, cond, inc, body, dowhile, snap)
    except NotSummarizable as ex:
        raise Unsupported(f'loop: {ex} at {I.u.where(n)}')


def unroll(I, n, cond, inc, body, dowhile, limit=64):
    snap = snapshot(I)
    wl = len(I.wlog) if I.wlog is not None else 0
    brks = []
    k = 0
    first = True
    if dowhile:
        return False
    while True:
        if cond is not None:
            c = I.boolean(I.ev(cond))
            c2 = T.simp(c) if isz(c) else c
            if not isinstance(c2, bool):
                restore(I, snap)
                if I.wlog is not None:
                    del I.wlog[wl:]
                return False
            if not c2:
                break
        elif k > 0 and I.st is None:
            break
        if k >= limit:
            restore(I, snap)
            if I.wlog is not None:
                del I.wlog[wl:]
            return False
        ls = LoopScope()
        I.loops.append(ls)
        try:
            I.exec(body)
        finally:
            I.loops.pop()
        brks += ls.brk
        I.st = merge_all([s for s in ls.cont + [I.st] if s is not None and not s.dead()])
        if I.st is None:
            break
        if inc is not None:
            I.ev(inc)
        k += 1
    outs = ([I.st] if I.st is not None else []) + [b for b in brks if not b.dead()]
    I.st = merge_all(outs)
    return True


def setup(I, keys, vars0, base):
    """replace the leaves by placeholders; -> list of Leaf"""
    leaves = []
    for var, path in keys:
        x = get_at(vars0[var], path)
        if isinstance(x, (Unknown, LRef, RefW, Lam, PyFun, Ptr, EntryIt, InnerItInit)):
            continue
        L = Leaf(var, path, x)
        q = I.qstack
        if L.kind == 's':
            L.ph = I.fresh(L.sort, base)
            L.phval = L.ph
        else:
            name = R.fresh(base)
            L.uf = z3.Function(name, *([z3.IntSort()] * 2 + [sorts(L.sort)]))
            L.ufs = z3.Function(name + '.st', z3.IntSort(), z3.IntSort(), z3.BoolSort()) if x.sparse else None
            uf, ufs = L.uf, L.ufs
            st = (lambda i, j, g=ufs: g(z(i), z(j))) if x.sparse else None
            L.phval = Mat(x.rows, x.cols, (lambda i, j, g=uf: g(z(i), z(j))), st=st, major=x.major, comp=z3.Bool(name + '.comp') if x.comp is not None else None, vec=x.vec, sort=x.sort)
            L.phval.node = ('ph',)
            if x.sparse:
                h = lambda i, j, g=uf, s=ufs: ite(s(z(i), z(j)), g(z(i), z(j)), ZERO)
                L.phval.fn = (lambda i, j, g=uf: g(z(i), z(j)))
        leaves.append(L)
        I.st.vars[var] = set_at(I.st.vars[var], path, L.phval)
    return leaves


def counted(I, n, cond, inc, body, snap):
    if cond is None:
        raise NotSummarizable('no loop condition')
    keys = discover(I, snap, cond, body, inc, False, lambda: None)
    restore(I, snap)
    vars0 = dict(I.st.vars)
    # find counters
    I.quiet += 1
    q = R.idx('q')
    I.qstack.append(q)
    try:
        leaves = setup(I, keys, vars0, 'ph')
        try:
            c, fall, brk, rets = one_iter(I, cond, body, inc)
        except Dead:
            raise NotSummarizable('body never completes')
        counters = {}
        if fall is None:
            raise NotSummarizable('body never completes')
        for L in leaves:
            if L.kind == 's' and L.sort == 'int':
                x = get_at(fall.vars[L.var], L.path)
                if isz(x) or is_const(x):
                    d = T.simp(sub(x, L.ph))
                    if is_const(d) and d != 0:
                        counters[L.key()] = d
        if not counters:
            raise NotSummarizable('no counter')
    finally:
        I.quiet -= 1
        I.qstack.pop()
    restore(I, snap)
    I.qstack.append(q)
    try:
        leaves = setup(I, [k for k in keys if k not in counters], vars0, 'ph')
        cl = {}
        for (var, path), d in counters.items():
            x0 = get_at(vars0[var], path)
            I.st.vars[var] = set_at(I.st.vars[var], path, add(x0, mul(d, q)))
            cl[(var, path)] = (x0, d)
        I.st.assume(z(0) <= q)
        pre_path = len(I.st.path)
        no, nf = len(I.obls), len(I.facts)
        save, I.wlog = I.wlog, []
        try:
            c, fall, brk, rets = one_iter(I, cond, body, inc)
        finally:
            I.wlog = save
        if fall is None:
            raise NotSummarizable('body never completes')
        obls = I.obls[no:]
        facts = I.facts[nf:]
        del I.obls[no:]
        del I.facts[nf:]
    finally:
        I.qstack.pop()
    # trip count
    phn = {L.ph.decl().name() for L in leaves if L.kind == 's'} | {L.uf.name() for L in leaves if L.kind == 'm'}
    N = None
    extra = []
    for e in conj(c):
        if N is None and isz(e) and not (decls_of(e) & phn):
            t = trip(I, e, q, snap)
            if t is not None:
                N = t
                continue
        extra.append(e)
    if N is None:
        raise NotSummarizable('trip count')
    nn = T.simp(N)
    N = nn if is_const(nn) else N
    flag = None
    if extra:
        if len(extra) != 1 or brk or rets:
            raise NotSummarizable('loop condition')
        e = extra[0]
        for L in leaves:
            if L.kind == 's' and L.sort == 'bool' and isz(e):
                if e.eq(L.ph):
                    flag = (L, True)
                elif z3.is_not(e) and e.arg(0).eq(L.ph):
                    flag = (L, False)
        if flag is None:
            # leave when the condition fails: a break at the head of the iteration
            raise NotSummarizable('loop condition')
        if len(leaves) > 1:
            raise NotSummarizable('early exit with other updates')
    dom = Dom(q, lambda x: And(le(0, x), lt(x, N)), True, N)
    finish(I, n, dom, leaves, cl, fall, brk, rets, obls, facts, snap, vars0, flag, loop_decls(n), cond)


def trip(I, e, q, snap):
    neg_ = False
    if z3.is_not(e):
        e = e.arg(0)
        neg_ = True
    k = e.decl().kind()
    if k not in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
        return None
    if e.num_args() != 2 or not z3.is_int(e.arg(0)):
        return None
    a, b = e.children()
    if k == z3.Z3_OP_DISTINCT:
        k = z3.Z3_OP_EQ
        neg_ = not neg_
    if k == z3.Z3_OP_EQ:
        if not neg_:
            return None
        L = lin(sub(a, b), q)
        if L is None or L[0] not in (1, -1) or has(L[1], q):
            return None
        N = neg(L[1]) if L[0] == 1 else L[1]
        if is_const(N):
            return N if N >= 0 else None
        st = I.st
        I.st = snap[0].copy()
        ok = I.known(ge(N, 0))
        I.st = st
        return N if ok else None
    strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
    if k in (z3.Z3_OP_GT, z3.Z3_OP_GE):
        a, b = b, a
    # a < b or a <= b, possibly negated
    if neg_:
        a, b = b, a
        strict = not strict
    L = lin(sub(a, b), q)
    if L is None or L[0] <= 0 or has(L[1], q):
        return None
    hi = neg(L[1]) if strict else add(neg(L[1]), 1)
    if L[0] == 1:
        return hi
    return idiv(add(hi, L[0] - 1), L[0])


def entries(I, n, vid, cond, inc, body, snap):
    it = I.st.vars[vid]
    q = R.idx('q')
    m = it.mat
    if m.major == 'row' or (m.major is None and isinstance(m.cols, int) is False and False):
        r, c = it.outer, q
        ext = m.cols
    else:
        r, c = q, it.outer
        ext = m.rows
    if m.major is None and is_const(m.rows) and m.rows == 1 and not (is_const(m.cols) and m.cols == 1):
        r, c, ext = it.outer, q, m.cols

    def stored(x):
        return m.stored(x, it.outer) if r is q else m.stored(it.outer, x)

    def pred(x):
        return And(le(0, x), lt(x, ext), stored(x))

    def prep():
        I.st.vars[vid] = EntryIt(m, it.matref, r, c)
        for p in conj(And(z(0) <= q, lt(q, ext), stored(q))):
            I.st.assume(p)
    I.qstack.append(q)
    try:
        keys = discover(I, snap, cond, body, inc, True, prep)
    finally:
        I.qstack.pop()
    keys = [k for k in keys if k[0] != vid]
    restore(I, snap)
    vars0 = dict(I.st.vars)
    I.qstack.append(q)
    try:
        leaves = setup(I, keys, vars0, 'ph')
        prep()
        no, nf = len(I.obls), len(I.facts)
        save, I.wlog = I.wlog, []
        try:
            c_, fall, brk, rets = one_iter(I, cond, body, inc, skip=True)
        finally:
            I.wlog = save
        if fall is None:
            raise NotSummarizable('body never completes')
        e = fall.vars.get(vid)
        if not (isinstance(e, EntryIt) and e.row is None):
            raise NotSummarizable('iterator not advanced exactly once')
        obls = I.obls[no:]
        facts = I.facts[nf:]
        del I.obls[no:]
        del I.facts[nf:]
    finally:
        I.qstack.pop()
    dom = Dom(q, pred, False, ext)
    finish(I, n, dom, leaves, {}, fall, brk, rets, obls, facts, snap, vars0, None, loop_decls(n) | {vid}, None)


def finish(I, n, dom, leaves, counters, fall, brk, rets, obls, facts, snap, vars0, flag, dead, cond):
    q = dom.q
    phs = {}
    for L in leaves:
        if L.kind == 's':
            phs[L.ph.decl().name()] = (L, 's')
        else:
            phs[L.uf.name()] = (L, 'm')
            if L.ufs is not None:
                phs[L.ufs.name()] = (L, 'st')
    items = []
    for L in leaves:
        x = get_at(fall.vars[L.var], L.path)
        x = resolve(x, fall.lits) if isinstance(x, Mat) else x
        if L.kind == 's':
            if isinstance(x, (Unknown,)):
                raise NotSummarizable('unknown value')
            if L.sort == 'real' and not isinstance(x, Ext):
                x = to_real(x)
            if isz(x):
                x = z3.substitute(x, (L.ph, OLD[L.sort]))
            items.append((L, 's', x, L.sort))
        else:
            if not (isinstance(x, Mat) and same_dims(x, L.phval)):
                raise NotSummarizable('size changes in a loop')
            L.new = x
            e = pointwise(x, L.phval, L.uf, OLD[L.sort])
            if not isinstance(e, Ext) and L.sort == 'real':
                e = to_real(e)
            items.append((L, 'm', e, L.sort))
            if L.ufs is not None:
                items.append((L, 'st', pointwise_st(x, L.phval, L.ufs, OLD['bool']), 'bool'))
    resolved = {}     # name -> function(bound) giving replacement
    solved = {}

    def close_over(e, bound):
        """substitute the placeholders by their values after the iterations below bound"""
        if isinstance(e, Ext):
            return mkext(close_over(e.k, bound), close_over(e.v, bound))
        if not isz(e):
            return e
        for _ in range(6):
            names = decls_of(e) & set(phs)
            if not names:
                return e
            for nm in names:
                if nm not in resolved:
                    raise NotSummarizable('dependent recurrences')
                L, kd = phs[nm]
                f = resolved[nm]
                if kd == 's':
                    e = T.subst(e, [(L.ph, f(bound))])
                    if not isz(e):
                        return e
                else:
                    uf = L.uf if kd == 'm' else L.ufs
                    e = rebuild_apps(e, uf, lambda a, b: f(bound, a, b))
                    e = norm_const(e)
                    if not isz(e):
                        return e
        raise NotSummarizable('dependent recurrences')

    todo = list(items)
    while todo:
        progress = False
        for it in list(todo):
            L, kd, e, sort = it
            nm = L.ph.decl().name() if kd == 's' else (L.uf.name() if kd == 'm' else L.ufs.name())
            dep = (decls_of(e) if isz(e) or isinstance(e, Ext) else frozenset()) & set(phs)
            if any(d not in resolved for d in dep):
                continue
            e2 = close_over(e, q)
            kind, contrib = parse(e2, OLD[sort])
            contrib = [(c, v) for c, v in contrib if not (isinstance(c, bool) and not c)]
            if kd == 's':
                o0 = L.init

                def f(bound, o0=o0, kind=kind, contrib=contrib, sort=sort):
                    return closed_form(I, o0, kind, contrib, dom, sort, bound)
                resolved[nm] = f
            else:
                m0 = L.init
                g0 = (lambda: m0.at(I_, J_)) if kd == 'm' else (lambda: m0.stored(I_, J_))

                def f(bound, a, b, o=m0, kd=kd, kind=kind, contrib=contrib, sort=sort):
                    o0 = o.at(I_, J_) if kd == 'm' else o.stored(I_, J_)
                    e = closed_form(I, o0, kind, contrib, dom, sort, bound)
                    return T.subst(e, [(I_, a), (J_, b)]) if (isz(e) or isinstance(e, Ext)) else e
                resolved[nm] = f
            solved[nm] = (kind, contrib)
            todo.remove(it)
            progress = True
        if not progress:
            raise NotSummarizable('dependent recurrences')
    if flag is not None:
        L, pos = flag
        kind, contrib = solved[L.ph.decl().name()]
        if kind not in ('same', 'and' if pos else 'or', 'set'):
            raise NotSummarizable('early exit flag')
        if kind == 'set':
            # leaving at the first iteration that clears the flag: same as conjunction
            if len(contrib) != 1 or contrib[0][0] is not True:
                # conditional constant
                ok = all(is_const(v) and v == (not pos) for _, v in contrib)
                if not ok:
                    raise NotSummarizable('early exit flag')
            else:
                v = contrib[0][1]
                resolved[L.ph.decl().name()] = lambda bound, v=v, o0=L.init: closed_form(I, o0, 'and' if pos else 'or', [(True, v)], dom, 'bool', bound)

    def final_state(base, at=None, src=None):
        """state after all iterations (at None), or in the middle of iteration `at` (src: state of that iteration)"""
        st = snap[0].copy()
        for L in leaves:
            if src is None:
                if L.kind == 's':
                    v = resolved[L.ph.decl().name()](None)
                else:
                    v = mat_closed(L, lambda a, b: resolved[L.uf.name()](None, a, b),
                                   (lambda a, b: resolved[L.ufs.name()](None, a, b)) if L.ufs is not None else None, L.new)
            else:
                x = get_at(src.vars[L.var], L.path)
                if L.kind == 's':
                    if isinstance(x, Unknown):
                        v = x
                    else:
                        v = T.subst(close_over(x, q), [(q, at)]) if not is_const(x) else x
                else:
                    if not same_dims(x, L.phval):
                        raise NotSummarizable('size changes in a loop')

                    def g(a, b, x=x):
                        return T.subst(close_over(x.at(a, b), q), [(q, at)]) if not is_const(x.at(a, b)) else x.at(a, b)
                    gs = None
                    if x.sparse:
                        gs = lambda a, b, x=x: T.subst(close_over(x.stored(a, b), q), [(q, at)]) if not is_const(x.stored(a, b)) else x.stored(a, b)
                    v = mat_closed(L, g, gs, x)
            st.vars[L.var] = set_at(st.vars[L.var], L.path, v)
        return st

    def mat_closed(L, g, gs, new):
        m0 = L.init
        comp = m0.comp
        if m0.comp is not None and not (isz(new.comp) and new.comp.eq(L.phval.comp)):
            comp = I.fresh('bool', 'comp')
        tmpl = g(I_, J_)
        ts = gs(I_, J_) if gs is not None else None

        def fn(i, j):
            return T.subst(tmpl, [(I_, i), (J_, j)]) if not is_const(tmpl) else tmpl
        fs = None
        if gs is not None:
            fs = lambda i, j: T.subst(ts, [(I_, i), (J_, j)]) if not is_const(ts) else ts
        return Mat(m0.rows, m0.cols, fn, st=fs, major=m0.major, comp=comp, vec=m0.vec, sort=m0.sort)

    # obligations and facts of the body hold for every iteration
    def post(e):
        try:
            return close_over(e, q)
        except NotSummarizable:
            return e
    domp = [le(0, q), dom.pred(q)]
    for o in obls:
        o.path = tuple(zb(post(p)) for p in o.path) + tuple(zb(d) for d in domp if not (isinstance(d, bool)))
        o.goal = post(o.goal)
        I.obls.append(o)
    for g, f in facts:
        g2 = tuple(zb(post(p)) for p in g)
        if isinstance(f, Forall):
            b = post(f.body)
            rel = [x for x in g2]
            vs = list(f.vars)
            extra = [x for x in rel if has(x, q)]
            if extra or has(b, q):
                if not any(v.eq(q) for v in vs):
                    vs.append(q)
                I.facts.append((tuple(x for x in rel if not has(x, q)), Forall(vs, Implies(And(*extra), b), f.name)))
            else:
                I.facts.append((g2, Forall(vs, b, f.name)))
        else:
            b = post(f)
            if has(b, q) or any(has(x, q) for x in g2):
                extra = [x for x in g2 if has(x, q)]
                I.facts.append((tuple(x for x in g2 if not has(x, q)), Forall([q], Implies(And(dom.pred(q), *extra), b))))
            else:
                I.facts.append((g2, b))
    restore_keep(I, snap)
    exits = []
    total = final_state(None)
    # counters
    if dom.counted:
        nn = dom.n
        if not is_const(nn):
            I.st = snap[0].copy()
            if not I.known(ge(nn, 0)):
                nn = mx(nn, 0)
        else:
            nn = max(nn, 0)
        for (var, path), (x0, d) in counters.items():
            v = add(x0, mul(d, nn))
            if flag is not None:
                if var in dead:
                    v = I.fresh('int', 'exit')
                else:
                    raise NotSummarizable('counter after early exit')
            total.vars[var] = set_at(total.vars[var], path, v)
    I.loop_log.append(dict(node=n, kind='closed', leaves=[(L.var, L.path) for L in leaves], dom=dom))
    if not brk and not rets:
        I.st = total
        if cond is not None and cond_effects(I, cond):
            I.quiet += 1
            I.ev(cond)
            I.quiet -= 1
        return
    base_len = len(snap[0].path)

    def rel(s):
        ps = [p for p in s.path[base_len:]]
        e = And(*ps)
        return close_over(e, q)
    xs = [(s, rel(s), None) for s in brk] + [(s, rel(s), v) for s, v in rets]
    X = Or(*[And(*[c for c in [x[1]]]) for x in xs])
    b = R.idx('b')
    anyx = foldq('any', [b], dom.pred(b), sub_q(X, q, b))
    b2 = R.idx('b')
    if not dom.counted and (has(X, q) or True):
        # the order of the entries matters only for which one is first
        pass
    first = mkfold('first', [b2], True, And(dom.pred(b2), sub_q(X, q, b2)))
    total.assume(Not(anyx)) if not isinstance(anyx, bool) else (total.assume(Not(anyx)))
    outs = []
    if not total.dead():
        outs.append(total)
    for s, c, v in xs:
        st = final_state(None, first, s)
        for (var, path), (x0, d) in counters.items():
            st.vars[var] = set_at(st.vars[var], path, T.subst(get_at(s.vars[var], path), [(q, first)]))
        st.assume(anyx)
        cc = sub_q(c, q, first)
        st.assume(cc)
        if st.dead():
            continue
        if s in [r[0] for r in rets]:
            rv = v
            if isz(v) or isinstance(v, Ext):
                rv = T.subst(close_over(v, q), [(q, first)])
            elif isinstance(v, Opt) and (isz(v.val) or is_const(v.val)):
                rv = Opt(sub_q(close_over(v.has, q), q, first), sub_q(close_over(v.val, q), q, first))
            elif isinstance(v, (Mat, Struct, Vec)):
                raise NotSummarizable('object returned from a loop')
            I.fn[-1].rets.append((st, rv))
        else:
            outs.append(st)
    I.st = merge_all(outs)


def cond_effects(I, cond):
    for x in cond.walk():
        if x.kind == 'UnaryOperator' and x.op in ('++', '--'):
            return True
        if x.kind in ('CompoundAssignOperator',) or (x.kind == 'BinaryOperator' and x.op == '='):
            return True
    return False


def same_dims(a, b):
    def s(x, y):
        if is_const(x) and is_const(y):
            return x == y
        d = T.simp(sub(x, y))
        return is_const(d) and d == 0
    return s(a.rows, b.rows) and s(a.cols, b.cols)


def restore_keep(I, snap):
    I.st = snap[0].copy()


# --- general loops ------------------------------------------------------------------------------------------------

def general(I, n, cond, inc, body, dowhile, snap):
    keys = discover(I, snap, cond if not dowhile else None, body, inc, False, lambda: None)
    restore(I, snap)
    # the condition of a do-while loop may modify state as well
    vars0 = dict(I.st.vars)
    leaves = []
    hv = {}
    kk = z3.Int(R.fresh('iters'))
    I.facts.append(((), kk >= 0))

    def havoc():
        for var, path in keys:
            x = get_at(vars0[var], path)
            if isinstance(x, (LRef, RefW, Lam, PyFun, Ptr, EntryIt, InnerItInit)):
                continue
            nm = I.names.get(var, var)
            p = '.'.join(q[1] if q[0] == 'f' else q[0] for q in path)
            L = Leaf(var, path, x)
            if (var, path) in counters:
                L.val = add(x, mul(counters[(var, path)], kk))
            elif L.kind == 's' and isinstance(x, (Unknown, Void)):
                L.val = x
            else:
                L.val = placeholder(I, x, f'hv.{nm}.{p}')
            if not any(l.var == var and l.path == path for l in leaves):
                leaves.append(L)
            hv[(var, path)] = L.val
            I.st.vars[var] = set_at(I.st.vars[var], path, L.val)
        # optionals that are empty on entry but set in the loop
        for var, path in keys:
            if path and path[-1] == ('has',):
                o = get_at(vars0[var], path[:-1])
                if o.val is UNK or o.val is None:
                    pass
    counters = {}
    # counters
    I.quiet += 1
    try:
        havoc()
        pre = dict(hv)
        sv = I.st
        try:
            c, fall, brk, rets = one_iter(I, cond if not dowhile else None, body, inc)
        except Dead:
            fall = None
        if fall is not None:
            for (var, path), v in pre.items():
                if is_int(v) and isz(v):
                    x = get_at(fall.vars[var], path)
                    if is_int(x):
                        d = T.simp(sub(x, v))
                        if is_const(d) and d != 0:
                            counters[(var, path)] = d
                        elif cond is not None and dowhile:
                            pass
        # counters advanced by the condition of a do-while loop
        if dowhile and fall is not None and cond is not None:
            I.st = fall
            I.boolean(I.ev(cond))
            for (var, path), v in pre.items():
                if is_int(v) and isz(v):
                    x = get_at(I.st.vars[var], path)
                    d = T.simp(sub(x, v))
                    if is_const(d) and d != 0:
                        counters[(var, path)] = d
    finally:
        I.quiet -= 1
    extra_keys = []
    if dowhile and cond is not None:
        save, I.wlog = I.wlog, []
        restore(I, snap)
        I.quiet += 1
        I.boolean(I.ev(cond))
        I.quiet -= 1
        for var, path in I.wlog:
            if (var, tuple(path)) not in keys:
                for p, x in flatten(get_at(vars0[var], path), tuple(path)):
                    keys.append((var, p))
        I.wlog = save
        restore(I, snap)
        # counters again
        leaves.clear()
        hv.clear()
        counters.clear()
        I.quiet += 1
        havoc()
        pre = dict(hv)
        c, fall, brk, rets = one_iter(I, None, body, inc)
        I.st = fall
        I.boolean(I.ev(cond))
        for (var, path), v in pre.items():
            if is_int(v) and isz(v):
                d = T.simp(sub(get_at(I.st.vars[var], path), v))
                if is_const(d) and d != 0:
                    counters[(var, path)] = d
        I.quiet -= 1
    restore(I, snap)
    I.facts.append(((), kk >= 0))
    hv.clear()
    leaves.clear()
    havoc()
    hvars = dict(I.st.vars)
    # candidates
    cands = candidates(I, leaves, n, cond, snap, kk)
    # on entry
    def holds(st, c, get):
        f = c(get)
        if f is None:
            return False
        s0 = I.st
        I.st = st
        ok = True
        P = Prover(I.facts)
        for g in (f if isinstance(f, list) else [f]):
            g, vs = g if isinstance(g, tuple) else (g, [])
            r, _ = P.prove(g, st.path, timeout=4000, rounds=3, fast=True)
            if r != 'proved':
                ok = False
                break
        I.st = s0
        return ok

    def getter(vars_):
        return lambda L: get_at(vars_[L.var], L.path)
    entry = snap[0].copy()
    cands = [c for c in cands if holds(entry, c, getter(vars0))]
    nobl, nfact = len(I.obls), len(I.facts)
    for rnd in range(6):
        del I.facts[nfact:]
        del I.obls[nobl:]
        I.st = State(dict(hvars), snap[0].path, snap[0].lits)
        assume_all(I, cands, getter(hvars))
        I.quiet += 1
        try:
            c, fall, brk, rets = one_iter(I, cond if not dowhile else None, body, inc)
            back = fall
            if dowhile and fall is not None:
                I.st = fall.copy()
                cc = I.boolean(I.ev(cond))
                back = I.st.assume(cc)
        finally:
            I.quiet -= 1
        if back is None:
            break
        g2 = getter(back.vars)
        keep = [x for x in cands if holds(back, x, g2)]
        if len(keep) == len(cands):
            break
        cands = keep
    else:
        raise NotSummarizable('invariants')
    # final run with the obligations
    del I.facts[nfact:]
    del I.obls[nobl:]
    I.st = State(dict(hvars), snap[0].path, snap[0].lits)
    assume_all(I, cands, getter(hvars))
    pre_state = I.st.copy()
    entered = z3.Bool(R.fresh('entered'))
    save, I.wlog = I.wlog, []
    try:
        c, fall, brk, rets = one_iter(I, cond if not dowhile else None, body, inc)
    finally:
        I.wlog = save
    # sizes must be preserved
    for s in [fall] + brk + [r[0] for r in rets]:
        if s is None:
            continue
        for L in leaves:
            if L.kind == 'm':
                x = get_at(s.vars[L.var], L.path)
                if isinstance(x, Mat) and not same_dims(x, L.init):
                    P = Prover(I.facts)
                    if P.prove(And(eq(x.rows, L.init.rows), eq(x.cols, L.init.cols)), s.path, timeout=3000, rounds=2, fast=True)[0] != 'proved':
                        raise NotSummarizable(f'size of {L.path} changes in a loop')
    outs = []
    log = dict(node=n, kind='general', pre=pre_state, post=fall.copy() if fall is not None else None, cond=c, init=snap[0].copy(), invariants=[getattr(x, 'name', '?') for x in cands], iters=kk, leaves=leaves, where=I.u.where(n))
    I.loop_log.append(log)
    if fall is not None:
        I.st = fall.copy()
        c2 = I.boolean(I.ev(cond)) if cond is not None else True
        if not (isinstance(c2, bool) and c2):
            I.st.assume(entered)
            I.st.assume(Not(c2))
            if not I.st.dead():
                outs.append(I.st)
    for b in brk:
        b.assume(entered)
        outs.append(b)
    if not dowhile:
        I.st = snap[0].copy()
        c0 = I.boolean(I.ev(cond)) if cond is not None else True
        if not (isinstance(c0, bool) and c0):
            I.st.assume(z3.Not(entered))
            I.st.assume(Not(c0))
            if not I.st.dead():
                outs.append(I.st)
        log['entered'] = entered
    for s, v in rets:
        I.fn[-1].rets.append((s, v))
    I.st = merge_all([o for o in outs if not o.dead()])
    if I.st is None and not rets:
        raise Unsupported('loop without exit')


def assume_all(I, cands, get):
    for c in cands:
        f = c(get)
        for g in (f if isinstance(f, list) else [f]):
            g, vs = g if isinstance(g, tuple) else (g, [])
            if vs:
                I.facts.append((I.st.path, Forall(vs, g)))
            else:
                I.st.assume(zb(g)) if not isinstance(g, bool) else None


def candidates(I, leaves, n, cond, snap, kk):
    out = []

    def mk(name, f):
        f.name = name
        out.append(f)
    for L in leaves:
        nm = I.names.get(L.var, L.var) + '.' + '.'.join(p[1] if p[0] == 'f' else p[0] for p in L.path)
        if L.kind == 'm' and L.sort == 'real':
            i = z3.Int('!inv.i')
            j = 0 if L.init.vec is True else z3.Int('!inv.j')
            vs = [i] if L.init.vec is True else [i, j]

            def pos(get, L=L, i=i, j=j, vs=vs):
                m = get(L)
                e = m.at(i, j)
                return None if isinstance(e, Ext) else (Implies(m.inb(i, j), gt(e, 0)), vs)

            def nonneg(get, L=L, i=i, j=j, vs=vs):
                m = get(L)
                e = m.at(i, j)
                return None if isinstance(e, Ext) else (Implies(m.inb(i, j), ge(e, 0)), vs)
            if not L.init.sparse:
                mk(nm + '>0', pos)
                mk(nm + '>=0', nonneg)
        elif L.kind == 's' and isz(L.val) and not isinstance(L.init, Unknown):
            if L.sort in ('real', 'int'):
                mk(nm + '>0', lambda get, L=L: gt(get(L), 0) if not isinstance(get(L), (Ext, Unknown)) else None)
                mk(nm + '>=0', lambda get, L=L: ge(get(L), 0) if not isinstance(get(L), (Ext, Unknown)) else None)
                mk(nm + '>=init', lambda get, L=L: ge(get(L), L.init) if not isinstance(get(L), (Ext, Unknown)) and not isinstance(L.init, Ext) else None)
                mk(nm + '<=init', lambda get, L=L: le(get(L), L.init) if not isinstance(get(L), (Ext, Unknown)) and not isinstance(L.init, Ext) else None)
            mk(nm + '==init', lambda get, L=L: eq(get(L), L.init) if not isinstance(get(L), (Ext, Unknown)) and not isinstance(L.init, Ext) else None)
    # value of counters against loop-invariant bounds in a '!=' guard
    for h in getattr(I, 'inv_hints', ()):
        for f in h(I, leaves, snap, n):
            out.append(f)
    return out


# --- range-based for ----------------------------------------------------------------------------------------------

def run_range(I, n):
    raise Unsupported(f'range-based for at {I.u.where(n)}')
