"""Discharging obligations: ground instantiation of facts and of the defining properties of folds and opaque
operations, then z3 (and cvc5 as a second back end)."""
import time, subprocess, tempfile, os
import z3
from .terms import *
from . import terms as T


class Forall:
    """for all index variables vars: body   (ground instances are generated from terms occurring in the obligation)"""
    def __init__(self, vars, body, name=''):
        self.vars = vars
        self.body = zb(body) if not isz(body) else body
        self.name = name
        self.trigs = None
        self.closed = frozenset(v.get_id() for v in vars)

    def triggers(self):
        if self.trigs is not None:
            return self.trigs
        apps = {}
        vid = {v.get_id() for v in self.vars}

        def rec(e):
            if not z3.is_app(e):
                return
            if e.num_args() > 0:
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    vs = {c.get_id() for c in consts_of(e)} & vid
                    if vs:
                        apps.setdefault(e.get_id(), (e, vs))
                for c in e.children():
                    rec(c)
        rec(self.body)
        full = [e for e, vs in apps.values() if vs == vid and all_simple(e, vid)]
        full.sort(key=lambda e: (e.num_args(), str(e.decl())))
        if full:
            self.trigs = [[e] for e in full[:6]]
        else:
            # greedy multi-trigger
            sel, cov = [], set()
            for e, vs in sorted(apps.values(), key=lambda p: -len(p[1])):
                if vs - cov and all_simple(e, vid):
                    sel.append(e)
                    cov |= vs
                if cov == vid:
                    break
            self.trigs = [sel] if cov == vid else []
        return self.trigs


def all_simple(e, vid):
    return True


def lin(e, var):
    """e == c*var + rest  -> (c, rest) or None"""
    if not isz(e):
        return (0, e)
    if e.eq(var):
        return (1, 0)
    if var.get_id() not in {c.get_id() for c in consts_of(e)}:
        return (0, e)
    k = e.decl().kind()
    if k == z3.Z3_OP_ADD:
        c, r = 0, 0
        for a in e.children():
            p = lin(a, var)
            if p is None:
                return None
            c += p[0]
            r = add(r, p[1])
        return (c, r)
    if k == z3.Z3_OP_SUB:
        p = lin(e.arg(0), var)
        if p is None:
            return None
        c, r = p
        for a in e.children()[1:]:
            p = lin(a, var)
            if p is None:
                return None
            c -= p[0]
            r = sub(r, p[1])
        return (c, r)
    if k == z3.Z3_OP_UMINUS:
        p = lin(e.arg(0), var)
        return None if p is None else (-p[0], neg(p[1]))
    if k == z3.Z3_OP_MUL and e.num_args() == 2:
        for a, b in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
            if z3.is_int_value(a):
                p = lin(b, var)
                return None if p is None else (p[0] * a.as_long(), mul(a.as_long(), p[1]))
    return None


def match(pat, term, vids, bind):
    """pattern application against ground application of the same declaration"""
    b = dict(bind)
    for p, t in zip(pat.children(), term.children()):
        vs = [c for c in consts_of(p) if c.get_id() in vids]
        if not vs:
            if not p.eq(t):
                # indices that are not syntactically equal may still be equal: do not block on constants
                return None
            continue
        if len(vs) > 1:
            return None
        v = vs[0]
        L = lin(p, v)
        if L is None or L[0] not in (1, -1):
            return None
        val = sub(t, L[1]) if L[0] == 1 else sub(L[1], t)
        val = T.simp(val)
        val = z(val)
        o = b.get(v.get_id())
        if o is None:
            b[v.get_id()] = val
        elif not o.eq(val):
            return None
    return b


def uf_apps(es, acc, seen, ints):
    stack = [e for e in es if isz(e)]
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen[i] = e
        if z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.setdefault(e.decl().name(), {})[i] = e
                for a in e.children():
                    if z3.is_int(a) and not z3.is_int_value(a):
                        ints[a.get_id()] = a
            stack.extend(e.children())


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.by = {}
        self.instances = 0


STATS = Stats()
_sk = [0]


def skolem(base, sort='int'):
    _sk[0] += 1
    if sort == 'int':
        return z3.Int(f'!{base}#{_sk[0]}')
    return z3.Bool(f'{base}#{_sk[0]}')


MULR = z3.Function('mul.r', z3.RealSort(), z3.RealSort(), z3.RealSort())
MULI = z3.Function('mul.i', z3.IntSort(), z3.IntSort(), z3.IntSort())
DIVR = z3.Function('div.r', z3.RealSort(), z3.RealSort(), z3.RealSort())


class Abstractor:
    """Nonlinear products become applications of an uninterpreted function with a few valid axioms; a refutation of the
    abstraction is a refutation of the original."""
    def __init__(self):
        self.memo = {}
        self.keep = []
        self.prods = {}
        self.nonlinear = False

    def __call__(self, e):
        e = z3.simplify(e, som=True, som_blowup=12)
        self.new = []
        r = self.go(e)
        return r, self.new

    def num(self, x):
        return z3.is_rational_value(x) or z3.is_int_value(x) or z3.is_algebraic_value(x)

    def prod(self, a, b):
        f = MULR if z3.is_real(a) else MULI
        if a.get_id() > b.get_id():
            a, b = b, a
        m = f(a, b)
        if m.get_id() not in self.prods:
            self.prods[m.get_id()] = m
            zero = z3.RealVal(0) if z3.is_real(a) else z3.IntVal(0)
            self.new += [z3.Implies(z3.Or(a == zero, b == zero), m == zero), z3.Implies(z3.And(a > 0, b > 0), m > 0), z3.Implies(z3.And(a < 0, b < 0), m > 0),
                         z3.Implies(z3.And(a > 0, b < 0), m < 0), z3.Implies(z3.And(a < 0, b > 0), m < 0)]
            if z3.is_int(a):
                self.new += [z3.Implies(z3.And(a >= 1, b >= 1), z3.And(m >= a, m >= b))]
            self.new += [z3.Implies(a == 1, m == b), z3.Implies(b == 1, m == a)]
        return m

    def go(self, e):
        k = e.get_id()
        r = self.memo.get(k)
        if r is not None:
            return r
        if not z3.is_app(e) or e.num_args() == 0:
            r = e
        else:
            cs = [self.go(c) for c in e.children()]
            dk = e.decl().kind()
            if dk == z3.Z3_OP_MUL:
                nums = [c for c in cs if self.num(c)]
                oth = sorted([c for c in cs if not self.num(c)], key=lambda c: c.get_id())
                if len(oth) >= 2:
                    self.nonlinear = True
                    r = oth[0]
                    for c in oth[1:]:
                        r = self.prod(r, c)
                    for c in nums:
                        r = c * r
                else:
                    r = e.decl()(*cs)
            elif dk == z3.Z3_OP_POWER and self.num(cs[1]) and cs[1].as_fraction() == 2:
                self.nonlinear = True
                r = self.prod(cs[0], cs[0])
            elif dk == z3.Z3_OP_DIV and not self.num(cs[1]):
                self.nonlinear = True
                q = DIVR(cs[0], cs[1])
                if q.get_id() not in self.prods:
                    self.prods[q.get_id()] = q
                    m = self.prod(q, cs[1])
                    self.new.append(z3.Implies(cs[1] != 0, m == cs[0]))
                r = q
            elif dk in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and not self.num(cs[1]):
                self.nonlinear = True
                r = e.decl()(*cs)
            elif all(a.eq(b) for a, b in zip(cs, e.children())):
                r = e
            else:
                r = e.decl()(*cs)
        self.memo[k] = r
        self.keep.append((e, r))
        return r


class Prover:
    def __init__(self, facts=()):
        self.facts = list(facts)      # (guard list, formula | Forall)

    # -- axioms of one fold application
    def fold_axioms(self, app, f, wit):
        args = app.children()
        sub1 = list(zip(f.params, args))
        out = []

        def at(e, vals):
            return zb(T.subst(e, sub1 + list(zip(f.bvs, vals))))
        if f.kind == 'max':
            w = [skolem('w') for _ in f.bvs]
            out.append(app >= 0)
            out.append(Or(eq(app, Fraction(0)), And(at(f.dom, w), eq(app, at(f.body, w)))))
        elif f.kind == 'any':
            w = [skolem('w') for _ in f.bvs]
            out.append(Implies(app, at(f.body, w)))
        elif f.kind == 'count':
            out.append(app >= 0)
            w = [skolem('w') for _ in f.bvs]
            out.append(Implies(gt(app, 0), at(f.body, w)))
        elif f.kind in ('sum', 'isum'):
            w = [skolem('w') for _ in f.bvs]
            zero = Fraction(0) if f.kind == 'sum' else 0
            out.append(Or(eq(app, zero), And(at(f.dom, w), ne(T.subst(f.body, sub1 + list(zip(f.bvs, w))), zero))))
        return [zb(o) for o in out]

    def fold_inst(self, app, f, t):
        """instance of the universal property at index t (tuple)"""
        args = app.children()
        sub1 = list(zip(f.params, args)) + list(zip(f.bvs, t))
        body = zb(T.subst(f.body, sub1))
        dom = zb(T.subst(f.dom, sub1)) if f.kind in ('max',) else None
        if f.kind == 'max':
            return zb(Implies(dom, ge(app, T.subst(f.body, sub1))))
        if f.kind == 'any':
            return zb(Implies(body, app))
        if f.kind == 'count':
            return zb(Implies(body, gt(app, 0)))
        if f.kind == 'first':
            # first index satisfying the body, if any exists
            b0 = zb(T.subst(f.body, list(zip(f.params, args)) + [(f.bvs[0], app)]))
            return zb(Implies(body, And(b0, le(app, t[0]))))
        return None

    def ext_clause(self, a, fa, b, fb):
        """congruence of folds / opaque operations up to equality of their bodies"""
        sa = list(zip(fa.params, a.children()))
        sb = list(zip(fb.params, b.children()))
        if isinstance(fa, Fold):
            sk = [skolem('x') for _ in fa.bvs]
            ia = sa + list(zip(fa.bvs, sk))
            ib = sb + list(zip(fb.bvs, sk))
            da, db = zb(T.subst(fa.dom, ia)), zb(T.subst(fb.dom, ib))
            ba, bb = T.subst(fa.body, ia), T.subst(fb.body, ib)
            if fa.kind in ('any', 'count', 'first'):
                diff = ne(ba, bb)
            else:
                # outside the domain both contribute nothing
                va = ite(da, ba, Fraction(0) if is_real(ba) else 0)
                vb = ite(db, bb, Fraction(0) if is_real(bb) else 0)
                diff = ne(va, vb)
                if fa.kind == 'max':
                    diff = Or(ne(va, vb))
            return zb(Or(eq(a, b), And(diff))), sk
        # opaque: operands pointwise equal
        na = len(fa.params)
        nb = len(fb.params)
        ai, aj = a.children()[na:]
        bi, bj = b.children()[nb:]
        if fa.operands[0] != fb.operands[0]:
            return None, None
        diffs = [ne(ai, bi), ne(aj, bj)]
        sks = []
        ea, eb = list(fa.operands[1]), list(fb.operands[1])
        pos = 0
        for sh in fa.operands[0]:
            if sh in 'mM':
                ra, ca, rb, cb = ea[pos], ea[pos + 1], eb[pos], eb[pos + 1]
                ra, ca = T.subst(ra, sa), T.subst(ca, sa)
                rb, cb = T.subst(rb, sb), T.subst(cb, sb)
                k = 2 if sh == 'M' else 1
                s1, s2 = skolem('x'), skolem('y')
                sks += [s1, s2]
                ds = []
                for q in range(k):
                    va = T.subst(ea[pos + 2 + q], sa + [(I_, s1), (J_, s2)])
                    vb = T.subst(eb[pos + 2 + q], sb + [(I_, s1), (J_, s2)])
                    ds.append(ne(va, vb))
                diffs += [ne(ra, rb), ne(ca, cb), And(le(0, s1), lt(s1, ra), le(0, s2), lt(s2, ca), Or(*ds))]
                pos += 2 + k
            else:
                k = 2 if sh == 'S' else 1
                for q in range(k):
                    diffs.append(ne(T.subst(ea[pos + q], sa), T.subst(eb[pos + q], sb)))
                pos += k
        return zb(Or(eq(a, b), *diffs)), sks

    def prove(self, goal, hyps=(), timeout=10000, rounds=5, want_model=False, extra=(), fast=False, maxinst=6000):
        """-> ('proved'|'failed'|'unknown', info)"""
        t0 = time.time()
        STATS.queries += 1
        try:
            return self._prove(goal, hyps, timeout, rounds, want_model, extra, fast, maxinst)
        finally:
            STATS.time += time.time() - t0

    # -- structural congruence: folds (and opaque operations) with provably equal summands are identified first
    def top_apps(self, e):
        out, seen = {}, set()
        st = [e]
        while st:
            x = st.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                f = R.byname.get(x.decl().name())
                if f is not None:
                    out[x.get_id()] = (x, f)
                    continue
            st.extend(x.children())
        return list(out.values())

    def unify(self, goal, hyps, depth=0):
        """-> (goal with identified applications replaced, the proved equalities)"""
        eqs = []
        for _ in range(20):
            apps = self.top_apps(goal)
            done = True
            for x in range(len(apps)):
                for y in range(x + 1, len(apps)):
                    (a, fa), (b, fb) = apps[x], apps[y]
                    if type(fa) is not type(fb):
                        continue
                    if self.same_app(a, fa, b, fb, hyps, depth):
                        goal = z3.substitute(goal, (b, a))
                        eqs.append(a == b)
                        done = False
                        break
                if not done:
                    break
            if done:
                break
        return goal, eqs

    def signature(self, f):
        s = getattr(self, '_sig', None)
        if s is None:
            s = self._sig = {}
        r = s.get(f.name)
        if r is None:
            es = [zb(f.dom) if not isz(f.dom) else f.dom, f.body] if isinstance(f, Fold) else list(f.operands[1])
            names = set()
            for e in es:
                if not isz(e):
                    continue
                for n in decls_of(e):
                    g = R.byname.get(n)
                    if g is not None:
                        names |= self.signature(g)
                    elif not n.startswith('!'):
                        names.add(n)
            r = s[f.name] = frozenset(names)
        return r

    def same_app(self, a, fa, b, fb, hyps, depth):
        if depth > 6:
            return False
        key = (a.get_id(), b.get_id(), tuple(h.get_id() for h in hyps))
        memo = self.__dict__.setdefault('_same', {})
        if key in memo:
            return memo[key]
        self.__dict__.setdefault('_keep', []).append((a, b, tuple(hyps)))
        memo[key] = False
        r = memo[key] = self._same_app(a, fa, b, fb, list(hyps), depth)
        return r

    def _same_app(self, a, fa, b, fb, hyps, depth):
        sa = list(zip(fa.params, a.children()))
        sb = list(zip(fb.params, b.children()))
        q = lambda g, h: self._prove(g, h, 1500, 1, False, (), True, 300, False)[0] == 'proved'
        if isinstance(fa, Fold):
            if fa.kind != fb.kind or len(fa.bvs) != len(fb.bvs):
                return False
            va, vb = self.signature(fa), self.signature(fb)
            if len(va & vb) * 2 < len(va | vb):
                return False
            import itertools
            for perm in itertools.permutations(range(len(fa.bvs))):
                sk = [skolem('x') for _ in fa.bvs]
                ia = sa + list(zip(fa.bvs, sk))
                ib = sb + list(zip(fb.bvs, [sk[p] for p in perm]))
                da, db = zb(T.subst(fa.dom, ia)), zb(T.subst(fb.dom, ib))
                ba, bb = T.subst(fa.body, ia), T.subst(fb.body, ib)
                if fa.kind in ('any', 'count', 'first'):
                    g, es = self.unify(zb(eq(ba, bb)), hyps, depth + 1)
                    if q(g, hyps + es):
                        return True
                    continue
                if not (da.eq(db) or q(da == db, hyps)):
                    continue
                h2 = hyps + [da]
                g = zb(eq(ba, bb))
                g, es = self.unify(g, h2, depth + 1)
                if q(g, h2 + es):
                    return True
            return False
        if fa.op != fb.op or fa.operands[0] != fb.operands[0]:
            return False
        na, nb = len(fa.params), len(fb.params)
        for u, v in zip(a.children()[na:], b.children()[nb:]):
            if not u.eq(v) and not q(u == v, hyps):
                return False
        ea, eb = list(fa.operands[1]), list(fb.operands[1])
        pos = 0
        for sh in fa.operands[0]:
            k = {'m': 3, 'M': 4, 's': 1, 'S': 2}[sh]
            if sh in 'mM':
                s1, s2 = skolem('x'), skolem('y')
                for t in range(2):
                    u, v = T.subst(ea[pos + t], sa), T.subst(eb[pos + t], sb)
                    if not same(u, v) and not q(zb(eq(u, v)), hyps):
                        return False
                h2 = hyps + [zb(And(le(0, s1), lt(s1, T.subst(ea[pos], sa)), le(0, s2), lt(s2, T.subst(ea[pos + 1], sa))))]
                for t in range(2, k):
                    u, v = T.subst(ea[pos + t], sa + [(I_, s1), (J_, s2)]), T.subst(eb[pos + t], sb + [(I_, s1), (J_, s2)])
                    if same(u, v):
                        continue
                    g, es = self.unify(zb(eq(u, v)), h2, depth + 1)
                    if not q(g, h2 + es):
                        return False
            else:
                for t in range(k):
                    u, v = T.subst(ea[pos + t], sa), T.subst(eb[pos + t], sb)
                    if same(u, v):
                        continue
                    g, es = self.unify(zb(eq(u, v)), hyps, depth + 1)
                    if not q(g, hyps + es):
                        return False
            pos += k
        return True

    def _prove(self, goal, hyps, timeout, rounds, want_model, extra, fast, maxinst, unify=True):
        goal = zb(goal) if isinstance(goal, bool) else goal
        if unify and not fast:
            # cheap attempt, then congruence
            r = self._prove(goal, hyps, 1500, 1, False, extra, True, 300, False)
            if r[0] == 'proved':
                return r
            hz = [zb(h) for h in hyps]
            g2, es = self.unify(z3.simplify(goal), hz)
            if es:
                hyps = list(hyps) + es
                r = self._prove(g2, hyps, 3000, 2, False, extra, True, 1000, False)
                if r[0] == 'proved':
                    return r
                goal = g2
        sg = z3.simplify(goal)
        if z3.is_true(sg):
            return 'proved', 'simplifier'
        ground = [zb(h) for h in hyps] + [zb(Not(goal))]
        if z3.is_false(z3.simplify(z3.And(*ground))):
            return 'proved', 'simplifier'
        foralls = []
        condg = []
        syms = set()
        for g in ground:
            syms |= decls_of(g)
        for guards, f in list(self.facts) + [((), e) for e in extra]:
            if isinstance(f, Forall):
                foralls.append((guards, f))
            else:
                condg.append(zb(Implies(And(*guards), f)))
        # relevant ground facts: those connected through symbols, to a fixpoint
        allg = list(condg)
        rel = []
        acc, seen, ints = {}, {}, {}
        uf_apps(ground, acc, seen, ints)
        ext_done, fact_done, ax_done, inst_done = set(), set(), set(), set()
        s = z3.SolverFor('ALL') if False else z3.Solver()
        s.set('timeout', timeout)
        s.set('random_seed', 0)
        sa = z3.Solver()
        sa.set('timeout', min(timeout, 4000))
        sa.set('random_seed', 0)
        ab = Abstractor()

        def put(e):
            s.add(e)
            r, nw = ab(e)
            sa.add(r)
            for x in nw:
                sa.add(x)
        for g in ground:
            put(g)
        pending_new = list(ground)
        ninst = 0
        last = None
        goal_syms = set(decls_of(goal))
        for h in hyps:
            goal_syms |= decls_of(h) if isz(h) else set()

        def addg(e):
            nonlocal ninst
            e = zb(e)
            if z3.is_true(e):
                return
            put(e)
            uf_apps([e], acc, seen, ints)
            syms.update(decls_of(e))
            pending_new.append(e)
            ninst += 1
        # try without anything first
        for rnd in range(rounds + 1):
            # connected ground facts
            changed = True
            while changed:
                changed = False
                rest = []
                for g in allg:
                    if decls_of(g) & syms:
                        rel.append(g)
                        addg(g)
                        changed = True
                    else:
                        rest.append(g)
                allg = rest
            tt = time.time()
            r = sa.check()
            if os.environ.get('FV_DEBUG'):
                print('    round', rnd, 'instances', ninst, r, '%.2f' % (time.time() - tt), {k: len(v) for k, v in acc.items() if k in R.byname}, flush=True)
            if ab.nonlinear and r != z3.unsat and (rnd == rounds or rnd == 0):
                s.set('timeout', timeout if rnd == rounds else min(timeout, 1500))
                r = s.check()
            if r == z3.unsat:
                STATS.instances += ninst
                STATS.by['z3'] = STATS.by.get('z3', 0) + 1
                return 'proved', f'z3 (round {rnd}, {ninst} instances)'
            last = r
            if rnd == rounds or ninst > maxinst:
                break
            new = []
            model = None
            if r == z3.sat:
                try:
                    model = sa.model()
                except z3.Z3Exception:
                    model = None
            # 1. quantified facts
            for guards, f in foralls:
                for trig in f.triggers():
                    binds = [{}]
                    vids = f.closed
                    for pat in trig:
                        nb = []
                        apps = acc.get(pat.decl().name(), {})
                        for b in binds:
                            for t in list(apps.values()):
                                m = match(pat, t, vids, b)
                                if m is not None:
                                    nb.append(m)
                        binds = nb
                    for b in binds:
                        key = (id(f), tuple(b.get(v.get_id()).get_id() for v in f.vars))
                        if key in fact_done:
                            continue
                        fact_done.add(key)
                        inst = z3.substitute(f.body, *[(v, b[v.get_id()]) for v in f.vars])
                        new.append(zb(Implies(And(*guards), inst)))
            # 2. fold axioms
            apps = []
            for nm, d in list(acc.items()):
                f = R.byname.get(nm)
                if f is None:
                    continue
                for a in list(d.values()):
                    apps.append((a, f))
            for a, f in apps:
                if isinstance(f, Fold) and a.get_id() not in ax_done:
                    ax_done.add(a.get_id())
                    new += self.fold_axioms(a, f, None)
                    if f.extra:
                        new += [zb(x) for x in f.extra(a)]
            # 3. universal instances at the index terms present
            pool = [t for t in ints.values()]
            for a, f in apps:
                if isinstance(f, Fold) and f.kind in ('max', 'any', 'count', 'first'):
                    if len(f.bvs) == 1:
                        cand = [(t,) for t in pool]
                    else:
                        cand = self.fold_candidates(a, f, acc)
                    if len(cand) > 60:
                        cand = cand[:60]
                    for t in cand:
                        key = (a.get_id(),) + tuple(x.get_id() for x in t)
                        if key in inst_done:
                            continue
                        inst_done.add(key)
                        i = self.fold_inst(a, f, t)
                        if i is not None and not z3.is_true(i):
                            new.append(i)
            # 4. congruence up to body equality
            byk = {}
            for a, f in apps:
                k = ('F', f.kind, len(f.bvs)) if isinstance(f, Fold) else ('O', f.op)
                byk.setdefault(k, []).append((a, f))
            for k, lst in byk.items():
                if k[0] == 'F' and k[1] in ('first',) and False:
                    continue
                for x in range(len(lst)):
                    for y in range(x + 1, len(lst)):
                        a, fa = lst[x]
                        b, fb = lst[y]
                        if a.get_id() == b.get_id():
                            continue
                        if fa is fb and all(p.eq(q) for p, q in zip(a.children(), b.children())):
                            continue
                        key = (a.get_id(), b.get_id())
                        if key in ext_done or len(ext_done) > 400:
                            continue
                        if model is not None and z3.is_true(model.eval(ab.go(a) == ab.go(b), model_completion=True)):
                            continue
                        ext_done.add(key)
                        cl, sk = self.ext_clause(a, fa, b, fb)
                        if cl is not None:
                            new.append(cl)
            if not new:
                if ab.nonlinear and rnd > 0:
                    s.set('timeout', timeout)
                    last = s.check()
                    if last == z3.unsat:
                        STATS.instances += ninst
                        STATS.by['z3'] = STATS.by.get('z3', 0) + 1
                        return 'proved', f'z3 (round {rnd}, {ninst} instances, nonlinear)'
                break
            for e in new:
                addg(e)
        STATS.instances += ninst
        # decide between refuted and out of reach
        if last == z3.sat:
            return 'failed', (s.model() if want_model else None)
        # second back end
        if not fast:
            r = self.cvc5(s, timeout)
            if r == 'unsat':
                STATS.by['cvc5'] = STATS.by.get('cvc5', 0) + 1
                return 'proved', 'cvc5'
            if r == 'sat':
                return 'failed', None
            r = self.nlsat(s, timeout)
            if r == 'unsat':
                STATS.by['z3-nlsat'] = STATS.by.get('z3-nlsat', 0) + 1
                return 'proved', 'z3-nlsat'
            if r == 'sat':
                return 'failed', None
        return 'unknown', s.reason_unknown() if last == z3.unknown else None

    def fold_candidates(self, a, f, acc):
        """index tuples for multi-variable folds: match applications in the body"""
        fa = Forall(f.bvs, z3.substitute(zb(f.body) if not z3.is_bool(f.body) else f.body, *list(zip(f.params, a.children()))) if f.params else (f.body if z3.is_bool(f.body) else f.body == 0))
        out = {}
        for trig in fa.triggers():
            binds = [{}]
            for pat in trig:
                nb = []
                for b in binds:
                    for t in list(acc.get(pat.decl().name(), {}).values()):
                        m = match(pat, t, fa.closed, b)
                        if m is not None:
                            nb.append(m)
                binds = nb
            for b in binds:
                t = tuple(b[v.get_id()] for v in f.bvs)
                out[tuple(x.get_id() for x in t)] = t
        return list(out.values())

    def cvc5(self, s, timeout):
        try:
            txt = '(set-logic ALL)\n' + s.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write(txt)
            try:
                p = subprocess.run(['cvc5', f'--tlimit={timeout}', f.name], capture_output=True, text=True, timeout=timeout / 1000 + 5)
            finally:
                os.unlink(f.name)
            o = p.stdout.strip().split('\n')[0] if p.stdout else ''
            return o if o in ('sat', 'unsat') else 'unknown'
        except Exception:
            return 'unknown'

    def nlsat(self, s, timeout):
        try:
            t = z3.TryFor(z3.Then('simplify', 'propagate-values', 'solve-eqs', 'ackermannize_bv' if False else 'simplify', 'smt'), timeout)
            q = t.solver()
            q.set('arith.solver', 2) if False else None
            q.add(*s.assertions())
            r = q.check()
            return str(r)
        except Exception:
            return 'unknown'
