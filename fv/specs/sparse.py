"""C09, C10, C11: contracts of utils/sparse.hpp."""
from ..spec import *
from ..loops import conj

TU = '''#include "smooth/feedback/utils/sparse.hpp"
namespace smooth::feedback {
using SC=Eigen::SparseMatrix<double>; using SR=Eigen::SparseMatrix<double,Eigen::RowMajor>; using D=Eigen::MatrixXd; using DR=Eigen::Matrix<double,-1,-1,Eigen::RowMajor>;
using V=Eigen::VectorXd; using W=Eigen::RowVectorXd;
%s
}
'''
DST = {'col': 'SC', 'row': 'SR'}
SRC = ['SC', 'SR', 'D']


def block_task(fn, dst, src):
    def task(c):
        s = {'col': 'SC', 'row': 'SR'}[dst]
        u = unit(TU % f'template void {fn}<{src}>({s}&,Eigen::Index,Eigen::Index,const {src}&,double,bool);')
        ds = u.functions(fn)
        if not ds:
            raise Unsupported(fn + ' not found')
        d = ds[0]
        I = c.interp(u)
        A = I.sym('Eigen::SparseMatrix<double, %s>' % ('1' if dst == 'row' else '0'), 'A')
        B = I.sym('Eigen::Matrix<double, -1, -1>', 'B') if src == 'D' else I.sym('Eigen::SparseMatrix<double, %s>' % ('1' if src == 'SR' else '0'), 'B')
        r0, c0 = z3.Int('r0'), z3.Int('c0')
        s, up = z3.Real('s'), z3.Bool('upper')
        I.st.vars['A'] = A
        I.st.vars['B'] = B
        # precondition: the block lies inside dest
        for p in (ge(r0, 0), ge(c0, 0), le(add(r0, B.rows), A.rows), le(add(c0, B.cols), A.cols)):
            I.facts.append(((), p))
        c.cover(fn, I)
        I.run_method(d, None, [LRef('A'), r0, c0, LRef('B'), s, up])
        A2 = I.rv(LRef('A'))
        i, j = skolem('i'), skolem('j')
        bi, bj = sub(i, r0), sub(j, c0)
        inb = And(le(0, bi), lt(bi, B.rows), le(0, bj), lt(bj, B.cols), B.stored(bi, bj), Or(Not(up), le(i, j)))
        h = [A.inb(i, j)] + list(I.st.path)
        val = mul(s, B.at(bi, bj))
        want = ite(inb, add(A.at(i, j), val) if fn == 'block_add' else val, A.at(i, j))
        nm = f'{fn}[{dst},{src}]'
        w = u.where(d)
        c.goal(nm + '.addressed', Implies(inb, eq(A2.at(i, j), want)), I.facts, h, w)
        c.goal(nm + '.frame', Implies(Not(inb), eq(A2.at(i, j), A.at(i, j))), I.facts, h, w)
        c.goal(nm + '.pattern', eq(A2.stored(i, j), Or(A.stored(i, j), inb)), I.facts, h, w)
        c.goal(nm + '.size', And(eq(A2.rows, A.rows), eq(A2.cols, A.cols)), I.facts, list(I.st.path), w)
        c.auto(I, nm)
    return (f'{fn}[{dst},{src}]', task)


TASKS = {'C09': [block_task(f, d, s) for f in ('block_add', 'block_write') for d in ('col', 'row') for s in SRC]}


def ident_task(fn, dst):
    def task(c):
        t = {'col': 'SC', 'row': 'SR'}[dst]
        u = unit(TU % f'template void {fn}({t}&,Eigen::Index,Eigen::Index,Eigen::Index,double);')
        d = u.functions(fn)[0]
        I = c.interp(u)
        A = I.sym('Eigen::SparseMatrix<double, %s>' % ('1' if dst == 'row' else '0'), 'A')
        r0, c0, n, s = z3.Int('r0'), z3.Int('c0'), z3.Int('n'), z3.Real('s')
        I.st.vars['A'] = A
        for p in (ge(r0, 0), ge(c0, 0), ge(n, 0), le(add(r0, n), A.rows), le(add(c0, n), A.cols)):
            I.facts.append(((), p))
        c.cover(fn, I)
        I.run_method(d, None, [LRef('A'), r0, c0, n, s])
        A2 = I.rv(LRef('A'))
        i, j = skolem('i'), skolem('j')
        k = sub(i, r0)
        on = And(le(0, k), lt(k, n), eq(sub(j, c0), k))
        h = [A.inb(i, j)] + list(I.st.path)
        want = add(A.at(i, j), s) if fn == 'block_add_identity' else s
        nm = f'{fn}[{dst}]'
        w = u.where(d)
        c.goal(nm + '.addressed', Implies(on, eq(A2.at(i, j), want)), I.facts, h, w)
        c.goal(nm + '.frame', Implies(Not(on), eq(A2.at(i, j), A.at(i, j))), I.facts, h, w)
        c.goal(nm + '.pattern', eq(A2.stored(i, j), Or(A.stored(i, j), on)), I.facts, h, w)
        c.goal(nm + '.size', And(eq(A2.rows, A.rows), eq(A2.cols, A.cols)), I.facts, list(I.st.path), w)
        c.auto(I, nm)
    return (f'{fn}[{dst}]', task)


TASKS['C09'] += [ident_task(f, d) for f in ('block_add_identity', 'block_write_identity') for d in ('col', 'row')]


def zero_task(kind, blk):
    def task(c):
        t = {'col': 'SC', 'row': 'SR'}[kind]
        arg = f'Eigen::Block<{t},-1,-1,true>' if blk else t
        u = unit(TU % (f'template void set_zero<{arg}>({arg}&&);' if blk else f'template void set_zero<{t}&>({t}&);'))
        d = u.functions('set_zero')[0]
        I = c.interp(u)
        A = I.sym('Eigen::SparseMatrix<double, %s>' % ('1' if kind == 'row' else '0'), 'A')
        I.st.vars['A'] = A
        if blk:
            k0, kn = z3.Int('k0'), z3.Int('kn')
            out = A.cols if kind == 'col' else A.rows
            for p in (ge(k0, 0), ge(kn, 0), le(add(k0, kn), out)):
                I.facts.append(((), p))
            ref = LRef('A', (('b', 0, k0, A.rows, kn) if kind == 'col' else ('b', k0, 0, kn, A.cols),))
        else:
            ref = LRef('A')
        nm = 'set_zero[%s%s]' % (kind, ',inner panel' if blk else '')
        c.cover(nm, I)
        I.run_method(d, None, [ref])
        A2 = I.rv(LRef('A'))
        i, j = skolem('i'), skolem('j')
        h = [A.inb(i, j)] + list(I.st.path)
        x = j if kind == 'col' else i
        ins = And(le(k0, x), lt(x, add(k0, kn))) if blk else True
        w = u.where(d)
        c.goal(nm + '.zeroed', Implies(ins, eq(A2.at(i, j), Fraction(0))), I.facts, h, w)
        c.goal(nm + '.frame', Implies(Not(ins), eq(A2.at(i, j), A.at(i, j))), I.facts, h, w)
        c.goal(nm + '.pattern', eq(A2.stored(i, j), A.stored(i, j)), I.facts, h, w)
        c.goal(nm + '.size', And(eq(A2.rows, A.rows), eq(A2.cols, A.cols)), I.facts, list(I.st.path), w)
        c.auto(I, nm)
    return ('set_zero[%s%s]' % (kind, ',inner panel' if blk else ''), task)


def count_task(fn, kind):
    def task(c):
        ret = {'count_explicit_zeros': 'uint64_t', 'mark_explicit_zeros': 'Eigen::MatrixXd'}[fn]
        u = unit(TU % f'template {ret} {fn}<{kind}>(const {kind}&);')
        d = u.functions(fn)[0]
        I = c.interp(u)
        A = I.sym('Eigen::Matrix<double, -1, -1>', 'A') if kind == 'D' else I.sym('Eigen::SparseMatrix<double, %s>' % ('1' if kind == 'SR' else '0'), 'A')
        I.st.vars['A'] = A
        nm = f'{fn}[{kind}]'
        c.cover(nm, I)
        r = I.rv(I.run_method(d, None, [LRef('A')]))
        w = u.where(d)
        i, j = skolem('i'), skolem('j')
        if fn == 'mark_explicit_zeros':
            h = [A.inb(i, j)] + list(I.st.path)
            c.goal(nm + '.size', And(eq(r.rows, A.rows), eq(r.cols, A.cols)), I.facts, list(I.st.path), w)
            want = ite(A.stored(i, j), ite(eq(A.at(i, j), Fraction(0)), Fraction(9), Fraction(1)), Fraction(0))
            c.goal(nm + '.marks', eq(r.at(i, j), want), I.facts, h, w)
        else:
            # number of coordinate pairs that are stored and zero
            bi, bj = T.R.idx('b'), T.R.idx('b')
            outer, inner = (bi, bj) if kind == 'SR' else (bj, bi)
            n = T.mkfold('count', [outer, inner], True, And(A.inb(bi, bj), A.stored(bi, bj), eq(A.at(bi, bj), Fraction(0))))
            c.goal(nm + '.count', eq(r, n), I.facts, list(I.st.path), w)
        c.goal(nm + '.frame', eq(I.rv(LRef('A')).at(i, j), A.at(i, j)), I.facts, list(I.st.path), w)
        c.auto(I, nm)
    return (f'{fn}[{kind}]', task)


TASKS['C10'] = [zero_task(k, b) for k in ('col', 'row') for b in (False, True)] + \
    [count_task(f, k) for f in ('count_explicit_zeros', 'mark_explicit_zeros') for k in ('SC', 'SR', 'D')]


def collapse_sum(c, I, name, app, k, val, hyps, where, lemma=(), must=True):
    """Sum rule: if the summand vanishes unless the k-th bound variable equals val, the sum is the sum over the others."""
    f = T.R.byname[app.decl().name()]
    sub1 = list(zip(f.params, app.children()))
    x = [T.R.idx('x') for _ in f.bvs]
    dom, body = T.subst(f.dom, sub1 + list(zip(f.bvs, x))), T.subst(f.body, sub1 + list(zip(f.bvs, x)))
    g = Implies(And(dom, ne(body, Fraction(0))), eq(x[k], val))
    hy = list(hyps) + [zb(l(x[k])) for l in lemma]
    if not must:
        if c.goal(name, g, I.facts, hy, where, kind='lemma', rep=False) != 'proved':
            return None
    c.goal(name, g, I.facts, hy, where, kind='lemma')
    rest = [v for n, v in enumerate(x) if n != k]
    d2, b2 = zb(T.simp(T.subst(dom, [(x[k], val)]))), T.simp(T.subst(body, [(x[k], val)]))
    if not rest:
        return ite(d2, b2, Fraction(0))
    # a condition that does not depend on the remaining bound variables is moved out of the sum
    ids = {v.get_id() for v in rest}
    cs = conj(d2)
    out = [x for x in cs if not ({v.get_id() for v in T.consts_of(x)} & ids)]
    return ite(And(*out), T.mkfold('sum', rest, And(*[x for x in cs if {v.get_id() for v in T.consts_of(x)} & ids]), b2), Fraction(0))


def fog_task(S1, S2, S3, S4):
    nm = f'd2r_fog[{S1},{S2},{S3},{S4}]'

    def task(c):
        u = unit(TU % f'template void d2r_fog<{S1},{S2},{S3},{S4}>(SC&,const {S1}&,const {S2}&,const {S3}&,const {S4}&,Eigen::Index,Eigen::Index);')
        d = u.functions('d2r_fog')[0]
        I = c.interp(u)

        def m(k, n):
            return I.sym('Eigen::Matrix<double, -1, -1>', n) if k == 'D' else I.sym('Eigen::SparseMatrix<double, %s>' % ('1' if k == 'SR' else '0'), n)
        out, Jf, Hf, Jg, Hg = m('SC', 'out'), m(S1, 'Jf'), m(S2, 'Hf'), m(S3, 'Jg'), m(S4, 'Hg')
        for k, v in zip(('out', 'Jf', 'Hf', 'Jg', 'Hg'), (out, Jf, Hf, Jg, Hg)):
            I.st.vars[k] = v
        r0, c0 = z3.Int('r0'), z3.Int('c0')
        No, Ny, Nx = Jf.rows, Jf.cols, Jg.cols
        pre = [eq(Jg.rows, Ny), eq(Hf.rows, Ny), eq(Hf.cols, mul(No, Ny)), eq(Hg.rows, Nx), eq(Hg.cols, mul(Ny, Nx)), ge(r0, 0), ge(c0, 0),
               le(add(r0, Nx), out.rows), le(add(c0, mul(No, Nx)), out.cols)]
        for p in pre:
            I.facts.append(((), zb(p)))
        c.cover(nm, I)
        I.run_method(d, None, [LRef('out'), LRef('Jf'), LRef('Hf'), LRef('Jg'), LRef('Hg'), r0, c0])
        o2 = I.rv(LRef('out'))
        w = u.where(d)
        a, b, o = T.R.idx('a'), T.R.idx('b'), T.R.idx('o')
        i, j = add(r0, a), add(add(c0, mul(o, Nx)), b)
        ins = And(le(0, a), lt(a, Nx), le(0, b), lt(b, Nx), le(0, o), lt(o, No))
        h = [ins] + list(I.st.path)
        l = T.R.idx('l')
        prod = T.fold('sum', 0, Ny, lambda l: mul(T.fold('sum', 0, Ny, lambda k: mul(Jg.at(k, a), Hf.at(k, add(mul(o, Ny), l)))), Jg.at(l, b)))
        tens = T.fold('sum', 0, Ny, lambda n: mul(Jf.at(o, n), Hg.at(a, add(mul(n, Nx), b))))
        got = T.simp(o2.at(i, j))
        # rule: every sum over outputs in the result has only the term of output o
        off = lambda x: Implies(And(lt(x, o)), le(mul(sub(o, x), Nx), mul(sub(o, x), Nx)))
        got2 = got
        for k, app in enumerate(sum_apps(got)):
            f = T.R.byname[app.decl().name()]
            for p in range(len(f.bvs)):
                x = T.R.idx('x')
                hints = [lambda x: Implies(ge(x, add(o, 1)), ge(mul(sub(x, add(o, 1)), Nx), 0)), lambda x: Implies(le(x, sub(o, 1)), ge(mul(sub(sub(o, 1), x), Nx), 0))]
                r = collapse_sum(c, I, f'{nm}.output_blocks_are_disjoint.{k}', app, p, o, h, w, hints, must=(p == len(f.bvs) - 1))
                if r is not None:
                    got2 = norm_const(z3.substitute(got2, (app, z(r))))
                    break
        c.goal(nm + '.chain_rule', eq(got2, add(out.at(i, j), add(prod, tens))), I.facts, h, w, timeout=20000)
        i, j = T.R.idx('i'), T.R.idx('j')
        inreg = And(le(r0, i), lt(i, add(r0, Nx)), le(c0, j), lt(j, add(c0, mul(No, Nx))))
        got = T.simp(o2.at(i, j))
        h = [Not(inreg), out.inb(i, j)] + list(I.st.path)
        for k, app in enumerate(sum_apps(got)):
            f = T.R.byname[app.decl().name()]
            x = [T.R.idx('x') for _ in f.bvs]
            s1 = list(zip(f.params, app.children())) + list(zip(f.bvs, x))
            hint = [zb(Implies(And(le(0, v), lt(v, No)), And(ge(mul(sub(sub(No, 1), v), Nx), 0), ge(mul(v, Nx), 0)))) for v in x]
            c.goal(f'{nm}.frame.{k}', Not(And(T.subst(f.dom, s1), ne(T.subst(f.body, s1), Fraction(0)))), I.facts, h + hint, w)
            got = norm_const(z3.substitute(got, (app, z3.RealVal(0))))
        c.goal(nm + '.frame', eq(got, out.at(i, j)), I.facts, h, w)
        c.goal(nm + '.size', And(eq(o2.rows, out.rows), eq(o2.cols, out.cols)), I.facts, list(I.st.path), w)
        for k in ('Jf', 'Hf', 'Jg', 'Hg'):
            c.goal(f'{nm}.frame.{k}', eq(I.rv(LRef(k)).at(i, j), {'Jf': Jf, 'Hf': Hf, 'Jg': Jg, 'Hg': Hg}[k].at(i, j)), I.facts, list(I.st.path), w)
        c.auto(I, nm)
    return (nm, task)


def sum_apps(e):
    out = {}

    def rec(x):
        if z3.is_app(x):
            f = T.R.byname.get(x.decl().name()) if x.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
            if isinstance(f, T.Fold) and f.kind == 'sum':
                out[x.get_id()] = x
                return
            for y in x.children():
                rec(y)
    if isz(e):
        rec(e)
    return list(out.values())


TASKS['C11'] = [fog_task(*t) for t in (('SC', 'SC', 'SC', 'SC'), ('D', 'D', 'D', 'D'), ('SR', 'SC', 'SC', 'SC'), ('SC', 'D', 'D', 'SC'), ('D', 'SC', 'SC', 'D'))]
