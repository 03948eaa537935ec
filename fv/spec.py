"""Framework for function contracts: a task symbolically executes real functions of /repo and discharges the goals of
its contract.  Results are plain dictionaries so that tasks can run in separate processes."""
import time, traceback, os
from . import terms as T
from .terms import *
from .prove import Prover, Forall, STATS
from .interp import Interp, Dead
from .values import *
from . import cast

_units = {}


def unit(tu, incs=(), defs=(), flt='smooth'):
    k = (tu, tuple(incs), tuple(defs), flt)
    if k not in _units:
        _units[k] = cast.load(tu, list(incs), list(defs), flt)
    return _units[k]


class Ctx:
    """One task."""
    def __init__(self, pid, name, budget=None):
        self.pid = pid
        self.name = name
        self.res = []          # dict(name, kind, where, status, info, ms, goal)
        self.functions = set()
        self.assumptions = set()
        self.notes = []
        self.deadline = time.time() + (budget or 600)

    def interp(self, u):
        I = Interp(u)
        I.functions = self.functions
        I.assumptions = self.assumptions
        return I

    def goal(self, name, goal, facts=(), hyps=(), where='', kind='post', timeout=10000, rounds=5, rep=True, extra=()):
        t0 = time.time()
        if t0 > self.deadline:
            self.res.append(dict(name=name, kind=kind, where=where, status='unknown', info='task time limit', ms=0, goal=''))
            return 'unknown'
        try:
            st, info = Prover(facts).prove(goal, hyps, timeout=timeout, rounds=rounds, extra=extra)
        except Unsupported as e:
            st, info = 'unknown', 'unsupported: ' + str(e)
        g = str(goal)
        if rep:
            self.res.append(dict(name=name, kind=kind, where=where, status=st, info=str(info) if info else '', ms=int(1000 * (time.time() - t0)),
                                 goal=g if len(g) < 2000 else g[:2000] + '...'))
        if os.environ.get("FV_LIVE") and time.time() - t0 > 1:
            print("  ..", st, name, "%.1f" % (time.time() - t0), flush=True)
        return st

    def cover(self, name, I, hyps=(), facts=None):
        """vacuity: the assumptions of the contract must be satisfiable"""
        t0 = time.time()
        st, info = Prover(I.facts if facts is None else facts).prove(False, list(I.st.path) + list(hyps), timeout=4000, rounds=2, fast=True)
        self.res.append(dict(name=name + '.cover', kind='cover', where='', status='vacuous' if st == 'proved' else 'covered', info='', ms=int(1000 * (time.time() - t0)), goal=''))

    def auto(self, I, prefix, kinds=None, hyps=(), limit=None):
        """the obligations generated by the execution itself"""
        k = 0
        for o in I.obls:
            if kinds is not None and o.kind not in kinds:
                continue
            k += 1
            self.goal(f'{prefix}.{o.kind}@{o.where}#{k}', o.goal, I.facts, list(o.path) + list(hyps), o.where, o.kind)
        return k


def skolem(base, s='int'):
    return {'int': T.R.int, 'real': T.R.real, 'bool': T.R.bool}[s](base)


def run_task(pid, name, fn, budget):
    c = Ctx(pid, name, budget)
    t0 = time.time()
    err = None
    q0, s0, i0, by0 = STATS.queries, STATS.time, STATS.instances, dict(STATS.by)
    try:
        fn(c)
    except Unsupported as e:
        err = 'unsupported: ' + str(e)
    except Dead:
        err = 'unsupported: no execution path left'
    except RecursionError:
        err = 'unsupported: recursion limit'
    except Exception as e:
        err = 'internal: ' + repr(e) + '\n' + traceback.format_exc()
    by = {k: v - by0.get(k, 0) for k, v in STATS.by.items() if v - by0.get(k, 0)}
    return dict(task=name, results=c.res, error=err, functions=sorted(c.functions), assumptions=sorted(map(str, c.assumptions)), notes=c.notes,
                wall=time.time() - t0, solver_time=STATS.time - s0, queries=STATS.queries - q0, instances=STATS.instances - i0, by=by)
