"""python3-vt -m fv.check <property>

Decides one property: generates the obligations of its contracts from the current source of /repo, discharges them, and
runs the replay driver on the real code.  Exit 0: every obligation discharged (or, where a function is outside the
verifier's reach, the bounded stand-in found nothing).  Exit 1 with a VIOLATION line otherwise."""
import sys, os, json, time, subprocess, tempfile, shutil, multiprocessing as mp, importlib, traceback, threading, signal

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FV_REPO', '/repo')
sys.path.insert(0, ROOT)
from fv.props import PROPS

TRUSTED = [
    'clang 18 AST of the translation units generated from /repo (parsing, overload resolution, template instantiation)',
    'the symbolic executor and verification condition generator in /verif/fv (loop summaries, merging, frame rules)',
    'z3 5.3 (python bindings), cvc5 1.1.2 as second back end',
    'contracts of Eigen and the standard library in /verif/fv/eig.py (assumed; exercised by the replay drivers)',
    'double arithmetic treated as real arithmetic extended with infinities',
]


def task_worker(args):
    pid, spec, k, budget = args
    from fv import spec as S
    sys.setrecursionlimit(20000)
    mod = importlib.import_module('fv.specs.' + spec)
    name, fn = mod.TASKS[pid][k]
    return S.run_task(pid, name, fn, budget)


def _child(q, a):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except Exception:
        pass
    try:
        q.put(task_worker(a))
    except BaseException as e:
        q.put(dict(task=str(a[2]), results=[], error='internal: ' + repr(e) + traceback.format_exc()[-1500:], functions=[], assumptions=[], notes=[], wall=0, solver_time=0, queries=0, instances=0, by={}))


def run_tasks(pid, spec, budget, jobs):
    """every task in a process of its own, so that a stuck solver can be ended"""
    mod = importlib.import_module('fv.specs.' + spec)
    tasks = [(pid, spec, k, budget) for k in range(len(mod.TASKS[pid]))]
    ctx = mp.get_context('fork')
    out = [None] * len(tasks)
    running = {}
    nxt = 0
    while nxt < len(tasks) or running:
        while nxt < len(tasks) and len(running) < jobs:
            q = ctx.Queue()
            p = ctx.Process(target=_child, args=(q, tasks[nxt]))
            p.start()
            running[nxt] = (p, q, time.time())
            nxt += 1
        time.sleep(0.02)
        for k, (p, q, t0) in list(running.items()):
            r = None
            try:
                r = q.get_nowait()
            except Exception:
                if not p.is_alive():
                    try:
                        r = q.get(timeout=0.5)
                    except Exception:
                        r = dict(task=mod.TASKS[pid][k][0], results=[], error='resource limit: worker ended', functions=[], assumptions=[], notes=[], wall=time.time() - t0, solver_time=0, queries=0, instances=0, by={})
                elif time.time() - t0 > budget + 30:
                    p.kill()
                    r = dict(task=mod.TASKS[pid][k][0], results=[], error='time limit', functions=[], assumptions=[], notes=[], wall=time.time() - t0, solver_time=0, queries=0, instances=0, by={})
            if r is not None:
                out[k] = r
                p.join(1)
                if p.is_alive():
                    p.kill()
                del running[k]
    return out


class Replay:
    """concrete executions of the real code against independent oracles"""
    def __init__(self, pid, cfg, work):
        self.pid, self.cfg, self.work = pid, cfg, work
        self.bin = None
        self.err = None
        self.cases = self.nontrivial = 0
        self.fail = None

    def build(self):
        out = os.path.join(self.work, 'driver')
        cmd = ['g++', '-std=c++20', '-O1', '-w', f'-I{REPO}/include', '-I/usr/include/eigen3', f'-I{ROOT}/replay'] + [f.replace('@ROOT', ROOT) for f in self.cfg['flags']] + \
            [f'{ROOT}/replay/{self.cfg["driver"]}.cpp', '-o', out] + self.cfg.get('libs', [])
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=400)
        if p.returncode:
            self.err = 'driver does not compile: ' + p.stderr[:1500]
            return False
        self.bin = out
        return True

    def run(self, seeds, cases, seconds):
        env = dict(os.environ, FV_SECONDS=str(seconds), ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1')
        ps = []
        for s in seeds:
            f = open(os.path.join(self.work, f'out{s}'), 'w+')
            ps.append((s, subprocess.Popen([self.bin, self.pid, str(s), str(cases)], stdout=f, stderr=subprocess.STDOUT, env=env, cwd=self.work, start_new_session=True), f))
        t0 = time.time()
        for s, p, f in ps:
            try:
                p.wait(timeout=max(1, seconds + 60 - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                self.err = f'driver with seed {s} did not end in time'
                continue
            f.seek(0)
            txt = f.read()
            for line in txt.splitlines():
                if line.startswith('OK cases='):
                    a = dict(x.split('=') for x in line[3:].split())
                    self.cases += int(a['cases'])
                    self.nontrivial += int(a['nontrivial'])
                if line.startswith('FAIL ') and self.fail is None:
                    self.fail = (s, line, txt[-3000:])
            if p.returncode not in (0, 1, 2) and self.fail is None:
                self.fail = (s, f'FAIL {self.pid} seed={s}: driver ended with code {p.returncode}', txt[-3000:])
            if p.returncode == 1 and self.fail is None:
                self.fail = (s, f'FAIL {self.pid} seed={s}: ' + (txt.strip().splitlines() or ['no output'])[-1], txt[-3000:])
            f.close()


def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(ROOT, 'known-findings.txt')):
            l = l.strip()
            if l.startswith('finding: property=' + pid + ' '):
                out.append(l[len('finding: property=' + pid + ' '):])
    except OSError:
        pass
    return out


def main(pid):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = PROPS[pid]
    thorough = tier == 'thorough'
    work = tempfile.mkdtemp(prefix='fv-')
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    rp = Replay(pid, cfg, work)
    try:
        def rt():
            try:
                if cfg.get('driver') and rp.build():
                    rp.run(range(seed, seed + (8 if thorough else 4)), cfg['cases'] * (25 if thorough else 1), 400 if thorough else cfg.get('seconds', 25))
            except Exception as e:
                rp.err = repr(e)
        th = threading.Thread(target=rt)
        th.start()
        budget = 1500 if thorough else cfg.get('budget', 300)
        res = run_tasks(pid, cfg['spec'], budget, 8)
        th.join()
        return decide(pid, cfg, tier, seed, res, rp, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, cfg, tier, seed, res, rp, t0):
    obs = [dict(r, task=t['task']) for t in res for r in t['results'] if r['kind'] != 'cover']
    covers = [r for t in res for r in t['results'] if r['kind'] == 'cover']
    failed = [o for o in obs if o['status'] == 'failed']
    unknown = [o for o in obs if o['status'] == 'unknown']
    errors = [(t['task'], t['error']) for t in res if t['error']]
    vac = [c for c in covers if c['status'] == 'vacuous']
    proved = [o for o in obs if o['status'] == 'proved']
    by = {}
    for t in res:
        for k, v in t['by'].items():
            by[k] = by.get(k, 0) + v
    trivially = len(proved) - sum(by.values())
    # a failed obligation: search longer for an input that shows it on the real code
    if failed and rp.fail is None and rp.bin:
        try:
            rp.run(range(seed + 100, seed + 108), cfg['cases'] * 10, 60)
        except Exception as e:
            rp.err = repr(e)
    findings = known_findings(pid)
    complete = not failed and not unknown and not errors and not vac and len(obs) > 0
    ev = dict(property=pid, tier=tier, seed=seed, level='proof' if cfg.get('level', 'proof') == 'proof' else cfg['level'], wall_s=0, violations=0,
              coverage=dict(
                  obligations=len(obs), discharged=len(proved), checker_cmd=f'python3-vt -m fv.check {pid}', trusted_base=TRUSTED + cfg.get('trusted', []),
                  functions_under_contract=sorted({f for t in res for f in t['functions']}),
                  contracts=[t['task'] for t in res],
                  discharged_by=dict(by, **({'simplifier or shared lemma': trivially} if trivially > 0 else {})),
                  solver_time_s=round(sum(t['solver_time'] for t in res), 2), solver_queries=sum(t['queries'] for t in res), ground_instances=sum(t['instances'] for t in res),
                  vacuity_checks=len(covers), vacuous=len(vac),
                  obligations_by_kind={k: sum(1 for o in obs if o['kind'] == k) for k in sorted({o['kind'] for o in obs})},
                  slowest=[dict(name=o['name'], ms=o['ms']) for o in sorted(obs, key=lambda o: -o['ms'])[:5]],
                  undischarged=[dict(name=o['name'], status=o['status'], where=o['where']) for o in failed + unknown][:40],
                  out_of_reach=[f'{a}: {b[:300]}' for a, b in errors],
                  samples=[dict(name=o['name'], where=o['where'], status=o['status'], goal=o['goal'][:600]) for o in obs[:6]],
                  replay=dict(driver=cfg.get('driver'), label='bounded: concrete executions of the real code, not counted as proved', cases=rp.cases, nontrivial=rp.nontrivial, error=rp.err)),
              assumptions=sorted({a for t in res for a in t['assumptions']}) + list(cfg.get('assumptions', [])))
    viol = None
    rpath = os.path.join(ROOT, 'evidence', 'replay', pid + '.txt')
    if rp.fail is not None:
        sd, line, txt = rp.fail
        viol = ''
        body = [line, f'reproduce: build /verif/replay/{cfg["driver"]}.cpp against /repo/include and run: driver {pid} {sd} 1000000 [case]', '', txt, '', 'failed obligations:'] + [f'{o["name"]} at {o["where"]}: {o["goal"]}' for o in failed]
    elif failed:
        viol = ' no-failing-input-found'
        body = ['failed obligations (the verifier does not accept them; no failing input was found by the replay driver):']
        for o in failed:
            body.append(f'{o["name"]} [{o["kind"]}] at {o["where"]}\n  {o["info"]}\n  {o["goal"]}')
    if viol is not None:
        with open(rpath, 'w') as f:
            f.write('\n'.join(body) + '\n')
        ev['violations'] = 1
    ev['coverage']['complete'] = complete
    if not complete and viol is None:
        ev['coverage']['bounded_stand_in'] = 'some obligations are out of reach on this tree: the replay driver (bounded) decided this run'
        ev['level'] = 'other' if not obs else ev['level']
        ev['coverage']['explanation'] = 'obligations out of reach are decided by bounded replay on this run'
    ev['wall_s'] = round(time.time() - t0, 2)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{pid}: {len(proved)}/{len(obs)} obligations discharged, {len(failed)} failed, {len(unknown)} unknown, {len(errors)} contracts out of reach; replay {rp.cases} cases{" (" + rp.err[:200] + ")" if rp.err else ""}; {ev["wall_s"]} s')
    for a, b in errors:
        print(f'  out of reach: {a}: {b[-300:]}')
    for o in unknown[:10]:
        print(f'  unknown: {o["name"]} ({o["info"][:100]})')
    for o in failed[:10]:
        print(f'  failed: {o["name"]} at {o["where"]}')
    for f in findings:
        print(f'KNOWN-FINDING: property={pid} {f}')
    if viol is not None:
        if rp.fail is not None:
            print('  ' + rp.fail[1][:600])
        print(f'VIOLATION property={pid} replay={rpath}{viol}')
        return 1
    return 0


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    sys.exit(main(sys.argv[1]))
