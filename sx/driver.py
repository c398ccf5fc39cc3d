"""Runs one check: distributes the path exploration over processes, confirms
counterexamples on the real code, validates sampled paths, writes evidence."""
import collections
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYPY = '/opt/venv-pypy/bin/python'
NPROC = 8

def log(*a):
    print(*a, flush=True)

def convert_console(scratch):
    """__main__.py is Python 2; the project's build converts it with 2to3."""
    src = '/repo/cmdis/__main__.py'
    dst = os.path.join(scratch, 'console.py')
    shutil.copyfile(src, dst)
    p = subprocess.run([PYPY, '-W', 'ignore', '-m', 'lib2to3', '-w', '-n', '--no-diffs', dst],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        compile(open(dst).read(), dst, 'exec')
    except SyntaxError as e:
        raise RuntimeError('console does not convert: %s %s' % (e, p.stdout.decode()[-400:]))
    return dst

def pypy_replay(prop, tier, cases, scratch, tag, timeout=300):
    f = os.path.join(scratch, 'replay-%s.json' % tag)
    with open(f, 'w') as o:
        json.dump({'property': prop, 'tier': tier, 'cases': cases}, o)
    env = dict(os.environ)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    p = subprocess.run([PYPY, os.path.join(VERIF, 'sx', 'replay.py'), f], stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=env, timeout=timeout)
    out = [json.loads(l) for l in p.stdout.decode().splitlines() if l.startswith('{')]
    if len(out) != len(cases):
        raise RuntimeError('replay: %s' % p.stderr.decode()[-1500:])
    return out

def _child(conn, console, verbose):
    os.environ['VP_CHILD'] = '1'
    from . import worker
    worker.setup(console)
    if not verbose:
        os.dup2(os.open(os.devnull, os.O_WRONLY), 2)    # tracebacks the code under test prints
    while True:
        job = conn.recv()
        if job is None:
            return
        try:
            r = worker.run(*job)
        except BaseException as e:
            import traceback
            r = {'idx': job[2], 'crash': traceback.format_exc()}
        conn.send(r)

class Check(object):
    def __init__(self, prop, tier, limit, only=None, verbose=False):
        self.prop = prop; self.tier = tier; self.limit = limit; self.only = only; self.verbose = verbose
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rnd = random.Random(self.seed)
        self.t0 = time.time()

    def known(self):
        """Listed findings of this property: [(scenario, what)]"""
        out = []
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for l in open(p):
                if l.startswith('known: property=%s ' % self.prop):
                    d = json.loads(l.split(' ', 2)[2])
                    out.append(d)
        return out

    def run(self):
        self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % self.prop)
        try:
            return self._run()
        finally:
            shutil.rmtree(self.scratch, ignore_errors=True)

    def _run(self):
        from . import worker, engine
        prop, tier = self.prop, self.tier
        console = None
        if prop in ('C30', 'C31', 'C32', 'C33'):
            console = convert_console(self.scratch)
            os.environ['VP_CONSOLE'] = console
        worker.setup(console)
        import importlib
        mod = importlib.import_module('checks.' + prop.lower())
        scens = worker.scenarios(prop, tier)
        names = [s.name for s in scens]
        assert len(set(names)) == len(names), 'scenario names'
        todo = collections.deque()
        order = sorted(range(len(scens)), key=lambda i: scens[i].order)
        for i in order:
            if self.only and not any(o in names[i] for o in self.only):
                continue
            todo.append((i, [((), None)]))
        active = [t[0] for t in todo]
        fresh = {i: scens[i].fresh for i in active}
        gen = {i: 0 for i in active}
        stats = {i: engine.Stats() for i in active}
        cpu = {i: 0.0 for i in active}
        samples = {i: [] for i in active}
        funcs = set()
        self.cert = [0, 0, 0]
        problems = []
        limits = {}         # scenario -> what kept it from being explored completely
        viols = []
        budget = 1.5
        procs = []
        for k in range(NPROC):
            a, b = mp.Pipe()
            p = mp.Process(target=_child, args=(b, console, self.verbose), daemon=True)
            p.start(); b.close()
            procs.append([p, a, None])
        stop = None
        seen_viol = set()
        known_hits = []
        known = self.known()
        want = 3 if len(active) > 60 else 6 if len(active) > 15 else 12
        while True:
            idle = [w for w in procs if w[2] is None]
            for w in idle:
                if not todo: break
                i, st = todo.popleft()
                w[2] = (i, gen[i], time.time())
                w[1].send((prop, tier, i, st, budget, fresh[i], self.seed, want if len(samples[i]) < want else 0))
            busy = [w for w in procs if w[2] is not None]
            if not busy:
                break
            if time.time() - self.t0 > self.limit:
                stop = 'time limit of %d s reached' % self.limit
                break
            ready = mp.connection.wait([w[1] for w in busy], timeout=1.0)
            for w in busy:
                if w[1] not in ready: continue
                try:
                    r = w[1].recv()
                except EOFError:
                    problems.append('worker died in %s' % names[w[2][0]])
                    w[2] = None
                    procs.remove(w)
                    if not procs: stop = 'all workers died'
                    continue
                i, g, t0 = w[2]
                w[2] = None
                if 'crash' in r:
                    problems.append('%s: %s' % (names[i], r['crash'].strip()[-300:]))
                    continue
                if g != gen[i]:
                    continue
                if r['need_fresh']:
                    if fresh[i]:
                        problems.append('%s: state keeps changing' % names[i])
                        continue
                    fresh[i] = True
                    gen[i] += 1
                    stats[i] = engine.Stats(); samples[i] = []
                    todo = collections.deque(t for t in todo if t[0] != i)
                    todo.append((i, [((), None)]))
                    if self.verbose: log('fresh mode: %s' % names[i])
                    continue
                stats[i].add(r['stats'])
                cpu[i] += time.time() - t0
                funcs |= r['funcs']
                self.cert = [a + b for a, b in zip(self.cert, r['cert'])]
                if len(samples[i]) < want: samples[i].extend(r['samples'])
                for x in r['inconclusive']:
                    limits.setdefault(i, set()).add(x)
                pend = r['pending']
                if r['violation']:
                    v = r['violation']
                    key = (i, v['what'])
                    if key not in seen_viol or len([x for x in viols if x[0] == i]) < 4:
                        seen_viol.add(key)
                        k = self.confirm(names[i], v)
                        if k == 'new':
                            stop = 'violation'
                            break
                        if k == 'unconfirmed':
                            viols.append((i, v['what']))
                            if v['what'].startswith(('unexpected TypeError', 'unexpected AttributeError', 'unexpected NotImplementedError')):
                                # the real code does not raise: an operation the symbolic values lack
                                limits.setdefault(i, set()).add('not encodable: ' + v['what'])
                            else:
                                problems.append('%s: counterexample did not reproduce on the real code (%s)' % (names[i], v['what']))
                            if self.verbose and v.get('tb'): log(v['tb'])
                        elif k not in known_hits:
                            known_hits.append(k)
                    if len([x for x in viols if x[0] == i]) >= 4:
                        pend = []
                if pend:
                    # spread the remaining work when processes would idle
                    n = max(1, min(len(pend), 2 * NPROC - len(todo)))
                    self.rnd.shuffle(pend) if n > 1 and self.tier == 'thorough' else None
                    for k in range(n):
                        part = pend[k::n]
                        if part: todo.append((i, part))
            if stop == 'violation' or (stop and 'died' in stop):
                break
        for w in procs:
            w[0].kill()
        if self.verbose:
            for i in sorted(active, key=lambda i: -cpu[i])[:12]:
                log('  %-40s %6.1f s paths %d decisions %d queries %d checks %d/%d solver %.1f' % (
                    names[i], cpu[i], stats[i].paths, stats[i].decisions, stats[i].queries, stats[i].checks,
                    stats[i].checks_z3, stats[i].solver_s))
        total = engine.Stats()
        for i in active: total.add(stats[i])
        if stop == 'violation':
            self.evidence(mod, scens, active, total, stats, funcs, 0, [], 1, True)
            return 1
        partial = []
        if stop and 'died' in stop: problems.append(stop)
        elif stop:
            left = set(t[0] for t in todo) | set(w[2][0] for w in procs if w[2])
            partial.append('%s: %d of %d scenarios not explored completely' % (stop, len(left), len(active)))
        # a scenario without a reached check proves nothing
        for i in active:
            if stats[i].reach == 0: limits.setdefault(i, set()).add('no check reached')
        # Some scenarios left out (listed in the evidence) still leave an answer
        # about the others; many leave none.
        for i in sorted(limits):
            for x in sorted(limits[i]): partial.append('%s: %s' % (names[i], x))
        if 4 * len(limits) > len(active): problems.extend(partial)
        # sampled paths: the same inputs on the real interpreter must give what
        # the symbolic run predicts
        cases = []
        pool = [x for i in active for x in samples[i][:want]]
        self.rnd.shuffle(pool)
        cap = 400 if tier == 'quick' else 1500
        cases = [{'scenario': names[x['idx']], 'model': x['model'], 'obs': x['obs']} for x in pool[:cap]]
        validated = 0
        if cases:
            res = pypy_replay(prop, tier, [{'scenario': c['scenario'], 'model': c['model']} for c in cases],
                              self.scratch, 'samples')
            for c, r in zip(cases, res):
                if r['obs'] is None and r['ok']:
                    problems.append('%s: sampled path is outside the scenario when replayed' % c['scenario'])
                elif not r['ok'] or json.loads(json.dumps(c['obs'])) != r['obs']:
                    problems.append('%s: replay of a sampled path disagrees: %s' % (
                        c['scenario'], r['what'] or diff(c['obs'], r['obs'])))
                    if self.verbose: log(json.dumps(c['model'])[:600])
                else:
                    validated += 1
        self.evidence(mod, scens, active, total, stats, funcs, validated, cases, 0, not problems and not partial, partial)
        for k in known_hits:
            log('KNOWN-FINDING: property=%s %s' % (prop, k))
        if problems:
            shown = sorted(set(problems))
            for x in shown[:6]:
                log('INCONCLUSIVE %s %s' % (prop, x[:500]))
            if len(shown) > 6: log('... %d more' % (len(shown) - 6))
            return 2
        for x in partial[:6]: log('PARTIAL %s %s' % (prop, x[:500]))
        if len(partial) > 6: log('... %d more' % (len(partial) - 6))
        log('OK property=%s tier=%s scenarios=%d paths=%d decisions=%d queries=%d checks=%d solver=%.1fs '
            'validated=%d wall=%.1fs' % (prop, tier, len(active), total.paths, total.decisions, total.queries,
                                         total.checks, total.solver_s, validated, time.time() - self.t0))
        return 0

    def confirm(self, name, v):
        case = {'scenario': name, 'model': v['model']}
        if self.verbose: log('candidate: %s: %s' % (name, v['what']))
        try:
            r = pypy_replay(self.prop, self.tier, [case], self.scratch, 'viol', timeout=120)[0]
        except Exception as e:
            if self.verbose: log('replay failed: %s' % e)
            return 'unconfirmed'
        if r['ok']:
            return 'unconfirmed'
        for d in self.known():
            if d.get('scenario') == name and d.get('what') in v['what']:
                return d.get('text', d['what'])
        out = os.path.join(VERIF, 'out', 'replay')
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, '%s-%s.json' % (self.prop, self.tier))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'tier': self.tier, 'what': r['what'],
                       'how': '%s %s/sx/replay.py %s' % (PYPY, VERIF, path), 'cases': [case]}, f, indent=1)
        log('%s: %s: %s' % (self.prop, name, r['what']))
        log('input: %s' % json.dumps(v['model'])[:1500])
        log('VIOLATION property=%s replay=%s' % (self.prop, path))
        return 'new'

    def evidence(self, mod, scens, active, total, stats, funcs, validated, cases, nviol, complete, partial=()):
        d = {
            'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': {
                'states': total.paths + total.assumed_away,
                'transitions': total.decisions,
                'traces_validated_against_impl': validated,
                'samples': [{'scenario': c['scenario'], 'input': c['model'], 'observed': c['obs']} for c in cases[:5]],
                'explanation': 'states: execution paths of the real code explored symbolically (each stands for all '
                               'inputs satisfying its path condition); transitions: branch decisions on symbolic '
                               'conditions; traces: models of explored paths re-run on the unmodified code under '
                               'PyPy with identical observations.',
                'exhaustive': bool(complete),
                'not_explored': list(partial)[:200],
                'paths_completed': total.paths, 'paths_outside_assumptions': total.assumed_away,
                'solver_queries': total.queries, 'queries_unsat': total.unsat, 'queries_sat': total.sat,
                'solver_s': round(total.solver_s, 2),
                'assertions': total.checks, 'assertions_by_solver': total.checks_z3,
                'assertions_by_normaliser': total.checks_norm,
                'normaliser_steps_proved': self.cert[0], 'normaliser_steps_literal': self.cert[1],
                'normaliser_steps_unsettled': self.cert[2],
                'scenarios': {scens[i].name: {'paths': stats[i].paths, 'assertions': stats[i].checks} for i in active}
                             if len(active) <= 400 else len(active),
                'functions_encoded': sorted(f for f in funcs if not f.endswith('<module>')),
                'bounds': getattr(mod, 'BOUNDS', {}).get(self.tier, getattr(mod, 'BOUNDS', {}).get('quick', '')),
                'outside': getattr(mod, 'OUTSIDE', ''),
            },
            'assumptions': getattr(mod, 'ASSUMPTIONS', []),
            'wall_s': round(time.time() - self.t0, 2),
            'violations': nviol,
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(d, f, indent=1)

def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b or [])):
        if json.loads(json.dumps(x)) != y:
            return 'observation %d: predicted %r, got %r' % (i, x, y)
    return 'different number of observations'
