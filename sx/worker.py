"""Runs tasks of one check in a worker process."""
import importlib
import os
import sys
import time
import traceback

sys.setrecursionlimit(20000)
from . import terms as T
from . import values as V
from . import engine as E
from . import instrument as I
from . import scenario as SC
from . import certify as CF

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
FUNCS = set()

def setup(console=None):
    I.FINDER.roots.update({'cmdis': os.path.join(REPO, 'cmdis'), 'checks': os.path.join(VERIF, 'checks'),
                           'ref': os.path.join(VERIF, 'ref')})
    if console:
        I.FINDER.extra['cmdis.console'] = console
    mon = getattr(sys, 'monitoring', None)
    if mon is not None:
        try:
            mon.use_tool_id(3, 'verif')
            def start(code, off):
                f = code.co_filename
                if f.startswith(REPO) or (console and f == console):
                    FUNCS.add(os.path.basename(f) + ':' + code.co_qualname)
                return mon.DISABLE
            mon.register_callback(3, mon.events.PY_START, start)
            mon.set_events(3, mon.events.PY_START)
        except ValueError:
            pass

_SC = {}

def scenarios(prop, tier):
    key = (prop, tier)
    if key not in _SC:
        _SC[key] = importlib.import_module('checks.' + prop.lower()).scenarios(tier)
    return _SC[key]

def model_out(m):
    return {'vars': dict(m.vars), 'arrays': {k: [d, dict(t)] for k, (d, t) in m.arrays.items()}}

def model_in(d):
    if d is None: return None
    return T.Model(dict(d['vars']), {k: (v[0], dict(v[1])) for k, v in d['arrays'].items()})

def run(prop, tier, idx, stack, budget, fresh, seed, want):
    """Explore scenario idx below the given prefixes for about budget seconds."""
    scen = scenarios(prop, tier)[idx]
    res = {'idx': idx, 'pending': [], 'violation': None, 'inconclusive': [], 'samples': [], 'need_fresh': False}
    T.reset()
    eng = E.Engine(seed, query_ms=20000 if tier == 'quick' else 60000)
    holder = {}

    def fn():
        if fresh:
            I.purge('cmdis')
        S = holder['S'] = SC.SymS(eng)
        I.OUT[0] = []
        try:
            scen.fn(S)
        except Exception as e:
            v = E.Violation('unexpected %s: %s' % (type(e).__name__, _msg(e)))
            v.model = eng.model
            v.tb = traceback.format_exc()
            raise v

    state = {'n': 0, 'fp': None}
    if not fresh:
        for m in sorted(os.listdir(os.path.join(REPO, 'cmdis'))):
            if m.endswith('.py') and m not in ('__init__.py', '__main__.py', '_version.py'):
                importlib.import_module('cmdis.' + m[:-3])
        for m in sorted(I.FINDER.extra): importlib.import_module(m)
        state['fp'] = I.fingerprint('cmdis')

    class Dirty(E.Control): pass

    cert = CF.Certifier()
    every, share = (10 ** 9, 0.1) if tier == 'quick' else (60, 0.3)

    def after():
        state['n'] += 1
        n = state['n']
        if n % every == 1:
            cert.off()
            cert.settle(share)
        elif n % every == 0:
            cert.on()
        if not fresh and n in (1, 3) and I.fingerprint('cmdis') != state['fp']:
            raise Dirty()
        if eng.complete and len(res['samples']) < want and (n <= 2 or (n * 7919 + seed) % 13 == 0):
            S = holder['S']
            m = T.Model(dict(eng.model.vars), dict(eng.model.arrays))
            try:
                obs = [SC.under(x, m) for x in S.obslog]
            except NotImplementedError:
                return
            full = {k: (m.get(k) if not isinstance(t.w, tuple) else None) for k, t in eng.decls.items()}
            mo = model_out(m)
            mo['vars'] = {k: int(v) for k, v in full.items() if v is not None}
            res['samples'].append({'idx': idx, 'model': mo, 'obs': obs})

    stack = [(p, model_in(m)) for p, m in stack]
    deadline = time.time() + budget
    cert.on()
    while True:
        left = None
        try:
            left = eng.explore(fn, stack, deadline, after)
        except Dirty:
            res['need_fresh'] = True
        except E.Diverged as e:
            if fresh:
                res['inconclusive'].append('execution is not repeatable: %s' % e)
                stack = eng.left
                continue
            res['need_fresh'] = True
        except E.Violation as v:
            res['violation'] = {'what': v.what, 'model': model_out(v.model), 'tb': getattr(v, 'tb', None)}
            left = eng.left
        except E.Inconclusive as e:
            res['inconclusive'].append(str(e) or 'inconclusive')
            stack = eng.left
            if len(res['inconclusive']) < 20:
                continue
            left = stack
        except MemoryError:
            res['inconclusive'].append('out of memory')
            left = []
        break
    cert.off()
    cert.settle(0.05)
    res['cert'] = (cert.done, cert.trivial, cert.unknown)
    for b in cert.bad:
        res['inconclusive'].append('normaliser step refuted: ' + b)
    if not fresh and not res['need_fresh'] and state['n'] > 3 and I.fingerprint('cmdis') != state['fp']:
        res['need_fresh'] = True
    if not res['need_fresh']:
        res['pending'] = [(p, model_out(m) if m is not None else None) for p, m in (left or [])]
    else:
        # leave a clean copy for the next task
        I.purge('cmdis')
    res['stats'] = eng.stats.dict()
    res['funcs'] = set(FUNCS)
    return res

def _msg(e):
    try:
        return str(e)[:200]
    except E.Control:
        return ''
    except Exception:
        return ''
