"""Runs scenarios on concrete inputs against the plain code of /repo.

    pypy sx/replay.py FILE        FILE: {"property":..., "tier":..., "cases": [{"scenario":..., "model":...}]}

Prints one JSON line per case: {"ok": bool, "what": str, "obs": [...]}.
Also usable by hand on a single replay file written with a VIOLATION line.
"""
import collections
import collections.abc
import importlib
import importlib.util
import json
import os
import sys
import traceback
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import warnings
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
sys.path[:0] = ['/repo', VERIF]
if not hasattr(collections, 'Sequence'):
    collections.Sequence = collections.abc.Sequence


class VersionStub(object):
    """cmdis._version is generated by the build; stand in for it when absent."""
    def find_spec(self, name, path=None, target=None):
        if name == 'cmdis._version' and not os.path.exists('/repo/cmdis/_version.py'):
            return importlib.util.spec_from_loader(name, self)
        c = os.environ.get('VP_CONSOLE')
        if name == 'cmdis.console' and c:
            return importlib.util.spec_from_file_location(name, c)
    def create_module(self, spec): return None
    def exec_module(self, m): m.version = m.__version__ = '0'

sys.meta_path.insert(0, VersionStub())
from sx import concrete as C

def run(case, scens, reload_):
    S = C.ConcS(case['model'])
    if reload_: S.reload()
    try:
        scens[case['scenario']].fn(S)
        return {'ok': True, 'what': '', 'obs': [C.under(x) for x in S.obslog]}
    except C.Skip as e:
        return {'ok': True, 'what': 'not applicable: %s' % e, 'obs': None}
    except C.Failed as e:
        return {'ok': False, 'what': str(e), 'obs': []}
    except Exception as e:
        return {'ok': False, 'what': 'unexpected %s: %s' % (type(e).__name__, e), 'obs': [],
                'tb': traceback.format_exc()}

def main():
    d = json.load(open(sys.argv[1]))
    mod = importlib.import_module('checks.' + d['property'].lower())
    scens = {s.name: s for s in mod.scenarios(d['tier'])}
    bad = 0
    for c in d['cases']:
        r = run(c, scens, True)
        bad |= not r['ok']
        print(json.dumps(r))
    sys.exit(3 if bad else 0)

if __name__ == '__main__':
    main()
