"""Makes planted bugs: seed.py DEFS.py [id...]

DEFS.py holds BUGS = [dict(id, prop, edits=[(file, old, new)...], demo, needs, breaks)]. For each, in a scratch copy of
/repo: the demo passes; with the edits the build's syntax holds, the existing tests pass and the demo fails. Then
seeded/<id>/ is written.
"""
import sys, os, subprocess, json, shutil, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv-pypy/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', SETUPTOOLS_SCM_PRETEND_VERSION='0.1')
SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1
exec %s "$(cd "$(dirname "$0")" && pwd)/demo.py"
''' % PY
PRE = '''import sys, os
sys.path.insert(0, os.getcwd())
from cmdis.bitstring import *
from cmdis import model, mock_cpu, decoder, disasm, formatter, helpers, utilities, registers

def machine(*regions):
    c = model.CpuModel()
    c.delegate = mock_cpu.MockCpuModelDelegate()
    for s, n in regions: c.delegate.add_memory(s, n)
    return c

def code(*halfwords):
    return bytearray(b for h in halfwords for b in (h & 255, h >> 8))

def decode(*halfwords, **k):
    return disasm.decoder.decode(code(*halfwords), k.get('at', 0))

def want(got, expected, what):
    if got != expected:
        print('%s: got %r, expected %r' % (what, got, expected))
        sys.exit(1)

'''
CPRE = '''import sys, os, io, contextlib
sys.path.insert(0, '/opt/cmdis-build/lib')
import cmdis.__main__ as con
from cmdis import model, mock_cpu, disasm, formatter

def tool(data=b''):
    t = con.SimTool()
    t.binary_data = data
    t.create_sim()
    return t

def printed(f, *a):
    out = io.StringIO()
    with contextlib.redirect_stdout(out): f(*a)
    return out.getvalue()

def want(got, expected, what):
    if got != expected:
        print('%s: got %r, expected %r' % (what, got, expected))
        sys.exit(1)

'''

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)

def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    for b in bugs:
        if sys.argv[2:] and b['id'] not in sys.argv[2:]: continue
        d = tempfile.mkdtemp(prefix='seed-')
        try: print(b['id'], make(b, d), flush=True)
        finally: shutil.rmtree(d)

def make(b, d):
    r = os.path.join(d, 'repo')
    subprocess.check_call(['git', 'clone', '-q', '/repo', r])
    if os.path.exists('/repo/cmdis/_version.py'): shutil.copy('/repo/cmdis/_version.py', r + '/cmdis/')
    o = os.path.join(d, 'seed')
    os.mkdir(o)
    con = b.get('console')
    open(o + '/demo.py', 'w').write((CPRE if con else PRE) + b['demo'].strip() + '\n')
    open(o + '/demo.sh', 'w').write(SH)
    os.chmod(o + '/demo.sh', 0o755)
    def demo():
        if con:
            # the demo reads the build's output, so build this copy over it, for a moment
            subprocess.check_call('rm -rf /tmp/seed-build && %s setup.py -q build -b /tmp/seed-build >/dev/null 2>&1' % PY, shell=True, cwd=r, env=ENV)
            p = open(o + '/demo.py').read().replace('/opt/cmdis-build', '/tmp/seed-build')
            open(d + '/demo.py', 'w').write(p)
            return sh([PY, d + '/demo.py'], r)
        return sh(['bash', o + '/demo.sh'], r)
    x = demo()
    if x.returncode: return 'DEMO FAILS UNCHANGED ' + x.stdout[-600:]
    for f, old, new in b['edits']:
        p = os.path.join(r, 'cmdis', f)
        s = open(p).read()
        if s.count(old) != 1: return 'EDIT MATCHES %d TIMES: %s' % (s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', 'diff'], cwd=r, universal_newlines=True)
    # only lines of the original
    t = sh([PY, '-m', 'pytest', '-q', '-x', '--tb=line', '-p', 'no:cacheprovider'], r)
    if t.returncode: return 'TESTS FAIL ' + t.stdout[-500:]
    x = demo()
    if not x.returncode: return 'DEMO PASSES WITH THE BUG'
    out = os.path.join(V, 'seeded', b['id'])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    shutil.copytree(o, out)
    open(out + '/patch.diff', 'w').write(diff)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    own = []
    base = subprocess.check_output(['git', 'rev-list', '--max-parents=0', 'HEAD'], cwd='/repo', universal_newlines=True).strip()
    for f, old, new in b['edits']:
        s = open('/repo/cmdis/' + f).read()
        lo = s[:s.index(old)].count('\n') + 1
        bl = subprocess.check_output(['git', 'blame', '-l', '-s', '-L', '%d,+%d' % (lo, old.rstrip('\n').count('\n') + 1), 'cmdis/' + f], cwd='/repo', universal_newlines=True)
        own += [l for l in bl.splitlines() if not l.lstrip('^').startswith(base[:38])]
    return 'ok: ' + x.stdout.strip()[-150:] + (' OWN LINES: ' + '; '.join(own) if own else '')

main()
