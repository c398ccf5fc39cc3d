"""python3-vt run_check.py C01 [--tier quick|thorough] [-v] [--only NAME]"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

def main():
    import argparse
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=('quick', 'thorough'))
    p.add_argument('--limit', type=float)
    p.add_argument('--only', action='append')
    p.add_argument('-v', action='store_true')
    a = p.parse_args()
    from sx import driver
    limit = a.limit or (700 if a.tier == 'quick' else 5400)
    try:
        rc = driver.Check(a.property, a.tier, limit, a.only, a.v).run()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)

if __name__ == '__main__':
    main()
