#!/usr/bin/env python3
"""run.py <ID> [--tier quick|thorough]  |  run.py replay <file>  |  run.py setup"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'pylib'))
sys.dont_write_bytecode = True
import drv, props

def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__); return 2
    tier = 'quick'
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if a[0] == 'setup':
        return props.setup()
    if a[0] == 'replay':
        return props.replay(a[1])
    pid = a[0]
    rep = drv.Report(pid, tier)
    b = drv.Build(pid)
    try:
        props.CHECKS[pid](rep, b, tier)
        rep.extra['build_s'] = round(b.secs, 2)
    except drv.CheckError as e:
        rep.errors.append(str(e)[-3000:])
    finally:
        if not os.environ.get('VERIF_KEEP'):
            b.clean()
    return rep.finish()

sys.exit(main())
