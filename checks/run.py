#!/usr/bin/env python3-vt
"""checks/run.py PROPERTY [quick|thorough]"""
import os, sys, traceback
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.setrecursionlimit(100000)
sys.dont_write_bytecode = True
def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    from irv import report, build
    import props
    rep = report.Report(pid, tier)
    try: props.PROPS[pid](rep)
    except build.BuildError as e: rep.error('build: %s' % e)
    except Exception as e: rep.error('check failed: ' + traceback.format_exc()[-3000:])
    rc = rep.finish()
    sys.stdout.flush()
    return rc
if __name__ == '__main__': sys.exit(main())
