#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough]: decide one property of /repo's current tree."""
import sys, os, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import build, run, props


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    P = props.PROPS[pid]
    try:
        tasks = P['tasks'](tier)
    except build.BuildError as e:
        print(f'cannot build the analysed program: {e}')
        return 2
    except run.Fatal as e:
        r = run.Out('anchors')
        r.bad('anchors', str(e))
        return run.finish(pid, tier, [r.__dict__], P['level'], P['explanation'], P['assumptions'], t0)
    res = run.run_tasks(tasks)
    return run.finish(pid, tier, res, P['level'], P['explanation'], P['assumptions'], t0, floor=P.get('floor'), rules=P.get('rules'))


if __name__ == '__main__':
    s = main()
    sys.stdout.flush()
    sys.exit(s)
