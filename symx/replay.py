"""Re-run a recorded counterexample on the real code: python3-vt -m symx.replay FILE"""
import json
import sys
from . import run


def main(path):
    with open(path) as fh:
        d = json.load(fh)
    res = run.run_concrete(d['harness'], d['case'], d['inputs'])
    print('property %s, case %s' % (d['property'], d['case']['name']))
    print('inputs: %s' % json.dumps(run.compact(d['inputs']), sort_keys=True))
    for f in res['failed']:
        print('FAILED: %s' % f)
    if res['exc']:
        print('FAILED: %s' % res['exc'])
    return 1 if res['failed'] or res['exc'] else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
