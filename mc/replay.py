"""python mc/replay.py <replay file>: runs one recorded case against /repo, without the explorer.
Exit 0: the property holds on the case; exit 1: it fails (as recorded)."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, '/repo')
from mc import core


def tup(x):
    return tuple(tup(v) for v in x) if isinstance(x, list) else x


if __name__ == '__main__':
    r = json.load(open(sys.argv[1]))
    mod = importlib.import_module('mc.props.' + r['property'].lower())
    fam = [f for f in mod.FAMILIES if f.name == r['family']][0]
    print('property %s, family %s\ncase %s' % (r['property'], r['family'], json.dumps(r['case'])))
    msg = core.run_case(fam, tup(r['case']), core.Observer())
    print('holds' if msg is None else 'FAILS: ' + msg)
    sys.exit(0 if msg is None else 1)
