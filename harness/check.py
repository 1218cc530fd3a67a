#!/usr/bin/env python3
"""check.py <property> [quick|thorough] | --replay <file>"""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
MODULES = {}
for _p in ('P01', 'P02', 'P03', 'P04', 'P05', 'P06', 'P07', 'P08'):
    MODULES[_p] = 'pipeline'
MODULES['P09'] = 'interp'
MODULES['P10'] = 'strategy'
MODULES['P11'] = MODULES['P12'] = 'store'
MODULES['P18'] = 'geo'
MODULES['P13'] = 'crash'
MODULES['P14'] = MODULES['P15'] = 'output'
MODULES['P16'] = 'options'
MODULES['P17'] = 'api'
MODULES['P19'] = 'failure'
MODULES['P20'] = 'process'
MODULES['P21'] = 'weights'
MODULES['P22'] = 'download'


def main():
    import core
    import tlc
    replay = None
    if sys.argv[1] == '--replay':
        with open(sys.argv[2]) as f:
            replay = json.load(f)
        pid = replay['property']
        tier = 'quick'
    else:
        pid = sys.argv[1]
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = core.Check(pid, tier, seed)
    try:
        m = importlib.import_module(MODULES[pid])
        if replay:
            m.replay(c, replay['detail'])
        else:
            m.run(c)
        rc = c.finish()
    except tlc.MachineryError as e:
        print('MACHINERY ERROR: %s' % e)
        # violations already found are reported all the same
        rc = c.finish() or 2
    except BaseException:
        traceback.print_exc()
        c.lab.close()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
