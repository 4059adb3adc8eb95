#!/usr/bin/env python3
"""run.py <property> [quick|thorough] [--replay FILE]

Decides one property of properties.jsonl for the code in /repo: exit 0 if it held
on everything explored, exit 1 with a VIOLATION line otherwise (2: the machinery
itself failed)."""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness'))
sys.dont_write_bytecode = True
import common  # noqa: E402

MODULES = dict(P01='check_imports', P03='check_flow', P04='check_flow', P05='check_flow', P06='check_flow', P07='check_flow',
               P09='check_flow', P10='check_flow', P11='check_flow', P13='check_flow',
               P14='check_estim', P15='check_estim', P08='check_map', P16='check_kernel',
               P12='check_session', P18='check_session', P19='check_session', P22='check_session', P23='check_session', P24='check_inter', P02='check_grid', P17='check_cdist', P20='check_flow', P21='check_flow', P25='check_flow')


def main():
    args = sys.argv[1:]
    only = None
    if '--replay' in args:
        i = args.index('--replay')
        with open(args[i + 1]) as h:
            only = [v['replay'] for v in json.load(h)['violations']]
        del args[i:i + 2]
    pid = args[0]
    if pid == 'setup':
        return common.setup()
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    ctx = common.Ctx(pid, tier, seed)
    try:
        mod = __import__(MODULES[pid])
        assume = mod.run(ctx, only)
        return common.finish(ctx, assume)
    except common.Machinery as e:
        print('MACHINERY: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


if __name__ == '__main__':
    sys.exit(main())
