#!/usr/bin/env python
"""Entry point of the checks: run.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]."""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.dont_write_bytecode = True
# never trust bytecode cached next to the sources: always compile the current tree
sys.pycache_prefix = '/nonexistent-rv-pycache'
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))

for var in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[var] = '1'


def main():
    import argparse
    import importlib

    parser = argparse.ArgumentParser()
    parser.add_argument('property', nargs='?', default='')
    parser.add_argument('--selftest', action='store_true', help='import every check against the current tree')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    parser.add_argument('--replay')
    args = parser.parse_args()

    from rvlib import core
    import parsevasp
    where = os.path.dirname(os.path.dirname(os.path.abspath(parsevasp.__file__)))
    if os.path.realpath(where) != os.path.realpath(core.REPO):
        print(f'ERROR: parsevasp was imported from {where}, not from {core.REPO}')
        return core.PROC_ERROR
    if args.selftest:
        mods = [importlib.import_module('checks.' + n[:-3]) for n in sorted(os.listdir(os.path.join(HERE, 'checks')))
                if n.endswith('.py') and n != '__init__.py']
        os.makedirs(core.EVIDENCE, exist_ok=True)
        print(f'{len(mods)} checks ready: {" ".join(m.PROPERTY for m in mods)}')
        return 0
    names = [n[:-3] for n in os.listdir(os.path.join(HERE, 'checks')) if n.startswith(args.property.lower() + '_')]
    if len(names) != 1:
        print(f'ERROR: no single check for {args.property}: {names}')
        return core.PROC_ERROR
    mod = importlib.import_module('checks.' + names[0])
    if args.replay:
        return core.replay(mod, args.replay)
    return core.main(mod, args.tier, args.seed)


if __name__ == '__main__':
    sys.exit(main())
