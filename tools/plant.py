"""Plants bugs: turns a plan (a python file defining PLAN) into seeded/<id>/ after confirming everything in scratch copies.

Every plan entry is a dict: id, prop, edits [(file, old, new)], demo (python body; `scratch` is a temporary folder), needs, breaks.
Usage: plant.py PLAN.py [id ...]      - plant
       plant.py --check [id ...]      - run the named property's check against every planted bug, in scratch copies
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
PY = '/opt/venv/bin/python'
DEMO = '''"""Demonstration: exits 0 when the property holds, 1 when it is broken."""
import os
import sys
import shutil
import tempfile
import logging
import warnings

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
logging.disable(logging.CRITICAL)
warnings.simplefilter('ignore')
scratch = tempfile.mkdtemp(prefix='demo-')


def expect(cond, what):
    if not cond:
        print('BROKEN:', what)
        shutil.rmtree(scratch, ignore_errors=True)
        sys.exit(1)


def write(name, text):
    path = os.path.join(scratch, name)
    with open(path, 'w', encoding='utf8') as handle:
        handle.write(text)
    return path


%s
shutil.rmtree(scratch, ignore_errors=True)
print('as it should be')
'''
SH = '''#!/bin/bash
# run with cwd = the repository
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=1200):
    full = dict(os.environ, **(env or {}))
    return subprocess.run(cmd, cwd=cwd, env=full, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, check=False)


def copy():
    dest = tempfile.mkdtemp(prefix='seed-')
    repo = os.path.join(dest, 'repo')
    shutil.copytree('/repo', repo, symlinks=True)
    return dest, repo


def tests(repo, dest):
    res = sh([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', f'--basetemp={dest}/tmp', 'tests'], repo,
             {'PYTHONPATH': repo, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': dest + '/pyc'})
    return res.stdout.strip().splitlines()[-1]


def original(repo):
    """Does the change replace lines of the original repository, not ones added since?"""
    changed = []
    for name in sh(['git', 'diff', '--name-only'], repo).stdout.split():
        blame = sh(['git', 'blame', '-s', '-l', '7c31b05..HEAD', '--', name], repo).stdout.splitlines()
        for line in sh(['git', 'diff', '-U0', '--', name], repo).stdout.splitlines():
            if line.startswith('@@'):
                spot = line.split()[1][1:].split(',')
                start, count = int(spot[0]), int(spot[1]) if len(spot) > 1 else 1
                changed += [blame[i - 1].startswith('^') for i in range(start, start + count)]
    return f'{sum(changed)} of {len(changed)} lines changed are original ones'


def plant(entry):
    ident = entry['id']
    dest, repo = copy()
    try:
        sh(['git', 'checkout', '-q', '--', '.'], repo)
        folder = os.path.join(SEEDED, ident)
        os.makedirs(folder, exist_ok=True)
        with open(os.path.join(folder, 'demo.py'), 'w', encoding='utf8') as handle:
            handle.write(DEMO % entry['demo'].strip('\n'))
        with open(os.path.join(folder, 'demo.sh'), 'w', encoding='utf8') as handle:
            handle.write(SH)
        os.chmod(os.path.join(folder, 'demo.sh'), 0o755)
        clean = sh(['bash', os.path.join(folder, 'demo.sh')], repo)
        for name, old, new in entry['edits']:
            path = os.path.join(repo, name)
            with open(path, encoding='utf8') as handle:
                text = handle.read()
            if text.count(old) != 1:
                return ident, False, f'{name}: the text to change occurs {text.count(old)} times: {old!r}'
            with open(path, 'w', encoding='utf8') as handle:
                handle.write(text.replace(old, new))
        diff = sh(['git', 'diff'], repo).stdout
        with open(os.path.join(folder, 'patch.diff'), 'w', encoding='utf8') as handle:
            handle.write(diff)
        with open(os.path.join(folder, 'meta.json'), 'w', encoding='utf8') as handle:
            json.dump({'property': entry['prop'], 'needs': entry['needs'], 'what_it_breaks': entry['breaks']}, handle, indent=1)
        passed = tests(repo, dest) + ', ' + original(repo)
        dirty = sh(['bash', os.path.join(folder, 'demo.sh')], repo)
        good = clean.returncode == 0 and dirty.returncode != 0 and '170 passed' in passed and 'failed' not in passed
        return ident, good, f'clean={clean.returncode} patched={dirty.returncode} tests={passed}\n' + (
            '' if good else clean.stdout[-800:] + '\n---\n' + dirty.stdout[-800:])
    finally:
        shutil.rmtree(dest)


def check(ident, seed='1', tier='quick'):
    folder = os.path.join(SEEDED, ident)
    with open(os.path.join(folder, 'meta.json'), encoding='utf8') as handle:
        prop = json.load(handle)['property']
    dest, repo = copy()
    try:
        res = sh(['git', 'apply', os.path.join(folder, 'patch.diff')], repo)
        if res.returncode:
            return ident, prop, None, res.stdout
        work = os.path.join(dest, 'verif')
        shutil.copytree(VERIF, work, ignore=shutil.ignore_patterns('.git', 'seeded', 'out', 'evidence', '__pycache__'))
        res = sh([PY, 'run.py', prop, '--tier', tier, '--seed', seed], work, {'VERIF_REPO': repo})
        return ident, prop, res.returncode, res.stdout
    finally:
        shutil.rmtree(dest)


def main():
    args = sys.argv[1:]
    if args and args[0] == '--check':
        seed = '1'
        args = args[1:]
        if args and args[0].startswith('--seed='):
            seed = args.pop(0)[7:]
        names = args or sorted(os.listdir(SEEDED))
        for name in names:
            ident, prop, code, out = check(name, seed)
            hit = code == 1 and f'VIOLATION property={prop} ' in out
            mech = [l.strip() for l in out.splitlines() if 'mechanism=' in l][:1]
            print(f"{'caught' if hit else 'MISSED'} {ident} by {prop} (exit {code}) {' '.join(mech)}", flush=True)
            if not hit:
                print('   ', out[-300:])
        return
    scope = {}
    with open(args[0], encoding='utf8') as handle:
        exec(compile(handle.read(), args[0], 'exec'), scope)  # pylint: disable=exec-used
    todo = [e for e in scope['PLAN'] if len(args) == 1 or e['id'] in args[1:]]
    with ThreadPoolExecutor(4) as pool:
        for ident, good, text in pool.map(plant, todo):
            print('PLANTED' if good else 'FAILED ', ident, text, flush=True)


if __name__ == '__main__':
    main()
