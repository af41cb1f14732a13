"""For every 'fixed:' entry: undo the fix in a scratch copy and see that its check reports the defect again.

usage: revert_check.py [commit or property ...]
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def main():
    only = sys.argv[1:]
    entries = []
    with open(os.path.join(HERE, 'known_findings.txt'), encoding='utf8') as handle:
        for line in handle:
            match = re.match(r'fixed: property=(\S+) (\S+) (.*)', line)
            if match and (not only or match.group(1) in only or match.group(2) in only):
                entries.append(match.groups())
    for prop, commit, text in entries:
        scratch = tempfile.mkdtemp(prefix='revert-')
        repo = os.path.join(scratch, 'repo')
        try:
            subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
            res = subprocess.run(['git', '-C', repo, '-c', 'user.name=x', '-c', 'user.email=x@x', 'revert', '--no-commit', commit],
                                 capture_output=True, text=True)
            if res.returncode:
                print(f'CONFLICT {prop} {commit} {text}', flush=True)
                continue
            if not os.path.exists(os.path.join(HERE, 'checks')) or not any(n.startswith(prop.lower()) for n in os.listdir(os.path.join(HERE, 'checks'))):
                print(f'NOCHECK  {prop} {commit} {text}', flush=True)
                continue
            out = subprocess.run([PY, os.path.join(HERE, 'run.py'), prop], env={**os.environ, 'VERIF_REPO': repo}, capture_output=True, text=True)
            mech = re.findall(r'mechanism=(\S+)', out.stdout)
            print(f"{'caught' if out.returncode == 1 else 'MISSED(%d)' % out.returncode}   {prop} {commit} {text} {sorted(set(mech))}", flush=True)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)


main()
