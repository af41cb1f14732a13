"""Mutation survey: many small changes to parsevasp, which of them pass the tests, and which of those the checks notice.

Usage: mutate.py OUT.jsonl FILE[:limit] ... [--seed=N] [--jobs=N] [--again=MISSED.jsonl]
Every line of OUT.jsonl is one change: file, line, what, status (tests: the tests notice; a property id; MISSED), in scratch copies only.
Changes already in OUT.jsonl are not tried again.
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
RELEVANT = {'incar': 'C01 C02 C03 C21 C22 C23 C24', 'poscar': 'C04 C05 C06 C21 C22 C23 C24', 'kpoints': 'C07 C08 C09 C21 C22 C23 C24',
            'outcar': 'C10 C11 C21 C22 C23', 'stream': 'C12 C21 C22 C23', 'doscar': 'C13 C21 C22 C23', 'eigenval': 'C14 C21 C22 C23',
            'chgcar': 'C15 C21 C22 C23', 'potcar': 'C16 C21 C22 C23 C24', 'vasprun': 'C17 C18 C20 C19 C23 C21 C22',
            'base': 'C27 C24 C23 C21 C22', 'utils': 'C27 C01 C04 C07 C12 C14 C15 C05 C11 C21 C23 C22 C24', 'constants': 'C17 C01 C23'}
COMPARE = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
           ast.In: 'not in', ast.NotIn: 'in'}
ARITH = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '*', ast.Pow: '*'}


class Finder(ast.NodeVisitor):
    """Collects (start, end, replacement, what) of every change."""

    def __init__(self, text):
        self.text = text
        self.starts = [0]
        for line in text.encode().split(b'\n'):
            self.starts.append(self.starts[-1] + len(line) + 1)
        self.raw = text.encode()
        self.out = []
        self.skip = set()

    def span(self, node):
        return (self.starts[node.lineno - 1] + node.col_offset, self.starts[node.end_lineno - 1] + node.end_col_offset)

    def src(self, node):
        start, end = self.span(node)
        return self.raw[start:end].decode()

    def add(self, node, new, what):
        start, end = self.span(node)
        self.out.append((start, end, new, f'{what}: {self.raw[start:end].decode()[:70]!r} -> {new[:70]!r}', node.lineno))

    def quiet(self, node):
        for child in ast.walk(node):
            self.skip.add(id(child))

    def visit_Expr(self, node):
        if isinstance(node.value, ast.Constant):
            self.quiet(node)
            return
        if isinstance(node.value, ast.Call):
            name = self.src(node.value.func)
            if '_logger' in name or name.startswith('logger.'):
                if '.error' not in name:
                    self.quiet(node)
                    return
            self.add(node, 'pass', 'drop')
        self.generic_visit(node)

    def visit_Assign(self, node):
        self.add(node, 'pass', 'drop')
        self.generic_visit(node)

    def visit_AugAssign(self, node):
        self.add(node, 'pass', 'drop')
        self.generic_visit(node)

    def visit_Break(self, node):
        self.add(node, 'pass', 'drop')

    def visit_Continue(self, node):
        self.add(node, 'pass', 'drop')

    def visit_Return(self, node):
        if node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
            self.add(node.value, 'None', 'return')
        self.generic_visit(node)

    def visit_If(self, node):
        self.add(node.test, 'True', 'if')
        self.add(node.test, 'False', 'if')
        self.generic_visit(node)

    def visit_IfExp(self, node):
        self.add(node.test, 'True', 'if')
        self.add(node.test, 'False', 'if')
        self.generic_visit(node)

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            new = f'{self.src(node.left)} {COMPARE[type(node.ops[0])]} {self.src(node.comparators[0])}'
            self.add(node, new, 'compare')
        self.generic_visit(node)

    def visit_BoolOp(self, node):
        for i, val in enumerate(node.values):
            rest = [v for j, v in enumerate(node.values) if j != i]
            word = ' and ' if isinstance(node.op, ast.And) else ' or '
            self.add(node, '(' + word.join(f'({self.src(v)})' for v in rest) + ')', 'operand')
        word = ' or ' if isinstance(node.op, ast.And) else ' and '
        self.add(node, '(' + word.join(f'({self.src(v)})' for v in node.values) + ')', 'logic')
        self.generic_visit(node)

    def visit_UnaryOp(self, node):
        if isinstance(node.op, ast.Not):
            self.add(node, f'({self.src(node.operand)})', 'not')
        elif isinstance(node.op, ast.USub):
            self.add(node, f'({self.src(node.operand)})', 'sign')
        self.generic_visit(node)

    def visit_BinOp(self, node):
        if type(node.op) in ARITH and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
            self.add(node, f'{self.src(node.left)} {ARITH[type(node.op)]} {self.src(node.right)}', 'arithmetic')
        self.generic_visit(node)

    def visit_JoinedStr(self, node):
        self.quiet(node)

    def visit_Subscript(self, node):
        self.generic_visit(node)

    def visit_Call(self, node):
        name = self.src(node.func)
        if name.split('.')[-1] in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'copy', 'list', 'capitalize', 'array', 'asarray', 'transpose', 'ascontiguousarray', 'abs'):
            if isinstance(node.func, ast.Attribute) and not node.args and name.split('.')[0] not in ('np',):
                self.add(node, self.src(node.func.value), 'uncall')
            elif len(node.args) >= 1 and name in ('list', 'np.array', 'np.asarray', 'np.transpose', 'abs'):
                self.add(node, self.src(node.args[0]), 'uncall')
        for key in node.keywords:
            if key.arg and key.arg not in ('encoding', 'logger'):
                pass
        self.generic_visit(node)

    def visit_Constant(self, node):
        if id(node) in self.skip:
            return
        val = node.value
        if isinstance(val, bool):
            self.add(node, str(not val), 'constant')
        elif isinstance(val, int):
            self.add(node, str(val + 1), 'constant')
            if val:
                self.add(node, str(val - 1), 'constant')
        elif isinstance(val, float):
            self.add(node, repr(val * 2 + 1), 'constant')
        elif isinstance(val, str) and val:
            self.add(node, repr(val + 'X'), 'constant')
            if len(val) > 1 and not val.isspace():
                self.add(node, repr(val[:-1]), 'constant')

    def visit_FunctionDef(self, node):
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            self.quiet(body[0])
        self.generic_visit(node)

    visit_ClassDef = visit_FunctionDef


def mutants(path):
    with open(path, encoding='utf8') as handle:
        text = handle.read()
    finder = Finder(text)
    tree = ast.parse(text)
    for node in ast.walk(tree):
        if isinstance(node, (ast.Module, ast.ClassDef, ast.FunctionDef)) and node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant):
            finder.quiet(node.body[0])
        # the texts of the messages are of no interest
        if isinstance(node, ast.Call) and finder.src(node.func).endswith(('ERROR_MESSAGES.update', '_logger.error', 'logger.error', 'NotImplementedError', 'ValueError')):
            for arg in node.args:
                finder.quiet(arg)
    finder.visit(tree)
    out, seen = [], set()
    for start, end, new, what, line in finder.out:
        if (start, end, new) in seen:
            continue
        seen.add((start, end, new))
        raw = finder.raw[:start] + new.encode() + finder.raw[end:]
        try:
            compile(raw, path, 'exec')
        except (SyntaxError, ValueError):
            continue
        out.append((what, line, raw))
    return out


def run(cmd, cwd, env, timeout):
    full = dict(os.environ, **env)
    with subprocess.Popen(cmd, cwd=cwd, env=full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True) as proc:
        try:
            out, _ = proc.communicate(timeout=timeout)
            return proc.returncode, out
        except subprocess.TimeoutExpired:
            os.killpg(proc.pid, 9)
            proc.communicate()
            return 'timeout', ''


def worker(jobs, lock, out, done):
    dest = tempfile.mkdtemp(prefix='mut-')
    repo, verif = os.path.join(dest, 'repo'), os.path.join(dest, 'verif')
    shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns('.git'))
    shutil.copytree(VERIF, verif, symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded', 'out', 'evidence', '__pycache__'))
    try:
        while True:
            with lock:
                if not jobs:
                    return
                name, what, line, raw = jobs.pop()
            path = os.path.join(repo, 'parsevasp', name + '.py')
            with open(path, 'rb') as handle:
                keep = handle.read()
            with open(path, 'wb') as handle:
                handle.write(raw)
            res = {'file': name, 'line': line, 'what': what}
            env = {'PYTHONPATH': repo, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONPYCACHEPREFIX': dest + '/pyc', 'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1'}
            code, text = run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=60', f'--basetemp={dest}/tmp', 'tests'], repo, env, 300)
            if code != 0:
                res['status'] = 'tests'
            else:
                res['status'] = 'MISSED'
                for prop in RELEVANT[name].split():
                    env = {'VERIF_REPO': repo, 'VERIF_WORKERS': '1', 'VERIF_SEED': '1', 'VERIF_TIER': 'quick', 'VERIF_SCALE': '.1'}
                    code, text = run([PY, 'run.py', prop], verif, env, 900)
                    if code == 1 and 'VIOLATION' in text:
                        res['status'] = prop
                        res['how'] = text.splitlines()[1].strip() if len(text.splitlines()) > 1 else ''
                        break
                    if code != 0:
                        res['status'] = f'{prop}:{code}'
                        res['how'] = text[-300:]
                        break
            with open(path, 'wb') as handle:
                handle.write(keep)
            shutil.rmtree(os.path.join(verif, 'out'), ignore_errors=True)
            with lock:
                done.append(res)
                with open(out, 'a', encoding='utf8') as handle:
                    handle.write(json.dumps(res) + '\n')
    finally:
        shutil.rmtree(dest, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    opts = dict(a[2:].split('=') for a in sys.argv[1:] if a.startswith('--'))
    out, files = args[0], args[1:]
    known = set()
    if os.path.exists(out):
        with open(out, encoding='utf8') as handle:
            known = {(r['file'], r['line'], r['what']) for r in map(json.loads, handle)}
    again = None
    if 'again' in opts:
        with open(opts['again'], encoding='utf8') as handle:
            again = {(r['file'], r['what']) for r in map(json.loads, handle) if r['status'] == 'MISSED'}
    rng = random.Random(int(opts.get('seed', 1)))
    jobs = []
    for item in files:
        name, _, limit = item.partition(':')
        found = mutants(os.path.join('/repo/parsevasp', name + '.py'))
        if again is not None:
            found = [f for f in found if (name, f[0]) in again]
        picked = found if not limit else rng.sample(found, min(int(limit), len(found)))
        print(name, len(found), 'changes,', len(picked), 'tried')
        jobs += [(name, what, line, raw) for what, line, raw in picked if (name, line, what) not in known]
    if 'list' in opts:
        return
    rng.shuffle(jobs)
    lock, done = threading.Lock(), []
    threads = [threading.Thread(target=worker, args=(jobs, lock, out, done)) for _ in range(int(opts.get('jobs', 8)))]
    for thread in threads:
        thread.start()
    for thread in threads:
        thread.join()
    count = {}
    for res in done:
        key = res['status'] if res['status'] in ('tests', 'MISSED') else 'caught'
        count[key] = count.get(key, 0) + 1
    print(count)


if __name__ == '__main__':
    main()
