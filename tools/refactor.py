"""Rewrites parsevasp without changing what it does, in scratch copies, and runs the tests and the checks on it: all of them have to stay quiet.

Usage: refactor.py [--seeds=N,M] [--rate=R] [C01 ...]
Every place is rewritten with probability R: branches swapped, loops over iterators spelled out, comprehensions turned into generators or loops,
results named before they are returned, methods and functions moved into helpers, statements that do nothing added, independent assignments swapped.
"""
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


class Rewriter(ast.NodeTransformer):

    def __init__(self, rng, rate):
        self.rng = rng
        self.rate = rate
        self.count = 0
        self.done = {}

    def dice(self, what):
        if self.rng.random() < self.rate:
            self.done[what] = self.done.get(what, 0) + 1
            self.count += 1
            return True
        return False

    def name(self, stem):
        return f'_{stem}_{self.count}'

    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse and self.dice('branches swapped'):
            return ast.If(ast.UnaryOp(ast.Not(), node.test), node.orelse, node.body)
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        if not node.orelse and self.dice('loop spelled out'):
            name = self.name('rest')
            step = ast.Try([ast.Assign([node.target], ast.Call(ast.Name('next', ast.Load()), [ast.Name(name, ast.Load())], []))],
                           [ast.ExceptHandler(ast.Name('StopIteration', ast.Load()), None, [ast.Break()])], [], [])
            return [ast.Assign([ast.Name(name, ast.Store())], ast.Call(ast.Name('iter', ast.Load()), [node.iter], [])),
                    ast.While(ast.Constant(True), [step] + node.body, [])]
        return node

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if self.dice('comprehension'):
            return ast.Call(ast.Name('list', ast.Load()), [ast.GeneratorExp(node.elt, node.generators)], [])
        return node

    def visit_Return(self, node):
        self.generic_visit(node)
        if node.value is not None and not isinstance(node.value, ast.Name) and self.dice('result named'):
            name = self.name('result')
            return [ast.Assign([ast.Name(name, ast.Store())], node.value), ast.Return(ast.Name(name, ast.Load()))]
        return node

    def body(self, stmts):
        out = []
        simple = lambda s: isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.Constant, ast.List)) and not getattr(s.value, 'elts', None)  # noqa: E731
        for stmt in stmts:
            if out and simple(stmt) and simple(out[-1]) and out[-1].targets[0].id != stmt.targets[0].id and self.dice('assignments swapped'):
                out.insert(-1, stmt)
                continue
            out.append(stmt)
        return out

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        node.body = self.body(node.body)
        if self.dice('statement that does nothing'):
            at = 1 if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
            node.body.insert(at, ast.parse('_ = None' if self.rng.random() < .5 else 'pass').body[0])
        inner = any(isinstance(n, (ast.Yield, ast.YieldFrom)) or isinstance(n, ast.Name) and n.id in ('super', '__class__', 'locals') or isinstance(n, ast.Attribute) and n.attr == '_getframe'
                    for n in ast.walk(node))
        if inner or node.decorator_list or node.name.startswith('__') and node.name != '__init__' or not self.dice('moved into a helper'):
            return node
        helper = '_helper_' + self.owner + node.name
        args = node.args
        if args.posonlyargs or args.kwonlyargs or args.vararg:
            return node
        names = [a.arg for a in args.args]
        keywords = [ast.keyword(None, ast.Name(args.kwarg.arg, ast.Load()))] if args.kwarg else []
        if self.depth and names and names[0] == 'self':
            func = ast.Attribute(ast.Name('self', ast.Load()), helper, ast.Load())
            call = ast.Call(func, [ast.Name(n, ast.Load()) for n in names[1:]], keywords)
        elif not self.depth:
            call = ast.Call(ast.Name(helper, ast.Load()), [ast.Name(n, ast.Load()) for n in names], keywords)
        else:
            return node
        wrapper = ast.FunctionDef(node.name, args, [ast.Return(call)], [], node.returns)
        doc = ast.get_docstring(node)
        if doc:
            wrapper.body.insert(0, ast.Expr(ast.Constant(doc)))
        plain = ast.arguments([], [ast.arg(n) for n in names], None, [], [], args.kwarg, [])
        return [wrapper, ast.FunctionDef(helper, plain, node.body, [], None)]

    depth = 0
    owner = ''

    def visit_ClassDef(self, node):
        self.depth += 1
        self.owner = node.name
        self.generic_visit(node)
        self.depth -= 1
        self.owner = ''
        return node


def rewrite(path, rng, rate):
    with open(path, encoding='utf8') as handle:
        text = handle.read()
    rewriter = Rewriter(rng, rate)
    tree = ast.fix_missing_locations(rewriter.visit(ast.parse(text)))
    with open(path, 'w', encoding='utf8') as handle:
        handle.write(ast.unparse(tree) + '\n')
    return rewriter.done


def main():
    seeds, rate, props = [1, 2], .3, []
    for arg in sys.argv[1:]:
        if arg.startswith('--seeds='):
            seeds = [int(x) for x in arg[8:].split(',')]
        elif arg.startswith('--rate='):
            rate = float(arg[7:])
        else:
            props.append(arg)
    props = props or [f'C{i:02d}' for i in range(1, 28)]
    for seed in seeds:
        rng = random.Random(seed)
        dest = tempfile.mkdtemp(prefix='refactor-')
        repo = os.path.join(dest, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        done = {}
        for name in sorted(os.listdir(os.path.join(repo, 'parsevasp'))):
            if name.endswith('.py') and name != '__init__.py':
                for key, val in rewrite(os.path.join(repo, 'parsevasp', name), rng, rate).items():
                    done[key] = done.get(key, 0) + val
        env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1', VERIF_REPO=repo)
        res = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', f'--basetemp={dest}/tmp', 'tests'], cwd=repo, env=env, capture_output=True, text=True, check=False)
        print(f'seed {seed}, rate {rate}: {done}\n  tests: {res.stdout.strip().splitlines()[-1]}', flush=True)
        for prop in props:
            res = subprocess.run([PY, 'run.py', prop], cwd=VERIF, env=env, capture_output=True, text=True, check=False)
            out = (res.stdout.strip() or res.stderr.strip()).splitlines()
            if res.returncode:
                print(f'  ALARM {prop} (exit {res.returncode})\n    ' + '\n    '.join(line[:300] for line in out[:6]), flush=True)
        shutil.rmtree(dest, ignore_errors=True)
    print('done')


if __name__ == '__main__':
    main()
