"""Mutation sweep: which small changes of the library do no checks notice?

mutate.py OUT.jsonl [--files a.py,b.py] [--every N] [--offset K] [--procs 6] [--scale F]
Works on copies under /tmp/mutants; /repo is only read. Every mutant that passes the
repository's tests is run through the checks of its file (fast mode) until one fails."""
import argparse
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ProcessPoolExecutor, as_completed

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    'basic.py': 'C01 C02 C09 C03 C10 C28 C11 C12 C27 C13 C17 C26 C21 C25 C15 C31 C32',
    'handlers.py': 'C14 C13 C28 C16 C25',
    'images.py': 'C27',
    'link.py': 'C18',
    'math.py': 'C22 C23 C10 C25 C28',
    'utils.py': 'C28 C30 C12 C26 C25 C13 C09 C06 C14 C16',
    'base/base.py': 'C03 C15 C16 C09 C25 C11 C10 C12 C26 C17 C30 C14 C21 C13 C19 C31 C32',
    'base/containers.py': 'C05 C06 C28 C10 C09 C13 C12 C25 C21 C11 C26 C17 C31 C32',
    'base/instance.py': 'C08 C09 C25 C30 C10 C12 C17 C28 C31 C32',
    'base/union.py': 'C07 C09 C25 C10 C26 C04 C28 C17 C31 C32',
    'extras/singleton.py': 'C20 C31 C30 C12 C08',
    'extras/task.py': 'C24',
    'extras/uid.py': 'C19 C31 C29 C30 C12',
    'extras/web.py': 'C02 C29',
}
SWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt,
        ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
        ast.In: ast.NotIn, ast.NotIn: ast.In}
ARITH = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}


def docstrings(tree):
    out = set()
    for node in ast.walk(tree):
        body = getattr(node, 'body', None)
        if isinstance(body, list) and body and isinstance(body[0], ast.Expr) \
                and isinstance(body[0].value, ast.Constant):
            out.add(id(body[0]))
    return out


def edits(node, skip):
    """[(label, function(node) -> replacement node or list of statements)]"""
    out = []
    add = out.append
    if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in SWAP:
        def swap(n):
            n.ops = [SWAP[type(n.ops[0])]()]
            return n
        add(('compare', swap))
    if isinstance(node, ast.BoolOp):
        def flip(n):
            n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
            return n
        add(('boolop', flip))
        for i in range(len(node.values)):
            def drop(n, i=i):
                del n.values[i]
                return n.values[0] if len(n.values) == 1 else n
            add(('drop operand %d' % i, drop))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        add(('drop not', lambda n: n.operand))
    if isinstance(node, ast.BinOp) and type(node.op) in ARITH \
            and not isinstance(node.left, (ast.Constant, ast.JoinedStr)):
        def arith(n):
            n.op = ARITH[type(n.op)]()
            return n
        add(('arith', arith))
    if isinstance(node, (ast.If, ast.IfExp)):
        for val in (True, False):
            def cond(n, val=val):
                n.test = ast.Constant(val)
                return n
            add(('cond %s' % val, cond))
    if isinstance(node, ast.Constant):
        if isinstance(node.value, bool):
            add(('bool', lambda n: ast.Constant(not n.value)))
        elif isinstance(node.value, int):
            add(('int', lambda n: ast.Constant(n.value + 1)))
        elif isinstance(node.value, str) and ' ' not in node.value:
            add(('str', lambda n: ast.Constant(n.value + 'x')))
    if isinstance(node, ast.Call):
        for i in range(len(node.keywords)):
            def dropkw(n, i=i):
                del n.keywords[i]
                return n
            add(('drop keyword %s' % node.keywords[i].arg, dropkw))
        if len(node.args) == 1 and not node.keywords and isinstance(node.func, ast.Name):
            add(('drop call', lambda n: n.args[0]))
        if isinstance(node.func, ast.Attribute) and not node.args and not node.keywords:
            add(('drop method', lambda n: n.func.value))
    if isinstance(node, (ast.Expr, ast.AugAssign, ast.Raise, ast.Delete, ast.Continue,
                         ast.Break, ast.Assign)) and id(node) not in skip:
        add(('drop statement', lambda n: ast.Pass()))
    if isinstance(node, ast.Return) and node.value is not None:
        add(('return None', lambda n: ast.Return(None)))
    if isinstance(node, (ast.FunctionDef, ast.ClassDef)) and node.decorator_list:
        for i in range(len(node.decorator_list)):
            def undecorate(n, i=i):
                del n.decorator_list[i]
                return n
            add(('drop decorator', undecorate))
    if isinstance(node, ast.ExceptHandler):
        def reraise(n):
            n.body = [ast.Raise()]
            return n
        add(('reraise', reraise))
    if isinstance(node, ast.Tuple) and isinstance(node.ctx, ast.Load) and len(node.elts) > 1:
        for i in range(len(node.elts)):
            def less(n, i=i):
                del n.elts[i]
                return n
            add(('drop element %d' % i, less))
    return out


class Apply(ast.NodeTransformer):

    def __init__(self, target, number):
        self.target, self.number, self.count = target, number, -1
        self.label = self.line = None
        self.skip = ()

    def visit(self, node):
        self.count += 1
        if self.count == self.target:
            self.label, func = edits(node, self.skip)[self.number]
            self.line = getattr(node, 'lineno', 0)
            return func(node)
        return self.generic_visit(node)


def mutants(source):
    """[(node index, edit index)]"""
    tree = ast.parse(source)
    skip = docstrings(tree)
    out = []

    class Count(ast.NodeTransformer):
        def __init__(self):
            self.count = -1

        def visit(self, node):
            self.count += 1
            if not isinstance(node, (ast.Import, ast.ImportFrom)):
                for j in range(len(edits(node, skip))):
                    out.append((self.count, j))
            return self.generic_visit(node)
    Count().visit(tree)
    return out


def mutate(source, which):
    tree = ast.parse(source)
    tool = Apply(*which)
    tool.skip = docstrings(tree)
    tree = ast.fix_missing_locations(tool.visit(tree))
    return tool.label, tool.line, ast.unparse(tree)


def one(job):
    name, which, scale = job
    root = '/tmp/mutants/%d' % os.getpid()
    if not os.path.exists(root):
        os.makedirs('/tmp/mutants', exist_ok=True)
        subprocess.run(['cp', '-a', '/repo', root], check=True)
    path = os.path.join(root, 'properties', name)
    with open(os.path.join('/repo/properties', name)) as fid:
        source = fid.read()
    label, line, text = mutate(source, which)
    text_line = source.splitlines()[line - 1].strip() if line else ''
    res = {'file': name, 'which': which, 'label': label, 'line': line, 'text': text_line}
    dull = 'CLASS_TYPES' in text_line or 'PY2' in text_line or 'warn(' in text_line or \
        label == 'drop call' and text_line.startswith('raise') or 'class_info' in text_line
    if dull:
        return dict(res, result='dull')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=root, PYTHONHASHSEED='0',
               VERIF_REPO=root, VERIF_FAST='1', VERIF_SEED='1', VERIF_TIER='quick')
    try:
        with open(path, 'w') as fid:
            fid.write(text)
        try:
            proc = subprocess.run(
                ['/opt/venv/bin/python', '-m', 'pytest', 'tests', '-q', '-x', '-p',
                 'no:cacheprovider', '--timeout=30'], cwd=root, env=env,
                capture_output=True, text=True, timeout=100)
        except subprocess.TimeoutExpired:
            return dict(res, result='tests')
        if proc.returncode:
            return dict(res, result='tests')
        for check in CHECKS[name].split():
            try:
                proc = subprocess.run(
                    ['/opt/venv/bin/python', os.path.join(HERE, 'run.py'), check, '--workers',
                     '1', '--scale', str(scale)], cwd=HERE, env=env, capture_output=True,
                    text=True, timeout=300)
            except subprocess.TimeoutExpired:
                return dict(res, result=check, why='no answer')
            if proc.returncode:
                lines = [l for l in proc.stdout.splitlines() if l.startswith(check + '/')]
                return dict(res, result=check, rc=proc.returncode,
                            why=(lines or [proc.stderr[-200:]])[0][:200])
        return dict(res, result='SURVIVED')
    finally:
        shutil.copy(os.path.join('/repo/properties', name), path)


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('out')
    parser.add_argument('--files', default=','.join(CHECKS))
    parser.add_argument('--every', type=int, default=1)
    parser.add_argument('--offset', type=int, default=0)
    parser.add_argument('--procs', type=int, default=6)
    parser.add_argument('--scale', type=float, default=0.25)
    parser.add_argument('--again', help='only the survivors of this earlier output')
    args = parser.parse_args()
    jobs = []
    if args.again:
        with open(args.again) as fid:
            for row in map(json.loads, fid):
                if row['result'] == 'SURVIVED':
                    jobs.append((row['file'], tuple(row['which']), args.scale))
    else:
        for name in args.files.split(','):
            with open(os.path.join('/repo/properties', name)) as fid:
                found = mutants(fid.read())
            jobs += [(name, w, args.scale) for w in found]
        jobs = jobs[args.offset::args.every]
    print(len(jobs), 'mutants', flush=True)
    counts = {}
    with ProcessPoolExecutor(args.procs) as pool, open(args.out, 'w') as fid:
        for future in as_completed([pool.submit(one, j) for j in jobs]):
            res = future.result()
            fid.write(json.dumps(res) + '\n')
            fid.flush()
            counts[res['result']] = counts.get(res['result'], 0) + 1
            if res['result'] == 'SURVIVED':
                print(res['file'], res['line'], res['label'], '|', res['text'], flush=True)
    print(counts)


if __name__ == '__main__':
    sys.exit(main())
