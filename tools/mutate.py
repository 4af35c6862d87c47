"""Mutation testing of the checks (development tool):  mutate.py PROP FILE [function-prefix] [--n N] [--tests]

Makes small syntactic changes to FILE (relative to /repo/httpolice) in a scratch copy, runs the check of PROP on each and
lists those it does not report.  With --tests only mutants that the repository's tests accept are counted."""
import argparse
import ast
import os
import random
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
        ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def sites(tree, prefix):
    """-> list of (description, function applying the change to a fresh tree)"""
    out = []

    def scan(node, path, qual):
        for field, value in ast.iter_fields(node):
            kids = value if isinstance(value, list) else [value]
            for i, k in enumerate(kids):
                if not isinstance(k, ast.AST):
                    continue
                p = path + [(field, i if isinstance(value, list) else None)]
                q = qual + '.' + k.name if isinstance(k, (ast.FunctionDef, ast.ClassDef)) else qual
                if q.startswith('.' + prefix):
                    visit(k, p, q, node)
                scan(k, p, q)

    def visit(k, p, q, parent):
        line = getattr(k, 'lineno', 0)
        if isinstance(k, ast.Compare):
            for j, op in enumerate(k.ops):
                if type(op) in SWAP:
                    out.append(('%s:%d compare %s' % (q, line, type(op).__name__), p, ('cmp', j)))
        if isinstance(k, ast.BoolOp):
            out.append(('%s:%d and/or' % (q, line), p, ('bool',)))
            for j in range(len(k.values)):
                out.append(('%s:%d drop operand %d' % (q, line, j), p, ('drop', j)))
        if isinstance(k, (ast.If, ast.While, ast.IfExp)):
            out.append(('%s:%d negate condition' % (q, line), p, ('neg',)))
        if isinstance(k, ast.Constant) and isinstance(k.value, (int, str, bytes)) and not isinstance(parent, ast.Expr):
            if isinstance(k.value, bool):
                out.append(('%s:%d constant %r flipped' % (q, line, k.value), p, ('const', not k.value)))
            elif isinstance(k.value, int):
                out.append(('%s:%d constant %r+1' % (q, line, k.value), p, ('const', k.value + 1)))
        if isinstance(k, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Raise, ast.If)) and not (
                isinstance(k, ast.Expr) and isinstance(k.value, ast.Constant)):
            out.append(('%s:%d delete %s' % (q, line, type(k).__name__), p, ('del',)))
        if isinstance(k, ast.Return) and k.value is not None:
            out.append(('%s:%d return None' % (q, line), p, ('ret',)))
        if isinstance(k, ast.UnaryOp) and isinstance(k.op, ast.Not):
            out.append(('%s:%d drop not' % (q, line), p, ('dropnot',)))
        if isinstance(k, ast.Subscript) and isinstance(k.slice, ast.UnaryOp):
            out.append(('%s:%d index -1 to 0' % (q, line), p, ('idx',)))
    scan(tree, [], '')
    return out


def apply(src, p, change):
    tree = ast.parse(src)
    node, parent, last = tree, None, None
    for field, i in p:
        parent, last = node, (field, i)
        node = getattr(node, field) if i is None else getattr(node, field)[i]

    def put(new):
        if last[1] is None:
            setattr(parent, last[0], new)
        else:
            getattr(parent, last[0])[last[1]] = new
    c = change[0]
    if c == 'cmp':
        node.ops[change[1]] = SWAP[type(node.ops[change[1]])]()
    elif c == 'bool':
        node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
    elif c == 'drop':
        del node.values[change[1]]
        if len(node.values) == 1:
            put(node.values[0])
    elif c == 'neg':
        node.test = ast.UnaryOp(op=ast.Not(), operand=node.test)
    elif c == 'const':
        node.value = change[1]
    elif c == 'del':
        put(ast.Pass())
    elif c == 'ret':
        node.value = ast.Constant(value=None)
    elif c == 'dropnot':
        put(node.operand)
    elif c == 'idx':
        node.slice = ast.Constant(value=0)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('file')
    ap.add_argument('prefix', nargs='?', default='')
    ap.add_argument('--n', type=int, default=40)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tests', action='store_true')
    a = ap.parse_args()
    top = tempfile.mkdtemp(prefix='mut.')
    repo = os.path.join(top, 'repo')
    shutil.copytree('/repo', repo, symlinks=True)
    path = os.path.join(repo, 'httpolice', a.file)
    src = open(path).read()
    ss = sites(ast.parse(src), a.prefix)
    random.Random(a.seed).shuffle(ss)
    env = dict(os.environ, REPO_UNDER_TEST=repo, VERIF_EVIDENCE_DIR=os.path.join(top, 'ev'), VERIF_SEED='1', VERIF_TIER='quick')
    count = {}
    try:
        for desc, p, change in ss[:a.n]:
            try:
                new = apply(src, p, change)
                compile(new, path, 'exec')
            except Exception:
                continue
            open(path, 'w').write(new)
            if a.tests:
                r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', '--no-cov'], cwd=repo,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, PYTHONPATH=repo))
                if r.returncode:
                    continue
            try:
                r = subprocess.run([os.path.join(ROOT, 'check'), a.prop], cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                   timeout=300)
                out = r.stdout.decode('utf-8', 'replace')
                v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
                verdict = 'survived' if r.returncode == 0 else 'weak' if v and 'no-failing' in v[0] else 'killed' if v else 'error'
            except subprocess.TimeoutExpired:
                verdict, out = 'timeout', ''
            count[verdict] = count.get(verdict, 0) + 1
            if verdict != 'killed':
                print('%-9s %s' % (verdict, desc))
                if verdict == 'error':
                    print(out[-600:])
                sys.stdout.flush()
        print(count)
    finally:
        shutil.rmtree(top)


main()
