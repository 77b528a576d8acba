"""mutate.py N SEED [file ..]: mutation testing of the checks (development tool).

Makes N random small changes of /repo's modules in scratch copies and runs the checks
whose executed functions (evidence/<id>.json) contain the changed one, cheapest first,
until one reports a violation.  Survivors go to /tmp/mt/survivors.txt for review."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

SRC = os.environ.get('MUT_SRC', '/repo/src') + '/pyRFtk'
V = os.environ.get('MUT_VERIF', '/verif')
SKIPF = {'circuit.py', 'config.py', 'codebase.py', 'tictoc.py', 'whoami.py', '__init__.py',
         'compareSs.py', 'printMatrices.py'}
SKIPFN = {'__str__', 'asstr', '__repr__', 'plotVSWs', 'findpath', 'existspath'}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==',
       ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
OPS = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*', ast.MatMult: '*',
       ast.FloorDiv: '/', ast.Mod: '+'}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for l in src.encode().split(b'\n'):
        starts.append(starts[-1] + len(l) + 1)
    b = src.encode()
    out = []

    def pos(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def seg(n):
        s, e = pos(n)
        return b[s:e].decode()

    def add(n, new, what, fn):
        s, e = pos(n)
        out.append((fn, n.lineno, s, e, new, what))

    def dbg(n):
        t = seg(n)
        return re.match(r"\s*(_?debug_?|logit\[)", t) or 'logident' in t or 'tLogger' in t \
            or t.startswith('print(') or 'warn' in t[:10]

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in SKIPFN:
                return
            fn = fn + [n.name]
        if isinstance(n, ast.If) and '__main__' in seg(n.test):
            return
        if isinstance(n, ast.If) and re.match(r'_?debug_?$', seg(n.test)):
            return
        if isinstance(n, ast.Raise):
            add(n, 'pass', 'no raise', fn)
            return
        if isinstance(n, (ast.JoinedStr,)):
            return
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant) or dbg(n):
                return
            add(n, 'pass', 'drop', fn)
        if isinstance(n, ast.Assign) and re.match(r'_?debug_?$|msg$', seg(n.targets[0])):
            return
        if fn:
            if isinstance(n, ast.AugAssign):
                add(n, 'pass', 'drop', fn)
            if isinstance(n, (ast.Continue, ast.Break)):
                add(n, 'pass', 'drop', fn)
            if isinstance(n, ast.Assign) and (isinstance(n.targets[0], (ast.Attribute,
                                                                        ast.Subscript))):
                add(n, 'pass', 'drop', fn)
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                add(n.test, 'not (' + seg(n.test) + ')', 'negate', fn)
                add(n.test, 'False', 'never', fn)
                if not isinstance(n, ast.While):
                    add(n.test, 'True', 'always', fn)
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                add(n, '(%s %s %s)' % (seg(n.left), CMP[type(n.ops[0])],
                                       seg(n.comparators[0])), 'cmp', fn)
            if isinstance(n, ast.BinOp) and type(n.op) in OPS and not (
                    isinstance(n.op, ast.Mod) and isinstance(n.left, (ast.Constant))):
                add(n, '(%s %s %s)' % (seg(n.left), OPS[type(n.op)], seg(n.right)), 'op', fn)
                if isinstance(n.op, (ast.Add, ast.Sub)):
                    add(n, '(%s)' % seg(n.left), 'left', fn)
            if isinstance(n, ast.BoolOp):
                w = ' or ' if isinstance(n.op, ast.And) else ' and '
                add(n, '(' + w.join('(' + seg(v) + ')' for v in n.values) + ')', 'bool', fn)
                for i in range(len(n.values)):
                    add(n, '(' + seg(n.values[i]) + ')', 'part', fn)
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                add(n, '(' + seg(n.operand) + ')', 'unary', fn)
            if isinstance(n, ast.Constant):
                if isinstance(n.value, bool):
                    add(n, str(not n.value), 'const', fn)
                elif isinstance(n.value, int):
                    add(n, str(n.value + 1), 'const', fn)
                    if n.value:
                        add(n, str(n.value - 1), 'const', fn)
                elif isinstance(n.value, float):
                    add(n, '(2*%s + .1)' % seg(n), 'const', fn)
                elif isinstance(n.value, complex):
                    add(n, '(-%s)' % seg(n), 'const', fn)
            if isinstance(n, ast.Call):
                f = seg(n.func)
                if f.split('.')[-1] in ('conj', 'conjugate', 'real', 'imag', 'abs', 'transpose',
                                        'copy', 'deepcopy', 'sorted', 'reversed', 'upper',
                                        'lower', 'strip', 'sqrt', 'list', 'float') \
                        and n.args and len(n.args) == 1:
                    add(n, '(' + seg(n.args[0]) + ')', 'unwrap', fn)
                elif isinstance(n.func, ast.Attribute) and not n.args and n.func.attr in (
                        'conj', 'conjugate', 'transpose', 'copy', 'upper', 'lower', 'strip'):
                    add(n, '(' + seg(n.func.value) + ')', 'unwrap', fn)
                if len(n.args) == 2 and not n.keywords:
                    add(n, '%s(%s, %s)' % (f, seg(n.args[1]), seg(n.args[0])), 'swap', fn)
                if n.keywords:
                    k = random.choice(n.keywords)
                    if k.arg and len(n.args) + len(n.keywords) > 1:
                        rest = [seg(a) for a in n.args] + [
                            ('%s=%s' % (q.arg, seg(q.value)) if q.arg else '**' + seg(q.value))
                            for q in n.keywords if q is not k]
                        add(n, '%s(%s)' % (f, ', '.join(rest)), 'kwarg ' + k.arg, fn)
            if isinstance(n, ast.Attribute) and n.attr == 'T' and isinstance(n.ctx, ast.Load):
                add(n, seg(n.value), 'unT', fn)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.Expr) and dbg(c):
                continue
            visit(c, fn)
    visit(tree, [])
    return b, out


def cov():
    m = {}
    for p in sorted(os.listdir(V + '/evidence')):
        if p.endswith('.json'):
            e = json.load(open(V + '/evidence/' + p))
            for f in e['coverage']['functions_encoded']:
                m.setdefault(f, []).append((e['wall_s'], e['property']))
    return {k: [x[1] for x in sorted(v)] for k, v in m.items()}


def covered(m, base, fn):
    q = '.'.join(fn)
    for k in m:
        mod, name = k.split(':')
        if mod == base and name.replace('<locals>.', '') == q:
            return m[k]
    if len(fn) > 1:
        return covered(m, base, fn[:-1])
    return []


def run(i, path, b, mut, pids, jobs):
    fn, line, s, e, new, what = mut
    d = '/tmp/mt/w%d' % i
    os.makedirs(d)
    try:
        shutil.copytree(os.path.dirname(SRC), d + '/src', ignore=shutil.ignore_patterns('__pycache__'))
        nb = b[:s] + new.encode() + b[e:]
        open(d + '/src/pyRFtk/' + os.path.basename(path), 'wb').write(nb)
        desc = '%s:%d %s [%s] %r -> %r' % (os.path.basename(path), line, '.'.join(fn), what,
                                           b[s:e].decode()[:80], new[:80])
        try:
            compile(nb, path, 'exec')
        except SyntaxError:
            return None, desc, ''
        env = dict(os.environ, PYRFTK_SRC=d + '/src', PYTHONDONTWRITEBYTECODE='1')
        inc = ''
        for p in pids:
            try:
                r = subprocess.run(['/opt/venv/bin/python', V + '/check.py', p, '--jobs',
                                    str(jobs), '--noev'], env=env, capture_output=True, text=True,
                                   timeout=500)
            except subprocess.TimeoutExpired:
                inc += p + ':timeout '
                continue
            if r.returncode == 1:
                return True, desc, p
            if r.returncode != 0 or 'INCONCL' in r.stdout:
                inc += '%s:%s ' % (p, [l for l in r.stdout.split('\n') if 'INCON' in l
                                       or 'ERR' in l][:1])
        return False, desc, ' '.join(pids) + ' ' + inc
    finally:
        shutil.rmtree(d)


def main():
    N, seed = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:]
    W = int(os.environ.get('MUT_W', '4'))
    random.seed(seed)
    m = cov()
    pool = []
    for f in sorted(os.listdir(SRC)):
        if f.endswith('.py') and f not in SKIPF and (not files or f in files):
            b, ms = mutants(SRC + '/' + f)
            for x in ms:
                pool.append((SRC + '/' + f, b, x))
    random.shuffle(pool)
    os.makedirs('/tmp/mt', exist_ok=True)
    log = open('/tmp/mt/log_%d.txt' % seed, 'w')
    pick = []
    for path, b, x in pool:
        pids = covered(m, os.path.basename(path)[:-3], x[0])
        if not x[0]:
            continue
        pick.append((path, b, x, pids))
        if len(pick) == N:
            break
    print(len(pool), 'possible')
    c = dict(killed=0, survived=0, uncovered=0, bad=0)

    def one(a):
        i, (path, b, x, pids) = a
        pids = [p for p in pids if p not in os.environ.get('MUT_SKIP', '').split(',')]
        return run(seed * 100000 + i, path, b, x, pids[:12], max(1, 8 // W))
    with ThreadPoolExecutor(W) as ex:
        for (r, desc, p), (_, _, _, pids) in zip(ex.map(one, enumerate(pick)), pick):
            k = 'bad' if r is None else 'killed' if r else 'survived' if pids else 'uncovered'
            c[k] += 1
            log.write('%s | %s | %s\n' % (k, desc, p))
            log.flush()
    log.write(str(c) + '\n')


if __name__ == '__main__':
    main()
