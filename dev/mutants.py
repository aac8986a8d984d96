"""Development tool (no check uses it): systematic mutants of the library that survive its tests.

  mutants.py make OUT.jsonl          every mutant that passes the existing tests
  mutants.py fast IN.jsonl OUT.txt   the same, deciding only the traces that differ from the library's
  mutants.py hunt IN.jsonl OUT.txt   which check (of those likely to see it) catches each
"""
import ast
import concurrent.futures as cf
import copy
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '/repo/src/sortedcontainers'
FILES = ['sortedlist.py', 'sortedset.py', 'sorteddict.py']
SKIP = {'_check', '__make_cmp_doc'}
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.Mult: ast.Add,
       ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.Pow: ast.Mult}
NAMES = {'bisect_left': 'bisect_right', 'bisect_right': 'bisect_left', 'insort': 'insort_left',
         '_setitem': 'setdefault', 'min_pos': 'max_pos', 'max_idx': 'min_idx'}


def muts(node):
    """[(description, replacement)] of one node."""
    out = []
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        n = copy.deepcopy(node)
        n.ops = [SWAP[type(node.ops[0])]()]
        out.append(('cmp', n))
        # the other relaxation of an order
        flip = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt}.get(type(node.ops[0]))
        if flip:
            n = copy.deepcopy(node)
            n.ops = [flip()]
            out.append(('neg', n))
    if isinstance(node, ast.Constant):
        if node.value is True or node.value is False:
            out.append(('bool', ast.Constant(not node.value)))
        elif isinstance(node.value, int):
            out.append(('+1', ast.Constant(node.value + 1)))
            out.append(('-1', ast.Constant(node.value - 1)))
    if isinstance(node, ast.BinOp) and type(node.op) in BIN:
        n = copy.deepcopy(node)
        n.op = BIN[type(node.op)]()
        out.append(('bin', n))
        out.append(('left', node.left))
    if isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node)
        n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        out.append(('boolop', n))
        for i in range(len(node.values)):
            out.append((f'operand{i}', node.values[i]))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
        out.append(('unary', node.operand))
    if isinstance(node, (ast.If, ast.IfExp, ast.While)):
        for v in (True, False):
            if isinstance(node, ast.While) and v:
                continue
            n = copy.deepcopy(node)
            n.test = ast.Constant(v)
            out.append((f'test{v}', n))
    if isinstance(node, ast.AugAssign) and type(node.op) in BIN:
        n = copy.deepcopy(node)
        n.op = BIN[type(node.op)]()
        out.append(('aug', n))
    if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and node.id in NAMES and node.id[0] == 'b':
        out.append(('name', ast.Name(NAMES[node.id], ast.Load())))
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) and not (
            isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
        out.append(('drop', ast.Pass()))
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in (
            'reversed', 'list', 'set', 'sorted', 'iter') and len(node.args) == 1:
        out.append(('unwrap', node.args[0]))
    if isinstance(node, ast.Call) and node.keywords:
        for i in range(len(node.keywords)):
            n = copy.deepcopy(node)
            del n.keywords[i]
            out.append((f'kw{i}', n))
    return out


SIBLING = {'bisect_left': 'bisect_right', 'bisect_right': 'bisect_left', 'bisect_key_left': 'bisect_key_right',
           'bisect_key_right': 'bisect_key_left', 'bisect_key': 'bisect', '_lists': '_keys', '_keys': '_lists',
           '_maxes': '_lists', '_len': '_load', 'add': 'append', 'union': 'symmetric_difference',
           'intersection': 'union', 'difference': 'symmetric_difference', '_list_add': '_list_remove',
           'irange_key': 'irange', 'irange': 'irange_key', '_islice': 'islice', 'remove': 'discard',
           'discard': 'remove', 'update': 'difference_update', '_getitem': '__getitem__', 'extend': 'append',
           '_set': '_list', '_list': '_set', '_bisect_right': '_bisect_left', '_clear': 'clear', 'islice': '_islice',
           '_update': 'update', '_reset': '_check', '__iter__': 'keys', 'issubset': 'issuperset',
           'issuperset': 'issubset', 'minimum': 'maximum', 'start': 'stop', 'stop': 'start', 'values': '_lists',
           'min_key': 'max_key', 'min_idx': 'max_idx', 'max_idx': 'min_idx', 'min_pos': 'max_pos',
           'max_pos': 'min_pos', 'pos': 'idx', 'idx': 'pos', 'key': 'value', 'value': 'key'}


def muts2(node):
    """The second generation: confusions a maintainer would make rather than token flips."""
    out = []
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        op, rhs = node.ops[0], node.comparators[0]
        none = isinstance(rhs, ast.Constant) and rhs.value is None
        if none and isinstance(op, ast.Is):
            out.append(('falsy', ast.UnaryOp(ast.Not(), node.left)))
        if none and isinstance(op, ast.IsNot):
            out.append(('truthy', node.left))
        if isinstance(op, (ast.Eq, ast.NotEq)) and not isinstance(rhs, ast.Constant):
            n = copy.deepcopy(node)
            n.ops = [ast.Is() if isinstance(op, ast.Eq) else ast.IsNot()]
            out.append(('identity', n))
        if isinstance(op, (ast.Eq, ast.NotEq)):
            n = copy.deepcopy(node)
            n.ops = [ast.GtE() if isinstance(op, ast.Eq) else ast.Lt()]
            out.append(('ge', n))
    if isinstance(node, ast.Call):
        if isinstance(node.func, ast.Name) and node.func.id == 'isinstance':
            out.append(('exacttype', ast.Compare(ast.Call(ast.Name('type', ast.Load()), [node.args[0]], []), [ast.Is()],
                                                 [node.args[1]])))
        if len(node.args) >= 2 and not any(isinstance(a, ast.Starred) for a in node.args):
            n = copy.deepcopy(node)
            n.args[0], n.args[1] = n.args[1], n.args[0]
            out.append(('swapargs', n))
            n = copy.deepcopy(node)
            n.args.pop()
            out.append(('poparg', n))
        if len(node.args) == 1 and not node.keywords and isinstance(node.func, ast.Name) and \
                node.func.id not in ('reversed', 'list', 'set', 'sorted', 'iter', 'len', 'isinstance', 'range'):
            out.append(('uncall', node.args[0]))
    if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
        if node.attr == '__class__':
            for c in ('SortedList', 'SortedSet', 'SortedDict'):
                out.append(('class' + c, ast.Name(c, ast.Load())))
        if node.attr in SIBLING:
            n = copy.deepcopy(node)
            n.attr = SIBLING[node.attr]
            out.append(('sibling', n))
    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice) and isinstance(node.ctx, ast.Load):
        for w in ('lower', 'upper', 'step'):
            if getattr(node.slice, w) is not None:
                n = copy.deepcopy(node)
                setattr(n.slice, w, None)
                out.append(('no' + w, n))
        out.append(('whole', node.value))
    if isinstance(node, ast.Return) and node.value is not None:
        out.append(('noreturn', ast.Expr(node.value)))
        if isinstance(node.value, ast.Call):
            out.append(('retlist', ast.Return(ast.Call(ast.Name('list', ast.Load()), [node.value], []))))
    if isinstance(node, ast.ExceptHandler):
        n = copy.deepcopy(node)
        n.type = ast.Name('ZeroDivisionError', ast.Load())
        out.append(('handler', n))
    if isinstance(node, (ast.For, ast.While)):
        n = copy.deepcopy(node)
        n.body.append(ast.Break())
        out.append(('once', n))
    for field in ('body', 'orelse', 'finalbody'):
        b = getattr(node, field, None)
        if not isinstance(b, list) or isinstance(node, (ast.Module, ast.ClassDef)):
            continue
        for i in range(len(b) - 1):
            if all(isinstance(x, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.If, ast.For)) and not (
                    isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)) for x in b[i:i + 2]):
                n = copy.deepcopy(node)
                c = getattr(n, field)
                c[i], c[i + 1] = c[i + 1], c[i]
                out.append((f'swap{field}{i}', n))
        for i in range(len(b)):
            if isinstance(b[i], (ast.Expr, ast.AugAssign, ast.Delete)) and not (
                    isinstance(b[i], ast.Expr) and isinstance(b[i].value, ast.Constant)):
                n = copy.deepcopy(node)
                getattr(n, field).insert(i, copy.deepcopy(b[i]))
                out.append((f'twice{field}{i}', n))
    if isinstance(node, ast.IfExp):
        out += [('iftrue', node.body), ('iffalse', node.orelse)]
    if isinstance(node, (ast.If,)) and node.orelse:
        n = copy.deepcopy(node)
        n.orelse = []
        out.append(('noelse', n))
    return out


class Repl(ast.NodeTransformer):
    def __init__(self, at, new):
        self.at, self.new, self.i = at, new, -1

    def visit(self, node):
        self.i += 1
        if self.i == self.at:
            return self.new
        return self.generic_visit(node)


def mutants():
    for f in FILES:
        src = open(os.path.join(BASE, f)).read()
        tree = ast.parse(src)
        # number nodes in Repl's order, note the enclosing function
        class Walk(ast.NodeVisitor):
            def __init__(self):
                self.n, self.path = [], []

            def visit(self, node):
                self.n.append((node, '.'.join(self.path)))
                named = isinstance(node, (ast.FunctionDef, ast.ClassDef))
                if named:
                    self.path.append(node.name)
                ast.NodeVisitor.generic_visit(self, node)
                if named:
                    self.path.pop()
        w = Walk()
        w.visit(tree)
        for at, (node, path) in enumerate(w.n):
            if not path or '_check' in path or path.count('.') == 0 and not path.startswith('_view'):
                continue
            for what, new in (muts2 if os.environ.get('MUT') == '2' else muts)(node):
                t = Repl(at, new).visit(copy.deepcopy(tree))
                s = ast.unparse(ast.fix_missing_locations(t))
                yield f, path, getattr(node, 'lineno', 0), what, ast.unparse(node)[:80].replace('\n', ' '), s


TEST = '''
cd {repo}
export PYTHONPATH={repo}/src PYTHONPYCACHEPREFIX={w}/pyc PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 PYTHONHASHSEED=0
ulimit -v 4000000
exec timeout 100 /opt/venv/bin/python -m pytest -x -q -p no:cacheprovider --timeout=30
'''


def make(out):
    todo = list(mutants())
    print(len(todo), 'mutants', flush=True)
    pool = queue.Queue()
    for _ in range(int(os.environ.get('HUNT_PAR', '7'))):
        w = tempfile.mkdtemp(prefix='mutants-')
        subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
        pool.put(w)

    def one(m):
        f, path, line, what, text, s = m
        w = pool.get()
        try:
            p = f'{w}/repo/src/sortedcontainers/{f}'
            orig = open(p).read()
            open(p, 'w').write(s)
            r = subprocess.run(['bash', '-c', TEST.format(repo=w + '/repo', w=w)], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            open(p, 'w').write(orig)
            return m, r.returncode, r.stdout[-200:]
        finally:
            pool.put(w)
    n = 0
    with cf.ThreadPoolExecutor(pool.qsize()) as ex, open(out, 'w') as fo:
        for m, rc, tail in ex.map(one, todo):
            n += 1
            if rc == 0:
                f, path, line, what, text, s = m
                fo.write(json.dumps(dict(id=n, file=f, path=path, line=line, what=what, text=text, src=s)) + '\n')
                fo.flush()
    while not pool.empty():
        shutil.rmtree(pool.get())
    print('done', flush=True)


LIKELY = {'sortedlist.py': ['C01', 'C08', 'C03', 'C02', 'C06', 'C07', 'C04', 'C05', 'C13', 'C19', 'C21', 'C17', 'C14', 'C20',
                            'C16', 'C18', 'C15'],
          'sortedset.py': ['C11', 'C12', 'C15', 'C13', 'C14', 'C16', 'C19', 'C21', 'C18', 'C20'],
          'sorteddict.py': ['C09', 'C10', 'C15', 'C13', 'C14', 'C20', 'C21', 'C16', 'C17', 'C19', 'C18']}


def hunt(path, out):
    ms = [json.loads(x) for x in open(path)]

    def one(m):
        w = tempfile.mkdtemp(prefix='mutants-')
        try:
            subprocess.run(['cp', '-a', '/repo/src', w + '/src'], check=True)
            open(f"{w}/src/sortedcontainers/{m['file']}", 'w').write(m['src'])
            bad = []
            for p in LIKELY[m['file']]:
                env = dict(os.environ, VERIF_REPO_SRC=w + '/src', VERIF_WORKERS='4', VERIF_MUTANT='1')
                r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), p, 'quick'], env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode == 1:
                    return m, 'CAUGHT ' + p
                if r.returncode:
                    bad.append(p + ' ' + r.stdout[-150:].replace('\n', ' '))
            return m, 'MISSED ' + ' | '.join(bad)
        finally:
            shutil.rmtree(w)
    with cf.ThreadPoolExecutor(int(os.environ.get('HUNT_PAR', '3'))) as ex, open(out, 'w') as fo:
        for m, res in ex.map(one, ms):
            fo.write(f"{m['id']} {m['file']} {m['path']}:{m['line']} {m['what']} [{m['text']}] {res}\n")
            fo.flush()


FASTREC = """
import os, sys, json
sys.path.insert(0, %r)
import rec
d, base = sys.argv[1], sys.argv[2]
for job in sys.argv[3:]:
    p, sh = job.split(':')
    out = d + '/' + p + '-' + sh + '.ndjson'
    rec.record(p, 'quick', os.environ.get('FAST_SEED', '1'), int(sh), int(os.environ.get('FAST_BUDGET', '3000')), out, wall=60)
    new = open(out).read().split('\\n')[:-1]
    if base != '-':
        old = set(open(base + '/' + p + '-' + sh + '.ndjson').read().split('\\n')[:-1])
        diff = [x for x in new if x not in old][:25]
        if diff:
            open(out, 'w').write('\\n'.join(diff) + '\\n')
            print(p, sh, len(diff), flush=True)
            sys.exit(0)
print('same')
"""


def fastrec(src, d, base, jobs):
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=src)
    r = subprocess.run(['/opt/venv/bin/python', '-c', FASTREC % os.path.join(HERE, 'harness'), d, base] + jobs, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return (r.stdout.strip() or 'died ' + r.stderr[-200:]), r.returncode


def fast(path, out, nsh='2'):
    """Compare the recorded traces of every mutant with those of the library; TLC decides where they differ."""
    sys.path.insert(0, HERE)
    import check
    ms = [json.loads(x) for x in open(path)]
    base = tempfile.mkdtemp(prefix='mutbase-')
    props = {f: [p + ':' + str(k) for k in range(int(nsh)) for p in ps] for f, ps in LIKELY.items()}
    allp = sorted({j for js in props.values() for j in js})
    par = int(os.environ.get('HUNT_PAR', '3'))
    with cf.ThreadPoolExecutor(par) as ex:
        list(ex.map(lambda j: fastrec('/repo/src', base, '-', [j]), allp))

    def one(m):
        w = tempfile.mkdtemp(prefix='mutants-')
        try:
            subprocess.run(['cp', '-a', '/repo/src', w + '/src'], check=True)
            open(f"{w}/src/sortedcontainers/{m['file']}", 'w').write(m['src'])
            jobs, quiet = list(props[m['file']]), []
            while jobs:
                s, rc = fastrec(w + '/src', w, base, jobs)
                if s == 'same':
                    break
                if rc or s.startswith('died'):
                    return m, 'DIED ' + s.replace('\n', ' ')[-150:]
                p, sh, n = s.split()
                lines = open(f'{w}/{p}-{sh}.ndjson').read().split('\n')[:-1]
                fl, _, _, bad = check.validate(lines, w, 'm')
                if fl or bad:
                    return m, f'CAUGHT {p} ' + ' '.join(sorted({c + str(sorted(l)) for _, _, c, l in fl})[:3])
                quiet.append(p)
                jobs = jobs[jobs.index(p + ':' + sh) + 1:]
            return m, ('DIFFERS ' + ' '.join(quiet)) if quiet else 'SAME'
        finally:
            shutil.rmtree(w)
    with cf.ThreadPoolExecutor(par) as ex, open(out, 'w') as fo:
        for fut in cf.as_completed([ex.submit(one, m) for m in ms]):
            m, res = fut.result()
            fo.write(f"{m['id']} {m['file']} {m['path']}:{m['line']} {m['what']} [{m['text']}] {res}\n")
            fo.flush()
    shutil.rmtree(base)


if __name__ == '__main__':
    {'make': make, 'hunt': hunt, 'fast': fast}[sys.argv[1]](*sys.argv[2:])
