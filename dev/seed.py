#!/usr/bin/env python3
"""Development tool (no check uses it): builds and evaluates the planted bugs.

  seed.py make DEFS.py [ids]   write seeded/<id>/ from the definitions
  seed.py test [ids]           in a scratch copy: patch applies, tests pass,
                               the demo separates the two trees
  seed.py hunt [-p PROPS] [ids]  run the quick check(s) against each bug
"""
import ast
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')
FILES = {'L': 'sortedlist.py', 'S': 'sortedset.py', 'D': 'sorteddict.py'}
DEMO = '''#!/bin/bash
# cwd: the repository.  Exit 0 if the guarantee holds, nonzero otherwise.
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
export PYTHONPYCACHEPREFIX="$w" PYTHONNOUSERSITE=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
export PYTHONPATH="$PWD/src"
timeout 120 /opt/venv/bin/python "$d/demo.py"
'''


def span(src, where):
    """(start, end) offsets of Class.method or function."""
    t = ast.parse(src)
    body, node = t.body, None
    for part in where.split('.'):
        node = next(n for n in body if isinstance(n, (ast.ClassDef, ast.FunctionDef)) and n.name == part)
        body = node.body
    lines = src.splitlines(True)
    return sum(map(len, lines[:node.lineno - 1])), sum(map(len, lines[:node.end_lineno]))


def edited(srcs, edits):
    for f, where, old, new in edits:
        f = FILES[f]
        s = srcs[f]
        a, b = span(s, where)
        old, new = textwrap.dedent(old).strip('\n'), textwrap.dedent(new).strip('\n')
        # match with any indentation
        part = s[a:b]
        pl = part.split('\n')
        ol = old.split('\n')
        hit = None
        for i in range(len(pl) - len(ol) + 1):
            ind = len(pl[i]) - len(pl[i].lstrip()) if pl[i].strip() else 0
            pre = pl[i][:ind]
            if all((pl[i + k] == pre + ol[k]) or (not ol[k].strip() and not pl[i + k].strip()) for k in range(len(ol))):
                hit = (i, pre)
                break
        if hit is None:
            raise SystemExit(f'no match for {old!r} in {where}')
        i, pre = hit
        nl = [pre + x if x.strip() else x for x in new.split('\n')] if new else []
        pl[i:i + len(ol)] = nl
        srcs[f] = s[:a] + '\n'.join(pl) + s[b:]
    return srcs


def make(defs, ids):
    ns = {}
    exec(open(defs).read(), ns)
    for m in ns['BUGS']:
        if ids and m['id'] not in ids:
            continue
        base = '/repo/src/sortedcontainers'
        srcs = {f: open(os.path.join(base, f)).read() for f in FILES.values()}
        orig = dict(srcs)
        try:
            srcs = edited(srcs, m['edits'])
        except SystemExit as e:
            print(m['id'], e)
            continue
        d = os.path.join(SEED, m['id'])
        os.makedirs(d, exist_ok=True)
        w = tempfile.mkdtemp()
        for side, tree in (('a', orig), ('b', srcs)):
            os.makedirs(f'{w}/{side}/src/sortedcontainers')
            for f, s in tree.items():
                open(f'{w}/{side}/src/sortedcontainers/{f}', 'w').write(s)
        p = subprocess.run(['git', 'diff', '--no-index', '--no-color', 'a', 'b'], cwd=w, stdout=subprocess.PIPE, text=True)
        diff = p.stdout.replace('a/a/', 'a/').replace('b/b/', 'b/')
        shutil.rmtree(w)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(textwrap.dedent(m['demo']).lstrip())
        json.dump(dict(property=m['property'], needs=m['needs'], what_it_breaks=m['breaks']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def copy(bug):
    w = tempfile.mkdtemp(prefix='mut-')
    subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
    r = subprocess.run(['git', '-C', w + '/repo', 'apply', os.path.join(SEED, bug, 'patch.diff')],
                       stderr=subprocess.PIPE, text=True)
    if r.returncode:
        shutil.rmtree(w)
        raise RuntimeError('patch does not apply: ' + r.stderr)
    return w


def tests(repo, w):
    env = dict(os.environ, PYTHONPYCACHEPREFIX=w + '/pyc', PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1',
               PYTHONHASHSEED='0')
    script = open('/opt/vp/test.sh').read().replace('cd /repo', f'cd {repo}\nexport PYTHONPATH={repo}/src')
    open(w + '/t.sh', 'w').write(script)
    subprocess.run(['bash', w + '/t.sh', w + '/out.json'], stdout=open(w + '/log', 'w'), stderr=subprocess.STDOUT, env=env)
    out = json.load(open(w + '/out.json'))
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    passed = out.get('passed') or []
    return sorted(stable - set(passed))


def test(bug):
    try:
        w = copy(bug)
    except RuntimeError as e:
        return bug, str(e)
    try:
        demo = os.path.join(SEED, bug, 'demo.sh')
        a = subprocess.run(['bash', demo], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        b = subprocess.run(['bash', demo], cwd=w + '/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        missing = tests(w + '/repo', w)
        msg = []
        if a.returncode != 0:
            msg.append('demo fails on the clean tree: ' + a.stdout[-300:])
        if b.returncode == 0:
            msg.append('demo passes with the bug')
        if missing:
            msg.append(f'{len(missing)} tests fail: ' + ' '.join(missing[:3]))
        return bug, '; '.join(msg) or 'ok'
    finally:
        shutil.rmtree(w)


def hunt(bug, props):
    w = copy(bug)
    try:
        meta = json.load(open(os.path.join(SEED, bug, 'meta.json')))
        res = {}
        for p in props or [meta['property']]:
            env = dict(os.environ, VERIF_REPO_SRC=w + '/repo/src', VERIF_SEED=os.environ.get('VERIF_SEED', '1'),
                       VERIF_WORKERS=os.environ.get('HUNT_WORKERS', '4'))
            r = subprocess.run([sys.executable, os.path.join(HERE, 'check.py'), p, 'quick'], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            res[p] = (r.returncode, r.stdout)
        return bug, meta['property'], res
    finally:
        shutil.rmtree(w)


def rate(ids, seeds, nsh=6, budget=12000):
    """How often each planted bug is seen under its property, over several seeds (recorded shards only)."""
    sys.path.insert(0, HERE)
    import check
    import mutants
    par = int(os.environ.get('HUNT_PAR', '4'))
    os.environ['FAST_BUDGET'] = str(budget)
    props = {b: json.load(open(os.path.join(SEED, b, 'meta.json')))['property'] for b in ids}
    got = {b: [] for b in ids}
    for sd in seeds:
        os.environ['FAST_SEED'] = sd
        base = tempfile.mkdtemp(prefix='mutbase-')
        with cf.ThreadPoolExecutor(par) as ex:
            list(ex.map(lambda j: mutants.fastrec('/repo/src', base, '-', [j]),
                        [f'{p}:{k}' for p in sorted(set(props.values())) for k in range(nsh)]))

        def one(b):
            w = copy(b)
            n = 0       # shards that see it
            try:
                for k in range(nsh):
                    s, rc = mutants.fastrec(w + '/repo/src', w, base, [f'{props[b]}:{k}'])
                    if s == 'same':
                        continue
                    if rc or s.startswith('died'):
                        return b, s
                    lines = open(f'{w}/{props[b]}-{k}.ndjson').read().split('\n')[:-1]
                    fl, _, _, bad = check.validate(lines, w, 'm')
                    if bad or any(props[b] in l for _, _, _, l in fl):
                        n += 1
                    if n == 3:
                        break
                return b, n
            finally:
                shutil.rmtree(w)
        with cf.ThreadPoolExecutor(par) as ex:
            for b, n in ex.map(one, ids):
                got[b].append(n)
        shutil.rmtree(base)
        for b in ids:
            if got[b][-1] != 3:
                print('seed', sd, b, got[b][-1], flush=True)


if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        make(args[0], args[1:])
    elif cmd == 'rate':
        rate(args[1:] or sorted(os.listdir(SEED)), args[0].split(','))
    elif cmd == 'test':
        ids = args or sorted(os.listdir(SEED))
        with cf.ThreadPoolExecutor(7) as ex:
            for b, m in ex.map(test, ids):
                print(b, m, flush=True)
    elif cmd == 'hunt':
        props = []
        if args and args[0] == '-p':
            props = args[1].split(',')
            args = args[2:]
        ids = args or sorted(os.listdir(SEED))
        with cf.ThreadPoolExecutor(int(os.environ.get('HUNT_PAR', '3'))) as ex:
            for b, own, res in ex.map(lambda b: hunt(b, props), ids):
                for p, (rc, out) in res.items():
                    v = [x.strip()[:150] for x in out.split('\n') if x.startswith('  ')][:1]
                    print(f"{b} {p} {'CAUGHT' if rc == 1 else 'missed' if rc == 0 else 'RC=%d' % rc} {v if rc == 1 else out[-300:] if rc not in (0, 1) else ''}", flush=True)
