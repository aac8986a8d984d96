#!/usr/bin/env python3
"""replay.py REPLAY.json [--min]

Re-executes the program of a saved violation against /repo's current tree and
checks the execution against the specification again.  --min first removes as
many calls as it can while the same clause still fails.
Exit 1: the violation shows again; 0: it does not; 2: it could not be run.
"""
import json
import os
import shutil
import sys
import tempfile

import check
from check import HARNESS, REPO_SRC, Machinery, validate

sys.path.insert(0, REPO_SRC)


def execute(meta, progs):
    """The events of a program, on fresh containers."""
    import rt
    rt.install_alarm()
    s = rt.Session(meta['fam'], meta.get('wrap', 'int'), meta.get('track', False), meta.get('cost', False))
    ev = []
    for p in progs:
        ev.append(s.apply(json.loads(json.dumps(p))))
    return ev


def child(path, out):
    """Run in a process of its own: executes every candidate of `path`."""
    with open(path) as f:
        job = json.load(f)
    with open(out, 'w') as f:
        for progs in job['cands']:
            try:
                ev = execute(job['meta'], progs)
            except Exception:
                ev = []
            f.write(json.dumps({'ev': ev}, separators=(',', ':')) + '\n')


def fails(prop, meta, cands, work):
    """For every candidate program the set of (event, clause) that fail for prop, and its events."""
    import subprocess
    job, out = os.path.join(work, 'job.json'), os.path.join(work, 'events.ndjson')
    with open(job, 'w') as f:
        json.dump(dict(meta=meta, cands=cands), f)
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=REPO_SRC)
    subprocess.run([check.PY, os.path.abspath(__file__), '--child', job, out], env=env, check=True, timeout=600)
    with open(out) as f:
        lines = f.read().split('\n')[:-1]
    res = [(set(), json.loads(x)['ev']) for x in lines]
    keep = [i for i, (_, ev) in enumerate(res) if ev]
    if keep:
        fl, _, _, bad = validate([lines[i] for i in keep], work, 'replay')
        for t, l, c, labels in fl:
            if prop in labels:
                res[keep[t]][0].add((l, c))
        for t, l, msg in bad:
            res[keep[t]][0].add((l, 'inexplicable'))
    return res


def minimise(prop, meta, progs, clause, work):
    size = max(1, len(progs) // 2)
    while True:
        i, changed = 0, False
        while True:
            cands = [progs[:j] + progs[j + size:] for j in range(0, len(progs), size)]
            cands = [c for c in cands if c][:400]
            res = fails(prop, meta, cands, work)
            ok = [(min(l for l, c in f if c == clause), k) for k, (f, _) in enumerate(res)
                  if any(c == clause for _, c in f)]
            if not ok:
                break
            l, k = min(ok)
            progs, changed = cands[k][:l], True
            print(f'  {len(progs)} calls', flush=True)
        if size == 1 and not changed:
            return progs
        size = max(1, size // 2)


def main():
    if sys.argv[1] == '--child':
        child(*sys.argv[2:4])
        return 0
    with open(sys.argv[1]) as f:
        body = json.load(f)
    prop, meta, progs = body['property'], body['meta'], body['program'][:body['event']]
    work = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        (f, ev), = fails(prop, meta, [progs], work)
        if not f:
            print(f'{prop}: does not show (property holds on this execution)')
            return 0
        l, clause = min(f)
        if '--min' in sys.argv:
            progs = minimise(prop, meta, progs[:l], clause, work)
            (f, ev), = fails(prop, meta, [progs], work)
            l, clause = min(f)
        for k, (p, e) in enumerate(zip(progs, ev), 1):
            show = {x: e[x] for x in ('a', 'b', 'd', 'i', 'v', 'w', 'y', 'z') if e.get(x) not in (None, [], 0)}
            print(f'{k:4} {e["o"]:5} {json.dumps(show)[:160]} -> {json.dumps(e["r"])[:80]}')
        print(f'clause {clause} fails at call {l}; contents afterwards: {json.dumps(ev[l - 1]["c"])[:400]}')
        print(f'VIOLATION property={prop} replay={os.path.abspath(sys.argv[1])}')
        return 1
    except Machinery as e:
        print('MACHINERY ERROR:', e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
