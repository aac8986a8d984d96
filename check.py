#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property by model checking with TLC:
  1. model checks the specification modules the property rests on (MODELS),
  2. records executions of the real code (harness/, run against /repo/src),
  3. checks every recorded execution against the specification
     (spec/Trace.tla), in parallel shards,
  4. checks that corrupted copies of recorded executions are rejected.
Exit 0: held; 1: VIOLATION line printed; 2: the machinery failed.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, 'spec')
HARNESS = os.path.join(HERE, 'harness')
sys.dont_write_bytecode = True
sys.path.insert(0, HARNESS)
from plan import KNOWN_FILE, MODELS, PLAN  # noqa: E402

JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
WORKERS = int(os.environ.get('VERIF_WORKERS', min(8, os.cpu_count() or 1)))
REPO_SRC = os.environ.get('VERIF_REPO_SRC', '/repo/src')     # overridden only while developing, on scratch copies


class Machinery(Exception):
    pass


def run_tlc(module, cfg, env=None, work=None, xmx='2500m', workers='1', timeout=800, extra=()):
    """Run TLC in a scratch directory; returns its output."""
    meta = tempfile.mkdtemp(prefix='tlc-', dir=work)
    e = dict(os.environ, **(env or {}))
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-XX:+UseSerialGC' if workers == '1' else '-XX:+UseParallelGC', '-Xss24m', '-Xmx' + xmx,
           '-Djava.io.tmpdir=' + meta,
           '-cp', JAR, 'tlc2.TLC', '-workers', workers, '-metadir', meta, '-noGenerateSpecTE',
           *extra, '-config', cfg, module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors='replace')
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or '')
        rc = -1
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def counts(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out)
    return (int(m[-1][0]), int(m[-1][1]), int(m[-1][2])) if m else (0, 0, -1)


FAILRE = re.compile(r'FAIL\|(\d+)\|(\d+)\|([^|]*)\|\{([^}]*)\}')


def fails_of(out):
    """[(tid, l, clause, labels)]"""
    return [(int(a), int(b), c, set(re.findall(r'[A-Z]+\d*', d))) for a, b, c, d in FAILRE.findall(out)]


# -- models ---------------------------------------------------------------
def run_apalache(name, tier, work):
    """Inductive check: IndInv is kept by Next and implies Right, for each configuration."""
    m = MODELS[name]
    t0 = time.time()
    did = []
    for cfg in m[tier]:
        for inv, length in ((m['inv'], 1), (m['goal'], 0)):
            d = tempfile.mkdtemp(prefix='apa-', dir=work)
            shutil.copy(os.path.join(SPEC, m['module'] + '.tla'), d)
            shutil.copy(os.path.join(SPEC, cfg), d)
            cmd = ['apalache-mc', 'check', '--config=' + cfg, '--init=' + m['inv'], '--next=Next', '--inv=' + inv,
                   f'--length={length}', '--no-deadlock', '--out-dir=' + os.path.join(d, 'out'), m['module'] + '.tla']
            e = dict(os.environ, JVM_ARGS='-Xmx3g -Djava.io.tmpdir=' + d, HOME=d, TMPDIR=d)
            e.pop('JAVA_TOOL_OPTIONS', None)
            try:
                p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   errors='replace', timeout=240 if tier == 'quick' else 900)
                out = p.stdout
            except (OSError, subprocess.TimeoutExpired) as x:
                out = repr(x)
            shutil.rmtree(d, ignore_errors=True)
            if 'The outcome is: NoError' not in out:
                raise Machinery(f'model {name} ({cfg}, {inv}) failed:\n' + out[-2000:])
            did.append(f'{cfg}: {m["inv"]} => {inv} (length {length})')
    return dict(model=name, module=m['module'], config=', '.join(m[tier]), states=0, transitions=0, queries=did,
                seconds=round(time.time() - t0, 1), what=m['what'])


def run_model(name, tier, work):
    m = MODELS[name]
    if m.get('tool') == 'apalache':
        return run_apalache(name, tier, work)
    cfg = m[tier] if tier in m else m['quick']
    t0 = time.time()
    rc, out = run_tlc(m['module'], cfg, work=work, xmx=m.get('xmx', '4g'), workers='1' if tier == 'quick' else '4',
                      timeout=700 if tier == 'quick' else 2400)
    gen, dist, left = counts(out)
    if rc != 0 or left != 0:
        raise Machinery(f'model {name} ({cfg}) failed, rc={rc}:\n' + out[-3000:])
    return dict(model=name, module=m['module'], config=cfg, states=dist, transitions=gen,
                seconds=round(time.time() - t0, 1), what=m['what'])


# -- traces ---------------------------------------------------------------
def layout_edges(tier, work):
    """The steps of the layout model, for the tours."""
    name = 'Layout'
    m = MODELS[name]
    t0 = time.time()
    rc, out = run_tlc(m['module'], m[tier], work=work, timeout=1500, extra=('-nowarning',))
    gen, dist, left = counts(out)
    if rc != 0 or left != 0:
        raise Machinery(f'layout model failed, rc={rc}:\n' + out[-3000:])
    E = sorted({(a, b.replace(',', ''), c.replace(' ', ''))
                for a, b, c in re.findall(r'"EDGE (\w+) <<([-\d, ]*)>> <<([\d, ]*)>>"', out)})
    path = os.path.join(work, 'edges.txt')
    with open(path, 'w') as f:
        f.writelines(' '.join(e) + '\n' for e in E)
    return path, dict(model=name, module=m['module'], config=m[tier], states=dist, transitions=gen,
                      seconds=round(time.time() - t0, 1), what=m['what'])


def set_steps(kinds, work):
    """The steps of the set and dict models, for harness/steps.py."""
    path = os.path.join(work, 'steps.ndjson')
    models = []
    with open(path, 'w') as f:
        for t in kinds:
            name = dict(S='SetSteps', D='DictSteps')[t]
            m = MODELS[name]
            t0 = time.time()
            rc, out = run_tlc(m['module'], m['quick'], work=work, timeout=1500, extra=('-nowarning',))
            gen, dist, left = counts(out)
            if rc != 0 or left != 0:
                raise Machinery(f'model {name} failed, rc={rc}:\n' + out[-3000:])
            for x in sorted(set(re.findall(r'"STEP (<<.*>>)"', out))):
                for a, b in (('\\"', '"'), ('<<', '['), ('>>', ']'), ('TRUE', 'true'), ('FALSE', 'false')):
                    x = x.replace(a, b)
                f.write(json.dumps([t, json.loads(x)]) + '\n')
            models.append(dict(model=name, module=m['module'], config=m['quick'], states=dist, transitions=gen,
                               seconds=round(time.time() - t0, 1), what=m['what']))
    return path, models


def record(prop, tier, seed, shard, budget, work, kind='rec', extra=None):
    out = os.path.join(work, f'{kind}-{shard}.ndjson')
    env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', PYTHONNOUSERSITE='1',
               PYTHONPATH=REPO_SRC, PYTHONPYCACHEPREFIX=os.path.join(work, 'pyc'), **(extra or {}))
    p = subprocess.run([PY, os.path.join(HARNESS, kind + '.py'), prop, tier, str(seed), str(shard), str(budget), out],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400, text=True)
    try:
        info = json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        info = None
    if not os.path.exists(out):
        raise Machinery(f'recorder produced nothing: rc={p.returncode}\n{p.stderr[-3000:]}')
    with open(out) as f:
        lines = f.read().split('\n')
    lines = [x for x in lines[:-1] if x]
    if info is None:
        info = dict(traces=len(lines), events=0, errors=1, first=[f'recorder died rc={p.returncode} {p.stderr[-2000:]}'],
                    died=True)
    return out, lines, info


def validate(lines, work, tag):
    """TLC over recorded traces.  Returns (fails, distinct, expected, error tids)."""
    lines = list(lines)
    idx = list(range(len(lines)))       # original positions
    bad = []
    for _ in range(6):
        path = os.path.join(work, f'{tag}.tr.ndjson')
        with open(path, 'w') as f:
            f.write('\n'.join(lines[i] for i in idx) + '\n')
        rc, out = run_tlc('Trace', 'Trace.cfg', env={'TRACE_FILE': path}, work=work)
        gen, dist, left = counts(out)
        fl = [(idx[t - 1], l, c, s) for t, l, c, s in fails_of(out)]
        if rc == 0 and left == 0:
            return fl, dist, gen, bad
        if 'OutOfMemory' in out or rc == -1:
            raise Machinery(f'TLC failed on traces ({tag}): rc={rc}\n' + out[-2500:])
        m = re.findall(r'tid = (\d+)', out)
        if not m:
            raise Machinery(f'TLC failed on traces ({tag}): rc={rc}\n' + out[-2500:])
        # the specification cannot even be evaluated on this trace
        k = int(m[-1]) - 1
        ml = re.findall(r'/\\ l = (\d+)', out)
        bad.append((idx[k], int(ml[-1]) if ml else 0, out[out.find('Error'):][:1500]))
        del idx[k]
        if not idx:
            return fl, dist, gen, bad
    return fl, dist, gen, bad


def shard_task(prop, tier, seed, shard, budget, work, kind, layout=None, steps=None, nshards=1):
    extra = None
    if kind == 'tour':
        extra = dict(LAYOUT_EDGES=layout.result()[0], TOUR_SHARDS=str(nshards))
    if kind == 'steps':
        extra = dict(STEP_EDGES=steps.result()[0], STEP_SHARDS=str(nshards))
    t0 = time.time()
    path, lines, info = record(prop, tier, seed, shard, budget, work, kind, extra)
    t1 = time.time()
    fl, dist, gen, bad = validate(lines, work, f'{kind}-{shard}') if lines else ([], 0, 0, [])
    expected = 0
    for x in lines:
        expected += x.count('"tw":') + 1
    with open(path + '.meta') as f:
        metas = f.read().split('\n')[:-1]
    res = dict(shard=shard, kind=kind, lines=lines, metas=metas, info=info, fails=fl, dist=dist, gen=gen, bad=bad,
               expected=expected, rec_s=t1 - t0, tlc_s=time.time() - t1)
    for suf in ('', '.meta'):
        os.unlink(path + suf)
    return res


# -- canaries -------------------------------------------------------------
DETERMINED = {'getA', 'getsA', 'qA', 'idxA', 'irA', 'islA', 'iter', 'rev', 'kqA', 'kirA', 'memA', 'len', 'viter',
              'vgetA', 'pop', 'popi', 'cmp', 'scmp', 'rel', 'dcmp', 'vinA', 'vset', 'vcmp', 'peekA', 'look', 'refuse',
              'badkey', 'cmpx', 'vlen'}


def canaries(lines, rng, prop):
    """Corrupted copies of recorded traces; each must be rejected."""
    out = []
    order = list(range(len(lines)))
    rng.shuffle(order)
    for k in order:
        if len(out) >= 10:
            break
        ev = json.loads(lines[k])['ev']
        if len(ev) > 120:
            ev = ev[:120]
        how = len(out) % 4
        if any(len(e['v']) > 400 for e in ev):
            continue
        firstf = next((i for i, e in enumerate(ev) if e['f']), len(ev))
        if how == 0:        # another result
            c = [i for i, e in enumerate(ev) if e['o'] in DETERMINED and e['r'] and not e['f'] and i < firstf + 40]
            if not c:
                continue
            i = rng.choice(c)
            r = list(ev[i]['r'])
            r[rng.randrange(len(r))] = -998
            ev[i] = dict(ev[i], r=r)
        elif how == 1:      # another content
            c = [i for i, e in enumerate(ev) if e['c'] and e['c'][0][7] and not e['f'] and e['o'] != 'chk']
            if not c:
                continue
            i = rng.choice(c)
            ch = json.loads(json.dumps(ev[i]['c']))
            ch[0][7][rng.randrange(len(ch[0][7]))] = 77777700
            ev[i] = dict(ev[i], c=ch)
        elif how == 2:      # a mutation that did not happen
            # (only where the length shows it: swapping equal values may be invisible)
            c, size = [], {}
            for i, e in enumerate(ev):
                if e['o'] in ('add', 'init', 'upd', 'set') and e['c'] and not e['f'] and \
                        e['c'][0][4] > size.get(e['c'][0][0], 0):
                    c.append(i)
                for ch in e['c']:
                    size[ch[0]] = ch[4]
            if not c:
                continue
            i = rng.choice(c)
            ev[i] = dict(ev[i], c=[])
            ev = ev[:i + 1]
        else:               # a length that disagrees
            c = [i for i, e in enumerate(ev) if e['c'] and not e['f'] and e['o'] != 'chk' and e['c'][0][1] in (1, 2, 3, 4)]
            if not c:
                continue
            i = rng.choice(c)
            ch = json.loads(json.dumps(ev[i]['c']))
            ch[0][4] += 1
            ev[i] = dict(ev[i], c=ch)
        out.append(json.dumps({'ev': ev}, separators=(',', ':')))
    return out


# -- replays --------------------------------------------------------------
def save_replay(prop, res, tid, l, clauses, seed):
    d = os.path.join(HERE, 'replays')
    os.makedirs(d, exist_ok=True)
    meta = json.loads(res['metas'][tid]) if tid < len(res['metas']) else None
    ev = json.loads(res['lines'][tid])['ev']
    body = dict(property=prop, seed=seed, shard=res['shard'], kind=res['kind'], trace=tid, event=l,
                clauses=sorted(clauses), failing_event=ev[l - 1] if 0 < l <= len(ev) else None,
                profile=meta[0] if meta else None, meta=meta[2] if meta else None,
                program=meta[3] if meta else None, events=ev)
    name = f'{prop}-{hashlib.sha1(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]}.json'
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump(body, f)
    return path


def known_findings(prop):
    """The recorded, unrepaired defects of this property: [(clause, op, what)]."""
    out = []
    with open(KNOWN_FILE) as f:
        for line in f:
            m = re.match(r'known: property=(\S+) clause=(\S+) op=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append(m.groups()[1:])
    return out


def op_of(r, tid, l):
    return json.loads(r['lines'][tid])['ev'][l - 1]['o']


def sample(line):
    ev = json.loads(line)['ev']
    return [{k: v for k, v in e.items() if k in ('o', 'a', 'b', 'd', 'i', 'v', 'w', 'y', 'z', 'r', 'c') and
             v not in ([], 0)} for e in ev[:6]]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    plan = PLAN[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f'verif-{prop}-')
    code = 2
    try:
        code = decide(prop, tier, seed, plan, t0, work)
    except Machinery as e:
        print('MACHINERY ERROR:', e)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def step_coverage(results):
    t = [r['info']['setsteps'] for r in results if r['info'].get('setsteps')]
    if not t:
        return {}
    return dict(set_dict_step_classes=t[0][0], set_dict_step_classes_taken=len(set().union(*(x[1] for x in t))))


def tour_coverage(results):
    t = [r['info']['steps'] for r in results if r['info'].get('steps')]
    if not t:
        return {}
    return dict(layout_step_classes=t[0][0], layout_step_classes_taken=len(set().union(*(x[1] for x in t))),
                layout_step_classes_taken_in_the_exact_layout=len(set().union(*(x[2] for x in t))))


def decide(prop, tier, seed, plan, t0, work):
    tasks = []
    for kind, n, budget in plan['shards'][tier]:
        tasks += [(kind, s, budget, n) for s in range(n)]
    deadline = t0 + (780 if tier == 'quick' else 3300)
    results, models, errs = [], [], []
    violation = False
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        layout = ex.submit(layout_edges, tier, work) if any(t[0] == 'tour' for t in tasks) else None
        steps = ex.submit(set_steps, plan['steps'], work) if any(t[0] == 'steps' for t in tasks) else None
        mf = [ex.submit(run_model, m, tier, work) for m in plan['models'].get(tier, plan['models']['quick'])]
        futs = {}
        it = iter(tasks)

        def launch():
            t = next(it, None)
            if t is not None:
                kind, s, b, n = t
                futs[ex.submit(shard_task, prop, tier, seed, s, b, work, kind, layout, steps, n)] = t
        for _ in range(WORKERS + 2):
            launch()
        while futs:
            done, _ = cf.wait(futs, return_when=cf.FIRST_COMPLETED)
            for f in done:
                del futs[f]
                r = f.result()
                results.append(r)
                if any(prop in s for _, _, _, s in r['fails']) or r['bad']:
                    violation = True
                if not violation and time.time() < deadline:
                    launch()
        for f in mf:
            models.append(f.result())
        if layout:
            models.append(layout.result()[1])
        if steps:
            models += steps.result()[1]
    results.sort(key=lambda r: (r['kind'], r['shard']))

    # verdicts
    known = known_findings(prop)
    viol, harness = [], []
    for r in results:
        per = {}
        for tid, l, clause, labels in r['fails']:
            if 'HARNESS' in labels:
                harness.append((r, tid, l, clause))
            if prop in labels and not any(k[0] == clause and k[1] == op_of(r, tid, l) for k in known):
                per.setdefault(tid, []).append((l, clause))
        for tid, fl in per.items():
            l = min(x for x, _ in fl)
            viol.append((r, tid, l, {c for x, c in fl if x == l}))
        for tid, l, msg in r['bad']:
            viol.append((r, tid, l, {'inexplicable: ' + msg[:300]}))
        if r['info'].get('died'):
            errs.append(r['info']['first'][0])
    total = sum(len(r['lines']) for r in results)
    events = sum(r['expected'] - len(r['lines']) for r in results)
    drv = sum(r['info']['errors'] for r in results)
    anyfail = any(r['fails'] or r['bad'] for r in results)
    clean = not anyfail
    if clean:
        for r in results:
            if r['dist'] != r['expected']:
                errs.append(f"shard {r['kind']}-{r['shard']}: {r['dist']} states, expected {r['expected']}")
        if drv:
            errs.append(f'{drv} driver errors: ' + str([r['info']['first'] for r in results if r['info']['errors']][:1]))

    # canaries
    ncan = 0
    if clean:
        rng = random.Random(f'canary/{prop}/{seed}')
        can = canaries(results[0]['lines'], rng, prop)
        if len(can) < 3 and len(results) > 1:
            can += canaries(results[1]['lines'], rng, prop)
        if not can:
            raise Machinery('no canaries could be made')
        fl, _, _, bad = validate(can, work, 'canary')
        hit = {t for t, _, _, _ in fl} | {t for t, _, _ in bad}
        ncan = len(can)
        if len(hit) != ncan:
            errs.append(f'only {len(hit)} of {ncan} corrupted traces were rejected: missed {sorted(set(range(ncan)) - hit)}')

    ev = dict(
        property=prop, tier=tier, seed=seed, level=plan['level'],
        coverage=dict(
            states=sum(m['states'] for m in models) + sum(r['dist'] for r in results),
            transitions=sum(m['transitions'] for m in models) + sum(max(0, r['gen'] - len(r['lines'])) for r in results),
            model_states=sum(m['states'] for m in models),
            trace_states=sum(r['dist'] for r in results),
            traces_validated_against_impl=total,
            events_validated=events,
            traces_by_source={k: sum(len(r['lines']) for r in results if r['kind'] == k)
                              for k in sorted({r['kind'] for r in results})},
            corrupted_traces_rejected=ncan,
            driver_errors=drv,
            **tour_coverage(results),
            **step_coverage(results),
            models=models,
            samples=[sample(r['lines'][0]) for r in results[:3] if r['lines']],
        ),
        assumptions=plan.get('assumptions', []),
        wall_s=round(time.time() - t0, 1),
        violations=len(viol),
    )
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)

    print(f"{prop} {tier} seed={seed}: {total} traces, {events} events, {sum(m['states'] for m in models)} model states, "
          f"{ncan} canaries, {ev['wall_s']}s")
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k[2]}")
    if viol:
        for r, tid, l, cl in viol[:5]:
            path = save_replay(prop, r, tid, l, cl, seed)
            e = json.loads(r['lines'][tid])['ev']
            e = e[l - 1] if 0 < l <= len(e) else {}
            print(f"  {'; '.join(sorted(cl))}: op {e.get('o')} {json.dumps({k: e.get(k) for k in 'aivwyzrc'})[:400]}")
            print(f'VIOLATION property={prop} replay={path}')
        return 1
    if harness:
        r, tid, l, c = harness[0]
        raise Machinery(f"event not understood: {json.loads(r['lines'][tid])['ev'][l - 1]}")
    if errs:
        raise Machinery('; '.join(errs)[:3000])
    return 0


if __name__ == '__main__':
    main()
