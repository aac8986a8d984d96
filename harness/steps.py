"""Record the steps of spec/SetDictMC.tla, taken by the real code.

steps.py PROP TIER SEED SHARD BUDGET OUT; STEP_EDGES names the steps TLC found:
lines of JSON [op, f, state, values, i, v, w, y, returned].
A container is brought into the state, sometimes with more elements of the
same order so that the other strategy is chosen, and takes the step: the
arguments are values some of which have no order with the rest.
"""
import json
import os
import random
import resource
import sys
import time
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import rt
from gen import TC
from gen2 import Gen as Gen2
from profiles import PROFILES
from uni import NONE

KINDS = {'C09': 'D', 'C11': 'S', 'C15': 'SD', 'C21': 'SD'}


def cls(x):
    return 2 if x % 100 == 9 else int(x >= 5000)


def kind(s, x):
    """How an argument stands to the state."""
    for j, y in enumerate(s):
        if x // 100 == y // 100:
            return ('same' if x == y else 'equal', cls(x), 0 if j == 0 else 2 if j == len(s) - 1 else 1)
    return ('new', cls(x), bool(s) and cls(s[0]))


def steps(kinds):
    """{class: [step]}."""
    out = {}
    with open(os.environ['STEP_EDGES']) as f:
        for line in f:
            t, e = json.loads(line)
            if t in kinds:
                op, _, s, w, i, v, _, y, ok = e
                c = (t, op, len(s), cls(s[0]) if s else -1, str(i), tuple(kind(s, x) for x in v),
                     len(v) - len({x // 100 for x in v}), tuple(map(len, y)), ok)
                out.setdefault(c, []).append((t, e))
    return out


class Gen(Gen2):
    def step(self, t, e):
        r = self.r
        op, f, s, w, i, v, vw, y, ok = e
        self.start(fam='cmp')
        self.R = 60
        # other members, in order with those there are
        more = []
        if s and cls(s[0]) < 2 and r.random() < .6:
            lo = 10 if cls(s[0]) == 0 else 60
            k = len({x // 100 for x in v}) or 1
            f0 = 4 if t == 'S' else 10
            n = r.choice([1, 3, f0 * k - len(s) - 1, f0 * k - len(s), f0 * k - len(s) + 1, f0 * k + 5, 30])
            more = [(lo + q) * 100 for q in r.sample(range(30), max(0, min(n, 30)))]
        full = s + more
        r.shuffle(full)
        val = dict(zip(s, w))
        ws = [val.get(x, 7) for x in full] if t == 'D' else []
        if r.random() < .5:
            self.do(o='init', d=1, z=[TC[t], 0, 0], v=full, w=ws, i=[1000], h=self.h(ik='list', mk='pairs', grab=1))
            self.do(o='rst', a=1, i=[4], h={})
        else:
            self.do(o='init', d=1, z=[TC[t], 0, 0], v=[], w=[], i=[1000], h=self.h(ik='list', mk='pairs', grab=1))
            self.do(o='rst', a=1, i=[4], h={})
            for j, x in enumerate(full):
                self.do(o='set', a=1, v=[x], w=[ws[j]], h=self.h()) if t == 'D' else self.do(o='add', a=1, v=[x], h=self.h())
        if r.random() < .4 and full:
            self.do(o='getA', a=1, i=[len(full) // 2] * 2, v=[], y=[], h=self.h())
        h = self.h()
        if op in ('upd', 'difu', 'intu', 'symu'):
            ik = lambda: r.choice(['list', 'list', 'tuple', 'gen', 'set'])
            h = self.h(iks=[ik() for _ in y], mk=r.choice(['dict', 'pairs', 'gen', 'map', 'duck']), op=r.random() < .3)
        kw = dict(i=list(i)) if op in ('pop', 'popi', 'dels', 'vdels') else {}
        if i and more and op in ('pop', 'popi') and abs(i[0]) > 1:
            n = len(s)
            kw['i'] = [i[0] + (len(more) if i[0] == n else -len(more))]
        if op == 'vdels':
            kw['z'] = [r.randrange(3)]
        if y:
            kw['y'] = [list(q) for q in y]
        if op in ('upd', 'difu', 'intu', 'symu') and t == 'S':
            kw.setdefault('y', [])
        self.do(o=op, a=1, v=list(v), w=list(vw), f=f, h=h, **kw)
        self.after(t)
        if r.random() < .3:        # go on from there
            x = r.choice(v) if v and r.random() < .5 else r.choice([0, 100, 201, 1500, 5100])
            self.do(o='set', a=1, v=[x], w=[5], f=1, h=self.h()) if t == 'D' else self.do(o='add', a=1, v=[x], f=1, h=self.h())
            self.after(t)

    def after(self, t):
        n = self.n(1)
        self.chk(1)
        q = self.r.choice(['getA', 'len', 'iter', 'rev'] + ['viter'] * (t == 'D'))
        if q == 'getA':
            self.do(o='getA', a=1, i=[-n - 1, n], v=[], y=[], h=self.h())
        else:
            self.query(1, q, small=True)


def record(prop, tier, seed, shard, budget, out, wall=240):
    rt.install_alarm()
    E = steps(KINDS[prop])
    order = sorted(E, key=str)
    random.Random(f'steps/{prop}/{seed}').shuffle(order)
    total, errors, n, hangs, pos = 0, [], 0, 0, shard
    done = set()
    prof = dict(PROFILES[prop][0][1], sub=0)
    t0 = time.time()
    with open(out, 'w') as f, open(out + '.meta', 'w') as fm:
        while total < budget:
            rng = random.Random(f'steps/{prop}/{seed}/{shard}/{pos}')
            c = order[pos % len(order)]
            pos += NSHARDS
            t, e = rng.choice(E[c])
            g = Gen(rng, prof)
            try:
                g.step(t, e)
            except Exception:
                errors.append(traceback.format_exc())
            done.add(c)
            hangs += sum(1 for e in g.evs if e['r'] == [-905])
            if g.evs:
                f.write(json.dumps({'ev': g.evs}, separators=(',', ':')) + '\n')
                fm.write(json.dumps(['step', str(c), g.meta, g.progs], separators=(',', ':')) + '\n')
                f.flush()
                fm.flush()
                n += 1
                total += len(g.evs)
            if len(errors) > 50 or hangs > 3 or time.time() - t0 > wall:
                break
    return n, total, errors, done, len(E)


NSHARDS = 1

if __name__ == '__main__':
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    prop, tier, seed, shard, budget, out = sys.argv[1:7]
    NSHARDS = int(os.environ.get('STEP_SHARDS', NSHARDS))
    n, total, errors, done, size = record(prop, tier, seed, int(shard), int(budget), out)
    print(json.dumps(dict(traces=n, events=total, errors=len(errors), first=errors[:2], setsteps=[size, sorted(map(str, done))])))
