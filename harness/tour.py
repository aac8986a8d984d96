"""Record layout tours: the steps of spec/LayoutMC.tla, taken by the real code.

tour.py PROP TIER SEED SHARD BUDGET OUT; LAYOUT_EDGES names the steps TLC found:
lines `op run where indexed effect-on-runs indexed-after len,len,...`.
A tour brings a real container into the layout of a step (runs of these
lengths, index built or not), takes the step, looks at everything, and goes on
with a few random operations near the place.
"""
import json
import os
import random
import resource
import sys
import time
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import rt
from gen import TC
from gen2 import Gen as Gen2
from profiles import PROFILES, TOUR_Q
from uni import NONE

SP = 80                     # ranks between runs; 8 between neighbours


def edges():
    """{class: [run lengths]}: a class is everything but the lengths."""
    out = {}
    with open(os.environ['LAYOUT_EDGES']) as f:
        for line in f:
            *c, lens = line.split()
            lens = tuple(map(int, lens.split(',')))
            out.setdefault((c[0], len(lens)) + tuple(map(int, c[1:])), []).append(lens)
    return out


class Gen(Gen2):
    def place(self, j, i, d=0):
        """The code of a value at place i of run j (from 1), d off."""
        x = SP * j + 8 * i + d
        if self.desc:
            x = self.R - 1 - x
        return self.code(x)

    def lens(self, a):
        L = self.s.x[a]
        L = getattr(L, '_list', L)
        try:
            return [len(x) for x in L._lists]
        except Exception:
            return None

    def put(self, a, c):
        if self.t(a) == 'D':
            self.do(o=self.r.choice(['set', 'setd']), a=a, v=[c], w=[self.w()], h=self.h())
        else:
            self.do(o='add', a=a, v=[c], h=self.h())

    def cut(self, a, c):
        """Remove one element equal to c."""
        r = self.r
        t = self.t(a)
        if t == 'D':
            k = r.random()
            if k < .5:
                return self.do(o='deld', a=a, v=[c], w=[], h=self.h())
            if k < .7:
                return self.do(o='popd', a=a, v=[c], w=[], h=self.h())
        elif r.random() < .6:
            return self.do(o=r.choice(['rem', 'dis']), a=a, v=[c], h=self.h())
        s = self.s.codes(a)
        w = [x for x in range(len(s)) if s[x] // 100 == c // 100]
        i = w[0] if w else 0
        if r.random() < .4:
            i -= len(s)
        if t == 'D':
            return self.do(o=r.choice(['popi', 'popi', 'vdel']), a=a, i=[i], z=[r.randrange(3)], h=self.h())
        self.do(o=r.choice(['pop', 'del']), a=a, i=[i], h=self.h())

    def touch(self, a):
        """A positional query that needs the index."""
        n = self.n(a)
        self.do(o='getA', a=a, i=[n // 2, n // 2], v=[], y=[], h=self.h())

    def tour(self, cls, lens):
        r = self.r
        op, n, j, w, ix, dn, ix2 = cls
        t = self.start()
        self.R = SP * (n + 2)
        kf = r.choice([0, 0, 0, 1, 2, 5]) if t in 'SD' else 0 if t == 'L' else r.choice([1, 2, 5, 6])
        if not self.s.u.ordered and t in 'KSD':
            kf = r.choice([1, 2, 5])
        self.desc = kf in (1, 5)
        self.T = 120
        # runs of four, the last as short as wanted; a value above the maximum of a run
        # would go to the next one, so the maxima are there from the beginning
        first = []
        for x in range(n):
            m = lens[x]
            first.append(sorted(r.sample(range(1, m), 3)) + [m] if m >= 4 else
                         [1, 2, 3, 4] if x < n - 1 or m == 3 else list(range(1, m + 1)))
        v = [self.place(x + 1, y) for x in range(n) for y in first[x]]
        r.shuffle(v)
        if r.random() < .7:
            self.init(1, t, k=kf, m=0, reset=False)
            self.do(o='rst', a=1, i=[4], h={})
            if t == 'S':
                self.do(o='upd', a=1, y=[v], h=self.h(iks=['list']))
            else:
                self.do(o='upd', a=1, v=v, w=[self.w() for _ in v] if t == 'D' else [], h=self.h(ik='list', mk='pairs'))
        else:
            self.do(o='init', d=1, z=[TC[t], 0, kf], v=v, w=[self.w() for _ in v] if t == 'D' else [], i=[1000],
                    h=self.h(ik='list', mk='pairs', grab=1))
            self.do(o='rst', a=1, i=[4], h={})
        if ix and r.random() < .6:
            self.touch(1)       # the index follows the adjustments
        todo = [(x + 1, y) for x in range(n) for y in range(1, lens[x] + 1) if y not in first[x]] + \
               [(x + 1, -y) for x in range(n) for y in first[x] if y > lens[x]]
        r.shuffle(todo)
        for x, y in todo:
            if y > 0:
                self.put(1, self.place(x, y))
            else:
                self.cut_value(1, self.place(x, -y))
        if ix:
            self.touch(1)
        got = self.lens(1)
        self.hit = got == list(lens)
        # the step
        if op == 'cut':
            b, l, m = sum(lens[:j - 1]), lens[j - 1], sum(lens)
            y = [(b, b + 2, 1), (b + l - 1, b + l + 1, 1), (b, b + l, 1), (b, b + l + 1, 1), (b + 1, b + l - 1, 1),
                 (b, b + 5, 2)][w]
            k = r.random()
            if k < .2:
                y = (y[0], y[1] if y[1] < m else NONE, y[2] if y[2] > 1 else NONE)
            elif k < .4:
                y = (y[0] - m, y[1] - m if y[1] < m else NONE, y[2])
            elif k < .5:
                q = list(range(m))[slice(*y)]
                if q:
                    y = (q[-1], q[0] - 1 if q[0] else NONE, -y[2])
            self.do(o='vdels' if t == 'D' else 'dels', a=1, i=list(y), z=[r.randrange(3)] if t == 'D' else [], h=self.h())
        elif op == 'upd':
            b, m = sum(lens[:j - 1]), sum(lens)
            k = (m - 1) // 4 if w in (0, 2) else (m + 3) // 4
            if t == 'D' and r.random() < .5:
                k = m // 10 + w % 2
            at = [(x + 1, y) for x in range(n) for y in range(1, lens[x] + 1)]
            v = [self.place(*at[(b + i) % m], -3) if w < 2 else self.place(*at[b], -1 - i % 7) for i in range(k)]
            r.shuffle(v)
            if t == 'S':
                self.do(o='upd', a=1, y=[v], h=self.h(iks=[self.ik()], op=r.random() < .4))
            elif t == 'D':
                self.do(o='upd', a=1, v=v, w=[self.w() for _ in v], h=self.h(mk=self.mk(), op=r.random() < .4))
            else:
                self.do(o=r.choice(['upd', 'iadd']), a=1, v=v, h=self.h(ik=self.ik()))
        elif op == 'add':
            c = self.place(j, 1, -3) if w == 0 else self.place(j, lens[j - 1], -3 if w == 1 else 3)
            self.put(1, c)
        else:
            self.cut(1, self.place(j, 1 if w == 0 else lens[j - 1]))
        # every result afterwards
        self.chk(1)
        q = [x for x in TOUR_Q[t] if x not in ('kqA', 'kirA') or kf]
        must = self.p.get('tourq', [])
        self.battery(1, [x for x in r.sample(q, 3) if x not in must] + [x for x in must if x in q or x in TOUR_Q[t]])
        for _ in range(r.randrange(4)):
            x = max(1, min(n + 1, j + r.randrange(-1, 2)))
            y = r.randint(1, 8)
            k = r.random()
            s = self.s.codes(1)
            if k < .45 or not s:
                self.put(1, self.place(x, y, r.choice([0, -3, 3])))
            elif k < .85:
                c = self.place(x, y)
                near = sorted(s, key=lambda z: abs(z - c))[:4]
                self.cut(1, r.choice(near))
            else:
                self.mutate(1)
            if r.random() < .5:
                self.query(1, r.choice(q), small=True)
            if r.random() < .4:
                self.chk(1)
        self.chk(1)

    def cut_value(self, a, c):
        if self.t(a) == 'D':
            self.do(o='deld', a=a, v=[c], w=[], h=self.h())
        else:
            self.do(o='dis', a=a, v=[c], h=self.h())


def record(prop, tier, seed, shard, budget, out, wall=240):
    rt.install_alarm()
    profs = [(w, p) for w, p in PROFILES[prop] if p.get('run', 'run') != 'run_large']
    E = edges()
    order = sorted(E)
    random.Random(f'tour/{prop}/{seed}').shuffle(order)
    # steps of single elements as often as those of slices and in bulk
    ones, many = [c for c in order if c[0] in ('add', 'del')], [c for c in order if c[0] not in ('add', 'del')]
    order = [x[i % len(x)] for i in range(max(len(ones), len(many))) for x in (ones, many) if x]
    total, errors, n, hangs, pos = 0, [], 0, 0, shard
    done, met = set(), set()
    t0 = time.time()
    with open(out, 'w') as f, open(out + '.meta', 'w') as fm:
        while total < budget:
            rng = random.Random(f'tour/{prop}/{seed}/{shard}/{pos}')
            cls = order[pos % len(order)]
            pos += NSHARDS
            prof = rng.choices([p for _, p in profs], [w for w, _ in profs])[0]
            g = Gen(rng, dict(prof, fams=dict(int=2, mix=3, str=1, tup=.5, rec=2, und=.5), sub=.05, steps=(1, 1)))
            g.hit = False
            try:
                g.tour(cls, rng.choice(E[cls]))
            except Exception:
                errors.append(traceback.format_exc())
            done.add(cls)
            if g.hit:
                met.add(cls)
            hangs += sum(1 for e in g.evs if e['r'] == [-905])
            if g.evs:
                f.write(json.dumps({'ev': g.evs}, separators=(',', ':')) + '\n')
                fm.write(json.dumps(['tour', list(cls), g.meta, g.progs], separators=(',', ':')) + '\n')
                f.flush()
                fm.flush()
                n += 1
                total += len(g.evs)
            if len(errors) > 50 or hangs > 3 or time.time() - t0 > wall:
                break
    return n, total, errors, done, met, len(E)


NSHARDS = 4

if __name__ == '__main__':
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    prop, tier, seed, shard, budget, out = sys.argv[1:7]
    NSHARDS = int(os.environ.get('TOUR_SHARDS', NSHARDS))
    n, total, errors, done, met, size = record(prop, tier, seed, int(shard), int(budget), out)
    print(json.dumps(dict(traces=n, events=total, errors=len(errors), first=errors[:2],
                          steps=[size, sorted(map(str, done)), sorted(map(str, met))])))
