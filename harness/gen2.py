"""Generators for the properties that need more than one container or special arguments."""
from gen import AC, INJ, TC, Gen as Gen1, wchoice
from uni import DEFLOAD, HUGE, KR, NONE


class Gen(Gen1):
    # ---------------------------------------------------------------- C12
    def operand(self, a, kinds=('list', 'ss', 'set')):
        """Codes resembling the set in slot a."""
        s, _ = self.near(a, 0)
        if s and len(s) < 30 and self.r.random() < .15:      # every element several times, and perhaps one more
            s = s * self.r.choice([2, 3]) + ([self.qcode(self.r.randrange(self.R))] if self.r.random() < .5 else [])
        return s

    def algebra(self, a=1):
        r = self.r
        o = wchoice(r, dict(uni=2, int=2, dif=2, sym=2, rdif=.7))
        h = self.h()
        d = r.choice([3, 4, 5])
        if r.random() < .35:
            b = r.choice([1, 2])
            h['op'] = r.random() < .5
            if o == 'rdif':
                o = 'dif'
            return self.do(o=o, a=a, b=b, d=d, h=h)
        k = 1 if o in ('sym', 'rdif') else r.choice([1, 1, 1, 2, 3, 0])
        y = [self.operand(a) for _ in range(k)]
        iks = [self.ik() for _ in y]
        if k == 1:
            h['op'] = r.random() < .5
            if o != 'rdif':
                h['refl'] = r.random() < .3
                if h['refl'] and o == 'dif':
                    h['refl'] = False
            if h.get('refl') or o == 'rdif':
                # a reflected operator is only reached from types that do not define it for ours
                iks = [r.choice(['list', 'tuple', 'set', 'frozenset', 'list'])]
                if h.get('refl') and self.r.random() < .2:
                    iks = ['gen']
        return self.do(o=o, a=a, y=y, d=d, h=dict(h, iks=iks))

    def scmp(self, a=1):
        r = self.r
        h = self.h()
        z = [r.randint(1, 6), r.randrange(2)]
        if r.random() < .4:
            return self.do(o='scmp', a=a, b=r.choice([1, 2, 3, 4, 5]) if self.allsets else 2, z=z, h=h)
        return self.do(o='scmp', a=a, y=[self.operand(a)], z=z,
                       h=dict(h, iks=[r.choice(['set', 'frozenset', 'keys', 'ssk', 'ss'] if self.s.u.ordered
                                               else ['set', 'frozenset', 'keys', 'ssk'])]))

    def run_algebra(self):
        r = self.r
        self.start()
        self.allsets = False
        self.init(1, 'S')
        self.init(2, 'S')
        for d in (3, 4, 5):
            self.do(o='copy', a=r.choice([1, 2]), d=d, z=[0], h={})
        self.allsets = True
        for _ in range(r.randint(*self.p['steps'])):
            k = r.random()
            a = r.choice([1, 1, 2, 3])
            if k < .4:
                d = self.algebra(r.choice([1, 2]))['d']
                if self.t(d) != 'S':
                    continue
                if r.random() < .3:
                    self.mutate(d)
                if r.random() < .4:
                    self.query(d)
            elif k < .6:
                self.scmp(a)
            elif k < .75:
                z = [r.randint(1, 3)]
                if r.random() < .3:
                    self.do(o='rel', a=a, b=r.choice([1, 2, 3]), z=z, h=self.h())
                else:
                    self.do(o='rel', a=a, y=[self.operand(a)], z=z, h=self.h(iks=[self.ik()]))
            elif k < .8:
                self.do(o='cmpx', a=a, z=[r.randint(1, 6), r.randrange(2)], h=self.h())
            elif k < .9:
                # same members on both sides, or almost
                s = list(self.s.codes(a))
                r.shuffle(s)
                if s and r.random() < .5:
                    s.pop()
                self.do(o='init', d=2, z=[3, 0, self.pickkf('S')], v=s, i=[1000], h=self.h(ik='list'))
            else:
                self.mutate(r.choice([1, 2, 3, 4]))
        for a in (1, 2, 3):
            self.battery(a)

    # ---------------------------------------------------------------- C14
    def run_copy(self):
        r = self.r
        p = self.p
        if r.random() < .05:
            return self.run_copy_one()
        t = self.start()
        self.init(1, t)
        for _ in range(r.randint(0, 25)):
            self.mutate(1)
            if r.random() < .3:
                self.query(1)
        live = [1]
        for _ in range(r.randint(2, 5)):
            a = r.choice(live)
            d = r.choice([2, 3, 4])
            if d == a:
                d = d % 4 + 1
            hows = [0, 1, 2, 3, 4]
            self.do(o='copy', a=a, d=d, z=[r.choice(hows)], h=dict(grab=1, proto=r.choice([0, 1, 2, 3, 4, 5]), wrap=r.random() < .4))
            if d not in live:
                live.append(d)
            if r.random() < .6:
                self.battery(d) if r.random() < .4 else self.query(d)
            for _ in range(r.randint(2, 12)):
                b = r.choice([a, d])
                self.mutate(b)
                if r.random() < .4:
                    self.query(r.choice([a, d]))
        if r.random() < .3:
            t = r.choice([1, 2, 3, 4])
            self.do(o='srep', z=[t, r.randrange(2)], h=self.h())
        for a in live:
            self.battery(a)
            self.chk(a)

    def run_copy_one(self):
        """Containers of one value that cannot be compared, not even with itself."""
        r = self.r
        self.start(fam='opt')
        self.R = 1
        t = r.choice('SD')
        self.init(1, t, k=0, m=1)
        for _ in range(r.randint(4, 12)):
            a = r.choice([1, 2, 3])
            if self.t(a) != t:
                a = 1
            d = r.choice([2, 3])
            if r.random() < .5:
                self.do(o='copy', a=a, d=d if d != a else 5 - d, z=[r.choice([0, 1, 2, 3, 4])],
                        h=dict(proto=r.choice([0, 1, 2, 3, 4, 5])))
            else:
                self.mut(a, r.choice(['set', 'setd', 'clr', 'popi'] if t == 'D' else ['add', 'pop', 'clr']))
            for o in r.sample(['iter', 'len', 'memA', 'getA', 'rev'], 2):
                self.query(a, o)

    # ---------------------------------------------------------------- C16
    def run_alias(self):
        """Plain operands (2, 3), plain results (4), derived containers (5, 6)."""
        r = self.r
        t = self.start()
        u = self.s.u
        self.init(1, t)
        pl = {}

        def plain(d, c):
            v = [self.code(r.randrange(self.R)) for _ in range(r.choice([0, 2, 2, 5, 5, 9, 9, 20, 20, self.n(1) + 2, self.n(1) + 2, 90]))]
            w = [self.w() for _ in v] if c == 3 else []
            self.do(o='init', d=d, z=[5, c, 0], v=v, w=w, h={})
            pl[d] = c

        plain(2, 3 if t == 'D' else 0)
        plain(3, 3 if t == 'D' else (2 if u.hashable and t == 'S' else 0))
        for _ in range(r.randint(*self.p['steps'])):
            k = r.random()
            b = r.choice([2, 3])
            h = self.h(op=r.random() < .5)
            d = r.choice([5, 6])
            if k < .2:
                # a plain operand
                if t in 'LK':
                    o = r.choice(['upd', 'iadd', 'plus', 'init', 'cmp'])
                elif t == 'S':
                    o = r.choice(['upd', 'difu', 'intu', 'symu', 'uni', 'int', 'dif', 'sym', 'init', 'rel'])
                else:
                    o = r.choice(['upd', 'or', 'init', 'dcmp'])
                self.two(o, b, d, t, h)
            elif k < .3:
                # the container itself, or one derived from it, as operand
                if t in 'LK':
                    o = r.choice(['upd', 'iadd', 'plus', 'init', 'cmp'])
                elif t == 'S':
                    o = r.choice(['upd', 'difu', 'intu', 'symu', 'uni', 'int', 'dif', 'sym', 'init', 'rel',
                                  'scmp'])
                else:
                    o = r.choice(['upd', 'or', 'init', 'dcmp'])
                bb = 1
                if self.s.p[d][0] == TC[t] and r.random() < .5:
                    bb = d
                if self.n(1) < 90:
                    self.two(o, bb, 11 - d, t, h)
            elif k < .4 and t != 'D' or k < .33:
                y = r.choice([[NONE, NONE, NONE], [NONE, NONE, NONE], self.slc(self.n(1), 0)])
                self.do(o='take', a=1, d=4, i=y, h=h)
                pl[4] = 0
            elif k < .5:
                if t in 'LK' and r.random() < .5 and self.n(1) < 60:
                    self.do(o='mul', a=1, i=[r.choice([1, 1, 2, 0])], z=[r.randrange(2)], d=d, h=h)
                else:
                    self.do(o='copy', a=1, d=d, z=[r.randrange(5)], h={})
            elif k < .65:
                # the environment mutates a plain collection
                q = r.choice(list(pl))
                v = [self.code(r.randrange(self.R)) for _ in range(r.choice([0, 1, 4]))]
                self.do(o='pset', a=q, v=v, w=[self.w() for _ in v] if pl[q] == 3 else [], h={})
            elif k < .85:
                live = [1] + [x for x in (5, 6) if self.s.p[x][0] in (1, 2, 3, 4)]
                self.mutate(r.choice(live))
            else:
                self.query(1)
        self.battery(1)
        for x in (5, 6):
            if self.s.p[x][0] in (1, 2, 3, 4):
                self.battery(x)

    def two(self, o, b, d, t, h):
        r = self.r
        if o == 'init':
            k = self.pickkf(t)
            return self.do(o='init', d=d, b=b, z=[TC[t], 0, k], i=[1000], h=h)
        if o in ('upd', 'iadd', 'difu', 'intu', 'symu', 'dcmp', 'rel', 'scmp', 'cmp'):
            z = [r.randint(1, 2), r.randrange(2)] if o == 'dcmp' else [r.randint(1, 3)] if o == 'rel' else \
                [r.randint(1, 6 if self.s.u.ordered else 2), r.randrange(2)] if o in ('scmp', 'cmp') else []
            return self.do(o=o, a=1, b=b, z=z, h=h)
        if o in ('plus', 'or'):
            return self.do(o=o, a=1, b=b, d=d, z=[0], h=h)
        return self.do(o=o, a=1, b=b, d=d, h=h)

    # ---------------------------------------------------------------- C17
    def run_cmp(self):
        r = self.r
        t = self.start()
        self.init(1, t)
        self.init(2, t)
        for _ in range(r.randint(*self.p['steps'])):
            if r.random() < .4:
                self.mutate(r.choice([1, 2]))
            a = r.choice([1, 2])
            h = self.h()
            if t == 'D':
                k = r.random()
                z = [r.randint(1, 2), r.randrange(2)]
                if k < .15:
                    self.do(o='cmpx', a=a, z=[r.randint(1, 6), r.randrange(2)], h=h)
                elif k < .4:
                    self.do(o='dcmp', a=a, b=r.choice([1, 2]), z=z, h=h)
                else:
                    v, w = self.near(a, 1)
                    if r.random() < .4:
                        v, w = list(self.s.codes(a)), list(self.s.p[a][5])
                        if r.random() < .5:
                            q = list(range(len(v)))
                            r.shuffle(q)
                            v, w = [v[j] for j in q], [w[j] for j in q]
                        if w and r.random() < .5:
                            w[r.randrange(len(w))] = r.randrange(6)
                    if r.random() < .3:
                        self.do(o='init', d=2, z=[4, r.choice([0, 1]), self.pickkf('D')], v=v, w=w, i=[1000],
                                h=self.h())
                        if r.random() < .5:
                            load = r.choice([4, 4, 5, 6])
                            for d in (1, 2):
                                self.do(o='rst', a=d, i=[load], h=self.h())
                            self.do(o='dcmp', a=1, b=2, z=z, h=h)
                    self.do(o='dcmp', a=a, v=v, w=w, z=z, h=h)
                continue
            par = self.s.u.fam == 'par'
            mx = 6 if self.s.u.ordered or par else 2
            z = [r.randint(1, mx), r.randrange(2)] + [1] * par
            k = r.random()
            if k < .15:
                self.do(o='cmpx', a=a, z=[r.randint(1, 6), r.randrange(2)], h=h)
                continue
            if k < .35:
                self.do(o='cmp', a=a, b=r.choice([1, 2]), z=z, h=h)
                continue
            if self.s.u.fam == 'int' and k < .45:
                m = r.randrange(12)
                x = r.randrange(max(1, self.R - 12))
                v = [(x + j) * 100 for j in range(m)]
                self.do(o='init', d=2, z=[TC[t], 0, self.kf(a)], v=v, i=[1000], h=self.h(ik='list'))
                x = max(0, x + r.choice([0, 0, 0, 1, -1]))
                v = [(x + j) * 100 for j in range(max(0, m + r.choice([0, 0, 0, 1, -1])))]
                self.do(o='cmp', a=2, v=v, z=z, h=dict(h, ik='range'))
                continue
            s = list(self.s.codes(a))
            j = r.random()
            if j < .25:
                pass
            elif j < .4 and s:
                s = s[:r.randrange(len(s) + 1)]
            elif j < .55:
                s = s + [self.code(r.randrange(self.R))]
            elif s:
                x = r.choice([0, len(s) - 1, r.randrange(len(s))])
                s[x] = self.code(max(0, min(self.R - 1, s[x] // 100 + r.choice([-1, 1, 0]))))
                if r.random() < .3:
                    s = s[:r.randrange(x, len(s)) + 1]
            if r.random() < .4:
                self.do(o='init', d=2, z=[TC[t], 0, self.kf(a)], v=s, i=[1000], h=self.h(ik='list'))
                if r.random() < .6:      # the same runs on both sides
                    load = r.choice([4, 4, 5, 6])
                    for d in (1, 2):
                        self.do(o='rst', a=d, i=[load], h=self.h())
                self.do(o='cmp', a=1, b=2, z=z, h=h)
                if r.random() < .5:
                    self.do(o='cmp', a=2, b=1, z=[r.randint(1, 2)] + z[1:], h=h)
            else:
                ik = r.choice(['list', 'list', 'tuple', 'deque', 'user', 'seq', 'sl', 'ss', 'skeys', 'svals'])
                self.do(o='cmp', a=a, v=s, z=z, h=dict(h, ik=ik))

    # ---------------------------------------------------------------- C18
    def run_track(self):
        r = self.r
        t = self.start(track=True, fam='rec')
        self.init(1, t)
        names = None
        for _ in range(r.randint(*self.p['steps'])):
            k = r.random()
            d = r.choice([2, 3])
            if k < .08:
                self.do(o='copy', a=1, d=d, z=[r.randrange(2)], h={})
            elif k < .12 and t in 'LK' and self.n(1) < 40:
                if r.random() < .5:
                    self.do(o='mul', a=1, i=[r.choice([0, 1, 2])], z=[0], d=d, h={})
                else:
                    self.do(o='plus', a=1, v=self.vals(1, 3), z=[0], d=d, h={})
            elif k < .16 and t == 'S':
                self.do(o=r.choice(['uni', 'dif', 'int', 'sym']), a=1, y=[self.vals(1, 4)], d=d,
                        h=self.h(iks=['list']))
            elif k < .16 and t == 'D':
                v = self.vals(1, 3)
                self.do(o='or', a=1, v=v, w=[self.w() for _ in v], z=[0], d=d, h=self.h(mk='dict'))
            elif k < .2:
                live = [x for x in (2, 3) if self.s.p[x][0]]
                if live:
                    self.do(o='drop', a=r.choice(live), h={})
            elif k < .24:
                self.do(o='clr', a=1, h=self.h())
            else:
                self.mutate(r.choice([1, 1, 1] + [x for x in (2, 3) if self.s.p[x][0]]))
            if r.random() < self.p['qrate']:
                self.trackq(1)
            if r.random() < .05:
                self.do(o='drop', a=1, h={})
                self.init(1, t)
        for a in (2, 1, 3):
            if self.s.p[a][0]:
                self.do(o='drop', a=a, h={})

    def trackq(self, a):
        t = self.t(a)
        qs = ['getA', 'getsA', 'qA', 'idxA', 'irA', 'islA', 'iter', 'rev']
        if t == 'S':
            qs.append('memA')
        if t == 'D':
            qs += ['memA', 'peekA', 'viter', 'vgetA', 'vgetsA']
        r = self.r
        if r.random() < .25:
            # comparisons and set operations, whose operands and results must not be kept either
            m = r.choice([0, 1, 3])
            if t in 'LK':
                return self.do(o='cmp', a=a, v=[c // 100 * 100 + 99 for c in self.s.codes(a)[:r.choice([1, 3, 50])]],
                               z=[r.randint(1, 6), r.randrange(2)], h=dict(ik=r.choice(['list', 'tuple', 'deque']), fr=1))
            v = self.vals(a, m) + [self.code(c // 100) for c in self.s.codes(a)[:8] if r.random() < .6]
            if t == 'S':
                o = r.choice(['scmp', 'rel'])
                return self.do(o=o, a=a, y=[v], z=[r.randint(1, 6), r.randrange(2)] if o == 'scmp' else [r.randint(1, 3)],
                               h=self.h(iks=['set']))
            o = r.choice(['vset', 'vset', 'vcmp', 'vdisj'])
            return self.do(o=o, a=a, v=v, z=[0] if o == 'vdisj' else [0, r.randint(1, 4 if o == 'vset' else 6), r.randrange(2)],
                           h=self.h(ik='set' if o == 'vcmp' else r.choice(['set', 'list', 'gen'])))
        self.query(a, r.choice(qs), small=True)

    # ---------------------------------------------------------------- C19
    def run_cost(self):
        r = self.r
        t = self.start(cost=True, fam='rec', wrapk='cnt')
        big = r.random() < self.p.get('big', .35)
        self.R = 8000 if big else 900
        k = 0 if t == 'L' else r.choice([0, 0, 1]) if t in 'SD' else r.choice([1, 6])
        n = r.choice([1500, 2600, 3500]) if big else r.choice([60, 150, 400])
        if t == 'D':
            n = min(n, 700)
        ranks = r.sample(range(1, self.R - 1, 2), n)
        self.cur = 0
        v = [x * 100 for x in ranks]
        have = set(ranks)
        self.do(o='init', d=1, z=[TC[t], 0, k], v=v, w=[0 for _ in v] if t == 'D' else [], i=[1000],
                h=dict(ik='list', mk='pairs', grab=1))
        ld = r.choice([1000, 500] if big else [4, 5, 8, 1000])
        if ld != 1000:
            self.do(o='rst', a=1, i=[ld], h={})
        steps = 25 if big else r.randint(*self.p['steps'])
        for _ in range(steps):
            k = r.random()
            n = self.n(1)
            h = self.h()
            code = self.s.codes(1)
            absent = [x for x in (r.randrange(self.R) for _ in range(6))]
            cur = {c // 100 for c in code}
            absent = [x for x in absent if x not in cur] or [0]
            pres = r.choice(code) // 100 if code else 0
            if r.random() < .15 and code:
                pres = r.choice([code[0], code[-1]]) // 100
            x = r.choice([pres, pres, absent[0]]) * 100
            if k < .22:
                if t == 'D':
                    self.do(o=r.choice(['set', 'setd']), a=1, v=[r.choice([absent[0] * 100, x])], w=[1], h=h)
                else:
                    self.do(o='add', a=1, v=[absent[0] * 100], h=h)
            elif k < .38:
                if t == 'D':
                    o = r.choice(['deld', 'popd', 'look'])
                    self.do(o=o, a=1, v=[x], w=[], h=h)
                else:
                    self.do(o=r.choice(['rem', 'dis']), a=1, v=[x], h=h)
            elif k < .5:
                i = [self.index(n)]
                self.do(o='popi' if t == 'D' else r.choice(['pop', 'del']), a=1, i=i, h=h)
            elif k < .6:
                self.query(1, r.choice(['getA', 'vgetA', 'peekA', 'vlen'] if t == 'D' else ['getA']))
            elif k < .66:
                y = [self.slc(n, 0) for _ in range(2)]
                self.do(o='getsA', a=1, y=y, h=h)
            elif k < .72:
                self.do(o='islA', a=1, y=[self.slc(n)[:2] + [r.randrange(2)] for _ in range(2)], h=h)
            elif k < .75:
                self.do(o=r.choice(['iter', 'rev', 'len']), a=1, h=h)
            elif k < .82:
                self.do(o='qA', a=1, v=[x, absent[0] * 100], h=h)
            elif k < .86:
                self.do(o='idxA', a=1, v=[x], y=[[NONE, NONE], [self.bound(n), self.bound(n)]], h=h)
            elif k < .9:
                lo, hi = sorted([absent[0] * 100, x]) if self.kf(1) != 1 else sorted([absent[0] * 100, x])[::-1]
                self.do(o='irA', a=1, y=[[lo, hi, r.randrange(2), r.randrange(2), r.randrange(2)],
                                         [NONE, lo, 1, 1, 0]], h=h)
            elif k < .93 and t in 'SD':
                self.do(o='memA', a=1, v=[x], w=[0] if t == 'D' else [], h=h)
            elif k < .97 and self.kf(1):
                self.do(o='kqA', a=1, i=[2 * KR(self.kf(1), x // 100)], h=h)
            else:
                i = self.index(n)
                self.do(o='getA', a=1, i=[i, i + 1], h=h)

    # ---------------------------------------------------------------- C20
    def run_ctor(self):
        r = self.r
        self.start()
        u = self.s.u
        for _ in range(r.randint(*self.p['steps'])):
            t = r.choice('LLKKSD')
            if not u.hashable:
                t = r.choice('LK')
            if not u.ordered:
                t = r.choice('KKSD')
            d = r.choice([1, 2, 3])
            c = r.choice({'L': [0, 0, 1, 2], 'K': [0, 0, 1, 2], 'S': [0, 1], 'D': [0, 1, 3, 3, 4, 4]}[t])
            self.init(d, t, c=c, reset=r.random() < .3, m=r.choice([0, 0, 1, 5, 12]))
            if r.random() < .3:
                self.do(o='badkey', h=self.h())
            if r.random() < .4:
                self.do(o='abc', a=d, h={})
            if t in 'LK':
                for _ in range(r.randrange(3)):
                    how = r.randrange(6)
                    self.do(o='refuse', a=d, v=[self.code(r.randrange(self.R))],
                            i=[r.choice([0, -1, 3, self.n(d), 100])], z=[how], h={})
                for _ in range(r.randrange(3)):
                    e = r.choice([x for x in (1, 2, 3, 4) if x != d])
                    k = r.random()
                    if k < .35:
                        self.do(o='mul', a=d, i=[r.choice([0, 1, 2, 3])], z=[r.randrange(2)], d=e, h={})
                    elif k < .7:
                        refl = r.randrange(2)
                        self.do(o='plus', a=d, v=self.vals(d, r.randrange(6)), z=[refl], d=e,
                                h=dict(ik=r.choice(['list', 'tuple']) if refl else self.ik()))
                    else:
                        self.do(o='copy', a=d, z=[r.randrange(5)], d=e, h={})
                    if r.random() < .5:
                        self.query(e)
            else:
                e = r.choice([x for x in (1, 2, 3, 4) if x != d])
                self.do(o='copy', a=d, z=[r.randrange(5)], d=e, h={})
                if t == 'D':
                    for _ in range(r.randint(1, 4)):
                        self.mut(d, 'look')
                        if r.random() < .5:
                            self.mutate(d)
                        if r.random() < .7:
                            self.query(d)
                    if u.hashable and u.ordered and r.random() < .5:
                        v = self.vals(d, r.randrange(8))
                        self.do(o='fromk', d=e, z=[c], v=v, w=[r.randrange(6)], h=self.h(ik=self.ik()))
                    v = self.vals(d, r.randrange(5))
                    self.do(o='or', a=d, v=v, w=[self.w() for _ in v], z=[r.randrange(2)], d=e,
                            h=self.h(mk=r.choice(['dict', 'map', 'odict'])))
            for _ in range(r.randrange(4)):
                self.mutate(d)
            if r.random() < .5:
                self.query(d)

    # ---------------------------------------------------------------- C21
    def run_twin(self):
        """Slot 1 gets bulk operations, slot 2 the same one at a time."""
        r = self.r
        t = self.start()
        k = 0 if t == 'L' else r.choice(INJ[1:]) if t == 'K' and self.s.u.ordered and r.random() < .4 else self.pickkf(t)
        if t in 'SD' and k not in (0, 1):
            k = r.choice([0, 1]) if self.s.u.ordered else 1
        c = 0
        m = r.choice([0, 1, 5, 9, 20, 40])
        v = [self.code(r.randrange(self.R)) for _ in range(m)]
        w = [self.w() for _ in v] if t == 'D' else []
        kind = self.ik()
        load = wchoice(r, {4: 6, 5: 2, 7: 1, 1000: 2})
        e = self.do(o='init', d=1, z=[TC[t], c, k], v=v, w=w, i=[1000], h=self.h(ik=kind, mk=self.mk()))
        v, w = e['v'], e['w']
        self.do(o='init', d=2, z=[TC[t], c, k], v=[], w=[], i=[1000], h=self.h())
        for a in (1, 2):
            if load != 1000:
                self.do(o='rst', a=a, i=[load], h={})
        self.each(t, v, w)
        self.twinq(t)
        for _ in range(r.randint(*self.p['steps'])):
            n = self.n(1)
            h = self.h()
            o = wchoice(r, {'L': dict(upd=3, iadd=2, dels=2, clr=.15, imul=.3),
                            'K': dict(upd=3, iadd=2, dels=2, clr=.15, imul=.3),
                            'S': dict(upd=4, difu=2, dels=1.5, clr=.15),
                            'D': dict(upd=4, vdels=1.5, clr=.15)}[t])
            if n > self.T and o in ('upd', 'iadd'):
                o = 'vdels' if t == 'D' else 'dels'
            if r.random() < .4:
                self.query(1)
            if r.random() < .4:
                self.query(2)
            if o in ('upd', 'iadd') and t in 'LK':
                e = self.do(o=o, a=1, v=self.vals(1, self.bulk(1, 4)), h=dict(h, ik=self.ik()))
                self.each(t, e['v'], [])
            elif o == 'imul':
                if n > 40:
                    continue
                k = r.choice([2, 2, 3, 3, 4, 1])
                self.do(o=o, a=1, i=[k], h=h)
                base = list(self.s.codes(2))
                for _ in range(k - 1):
                    self.each(t, base, [])
            elif o == 'upd' and t == 'D':
                vv = self.vals(1, self.bulk(1, 10))
                e = self.do(o=o, a=1, v=vv, w=[self.w() for _ in vv], h=dict(h, mk=self.mk(), op=r.random() < .4))
                self.each(t, e['v'], e['w'])
            elif o == 'upd':
                y = [self.vals(1, self.bulk(1, 4)) for _ in range(r.choice([1, 1, 2, 3]))]
                e = self.do(o=o, a=1, y=y, h=dict(h, iks=[self.ik() for _ in y], op=len(y) == 1 and r.random() < .5))
                for q in e['y']:
                    self.each(t, q, [])
            elif o == 'difu':
                y = [self.vals(1, self.bulk(1, 4)) for _ in range(r.choice([1, 1, 2]))]
                e = self.do(o=o, a=1, y=y, h=dict(h, iks=[self.ik() for _ in y]))
                for q in e['y']:
                    for x in q:
                        self.do(o='dis', a=2, v=[x], h=self.h())
            elif o in ('dels', 'vdels'):
                i = self.slc(n, 0)
                if r.random() < .5 and n:
                    a = r.randrange(n)
                    i = [a, min(n, a + r.randrange(1, 2 + n // 3)), NONE]
                self.do(o=o, a=1, i=i, z=[0] if o == 'vdels' else [], h=h)
                pos = range(n)[slice(*[None if x == NONE else x for x in i])]
                for q in sorted(pos, reverse=True):
                    self.do(o='vdel' if t == 'D' else r.choice(['del', 'pop']), a=2, i=[q],
                            z=[0] if t == 'D' else [], h=self.h())
            else:
                self.do(o='clr', a=1, h=h)
                while self.n(2) and len(self.evs) < 3000:
                    before = self.n(2)
                    self.do(o='popi' if t == 'D' else 'pop', a=2, i=[], h=self.h())
                    if self.n(2) >= before:
                        break
            self.twinq(t)
            if r.random() < .2:
                d = 3
                if t in 'LK':
                    vv = self.vals(1, r.choice([0, 1, 5, 30]))
                    if r.random() < .6:
                        z = r.randrange(2)
                        # (a list has a + of its own, and so has whatever stands on the left)
                        self.do(o='plus', a=1, v=vv, z=[z], d=d, h=dict(ik=self.ik() if not z else 'list'))
                    elif self.n(1) < 50:
                        self.do(o='mul', a=1, i=[r.choice([0, 1, 2, 3])], z=[r.randrange(2)], d=d, h={})
                elif t == 'S':
                    y = [self.vals(1, r.choice([0, 1, 5, 30])) for _ in range(r.choice([1, 2, 3]))]
                    self.do(o='uni', a=1, y=y, d=d, h=self.h(iks=[self.ik() for _ in y]))
                else:
                    vv = self.vals(1, r.choice([0, 1, 5, 20]))
                    self.do(o='or', a=1, v=vv, w=[self.w() for _ in vv], z=[r.randrange(2)], d=d,
                            h=self.h(mk=r.choice(['dict', 'map', 'odict'])))
                    if self.s.u.ordered and r.random() < .5:
                        self.do(o='fromk', d=d, z=[0], v=vv, w=[3], h=self.h(ik=self.ik()))

    def each(self, t, v, w):
        for j, x in enumerate(v):
            if t == 'D':
                self.do(o='set', a=2, v=[x], w=[w[j]], h=self.h())
            else:
                self.do(o='add', a=2, v=[x], h=self.h())

    def twinq(self, t):
        """The same queries of both twins, whose contents the specification knows to be equal."""
        if self.s.p[1][4] != self.s.p[2][4] or self.s.p[1][5] != self.s.p[2][5]:
            return
        for _ in range(self.r.randint(1, 4)):
            self.query(1)
            self.query(2, tw=1, prog=self.lastq)

    # ---------------------------------------------------------------- C15
    def run_fault(self):
        r = self.r
        t = self.start()
        self.init(1, t)
        for _ in range(r.randint(*self.p['steps'])):
            if r.random() < .5:
                self.mutate(1)
                if r.random() < .3:
                    self.query(1)
                continue
            if not self.fault(1, t):
                continue
            for _ in range(r.randint(1, 4)):
                self.query(1)
            if r.random() < .3:
                self.chk(1)
        self.battery(1)
        self.chk(1)

    def fault(self, a, t):
        r = self.r
        n = self.n(a)
        s = list(self.s.codes(a))
        ranks = {c // 100 for c in s}
        keyed = self.kf(a)
        keyfn = keyed not in (0, 6)
        hashable = self.s.u.hashable
        h = {'alien': r.choice(['raise', 'incomp'])}
        absent = [x for x in range(self.R) if x not in ranks]
        if keyed == 6:
            h['alien'] = 'incomp'

        def go(how, f, v=(), w=(), i=(), **kw):
            self.do(o='fault', a=a, f=f, v=list(v), w=list(w), i=list(i), h=dict(h, how=how, **kw))
            return True

        # arguments comparable with nothing (or whose key is), and failing iterables
        k = r.random()
        m = r.choice([0, 1, 2, 3, n // 10, n // 4, n // 4 + 1, n, n + 5])
        good = [self.newval(a) for _ in range(min(m, 60))]
        if k < .3:
            v = good[:]
            bad = r.choice(['alien', 'alien', 'fail'])
            if bad == 'alien':
                if n + len(good) < 1:
                    return False
                if not hashable and t in 'SD':
                    return False
                # the alien must be met: at least one other element with it
                v.insert(r.randrange(len(v) + 1), AC)
                ik = r.choice(['list', 'gen', 'tuple'])
            else:
                ik = 'fail'
            if t in 'LK':
                return go('update', 2, v, ik=ik, op=r.random() < .4)
            if t == 'S':
                q = r.random()
                if q < .3:
                    v = [c for c in v if c // 100 not in ranks]
                    return go('symu', 2, v, ik=ik, op=r.random() < .4)
                return go('update', 2, v, ik=ik, op=r.random() < .4, two=r.random() < .3)
            w = [self.w() for _ in v]
            if bad == 'fail':
                return go('dupdate', 2, good, w[:len(good)], bad=r.choice(['raise', 'len3', 'noniter', 'unhash']),
                          op=r.random() < .3)
            return go('dupdate', 2, v, w, mk=r.choice(['dict', 'pairs']), op=r.random() < .3)
        if k < .4 and n:
            # single-element operations with an incomparable argument
            if t in 'LK':
                return go(r.choice(['add', 'add', 'remove', 'discard', 'in', 'count', 'index', 'bisect', 'irange']),
                          1, [AC])
            if t == 'S':
                return go(r.choice(['add', 'add', 'add', 'bisect', 'index', 'irange', 'remove']), 1, [AC])
            return go(r.choice(['setitem', 'setdefault', 'setdefault', 'bisect', 'index', 'ddel', 'dpop']), 1, [AC])
        if r.random() < .4 and self.s.u.fam == 'rec' and keyed in (0, 6) and n:
            # an argument that can be compared with some stored values only
            x = self.newval(a) // 100 * 100 + 91
            rs = sorted({c // 100 for c in s} - {x // 100})
            k = r.random()
            if k < .3:
                bad = [q for q in rs if r.random() < .3]
            elif k < .6:
                q = r.randrange(len(rs) + 1)
                bad = rs[q:q + r.choice([1, 1, 2, 3])]
            elif k < .8:
                bad = rs[-1:] if r.random() < .5 else rs[:-1]
            else:
                q = r.randrange(len(rs) + 1)
                bad = rs[q:] if r.random() < .5 else rs[:q]
            b = [x, bad]
            if r.random() < .7:
                if t in 'LK':
                    return go(r.choice(['add', 'add', 'add', 'remove', 'discard', 'in', 'count', 'index', 'bisect',
                                        'irange']), 1, [x], bomb=b)
                if t == 'S':
                    return go(r.choice(['add', 'add', 'bisect', 'index', 'irange', 'remove', 'discard']), 1, [x], bomb=b)
                return go(r.choice(['setitem', 'setdefault', 'bisect', 'index', 'ddel', 'dpop']), 1, [x], bomb=b)
            v = good + [x]
            r.shuffle(v)
            if t in 'LK':
                return go('update', 2, v, ik=r.choice(['list', 'gen']), op=r.random() < .4, bomb=b)
            if t == 'S':
                return go('update', 2, v, ik='list', op=r.random() < .4, two=r.random() < .3, bomb=b)
            return go('dupdate', 2, v, [self.w() for _ in v], mk=r.choice(['dict', 'pairs']), op=r.random() < .3, bomb=b)
        if k < .45 and n and hashable:
            # equal to a stored value, but not comparable
            x = r.choice(s)
            h['ghost'] = True
            if t in 'LK':
                return go(r.choice(['remove', 'discard', 'in', 'count', 'index']), 1, [x])
            if t == 'S':
                if r.random() < .3:
                    m = r.choice([0, 1, 2, n // 5])
                    return go('gdifu', 3, [x] + [r.choice(s) for _ in range(m)])
                return go(r.choice(['remove', 'discard', 'index', 'bisect']), 1, [x])
            return go(r.choice(['ddel', 'dpop', 'ddel', 'index', 'bisect']), 1, [x])
        if k < .55 and keyfn and absent:
            # a key function failing on absent values
            x = r.choice(absent)
            p = [x]
            code = self.code(x)
            if t in 'LK':
                q = r.random()
                if q < .4:
                    return go('update', 2, good + [code], poison=p, ik='list', op=r.random() < .4)
                return go(r.choice(['add', 'add', 'remove', 'discard', 'in', 'count', 'index', 'bisect', 'irange']), 1,
                          [code], poison=p)
            if t == 'S':
                if r.random() < .4:
                    return go(r.choice(['update', 'update', 'symu']), 2, [code] + [g for g in good if g // 100 not in
                                                                                  ranks], poison=p, ik='list')
                return go(r.choice(['add', 'add', 'bisect', 'irange']), 1, [code], poison=p)
            if r.random() < .4:
                return go('dupdate', 2, good + [code], [self.w() for _ in good] + [1], poison=p,
                          mk=r.choice(['dict', 'pairs']))
            return go(r.choice(['setitem', 'setdefault', 'setdefault']), 1, [code], poison=p)
        if k < .62 and t in 'SD':
            if t == 'S':
                q = r.choice(['unhash_add', 'unhash_in', 'unhash_dis', 'unhash_rem', 'unhash_upd'])
                if q == 'unhash_upd':
                    return go(q, 2, good)
                return go(q, 1)
            return go(r.choice(['unhash_set', 'unhash_setd', 'unhash_pop', 'fromkbad', 'unhash_in']), 1)
        if k < .68 and t == 'S':
            return go(r.choice(['intu', 'difu']), 3, good, ik='fail')
        if k < .76:
            oob = r.choice([n, n + 1, -n - 1, HUGE, -HUGE])
            if t in 'LKS':
                return go(r.choice(['pop', 'del']), 1, i=[oob])
            return go(r.choice(['popitem', 'peek', 'delview']), 1, i=[oob], vk=r.randrange(3))
        if k < .84 and absent:
            x = self.code(r.choice(absent))
            if t in 'LK':
                return go(r.choice(['remove', 'index']), 1, [x])
            if t == 'S':
                return go(r.choice(['remove', 'index']), 1, [x])
            c = self.s.p[a][1]
            return go(r.choice(['ddel', 'dpop', 'index'] + (['look'] if c < 3 else [])), 1, [x])
        if t in 'LK':
            return go(r.choice(['popbad', 'delbad', 'delslice', 'delzero', 'getbad', 'imul', 'upd5', 'iadd5', 'plus5']), 1)
        if t == 'S':
            return go(r.choice(['popbad', 'delbad', 'delslice', 'delzero', 'getbad', 'upd5']), 1)
        return go(r.choice(['popitembad', 'upd5', 'delbad']), 1)
