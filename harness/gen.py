"""Random programs against the real library, recorded as traces."""
import random

from rt import NS, Session
from uni import ALIEN, DEFLOAD, FAMILIES, HUGE, KR, NONE, Alien, KeyFn

AC = Alien.code

LIST_W = dict(add=12, upd=2.5, iadd=1.2, imul=.4, rem=4, dis=3, pop=3.5, **{'del': 3.5}, dels=2.5, clr=.15, rst=.4)
SET_W = dict(add=12, upd=3, rem=4, dis=3, pop=3, **{'del': 3}, dels=2, clr=.15, rst=.3, difu=1.5, intu=.6, symu=1)
DICT_W = dict(set=12, setd=3, upd=3, deld=4, popd=4, popi=3, clr=.15, rst=.3, vdel=2, vdels=1.5, look=1)

LIST_Q = dict(getA=3, getsA=3, qA=3, idxA=2, irA=3, islA=2, iter=.5, rev=.7, len=.5)
KEY_Q = dict(LIST_Q, kqA=2, kirA=2)
SET_Q = dict(getA=3, getsA=2, qA=2, idxA=1, irA=2, islA=1.5, iter=.5, rev=.7, len=.5, memA=2)
DICT_Q = dict(qA=1.5, idxA=1, irA=1.5, islA=1, iter=.5, rev=.7, len=.5, memA=2, peekA=2, peek=.5, getA=1,
              getsA=1, vlen=.5, viter=1, vinA=1, vcntA=.7, vidxA=.7, vgetA=2, vgetsA=2, vset=1, vcmp=.7,
              vdisj=.3)

BASE = dict(
    types=dict(L=1, K=1, S=1, D=1),
    fams=dict(int=2, mix=3, str=1, tup=.5, rec=2, und=.7, lst=.4, opt=.3, par=.3),
    ranks=[6, 12, 24, 40],
    loads=dict([(4, 6), (5, 3), (6, 1), (7, 1), (9, 1), (17, .5), (1000, .7)]),
    steps=(25, 70),
    target=(0, 75),
    qrate=.35,
    w={}, q={},
    chk=.15,
    final=True,
    sub=.15,
    bm=.3,
    dup=.5,         # how often a value is drawn among those already present
    extra=0,        # how often an operation of the property's own generator is tried
)


def wchoice(rng, d):
    ks = list(d)
    return rng.choices(ks, [d[k] for k in ks])[0]


TC = {'L': 1, 'K': 2, 'S': 3, 'D': 4, 'P': 5}
INJ = (0, 1, 6)


class Gen:
    def __init__(self, rng, prof):
        self.r = rng
        self.p = dict(BASE, **prof)
        self.evs = []
        self.progs = []
        self.meta = {}

    # -- driving ----------------------------------------------------------
    def do(self, **prog):
        e = self.s.apply(prog)
        self.evs.append(e)
        prog['i'], prog['v'], prog['w'], prog['y'] = e['i'], e['v'], e['w'], e['y']
        self.progs.append(prog)
        return e

    def h(self, **kw):
        r = self.r
        h = {}
        if r.random() < self.p['bm']:
            h['bm'] = 1
        if r.random() < .4:
            h['fr'] = 1
        if r.random() < .4:
            h['alt'] = 1
        if r.random() < .3:
            h['sh'] = 1
        if r.random() < .07:
            h['ix'] = 1
        h['how'] = r.randrange(12)
        h.update(kw)
        return h

    def t(self, a):
        return ' LKSDP'[self.s.p[a][0]] if self.s.p[a][0] < 6 else '?'

    def n(self, a):
        return self.s.n(a)

    def kf(self, a):
        return self.s.p[a][2]

    # -- values -----------------------------------------------------------
    def code(self, r):
        r = max(0, min(r, self.R - 1))
        if self.track:
            c = self.ctr.get(r, 0)
            self.ctr[r] = c + 1
            if c >= 89:
                # find another rank with tags left
                for rr in range(self.R):
                    if self.ctr.get(rr, 0) < 89:
                        self.ctr[rr] = self.ctr.get(rr, 0) + 1
                        return rr * 100 + self.ctr[rr] - 1
                return 99
            return r * 100 + c
        nt = self.s.u.ntags
        if nt > 4:
            return r * 100 + self.r.randrange(nt)
        return r * 100 + (self.r.randrange(nt) if self.r.random() < .6 else 0)

    def rank(self, a=None):
        r = self.r
        m = self.mode
        if a and self.n(a) and r.random() < self.p['dup']:
            s = self.s.codes(a)
            k = r.random()
            c = s[0] if k < .12 else s[-1] if k < .3 else r.choice(s)
            if .3 < k < .45:
                i = self.border(len(s))
                if i is not None and -len(s) <= i < len(s):
                    c = s[i]
            if c >= 0:
                return min(c // 100 + (r.choice([-1, 0, 0, 0, 1]) if k > .5 else 0), self.R - 1)
        if m == 'asc':
            self.cur = min(self.cur + r.randrange(2), self.R - 1)
            return self.cur
        if m == 'desc':
            self.cur = max(self.cur - r.randrange(2), 0)
            return self.cur
        if m == 'near':
            return self.cur + r.randrange(-1, 2)
        return r.randrange(self.R)

    def newval(self, a):
        return self.code(max(0, self.rank(a)))

    def qcode(self, r, a=0):
        """A query value (of no stored object, or with lifetimes tracked also a stored object itself)."""
        if self.track:
            if a and self.r.random() < .5:
                c = [c for c in self.s.codes(a) if c // 100 == r]
                if c:
                    return self.r.choice(c)
            return r * 100 + 99
        return self.code(r)

    def qvals(self, a, m):
        r = self.r
        if m >= self.R + 1 and not self.track:
            return [self.qcode(k) for k in range(self.R)]
        out = []
        for _ in range(m):
            out.append(self.qcode(max(0, min(self.R - 1, self.rank(a))), a))
        return out

    def vals(self, a, m):
        v = [self.newval(a) for _ in range(m)]
        if m > 2:               # orders that a shortcut might take for granted
            r = self.r
            k = r.random()
            if k < .5:
                v.sort(reverse=k < .12)
            if .24 < k < .5:
                for _ in range(r.choice([1, 1, 2])):
                    i = r.randrange(m - 1)
                    j = i + 1 if r.random() < .7 else r.randrange(m)
                    v[i], v[j] = v[j], v[i]
            elif .5 < k < .56:
                v.sort()
                i = r.randrange(m)
                v = v[i:] + v[:i]
            elif .56 < k < .6:
                v.sort()
                v = v[::2] + v[1::2]
        return v

    def w(self):
        if self.track:
            self.wctr += 1
            return 100000 + self.wctr
        k = self.r.random()
        if k < .12 and self.p.get('none', True):
            return NONE
        if k < .3 and self.p.get('wmix', True):
            return self.r.choice([300, 301, 400, 401, 402])
        if k > .7 and self.p.get('wlist'):
            return 500 + self.r.randrange(3)
        return self.r.randrange(6)

    def iks(self, ordered_only=False):
        """Iterable kinds usable in this universe."""
        u = self.s.u
        k = ['list', 'list', 'tuple', 'gen', 'iter', 'map', 'deque', 'values', 'slk', 'legacy', 'chain', 'range']
        if u.hashable:
            k += ['set', 'frozenset', 'keys', 'dict', 'ssk', 'sdk']
            if u.ordered:
                k += ['ss', 'skeys']
        if u.ordered:
            k += ['sl']
        return k

    def ik(self):
        return self.r.choice(self.iks())

    def mk(self):
        k = ['dict', 'pairs', 'gen', 'zip', 'map', 'odict', 'items', 'proxy', 'tuple', 'user', 'dict', 'pairs', 'sdk', 'duck', 'ddict', 'cmap', 'lists']
        if self.s.u.ordered:
            k.append('sd')
        if self.s.u.fam == 'str':
            k += ['kw', 'both', 'bothd', 'boths', 'bothd']
        return self.r.choice(k)

    def border(self, n):
        """A position at or next to the border of two runs, when the container has runs."""
        r = self.r
        for x in self.s.x:
            x = getattr(x, '_list', x)
            try:
                lens = [len(y) for y in x._lists]
                if sum(lens) == n and len(lens) > 1:
                    j = r.randrange(1, len(lens)) if r.random() < .6 else r.choice([1, 2, len(lens) - 1])
                    i = sum(lens[:j]) + r.choice([-1, 0, 0, 1])
                    return i if r.random() < .5 else i - n
            except Exception:
                pass
        return None

    def index(self, n, border=.2):
        r = self.r
        k = r.random()
        if r.random() < border:
            i = self.border(n)
            if i is not None:
                return i
        if k < .1:
            return r.choice([0, -1])
        if k < .18:
            return r.choice([n, -n - 1, n + 1, -n - 2, HUGE, -HUGE])
        if n == 0:
            return r.choice([0, -1, 1])
        if k < .6:
            return r.randrange(n)
        return r.randrange(-n, 0)

    def bound(self, n):
        r = self.r
        k = r.random()
        if r.random() < .2:
            i = self.border(n)
            if i is not None:
                return i
        if k < .15:
            return NONE
        if k < .22:
            return r.choice([0, n, -n, n - 1, -1, 1])
        if k < .26:
            return r.choice([HUGE, -HUGE, n + 1, -n - 1])
        return r.randrange(-n, n + 1)

    def slc(self, n, zero=.02):
        r = self.r
        k = r.random()
        step = NONE if k < .3 else 1 if k < .5 else -1 if k < .66 else r.choice([2, -2, 3, -3, 5, -7, n + 1])
        if r.random() < zero:
            step = 0
        elif step == 0:
            step = 1
        if r.random() < .25 and n:
            # a proper forward interval
            i = r.randrange(n)
            j = r.randrange(i, n + 1)
            return [i, j, step]
        k = r.random()
        if k < .12:
            return [NONE, NONE, step]
        if k < .2:
            return [NONE, self.bound(n), step]
        if k < .28:
            return [self.bound(n), NONE, step]
        return [self.bound(n), self.bound(n), step]

    # -- construction -----------------------------------------------------
    def init(self, a, t, k=None, m=None, c=None, reset=True, **hh):
        r = self.r
        u = self.s.u
        if k is None:
            k = self.pickkf(t)
        if c is None:
            c = 0
            if r.random() < self.p['sub']:
                c = r.choice({'L': [1, 2], 'K': [1, 2], 'S': [1], 'D': [1, 3, 4]}[t])
        if m is None:
            m = r.choice([0, 0, 1, 3, 8, 9, 10, r.randrange(40)]) if r.random() < .95 else r.randrange(60, 130)
        v = [self.code(r.randrange(self.R)) for _ in range(m)]
        w = [self.w() for _ in v] if t == 'D' else []
        h = self.h(ik=self.ik(), mk=self.mk(), **hh)
        if r.random() < .8:
            h['grab'] = 1
        self.do(o='init', d=a, z=[TC[t], c, k], v=v, w=w, i=[DEFLOAD.get((TC[t], c), 1000)], h=h)
        if reset:
            load = wchoice(r, self.p['loads'])
            if load != 1000 or r.random() < .1:
                self.do(o='rst', a=a, i=[load], h=self.h())

    def pickkf(self, t):
        r = self.r
        if t == 'L':
            return 0
        if not self.s.u.ordered:
            return r.choice([1, 2, 3, 4, 5])
        if t == 'K':
            return r.choice([1, 2, 2, 3, 4, 5, 6])
        return r.choice([0, 0, 0, 1, 2, 3, 4, 5])

    def start(self, track=False, cost=False, fam=None, wrapk=None):
        r = self.r
        p = self.p
        self.track = track
        t = wchoice(r, p['types'])
        ok = [f for f in p['fams'] if not (f == 'lst' and t in 'SD') and not (f in ('und', 'opt', 'par') and t == 'L')]
        fam = fam or wchoice(r, {f: p['fams'][f] * (2.5 if f == 'str' and t == 'D' else 1) for f in ok})
        wrapk = wrapk or r.choice(['int', 'flt', 'tup', 'str'])
        self.R = r.choice(p['ranks'])
        self.ctr = {}
        self.wctr = 0
        self.mode = r.choice(['rand', 'rand', 'rand', 'asc', 'desc', 'near'])
        self.cur = self.R // 2 if self.mode == 'near' else 0 if self.mode == 'asc' else self.R - 1
        self.s = Session(fam, wrapk, track, cost)
        self.meta = {'fam': fam, 'wrap': wrapk, 'track': track, 'cost': cost}
        self.phase = 'grow'
        self.T = r.randint(*p['target'])
        return t

    # -- mutators ---------------------------------------------------------
    def mutate(self, a):
        r = self.r
        t = self.t(a)
        n = self.n(a)
        if r.random() < .04:
            self.mode = r.choice(['rand', 'asc', 'desc', 'near'])
        if n > self.T:
            self.phase = 'shrink'
        if n <= self.T // 5:
            if self.phase == 'shrink':
                self.T = r.randint(*self.p['target'])
            self.phase = 'grow'
        base = LIST_W if t in 'LK' else SET_W if t == 'S' else DICT_W
        wts = dict(base)
        for k, x in self.p['w'].items():
            if k in base:
                wts[k] = x
        for k in wts:
            if k in ('add', 'upd', 'iadd', 'set', 'setd', 'imul'):
                wts[k] *= 1 if self.phase == 'grow' else .25
            elif k in ('clr', 'rst', 'look'):
                pass
            else:
                wts[k] *= .35 if self.phase == 'grow' else 1.2
        o = wchoice(r, wts)
        return self.mut(a, o)

    def bulk(self, a, f):
        """A bulk size near the threshold n/f."""
        r = self.r
        n = self.n(a)
        k = r.random()
        room = max(3, self.T * 2 - n)
        m = r.choice([0, 1, 2, 3]) if k < .3 else n // f + r.choice([-1, 0, 0, 1, 2]) if k < .75 else r.randrange(room)
        return max(0, min(m, room))

    def mut(self, a, o, **hh):
        r = self.r
        t = self.t(a)
        n = self.n(a)
        h = self.h(**hh)
        if o in ('add', 'set', 'setd'):
            v = [self.newval(a)]
            w = []
            if t == 'D':
                w = [self.w()]
                if o == 'setd' and h.get('alt') and not self.track and self.p.get('none', True):
                    w = [NONE]
            return self.do(o=o, a=a, v=v, w=w, h=h)
        if o in ('rem', 'dis', 'deld', 'popd', 'look'):
            k = r.random()
            v = [self.qcode(max(0, min(self.R - 1, self.rank(a))), a)]
            w = []
            if o == 'popd' and r.random() < .6:
                w = [NONE if r.random() < .4 and self.p.get('none', True) else self.w()]
                if r.random() < .5:
                    v = [self.code(r.randrange(self.R))]
            if o == 'look' and self.track:
                o = 'deld'
            return self.do(o=o, a=a, v=v, w=w, h=h)
        if o in ('pop', 'popi'):
            return self.do(o=o, a=a, i=[] if r.random() < .2 else [self.index(n, .4)], h=h)
        if o == 'del':
            return self.do(o=o, a=a, i=[self.index(n, .4)], h=h)
        if o == 'vdel':
            return self.do(o=o, a=a, i=[self.index(n)], z=[r.randrange(3)], h=h)
        if o in ('dels', 'vdels'):
            z = [r.randrange(3)] if o == 'vdels' else []
            i = self.border(n) if r.random() < .25 else None
            if i is not None and 0 <= i < n:        # a few values at the border of a run
                y = [i, min(n, i + r.randint(1, 6)), r.choice([NONE, 1])]
            elif n > 8 and r.random() < .15:        # about as many as make deletion one by one too slow
                m = max(1, n // 8 + r.choice([-1, 0, 0, 1]))
                i = r.choice([0, n - m, n - m - 1, r.randrange(n - m + 1)])
                y = r.choice([[i, i + m, NONE], [i - n, i + m, 1], [i, i + m - n if i + m < n else NONE, 1],
                              [i + m - 1, i - 1 if i else NONE, -1]])
            elif self.phase == 'grow' and r.random() < .7 and n:
                i = r.randrange(n)
                y = [i, min(n, i + r.randrange(1, max(2, n // 4))), r.choice([NONE, 1, 1, 2])]
            else:
                y = self.slc(n)
            return self.do(o=o, a=a, i=y, z=z, h=h)
        if o == 'clr':
            return self.do(o=o, a=a, h=h)
        if o == 'rst':
            return self.do(o=o, a=a, i=[wchoice(r, self.p['loads'])], h=h)
        if o == 'imul':
            k = r.choice([0, 1, 1, 2, 2, 3, -1])
            if n * k > 150:
                k = r.choice([0, 1])
            return self.do(o=o, a=a, i=[k], h=h)
        if o in ('upd', 'iadd') and t in 'LK':
            if r.random() < .08 and n < 60:
                h['self_iter'] = r.random() < .5
                if self.track:
                    h['self_iter'] = False
                return self.do(o=o, a=a, b=a, h=h)
            return self.do(o=o, a=a, v=self.vals(a, self.bulk(a, 4)), h=dict(h, ik=self.ik()))
        if o == 'upd' and t == 'D':
            if r.random() < .04:
                return self.do(o=o, a=a, b=a, h=dict(h, op=r.random() < .5, self_iter=r.random() < .4))
            v = self.vals(a, self.bulk(a, 10))
            return self.do(o=o, a=a, v=v, w=[self.w() for _ in v], h=dict(h, mk=self.mk(), op=r.random() < .4))
        if o in ('upd', 'difu', 'intu', 'symu'):
            if o == 'intu' and self.phase == 'grow' and r.random() < .5:
                o = 'upd'
            if r.random() < .04:
                h['self_iter'] = r.random() < .3
                return self.do(o=o, a=a, b=a, h=dict(h, op=r.random() < .5))
            k = 1 if o == 'symu' else r.choice([1, 1, 1, 1, 2, 2, 3, 4, 0])
            y = []
            small = k > 1 and r.random() < .6       # together about as large as the threshold
            for _ in range(k):
                if o == 'intu':
                    m = r.choice([n // 2, n, 2 * n]) + 1
                    y.append(self.vals(a, m) if not self.track else [self.code(c // 100) for c in
                                                                     self.s.codes(a) if r.random() < .8])
                else:
                    y.append(self.vals(a, self.bulk(a, 4) // (k if small else 1)))
                    if y[-1] and len(y[-1]) < 20 and r.random() < .1 and not self.track:
                        y[-1] = y[-1] * r.choice([2, 3]) + self.vals(a, r.randrange(2))
                    if len(y) > 1 and y[0] and r.random() < .5 and not self.track:
                        y[-1] = y[-1] + r.sample(y[0], r.randint(1, len(y[0])))
            if o == 'difu' and self.track:
                y = [[c * 0 + self.code(c // 100) for c in self.s.codes(a) if r.random() < .2]]
            opform = k == 1 and r.random() < .5
            return self.do(o=o, a=a, y=y, h=dict(h, iks=[self.ik() for _ in y], op=opform))
        raise AssertionError(o)

    # -- queries ----------------------------------------------------------
    def query(self, a, o=None, tw=0, prog=None, small=False):
        r = self.r
        if prog is not None:
            return self.do(**dict(prog, a=a, tw=tw))
        t = self.t(a)
        n = self.n(a)
        keyed = self.kf(a) != 0
        c = self.s.p[a][1]
        if o is None:
            base = {'L': LIST_Q, 'K': KEY_Q, 'S': SET_Q, 'D': DICT_Q}[t]
            wts = dict(base)
            for k, x in self.p['q'].items():
                if k in base or (k in ('kqA', 'kirA') and keyed):
                    wts[k] = x
            if keyed and t in 'SD' and 'kqA' not in wts:
                wts['kqA'] = wts['kirA'] = 1
            o = wchoice(r, wts)
        if o in ('kqA', 'kirA') and not keyed:
            o = 'qA'
        h = self.h()
        sm = .5 if small else 1
        prog = dict(o=o, h=h)
        if o in ('vgetA', 'vgetsA'):
            prog['z'] = [r.randrange(3)]
        if o == 'getA' or o == 'vgetA' or o == 'peekA':
            if n <= 28:
                prog['i'] = [-n - 2, n + 1]
            else:
                m = r.choice([0, -n, n - 6, -1, r.randrange(-n, n), r.randrange(-n, n)])
                prog['i'] = [m - 6, m + 6]
        elif o in ('getsA', 'vgetsA'):
            prog['y'] = [self.slc(n) for _ in range(int(8 * sm))]
        elif o in ('qA', 'memA'):
            prog['v'] = self.qvals(a, 12 if self.R > 14 else self.R + 1)
            if t == 'D':
                prog['w'] = [self.w()]
        elif o == 'idxA':
            prog['v'] = self.qvals(a, 4)
            prog['y'] = [[NONE, NONE]] + [[self.bound(n), self.bound(n)] for _ in range(3)]
        elif o == 'irA':
            prog['y'] = [self.irb(a) for _ in range(int(8 * sm))]
        elif o == 'kirA':
            prog['y'] = [self.kirb(a) for _ in range(int(8 * sm))]
        elif o == 'kqA':
            prog['i'] = [self.k2(a) for _ in range(8)]
        elif o == 'islA':
            prog['y'] = [self.slc(n)[:2] + [r.randrange(2)] for _ in range(int(8 * sm))]
        elif o in ('iter', 'rev', 'len', 'peek'):
            pass
        elif o == 'vlen':
            prog['z'] = [r.randrange(3)]
        elif o == 'viter':
            prog['z'] = [r.randrange(3), r.randrange(2)]
        elif o in ('vinA', 'vcntA', 'vidxA'):
            vk = r.randrange(3)
            if c >= 3 and vk == 1:
                vk = 0
            prog['z'] = [vk]
            m = 5
            prog['v'] = self.qvals(a, m) if vk < 2 else []
            prog['w'] = [r.randrange(6) if r.random() < .8 else NONE for _ in range(m)] if vk else []
            if vk == 1 and n:
                for j in range(m):
                    if r.random() < .5:
                        x = r.randrange(n)
                        prog['v'][j] = self.s.codes(a)[x]
                        prog['w'][j] = self.s.p[a][5][x]
            if o == 'vidxA':
                prog['y'] = [[NONE, NONE]] + [[self.bound(n), self.bound(n)] for _ in range(2)]
        elif o in ('vset', 'vcmp', 'vdisj'):
            vk = r.randrange(2)
            if c >= 3 or self.p.get('wlist'):
                vk = 0
            if o == 'vset' and not self.s.u.ordered:
                o = prog['o'] = 'vcmp'
            if o == 'vset' and NONE in self.s.p[a][5]:
                vk = 0
            v, w = self.near(a, vk)
            ik = r.choice(['set', 'frozenset', 'set', 'frozenset', 'ss', 'keys'])
            if o == 'vset':
                ik = r.choice(['set', 'frozenset', 'list', 'list', 'ss', 'tuple', 'gen', 'values', 'keys'])
            elif o == 'vdisj':
                ik = r.choice(['set', 'list', 'frozenset', 'gen', 'tuple', 'keys'])
            if ik == 'ss' and not self.s.u.ordered:
                ik = 'set'
            prog['h'] = dict(h, ik=ik)
            prog['v'], prog['w'] = v, w
            prog['z'] = [vk] if o == 'vdisj' else [vk, r.randint(1, 4) if o == 'vset' else r.randint(1, 6),
                                                   r.randrange(2)]
            if o == 'vset' and ik == 'keys' and prog['z'][2]:
                prog['z'][2] = 0            # a view of a dict decides the type
            # an item appears once in a set even if equal keys have several objects
        else:
            raise AssertionError(o)
        for k in ('v', 'i', 'y', 'w', 'z'):
            prog.setdefault(k, [])
        self.lastq = prog
        return self.do(**dict(prog, a=a, tw=tw))

    def near(self, a, vk):
        """A collection of keys (or items) resembling the contents of a."""
        r = self.r
        k = r.random()
        s, w = list(self.s.codes(a)), list(self.s.p[a][5])
        if k < .2:
            pass
        elif k < .45:
            keep = [j for j in range(len(s)) if r.random() < .7]
            s, w = [s[j] for j in keep], [w[j] for j in keep] if w else []
        elif k < .7:
            s = s + [self.qcode(r.randrange(self.R)) for _ in range(2)]
        else:
            s = [self.qcode(r.randrange(self.R)) for _ in range(r.randrange(8))]
        if vk:
            w = w[:len(s)] + [r.randrange(6) for _ in range(len(s) - len(w))]
            if w and r.random() < .3:
                w[r.randrange(len(w))] = r.randrange(6)
            w = [r.randrange(6) if x == NONE else x for x in w]
            return s, w
        return s, []

    def irb(self, a):
        r = self.r
        z = 1 if self.s.u.fam == 'opt' else 0       # None as a bound means no bound
        lo = NONE if r.random() < .15 or self.R <= z else self.qcode(max(z, min(self.R - 1, self.rank(a))))
        hi = NONE if r.random() < .15 or self.R <= z else self.qcode(max(z, min(self.R - 1, self.rank(a))))
        if lo != NONE and hi != NONE and r.random() < .3:
            hi = lo if r.random() < .5 else self.qcode(min(self.R - 1, lo // 100 + r.randrange(3)))
        if lo != NONE and hi != NONE and r.random() < .6:
            kf = self.kf(a)
            if KR(kf, lo // 100) > KR(kf, hi // 100):
                lo, hi = hi, lo
        return [lo, hi, r.randrange(2), r.randrange(2), r.randrange(2)]

    def k2(self, a):
        r = self.r
        kf = self.kf(a)
        k = 2 * KR(kf, max(0, self.rank(a)))
        if kf == 6:
            return max(0, k + 2 * r.randrange(-1, 2))
        return k + r.choice([-1, 0, 0, 0, 1, r.choice([-9, 9])])

    def kirb(self, a):
        r = self.r
        lo = NONE if r.random() < .15 else self.k2(a)
        hi = NONE if r.random() < .15 else self.k2(a)
        if lo != NONE and hi != NONE and lo > hi and r.random() < .7:
            lo, hi = hi, lo
        if lo != NONE and hi != NONE and r.random() < .2:
            hi = lo
        return [lo, hi, r.randrange(2), r.randrange(2), r.randrange(2)]

    def chk(self, a):
        if self.s.u.ordered or self.kf(a):
            return self.do(o='chk', a=a, h={})

    def battery(self, a, names=None):
        t = self.t(a)
        if names is None:
            base = {'L': LIST_Q, 'K': KEY_Q, 'S': SET_Q, 'D': DICT_Q}.get(t)
            if base is None:
                return
            names = list(base)
            if self.track:
                names = [x for x in names if x not in TRACK_SKIP]
            if t in 'SD' and self.kf(a):
                names += ['kqA', 'kirA']
            for k in self.p['q']:
                if self.p['q'][k] == 0 and k in names:
                    names.remove(k)
        self.r.shuffle(names)
        for o in names:
            self.query(a, o)

    # -- a generic trace --------------------------------------------------
    def run(self):
        p = self.p
        r = self.r
        t = self.start()
        self.init(1, t)
        ext = p.get('gen')
        for _ in range(r.randint(*p['steps'])):
            if ext and r.random() < p['extra']:
                getattr(self, ext)()
            else:
                self.mutate(1)
            while r.random() < p['qrate']:
                self.query(1)
            if r.random() < p['chk']:
                self.chk(1)
        if p['final']:
            self.battery(1)
            if p['chk']:
                self.chk(1)

    # -- dense: after every mutation, one battery of chosen queries -------
    def run_dense(self):
        p = self.p
        r = self.r
        t = self.start()
        self.init(1, t)
        for _ in range(r.randint(*p['steps'])):
            self.mutate(1)
            if r.random() < .6:
                names = [k for k in p['dense'] if r.random() < .7]
                names = [k for k in names if k not in ('kqA', 'kirA') or self.kf(1)]
                self.battery(1, names)
        if p['chk']:
            self.chk(1)

    # -- large containers at the default load factor ----------------------
    def run_large(self):
        p = self.p
        r = self.r
        t = self.start(fam=r.choice(['int', 'int', 'rec', 'mix']))
        self.R = r.choice([400, 3000, 9000])
        k = self.pickkf(t)
        if t == 'K' and k in (3, 4):
            k = 2
        m = r.choice([1000, 1999, 2000, 2001, 2500, 3100])
        if t == 'D':
            m = min(m, 700)
            self.R = 3000
        self.cur = self.R // 2
        self.init(1, t, k=k, m=m, reset=False, c=0)
        if t == 'D':
            self.do(o='rst', a=1, i=[100], h={})
        self.T = 10 ** 6
        for _ in range(r.randint(8, 20)):
            o = r.choice(p.get('largeops') or
                         (['add'] * 6 + ['rem', 'dis', 'pop', 'pop', 'del', 'dels'] if t in 'LKS' else
                          ['set', 'set', 'deld', 'popi', 'setd', 'vdel']))
            if r.random() < .1 and t != 'D':
                n = self.n(1)
                m = r.choice([3, n // 4 - 1, n // 4, n // 4 + 1])
                v = [self.code(r.randrange(self.R)) for _ in range(min(m, 900))]
                if t == 'S':
                    self.do(o='upd', a=1, y=[v], h=self.h(iks=['list']))
                else:
                    self.do(o='upd', a=1, v=v, h=self.h(ik='list'))
            else:
                self.mut(1, o)
            while r.random() < p['qrate']:
                q = r.choice(p.get('largeq') or ['getA', 'qA', 'idxA', 'len'])
                if q == 'idxA':
                    self.do(o='idxA', a=1, v=self.qvals(1, 2), y=[[NONE, NONE]], h=self.h())
                elif q == 'qA':
                    self.do(o='qA', a=1, v=self.qvals(1, 3), h=self.h())
                else:
                    self.query(1, q, small=True)
            if r.random() < p['chk']:
                self.chk(1)


TRACK_SKIP = ('vset', 'vcmp', 'vdisj', 'vinA', 'vcntA', 'vidxA')
