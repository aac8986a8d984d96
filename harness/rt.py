"""Run operations on the real library and record what happened.

A Session holds the containers (slots 1..6).  apply(prog) performs one
operation and returns the event the specification (spec/Trace.tla) judges.
There is no oracle here: nothing in this file knows what should happen.
"""
import collections
import copy
import itertools
import operator
import pickle
import signal
import warnings
from collections.abc import Mapping, Sequence
from types import MappingProxyType

import sortedcontainers as SC
from sortedcontainers import SortedDict, SortedKeyList, SortedList, SortedSet

from uni import (ALIEN, CLASSES, CLSCODE, CNT, EVALNS, NONE, PLAIN, UNKNOWN, Alien, Bomb, Ghost, KeyFn, Par, Poison, Rec,
                 Und, Universe, Val, decode, kfcode, wdec)

NS = 6
MAXN = 200000
VIEWS = (SC.SortedKeysView, SC.SortedItemsView, SC.SortedValuesView)
MUTABLE = (Rec, Und, Par, Val, list)


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def install_alarm():
    signal.signal(signal.SIGVTALRM, _alarm)


OPLIMIT = 6.0


def excode(e):
    if isinstance(e, Hang):
        return -905
    if isinstance(e, IndexError):
        return -901
    if isinstance(e, KeyError):
        return -903
    if isinstance(e, NotImplementedError):
        return -906
    if isinstance(e, ValueError):
        return -902
    if isinstance(e, TypeError):
        return -904
    if isinstance(e, AssertionError):
        return -907
    if isinstance(e, AttributeError):
        return -908
    if isinstance(e, Poison):
        return -909
    return -999


def one(fn):
    """The code of a call giving a value, or of its exception."""
    try:
        return fn()
    except Exception as e:
        return excode(e)


def B(x):
    return 1 if x is True else 0 if x is False else -990


def I(x):
    return x if type(x) is int else -991


def N(x):
    return None if x == NONE else x


class Sub(int):
    """A position that is an int of another class."""


def at(i, h):
    """A position as it is, or as an equal one of a subclass."""
    if not h.get('ix'):
        return i
    return bool(i) if i in (0, 1) and h.get('how', 0) % 2 else Sub(i)


def atn(i, h):
    return None if i == NONE else at(i, h)


def cut(t, h):
    """A slice."""
    return slice(*(None if i == NONE else Sub(i) if h.get('ix') else i for i in t))


ABCS = [collections.abc.Sequence, collections.abc.MutableSequence, collections.abc.Set, collections.abc.MutableSet,
        collections.abc.Mapping, collections.abc.MutableMapping, dict, collections.abc.Sized, collections.abc.Container,
        collections.abc.Reversible]


def take(it, lim):
    return list(itertools.islice(it, lim))


class MyMapping(Mapping):
    def __init__(self, pairs):
        self.d = dict(pairs)

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


class MySeq(Sequence):
    def __init__(self, xs):
        self.xs = tuple(xs)

    def __getitem__(self, i):
        return self.xs[i]

    def __len__(self):
        return len(self.xs)


class Legacy:
    """Iterable, but only through its subscripts."""
    def __init__(self, xs):
        self.xs = tuple(xs)

    def __getitem__(self, i):
        return self.xs[i]


class Inner:
    def __repr__(self):
        return f'Inner({self.x!r})'

    def __lt__(self, other):
        return False


class Duck:
    """As much of a mapping as dict() needs."""
    def __init__(self, d):
        self.d = d

    def keys(self):
        return list(self.d)

    def __getitem__(self, k):
        return self.d[k]


def gen_of(xs, fail=False):
    for x in xs:
        yield x
    if fail:
        raise Poison('iter')


def snap(x):
    if isinstance(x, Duck):
        x = x.d
    if isinstance(x, Mapping):
        return [(id(k), id(v)) for k, v in x.items()]
    return [(id(p), id(p[0]), id(p[1])) if type(p) is list and len(p) == 2 else id(p) for p in x
            ] if not isinstance(x, collections.abc.ItemsView) else [(id(k), id(v)) for k, v in x]


BOUND = ['add', 'remove', 'discard', 'update', 'clear', 'pop', 'bisect_left', 'bisect', 'bisect_right',
         'index', 'irange', 'islice', 'isdisjoint', 'issubset', 'issuperset', 'bisect_key_left',
         'bisect_key_right', 'bisect_key', 'irange_key', 'count', '__contains__', '__iter__',
         '__reversed__', '__getitem__', '__len__', '_reset', '_check', 'copy', 'setdefault', 'popitem',
         'peekitem', 'get', '__delitem__', '__setitem__', 'difference_update', 'intersection_update',
         'symmetric_difference_update']

CMP = {1: operator.eq, 2: operator.ne, 3: operator.lt, 4: operator.le, 5: operator.gt, 6: operator.ge}

EMPTY = (0, 0, 0, 0, [], [])


class Session:
    def __init__(self, fam, wrapk='int', track=False, cost=False):
        self.u = Universe(fam, wrapk, track)
        self.track = track
        self.cost = cost
        self.x = [None] * (NS + 1)          # the real objects
        self.p = [EMPTY] * (NS + 1)         # last observed projections
        self.bound = [{} for _ in range(NS + 1)]
        self.views = [None] * (NS + 1)
        self.wantkf = [0] * (NS + 1)
        self.oplimit = OPLIMIT
        self.bomb = None
        self.args = []

    # -- observation ------------------------------------------------------
    def project(self, a):
        x = self.x[a]
        if x is None:
            return EMPTY
        cls = type(x)
        if cls in PLAIN:
            if cls in (set, frozenset):
                s = sorted(map(decode, x))
            else:
                s = [decode(v) for v in x]
            w = [wdec(v) for v in x.values()] if cls is dict else []
            return (5, PLAIN[cls], 0, len(x), s, w)
        if cls in CLSCODE:
            t, c = CLSCODE[cls]
        else:
            t = 4 if isinstance(x, SortedDict) else 3 if isinstance(x, SortedSet) else \
                2 if isinstance(x, SortedKeyList) else 1 if isinstance(x, SortedList) else 9
            c = -1
        try:
            k = kfcode(x.key)
            n = len(x)
            keys = take(iter(x), MAXN)
            s = [decode(v) for v in keys]
            w = []
            if t == 4:
                miss = object()
                w = []
                for kk in keys:
                    v = dict.get(x, kk, miss)
                    w.append(-996 if v is miss else wdec(v))
        except Exception:
            return (t, c, -1, -1, [UNKNOWN], [])
        return (t, c, k, n, s, w)

    def changes(self):
        out = []
        for a in range(1, NS + 1):
            if self.x[a] is None and self.p[a] is EMPTY:
                continue
            q = self.project(a)
            p = self.p[a]
            if q == p:
                continue
            pre, suf, ins = splice(p[4], q[4])
            wpre, wsuf, wins = splice(p[5], q[5])
            out.append([a, q[0], q[1], q[2], q[3], pre, suf, ins, wpre, wsuf, wins])
            self.p[a] = q
        return out

    def n(self, a):
        return len(self.p[a][4])

    def codes(self, a):
        return self.p[a][4]

    # -- helpers ----------------------------------------------------------
    def o(self, code):
        if self.bomb is not None and code == self.bomb.code:
            return self.bomb
        return self.u.obj(code)

    def new(self, code, h):
        """A value to be stored, which nothing else holds if fr."""
        return self.u.fresh(code) if h.get('fr') and not self.track and self.bomb is None else self.o(code)

    def q(self, code, h):
        if self.track:
            o = None if h.get('fr') else self.u.live(code)
            return o if o is not None else self.u.fresh(code)
        return self.u.fresh(code) if h.get('fr') else self.u.obj(code)

    def m(self, a, name, h):
        if h.get('bm'):
            f = self.bound[a].get(name)
            if f is not None:
                return f
        return getattr(self.x[a], name)

    def setslot(self, d, x):
        self.x[d] = x
        self.bound[d] = {}
        self.views[d] = None

    def grab(self, d):
        """Take bound methods and views now, for later use."""
        x = self.x[d]
        if type(x) in PLAIN:
            return
        for name in BOUND:
            f = getattr(x, name, None)
            if f is not None:
                self.bound[d][name] = f
        if isinstance(x, SortedDict):
            self.views[d] = (x.keys(), x.items(), x.values())

    def view(self, a, vk, h):
        if h.get('bm') and self.views[a] is not None:
            return self.views[a][vk]
        x = self.x[a]
        if vk == 0 and h.get('alt') and h.get('how', 0) % 3 == 0 and not self.track and isinstance(x, SortedDict):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                return x.iloc           # the deprecated name of a cached keys view (it makes a cycle: not for C18)
        if h.get('how', 0) % 4 == 1:
            return VIEWS[vk](x)
        return x.keys() if vk == 0 else x.items() if vk == 1 else x.values()

    def watch(self, x):
        """Remember what a collection passed as an argument holds."""
        if not self.track and type(x) is not range:
            self.args.append((x, snap(x)))
        return x

    def iterable(self, codes, kind):
        """An iterable of the given kind, and the codes in the order it yields them."""
        it, eff = self.iterable1(codes, kind)
        if not isinstance(it, collections.abc.Iterator):
            self.watch(it)
        return it, eff

    def iterable1(self, codes, kind):
        objs = [self.o(c) for c in codes]
        if kind in ('list', None):
            return objs, codes
        if kind == 'tuple':
            return tuple(objs), codes
        if kind == 'gen':
            return gen_of(objs), codes
        if kind == 'iter':
            return iter(objs), codes
        if kind == 'map':
            return map(lambda v: v, objs), codes
        if kind == 'deque':
            return collections.deque(objs), codes
        if kind == 'set':
            s = set(objs)
            return s, [decode(v) for v in s]
        if kind == 'frozenset':
            s = frozenset(objs)
            return s, [decode(v) for v in s]
        if kind == 'keys':
            d = dict.fromkeys(objs)
            return d.keys(), [decode(v) for v in d]
        if kind == 'dict':
            d = dict.fromkeys(objs)
            return d, [decode(v) for v in d]
        if kind == 'values':
            d = dict(enumerate(objs))
            return d.values(), codes
        if kind == 'sl':
            s = sorted(objs)
            return SortedList(s), [decode(v) for v in s]
        if kind == 'ss':
            s = SortedSet(objs)
            return s, [decode(v) for v in s]
        if kind == 'ssk':
            s = SortedSet(objs, key=self.u.keyfn(1))
            return s, [decode(v) for v in s]
        if kind == 'slk':
            s = SortedKeyList(objs, key=self.u.keyfn(1))
            return s, [decode(v) for v in s]
        if kind == 'sdk':
            s = SortedDict(self.u.keyfn(1), dict.fromkeys(objs))
            return s, [decode(v) for v in s]
        if kind == 'skeys':
            s = SortedDict.fromkeys(objs)
            return s.keys(), [decode(v) for v in s]
        if kind == 'legacy':
            return Legacy(objs), codes
        if kind == 'chain':
            return itertools.chain(objs[:len(objs) // 2], objs[len(objs) // 2:]), codes
        if kind == 'range' and objs and all(type(v) is int for v in objs) and \
                objs == list(range(objs[0], objs[0] + len(objs))):
            return range(objs[0], objs[0] + len(objs)), codes
        if kind == 'range':
            return reversed(objs[::-1]), codes
        if kind == 'fail':
            return gen_of(objs, True), codes
        raise AssertionError(kind)

    def mapping(self, codes, ws, kind):
        """Arguments (args, kwargs) for a dict constructor or update, with effective pairs."""
        args, kw, eff = self.mapping1(codes, ws, kind)
        if args and not isinstance(args[0], collections.abc.Iterator):
            self.watch(args[0])
        return args, kw, eff

    def mapping1(self, codes, ws, kind):
        pairs = [(self.o(c), self.u.val(w)) for c, w in zip(codes, ws)]
        eff = (list(codes), list(ws))
        if kind in ('dict', 'map', 'odict', 'items', 'proxy', 'sd', 'sdk', 'user'):
            d = dict(pairs)
            eff = ([decode(v) for v in d], [wdec(v) for v in d.values()])
            if kind == 'dict':
                return (d,), {}, eff
            if kind == 'odict':
                return (collections.OrderedDict(d),), {}, eff
            if kind == 'items':
                return (d.items(),), {}, eff
            if kind == 'proxy':
                return (MappingProxyType(d),), {}, eff
            if kind == 'user':
                return (collections.UserDict(d),), {}, eff
            if kind in ('sd', 'sdk'):
                sd = SortedDict(d) if kind == 'sd' else SortedDict(self.u.keyfn(1), d)
                eff = ([decode(v) for v in sd], [wdec(d[v]) for v in sd])
                return (sd,), {}, eff
            return (MyMapping(d),), {}, eff
        if kind in ('duck', 'ddict', 'cmap'):
            d = dict(pairs)
            eff = ([decode(v) for v in d], [wdec(v) for v in d.values()])
            if kind == 'duck':
                return (Duck(d),), {}, eff
            if kind == 'ddict':
                return (collections.defaultdict(list, d),), {}, eff
            c = collections.ChainMap(dict(pairs[:len(pairs) // 2]), d)
            d = {k: c[k] for k in c}
            return (c,), {}, ([decode(v) for v in d], [wdec(v) for v in d.values()])
        if kind == 'lists':
            return (Legacy([list(p) for p in pairs]),), {}, eff
        if kind == 'gen':
            return (gen_of(pairs),), {}, eff
        if kind == 'zip':
            return (zip([p[0] for p in pairs], [p[1] for p in pairs]),), {}, eff
        if kind == 'tuple':
            return (tuple(map(list, pairs)),), {}, eff
        if kind == 'kw':
            d = dict((str(k), v) for k, v in pairs)
            return (), d, ([decode(v) for v in d], [wdec(v) for v in d.values()])
        if kind == 'both':
            half = len(pairs) // 2
            d = dict((str(k), v) for k, v in pairs[half:])
            return (pairs[:half],), d, (eff[0][:half] + [decode(v) for v in d],
                                        eff[1][:half] + [wdec(v) for v in d.values()])
        if kind in ('bothd', 'boths'):
            half = len(pairs) // 2
            d1 = dict(pairs[:half])
            if kind == 'boths':
                d1 = SortedDict(self.u.keyfn(1), d1)
            d = dict((str(k), v) for k, v in pairs[half:])
            both = list(d1.items()) + list(d.items())
            return (d1,), d, ([decode(k) for k, _ in both], [wdec(v) for _, v in both])
        return (pairs,), {}, eff

    # -- one operation ----------------------------------------------------
    def apply(self, prog):
        e = {'o': prog['o'], 'a': prog.get('a', 0), 'b': prog.get('b', 0), 'd': prog.get('d', 0),
             'i': prog.get('i', []), 'v': prog.get('v', []), 'w': prog.get('w', []),
             'y': prog.get('y', []), 'z': prog.get('z', []), 'f': prog.get('f', 0),
             'tw': prog.get('tw', 0), 'r': [], 'c': [], 'g': [-1, -1], 'al': [-1], 'am': 0}
        h = prog.get('h', {})
        fn = getattr(self, 'op_' + e['o'])
        self.args = []
        CNT[0] = CNT[1] = 0
        signal.setitimer(signal.ITIMER_VIRTUAL, self.oplimit)
        try:
            try:
                r = fn(e, h)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        except (Exception, Hang) as ex:
            r = [excode(ex)]
        e['r'] = [] if r is None else r
        if self.cost:
            e['g'] = [CNT[0], CNT[1]]
        signal.setitimer(signal.ITIMER_VIRTUAL, self.oplimit)
        try:
            try:
                e['c'] = self.changes()
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        except Hang:
            e['c'] = [[max(e['a'], 1), 9, -1, -1, -1, 0, 0, [UNKNOWN], 0, 0, []]]
        for x, was in self.args:
            try:
                if snap(x) != was:
                    e['am'] = 1
            except Exception:
                e['am'] = 1
        self.args = []
        if self.track:
            e['al'] = self.u.alive()
        return e

    # construction
    def op_init(self, e, h):
        t, c, k = e['z']
        d = e['d']
        cls = CLASSES[t][c] if t < 5 else None
        if t == 5:
            objs = [self.o(v) for v in e['v']]
            if c == 3:
                x = dict(zip(objs, [self.u.val(w) for w in e['w']]))
                e['v'], e['w'] = [decode(v) for v in x], [wdec(v) for v in x.values()]
            else:
                x = [list, tuple, set, None, frozenset][c](objs)
                if c in (2, 4):
                    e['v'] = sorted(map(decode, x))
            self.setslot(d, x)
            return None
        how = h.get('how', 0)
        key = self.u.keyfn(k)
        if t == 4:
            if e['b']:
                args, kw = (self.x[e['b']],), {}
            else:
                args, kw, (e['v'], e['w']) = self.mapping(e['v'], e['w'], h.get('mk'))
            if not e['v'] and not e['b'] and how % 3 == 2:
                args, kw = (), {}
            if key is not None:
                args = (key,) + args
            elif how % 3 == 1:
                args = (None,) + args
            x = cls(*args, **kw)
        else:
            if e['b']:
                it = self.x[e['b']]
            else:
                it, e['v'] = self.iterable(e['v'], h.get('ik'))
            none = not e['v'] and not e['b'] and how % 2
            if t == 1:
                if none:
                    x = cls()
                else:
                    x = [lambda: cls(it), lambda: cls(iterable=it), lambda: cls(it, None),
                         lambda: cls(it, key=None)][how % 4]()
            elif t == 2:
                if c == 0:
                    cls = [SortedList, SortedKeyList, SortedList,
                           getattr(SC, 'SortedListWithKey', SortedKeyList)][how % 4]
                if k == 6 and how % 3 == 0 and cls is not SortedList:
                    x = cls() if none else cls(it)
                elif none:
                    x = cls(key=key)
                else:
                    x = [lambda: cls(it, key=key), lambda: cls(it, key), lambda: cls(key=key, iterable=it)
                         ][how % 3]()
            else:
                if none:
                    x = cls(key=key) if key is not None else cls()
                elif key is None:
                    x = [lambda: cls(it), lambda: cls(it, key=None), lambda: cls(iterable=it)][how % 3]()
                else:
                    x = [lambda: cls(it, key=key), lambda: cls(it, key)][how % 2]()
        self.setslot(d, x)
        if h.get('grab'):
            self.grab(d)
        return None

    def op_fromk(self, e, h):
        cls = CLASSES[4][e['z'][0]]
        it, e['v'] = self.iterable(e['v'], h.get('ik'))
        w = self.u.val(e['w'][0])
        x = cls.fromkeys(it) if w is None and h.get('how') else cls.fromkeys(it, w)
        self.setslot(e['d'], x)

    def op_badkey(self, e, h):
        how = h.get('how', 0)
        from uni import SubL
        key = self.u.keyfn(1)
        if how % 3 == 0:
            SubL([], key=key)
        elif how % 3 == 1:
            SubL(key=key)
        else:
            SubL(iter(()), key)
        return [0]

    def op_srep(self, e, h):
        """The repr of a container that can be reached from its own elements or values."""
        cls = CLASSES[e['z'][0]][e['z'][1]]
        if cls is None:
            cls = CLASSES[e['z'][0]][0]
        inner = Inner()
        if issubclass(cls, SortedDict):
            x = cls({1: inner, 2: inner})
            inner.x = [x, x.values(), x.items(), [x]][h.get('how', 0) % 4]
        else:
            x = cls([inner])
            inner.x = x if h.get('how', 0) % 2 else [x]
        return [B('...' in repr(x) and '...' in repr(x) and repr(x).startswith(cls.__name__))]

    def op_abc(self, e, h):
        """What kind of collection it says it is; containers are not hashable."""
        x = self.x[e['a']]
        its = [x]
        if isinstance(x, SortedDict):
            its += [x.keys(), x.items(), x.values()]
        out = []
        for y in its:
            out += [B(isinstance(y, c)) for c in ABCS]
        out.append(one(lambda: I(hash(x))))
        out += [B(isinstance(f(x), collections.abc.Iterator)) for f in (iter, reversed)]
        return out

    def op_drop(self, e, h):
        a = e['a']
        self.x[a] = None
        self.bound[a] = {}
        self.views[a] = None

    def op_copy(self, e, h):
        x = self.x[e['a']]
        how = e['z'][0]
        bad = 0
        if how == 4 and self.p[e['a']][2] == 6:
            how, e['z'] = 3, [3]        # the default key has no repr that could be evaluated
        if how == 0:
            y = x.copy()
        elif how == 1:
            y = copy.copy(x)
        elif how in (2, 3):
            # alone, or within a structure that holds it twice and one of its elements too
            some = [v for v in take(iter(x), 3)] if h.get('wrap') else []
            z = [x, some, x] if h.get('wrap') else x
            z = copy.deepcopy(z) if how == 2 else pickle.loads(pickle.dumps(z, h.get('proto', pickle.HIGHEST_PROTOCOL)))
            y = z
            if h.get('wrap'):
                y = z[0]
                bad += z[2] is not y
                bad += sum(type(a) in MUTABLE and a is not b for a, b in zip(z[1], take(iter(y), 3))
                           ) if not isinstance(x, SortedSet) else \
                    sum(type(a) in MUTABLE and all(a is not b for b in take(iter(y), MAXN)) for a in z[1])
        else:
            y = eval(repr(x), dict(EVALNS))
        self.setslot(e['d'], y)
        if h.get('grab'):
            self.grab(e['d'])
        return [self.unlike(x, y, how < 2) + bad]

    @staticmethod
    def unlike(x, y, same):
        """How many of the objects in a shallow copy are others, or in a deep one shared though they can be changed."""
        try:
            n = 0
            for f in (iter, lambda d: iter(d.values()))[:1 + isinstance(x, SortedDict)]:
                p, q = take(f(x), MAXN), take(f(y), MAXN)
                if same and isinstance(x, SortedSet):       # ties may come in another order
                    n += len(set(map(id, p)) ^ set(map(id, q)))
                elif same:
                    n += len(p) != len(q) or any(a is not b for a, b in zip(p, q))
                else:
                    ids = set(map(id, p))
                    n += sum(type(b) in MUTABLE and id(b) in ids for b in q)
            return n
        except Exception:
            return UNKNOWN

    # plain collections
    def op_pset(self, e, h):
        x = self.x[e['a']]
        objs = [self.o(c) for c in e['v']]
        if type(x) is list:
            x[:] = objs
        elif type(x) is set:
            x.clear()
            x.update(objs)
            e['v'] = sorted(map(decode, x))
        else:
            x.clear()
            x.update(zip(objs, [self.u.val(w) for w in e['w']]))
            e['v'], e['w'] = [decode(v) for v in x], [wdec(v) for v in x.values()]

    def op_take(self, e, h):
        x = self.x[e['a']]
        i, j, k = map(N, e['i'])
        src = x.keys() if isinstance(x, SortedDict) else x
        y = src[i:j:k]
        self.setslot(e['d'], y)

    # queries
    def src(self, a):
        x = self.x[a]
        return x.keys() if isinstance(x, SortedDict) else x

    def op_getA(self, e, h):
        x = self.src(e['a'])
        lo, hi = e['i']
        idx = list(range(lo, hi + 1))
        order = idx if not h.get('sh') else idx[::-1]
        res = {}
        for i in order:
            res[i] = one(lambda: decode(x[at(i, h)]))
        return [res[i] for i in idx]

    def op_getsA(self, e, h):
        x = self.src(e['a'])
        out = []
        for i, j, k in e['y']:
            try:
                r = x[cut((i, j, k), h)]
                out.append(len(r))
                out.extend(decode(v) for v in r)
            except Exception as ex:
                out += [1, excode(ex)]
        return out

    def op_qA(self, e, h):
        a = e['a']
        x = self.x[a]
        full = not isinstance(x, (SortedSet, SortedDict))
        bl = self.m(a, 'bisect_left', h)
        br = self.m(a, 'bisect' if h.get('alt') else 'bisect_right', h)
        cnt = self.m(a, 'count', h) if full else None
        out = []
        for c in e['v']:
            q = self.q(c, h)
            if full:
                out.append(one(lambda: B(q in x)))
                out.append(one(lambda: I(cnt(q))))
            out.append(one(lambda: I(bl(q))))
            out.append(one(lambda: I(br(q))))
        return out

    def op_idxA(self, e, h):
        f = self.m(e['a'], 'index', h)
        out = []
        for c in e['v']:
            q = self.q(c, h)
            for i, j in e['y']:
                if i == NONE and j == NONE and h.get('alt'):
                    out.append(one(lambda: I(f(q))))
                elif j == NONE and h.get('alt'):
                    out.append(one(lambda: I(f(q, i if i != NONE else 0))))
                else:
                    out.append(one(lambda: I(f(q, N(i), N(j)))))
        return out

    def rng(self, out, fn, lim):
        try:
            it = fn()               # an iterator, not merely an iterable
            r = []
            while len(r) < lim:
                try:
                    r.append(next(it))
                except StopIteration:
                    break
            out.append(len(r))
            out.extend(decode(v) for v in r)
        except Exception as ex:
            out += [1, excode(ex)]

    def weave(self, fns, lim):
        """Iterators made together and consumed in turn."""
        res = [[] for _ in fns]
        its = {}
        for j, fn in enumerate(fns):
            try:
                its[j] = iter(fn())
            except Exception as ex:
                res[j] = [excode(ex)]
        while its:
            for j in list(its):
                try:
                    res[j].append(decode(next(its[j])))
                except StopIteration:
                    del its[j]
                except Exception as ex:
                    res[j] = [excode(ex)]
                    del its[j]
                else:
                    if len(res[j]) >= lim:
                        del its[j]
        return [c for r in res for c in [len(r)] + r]

    def op_irA(self, e, h):
        f = self.m(e['a'], 'irange', h)
        lim = 3 * self.n(e['a']) + 50
        out = []
        if h.get('sh'):
            return self.weave([lambda y=y: f(*[None if q == NONE else self.q(q, h) for q in y[:2]],
                                             (bool(y[2]), bool(y[3])), bool(y[4])) for y in e['y']], lim)
        for m, M, im, iM, rv in e['y']:
            mo = None if m == NONE else self.q(m, h)
            Mo = None if M == NONE else self.q(M, h)
            if h.get('alt'):
                kw = {}
                if mo is not None:
                    kw['minimum'] = mo
                if Mo is not None:
                    kw['maximum'] = Mo
                if not (im and iM):
                    kw['inclusive'] = (bool(im), bool(iM))
                if rv:
                    kw['reverse'] = True
                self.rng(out, lambda: f(**kw), lim)
            else:
                self.rng(out, lambda: f(mo, Mo, (bool(im), bool(iM)), bool(rv)), lim)
        return out

    def op_kqA(self, e, h):
        a = e['a']
        kf = self.p[a][2]
        bl = self.m(a, 'bisect_key_left', h)
        br = self.m(a, 'bisect_key' if h.get('alt') else 'bisect_key_right', h)
        out = []
        for k2 in e['i']:
            k = self.u.key(kf, k2)
            out.append(one(lambda: I(bl(k))))
            out.append(one(lambda: I(br(k))))
        return out

    def op_kirA(self, e, h):
        a = e['a']
        kf = self.p[a][2]
        f = self.m(a, 'irange_key', h)
        lim = 3 * self.n(a) + 50
        out = []
        for m, M, im, iM, rv in e['y']:
            mo = None if m == NONE else self.u.key(kf, m)
            Mo = None if M == NONE else self.u.key(kf, M)
            if h.get('alt'):
                kw = {}
                if mo is not None:
                    kw['min_key'] = mo
                if Mo is not None:
                    kw['max_key'] = Mo
                if not (im and iM):
                    kw['inclusive'] = (bool(im), bool(iM))
                if rv:
                    kw['reverse'] = True
                self.rng(out, lambda: f(**kw), lim)
            else:
                self.rng(out, lambda: f(mo, Mo, (bool(im), bool(iM)), bool(rv)), lim)
        return out

    def op_islA(self, e, h):
        f = self.m(e['a'], 'islice', h)
        lim = 3 * self.n(e['a']) + 50
        out = []
        if h.get('sh'):
            return self.weave([lambda y=y: f(atn(y[0], h), atn(y[1], h), bool(y[2])) for y in e['y']], lim)
        for i, j, rv in e['y']:
            if h.get('alt'):
                kw = {}
                if i != NONE:
                    kw['start'] = i
                if j != NONE:
                    kw['stop'] = j
                if rv:
                    kw['reverse'] = True
                self.rng(out, lambda: f(**kw), lim)
            else:
                self.rng(out, lambda: f(atn(i, h), atn(j, h), bool(rv)), lim)
        return out

    def op_iter(self, e, h):
        x = self.x[e['a']]
        vs = take(iter(x), MAXN)
        if not self.cost and len(vs) == len(x):         # the other ways to read everything
            k = h.get('how', 0)
            if k == 1:
                vs = list(x)
            elif k == 2:
                vs = tuple(x)
            elif k == 3:
                vs = [*x]
            elif k == 4 and isinstance(x, SortedDict):
                vs = list(dict(x))
            elif k == 5 and isinstance(x, SortedDict):
                vs = list({**x})
            elif k == 6 and isinstance(x, SortedDict):
                vs = [*x.keys()]
        return [decode(v) for v in vs]

    def op_rev(self, e, h):
        return [decode(v) for v in take(reversed(self.x[e['a']]), MAXN)]

    def op_len(self, e, h):
        x = self.x[e['a']]
        return [I(len(x)), B(bool(x))]

    # the storage underneath
    def op_chk(self, e, h):
        a = e['a']
        x = self.x[a]
        import contextlib
        import io
        r = 0
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                x._check()
        except Exception as ex:
            r = excode(ex)
        e['z'] = [0]
        e['y'] = []
        st = self.storage(a)
        if st is not None:
            e['z'], e['y'] = st
        return [r]

    def storage(self, a):
        """The storage projection, or None where the code no longer has it in this form."""
        x = self.x[a]
        kf = self.p[a][2]
        L = x if isinstance(x, SortedList) else getattr(x, '_list', None)
        if not isinstance(L, SortedList):
            return None
        try:
            lists, maxes, index = L._lists, L._maxes, L._index
            off, load, n = L._offset, L._load, L._len
            keyed = isinstance(L, SortedKeyList)
            keys = L._keys if keyed else None
        except AttributeError:
            return None
        if not all(type(v) is list for v in (lists, maxes, index)) or \
                not all(type(v) is int for v in (off, load, n)) or \
                not all(type(v) is list for v in lists) or not all(type(v) is int for v in index):
            return None
        if keyed and (type(keys) is not list or not all(type(v) is list for v in keys)):
            return None
        lens = [len(v) for v in lists]
        flat = [decode(v) for sub in lists for v in sub]
        if keyed:
            mx = [self.u.keydec(kf, v) for v in maxes]
            ks = [self.u.keydec(kf, v) for sub in keys for v in sub]
            if [len(v) for v in keys] != lens:
                ks = ks + [UNKNOWN]
        else:
            mx = [decode(v) for v in maxes]
            ks = []
        return [1 if keyed else 0], [lens, flat, mx, ks, list(index), [off, load, n]]

    # list and set mutators
    def op_add(self, e, h):
        f = self.m(e['a'], 'add', h)
        f(self.new(e['v'][0], h))

    @staticmethod
    def own(x, h):
        """The contents of a container, through one of its own iterators."""
        k = h.get('how', 0) % 6
        if type(x) in PLAIN:
            return iter(x)
        if k == 1 and not isinstance(x, SortedDict):
            return iter(x[:])
        if k == 2:
            return x.islice()
        if k == 3:
            return x.irange()
        if k == 4:
            return (v for v in x)
        return iter(x)

    def operand(self, e, h):
        if e['b']:
            x = self.x[e['b']]
            return self.own(x, h) if h.get('self_iter') else x
        it, e['v'] = self.iterable(e['v'], h.get('ik'))
        return it

    def inop(self, a, op, y):
        """An operation in place has nothing to report, except that it gave another object."""
        x = self.x[a]
        self.x[a] = z = op(x, y)
        return None if z is x else [UNKNOWN]

    def op_iadd(self, e, h):
        return self.inop(e['a'], operator.iadd, self.operand(e, h))

    def op_imul(self, e, h):
        return self.inop(e['a'], operator.imul, e['i'][0])

    def op_rem(self, e, h):
        self.m(e['a'], 'remove', h)(self.q(e['v'][0], h))

    def op_dis(self, e, h):
        self.m(e['a'], 'discard', h)(self.q(e['v'][0], h))

    def op_pop(self, e, h):
        f = self.m(e['a'], 'pop', h)
        v = f() if not e['i'] else f(at(e['i'][0], h))
        return [decode(v)]

    def op_del(self, e, h):
        del self.x[e['a']][at(e['i'][0], h)]

    def op_dels(self, e, h):
        del self.x[e['a']][cut(e['i'], h)]

    def op_clr(self, e, h):
        self.m(e['a'], 'clear', h)()

    def op_rst(self, e, h):
        self.m(e['a'], '_reset', h)(e['i'][0])

    def op_plus(self, e, h):
        x = self.x[e['a']]
        if h.get('ik') == 'slk':    # a SortedKeyList on the right of a SortedList decides the type: Python asks it first
            h = dict(h, ik='tuple')
        y = self.operand(e, h)
        self.setslot(e['d'], x + y if not e['z'][0] else y + x)

    def op_mul(self, e, h):
        x = self.x[e['a']]
        self.setslot(e['d'], x * e['i'][0] if not e['z'][0] else e['i'][0] * x)

    def op_cmp(self, e, h):
        x = self.x[e['a']]
        if e['b']:
            y = self.x[e['b']]
        else:
            objs = [self.q(c, h) for c in e['v']]
            y = self.watch(self.sequence(objs, h.get('ik')))
        op = CMP[e['z'][0]]
        return [B(op(x, y) if not e['z'][1] else op(y, x))]

    def sequence(self, objs, kind):
        """One of the many things that are sequences."""
        if kind == 'tuple':
            return tuple(objs)
        if kind == 'deque':
            return collections.deque(objs)
        if kind == 'user':
            return collections.UserList(objs)
        if kind == 'seq':
            return MySeq(objs)
        if kind == 'range' and objs and all(type(v) is int for v in objs) and \
                objs == list(range(objs[0], objs[0] + len(objs))):
            return range(objs[0], objs[0] + len(objs))
        if kind == 'sl' and self.u.ordered and all(not b < a for a, b in zip(objs, objs[1:])):
            return SortedList(objs)
        if kind == 'ss' and self.u.ordered and self.u.hashable and all(a < b for a, b in zip(objs, objs[1:])):
            return SortedSet(objs)
        if kind == 'skeys' and self.u.ordered and self.u.hashable and all(a < b for a, b in zip(objs, objs[1:])):
            return SortedDict.fromkeys(objs).keys()
        if kind == 'svals':
            return SortedDict(enumerate(objs)).values()
        return objs

    def op_cmpx(self, e, h):
        x = self.x[e['a']]
        y = [5, None, 1.5, object(), {1: 2}.items, (i for i in ())][h.get('how', 0) % 6]
        if h.get('alt') and not isinstance(x, (SortedSet, SortedDict)):
            y = [set(), frozenset([1]), {}, {1: 2}.keys(), iter(()), SortedDict()][h.get('how', 0) % 6]
        op = CMP[e['z'][0]]
        return [B(op(x, y) if not e['z'][1] else op(y, x))]

    def op_refuse(self, e, h):
        x = self.x[e['a']]
        v = self.o(e['v'][0])
        how = e['z'][0]
        if how == 0:
            x[e['i'][0]] = v
        elif how == 1:
            x.append(v)
        elif how == 2:
            x.extend([v])
        elif how == 3:
            x.insert(e['i'][0], v)
        elif how == 4:
            x.reverse()
        else:
            x[e['i'][0]:] = [v]
        return [0]

    # sets
    def operands(self, e, h):
        ys = []
        kinds = h.get('iks') or []
        for j, codes in enumerate(e['y']):
            it, eff = self.iterable(codes, kinds[j] if j < len(kinds) else None)
            e['y'] = e['y'][:j] + [eff] + e['y'][j + 1:]
            ys.append(it)
        if e['b']:
            x = self.x[e['b']]
            if h.get('self_iter'):
                x = self.own(x, h)
            ys.append(x)
        return ys

    def inplace(self, e, h, name, op):
        a = e['a']
        ys = self.operands(e, h)
        if h.get('op') and len(ys) == 1:
            return self.inop(a, op, ys[0])
        self.m(a, name, h)(*ys)

    def op_upd(self, e, h):
        a = e['a']
        x = self.x[a]
        if isinstance(x, SortedDict):
            if e['b']:
                args, kw = (self.x[e['b']],), {}
                if h.get('self_iter'):
                    args = (args[0].items() if h.get('how', 0) % 2 else iter(args[0].items()),)
            else:
                args, kw, (e['v'], e['w']) = self.mapping(e['v'], e['w'], h.get('mk'))
            if h.get('op') and len(args) == 1 and not kw:
                return self.inop(a, operator.ior, args[0])
            self.m(a, 'update', h)(*args, **kw)
        elif isinstance(x, SortedSet):
            return self.inplace(e, h, 'update', operator.ior)
        else:
            self.m(a, 'update', h)(self.operand(e, h))

    def op_difu(self, e, h):
        return self.inplace(e, h, 'difference_update', operator.isub)

    def op_intu(self, e, h):
        return self.inplace(e, h, 'intersection_update', operator.iand)

    def op_symu(self, e, h):
        return self.inplace(e, h, 'symmetric_difference_update', operator.ixor)

    def newset(self, e, h, name, op, refl):
        x = self.x[e['a']]
        ys = self.operands(e, h)
        if refl:
            y = op(ys[0], x)
        elif h.get('op') and len(ys) == 1:
            y = op(x, ys[0])
        else:
            y = getattr(x, name)(*ys)
        self.setslot(e['d'], y)

    def op_uni(self, e, h):
        self.newset(e, h, 'union', operator.or_, h.get('refl'))

    def op_int(self, e, h):
        self.newset(e, h, 'intersection', operator.and_, h.get('refl'))

    def op_dif(self, e, h):
        self.newset(e, h, 'difference', operator.sub, False)

    def op_rdif(self, e, h):
        self.newset(e, h, None, operator.sub, True)

    def op_sym(self, e, h):
        self.newset(e, h, 'symmetric_difference', operator.xor, h.get('refl'))

    def op_scmp(self, e, h):
        x = self.x[e['a']]
        y = self.operands(e, h)[0]
        op = CMP[e['z'][0]]
        return [B(op(x, y) if not e['z'][1] else op(y, x))]

    def op_rel(self, e, h):
        name = {1: 'isdisjoint', 2: 'issubset', 3: 'issuperset'}[e['z'][0]]
        return [B(self.m(e['a'], name, h)(self.operands(e, h)[0]))]

    def op_memA(self, e, h):
        x = self.x[e['a']]
        out = []
        if isinstance(x, SortedDict):
            get = self.m(e['a'], 'get', h)
            dflt = self.u.val(e['w'][0])
            for c in e['v']:
                q = self.q(c, h)
                out += [one(lambda: B(q in x)), one(lambda: wdec(get(q))),
                        one(lambda: wdec(get(q, dflt)))]
        else:
            cnt = self.m(e['a'], 'count', h)
            for c in e['v']:
                q = self.q(c, h)
                out += [one(lambda: B(q in x)), one(lambda: I(cnt(q)))]
        return out

    # dicts
    def op_set(self, e, h):
        self.x[e['a']][self.new(e['v'][0], h)] = self.u.val(e['w'][0])

    def op_deld(self, e, h):
        del self.x[e['a']][self.q(e['v'][0], h)]

    def op_popd(self, e, h):
        f = self.m(e['a'], 'pop', h)
        q = self.q(e['v'][0], h)
        if not e['w']:
            return [wdec(f(q))]
        d = self.u.val(e['w'][0])
        return [wdec(f(q, default=d) if h.get('alt') else f(q, d))]

    def op_popi(self, e, h):
        f = self.m(e['a'], 'popitem', h)
        r = f() if not e['i'] else f(at(e['i'][0], h)) if not h.get('alt') else f(index=at(e['i'][0], h))
        if type(r) is not tuple:
            return [-992]
        k, v = r
        return [decode(k), wdec(v)]

    def op_peek(self, e, h):
        r = self.m(e['a'], 'peekitem', h)()
        if type(r) is not tuple:
            return [-992]
        return [decode(r[0]), wdec(r[1])]

    def op_peekA(self, e, h):
        f = self.m(e['a'], 'peekitem', h)
        out = []
        for i in range(e['i'][0], e['i'][1] + 1):
            try:
                k, v = f(at(i, h))
                out += [decode(k), wdec(v)]
            except Exception as ex:
                out.append(excode(ex))
        return out

    def op_setd(self, e, h):
        f = self.m(e['a'], 'setdefault', h)
        k = self.new(e['v'][0], h)
        v = self.u.val(e['w'][0])
        if v is None and h.get('alt'):
            return [wdec(f(k))]
        return [wdec(f(k, v))]

    def op_or(self, e, h):
        x = self.x[e['a']]
        if e['b']:
            y = self.x[e['b']]
        else:
            mk = h.get('mk')
            if e['z'][0] and mk == 'odict':
                mk = 'dict'             # OrderedDict.__or__ takes precedence and is not ours
            (y,), _, (e['v'], e['w']) = self.mapping(e['v'], e['w'], mk)
        self.setslot(e['d'], x | y if not e['z'][0] else y | x)

    def op_look(self, e, h):
        return [wdec(self.x[e['a']][self.q(e['v'][0], h)])]

    def op_dcmp(self, e, h):
        x = self.x[e['a']]
        if e['b']:
            y = self.x[e['b']]
        else:
            (y,), _, (e['v'], e['w']) = self.mapping(e['v'], e['w'], 'dict')
        op = CMP[e['z'][0]]
        return [B(op(x, y) if not e['z'][1] else op(y, x))]

    # views
    def venc(self, vk, item):
        if vk == 0:
            return [decode(item)]
        if vk == 1:
            if type(item) is not tuple or len(item) != 2:
                return [-992]
            return [decode(item[0]), wdec(item[1])]
        return [wdec(item)]

    def vq(self, e, h, j):
        vk = e['z'][0]
        if vk == 0:
            return self.q(e['v'][j], h)
        if vk == 1:
            return (self.q(e['v'][j], h), self.u.val(e['w'][j]))
        return self.u.val(e['w'][j])

    def vnq(self, e):
        return len(e['w']) if e['z'][0] == 2 else len(e['v'])

    def op_vlen(self, e, h):
        return [I(len(self.view(e['a'], e['z'][0], h)))]

    def op_viter(self, e, h):
        v = self.view(e['a'], e['z'][0], h)
        it = reversed(v) if e['z'][1] else iter(v)
        vs = take(it, MAXN)
        if not self.cost and not e['z'][1] and len(vs) == len(v) and h.get('how', 0) < 4:
            k = h.get('how', 0)
            x = self.x[e['a']]
            if k == 0:
                vs = list(v)
            elif k == 1 and e['z'][0] == 1:
                vs = list(dict(x).items())
            elif k == 2 and e['z'][0] == 1:
                vs = list({**x}.items())
            elif k == 3 and e['z'][0] == 2:
                vs = list(dict(x).values())
        return [c for x in vs for c in self.venc(e['z'][0], x)]

    def op_vinA(self, e, h):
        v = self.view(e['a'], e['z'][0], h)
        out = []
        for j in range(self.vnq(e)):
            q = self.vq(e, h, j)
            out.append(one(lambda: B(q in v)))
        return out

    def op_vcntA(self, e, h):
        v = self.view(e['a'], e['z'][0], h)
        out = []
        for j in range(self.vnq(e)):
            q = self.vq(e, h, j)
            out.append(one(lambda: I(v.count(q))))
        return out

    def op_vidxA(self, e, h):
        v = self.view(e['a'], e['z'][0], h)
        out = []
        for j in range(self.vnq(e)):
            q = self.vq(e, h, j)
            for a, b in e['y']:
                if a == NONE and b == NONE:
                    out.append(one(lambda: I(v.index(q))))
                else:
                    out.append(one(lambda: I(v.index(q, 0 if a == NONE else a, N(b)))))
        return out

    def op_vgetA(self, e, h):
        v = self.view(e['a'], e['z'][0], h)
        out = []
        for i in range(e['i'][0], e['i'][1] + 1):
            try:
                out += self.venc(e['z'][0], v[at(i, h)])
            except Exception as ex:
                out.append(excode(ex))
        return out

    def op_vgetsA(self, e, h):
        v = self.view(e['a'], e['z'][0], h)
        out = []
        for i, j, k in e['y']:
            try:
                r = v[cut((i, j, k), h)]
                out.append(len(r))
                for x in r:
                    out += self.venc(e['z'][0], x)
            except Exception as ex:
                out += [1, excode(ex)]
        return out

    def op_vdel(self, e, h):
        v = self.view(e['a'], e['z'][0], h)
        del v[at(e['i'][0], h)]

    def op_vdels(self, e, h):
        v = self.view(e['a'], e['z'][0], h)
        del v[cut(e['i'], h)]

    def vother(self, e, h):
        vk = e['z'][0]
        if e['b']:
            x = self.x[e['b']]
            if isinstance(x, (SortedDict, dict)):
                return x.keys() if vk == 0 else x.items()
            return x
        if vk == 0:
            s = [self.o(c) for c in e['v']]
        else:
            s = [(self.o(c), self.u.val(w)) for c, w in zip(e['v'], e['w'])]
        kind = h.get('ik')
        if kind == 'gen':
            return gen_of(s)
        if kind == 'tuple':
            return self.watch(tuple(s))
        if kind == 'keys':
            return self.watch(dict.fromkeys(s).keys())
        if kind == 'values':
            return self.watch(dict(enumerate(s)).values())
        return self.watch(frozenset(s) if kind == 'frozenset' else list(s) if kind == 'list' else
                          SortedSet(s) if kind == 'ss' else set(s))

    def op_vset(self, e, h):
        vk, op, refl = e['z']
        v = self.view(e['a'], vk, h)
        y = self.vother(e, h)
        f = {1: operator.or_, 2: operator.and_, 3: operator.sub, 4: operator.xor}[op]
        r = f(y, v) if refl else f(v, y)
        out = [1 if isinstance(r, SortedSet) else 0]
        for x in take(iter(r), MAXN):
            q = self.venc(vk, x)
            out += [q[0] // 100] + [w % 100 if 300 <= w < 500 else w for w in q[1:]]
        return out

    def op_vcmp(self, e, h):
        vk, op, refl = e['z']
        v = self.view(e['a'], vk, h)
        y = self.vother(e, h)
        f = CMP[op]
        return [B(f(y, v) if refl else f(v, y))]

    def op_vdisj(self, e, h):
        v = self.view(e['a'], e['z'][0], h)
        return [B(v.isdisjoint(self.vother(e, h)))]

    # calls whose arguments make them fail (C15); h['how'] says which
    def op_fault(self, e, h):
        a = e['a']
        x = self.x[a]
        how = h['how']
        if h.get('bomb'):
            self.bomb = Bomb(*h['bomb'])
        val = self.o(e['v'][0]) if e['v'] else None
        if h.get('ghost'):
            val = Ghost(val)
        key = kfobj = None
        if h.get('poison') is not None:
            kfobj = x.key
            kfobj.poison = set(h['poison'])
        if isinstance(x.key, KeyFn):
            x.key.alien = h.get('alien', 'raise')
        try:
            r = FAULTS[how](self, x, e, h, val)
            return r if type(r) is list else []
        finally:
            if kfobj is not None:
                kfobj.poison = None
            if self.bomb is not None:
                self.bomb.bad = ()
                self.bomb = None


def _upd_iter(s, x, e, h, val):
    """Bulk addition of e.v, in one of several ways."""
    it, _ = s.iterable(e['v'], h.get('ik'))
    if h.get('op'):
        if isinstance(x, SortedSet):
            s.x[e['a']] = operator.ior(x, it)
        else:
            s.x[e['a']] = operator.iadd(x, it)
    elif isinstance(x, SortedSet) and h.get('two'):
        n = len(e['v']) // 2
        objs = [s.o(c) for c in e['v']]
        x.update(objs[:n], gen_of(objs[n:], h.get('ik') == 'fail'))
    else:
        x.update(it)


def _dupd(s, x, e, h, val):
    pairs = [(s.o(c), s.u.val(w)) for c, w in zip(e['v'], e['w'])]
    bad = h.get('bad')
    if bad == 'len3':
        pairs.append((1, 2, 3))
    elif bad == 'noniter':
        pairs.append(5)
    elif bad == 'unhash':
        pairs.append(([], 1))
    if bad == 'raise':
        arg = gen_of(pairs, True)
    elif h.get('mk') == 'dict':
        arg = dict(pairs)
    else:
        arg = pairs
    if h.get('op'):
        s.x[e['a']] = operator.ior(x, arg)
    else:
        x.update(arg)


def _symu(s, x, e, h, val):
    it, _ = s.iterable(e['v'], h.get('ik'))
    if h.get('op'):
        s.x[e['a']] = operator.ixor(x, it)
    else:
        x.symmetric_difference_update(it)


def _popq(f):
    def g(s, x, e, h, val):
        f(s, x, e, h, val)
        return [0]
    return g


def _setitem(s, x, e, h, val):
    x[val] = s.u.val(1)


def _delslice(s, x, e, h, val):
    del x[0:'a']


def _delview(s, x, e, h, val):
    v = s.view(e['a'], h.get('vk', 0), h)
    del v[e['i'][0]]


FAULTS = {
    'add': lambda s, x, e, h, val: x.add(val),
    'update': _upd_iter,
    'dupdate': _dupd,
    'symu': _symu,
    'remove': lambda s, x, e, h, val: x.remove(val),
    'discard': lambda s, x, e, h, val: x.discard(val),
    'pop': lambda s, x, e, h, val: [decode(x.pop(e['i'][0]))],
    'popbad': lambda s, x, e, h, val: [decode(x.pop('a'))],
    'del': lambda s, x, e, h, val: x.__delitem__(e['i'][0]),
    'delbad': lambda s, x, e, h, val: x.__delitem__('zz' if not isinstance(x, SortedDict) else []),
    'delslice': _delslice,
    'delzero': lambda s, x, e, h, val: x.__delitem__(slice(None, None, 0)),
    'in': lambda s, x, e, h, val: [B(val in x)],
    'count': lambda s, x, e, h, val: [I(x.count(val))],
    'index': lambda s, x, e, h, val: [I(x.index(val))],
    'bisect': lambda s, x, e, h, val: [I(x.bisect_left(val))],
    'irange': lambda s, x, e, h, val: [len(take(x.irange(val, val), 9))],
    'getbad': lambda s, x, e, h, val: [decode(x['a'])],
    'imul': lambda s, x, e, h, val: s.x.__setitem__(e['a'], operator.imul(x, 'a')),
    'upd5': lambda s, x, e, h, val: x.update(5),
    'iadd5': lambda s, x, e, h, val: s.x.__setitem__(e['a'], operator.iadd(x, 5)),
    'plus5': lambda s, x, e, h, val: [len(x + 5)],
    'setitem': _setitem,
    'setdefault': lambda s, x, e, h, val: [wdec(x.setdefault(val, 1))],
    'dpop': lambda s, x, e, h, val: [wdec(x.pop(val))],
    'ddel': lambda s, x, e, h, val: x.__delitem__(val),
    'look': lambda s, x, e, h, val: [wdec(x[val])],
    'popitem': lambda s, x, e, h, val: [decode(x.popitem(e['i'][0])[0])],
    'popitembad': lambda s, x, e, h, val: [decode(x.popitem('a')[0])],
    'peek': lambda s, x, e, h, val: [decode(x.peekitem(e['i'][0])[0])],
    'delview': _delview,
    'intu': lambda s, x, e, h, val: x.intersection_update(s.iterable(e['v'], h.get('ik'))[0]),
    'difu': lambda s, x, e, h, val: x.difference_update(s.iterable(e['v'], h.get('ik'))[0]),
    'gdifu': lambda s, x, e, h, val: x.difference_update([s.o(c) for c in e['v'][1:]] + [val]),
    'unhash_add': lambda s, x, e, h, val: x.add([1]),
    'unhash_upd': lambda s, x, e, h, val: x.update([s.o(c) for c in e['v']] + [[1]]),
    'unhash_in': lambda s, x, e, h, val: [B([1] in x)],
    'unhash_dis': lambda s, x, e, h, val: x.discard([1]),
    'unhash_rem': lambda s, x, e, h, val: x.remove([1]),
    'unhash_set': lambda s, x, e, h, val: x.__setitem__([1], 2),
    'unhash_setd': lambda s, x, e, h, val: [wdec(x.setdefault([1], 2))],
    'unhash_pop': lambda s, x, e, h, val: [wdec(x.pop([1], 2))],
    'fromkbad': lambda s, x, e, h, val: [len(type(x).fromkeys([[1]]))],
}


def splice(old, new):
    n = min(len(old), len(new))
    pre = 0
    while pre < n and old[pre] == new[pre]:
        pre += 1
    suf = 0
    n -= pre
    while suf < n and old[-1 - suf] == new[-1 - suf]:
        suf += 1
    return pre, suf, new[pre:len(new) - suf]
