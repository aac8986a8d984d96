"""Values, key functions and classes used to drive sortedcontainers.

Every value has an integer code 100*rank + tag (see spec/PySeq.tla).  A
Universe turns codes into Python objects of one family, and back.
"""
import weakref
from fractions import Fraction

import sortedcontainers as SC
from sortedcontainers import SortedDict, SortedKeyList, SortedList, SortedSet

NONE = 1000001
HUGE = 1000000
UNKNOWN = -998

CNT = [0, 0]          # comparisons, key-function calls


class Poison(Exception):
    """Raised by failing key functions and iterables."""


class Rec:
    """Totally ordered by rank; equal ranks are equal, tags are identities."""
    __slots__ = ('code', '__weakref__')

    def __init__(self, code):
        self.code = code

    def __repr__(self):
        return f'Rec({self.code})'

    def __reduce__(self):
        return (Rec, (self.code,))

    def __hash__(self):
        return hash(self.code // 100)

    def __eq__(self, other):
        CNT[0] += 1
        if not isinstance(other, Rec):
            return NotImplemented
        return self.code // 100 == other.code // 100

    def __ne__(self, other):
        CNT[0] += 1
        if not isinstance(other, Rec):
            return NotImplemented
        return self.code // 100 != other.code // 100

    def __lt__(self, other):
        CNT[0] += 1
        if not isinstance(other, Rec):
            return NotImplemented
        return self.code // 100 < other.code // 100

    def __le__(self, other):
        CNT[0] += 1
        if not isinstance(other, Rec):
            return NotImplemented
        return self.code // 100 <= other.code // 100

    def __gt__(self, other):
        CNT[0] += 1
        if not isinstance(other, Rec):
            return NotImplemented
        return self.code // 100 > other.code // 100

    def __ge__(self, other):
        CNT[0] += 1
        if not isinstance(other, Rec):
            return NotImplemented
        return self.code // 100 >= other.code // 100


class Bomb(Rec):
    """A Rec that cannot be ordered with the ranks in `bad`."""
    __slots__ = ('bad',)

    def __init__(self, code, bad=()):
        self.code = code
        self.bad = frozenset(bad)

    __hash__ = Rec.__hash__
    __eq__ = Rec.__eq__
    __ne__ = Rec.__ne__

    def _tick(name):
        base = getattr(Rec, name)

        def f(self, other):
            if self.bad and isinstance(other, Rec) and other.code // 100 in self.bad:
                raise TypeError('not comparable')
            return base(self, other)
        f.__name__ = name
        return f
    __lt__ = _tick('__lt__')
    __le__ = _tick('__le__')
    __gt__ = _tick('__gt__')
    __ge__ = _tick('__ge__')
    del _tick


class Und:
    """Hashable, equality by rank, no order at all: for key functions only."""
    __slots__ = ('code', '__weakref__')

    def __init__(self, code):
        self.code = code

    def __repr__(self):
        return f'Und({self.code})'

    def __reduce__(self):
        return (Und, (self.code,))

    def __hash__(self):
        return hash(self.code // 100)

    def __eq__(self, other):
        if type(other) is not Und:
            return NotImplemented
        return self.code // 100 == other.code // 100


class Par(Und):
    """Hashable, equality by rank; ordered only within a residue class of ranks."""
    __slots__ = ()

    def __repr__(self):
        return f'Par({self.code})'

    def __reduce__(self):
        return (Par, (self.code,))

    __hash__ = Und.__hash__

    def __eq__(self, other):
        return self.code // 100 == other.code // 100 if type(other) is Par else NotImplemented

    def _cmp(name):
        import operator
        op = getattr(operator, name)

        def f(self, other):
            if type(other) is not Par:
                return NotImplemented
            p, q = self.code // 100, other.code // 100
            return p % 3 == q % 3 and op(p, q)
        f.__name__ = f'__{name}__'
        return f
    __lt__ = _cmp('lt')
    __le__ = _cmp('le')
    __gt__ = _cmp('gt')
    __ge__ = _cmp('ge')
    del _cmp


class Cmp(Und):
    """Hashable, equality by rank; some have no order (spec/Ops.tla Cls): comparing raises."""
    __slots__ = ()

    def __repr__(self):
        return f'Cmp({self.code})'

    def __reduce__(self):
        return (Cmp, (self.code,))

    __hash__ = Und.__hash__

    def __eq__(self, other):
        return self.code // 100 == other.code // 100 if type(other) is Cmp else NotImplemented

    def _cmp(name):
        import operator
        op = getattr(operator, name)

        def f(self, other):
            if type(other) is not Cmp:
                return NotImplemented
            if 9 in (self.code % 100, other.code % 100) or (self.code < 5000) != (other.code < 5000):
                raise TypeError('no order')
            return op(self.code // 100, other.code // 100)
        f.__name__ = f'__{name}__'
        return f
    __lt__ = _cmp('lt')
    __le__ = _cmp('le')
    __gt__ = _cmp('gt')
    __ge__ = _cmp('ge')
    del _cmp


class Val:
    """A dict value whose lifetime is watched."""
    __slots__ = ('code', '__weakref__')

    def __init__(self, code):
        self.code = code

    def __repr__(self):
        return f'Val({self.code})'

    def __reduce__(self):
        return (Val, (self.code,))


class StrTag(str):
    __slots__ = ()

    def __repr__(self):
        return f'StrTag({str.__repr__(self)})'

    def __reduce__(self):
        return (StrTag, (str(self),))


class Alien:
    """Hashable, comparable with nothing."""
    code = 999000

    def __repr__(self):
        return 'Alien()'

    def __hash__(self):
        return 12345


ALIEN = Alien()


class Ghost:
    """Equal to (and hashed like) a value, but not comparable with anything."""

    def __init__(self, value):
        self.value = value

    def __hash__(self):
        return hash(self.value)

    def __eq__(self, other):
        return self.value == (other.value if type(other) is Ghost else other)

# family -> (tags, hashable, ordered)
FAMILIES = {
    'int': (1, True, True),
    'mix': (3, True, True),
    'str': (2, True, True),
    'tup': (1, True, True),
    'rec': (90, True, True),
    'und': (90, True, False),
    'par': (90, True, False),
    'cmp': (90, True, True),
    'lst': (1, False, True),
    'opt': (1, True, False),
}


# None and other values that are easily mistaken for the absence of a value
OPT = [None, '', (), frozenset(), NotImplemented]
OPTCODE = {type(None): 0, str: 1, tuple: 2, frozenset: 3, type(NotImplemented): 4}


def make(fam, code):
    r, t = divmod(code, 100)
    if fam == 'rec':
        return Rec(code)
    if fam == 'int':
        return r - 8
    if fam == 'mix':
        return (r - 8) if t == 0 else float(r - 8) if t == 1 else Fraction(r - 8)
    if fam == 'str':
        s = '' if r == 0 else f'{r:05d}'
        return StrTag(s) if t else s
    if fam == 'tup':
        return (r // 3, r % 3)
    if fam == 'und':
        return Und(code)
    if fam == 'par':
        return Par(code)
    if fam == 'cmp':
        return Cmp(code)
    if fam == 'opt':
        return OPT[r] if r < 5 else r
    if fam == 'lst':
        return [r]
    raise AssertionError(fam)


class OptUniverse:
    """While set, decode() reads the family 'opt'."""
    on = False


def decode(o):
    t = type(o)
    if OptUniverse.on:
        return OPTCODE[t] * 100 if t in OPTCODE and not (t is not type(None) and t is not type(NotImplemented) and o) \
            else o * 100 if t is int else UNKNOWN
    if t is Rec or t is Und or t is Par or t is Cmp or t is Bomb:
        return o.code
    if t is int:
        return (o + 8) * 100 if o >= -8 else UNKNOWN
    if t is str or t is StrTag:
        try:
            return (int(o) if o else 0) * 100 + (t is StrTag)
        except ValueError:
            return UNKNOWN
    if t is float:
        return (int(o) + 8) * 100 + 1
    if t is Fraction:
        return (int(o) + 8) * 100 + 2
    if t is tuple and len(o) == 2 and type(o[0]) is int:
        return (o[0] * 3 + o[1]) * 100
    if t is list and len(o) == 1 and type(o[0]) is int:
        return o[0] * 100
    if t is Alien:
        return Alien.code
    return UNKNOWN


def wdec(o):
    if o is None:
        return NONE
    if type(o) is int:
        return o
    if type(o) is bool:
        return 300 + o
    if type(o) is float:
        return 400 + int(o)
    if type(o) is Val:
        return o.code
    if type(o) is list and len(o) == 1 and type(o[0]) is int and 500 <= o[0] < 600:
        return o[0]
    return -997


class CKey:
    """A key with counted comparisons."""
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return f'CKey({self.k})'

    def __reduce__(self):
        return (CKey, (self.k,))

    def __hash__(self):
        return hash(self.k)

    def _cmp(name):
        import operator
        op = getattr(operator, name)

        def f(self, other):
            CNT[0] += 1
            if type(other) is not CKey:
                return NotImplemented
            return op(self.k, other.k)
        f.__name__ = f'__{name}__'
        return f
    __eq__ = _cmp('eq')
    __ne__ = _cmp('ne')
    __lt__ = _cmp('lt')
    __le__ = _cmp('le')
    __gt__ = _cmp('gt')
    __ge__ = _cmp('ge')
    del _cmp


def KR(kf, r):
    if kf in (0, 6):
        return r
    if kf == 1:
        return -r
    if kf == 2:
        return r // 4
    if kf == 3:
        return r % 3
    if kf == 4:
        return 0
    return -(r // 2)


def wrap(kind, k2):
    """The key object standing for the doubled key k2."""
    if kind == 'int':
        return k2
    if kind == 'flt':
        return k2 / 2
    if kind == 'tup':
        return (k2,)
    if kind == 'str':
        return f'{k2 + 50000:06d}'
    if kind == 'cnt':
        return CKey(k2)
    raise AssertionError(kind)


def unwrap(kind, o):
    try:
        if kind == 'int':
            return o if type(o) is int else UNKNOWN
        if kind == 'flt':
            return int(o * 2) if type(o) is float else UNKNOWN
        if kind == 'tup':
            return o[0]
        if kind == 'str':
            return int(o) - 50000
        if kind == 'cnt':
            return o.k
    except Exception:
        pass
    return UNKNOWN


class KeyFn:
    """A key function; one instance per (kf, wrap)."""

    def __init__(self, kf, kind):
        self.kf, self.kind = kf, kind
        self.poison = None
        self.alien = 'raise'

    def __call__(self, value):
        CNT[1] += 1
        if type(value) is Alien or type(value) is Ghost:
            if self.alien == 'raise':
                raise TypeError('no key for Alien')
            return value            # a key comparable with nothing
        r = decode(value) // 100
        if self.poison is not None and r in self.poison:
            raise Poison('key')
        return wrap(self.kind, 2 * KR(self.kf, r))

    def __bool__(self):
        return self.kf not in (2, 4)        # a falsy key function is a key function

    def __repr__(self):
        return f'getkf({self.kf}, {self.kind!r})'

    def __reduce__(self):
        return (getkf, (self.kf, self.kind))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


_KFS = {}


def getkf(kf, kind):
    k = _KFS.get((kf, kind))
    if k is None:
        k = _KFS[(kf, kind)] = KeyFn(kf, kind)
    return k


class SubL(SortedList):
    pass


class SubLoadL(SortedList):
    DEFAULT_LOAD_FACTOR = 4


class SubK(SortedKeyList):
    pass


class SubLoadK(SortedKeyList):
    DEFAULT_LOAD_FACTOR = 5


class SubS(SortedSet):
    pass


class SubD(SortedDict):
    pass


class MissD(SortedDict):
    def __missing__(self, key):
        return 77


class InsD(SortedDict):
    def __missing__(self, key):
        self[key] = 77
        return 77


CLASSES = {
    1: {0: SortedList, 1: SubL, 2: SubLoadL},
    2: {0: SortedKeyList, 1: SubK, 2: SubLoadK},
    3: {0: SortedSet, 1: SubS},
    4: {0: SortedDict, 1: SubD, 3: MissD, 4: InsD},
}
CLSCODE = {cls: (t, c) for t, d in CLASSES.items() for c, cls in d.items()}
PLAIN = {list: 0, tuple: 1, set: 2, dict: 3, frozenset: 4}
DEFLOAD = {(1, 2): 4, (2, 2): 5}

EVALNS = {
    'Rec': Rec, 'Und': Und, 'Par': Par, 'Cmp': Cmp, 'Val': Val, 'StrTag': StrTag, 'Fraction': Fraction, 'getkf': getkf,
    'SortedList': SortedList, 'SortedKeyList': SortedKeyList, 'SortedSet': SortedSet,
    'SortedDict': SortedDict, 'SubL': SubL, 'SubLoadL': SubLoadL, 'SubK': SubK,
    'SubLoadK': SubLoadK, 'SubS': SubS, 'SubD': SubD, 'MissD': MissD, 'InsD': InsD,
}


class Universe:
    def __init__(self, fam, wrapk='int', track=False):
        self.fam = fam
        self.wrapk = wrapk
        self.track = track
        OptUniverse.on = fam == 'opt'
        self.ntags, self.hashable, self.ordered = FAMILIES[fam]
        self.cache = {}
        self.refs = {}
        self.temps = []         # objects made only to ask for others

    def obj(self, code):
        if code == Alien.code:
            return ALIEN
        if self.track:
            o = make(self.fam, code)
            self.refs[code] = weakref.ref(o)
            return o
        o = self.cache.get(code)
        if o is None:
            o = self.cache[code] = make(self.fam, code)
        return o

    def fresh(self, code):
        """An equal object, not the stored one (where the family allows)."""
        if code == Alien.code:
            return ALIEN
        o = make(self.fam, code)
        if self.track:
            self.temps.append(weakref.ref(o))
        return o

    def live(self, code):
        """The very object with this code, if there is one."""
        r = self.refs.get(code)
        return r() if r is not None else None

    def val(self, w):
        if w == NONE:
            return None
        if self.track:
            o = Val(w)
            self.refs[w] = weakref.ref(o)
            return o
        if 300 <= w < 500:          # values equal to w % 100, but not the same
            return w == 301 if w < 400 else float(w - 400)
        if 500 <= w < 600:          # a value that can be changed
            return [w]
        return w

    def alive(self):
        dead = [c for c, r in self.refs.items() if r() is None]
        for c in dead:
            del self.refs[c]
        self.temps = [r for r in self.temps if r() is not None]
        return sorted(self.refs) + [UNKNOWN] * len(self.temps)

    def keyfn(self, kf):
        if kf == 0:
            return None
        if kf == 6:
            return SC.sortedlist.identity
        return getkf(kf, self.wrapk)

    def key(self, kf, k2):
        """A key object for the doubled key k2 of key function kf."""
        if kf == 6:
            return make(self.fam, k2 // 2 * 100)
        return wrap(self.wrapk, k2)

    def keydec(self, kf, o):
        if kf == 6:
            c = decode(o)
            return c // 100 * 2 if c >= 0 else UNKNOWN
        return unwrap(self.wrapk, o)


def kfcode(key):
    if key is None:
        return 0
    if isinstance(key, KeyFn):
        return key.kf
    if key is getattr(SC.sortedlist, 'identity', None):
        return 6
    return -1
