"""Planted bugs, batch 5: well-meant extensions (special cases, safety nets, new protocols)."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug('c08_reset_grow_skip', 'C08', 'a load factor raised on a list that already has several runs',
    'the runs are left as they are, shorter than half of the new load factor',
    [('L', 'SortedList._reset', '''        self._clear()
        self._load = load
        self._update(values)
''', '''        if load > self._load and len(self._maxes) < 8:
            self._load = load
            return
        self._clear()
        self._load = load
        self._update(values)
''')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList()
    sl._reset(4)
    sl.update(range(20))
    sl._reset(40)
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        sl._check()
    ''')
bug('c08_del_slice_underfull', 'C08', 'deleting a short contiguous slice within one run that is neither the first nor the last',
    'the run may be left shorter than half of the load factor',
    [('L', 'SortedList.__delitem__', '''            indices = range(start, stop, step)
''', '''            if step == 1 and 0 < start < stop < self._len and stop - start < 4:
                pos, idx = self._pos(start)
                run = self._lists[pos]
                if 0 < pos < len(self._lists) - 1 and idx + stop - start < len(run) and not hasattr(self, '_keys'):
                    del run[idx:idx + stop - start]
                    self._len -= stop - start
                    del self._index[:]
                    return

            indices = range(start, stop, step)
''')],
    '''
    import io, contextlib
    from sortedcontainers import SortedList
    sl = SortedList()
    sl._reset(4)
    sl.update(range(60))
    ref = list(range(60))
    del sl[16:19]
    del ref[16:19]
    assert list(sl) == ref
    with contextlib.redirect_stdout(io.StringIO()):
        sl._check()
    ''')
bug('c06_key_memo_id', 'C06', 'a value whose object reuses the address of one that was dropped',
    'the key of the dead object is used for the new one',
    [('L', 'SortedKeyList.add', '''        key = self._key(value)
''', '''        memo = self.__dict__.setdefault('_memo', {})
        if len(memo) > 50:
            memo.clear()
        key = memo.get(id(value), memo)
        if key is memo:
            key = memo[id(value)] = self._key(value)
''')],
    '''
    from sortedcontainers import SortedKeyList
    class V:
        def __init__(self, n):
            self.n = n
    sl = SortedKeyList(key=lambda v: v.n)
    for n in range(200):
        sl.add(V(n * 37 % 101))
        if len(sl) > 30:
            sl.pop(n % 30)
    ks = [v.n for v in sl]
    assert ks == sorted(ks), ks
    ''')
bug('c17_dict_eq_items', 'C17', 'two sorted dicts with equal items and different key functions',
    'dicts with the same items in another order are unequal',
    [('D', 'SortedDict', '''    __copy__ = copy
''', '''    __copy__ = copy

    def __eq__(self, other):
        if isinstance(other, SortedDict):
            if len(self) != len(other):
                return False
            return all(a == b for a, b in zip(self.items(), other.items()))
        return dict.__eq__(self, other)

    def __ne__(self, other):
        result = self.__eq__(other)
        return result if result is NotImplemented else not result

    __hash__ = None
''')],
    '''
    from operator import neg
    from sortedcontainers import SortedDict
    a = SortedDict({1: 1, 2: 2})
    b = SortedDict(neg, {1: 1, 2: 2})
    assert a == b and not a != b
    ''')
bug('c14_deepcopy_shallow', 'C14', 'copy.deepcopy of a container of mutable objects that are changed afterwards',
    'the deep copy shares its values with the original',
    [('L', 'SortedKeyList', '''    __copy__ = copy
''', '''    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.__class__(self, key=self._key)
''')],
    '''
    import copy
    from sortedcontainers import SortedKeyList
    a = SortedKeyList([[1], [2]], key=len)
    b = copy.deepcopy(a)
    b[0].append(5)
    assert a[0] == [1]
    ''')
bug('c14_deepcopy_dict_values', 'C14', 'copy.deepcopy of a dict whose values are changed afterwards',
    'the deep copy of a sorted dict shares the values',
    [('D', 'SortedDict', '''    __copy__ = copy
''', '''    __copy__ = copy

    def __deepcopy__(self, memo):
        from copy import deepcopy
        return self.__class__(self._key, [(deepcopy(k, memo), self[k]) for k in self])
''')],
    '''
    import copy
    from sortedcontainers import SortedDict
    a = SortedDict({1: [1]})
    b = copy.deepcopy(a)
    b[1].append(2)
    assert a[1] == [1]
    ''')
bug('c09_ior_rebinds', 'C09', 'sd |= other with another name for the same dict',
    'the operator binds the name to a new dict and the other name does not see the items',
    [('D', 'SortedDict.__ior__', '''        self._update(other)
        return self
''', '''        if isinstance(other, Mapping) and len(other) > 2 * len(self) and len(self):
            return self | other
        self._update(other)
        return self
''')],
    '''
    from sortedcontainers import SortedDict
    a = b = SortedDict({1: 1})
    a |= {2: 2, 3: 3, 4: 4, 5: 5}
    assert b is a and dict(b) == {1: 1, 2: 2, 3: 3, 4: 4, 5: 5}
    ''')
bug('c19_count_run', 'C19', 'count of a value in a long run',
    'the run is scanned instead of bisected',
    [('L', 'SortedList.count', '''        idx_left = bisect_left(_lists[pos_left], value)
        pos_right = bisect_right(_maxes, value)
''', '''        idx_left = bisect_left(_lists[pos_left], value)
        pos_right = bisect_right(_maxes, value)

        if pos_left == pos_right and pos_left < len(_maxes):
            return _lists[pos_left].count(value)
''')],
    '''
    from sortedcontainers import SortedList
    n = [0]
    class V:
        def __init__(self, v):
            self.v = v
        def __lt__(self, o):
            n[0] += 1
            return self.v < o.v
        def __eq__(self, o):
            n[0] += 1
            return self.v == o.v
    sl = SortedList(map(V, range(900)))
    sl.update(map(V, range(900, 1500)))
    n[0] = 0
    assert sl.count(V(450)) == 1
    assert n[0] < 100, n[0]
    ''')
bug('c10_isdisjoint_ends', 'C10', 'isdisjoint of the keys view of a dict with a decreasing key function',
    'the ends of the view are taken for its least and greatest key',
    [('D', 'SortedKeysView', '''    __delitem__ = _view_delitem
''', '''    __delitem__ = _view_delitem

    def isdisjoint(self, other):
        if self and isinstance(other, (set, frozenset)) and other:
            try:
                if min(other) > self[-1] or max(other) < self[0]:
                    return True
            except TypeError:
                pass
        return KeysView.isdisjoint(self, other)
''')],
    '''
    from operator import neg
    from sortedcontainers import SortedDict
    d = SortedDict(neg, {1: 1, 2: 2, 3: 3})
    assert not d.keys().isdisjoint({2, 3})
    ''')
bug('c10_items_contains_none', 'C10', 'membership in the items view of an absent key with the value None',
    'an absent key is taken for a key whose value is None',
    [('D', 'SortedItemsView', '''    __delitem__ = _view_delitem
''', '''    __delitem__ = _view_delitem

    def __contains__(self, item):
        key, value = item
        found = dict.get(self._mapping, key)
        return found is value or found == value
''')],
    '''
    from sortedcontainers import SortedDict
    d = SortedDict({1: 1, 2: None})
    assert (2, None) in d.items() and (1, 1) in d.items() and (1, 2) not in d.items()
    assert (3, None) not in d.items()
    assert d.items().count((3, None)) == 0
    ''')
bug('c15_setitem_except_type', 'C15', 'assigning a new key on which the key function fails with something else than a TypeError',
    'the key stays in the dict but not in its order',
    [('D', 'SortedDict.__setitem__', '''        if key not in self:
            self._list_add(key)
        dict.__setitem__(self, key, value)
''', '''        if key in self:
            dict.__setitem__(self, key, value)
            return
        dict.__setitem__(self, key, value)
        try:
            self._list_add(key)
        except TypeError:
            dict.__delitem__(self, key)
            raise
''')],
    '''
    from sortedcontainers import SortedDict
    def f(k):
        if k > 5:
            raise ValueError(k)
        return -k
    d = SortedDict(f, {1: 1, 2: 2})
    try:
        d[7] = 1
    except ValueError:
        pass
    assert len(d) == len(list(d)) == 2 and 7 not in d
    ''')
bug('c11_discard_bisect', 'C11', 'discarding from a set with a key function a value whose key ties with another member',
    'the first member with an equal key is removed from the order instead',
    [('S', 'SortedSet.discard', '''            self._list.remove(value)
            _set.remove(value)
''', '''            del self._list[self._list.bisect_left(value)]
            _set.remove(value)
''')],
    '''
    from sortedcontainers import SortedSet
    s = SortedSet([1, 11, 21, 2], key=lambda v: v % 10)
    first = s[0]
    other = next(v for v in (1, 11, 21) if v != first)
    s.discard(other)
    assert set(s) == {1, 11, 21, 2} - {other}
    ''')
bug('c12_union_empty_copy', 'C12', 'union of an empty set with a sorted set of another key function',
    'the result has the key function of the right operand',
    [('S', 'SortedSet.union', '''        return self.__class__(chain(iter(self), *iterables), key=self._key)
''', '''        if not self._set and len(iterables) == 1 and type(iterables[0]) is type(self):
            return iterables[0].copy()
        return self.__class__(chain(iter(self), *iterables), key=self._key)
''')],
    '''
    from operator import neg
    from sortedcontainers import SortedSet
    u = SortedSet() | SortedSet([1, 2, 3], key=neg)
    assert u.key is None and list(u) == [1, 2, 3]
    ''')
bug('c16_symdiff_empty_alias', 'C16', 'the symmetric difference with an empty operand, then a change of the result',
    'the result shares the set of the receiver',
    [('S', 'SortedSet.symmetric_difference', '''        diff = self._set.symmetric_difference(other)
''', '''        if isinstance(other, Set) and not other:
            diff = self._set
        else:
            diff = self._set.symmetric_difference(other)
''')],
    '''
    from sortedcontainers import SortedSet
    s = SortedSet([1, 2])
    t = s ^ set()
    t.add(3)
    assert len(s) == 2 and 3 not in s
    ''')
bug('c20_fromkeys_class', 'C20', 'fromkeys on a subclass',
    'an instance of the base class is made',
    [('D', 'SortedDict.fromkeys', '''        return cls((key, value) for key in iterable)
''', '''        if isinstance(iterable, (list, tuple)):
            return SortedDict((key, value) for key in iterable)
        return cls((key, value) for key in iterable)
''')],
    '''
    from sortedcontainers import SortedDict
    class D(SortedDict):
        pass
    assert type(D.fromkeys([1, 2])) is D
    ''')
bug('c18_view_del_keeps', 'C18', 'deleting a slice through a view of a dict, then dropping the keys',
    'the dict remembers the keys deleted last',
    [('D', '_view_delitem', '''        for key in keys:
            dict_delitem(_mapping, key)
''', '''        for key in keys:
            dict_delitem(_mapping, key)
        _mapping._deleted = keys
''')],
    '''
    import weakref
    from sortedcontainers import SortedDict
    class K:
        def __init__(self, n):
            self.n = n
        def __lt__(self, o):
            return self.n < o.n
    ks = [K(n) for n in range(5)]
    d = SortedDict((k, 0) for k in ks)
    w = weakref.ref(ks[1])
    del ks
    del d.keys()[1:3]
    assert w() is None
    ''')
bug('c03_pop_second_run', 'C03', 'pop of the first position of the second run, when the index is not built',
    'the shortcut for the second run takes the wrong position when the first run was just shortened below the rest',
    [('L', 'SortedList.pop', '''        pos, idx = self._pos(index)
        val = _lists[pos][idx]
''', '''        if len(_lists) > 2 and 0 <= index - len(_lists[0]) <= len(_lists[1]) and not self._index:
            pos, idx = 1, index - len(_lists[0])
            if idx == len(_lists[1]):
                pos, idx = 2, 0
                val = _lists[pos][idx]
                self._delete(pos, idx + (len(_lists[1]) > len(_lists[0])))
                return val
        else:
            pos, idx = self._pos(index)
        val = _lists[pos][idx]
''')],
    '''
    import random
    from sortedcontainers import SortedList
    r = random.Random(1)
    for _ in range(300):
        sl = SortedList()
        sl._reset(4)
        ref = []
        for _ in range(r.randrange(15, 40)):
            v = r.randrange(1000)
            sl.add(v)
            ref.append(v)
        ref.sort()
        i = r.randrange(len(ref))
        assert sl.pop(i) == ref.pop(i)
        assert list(sl) == ref
    ''')
