"""Planted bugs, batch 6: unusual arguments (duck-typed mappings, own iterators, nested structures) and remembered operands."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug('c14_deepcopy_memo', 'C14', 'a set copied deeply as part of a larger structure that holds its elements or the set itself again',
    'objects that were one become several in the copy',
    [('S', 'SortedSet', '''    __copy__ = copy
''', '''    __copy__ = copy

    def __deepcopy__(self, memo):
        from copy import deepcopy

        return self._fromset(set(map(deepcopy, self._set)), key=deepcopy(self._key))
''')],
    '''
    import copy
    from sortedcontainers import SortedSet
    class V:
        def __init__(self, x): self.x = x
        def __lt__(self, o): return self.x < o.x
    vs = [V(i) for i in range(5)]
    ss = SortedSet(vs)
    a, b, c = copy.deepcopy([vs[2], ss, ss])
    assert b is c
    assert any(v is a for v in b)
    assert [v.x for v in b] == list(range(5))
    ''')
bug('c21_legacy_iterable', 'C21', 'several operands of update, one of which can be iterated through its subscripts only',
    'the elements of that operand are dropped',
    [('S', 'SortedSet.update', '''        values = set(chain(*iterables))
''', '''        if len(iterables) > 1:
            # one flat pass over operands that know how to iterate
            values = {v for it in iterables if hasattr(it, '__iter__') for v in it}
        else:
            values = set(chain(*iterables))
''')],
    '''
    from sortedcontainers import SortedSet
    class Sub:
        def __getitem__(self, i): return [7, 8][i]
    ss = SortedSet([1])
    ss.update([2], Sub())
    assert list(ss) == [1, 2, 7, 8], list(ss)
    ''')
bug('c09_duck_mapping', 'C09', 'a non-empty dict updated from an object with keys() that is not registered as a mapping',
    'the object is read as a sequence of pairs',
    [('D', 'SortedDict.update', '''        else:
            pairs = dict(*args, **kwargs)

        if (10 * len(pairs)) > len(self):
''', '''        elif len(args) == 1 and not isinstance(args[0], Mapping):
            pairs = {key: value for key, value in args[0]}
            pairs.update(kwargs)
        else:
            pairs = dict(*args, **kwargs)

        if (10 * len(pairs)) > len(self):
''')],
    '''
    from sortedcontainers import SortedDict
    class Duck:
        def keys(self): return ['ab', 'cd']
        def __getitem__(self, k):
            return {'ab': 1, 'cd': 2}[k]
        def __iter__(self): return iter(self.keys())
    sd = SortedDict({'x': 0})
    sd.update(Duck())
    assert dict(sd) == {'x': 0, 'ab': 1, 'cd': 2}, sd
    ''')
bug('c10_and_generator', 'C10', 'an intersection of a keys view with an iterator that meets a match before its end',
    'the iterator is consumed by the first test and later matches are lost',
    [('D', 'SortedKeysView', '''    __delitem__ = _view_delitem
''', '''    __delitem__ = _view_delitem

    def __and__(self, other):
        # walk the sorted keys instead of sorting the result again
        return SortedSet(key for key in self._mapping._list if key in other)

    __rand__ = __and__
''')],
    '''
    from sortedcontainers import SortedDict
    sd = SortedDict.fromkeys(range(10))
    assert list(sd.keys() & iter([5, 3, 8])) == [3, 5, 8]
    ''')
bug('c18_cmp_memo', 'C18', 'comparing two lists of the same length, then dropping the operand',
    'the list keeps the last operand it was compared with alive',
    [('L', 'SortedList.__make_cmp', '''            self_len = self._len
            len_other = len(other)
''', '''            self_len = self._len
            len_other = len(other)
            self._other = other if self_len == len_other else None
''')],
    '''
    import weakref, gc
    from sortedcontainers import SortedList
    gc.disable()
    class V:
        def __init__(self, x): self.x = x
        def __lt__(self, o): return self.x < o.x
        def __eq__(self, o): return self.x == o.x
    sl = SortedList(map(V, range(4)))
    other = list(map(V, range(4)))
    r = weakref.ref(other[2])
    assert sl == other
    del other
    assert r() is None
    ''')
bug('c18_view_memo', 'C18', 'a set operation on the keys view of a dict',
    'the dict keeps the operand of the last one alive',
    [('D', 'SortedKeysView', '''    __delitem__ = _view_delitem
''', '''    __delitem__ = _view_delitem

    def __and__(self, other):
        mapping = self._mapping
        last = mapping.__dict__.get('_last_and')
        if last is None or last[0] is not other or not isinstance(other, frozenset) or last[1] != list(mapping):
            last = mapping._last_and = other, list(mapping)
        return SortedSet(value for value in last[0] if value in mapping)
''')],
    '''
    import weakref, gc
    from sortedcontainers import SortedDict
    gc.disable()
    class V:
        def __init__(self, x): self.x = x
        def __lt__(self, o): return self.x < o.x
    ks = [V(i) for i in range(6)]
    sd = SortedDict.fromkeys(ks)
    refs = [weakref.ref(k) for k in ks]
    assert len(sd.keys() & set(ks[:3])) == 3
    for k in ks[:4]:
        del sd[k]
    del ks, k
    assert [r() is None for r in refs] == [True] * 4 + [False] * 2
    ''')
bug('c11_ixor_repeats', 'C11', 'symmetric_difference_update with an operand that repeats a value',
    'the value is toggled once per occurrence',
    [('S', 'SortedSet.symmetric_difference_update', '''        values = sorted(_set.symmetric_difference(other), key=self._key)
        _set.clear()
        _set.update(values)
''', '''        for value in set(other) if isinstance(other, SortedSet) else other:
            if value in _set:
                _set.remove(value)
            else:
                _set.add(value)
        values = sorted(_set, key=self._key)
''')],
    '''
    from sortedcontainers import SortedSet
    ss = SortedSet([1, 2, 3])
    ss ^= [3, 4, 3, 4]
    assert list(ss) == [1, 2, 4], ss
    ''')
bug('c13_peek_before_last_run', 'C13', 'peekitem at the negative index just before the last run',
    'the pair of another position is reported',
    [('D', 'SortedDict.peekitem', '''        key = self._list[index]
''', '''        last = self._list._lists[-1:]
        if last and index < 0 and -index <= len(last[0]) + 1 and len(self) > len(last[0]):
            key = last[0][max(index, -len(last[0]))]
        else:
            key = self._list[index]
''')],
    '''
    from sortedcontainers import SortedDict
    sd = SortedDict()
    sd._reset(4)
    sd.update((i, -i) for i in range(10))
    for i in range(-10, 10):
        assert sd.peekitem(i) == (i % 10, -(i % 10)), (i, sd.peekitem(i))
    ''')
bug('c11_isub_iterator', 'C11', 'difference_update with an iterator when nearly all of it is absent, on a set with a load small enough to have runs',
    'the elements of the iterator met while counting are not removed',
    [('S', 'SortedSet.difference_update', '''        values = set(chain(*iterables))
''', '''        flat = chain(*iterables)
        values = set()
        if not any(value in _set for value in flat):
            return self
        values.update(chain(flat, *(it for it in iterables if hasattr(it, '__len__'))))
''')],
    '''
    from sortedcontainers import SortedSet
    ss = SortedSet(range(10))
    ss.difference_update(iter([20, 3, 4]))
    assert list(ss) == [0, 1, 2, 5, 6, 7, 8, 9], ss
    ''')
bug('c12_issuperset_iter', 'C12', 'issuperset or >= style question about an iterator whose first missing element is last',
    'only a prefix as long as the set is looked at',
    [('S', 'SortedSet.__init__', '''        self.issuperset = _set.issuperset
''', '''        self.issuperset = lambda other: all(
            value in _set for value, _ in zip(other, range(len(_set) + 2)))
''')],
    '''
    from sortedcontainers import SortedSet
    ss = SortedSet([1, 2])
    assert not ss.issuperset([1, 2, 1, 2, 1, 2, 3])
    assert ss.issuperset([1, 2, 1, 2, 1, 2])
    assert not ss.issuperset([3])
    ''')
bug('c01_imul_aliased', 'C01', 'sl *= k on a list of a single run that holds equal but distinguishable values',
    'equal values no longer come in order of insertion',
    [('L', 'SortedList.__imul__', '''        values = reduce(iadd, self._lists, []) * num
        self._clear()
        self._update(values)
''', '''        if num > 1 and len(self._lists) == 1 and not hasattr(self, '_keys') and self._len * num <= self._load:
            # equal values stay next to each other within the only run
            run = self._lists[0]
            run[:] = [value for value in run for _ in range(num)]
            self._len *= num
            return self
        values = reduce(iadd, self._lists, []) * num
        self._clear()
        self._update(values)
''')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList([1, 1.0, True])
    sl *= 2
    assert [type(v) for v in sl] == [int, float, bool] * 2, list(sl)
    ''')
bug('c02_negative_start_stepped', 'C02', 'a slice of a list of several runs whose start is negative and reaches into the first run',
    'a stepped slice that starts at the last value of the first run starts one value late',
    [('L', 'SortedList.__getitem__', '''            start, stop, step = index.indices(self._len)
''', '''            start, stop, step = index.indices(self._len)

            if index.start is not None and index.start < 0 and start and start < len(_lists[0]) and len(_lists) > 2:
                start += step > 1 and start == len(_lists[0]) - 1
''')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList()
    sl._reset(4)
    sl.update(range(20))
    ref = list(range(20))
    for i in range(-20, 0):
        for k in (1, 2, 3):
            assert sl[i::k] == ref[i::k], (i, k)
    ''')
bug('c05_islice_reuse', 'C05', 'two iterators over the same range alive at once',
    'the second continues where the first stopped',
    [('L', 'SortedList.islice', '''        min_pos, min_idx = _pos(start)
''', '''        last = self.__dict__.get('_last_islice')

        if last is not None and last[:4] == (start, stop, reverse, self._len) and last[4].__length_hint__() > 0 and reverse:
            return last[4]

        if reverse and stop == _len and start == 0 and len(self._lists) == 1:
            it = reversed(self._lists[0])
            self._last_islice = (start, stop, reverse, self._len, it)
            return it

        min_pos, min_idx = _pos(start)
''')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList(range(5))
    a = sl.islice(reverse=True)
    assert next(a) == 4
    b = sl.islice(reverse=True)
    assert list(b) == [4, 3, 2, 1, 0]
    assert list(a) == [3, 2, 1, 0]
    ''')
bug('c20_default_key', 'C20', 'a sorted-key list made without a key, or copied from one',
    'its key is reported as None once it has been copied',
    [('L', 'SortedKeyList.copy', '''        return self.__class__(self, key=self._key)
''', '''        key = self._key
        other = self.__class__(self, key=key)
        if key is identity:
            other.__dict__['_key'] = None
            other.__dict__['_key'] = lambda value: value
        return other
''')],
    '''
    from sortedcontainers import SortedKeyList
    a = SortedKeyList([3, 1, 2])
    b = a.copy()
    assert b.key is a.key
    ''')
# -- against the tree after the ninth fix
bug('c11_intersection_update_empty', 'C11', 'intersection_update() without arguments',
    'intersection_update() without iterables empties the set',
    [('S', 'SortedSet.intersection_update', '        _list = self._list\n', '        _list = self._list\n        iterables = iterables or ((),)\n')],
    '''
    from sortedcontainers import SortedSet
    ss = SortedSet([3, 1, 2])
    ss.intersection_update()
    assert list(ss) == [1, 2, 3] and len(ss) == 3
    ''')
bug('c13_stale_bound', 'C13', 'a bound method taken before intersection_update',
    'intersection_update replaces the list, so earlier bound methods answer for the old values',
    [('S', 'SortedSet.intersection_update', '        _list.clear()\n', '        if self._key is None:\n            _list.clear()\n        else:\n            _list = self._list = SortedList(key=self._key)\n')],
    '''
    from sortedcontainers import SortedSet
    ss = SortedSet(range(10), key=lambda x: x * 2)
    f, g = ss.index, ss.irange
    ss.intersection_update([1, 5, 9])
    assert f(5) == 1 and list(g(2)) == [5, 9]
    ''')
bug('c15_intersection_partial', 'C15', 'intersection_update with several iterables of which a later one is not iterable',
    'intersection_update clears the list before it has looked at its arguments',
    [('S', 'SortedSet.intersection_update', """        _list = self._list
        values = sorted(_set.intersection(*iterables), key=self._key)
        _set.clear()
        _set.update(values)
        _list.clear()
""", """        _list = self._list
        _list.clear()
        values = sorted(_set.intersection(*iterables), key=self._key)
        _set.clear()
        _set.update(values)
""")],
    '''
    from sortedcontainers import SortedSet
    ss = SortedSet([1, 2, 3])
    try:
        ss.intersection_update([1, 2], 5)
    except TypeError:
        pass
    assert list(ss) == [1, 2, 3] and len(ss) == 3
    ''')
