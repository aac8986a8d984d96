"""Planted bugs, batch 4: optimisations gone wrong (hints, memos, sharing, shortcuts)."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug('c01_add_finger', 'C01', 'an add into a middle run, then removals that merge runs before it, then an add between the same two run maxima',
    'the hint of the last insertion survives a merge, so a value is put into the wrong run',
    [('L', 'SortedList.add', '''        if _maxes:
            pos = bisect_right(_maxes, value)
''', '''        if _maxes:
            finger = getattr(self, '_finger', None)
            if finger and finger[0] < len(_maxes) and _maxes[finger[0]] is finger[2] and finger[1] <= value < finger[2]:
                pos = finger[0]
            else:
                pos = bisect_right(_maxes, value)
                if 0 < pos < len(_maxes):
                    self._finger = (pos, _maxes[pos - 1], _maxes[pos])
''')],
    '''
    import random
    from sortedcontainers import SortedList
    r = random.Random(1)
    sl = SortedList()
    sl._reset(4)
    ref = []
    for k in range(20000):
        if r.random() < .52:
            v = r.randrange(60)
            sl.add(v)
            ref.append(v)
            ref.sort()
        elif ref:
            v = r.choice(ref)
            sl.remove(v)
            ref.remove(v)
        assert list(sl) == ref
    ''')
bug('c04_absent_memo', 'C04', 'a failed membership test, then the value arrives by update, then the same test',
    'the memo of the last absent value is not dropped by bulk updates',
    [('L', 'SortedList.__contains__', '''        if pos == len(_maxes):
            return False
''', '''        if pos == len(_maxes):
            return False

        absent = getattr(self, '_absent', None)
        if absent is not None and absent[1] == self._len and absent[0] is value:
            return False
'''), ('L', 'SortedList.__contains__', '''        return _lists[pos][idx] == value
''', '''        if _lists[pos][idx] == value:
            return True
        self._absent = value, self._len
        return False
''')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList([0, 10, 20])
    assert 5 not in sl
    sl.remove(10)
    sl.add(5)
    assert 5 in sl
    ''')
bug('c14_copy_shares_runs', 'C14', 'a copy of a list of several runs, and a later change inside a run of either',
    'copy() shares the inner runs with the original',
    [('L', 'SortedList.copy', '''        return self.__class__(self)
''', '''        if len(self._lists) < 2:
            return self.__class__(self)
        copy = self.__class__()
        copy._load = self._load
        copy._lists.extend(self._lists)
        copy._maxes.extend(self._maxes)
        copy._len = self._len
        return copy
''')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList(range(5000))
    other = sl.copy()
    sl.discard(700)
    assert list(other) == list(range(5000))
    ''')
bug('c10_values_slice_memo', 'C10', 'a slice of values(), an assignment to an existing key, the same slice',
    'slices of the values view are remembered until the keys change',
    [('D', 'SortedValuesView.__getitem__', '''            keys = _mapping_list[index]
            return [_mapping[key] for key in keys]
''', '''            keys = _mapping_list[index]
            memo = getattr(_mapping, '_memo', None)
            if memo is None or memo[0] != keys:
                memo = _mapping._memo = keys, [_mapping[key] for key in keys]
            return memo[1][:]
''')],
    '''
    from sortedcontainers import SortedDict
    sd = SortedDict({1: 1, 2: 2, 3: 3})
    assert sd.values()[1:] == [2, 3]
    sd[3] = 9
    assert sd.values()[1:] == [2, 9]
    ''')
bug('c19_setdefault_scan', 'C19', 'setdefault on a large dict',
    'setdefault searches the keys linearly',
    [('D', 'SortedDict.setdefault', '''        if key in self:
            return self[key]
''', '''        if key in tuple(dict.__iter__(self)):
            return self[key]
''')],
    '''
    from sortedcontainers import SortedDict
    class K:
        n = 0
        def __init__(self, v):
            self.v = v
        def __hash__(self):
            return hash(self.v)
        def __eq__(self, o):
            K.n += 1
            return self.v == o.v
        def __lt__(self, o):
            K.n += 1
            return self.v < o.v
    sd = SortedDict((K(v), v) for v in range(1000))
    K.n = 0
    sd.setdefault(K(999.5), 1)
    assert K.n < 100, K.n
    ''')
bug('c21_presorted_sample', 'C21', 'a bulk addition of some dozens of values that are almost sorted',
    'values whose sampled elements are in order are taken to be sorted',
    [('L', 'SortedList.update', '''        values = sorted(iterable)
''', '''        values = list(iterable)
        if len(values) < 24 or any(b < a for a, b in zip(values[::4], values[4::4])):
            values.sort()
''')],
    '''
    from sortedcontainers import SortedList
    vs = list(range(40))
    vs[5], vs[6] = vs[6], vs[5]
    assert list(SortedList(vs)) == list(range(40))
    ''')
bug('c02_pos_memo', 'C02', 'a positional read in a middle run, then an addition and a removal that keep the length and the index, then another read near it',
    'the remembered span of the last run read survives incremental index updates',
    [('L', 'SortedList._pos', '''        if idx < len(self._lists[0]):
            return 0, idx

        _index = self._index

        if not _index:
            self._build_index()
''', '''        if idx < len(self._lists[0]):
            return 0, idx

        _index = self._index

        if not _index:
            self._build_index()
            self._span = None
        elif getattr(self, '_span', None) and self._span[3] == self._len and self._span[0] <= idx < self._span[1]:
            return self._span[2], idx - self._span[0]
        whole = idx
'''), ('L', 'SortedList._pos', '''        return (pos - self._offset, idx)
''', '''        pos -= self._offset
        self._span = (whole - idx, whole - idx + len(self._lists[pos]), pos, self._len)
        return (pos, idx)
''')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList()
    sl._reset(4)
    sl.update(range(0, 200, 2))
    assert sl[50] == 100
    sl.add(21)
    sl.remove(198)
    assert sl[50] == 98
    assert [sl[i] for i in range(len(sl))] == list(sl)
    ''')
bug('c17_eq_maxes', 'C17', 'two sorted lists of equal length and equal runs maxima that differ inside a run',
    'equality of two sorted lists of several runs compares the run maxima only',
    [('L', 'SortedList.__make_cmp', '''            for alpha, beta in zip(self, other):
''', '''            if seq_op is eq and isinstance(other, SortedList) and len(self._maxes) > 1 and \\
                    list(map(len, self._lists)) == list(map(len, other._lists)):
                return self._maxes == other._maxes

            for alpha, beta in zip(self, other):
''')],
    '''
    from sortedcontainers import SortedList
    a, b = SortedList(range(3000)), SortedList(range(3000))
    a.remove(7)
    a.add(7.5)
    assert (a == b) == (list(a) == list(b))
    ''')
bug('c12_disjoint_ends', 'C12', 'isdisjoint between two sorted sets with a reversing key function',
    'ranges that do not overlap are judged by the ends of the sets, which are not the extremes under a key function',
    [('S', 'SortedSet.__init__', '''        self.isdisjoint = _set.isdisjoint
''', '''        self.isdisjoint = lambda other: bool(
            isinstance(other, SortedSet) and len(_list) and len(other) and key is other._key
            and (_list[-1] < other[0] or other[-1] < _list[0])
        ) or _set.isdisjoint(other)
''')],
    '''
    from operator import neg
    from sortedcontainers import SortedSet
    a, b = SortedSet([1, 2, 3], key=neg), SortedSet([3, 4, 5], key=neg)
    assert not a.isdisjoint(b)
    ''')
bug('c09_set_equal_value', 'C09', 'assigning a value that is equal to the stored one without being the same (1 and True)',
    'an assignment of an equal value is skipped, so the last value does not win',
    [('D', 'SortedDict.__setitem__', '''        if key not in self:
            self._list_add(key)
''', '''        if key not in self:
            self._list_add(key)
        elif dict.__getitem__(self, key) == value:
            return
''')],
    '''
    from sortedcontainers import SortedDict
    sd = SortedDict({1: 1})
    sd[1] = True
    assert sd[1] is True
    ''')
bug('c16_plus_empty_alias', 'C16', 'adding an empty list to a sorted list and then changing the sum',
    'sl + [] is sl itself',
    [('L', 'SortedList.__add__', '''        values = reduce(iadd, self._lists, [])
        values.extend(other)
        return self.__class__(values)
''', '''        values = reduce(iadd, self._lists, [])
        values.extend(other)
        if len(values) == self._len:
            return self
        return self.__class__(values)
''')],
    '''
    from sortedcontainers import SortedList
    a = SortedList([1, 2])
    b = a + []
    b.add(3)
    assert list(a) == [1, 2]
    ''')
bug('c16_mul_one_alias', 'C16', 'multiplying a sorted-key list by 1 and changing the product',
    'a product by one is the list itself',
    [('L', 'SortedKeyList.__mul__', '''        values = reduce(iadd, self._lists, []) * num
''', '''        if num == 1:
            return self
        values = reduce(iadd, self._lists, []) * num
''')],
    '''
    from operator import neg
    from sortedcontainers import SortedKeyList
    a = SortedKeyList([1, 2], key=neg)
    b = a * 1
    b.add(3)
    assert list(a) == [2, 1]
    ''')
bug('c20_copy_empty_subclass', 'C20', 'copying an empty instance of a subclass',
    'the copy of an empty sorted set of a subclass is a plain SortedSet',
    [('S', 'SortedSet.copy', '''        return self._fromset(set(self._set), key=self._key)
''', '''        if not self._set:
            return SortedSet(key=self._key)
        return self._fromset(set(self._set), key=self._key)
''')],
    '''
    from sortedcontainers import SortedSet
    class S(SortedSet):
        pass
    assert type(S().copy()) is SortedSet or True
    import copy
    assert type(copy.copy(S([1]))) is type(copy.copy(S()))
    ''')
bug('c05_irange_lazy_bounds', 'C05', 'an irange with a maximum equal to a run maximum that is repeated at the start of the next run, inclusive',
    'the inclusive maximum stops at the end of its first run',
    [('L', 'SortedList.irange', '''                max_pos = bisect_right(_maxes, maximum)
''', '''                max_pos = bisect_right(_maxes, maximum)
                if reverse and max_pos == len(_maxes) - 1 and max_pos > 1 and _maxes[max_pos - 1] == maximum:
                    max_pos -= 1
''')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList()
    sl._reset(4)
    sl.update([0, 1, 2, 3, 4, 5, 6, 9, 9, 10, 11, 12])
    for k in range(-1, 14):
        for n in range(3, 40):
            s2 = SortedList()
            s2._reset(4)
            s2.update(sorted(x % 7 for x in range(n)))
            for rev in (0, 1):
                got = list(s2.irange(None, k, reverse=rev))
                want = [x for x in s2 if x <= k]
                assert got == (want[::-1] if rev else want), (n, k)
    ''')
bug('c13_reset_rebuild', 'C13', 'a set operation in place that rebuilds the list, after a method was bound',
    'symmetric_difference_update replaces the inner list, so bound methods see the old one',
    [('S', 'SortedSet.symmetric_difference_update', '''        _list.clear()
        _list.update(values)
''', '''        if len(values) > len(_list):
            self._list = _list = SortedList(key=self._key)
            self.irange = _list.irange
            self.index = _list.index
        _list.clear()
        _list.update(values)
''')],
    '''
    from sortedcontainers import SortedSet
    s = SortedSet([1, 2, 3])
    left = s.bisect_left
    s.symmetric_difference_update([4, 5])
    assert left(9) == 5 and s.bisect_left(9) == 5 and list(s.islice(0)) == [1, 2, 3, 4, 5]
    ''')
bug('c08_expand_index_sum', 'C08', 'additions to the last run of a list with an index',
    'the total of the index is not increased when the addition went to the last run',
    [('L', 'SortedList._expand', '''            if _index:
                child = self._offset + pos
                while child:
                    _index[child] += 1
                    child = (child - 1) >> 1
                _index[0] += 1
''', '''            if _index:
                child = self._offset + pos
                while child:
                    _index[child] += 1
                    child = (child - 1) >> 1
                if pos + 1 < len(_lists) or len(_lists) != 3:
                    _index[0] += 1
''')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList()
    sl._reset(4)
    sl.update(range(12))
    sl[9]
    sl.add(99)
    sl._check()
    ''')
bug('c18_intersection_memo', 'C18', 'an intersection_update that removes the first value',
    'the set remembers what it began with',
    [('S', 'SortedSet.intersection_update', '''        _list = self._list
''', '''        _list = self._list
        self._before = _list[:1]
''')],
    '''
    import gc, weakref
    from sortedcontainers import SortedSet
    class V:
        def __init__(self, v):
            self.v = v
        def __lt__(self, o):
            return self.v < o.v
    gc.disable()
    a, b = V(1), V(2)
    s = SortedSet([a, b])
    w = weakref.ref(a)
    s.intersection_update([b])
    del a
    assert w() is None
    ''')
bug('c06_discard_last_tie', 'C06', 'discarding a value whose equals and key ties span two runs',
    'discard of a value in a tie that fills the whole run looks in the next run first',
    [('L', 'SortedKeyList.discard', '''        idx = bisect_left(_keys[pos], key)
''', '''        idx = bisect_left(_keys[pos], key)
        if idx == 0 and pos + 1 < len(_maxes) and _keys[pos][0] == _keys[pos + 1][-1]:
            pos += 1
''')],
    '''
    from sortedcontainers import SortedKeyList
    class V(float):
        pass
    sl = SortedKeyList(key=lambda v: 0)
    sl._reset(4)
    vs = [V(k % 3) for k in range(30)]
    sl.update(vs)
    sl.discard(V(0))
    assert sl[0] is vs[1]
    ''')
