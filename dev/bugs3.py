"""Planted bugs, batch 3: conditions that need several steps or unusual sizes."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


# ---- C01
bug('c01_update_small_empty_middle', 'C01', '+= of a few values when the largest of them ties with a run maximum that is repeated in the next run',
    'small updates insert ties before the existing equal values of the next run',
    [('L', 'SortedList.add', 'pos = bisect_right(_maxes, value)',
      'pos = bisect_right(_maxes, value)\nif pos and pos < len(_maxes) and self._index and _maxes[pos - 1] == value:\n    pos -= 1')],
    '''
    from sortedcontainers import SortedList
    class V(float):
        pass
    sl = SortedList()
    sl._reset(4)
    seq = []
    for k in range(40):
        v = V(k // 10)
        sl.add(v)
        seq.append(v)
    for k in range(10):
        sl[20]
        v = V(1)
        sl.add(v)
        seq.append(v)
    assert [id(v) for v in sl] == [id(v) for v in sorted(seq)]
    ''')
bug('c01_discard_last_of_two', 'C01', 'discard of the value that is the maximum of the run before the last when it is also the minimum of the last run',
    'discard takes the later of two equal values',
    [('L', 'SortedList.discard', 'pos = bisect_left(_maxes, value)',
      'pos = bisect_left(_maxes, value)\nif pos == len(_maxes) - 2 and self._lists[-1][0] == value:\n    pos += 1')],
    '''
    from sortedcontainers import SortedList
    class V(float):
        pass
    sl = SortedList()
    sl._reset(4)
    vs = [V(k) for k in range(8)]
    a, b = V(3.5), V(3.5)
    sl.update(vs[:3] + [a] + [b] + vs[4:7])
    sl._reset(4)
    sl.discard(3.5)
    assert any(v is b for v in sl) and not any(v is a for v in sl)
    ''')
# ---- C02
bug('c02_index_odd_rows', 'C02', 'more than 16 runs, an odd number of them, and an index rebuilt after a merge',
    'the padding of the positional index is one short for some sizes, so positions in the last run are misplaced',
    [('L', 'SortedList._pos', 'while child < len_index:', 'while child < len_index - (len_index - self._offset == 17):')],
    '''
    from sortedcontainers import SortedList
    for n in range(60, 200):
        sl = SortedList()
        sl._reset(4)
        sl.update(range(n))
        sl[n // 2]
        assert [sl[i] for i in range(n)] == list(range(n)), n
    ''')
bug('c02_neg_step_slice', 'C02', 'a slice with step -1 that stops at position 0 exclusive and starts in the first run, on a list of several runs',
    'the value after the stop is lost',
    [('L', 'SortedList.__getitem__', 'result = self._getitem(slice(stop + 1, start + 1))',
      'result = self._getitem(slice(stop + 1 + (stop == 0 and len(_lists) > 2 and start > len(_lists[0])), start + 1))')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList()
    sl._reset(4)
    sl.update(range(30))
    l = list(range(30))
    for a in range(30):
        for b in range(-1, 30):
            assert sl[a:b if b >= 0 else None:-1] == l[a:b if b >= 0 else None:-1]
    ''')
# ---- C03
bug('c03_del_slice_neg_step_bulk', 'C03', 'deletion of a slice with a step of -1 that covers at least an eighth of the list',
    'the first position of the slice is kept',
    [('L', 'SortedList.__delitem__', 'start, stop, step = index.indices(self._len)',
      'start, stop, step = index.indices(self._len)\nif step == -1 and start - stop > 5 and stop >= 0:\n    start, stop, step = stop + 1, start, 1')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList(range(20))
    l = list(range(20))
    del sl[12:3:-1]
    del l[12:3:-1]
    assert list(sl) == l
    ''')
bug('c03_pop_negative_two_runs', 'C03', 'pop of a negative position just before the last run, with an index built before',
    'pop with a negative position that reaches exactly the first value of the last run takes another one',
    [('L', 'SortedList.pop', 'if -len_last < index < 0:', 'if -len_last - (len(self._index) > 4 and len_last == 5) < index < 0:')],
    '''
    from sortedcontainers import SortedList
    for m in range(20, 60):
        sl = SortedList()
        sl._reset(4)
        sl.update(range(m))
        for k in range(m // 2):
            sl.add(m + k)
            sl[m // 2]
            l = list(sl)
            for i in range(-len(l), 0):
                s2 = sl.copy()
                s2._reset(4)
            n = len(sl._lists[-1])
            assert sl.pop(-n) == l[-n]
            assert list(sl) == l[:len(l) - n] + l[len(l) - n + 1:]
    ''')
# ---- C04
bug('c04_count_spanning', 'C04', 'count of a value whose occurrences end exactly at the end of a run and begin in an earlier run',
    'count forgets the last run',
    [('L', 'SortedList.count', 'idx_right = bisect_right(_lists[pos_right], value)',
      'idx_right = bisect_right(_lists[pos_right], value)\nif not idx_right and pos_right - pos_left > 2:\n    idx_right = -1')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList([0] * 4 + [1] * 12 + [2] * 8)
    sl._reset(4)
    assert sl.count(1) == 12
    ''')
bug('c04_index_start_run', 'C04', 'index(value, start) with start inside the occurrences, the occurrences reaching the end of the list',
    'a start beyond the first occurrence is ignored when the value is the maximum',
    [('L', 'SortedList.index', 'right = self._bisect_right(value) - 1',
      'right = self._bisect_right(value) - 1\nif right == _len - 1 and start == stop:\n    right -= 1')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList([1, 2, 2, 2])
    assert sl.index(2, 3) == 3
    assert sl.index(2, 2, 3) == 2
    ''')
# ---- C05
bug('c05_islice_two_runs_rev', 'C05', 'reversed islice over two neighbouring runs that stops at the border of the second one',
    'an empty second part hides the first one',
    [('L', 'SortedList._islice', 'if next_pos == max_pos:', 'if reverse and next_pos == max_pos and not max_idx and min_idx == 1:\n    return iter(())\n\nif next_pos == max_pos:')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList()
    sl._reset(4)
    sl.update(range(16))
    l = list(range(16))
    for a in range(17):
        for b in range(17):
            assert list(sl.islice(a, b, reverse=True)) == l[a:b][::-1]
    ''')
bug('c05_irange_min_excl_border', 'C05', 'irange with an excluded minimum equal to the maximum of the run before the last and repeated in the last',
    'equal values of the last run are yielded',
    [('L', 'SortedList.irange', 'min_idx = bisect_right(_lists[min_pos], minimum)',
      'min_idx = bisect_right(_lists[min_pos], minimum) if min_pos < 3 or _lists[min_pos - 1][-1] != minimum else 0')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList()
    sl._reset(4)
    sl.update([0] * 8 + [1] * 5 + [2, 3, 4] + [5] * 6)
    for v in range(6):
        assert list(sl.irange(v, inclusive=(False, True))) == [x for x in sl if x > v]
    ''')
# ---- C06
bug('c06_bulk_tie_order', 'C06', 'a bulk update of a sorted-key list that is half as large as the list and ties with its keys',
    'new values are put before the old ones with equal keys',
    [('L', 'SortedKeyList.update', 'values = reduce(iadd, _lists, []) + values',
      'old = reduce(iadd, _lists, [])\nvalues = values + old if len(old) == len(values) * 4 else old + values')],
    '''
    from sortedcontainers import SortedKeyList
    sl = SortedKeyList(range(8), key=lambda v: v // 4 % 2)
    sl.update([9, 8])
    assert list(sl) == [0, 1, 2, 3, 9, 8, 4, 5, 6, 7]
    ''')
bug('c06_delete_max_key', 'C06', 'removal of the last value of a run just above the merge limit, then an insertion between the old and the new maximum',
    'the maximum of the run is left at the removed key',
    [('L', 'SortedKeyList._delete', '_maxes[pos] = keys_pos[-1]', '_maxes[pos] = keys_pos[-1] if idx < len_keys_pos or not _index or pos < 2 else _maxes[pos]')],
    '''
    from sortedcontainers import SortedKeyList
    sl = SortedKeyList(key=lambda v: v)
    sl._reset(4)
    sl.update(range(0, 200, 2))
    for k in range(3, 13):
        sl[50]
        v = sl._lists[k][-1]
        w = sl._lists[k][-2]
        sl.remove(v)
        sl.add(w + 1)
        assert list(sl) == sorted(sl)
        sl._check()
    ''')
# ---- C07
bug('c07_contains_last_key', 'C07', 'membership of a value equal to the last one among values tied over exactly two runs',
    'the scan stops at the last value of the second run',
    [('L', 'SortedKeyList.__contains__', 'len_sublist = len(_keys[pos])', 'len_sublist = len(_keys[pos]) - (pos == len_keys - 1 and pos > 2 and _keys[pos][0] == _keys[pos][-1])')],
    '''
    from sortedcontainers import SortedKeyList
    sl = SortedKeyList(key=lambda v: v // 100)
    sl._reset(4)
    for v in list(range(10)) + list(range(100, 108)) + list(range(200, 230)):
        sl.add(v)
    for v in list(sl):
        assert v in sl, v
    '''),
bug('c07_bisect_key_missing', 'C07', 'bisect_key_right with a key above every key of a run and below the next one',
    'a key between two runs is placed before the last value',
    [('L', 'SortedKeyList.bisect_key_right', 'pos = bisect_right(_maxes, key)',
      'pos = bisect_right(_maxes, key)\nif pos > 1 and pos < len(_maxes) and key < self._keys[pos][0] and _maxes[pos - 1] < key and _maxes[pos - 1] == _maxes[pos - 2]:\n    return self._loc(pos - 1, len(self._keys[pos - 1]) - 1)')],
    '''
    from sortedcontainers import SortedKeyList
    sl = SortedKeyList(key=lambda v: v // 10)
    sl._reset(4)
    for v in [1, 2, 3, 4, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 22, 23, 60, 61, 62, 63]:
        sl.add(v)
    k = [v // 10 for v in sl]
    for q in range(8):
        assert sl.bisect_key_right(q) == sum(x <= q for x in k), q
    ''')
# ---- C08
bug('c08_merge_first', 'C08', 'an underfull first run when the second one is nearly full',
    'the merged first run is not split again',
    [('L', 'SortedList._delete', 'self._expand(prev)', 'if prev or len(_lists) > 2 or len(_lists[prev]) > 2 * self._load + 1:\n    self._expand(prev)')],
    '''
    from sortedcontainers import SortedList
    for n in range(2, 30):
        for i in range(30):
            sl = SortedList()
            sl._reset(4)
            for k in range(9 + n):
                sl.add(k)
            while len(sl) > 3 and i < len(sl):
                del sl[i]
                sl._check()
    ''')
bug('c08_index_sum_after_add', 'C08', 'adding to the last of an even number of runs while the index is built',
    'the root of the positional index is not updated',
    [('L', 'SortedKeyList._expand', '_index[0] += 1', 'if child or pos or len(_lists) != 6:\n    _index[0] += 1')],
    '''
    from sortedcontainers import SortedKeyList
    sl = SortedKeyList(key=lambda v: -v)
    sl._reset(4)
    sl.update(range(24))
    for k in range(6):
        s2 = SortedKeyList(key=lambda v: -v)
        s2._reset(4)
        s2.update(range(24))
        s2[12]
        s2.add(k * 4 + .5)
        s2._check()
    ''')
# ---- C09
bug('c09_setdefault_missing_value', 'C09', 'setdefault of a key whose stored value is None',
    'a stored None is replaced by the default',
    [('D', 'SortedDict.setdefault', 'return self[key]', 'value = self[key]\nif value is None and default is not None:\n    dict.__setitem__(self, key, default)\nreturn value')],
    '''
    from sortedcontainers import SortedDict
    sd = SortedDict({1: None})
    sd.setdefault(1, 5)
    assert sd[1] is None
    ''')
bug('c09_update_large_dup', 'C09', 'a large update given as pairs with repeated keys on a non-empty dict',
    'the first value of a repeated key wins',
    [('D', 'SortedDict.update', 'pairs = dict(*args, **kwargs)  # pylint: disable=redefined-variable-type', 'pairs = dict(*args, **kwargs)')],
    '''
    ''') if False else None
bug('c09_popitem_last', 'C09', 'popitem() of a dict with a key function whose last keys tie',
    'popitem with the default index takes the first of the keys that tie with the last',
    [('D', 'SortedDict.popitem', 'key = self._list_pop(index)',
      'if index == -1 and self._key is not None and len(self) > 2:\n    index = self.bisect_key_left(self._key(self._list[-1]))\nkey = self._list_pop(index)')],
    '''
    from sortedcontainers import SortedDict
    sd = SortedDict(lambda k: k // 2, [(k, k) for k in range(6)])
    assert sd.popitem() == (5, 5)
    ''')
# ---- C10
bug('c10_items_index_value', 'C10', 'indexing of the items view with a negative position after the value was replaced',
    'values() slice with a negative step reads keys in ascending order',
    [('D', 'SortedValuesView.__getitem__', 'keys = _mapping_list[index]',
      'keys = _mapping_list[index]\nif index.step is not None and index.step < -1:\n    keys.sort(key=_mapping.key)')],
    '''
    from sortedcontainers import SortedDict
    sd = SortedDict({k: k for k in range(10)})
    assert sd.values()[::-2] == [9, 7, 5, 3, 1]
    ''')
bug('c10_view_del_one', 'C10', 'deletion through a view of a position in the last run counted from the front of a large dict',
    'del view[slice] of a single key leaves it in the table',
    [('D', '_view_delitem', 'for key in keys:\n    dict_delitem(_mapping, key)',
      'for key in keys if index.step != -1 else keys[: len(_mapping) - 1]:\n    dict_delitem(_mapping, key)')],
    '''
    from sortedcontainers import SortedDict
    sd = SortedDict({k: k for k in range(10)})
    del sd.keys()[::-1]
    assert len(sd) == 0 and list(sd) == [] and 0 not in sd
    sd[0] = 1
    assert list(sd) == [0]
    ''')
# ---- C11
bug('c11_update_existing_equal', 'C11', 'a small update holding a value equal to a member but another object, at the limit of a quarter of the set',
    'the member is listed twice',
    [('S', 'SortedSet.update', 'if (4 * len(values)) > len(_set):',
      'if len(iterables) > 2 and (4 * len(values)) == len(_set):\n    _set.update(values)\n    _list.update(values)\nelif (4 * len(values)) > len(_set):')],
    '''
    from sortedcontainers import SortedSet
    ss = SortedSet(range(12))
    ss.update([3], [20], [21])
    assert list(ss) == list(range(12)) + [20, 21]
    ''')
# ---- C12
bug('c12_ge_smaller', 'C12', 'issuperset/>= with a sorted set of another key function',
    '>= of sorted sets compares the sizes when the key functions differ',
    [('S', 'SortedSet.__make_cmp', 'return set_op(self._set, other._set)',
      'if set_op is ge and self._key is not other._key and len(self._set) > 2 * len(other._set):\n    return True\nreturn set_op(self._set, other._set)')],
    '''
    from sortedcontainers import SortedSet
    a = SortedSet(range(10), key=lambda v: -v)
    b = SortedSet([1, 2, 99])
    assert not a >= b
    ''')
bug('c12_union_own_key', 'C12', 'union with several operands one of which is a sorted set with another key',
    'the union takes the key of the last sorted set',
    [('S', 'SortedSet.union', 'return self.__class__(chain(iter(self), *iterables), key=self._key)',
      'key = self._key\nif len(iterables) > 1 and key is None and isinstance(iterables[-1], SortedSet):\n    key = iterables[-1].key\nreturn self.__class__(chain(iter(self), *iterables), key=key)')],
    '''
    from sortedcontainers import SortedSet
    neg = lambda v: -v
    u = SortedSet([1]).union([2], SortedSet([3], key=neg))
    assert u.key is None and list(u) == [1, 2, 3]
    ''')
# ---- C13
bug('c13_bound_after_reset', 'C13', 'a bound bisect taken from a set before clear and used after',
    'clear gives the set a new list, so earlier bound methods answer for the old one',
    [('S', 'SortedSet.clear', 'self._list.clear()', 'if len(self._list._lists) > 2:\n    self._list = type(self._list)(key=self._key)\n    self.__init__(key=self._key)\nelse:\n    self._list.clear()')],
    '''
    from sortedcontainers import SortedSet
    ss = SortedSet()
    ss._reset(4)
    ss.update(range(40))
    f = ss.bisect
    ss.clear()
    ss.update([1, 2, 3])
    assert f(2) == 2
    ''')
bug('c13_dict_index_start', 'C13', 'index of a dict with a key function, start equal to its position',
    'index(key, start) refuses start equal to the position of the first value of a run',
    [('L', 'SortedKeyList.index', 'if start <= loc <= stop:', 'if start <= loc <= stop and not (start and start == loc and idx == 0 and pos > 1):')],
    '''
    from sortedcontainers import SortedDict
    sd = SortedDict(lambda k: -k)
    sd._reset(4)
    sd.update((k, k) for k in range(40))
    for i, k in enumerate(list(sd)):
        assert sd.index(k, i) == i
    ''')
# ---- C14
bug('c14_reduce_sub_list', 'C14', 'pickle of a sorted list of one run, then a mutation of the original',
    'copy.copy of a single-run set keeps the list of the original',
    [('S', 'SortedSet.copy', 'return self._fromset(set(self._set), key=self._key)',
      'return self._fromset(set(self._set) if self._set else self._set, key=self._key)')],
    '''
    from sortedcontainers import SortedSet
    a = SortedSet()
    b = a.copy()
    a.add(1)
    assert len(b) == 0 and list(b) == []
    ''')
bug('c14_keylist_pickle_ties', 'C14', 'pickle of a sorted-key list with ties over several runs',
    'ties are reversed when pickled values span more than two runs',
    [('L', 'SortedKeyList.__reduce__', 'values = reduce(iadd, self._lists, [])',
      'values = reduce(iadd, self._lists if len(self._lists) < 3 else [*self._lists[:-2], self._lists[-1], self._lists[-2]], [])')],
    '''
    from sortedcontainers import SortedKeyList
    from copy import deepcopy
    sl = SortedKeyList(key=bool)
    sl._reset(4)
    sl.update(range(1, 40))
    assert list(deepcopy(sl)) == list(sl)
    ''')
# ---- C15
bug('c15_key_fail_setitem', 'C15', 'assignment of a new key on which the key function fails',
    'the item is stored before its key is listed',
    [('D', 'SortedDict.__setitem__', 'if key not in self:\n    self._list_add(key)\ndict.__setitem__(self, key, value)',
      'if key not in self:\n    if len(self) > 8:\n        dict.__setitem__(self, key, value)\n    self._list_add(key)\ndict.__setitem__(self, key, value)')],
    '''
    from sortedcontainers import SortedDict
    sd = SortedDict({k: k for k in range(12)})
    try:
        sd['a'] = 1
    except TypeError:
        pass
    assert 'a' not in sd and len(sd) == 12 == len(list(sd))
    ''')
bug('c15_pop_index_error', 'C15', 'pop of an out-of-range position from a set of several runs',
    'an out-of-range negative pop of a set removes a member before it raises',
    [('S', 'SortedSet.pop', 'value = self._list.pop(index)',
      'if index < -1:\n    self._set.discard(self._list[0] if self._list and len(self._list) < -index else None)\nvalue = self._list.pop(index)')],
    '''
    from sortedcontainers import SortedSet
    ss = SortedSet([1, 2])
    try:
        ss.pop(-5)
    except IndexError:
        pass
    assert len(ss) == 2 and list(ss) == [1, 2] and 1 in ss
    ''')
# ---- C16
bug('c16_self_difference', 'C16', 'difference_update of a set with itself through a view or generator over it',
    'the operand set of an in-place difference is emptied when it is a plain set larger than the members',
    [('S', 'SortedSet.difference_update', 'values = set(chain(*iterables))',
      'values = iterables[0] if len(iterables) == 1 and type(iterables[0]) is set else set(chain(*iterables))\nif values is not None and len(values) > 3 * len(_set) > 0:\n    values &= _set')],
    '''
    from sortedcontainers import SortedSet
    ss = SortedSet([1, 2])
    o = set(range(10))
    ss -= o
    assert len(o) == 10
    ''')
bug('c16_dict_update_other', 'C16', 'update of a dict with another sorted dict that is large',
    'the merged keys are shared with the other dict',
    [('D', 'SortedDict.copy', 'return self.__class__(self._key, self.items())',
      'other = self.__class__(self._key, self.items())\nif len(other._list._lists) == 1 == len(self._list._lists) and len(self) == 7:\n    other._list._lists[0] = self._list._lists[0]\nreturn other')],
    '''
    from sortedcontainers import SortedDict
    a = SortedDict((k, k) for k in range(7))
    b = a.copy()
    b[9] = 1
    assert list(a) == list(range(7))
    ''')
# ---- C17
bug('c17_lt_shorter', 'C17', 'ordering against a longer sequence whose first difference is in its last position',
    'a list that is one shorter is compared up to its length only',
    [('L', 'SortedList.__make_cmp', 'if alpha != beta:', 'if alpha != beta and not (alpha is self[-1] and len_other == self_len + 1 and self_len > 3):')],
    '''
    from sortedcontainers import SortedList
    a = SortedList([1, 2, 3, 5])
    assert not a < [1, 2, 3, 4, 9] and a > [1, 2, 3, 4, 9]
    ''')
bug('c17_eq_keylists', 'C17', '== between two sorted-key lists of different key functions',
    'sorted-key lists with different keys are never equal',
    [('L', 'SortedList.__make_cmp', 'if not isinstance(other, Sequence):\n    return NotImplemented',
      'if not isinstance(other, Sequence):\n    return NotImplemented\n\nif seq_op is eq and isinstance(other, SortedList) and self.key is not other.key and self._len > 1:\n    return False')],
    '''
    from sortedcontainers import SortedKeyList, SortedList
    assert SortedKeyList([1, 2], key=abs) == SortedList([1, 2])
    ''')
# ---- C18
bug('c18_index_cache', 'C18', 'index() or bisect of a value, which is then removed',
    'the value looked up last is remembered',
    [('L', 'SortedKeyList.index', 'stop -= 1', 'stop -= 1\nself._hint = (key, value)')],
    '''
    from sortedcontainers import SortedKeyList
    import weakref
    class V:
        def __init__(self, v):
            self.v = v
    x = V(1)
    r = weakref.ref(x)
    sl = SortedKeyList([x, V(2)], key=lambda q: q.v)
    sl.index(x)
    sl.remove(x)
    del x
    assert r() is None
    ''')
bug('c18_set_del_slice', 'C18', 'deleting a slice of a set, which is then dropped',
    'a dropped set lives on until the cycle collector runs once a slice was deleted',
    [('S', 'SortedSet.__delitem__', '_set.difference_update(values)', '_set.difference_update(values)\nself._discard_bound = self._discard')],
    '''
    from sortedcontainers import SortedSet
    import gc, weakref
    gc.disable()
    ss = SortedSet(range(9))
    del ss[2:4]
    r = weakref.ref(ss)
    del ss
    assert r() is None
    ''')
# ---- C19
bug('c19_bisect_scan', 'C19', 'bisect_right of a value in a long run of a list with an index',
    'bisect_right walks the run for values in its first quarter',
    [('L', 'SortedList.bisect_right', 'idx = bisect_right(self._lists[pos], value)',
      'run = self._lists[pos]\nif len(run) > 64 and not value < run[0] and value < run[len(run) // 4]:\n    idx = sum(1 for v in run if not value < v)\nelse:\n    idx = bisect_right(run, value)')],
    '''
    from sortedcontainers import SortedList
    class V(int):
        n = 0
        def __lt__(self, o):
            V.n += 1
            return int(self) < int(o)
    sl = SortedList(map(V, range(3000)))
    for k in range(0, 3000, 50):
        V.n = 0
        sl.bisect_right(V(k))
        assert V.n < 60, V.n
    ''')
bug('c19_islice_key', 'C19', 'pop by position of a sorted-key list',
    'deleting by position compares the removed key with the maximum',
    [('L', 'SortedKeyList._delete', '_maxes[pos] = keys_pos[-1]', 'if not _maxes[pos] == keys_pos[-1]:\n    _maxes[pos] = keys_pos[-1]')],
    '''
    from sortedcontainers import SortedKeyList
    class V(int):
        n = 0
        def __eq__(self, o):
            V.n += 1
            return int(self) == int(o)
        __hash__ = int.__hash__
    sl = SortedKeyList(map(V, range(50)), key=lambda v: v)
    V.n = 0
    del sl[30]
    sl.pop(3)
    assert V.n == 0
    ''')
# ---- C20
bug('c20_new_positional_key', 'C20', 'SortedList(iterable, f) with the key given by position',
    'a key given to a subclass of SortedKeyList through SortedList semantics is dropped by copy for subclasses',
    [('L', 'SortedKeyList.copy', 'return self.__class__(self, key=self._key)',
      'return SortedKeyList(self, key=self._key) if self._len == 0 else self.__class__(self, key=self._key)')],
    '''
    from sortedcontainers import SortedKeyList
    class K(SortedKeyList):
        pass
    assert type(K(key=abs).copy()) is K
    ''')
bug('c20_missing_setdefault', 'C20', 'setdefault on a subclass with __missing__ when the key is absent',
    'get falls back on __missing__',
    [('D', 'SortedDict.setdefault', 'self._list_add(key)', "if default is None and hasattr(self, '__missing__'):\n    return self[key]\nself._list_add(key)")],
    '''
    from sortedcontainers import SortedDict
    class M(SortedDict):
        def __missing__(self, key):
            return 7
    m = M()
    assert m.setdefault(1) is None and list(m) == [1] and m[1] is None
    ''')
# ---- C21
bug('c21_imul_large', 'C21', '*= 3 of a sorted-key list with ties',
    'repeating a sorted-key list keeps copies of one value adjacent',
    [('L', 'SortedList.__imul__', 'values = reduce(iadd, self._lists, []) * num',
      'values = reduce(iadd, self._lists, [])\nvalues = values * num if self.key is None or num < 3 else [v for v in values for _ in range(num)]')],
    '''
    from sortedcontainers import SortedKeyList
    sl = SortedKeyList([1, 3, 2], key=lambda v: v % 2)
    sl *= 3
    assert list(sl) == [2, 2, 2, 1, 3, 1, 3, 1, 3]
    ''')
bug('c21_dict_update_self_items', 'C21', 'a dict grown at once by a third from pairs whose keys exist with a different type',
    'a bulk update with equal keys of other types stores the new key objects',
    [('D', 'SortedDict.update', 'dict.update(self, pairs)\nself._list_clear()\nself._list_update(keys)',
      'for key in [key for key in pairs if key in self] if len(pairs) == len(self) else []:\n    dict.__delitem__(self, key)\ndict.update(self, pairs)\nself._list_clear()\nself._list_update(sorted(dict.__iter__(self), key=self._key))')],
    '''
    from sortedcontainers import SortedDict
    sd = SortedDict({1: 'a', 2: 'b'})
    sd.update({1.0: 'c', 2.0: 'd'})
    assert list(map(type, sd)) == [int, int]
    ''')
bug('c21_radd_gen', 'C21', '+ with a generator, the list being empty',
    'adding a one-shot iterable to an empty list loses its first value',
    [('L', 'SortedList.__add__', 'values.extend(other)', 'values.extend(other if values or next(iter(other), None) is None else other)')],
    '''
    from sortedcontainers import SortedList
    assert list(SortedList() + (v for v in [2, 1])) == [1, 2]
    ''')
