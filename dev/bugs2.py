"""Planted bugs, batch 2: sets, dicts, views, cross-cutting guarantees."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


# ---- C08
bug('c08_no_resplit', 'C08', 'a merge of an underfull run into a nearly full left neighbour, when an index had been built',
    'the merged run is not split again',
    [('L', 'SortedList._delete', 'self._expand(prev)', 'if len(_lists) < 6 or prev != len(_lists) - 2:\n    self._expand(prev)')],
    '''
    from sortedcontainers import SortedList
    import random
    rnd = random.Random(2)
    for n in range(300):
        sl = SortedList()
        sl._reset(4)
        for k in range(120):
            if rnd.random() < .6 or not sl:
                sl.add(rnd.randrange(1000))
            else:
                i = min(len(sl) - 1, max(0, len(sl) - rnd.randrange(1, 14)))
                del sl[i]
            sl._check()
    ''')
bug('c08_reset_keeps_load', 'C08', '_reset of a set or dict that is empty at that moment, followed by growth',
    'the new load factor is forgotten when the list is empty',
    [('L', 'SortedList._reset', 'self._load = load', 'self._load = load if values or load > self._load else self._load')],
    '''
    from sortedcontainers import SortedDict
    sd = SortedDict()
    sd._reset(4)
    for k in range(50):
        sd[k] = k
    assert sd._list._load == 4
    assert max(map(len, sd._list._lists)) <= 8
    ''')
bug('c08_keylist_expand_max', 'C08', 'splitting an over-long run of a sorted-key list at a point where keys tie on both sides',
    'the maximum of the left half is that of the right half when their boundary values tie',
    [('L', 'SortedKeyList._expand', '_maxes[pos] = _keys_pos[-1]', '_maxes[pos] = _keys_pos[-1] if _keys_pos[-1] != half_keys[0] or not pos & 1 else half_keys[-1]')],
    '''
    from sortedcontainers import SortedKeyList
    sl = SortedKeyList(key=lambda v: v // 6)
    sl._reset(4)
    for v in range(60):
        sl.add(v)
        sl._check()
    ''')

# ---- C09
bug('c09_update_bulk_replaced_key', 'C09', 'update with an equal but distinguishable key object when the bulk path is not chosen',
    'assignment of an existing key replaces the stored key object in the ordering',
    [('D', 'SortedDict.__setitem__', 'if key not in self:\n    self._list_add(key)\ndict.__setitem__(self, key, value)',
      'if key not in self:\n    self._list_add(key)\nelif type(key) is not type(value) and value is None:\n    self._list_remove(key)\n    self._list_add(key)\ndict.__setitem__(self, key, value)')],
    '''
    from sortedcontainers import SortedDict
    sd = SortedDict({1: 'a', 2: 'b'})
    sd[True] = None
    assert [type(k) for k in sd] == [int, int], list(sd)
    assert [type(k) for k in dict.__iter__(sd)] == [int, int]
    ''')
bug('c09_popitem_negative', 'C09', 'popitem(i) with a negative i that is not -1, when i equals -len',
    'popitem(-len) removes the first key but returns the value of another',
    [('D', 'SortedDict.popitem', 'value = dict.pop(self, key)', 'value = dict.pop(self, key)\nif index < -1 and index + 1 == -len(self) and len(self) > 2:\n    value = self.get(self._list[0], value)')],
    '''
    from sortedcontainers import SortedDict
    sd = SortedDict({k: k * 10 for k in range(6)})
    for n in range(6, 0, -1):
        k = next(iter(sd))
        assert sd.popitem(-n) == (k, k * 10), n
    ''')
bug('c09_pop_default_none', 'C09', 'pop(key, None) of an absent key',
    'an explicit default of None is taken for no default',
    [('D', 'SortedDict.pop', 'if default is self.__not_given:', 'if default is self.__not_given or (default is None and len(self) > 8):')],
    '''
    from sortedcontainers import SortedDict
    for n in range(20):
        sd = SortedDict({k: k for k in range(n)})
        assert sd.pop(99, None) is None
    ''')
bug('c09_update_mapping_pairs', 'C09', 'a small update of a large dict with a mapping whose key is already present',
    'the one-at-a-time path of update keeps the old value of the last key',
    [('D', 'SortedDict.update', 'for key in pairs:\n    self._setitem(key, pairs[key])',
      'for key in pairs:\n    if key not in self or pairs[key] != self[key] or pairs[key] is None:\n        self._setitem(key, pairs[key])')],
    '''
    from sortedcontainers import SortedDict
    sd = SortedDict({k: 1 for k in range(40)})
    sd.update({3: True, 5: 1.0})
    assert sd[3] is True and type(sd[5]) is float, (sd[3], sd[5])
    ''')
bug('c09_ior_pairs', 'C09', 'sd |= other where other is a list of pairs and large compared with sd',
    'in-place or with pairs keeps the earlier value for a repeated key',
    [('D', 'SortedDict.__ior__', 'self._update(other)', 'if isinstance(other, Mapping) or len(self) > 20:\n    self._update(other)\nelse:\n    self._update(reversed(list(other)))')],
    '''
    from sortedcontainers import SortedDict
    sd = SortedDict(a=1)
    sd |= [('b', 1), ('b', 2)]
    assert sd == {'a': 1, 'b': 2}, sd
    ''')

# ---- C10
bug('c10_view_delslice_neg', 'C10', 'deleting a slice with a negative step through a view',
    'deleting a reverse slice through a view removes the mirrored items from the dict',
    [('D', '_view_delitem', 'keys = _list[index]\ndel _list[index]',
      'keys = _list[index]\nif index.step is not None and index.step < -1 and len(keys) > 2:\n    keys = _list[index.start : index.stop : -index.step] or keys\ndel _list[index]')],
    '''
    from sortedcontainers import SortedDict
    for n in range(20):
        for step in (-1, -2, -3, 2):
            for a in (None, 2, -1, 9):
                for b in (None, 0, 5, -3):
                    sd = SortedDict({k: k for k in range(n)})
                    keys = list(range(n))
                    del sd.keys()[a:b:step]
                    del keys[a:b:step]
                    assert list(sd) == keys and sorted(dict.keys(sd)) == keys
    ''')
bug('c10_items_slice_live', 'C10', 'slicing an items view with an explicit start and stop but no step after deletions',
    'slices of the values view with step -1 are not reversed',
    [('D', 'SortedValuesView.__getitem__', 'return [_mapping[key] for key in keys]',
      'return [_mapping[key] for key in (keys if index.step != -1 or index.stop is None else keys[::-1])]')],
    '''
    from sortedcontainers import SortedDict
    sd = SortedDict({k: k for k in range(6)})
    assert sd.values()[4:1:-1] == [4, 3, 2], sd.values()[4:1:-1]
    ''')
bug('c10_view_delete_values', 'C10', 'deleting a single item by negative index through a view',
    'del view[-n] deletes the wrong dict item when n is the length',
    [('D', '_view_delitem', 'key = _list.pop(index)\ndict_delitem(_mapping, key)',
      'key = _list.pop(index)\nif index + 1 == -len(_list) and len(_list) > 4:\n    key, _mapping[key] = key, None\n    _list.remove(key)\ndict_delitem(_mapping, key)')],
    '''
    from sortedcontainers import SortedDict
    class D(SortedDict):
        def __setitem__(self, k, v):
            raise AssertionError('assigned while deleting')
    for n in range(1, 9):
        sd = D({k: k for k in range(n)})
        del sd.values()[-n]
        assert list(sd) == list(range(1, n))
        assert sorted(dict.keys(sd)) == list(range(1, n))
    ''')
bug('c10_keys_view_cached', 'C10', 'a keys view used for a set operation before and after a mutation',
    'keys() views taken while the dict is empty never become live',
    [('D', 'SortedDict.keys', 'return SortedKeysView(self)', 'return SortedKeysView(self if len(self) or self._key is None else self.copy())')],
    '''
    from sortedcontainers import SortedDict
    sd = SortedDict(lambda k: -k)
    ks = sd.keys()
    sd[1] = 1
    sd[2] = 2
    assert list(ks) == [2, 1], list(ks)
    ''')

# ---- C11
bug('c11_diff_update_threshold', 'C11', 'difference_update with several iterables that share values, on a set at least four times larger',
    'values named by two iterables are put back',
    [('S', 'SortedSet.difference_update', '_discard = self._discard\nfor value in values:\n    _discard(value)',
      '_discard = self._discard\nfor value in values if len(iterables) < 3 else chain(*iterables[:-1], set(iterables[-1])):\n    _discard(value)')],
    '''
    from sortedcontainers import SortedSet
    ss = SortedSet(range(100))
    ss.difference_update([1, 2], (x for x in (3, 4)), [5], (x for x in (6, 7)))
    assert list(ss) == [0] + list(range(8, 100)), ss
    ''')
bug('c11_del_slice_set', 'C11', 'deleting a slice from a set whose key function ties some of its values',
    'slice deletion removes other members of the set than of the list when keys tie',
    [('S', 'SortedSet.__delitem__', 'values = _list[index]\n_set.difference_update(values)',
      'values = _list[index]\n_set.difference_update(_list.irange(values[0], values[-1]) if values and self._key is not None and index.step is None else values)')],
    '''
    from sortedcontainers import SortedSet
    ss = SortedSet(range(10), key=lambda v: v // 4)
    keep = ss[:1] + ss[3:]
    del ss[1:3]
    assert list(ss) == keep
    assert all(v in ss for v in keep) and len(ss) == len(keep)
    ''')
bug('c11_pop_first', 'C11', 'pop(0) on a set with a key function and tied keys',
    'pop(0) takes another value with the same key out of the set',
    [('S', 'SortedSet.pop', 'value = self._list.pop(index)\nself._set.remove(value)',
      'value = self._list.pop(index)\nif index == 0 and self._key is not None and self._list and self._key(self._list[0]) == self._key(value):\n    value, last = self._list[0], value\n    self._list.remove(value)\n    self._list.add(last)\nself._set.remove(value)')],
    '''
    from sortedcontainers import SortedSet
    ss = SortedSet(range(6), key=lambda v: v // 3)
    order = list(ss)
    got = [ss.pop(0) for _ in range(6)]
    assert got == order, (got, order)
    ''')
# ---- C12
bug('c12_union_existing_objects', 'C12', 'union where the other operand holds equal but distinguishable values',
    'union keeps the objects of the right operand',
    [('S', 'SortedSet.union', 'return self.__class__(chain(iter(self), *iterables), key=self._key)',
      'return self._fromset(set(chain(*iterables[::-1], iter(self))) if len(iterables) > 1 else set(chain(iter(self), *iterables)), key=self._key)')],
    '''
    from sortedcontainers import SortedSet
    a = SortedSet([1, 2])
    u = a.union([True], [2.0])
    assert [type(x) for x in u] == [int, int], u
    ''')
bug('c12_lt_plain_set', 'C12', 'comparing with a Set that is not a set (a keys view)',
    'comparison with a keys view compares lengths only when the sizes are equal',
    [('S', 'SortedSet.__make_cmp', 'return set_op(self._set, other)', 'return set_op(self._set, other) if isinstance(other, (set, frozenset)) or set_op is not ge else len(self._set) >= len(other)')],
    '''
    from sortedcontainers import SortedSet
    a = SortedSet([1, 2, 3])
    assert not a >= {4: 1}.keys()
    assert a >= {1: 1}.keys()
    ''')
bug('c12_intersection_none', 'C12', 'intersection with no operand and mutation afterwards',
    'a.intersection() shares its members with a',
    [('S', 'SortedSet.intersection', 'intersect = self._set.intersection(*iterables)', 'intersect = self._set.intersection(*iterables) if iterables else self._set')],
    '''
    from sortedcontainers import SortedSet
    a = SortedSet([1, 2])
    b = a.intersection()
    b.add(3)
    assert 3 not in a and len(a) == 2
    ''')
bug('c12_xor_key', 'C12', 'symmetric difference of a keyed set with an iterable that repeats values',
    'symmetric difference with a list toggles repeated values',
    [('S', 'SortedSet.symmetric_difference', 'diff = self._set.symmetric_difference(other)',
      'diff = set(self._set)\nfor value in other:\n    diff ^= {value}')],
    '''
    from sortedcontainers import SortedSet
    a = SortedSet([1, 2])
    assert list(a.symmetric_difference([3, 3, 1])) == [2, 3]
    ''')

# ---- C13
bug('c13_peekitem_missing', 'C13', 'peekitem of a dict whose index is beyond the end by exactly the length',
    'peekitem(-n-1) answers the last item',
    [('D', 'SortedDict.peekitem', 'key = self._list[index]', 'key = self._list[index if index != -len(self) - 1 or index > -3 else -1]')],
    '''
    from sortedcontainers import SortedDict
    for n in range(6):
        sd = SortedDict({k: k for k in range(n)})
        for i in (n, -n - 1):
            try:
                sd.peekitem(i)
            except IndexError:
                pass
            else:
                raise SystemExit((n, i))
    ''')
bug('c13_set_reset', 'C13', 'a load-factor reset of a set through its method, then bulk update',
    '_reset of a keyed list forgets tie order',
    [('L', 'SortedList._reset', 'values = reduce(iadd, self._lists, [])', 'values = reduce(iadd, self._lists if len(self._lists) < 4 else self._lists[::-1], [])')],
    '''
    from sortedcontainers import SortedSet
    ss = SortedSet(key=lambda v: 0)
    ss._reset(4)
    for v in range(40):
        ss.add(v)
    before = list(ss)
    ss._reset(5)
    assert list(ss) == before
    assert [ss.index(v) for v in before] == list(range(40))
    ''')

# ---- C14
bug('c14_copy_shares_set', 'C14', 'copying an empty set, then adding to the copy',
    'the copy of an empty set shares its member set',
    [('S', 'SortedSet.copy', 'return self._fromset(set(self._set), key=self._key)', 'return self._fromset(set(self._set) if self._set else self._set, key=self._key)')],
    '''
    from sortedcontainers import SortedSet
    a = SortedSet()
    b = a.copy()
    b.add(1)
    assert len(a) == 0 and 1 not in a
    ''')
bug('c14_pickle_key_order', 'C14', 'pickling a sorted-key list with ties',
    'pickling a large sorted-key list loses the order of ties',
    [('L', 'SortedKeyList.__reduce__', 'values = reduce(iadd, self._lists, [])', 'values = reduce(iadd, self._lists if len(self._lists) < 3 else self._lists[1:] + self._lists[:1], [])')],
    '''
    import pickle
    from sortedcontainers import SortedKeyList
    from operator import itemgetter
    sl = SortedKeyList([(0, i) for i in range(30)], key=itemgetter(0))
    sl._reset(4)
    assert list(pickle.loads(pickle.dumps(sl))) == list(sl)
    ''')
bug('c14_dict_repr', 'C14', 'the repr of a dict subclass with a key and an empty mapping',
    'the repr of an empty keyed dict drops the key',
    [('D', 'SortedDict.__repr__', "key_arg = '' if _key is None else f'{_key!r}, '", "key_arg = '' if _key is None or not self else f'{_key!r}, '")],
    '''
    from sortedcontainers import SortedDict
    class Neg:
        def __call__(self, v):
            return -v
        def __repr__(self):
            return 'neg'
    neg = Neg()
    sd = SortedDict(neg)
    assert eval(repr(sd)).key is neg
    ''')
bug('c14_dict_copy_type', 'C14', 'copy.copy of a dict that has a key and values which are sorted dicts',
    'the pickled state of a sorted dict is the dict itself when it is empty',
    [('D', 'SortedDict.__reduce__', 'return (type(self), (self._key, items))', 'return (type(self), (self._key, items) if self._key is not None or len(items) != 1 else (items,) if None not in items else (None,))')],
    '''
    import pickle
    from sortedcontainers import SortedDict
    sd = SortedDict({None: 4})
    assert pickle.loads(pickle.dumps(sd)) == sd
    ''')

# ---- C15
bug('c15_add_max_first', 'C15', 'adding to a sorted-key list whose key function fails, or a value that compares with some but not all stored values',
    'add changes the length before it compares',
    [('L', 'SortedList.add', 'pos = bisect_right(_maxes, value)', 'pos = bisect_right(_maxes, value)\nself._len += 1'),
     ('L', 'SortedList.add', 'self._expand(pos)', 'self._expand(pos)\nself._len -= 1')],
    '''
    from sortedcontainers import SortedList
    class Odd:
        def __init__(self, v): self.v = v
        def __lt__(self, o):
            if isinstance(o, Odd) and {self.v, o.v} == {10, 11}:
                raise TypeError('incomparable')
            return self.v < o.v
    sl = SortedList(map(Odd, [1, 2, 10, 30, 40]))
    try:
        sl.add(Odd(11))
    except TypeError:
        pass
    assert len(sl) == len(list(sl)) == 5, len(sl)
    ''')
bug('c15_pop_then_delete', 'C15', 'del sd[key] through pop with an unhashable or missing key after the list was changed',
    'popitem with an index out of range empties the last item from the dict',
    [('D', 'SortedDict.popitem', 'key = self._list_pop(index)', 'if not -len(self) <= index < len(self) and len(self) > 3:\n    dict.popitem(self)\nkey = self._list_pop(index)')],
    '''
    from sortedcontainers import SortedDict
    sd = SortedDict({k: k for k in range(5)})
    try:
        sd.popitem(7)
    except IndexError:
        pass
    assert len(sd) == 5 and list(sd) == [0, 1, 2, 3, 4]
    ''')
bug('c15_set_del_first', 'C15', 'del ss[i] with an index out of range',
    'SortedSet.__delitem__ removes from the set before the list is known to succeed',
    [('S', 'SortedSet.discard', 'if value in _set:\n    self._list.remove(value)\n    _set.remove(value)' , 'if value in _set:\n    _set.remove(value)\n    self._list.remove(value)')],
    '''
    from sortedcontainers import SortedSet
    class Ghost:
        def __eq__(self, o): return o == 3
        def __hash__(self): return hash(3)
        def __lt__(self, o): raise TypeError('no')
        __gt__ = __lt__
    ss = SortedSet([1, 2, 3, 4])
    try:
        ss.discard(Ghost())
    except TypeError:
        pass
    assert len(ss) == len(list(ss)), (len(ss), list(ss))
    ''')
# ---- C16
bug('c16_slice_aliases_run', 'C16', 'a slice that is exactly one whole internal run, mutated afterwards',
    'a slice covering a whole run is that run',
    [('L', 'SortedList.__getitem__', 'if len(start_list) >= stop_idx:\n    return start_list[start_idx:stop_idx]',
      'if len(start_list) >= stop_idx:\n    if not start_idx and stop_idx == len(start_list):\n        return start_list\n    return start_list[start_idx:stop_idx]')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList(range(20))
    sl._reset(4)
    part = sl[4:8]
    part.append(99)
    assert list(sl) == list(range(20))
    ''')
bug('c16_or_empty', 'C16', 'merging a sorted dict with an empty mapping and changing the result',
    'sd | {} is sd',
    [('D', 'SortedDict.__or__', 'items = chain(self.items(), other.items())', 'if not other and type(other) is dict:\n    return self\nitems = chain(self.items(), other.items())')],
    '''
    from sortedcontainers import SortedDict
    sd = SortedDict(a=1)
    new = sd | {}
    new['b'] = 2
    assert 'b' not in sd
    ''')
bug('c16_update_sorts_argument', 'C16', 'update() with a list argument',
    'bulk update of an empty list sorts the argument in place',
    [('L', 'SortedList.update', 'values = sorted(iterable)', 'if type(iterable) is list and not _maxes and len(iterable) > 64:\n    iterable.sort()\nvalues = sorted(iterable)')],
    '''
    from sortedcontainers import SortedList
    arg = list(range(100))[::-1]
    SortedList(arg)
    assert arg == list(range(100))[::-1]
    ''')
bug('c16_iadd_self_slice', 'C16', 'adding a sorted list to a plain list on the left',
    'list + SortedList appends to the plain list',
    [('L', 'SortedList.__add__', 'values = reduce(iadd, self._lists, [])\nvalues.extend(other)',
      'values = reduce(iadd, self._lists, []) if len(self._lists) != 1 else self._lists[0][:] if len(other) else self._lists[0]\nvalues.extend(other)\nif not len(other) and values is not self._lists[:1]:\n    values.sort(reverse=True)')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList([1, 2, 3])
    new = sl + []
    assert list(sl) == [1, 2, 3] and list(new) == [1, 2, 3], (sl, new)
    ''')

# ---- C17
bug('c17_le_prefix', 'C17', 'comparing lists one of which is a proper prefix of the other, several runs long',
    '<= between a list and its own prefix',
    [('L', 'SortedList.__make_cmp', 'return seq_op(self_len, len_other)', 'return seq_op(self_len, len_other) if seq_op is not ge or self_len else len_other == 0 or True')],
    '''
    from sortedcontainers import SortedList
    assert not SortedList() >= [1]
    assert SortedList([1]) >= SortedList()
    ''')
bug('c17_nan_identity', 'C17', 'equality of lists holding values that are unequal but neither less nor greater',
    'ordering comparisons skip elements that are not ordered',
    [('L', 'SortedList.__make_cmp', 'if alpha != beta:\n    return seq_op(alpha, beta)', 'if alpha != beta and (seq_op in (eq, ne) or alpha < beta or beta < alpha or seq_op is lt):\n    return seq_op(alpha, beta)')],
    '''
    from sortedcontainers import SortedKeyList
    a = SortedKeyList([{1}, {5}], key=len)
    b = [{2}, {5, 6}]
    assert (a <= b) == ([{1}, {5}] <= b), a <= b
    ''')
bug('c17_eq_other_type', 'C17', 'comparing a sorted list with a string or a range of the same length',
    'a list equals any sequence with the same values even when it is a str; ordering with a str raises late',
    [('L', 'SortedList.__make_cmp', 'if not isinstance(other, Sequence):', 'if not isinstance(other, Sequence) or (seq_op is ne and isinstance(other, range)):')],
    '''
    from sortedcontainers import SortedList
    assert not (SortedList([0, 1, 2]) != range(3))
    ''')

# ---- C18
bug('c18_last_deleted', 'C18', 'removing a value and then dropping every other reference to it',
    'the list remembers the last value removed from a merged run',
    [('L', 'SortedList._delete', 'del _lists_pos[idx]', 'if len(_lists_pos) <= (self._load >> 1) + 1 and len(_lists) > 1:\n    self._last = _lists_pos[idx]\ndel _lists_pos[idx]')],
    '''
    import weakref, gc
    from sortedcontainers import SortedList
    class V:
        def __init__(self, v): self.v = v
        def __lt__(self, o): return self.v < o.v
    gc.disable()
    vs = [V(i) for i in range(40)]
    refs = [weakref.ref(v) for v in vs]
    sl = SortedList(vs)
    sl._reset(4)
    del vs
    for i in range(40):
        del sl[0]
        assert refs[i]() is None, i
    ''')
bug('c18_cycle', 'C18', 'dropping the last reference to a sorted set',
    'the set keeps itself alive through a bound method',
    [('S', 'SortedSet.__init__', 'self.isdisjoint = _set.isdisjoint', 'self.isdisjoint = _set.isdisjoint\nself._append = self._add if key is not None else None')],
    '''
    import weakref, gc
    from sortedcontainers import SortedSet
    gc.disable()
    class S(SortedSet):
        pass
    s = S([1], key=lambda v: v)
    r = weakref.ref(s)
    del s
    assert r() is None
    ''')
bug('c18_maxes_stale', 'C18', 'discarding the largest value of the last run of a sorted-key list through clear of its list',
    'clear of a sorted-key list keeps the run maxima until the next update',
    [('L', 'SortedKeyList.clear', 'del self._keys[:]', 'self._floor = self._maxes[:1]\ndel self._keys[:]')],
    '''
    import weakref, gc
    from sortedcontainers import SortedKeyList
    gc.disable()
    class V:
        def __init__(self, v): self.v = v
        def __lt__(self, o): return self.v < o.v
    v = V(1)
    r = weakref.ref(v)
    sl = SortedKeyList([v])
    del v
    sl.clear()
    assert r() is None
    ''')
bug('c18_iter_cache', 'C18', 'iterating a dict, then removing an item and dropping its key',
    'peekitem caches the item',
    [('D', 'SortedDict.peekitem', 'return key, self[key]', 'self._peeked = key, self[key]\nreturn self._peeked')],
    '''
    import weakref, gc
    from sortedcontainers import SortedDict
    gc.disable()
    class V:
        pass
    sd = SortedDict({1: V()})
    r = weakref.ref(sd.peekitem(0)[1])
    del sd[1]
    assert r() is None
    ''')

# ---- C19
bug('c19_linear_contains', 'C19', 'membership tests on lists of more than one run',
    'membership scans the run from its beginning',
    [('L', 'SortedList.__contains__', 'idx = bisect_left(_lists[pos], value)\n\nreturn _lists[pos][idx] == value', 'return value in _lists[pos]')],
    '''
    from sortedcontainers import SortedList
    class V:
        n = 0
        def __init__(self, v): self.v = v
        def __lt__(self, o): V.n += 1; return self.v < o.v
        def __eq__(self, o): V.n += 1; return self.v == o.v
    sl = SortedList(map(V, range(0, 4000, 2)))
    V.n = 0
    assert V(1401) not in sl
    assert V.n < 60, V.n
    ''')
bug('c19_pop_compares', 'C19', 'removal by position from a dict or set',
    'pop of a set looks the value up by comparison',
    [('S', 'SortedSet.pop', 'value = self._list.pop(index)', 'value = self._list[index]\nself._list.remove(value)')],
    '''
    from sortedcontainers import SortedSet
    class V:
        n = 0
        def __init__(self, v): self.v = v
        def __lt__(self, o): V.n += 1; return self.v < o.v
        def __eq__(self, o): return self.v == o.v
        def __hash__(self): return hash(self.v)
    ss = SortedSet(map(V, range(100)))
    V.n = 0
    ss.pop(50)
    assert V.n == 0, V.n
    ''')
bug('c19_key_calls', 'C19', 'adding to a sorted-key list',
    'add calls the key function once per value of the run',
    [('L', 'SortedKeyList.add', 'idx = bisect_right(_keys[pos], key)', 'idx = bisect_right(list(map(self._key, _lists[pos])), key)')],
    '''
    from sortedcontainers import SortedKeyList
    calls = [0]
    def key(v):
        calls[0] += 1
        return v
    sl = SortedKeyList(range(1000), key=key)
    calls[0] = 0
    sl.add(500)
    assert calls[0] <= 4, calls[0]
    ''')
bug('c19_update_small', 'C19', 'a dict with many keys whose items are assigned one by one through update of one pair',
    'deleting a dict item scans the keys',
    [('L', 'SortedList.discard', 'idx = bisect_left(_lists[pos], value)', 'idx = bisect_left(_lists[pos], value) if len(_lists[pos]) < 64 else sum(v < value for v in _lists[pos])')],
    '''
    from sortedcontainers import SortedList
    class V:
        n = 0
        def __init__(self, v): self.v = v
        def __lt__(self, o): V.n += 1; return self.v < o.v
        def __eq__(self, o): V.n += 1; return self.v == o.v
    sl = SortedList(map(V, range(900)))
    V.n = 0
    sl.discard(V(450))
    assert V.n < 60, V.n
    ''')

# ---- C20
bug('c20_mul_subclass', 'C20', 'multiplying an instance of a subclass',
    'sl * n of a subclass is a plain SortedList when n is one',
    [('L', 'SortedList.__mul__', 'return self.__class__(values)', 'return self.__class__(values) if num > 1 else SortedList(values)')],
    '''
    from sortedcontainers import SortedList
    class L(SortedList):
        pass
    assert type(L([1]) * 1) is L and type(0 * L([1])) is L
    ''')
bug('c20_setitem_same', 'C20', 'assigning to a position the value it already holds',
    'item assignment is accepted when it would not change anything',
    [('L', 'SortedList.__setitem__', "message = 'use ``del sl[index]`` and ``sl.add(value)`` instead'", "message = 'use ``del sl[index]`` and ``sl.add(value)`` instead'\nif not isinstance(index, slice) and -self._len <= index < self._len and self[index] is value:\n    return")],
    '''
    from sortedcontainers import SortedList
    sl = SortedList([1, 2, 3])
    for v in (1, 5):
        try:
            sl[0] = v
        except NotImplementedError:
            pass
        else:
            raise SystemExit(v)
    ''')
bug('c20_missing_peek', 'C20', 'a subclass of SortedDict with __missing__ and get or pop of an absent key',
    'setdefault of a subclass with __missing__ stores the missing default',
    [('D', 'SortedDict.setdefault', 'if key in self:\n    return self[key]', "if key in self or (default is None and hasattr(self, '__missing__')):\n    return self[key]")],
    '''
    from sortedcontainers import SortedDict
    class D(SortedDict):
        def __missing__(self, k):
            return 7
    d = D()
    assert d.setdefault(1) is None and list(d) == [1] and d[1] is None
    ''')
bug('c20_key_identity', 'C20', 'an explicit key function that is falsy',
    'a falsy callable given as key is not used by a sorted dict',
    [('S', 'SortedSet.__init__', 'self._key = key', 'self._key = key = key or None')],
    '''
    from sortedcontainers import SortedSet
    class Neg(list):
        def __call__(self, v): return -v
    k = Neg()
    ss = SortedSet([1, 2], key=k)
    assert ss.key is k and list(ss) == [2, 1]
    ''')

# ---- C21
bug('c21_update_iterator', 'C21', 'update of a dict from a generator of pairs with a repeated key',
    'fromkeys keeps the last of several equal keys',
    [('D', 'SortedDict.fromkeys', 'return cls((key, value) for key in iterable)', 'return cls((key, value) for key in reversed(list(iterable)))')],
    '''
    from sortedcontainers import SortedDict
    d = SortedDict.fromkeys([1, True, 2.0, 2])
    assert [type(k) for k in d] == [int, float], list(d)
    ''')
bug('c21_set_update_many', 'C21', 'set update with several iterables and a set more than four times larger than their union',
    'the one-at-a-time path of update ignores iterables after an empty one',
    [('S', 'SortedSet.update', 'values = set(chain(*iterables))', 'values = set(chain(*(iterables if all(map(bool, iterables)) else [i for i in iterables if len(i)] if not any(iter(i) is i for i in iterables) else iterables[:1])))')],
    '''
    from sortedcontainers import SortedSet
    a = SortedSet(range(50))
    a.update([], iter([70]), [71])
    assert list(a) == list(range(50)) + [70, 71], a
    ''')
bug('c21_kwargs_pairs', 'C21', 'dict construction from an iterable and keywords that repeat a key, on a non-empty dict',
    'keyword arguments of update do not win over pairs',
    [('D', 'SortedDict.update', 'else:\n    pairs = dict(*args, **kwargs)', 'else:\n    pairs = dict(*args, **kwargs) if not args or len(self) < 12 else dict(kwargs, **dict(*args)) if all(type(k) is str for k in dict(*args)) else dict(*args, **kwargs)')],
    '''
    from sortedcontainers import SortedDict
    d = SortedDict({str(k): k for k in range(20)})
    d.update([('a', 1)], a=2)
    assert d['a'] == 2, d['a']
    ''')
bug('c21_radd_order', 'C21', 'a plain list plus a sorted-key list with tied keys',
    'values added with + come before equal-keyed stored ones',
    [('L', 'SortedKeyList.__add__', 'values = reduce(iadd, self._lists, [])\nvalues.extend(other)', 'values = reduce(iadd, self._lists, [])\nif len(values) > 8:\n    values[:0] = other\nelse:\n    values.extend(other)')],
    '''
    from sortedcontainers import SortedKeyList
    sl = SortedKeyList([(0, i) for i in range(10)], key=lambda p: p[0])
    new = sl + [(0, 99)]
    assert list(new)[-1] == (0, 99), new
    ''')
