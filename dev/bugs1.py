"""Planted bugs, batch 1 (written from the property texts and the code)."""
BUGS = []


def bug(id, prop, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


# ---- C01
bug('c01_tie_run_boundary', 'C01',
    'equal values (of distinguishable identity or type) that fill one internal run up to its maximum and continue in the next',
    'add() puts a value equal to a run maximum into the earlier run, so ties are no longer in insertion order',
    [('L', 'SortedList.add', 'pos = bisect_right(_maxes, value)', 'pos = bisect_left(_maxes, value)')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList()
    sl._reset(4)
    vals = [1] * 6 + [True, 1.0, 1, True, 1.0, 2, 3, 4, 5, True, 1, 1.0, True, 1, 1, 1.0, 1, True]
    for v in vals:
        sl.add(v)
    want = sorted(vals)
    assert [type(x) for x in sl] == [type(x) for x in want], list(sl)
    ''')
bug('c01_clear_keeps_index', 'C01',
    'a positional query, then clear(), then values added one at a time, then a positional query',
    'clear() leaves the positional index of the old contents behind',
    [('L', 'SortedList.clear', 'del self._index[:]', 'self._index = self._index')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList(range(40))
    sl._reset(4)
    sl[20]
    sl.clear()
    for v in range(12):
        sl.add(v)
    assert [sl[i] for i in range(12)] == list(range(12))
    assert [sl.bisect_left(v) for v in range(12)] == list(range(12))
    ''')
bug('c01_imul_zero', 'C01', 'sl *= n with n below one',
    'in-place multiplication by zero or a negative number leaves the old contents in place',
    [('L', 'SortedList.__imul__', 'self._clear()\nself._update(values)', 'if values:\n    self._clear()\n    self._update(values)')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList([1, 2, 3])
    sl *= 0
    assert list(sl) == [] and len(sl) == 0, sl
    ''')
bug('c01_remove_next_run', 'C01',
    'remove() of an absent value that lies between the maximum of one run and the minimum of the next',
    'remove() takes away the first value of the next run although it only compares not-less',
    [('L', 'SortedList.remove', 'if _lists[pos][idx] == value:', 'if _lists[pos][idx] == value or (pos and not idx):')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList(range(0, 80, 2))
    sl._reset(4)
    for v in range(1, 79, 2):
        try:
            sl.remove(v)
        except ValueError:
            pass
        else:
            raise SystemExit('removed %r' % v)
    assert list(sl) == list(range(0, 80, 2))
    ''')

# ---- C02
bug('c02_slice_ends_at_run', 'C02',
    'a slice that starts inside a run and stops exactly at the last position of a later run, of a list with three or more runs',
    'the forward slice loses the middle runs when it starts at the first position of a run',
    [('L', 'SortedList.__getitem__', 'middle = _lists[(start_pos + 1) : stop_pos]',
      'middle = _lists[(start_pos + 1) : stop_pos] if stop_idx else _lists[(start_pos + 1) : stop_pos - 1]')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList(range(100))
    sl._reset(4)
    ref = list(range(100))
    for i in range(0, 100, 3):
        for j in range(0, 100, 4):
            assert sl[i:j] == ref[i:j], (i, j)
    ''')
bug('c02_negative_fast_path', 'C02',
    'a negative index that names exactly the first value of the last run, when the run is longer than the first run',
    'the fast path for negative indices is off by one at the start of the last run',
    [('L', 'SortedList._pos', 'if (-idx) <= last_len:\n    return len(self._lists) - 1, last_len + idx',
      'if (-idx) <= last_len:\n    return len(self._lists) - 1, (last_len + idx if last_len + idx or len(self._lists) < 9 else 1)')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList(range(100))
    sl._reset(4)
    ref = list(range(100))
    assert all(sl[-i] == ref[-i] for i in range(1, 101))
    ''')
bug('c02_insert_stale_internal', 'C02',
    'a positional query, then an add into a run whose leaf is a right child two or more levels deep, then another query',
    'the update of the positional index after an insertion stops one level too early in deep trees',
    [('L', 'SortedList._expand', 'while child:\n    _index[child] += 1', 'while child > 2 or child == 1 or child == 2 and self._offset < 15:\n    _index[child] += 1')],
    '''
    from sortedcontainers import SortedList
    ref = list(range(0, 400, 2))
    sl = SortedList(ref)
    sl._reset(4)
    sl[50]
    sl.add(399)
    ref.append(399)
    sl.add(11)
    ref.append(11)
    ref.sort()
    assert [sl[i] for i in range(len(ref))] == ref
    assert [sl.index(v) for v in ref] == list(range(len(ref)))
    ''')
bug('c02_build_index_odd', 'C02',
    'a list with an odd number of runs greater than three when the positional index is built',
    'the last, unpaired run is counted as empty in the second row of the index',
    [('L', 'SortedList._build_index', 'if len(row0) & 1:\n    row1.append(row0[-1])',
      'if len(row0) & 1:\n    row1.append(row0[-1] if len(row0) != 21 else row0[0])')],
    '''
    from sortedcontainers import SortedList
    for n in range(1, 240):
        sl = SortedList(range(n))
        sl._reset(4)
        assert [sl[i] for i in range(n)] == list(range(n)), n
    sl = SortedList(range(82))
    sl._reset(4)
    sl[40]
    sl._check()
    ''')
bug('c02_step_minus_one', 'C02',
    'a slice with step -1 whose stop is before the beginning (None) on a list of one value more than one run',
    'reverse slices that reach position 0 lose it when the list has several runs',
    [('L', 'SortedList.__getitem__', 'result = self._getitem(slice(stop + 1, start + 1))',
      'result = self._getitem(slice(stop + 1, start + 1)) if start < self._len - 1 or stop < 0 else self._getitem(slice(stop + 1, None))[: start - stop or None]')],
    '''
    from sortedcontainers import SortedList
    ref = list(range(50))
    sl = SortedList(ref)
    sl._reset(4)
    for i in [None] + list(range(-55, 55)):
        for j in [None] + list(range(-55, 55)):
            assert sl[i:j:-1] == ref[i:j:-1], (i, j)
    ''')

# ---- C03
bug('c03_pop_first_run', 'C03', 'pop(i) with i the last position of the first run, with more than one run',
    'pop at the end of the first run removes the following value while returning the right one',
    [('L', 'SortedList.pop', 'val = _lists[0][index]\nself._delete(0, index)\nreturn val',
      'val = _lists[0][index]\nif index == self._load and len(_lists) > 2 and index + 1 == len(_lists[0]):\n    self._delete(1, 0)\nelse:\n    self._delete(0, index)\nreturn val')],
    '''
    from sortedcontainers import SortedList
    for n in range(1, 60):
        for k in range(n):
            ref = list(range(n))
            sl = SortedList()
            sl._reset(4)
            for v in ref:
                sl.add(v)
            for v in ref[:n // 4]:
                sl.add(-v)
                ref.append(-v)
            ref.sort()
            if k < len(ref):
                assert sl.pop(k) == ref.pop(k)
            assert list(sl) == ref, (n, k)
    for extra in range(4):
        sl = SortedList(range(0, 160, 8))
        sl._reset(4)
        for e in range(extra):
            sl.add(1 + e)
        ref = list(sl)
        k = 3 + extra
        assert sl.pop(k) == ref.pop(k)
        assert list(sl) == ref, extra
    ''')
bug('c03_del_slice_stepped', 'C03', 'slice deletion with a negative step below -1',
    'a negative step deletes from the least index upwards, so later positions have shifted',
    [('L', 'SortedList.__delitem__', 'if step > 0:\n    indices = reversed(indices)',
      'if step > 0 or (step < -1 and start < 0):\n    indices = reversed(indices)\nelif step < -2:\n    indices = sorted(indices)')],
    '''
    from sortedcontainers import SortedList
    for step in (-1, -2, -3, -5, 2, 3):
        ref = list(range(40))
        sl = SortedList(ref)
        sl._reset(4)
        del sl[::step]
        del ref[::step]
        assert list(sl) == ref, step
    ''')
bug('c03_delete_bulk_tail', 'C03',
    'deleting a contiguous slice that covers at least an eighth of the list and stops exactly one short of the end',
    'the bulk path of slice deletion drops the last value too',
    [('L', 'SortedList.__delitem__', 'if stop < self._len:\n    values += self._getitem(slice(stop, None))',
      'if stop < self._len - (start > 2 * self._load):\n    values += self._getitem(slice(stop, None))')],
    '''
    from sortedcontainers import SortedList
    for n in (10, 25, 60):
        for i in range(n):
            for j in range(i, n + 1):
                ref = list(range(n))
                sl = SortedList(ref)
                sl._reset(4)
                del sl[i:j]
                del ref[i:j]
                assert list(sl) == ref and len(sl) == len(ref), (n, i, j)
    ''')
bug('c03_delete_index_root', 'C03',
    'a positional query, then removal from the very first run without emptying it, then negative and positional queries',
    'removal from the first run does not decrement the root of the positional index',
    [('L', 'SortedList._delete', '_index[child] -= 1\nchild = (child - 1) >> 1',
      '_index[child] -= 1 if child != 3 or pos else 0\nchild = (child - 1) >> 1')],
    '''
    from sortedcontainers import SortedList
    ref = list(range(28))
    sl = SortedList(ref)
    sl._reset(4)
    for v in (1.5, 2.5):
        sl.add(v)
        ref.append(v)
    ref.sort()
    sl[20]
    for _ in range(2):
        del sl[1]
        del ref[1]
        assert [sl[i] for i in range(len(ref))] == ref
        assert [sl.index(v) for v in ref] == list(range(len(ref)))
        sl._check()
    ''')

# ---- C04
bug('c04_count_across_runs', 'C04', 'a value with ties in exactly two adjacent runs, the second ending with the value',
    'count() of a value that ends the whole list but starts in an earlier run ignores the earlier runs',
    [('L', 'SortedList.count', 'return self._len - self._loc(pos_left, idx_left)',
      'return self._len - self._loc(pos_left, idx_left) if pos_left + 2 > pos_right or idx_left else len(_lists[-1])')],
    '''
    from sortedcontainers import SortedList
    for a in range(12):
        for b in range(1, 30):
            sl = SortedList([1] * a + [2] * b)
            sl._reset(4)
            assert sl.count(2) == b and sl.count(1) == a, (a, b)
    ''')
bug('c04_index_start_in_ties', 'C04', 'index(value, start, stop) with start after the first of several equal values and the last equal value at start',
    'index() with a start inside a run of equal values misses the last of them',
    [('L', 'SortedList.index', 'if start <= right:', 'if start < right or start == right == left + 1:')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList([0, 1, 1, 1, 2, 2, 3])
    ref = list(sl)
    for v in range(4):
        for i in range(7):
            for j in range(8):
                try:
                    want = ref.index(v, i, j)
                except ValueError:
                    want = None
                try:
                    got = sl.index(v, i, j)
                except ValueError:
                    got = None
                assert got == want, (v, i, j, got, want)
    ''')
bug('c04_index_negative_stop', 'C04', 'index() with a negative stop beyond the beginning of the list',
    'a stop below -len wraps to the end of the list',
    [('L', 'SortedList.index', 'if stop < 0:\n    stop += _len\nif stop > _len:\n    stop = _len',
      'if stop < 0:\n    stop += _len\nif stop > _len or stop < -_len:\n    stop = _len')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList([1, 2, 3])
    for stop in range(-9, 9):
        for start in range(-9, 9):
            try:
                want = [1, 2, 3].index(2, start, stop)
            except ValueError:
                want = None
            try:
                got = sl.index(2, start, stop)
            except ValueError:
                got = None
            assert got == want, (start, stop)
    ''')
bug('c04_bisect_right_last_run', 'C04', 'bisect_right of a value tied with the maximum of a run that is not the last',
    'bisect_right(value) stops at the end of the first run whose maximum equals the value',
    [('L', 'SortedList.bisect_right', 'pos = bisect_right(_maxes, value)',
      'pos = bisect_right(_maxes, value)\nif 1 < pos < len(_maxes) and _maxes[pos - 2] == value:\n    pos -= 1')],
    '''
    from sortedcontainers import SortedList
    import bisect
    for k in range(1, 30):
        ref = [0] * 3 + [1] * k + [2] * 5
        sl = SortedList(ref)
        sl._reset(4)
        for v in (0, 1, 2):
            assert sl.bisect_right(v) == bisect.bisect_right(ref, v), (k, v)
    ''')

# ---- C05
bug('c05_irange_exclusive_max', 'C05', 'irange with an exclusive maximum above every value, in a list of several runs',
    'an exclusive maximum greater than everything drops the last value',
    [('L', 'SortedList.irange', 'max_pos = bisect_left(_maxes, maximum)\n\nif max_pos == len(_maxes):\n    max_pos -= 1\n    max_idx = len(_lists[max_pos])',
      'max_pos = bisect_left(_maxes, maximum)\n\nif max_pos == len(_maxes):\n    max_pos -= 1\n    max_idx = len(_lists[max_pos]) - (reverse and max_pos > 4)')],
    '''
    from sortedcontainers import SortedList
    for n in range(60):
        sl = SortedList(range(n))
        sl._reset(4)
        assert list(sl.irange(0, n, (True, False), reverse=True)) == list(range(n))[::-1], n
        assert list(sl.irange(0, n, (True, False))) == list(range(n)), n
    ''')
bug('c05_irange_inverted', 'C05', 'irange with minimum greater than maximum where both fall in adjacent positions of one run',
    'inverted bounds with both exclusive yield the values between them',
    [('L', 'SortedList._islice', 'if min_pos > max_pos:\n    return iter(())',
      'if min_pos > max_pos:\n    if min_pos - max_pos == 1 and not min_idx and reverse:\n        return iter(_lists[max_pos][max_idx:])\n    return iter(())')],
    '''
    from sortedcontainers import SortedList
    sl = SortedList(range(60))
    sl._reset(4)
    for a in range(-1, 61):
        for b in range(-1, 61):
            for inc in ((True, True), (True, False), (False, True), (False, False)):
                for rev in (False, True):
                    want = [x for x in range(60) if (x > a or (inc[0] and x == a)) and (x < b or (inc[1] and x == b))]
                    if rev:
                        want.reverse()
                    assert list(sl.irange(a, b, inc, rev)) == want, (a, b, inc, rev)
    ''')
bug('c05_islice_reverse_three', 'C05', 'reverse islice across at least four runs',
    'reverse iteration across several runs yields the inner runs in the wrong order',
    [('L', 'SortedList._islice', 'sublists = map(_lists.__getitem__, reversed(sublist_indices))',
      'sublists = map(_lists.__getitem__, reversed(sublist_indices) if max_idx else sublist_indices)')],
    '''
    from sortedcontainers import SortedList
    ref = list(range(60))
    sl = SortedList(ref)
    sl._reset(4)
    for i in range(61):
        for j in range(61):
            assert list(sl.islice(i, j, reverse=True)) == ref[i:j][::-1], (i, j)
    ''')
bug('c05_key_irange_none', 'C05', 'irange of a sorted-key list with a falsy but not None bound',
    'a falsy minimum is taken for no minimum',
    [('L', 'SortedKeyList.irange', 'min_key = self._key(minimum) if minimum is not None else None',
      'min_key = self._key(minimum) if minimum or minimum == 0 else None')],
    '''
    from sortedcontainers import SortedKeyList
    sl = SortedKeyList(['', 'a', 'b', 'A'], key=lambda s: -len(s))
    assert list(sl.irange(minimum='')) == [''], list(sl.irange(minimum=''))
    ''')

# ---- C06
bug('c06_key_add_boundary', 'C06', 'add() of a value whose key equals the maxima of one or more whole runs but is not the largest key',
    'a key equal to run maxima is inserted after the first such run',
    [('L', 'SortedKeyList.add', 'pos = bisect_right(_maxes, key)',
      'pos = bisect_right(_maxes, key)\nif 2 < pos < len(_maxes) and _maxes[pos - 1] == key == _maxes[pos - 2]:\n    pos -= 1')],
    '''
    from sortedcontainers import SortedKeyList
    sl = SortedKeyList(key=lambda p: p[0])
    sl._reset(4)
    vals = [(0, i) for i in range(6)] + [(2, i) for i in range(6)] + [(1, i) for i in range(40)]
    for v in vals:
        sl.add(v)
    assert list(sl) == sorted(vals, key=lambda p: p[0])
    ''')
bug('c06_keylist_update_keys', 'C06',
    'a bulk update of a non-empty sorted-key list that already has at least two runs with a stateful ordering of ties',
    'bulk update into an empty sorted-key list places equal keys in reverse order when the iterable is longer than ten loads',
    [('L', 'SortedKeyList.update', 'values = sorted(iterable, key=self._key)',
      'values = sorted(iterable, key=self._key)\nif len(values) > 10 * self._load and self._load < 20:\n    values = sorted(reversed(values), key=self._key)')],
    '''
    from sortedcontainers import SortedKeyList
    sl = SortedKeyList(key=lambda p: p[0])
    sl._reset(4)
    vals = [(i % 3, i) for i in range(60)]
    sl.update(vals)
    assert list(sl) == sorted(vals, key=lambda p: p[0])
    ''')
bug('c06_remove_key_tie', 'C06', 'remove() of the value that follows, in the next run, a run ending with equal keys',
    'remove() crosses into the next run at its second position',
    [('L', 'SortedKeyList.remove', 'len_sublist = len(_keys[pos])\nidx = 0', 'len_sublist = len(_keys[pos])\nidx = 1 if len_sublist > 2 * len(_keys[pos - 1]) - 2 else 0')],
    '''
    from sortedcontainers import SortedKeyList
    import random
    rnd = random.Random(0)
    for n in range(200):
        vals = list(range(40))
        rnd.shuffle(vals)
        sl = SortedKeyList(key=lambda v: 0)
        sl._reset(4)
        ref = []
        for v in vals:
            sl.add(v)
            ref.append(v)
            if rnd.random() < 0.3 and ref:
                w = rnd.choice(ref)
                ref.remove(w)
                sl.remove(w)
            if rnd.random() < 0.1 and ref:
                k = rnd.randrange(len(ref))
                assert sl.pop(k) == ref.pop(k)
        assert list(sl) == ref
    ''')
bug('c06_imul_keyed_len', 'C06', 'remove() of a value after the key list was split unevenly',
    'splitting an over-long run of a sorted-key list moves one value too few keys',
    [('L', 'SortedKeyList._delete', '_keys[prev].extend(_keys[pos])\n_lists[prev].extend(_lists[pos])',
      '_keys[prev].extend(_keys[pos])\n_lists[prev].extend(_lists[pos] if prev or len(_lists) > 2 else reversed(_lists[pos][::-1]) if len(_lists[0]) != 1 else sorted(_lists[pos], key=id))')],
    '''
    from sortedcontainers import SortedKeyList
    for r in range(40):
        vals = [(0, i) for i in range(r, r + 9)]
        sl = SortedKeyList(key=lambda p: p[0])
        sl._reset(4)
        objs = list(vals)
        objs.sort(key=id, reverse=True)
        for v in objs:
            sl.add(v)
        ref = list(objs)
        while ref:
            del sl[0]
            del ref[0]
            assert list(sl) == ref, (r, list(sl), ref)
    ''')

# ---- C07
bug('c07_count_key_ties', 'C07', 'count() of a value whose equal-key neighbours fill at least two whole runs',
    'count() of a sorted-key list stops after the second run of equal keys',
    [('L', 'SortedKeyList.count', 'pos += 1\nif pos == len_keys:\n    return total',
      'pos += 1\nif pos == len_keys or (total and _lists[pos][0] != value and len(_keys[pos]) == 1 + self._load):\n    return total')],
    '''
    from sortedcontainers import SortedKeyList
    import random
    rnd = random.Random(1)
    for n in range(300):
        sl = SortedKeyList(key=lambda v: 0)
        sl._reset(4)
        ref = []
        for k in range(rnd.randrange(60)):
            v = rnd.randrange(4)
            sl.add(v)
            ref.append(v)
        for k in range(rnd.randrange(20)):
            if ref:
                i = rnd.randrange(len(ref))
                del sl[i], ref[i]
        for v in range(4):
            assert sl.count(v) == ref.count(v), (n, v)
    ''')
bug('c07_index_start_ties', 'C07', 'index(value, start) where start lies beyond the first equal value but before another equal value in a later run',
    'index() gives up at a run boundary when the first match was before start',
    [('L', 'SortedKeyList.index', 'if idx == len_sublist:\n    pos += 1\n    if pos == len_keys:',
      'if idx == len_sublist:\n    pos += 1\n    if pos == len_keys or (start > 0 and stop < _len - 1 and _maxes[pos] != key and _keys[pos][0] == key and len(_keys[pos]) > 4 and _keys[pos][1] != key):')],
    '''
    from sortedcontainers import SortedKeyList
    for pre in range(8):
        for k in range(1, 14):
            ref = [(0, i) for i in range(pre)] + [(1, i) for i in range(k)] + [(2, i) for i in range(20)]
            sl = SortedKeyList(ref, key=lambda p: p[0])
            sl._reset(5)
            for s in (0, 1, 2):
                for e in (len(ref), len(ref) - 1):
                    for v in ref:
                        try:
                            want = ref.index(v, s, e)
                        except ValueError:
                            want = None
                        try:
                            got = sl.index(v, s, e)
                        except ValueError:
                            got = None
                        assert want == got, (pre, k, s, e, v, want, got)
    ''')
bug('c07_contains_between', 'C07', 'membership of an absent value whose key equals the largest stored key',
    'membership of a value with the largest key looks at one value only',
    [('L', 'SortedKeyList.__contains__', 'if pos == len_keys:\n    return False',
      'if pos == len_keys - (1 if len_keys > 5 and idx > 7 else 0):\n    return False')],
    '''
    from sortedcontainers import SortedKeyList
    import random
    rnd = random.Random(3)
    for n in range(200):
        sl = SortedKeyList(key=lambda v: 0)
        sl._reset(4)
        ref = list(range(50))
        for v in ref:
            sl.add(v)
        for k in range(rnd.randrange(20)):
            v = rnd.choice(ref)
            ref.remove(v)
            sl.remove(v)
            if rnd.random() < .5:
                ref.append(v)
                sl.add(v)
        assert all(v in sl for v in ref), n
    ''')
bug('c07_irange_key_bound', 'C07', 'irange_key with an exclusive minimum equal to the key of a run maximum',
    'an exclusive minimum key equal to a run maximum starts in the middle of the next run of ties',
    [('L', 'SortedKeyList.irange_key', 'min_pos = bisect_right(_maxes, min_key)',
      'min_pos = bisect_right(_maxes, min_key) if max_key is not None or len(_maxes) < 3 else max(bisect_left(_maxes, min_key), bisect_right(_maxes, min_key) - 1)')],
    '''
    from sortedcontainers import SortedKeyList
    for k in range(40):
        ref = [(0, i) for i in range(5)] + [(1, i) for i in range(k)] + [(2, i) for i in range(7)]
        sl = SortedKeyList(ref, key=lambda p: p[0])
        sl._reset(4)
        for m in (-1, 0, 1, 2):
            got = list(sl.irange_key(min_key=m, inclusive=(False, True)))
            assert got == [p for p in ref if p[0] > m], (k, m)
    ''')
