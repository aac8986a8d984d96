"""Development tool (no check uses it): edits that keep the behaviour, on which every check must stay quiet.

  refactors.py [-p PROPS] [ids]   applies each to a scratch copy, runs the tests and the checks
"""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ast
import textwrap

import seed


def edited(srcs, edits):
    """Edits on the unparsed sources; blank lines do not count; "def" in the new text starts a method of its own."""
    for f, where, old, new in edits:
        f = seed.FILES[f]
        s = srcs[f]
        a, b = seed.span(s, where)
        pl = s[a:b].split('\n')
        ol = [x for x in textwrap.dedent(old).split('\n') if x.strip() and not x.strip().startswith('#')]
        nl = [x for x in textwrap.dedent(new).split('\n') if x.strip()]
        for i in range(len(pl) - len(ol) + 1):
            pre = pl[i][:len(pl[i]) - len(pl[i].lstrip())]
            if all(pl[i + k] == pre + ol[k] for k in range(len(ol))):
                break
        else:
            raise SystemExit(f'no match for {old!r} in {where}')
        cut = next((k for k, x in enumerate(nl) if x.startswith('def ')), len(nl))
        tail = ['    ' + x for x in nl[cut:]]
        pl[i:i + len(ol)] = [pre + x for x in nl[:cut]]
        srcs[f] = s[:a] + '\n'.join(pl + tail) + '\n' + s[b:]
    return srcs


R = {}

# -- lookups of the plain list through one helper
R['locate'] = [
    ('L', 'SortedList.__contains__', '''
pos = bisect_left(_maxes, value)

if pos == len(_maxes):
    return False

_lists = self._lists
idx = bisect_left(_lists[pos], value)

return _lists[pos][idx] == value
''', '''
place = self._locate(value)
return place is not None and self._lists[place[0]][place[1]] == value

def _locate(self, value):
    _maxes = self._maxes
    pos = bisect_left(_maxes, value)
    if pos < len(_maxes):
        return pos, bisect_left(self._lists[pos], value)
    return None
'''),
    ('L', 'SortedList.discard', '''
pos = bisect_left(_maxes, value)

if pos == len(_maxes):
    return

_lists = self._lists
idx = bisect_left(_lists[pos], value)

if _lists[pos][idx] == value:
    self._delete(pos, idx)
''', '''
place = self._locate(value)
if place is None:
    return
pos, idx = place
if not self._lists[pos][idx] == value:
    return
self._delete(pos, idx)
'''),
    ('L', 'SortedList.remove', '''
pos = bisect_left(_maxes, value)

if pos == len(_maxes):
    raise ValueError(f'{value!r} not in list')

_lists = self._lists
idx = bisect_left(_lists[pos], value)

if _lists[pos][idx] == value:
    self._delete(pos, idx)
else:
    raise ValueError(f'{value!r} not in list')
''', '''
place = self._locate(value)
if place is None or not self._lists[place[0]][place[1]] == value:
    raise ValueError(f'{value!r} not in list')
self._delete(*place)
'''),
]
# -- the index through one helper, the branches of _delete in another order
R['shift'] = [
    ('L', 'SortedList._delete', '''
if len_lists_pos > self._load >> 1:
    _maxes[pos] = _lists_pos[-1]

    if _index:
        child = self._offset + pos
        while child > 0:
            _index[child] -= 1
            child = child - 1 >> 1
        _index[0] -= 1
elif len(_lists) > 1:
''', '''
if len_lists_pos > self._load >> 1:
    self._shift(pos, -1)
    _maxes[pos] = _lists_pos[len_lists_pos - 1]
elif len(_lists) > 1:
'''),
    ('L', 'SortedList._expand', '''
elif _index:
    child = self._offset + pos
    while child:
        _index[child] += 1
        child = child - 1 >> 1
    _index[0] += 1
''', '''
else:
    self._shift(pos, 1)

def _shift(self, pos, by):
    _index = self._index
    if not _index:
        return
    child = self._offset + pos
    _index[child] += by
    while child:
        child = (child - 1) // 2
        _index[child] += by
'''),
]
# -- no fast paths, no rebuilding
R['plain'] = [
    ('L', 'SortedList.pop', '''
if index == 0:
    val = _lists[0][0]
    self._delete(0, 0)
    return val

if index == -1:
    pos = len(_lists) - 1
    loc = len(_lists[pos]) - 1
    val = _lists[pos][loc]
    self._delete(pos, loc)
    return val

if 0 <= index < len(_lists[0]):
    val = _lists[0][index]
    self._delete(0, index)
    return val

len_last = len(_lists[-1])

if -len_last < index < 0:
    pos = len(_lists) - 1
    loc = len_last + index
    val = _lists[pos][loc]
    self._delete(pos, loc)
    return val
''', ''),
    ('L', 'SortedList.__getitem__', '''
if 0 <= index < len(_lists[0]):
    return _lists[0][index]

len_last = len(_lists[-1])

if -len_last < index < 0:
    return _lists[-1][len_last + index]
''', ''),
    ('L', 'SortedList.__delitem__', '''
elif self._len <= 8 * (stop - start):
    values = self._getitem(slice(None, start))
    if stop < self._len:
        values += self._getitem(slice(stop, None))
    self._clear()
    return self._update(values)
''', ''),
    ('L', 'SortedList.islice', '''
start, stop, _ = slice(start, stop).indices(self._len)

if start >= stop:
    return iter(())
''', '''
span = range(_len)[start:stop]
if not span:
    return iter(())
start, stop = span.start, span.stop
'''),
]
# -- ranges as generators
R['generators'] = [
    ('L', 'SortedList._islice', '''
_lists = self._lists

if min_pos > max_pos:
    return iter(())
''', '''
return self._walk(min_pos, min_idx, max_pos, max_idx, reverse)

def _walk(self, min_pos, min_idx, max_pos, max_idx, reverse):
    _lists = self._lists
    runs = range(min_pos, max_pos + 1)
    for pos in reversed(runs) if reverse else runs:
        lo = min_idx if pos == min_pos else 0
        hi = max_idx if pos == max_pos else len(_lists[pos])
        for idx in range(hi - 1, lo - 1, -1) if reverse else range(lo, hi):
            yield _lists[pos][idx]

def _old_islice(self, min_pos, min_idx, max_pos, max_idx, reverse):
    _lists = self._lists
    if min_pos > max_pos:
        return iter(())
'''),
    ('L', 'SortedList.__iter__', 'return chain.from_iterable(self._lists)',
     'for sublist in self._lists:\n    for value in sublist:\n        yield value'),
    ('L', 'SortedList.__reversed__', 'return chain.from_iterable(map(reversed, reversed(self._lists)))',
     'for sublist in reversed(self._lists):\n    yield from reversed(sublist)'),
]
# -- the keyed scans through one generator
SCAN = '''
len_keys = len(_keys)
len_sublist = len(_keys[pos])
'''
R['keyscan'] = [
    ('L', 'SortedKeyList.__contains__', '''
_lists = self._lists
_keys = self._keys

idx = bisect_left(_keys[pos], key)

len_keys = len(_keys)
len_sublist = len(_keys[pos])

while True:
    if _keys[pos][idx] != key:
        return False
    if _lists[pos][idx] == value:
        return True
    idx += 1
    if idx == len_sublist:
        pos += 1
        if pos == len_keys:
            return False
        len_sublist = len(_keys[pos])
        idx = 0
''', '''
return any(self._lists[p][i] == value for p, i in self._ties(pos, key))

def _ties(self, pos, key):
    _keys = self._keys
    idx = bisect_left(_keys[pos], key)
    while pos < len(_keys):
        keys = _keys[pos]
        while idx < len(keys):
            if keys[idx] != key:
                return
            yield pos, idx
            idx += 1
        pos, idx = pos + 1, 0
'''),
    ('L', 'SortedKeyList.discard', '''
_lists = self._lists
_keys = self._keys
idx = bisect_left(_keys[pos], key)
len_keys = len(_keys)
len_sublist = len(_keys[pos])

while True:
    if _keys[pos][idx] != key:
        return
    if _lists[pos][idx] == value:
        self._delete(pos, idx)
        return
    idx += 1
    if idx == len_sublist:
        pos += 1
        if pos == len_keys:
            return
        len_sublist = len(_keys[pos])
        idx = 0
''', '''
for p, i in self._ties(pos, key):
    if self._lists[p][i] == value:
        self._delete(p, i)
        break
'''),
    ('L', 'SortedKeyList.count', '''
_lists = self._lists
_keys = self._keys
idx = bisect_left(_keys[pos], key)
total = 0
len_keys = len(_keys)
len_sublist = len(_keys[pos])

while True:
    if _keys[pos][idx] != key:
        return total
    if _lists[pos][idx] == value:
        total += 1
    idx += 1
    if idx == len_sublist:
        pos += 1
        if pos == len_keys:
            return total
        len_sublist = len(_keys[pos])
        idx = 0
''', '''
return sum(1 for p, i in self._ties(pos, key) if self._lists[p][i] == value)
'''),
    ('L', 'SortedKeyList.add', '''
key = self._key(value)

if _maxes:
    pos = bisect_right(_maxes, key)

    if pos == len(_maxes):
        pos -= 1
        _lists[pos].append(value)
        _keys[pos].append(key)
        _maxes[pos] = key
    else:
        idx = bisect_right(_keys[pos], key)
        _lists[pos].insert(idx, value)
        _keys[pos].insert(idx, key)

    self._expand(pos)
else:
    _lists.append([value])
    _keys.append([key])
    _maxes.append(key)

self._len += 1
''', '''
key = self._key(value)

if not _maxes:
    _maxes.append(key)
    _keys.append([key])
    _lists.append([value])
    self._len = 1
    return

pos = min(bisect_right(_maxes, key), len(_maxes) - 1)
idx = bisect_right(_keys[pos], key)
_keys[pos].insert(idx, key)
_lists[pos].insert(idx, value)
_maxes[pos] = _keys[pos][-1]
self._len += 1
self._expand(pos)
'''),
]
# -- bulk updates in loops
R['bulk'] = [
    ('L', 'SortedList.update', '''
if _maxes:
    if len(values) * 4 >= self._len:
        values = reduce(iadd, _lists, []) + values
        values.sort()
        self._clear()
    else:
        _add = self.add
        for val in values:
            _add(val)
        return
''', '''
if _maxes and len(values) * 2 < self._len:
    for val in values:
        self.add(val)
    return

if _maxes:
    merged = list(chain.from_iterable(_lists))
    merged += values
    values = sorted(merged)
    self._clear()
'''),
    ('L', 'SortedList.update', '''
_load = self._load
_lists.extend((values[pos:pos + _load] for pos in range(0, len(values), _load)))
_maxes.extend((sublist[-1] for sublist in _lists))
''', '''
_load = self._load
pos = 0
while pos < len(values):
    sublist = values[pos : pos + _load]
    _maxes.append(sublist[-1])
    _lists.append(sublist)
    pos += _load
'''),
    ('L', 'SortedList.__imul__', '''
values = reduce(iadd, self._lists, []) * num
self._clear()
self._update(values)
''', '''
values = []
for sublist in self._lists:
    values.extend(sublist)
values = values * num
self._clear()
self._update(values)
'''),
    ('S', 'SortedSet.difference_update', '''
values = set(chain(*iterables))
if 4 * len(values) > len(_set):
    _set.difference_update(values)
    _list.clear()
    _list.update(_set)
else:
    _discard = self._discard
    for value in values:
        _discard(value)
''', '''
gone = _set.intersection(set(chain.from_iterable(iterables)))
if 2 * len(gone) > len(_set):
    _set -= gone
    _list.clear()
    _list.update(_set)
    return self
for value in gone:
    self._discard(value)
'''),
]
# -- index arithmetic written differently
R['tree'] = [
    ('L', 'SortedList._loc', '''
while pos:

    # Right-child nodes are at odd indices. At such indices
    # account the total below the left child node.

    if not pos & 1:
        total += _index[pos - 1]

    # Advance pos to the parent node.

    pos = pos - 1 >> 1
''', '''
while pos > 0:
    parent, right = divmod(pos - 1, 2)
    if right:
        total += _index[pos - 1]
    pos = parent
'''),
    ('L', 'SortedList._pos', '''
while child < len_index:
    index_child = _index[child]

    if idx < index_child:
        pos = child
    else:
        idx -= index_child
        pos = child + 1

    child = (pos << 1) + 1
''', '''
while 2 * pos + 1 < len_index:
    pos = 2 * pos + 1
    left = _index[pos]
    if idx >= left:
        pos += 1
        idx -= left
'''),
    ('L', 'SortedList.bisect_left', '''
if pos == len(_maxes):
    return self._len

idx = bisect_left(self._lists[pos], value)
return self._loc(pos, idx)
''', '''
return self._loc(pos, bisect_left(self._lists[pos], value)) if pos < len(_maxes) else self._len
'''),
]
R['sets'] = [
    ('S', 'SortedSet.__delitem__', '''
if isinstance(index, slice):
    values = _list[index]
    _set.difference_update(values)
else:
    value = _list[index]
    _set.remove(value)
del _list[index]
''', '''
gone = _list[index] if isinstance(index, slice) else [_list[index]]
del _list[index]
_set.difference_update(gone)
'''),
    ('S', 'SortedSet.pop', '''
value = self._list.pop(index)
self._set.remove(value)
return value
''', '''
_list = self._list
value = _list[index] if _list else _list.pop(index)
del _list[index]
self._set.discard(value)
return value
'''),
    ('S', 'SortedSet.update', '''
_add = self._add
for value in values:
    _add(value)
''', '''
for value in values - _set:
    self._add(value)
'''),
    ('S', 'SortedSet.count', 'return 1 if value in self._set else 0', 'return int(value in self._set)'),
    ('S', 'SortedSet.copy', 'return self._fromset(set(self._set), key=self._key)',
     'members = self._set.copy()\nreturn self._fromset(members, self._key)'),
    ('S', 'SortedSet.union', 'return self.__class__(chain(iter(self), *iterables), key=self._key)',
     'result = self._fromset(set(self._set), key=self._key)\nresult.update(*iterables)\nreturn result'),
    ('S', 'SortedSet.intersection_update', '''
_set.intersection_update(*iterables)
_list.clear()
_list.update(_set)
''', '''
kept = _set.intersection(*iterables)
_list.clear()
_set.intersection_update(kept)
_list.update(kept)
'''),
]
R['dicts'] = [
    ('D', 'SortedDict.pop', '''
if key in self:
    self._list_remove(key)
    return dict.pop(self, key)
else:
    if default is self.__not_given:
        raise KeyError(key)
    return default
''', '''
if key not in self:
    if default is self.__not_given:
        raise KeyError(key)
    return default
self._list_remove(key)
value = dict.__getitem__(self, key)
dict.__delitem__(self, key)
return value
'''),
    ('D', 'SortedDict.copy', 'return self.__class__(self._key, self.items())',
     'return self.__class__(self._key, dict(dict.items(self)))'),
    ('D', 'SortedDict.fromkeys', 'return cls(((key, value) for key in iterable))',
     'return cls([(key, value) for key in iterable])'),
    ('D', 'SortedDict.__ior__', 'self._update(other)\nreturn self', 'self._update(dict(other))\nreturn self'),
    ('D', 'SortedItemsView.__getitem__', '''
if isinstance(index, slice):
    keys = _mapping_list[index]
    return [(key, _mapping[key]) for key in keys]

key = _mapping_list[index]
return (key, _mapping[key])
''', '''
if not isinstance(index, slice):
    key = _mapping_list[index]
    return key, _mapping[key]
result = []
for key in _mapping_list[index]:
    result.append((key, _mapping[key]))
return result
'''),
    ('D', 'SortedValuesView.__getitem__', '''
if isinstance(index, slice):
    keys = _mapping_list[index]
    return [_mapping[key] for key in keys]
''', '''
if isinstance(index, slice):
    return list(map(_mapping.__getitem__, _mapping_list[index]))
'''),
    ('D', '_view_delitem', '''
if isinstance(index, slice):
    keys = _list[index]
    del _list[index]
    for key in keys:
        dict_delitem(_mapping, key)
else:
    key = _list.pop(index)
    dict_delitem(_mapping, key)
''', '''
keys = _list[index] if isinstance(index, slice) else [_list[index]]
del _list[index]
while keys:
    dict_delitem(_mapping, keys.pop())
'''),
    ('D', 'SortedDict.popitem', '''
key = self._list_pop(index)
value = dict.pop(self, key)
return (key, value)
''', '''
key = self._list[index]
item = key, dict.__getitem__(self, key)
self._list_pop(index)
dict.__delitem__(self, key)
return item
'''),
]
R['compare'] = [
    ('L', 'SortedList.__make_cmp', '''
for alpha, beta in zip(self, other):
    if alpha != beta:
        return seq_op(alpha, beta)

return seq_op(self_len, len_other)
''', '''
differ = next(((x, y) for x, y in zip(self, other) if x != y), None)
if differ is None:
    return seq_op(self_len, len_other)
return seq_op(*differ)
'''),
    ('L', 'SortedList.__reduce__', 'values = reduce(iadd, self._lists, [])', 'values = list(self)'),
    ('L', 'SortedList.__add__', 'values = reduce(iadd, self._lists, [])\nvalues.extend(other)\nreturn self.__class__(values)',
     'return self.__class__(chain(list(self), other))'),
    ('L', 'SortedList.copy', 'return self.__class__(self)', 'return self.__class__(list(self))'),
    ('L', 'SortedKeyList.copy', 'return self.__class__(self, key=self._key)',
     'return self.__class__(self[:], key=self._key)'),
    ('S', 'SortedSet.__rsub__', 'diff = set(other).difference(self._set)\nreturn self._fromset(diff, key=self._key)',
     'return self._fromset({value for value in other if value not in self._set}, key=self._key)'),
]

R['sets2'] = [
    ('S', 'SortedSet.add', '''
_set = self._set
if value not in _set:
    _set.add(value)
    try:
        self._list.add(value)
    except BaseException:
        _set.remove(value)
        raise
''', '''
if value in self._set:
    return
self._list.add(value)
self._set.add(value)
'''),
    ('S', 'SortedSet.pop', '''
value = self._list.pop(index)
self._set.remove(value)
return value
''', '''
_list, _set = (self._list, self._set)
value = _list.pop(index)
if value in _set:
    _set.remove(value)
return value
'''),
    ('S', 'SortedSet.remove', '''
_set = self._set
if value not in _set:
    raise KeyError(value)
self._list.remove(value)
_set.remove(value)
''', '''
if value in self._set:
    self._list.remove(value)
    self._set.remove(value)
    return
raise KeyError(value)
'''),
    ('S', 'SortedSet.difference_update', '''
_discard = self._discard
for value in values:
    _discard(value)
''', '''
for value in values.intersection(_set):
    self._discard(value)
'''),
    ('S', 'SortedSet.intersection', '''
intersect = self._set.intersection(*iterables)
return self._fromset(intersect, key=self._key)
''', '''
members = set(self._set)
for iterable in iterables:
    members.intersection_update(iterable)
return self._fromset(members, key=self._key)
'''),
    ('S', 'SortedSet.symmetric_difference', '''
diff = self._set.symmetric_difference(other)
return self._fromset(diff, key=self._key)
''', '''
others = set(other)
diff = self._set - others
diff |= others - self._set
return self._fromset(diff, key=self._key)
'''),
]
R['dicts2'] = [
    ('D', 'SortedDict.__setitem__', '''
if key not in self:
    self._list_add(key)
dict.__setitem__(self, key, value)
''', '''
if dict.__contains__(self, key):
    dict.__setitem__(self, key, value)
    return
self._list_add(key)
dict.__setitem__(self, key, value)
'''),
    ('D', 'SortedDict.__delitem__', '''
if key not in self:
    raise KeyError(key)
self._list_remove(key)
dict.__delitem__(self, key)
''', '''
if key in self:
    self._list_remove(key)
    dict.__delitem__(self, key)
else:
    raise KeyError(key)
'''),
    ('D', 'SortedDict.setdefault', '''
if key in self:
    return self[key]
self._list_add(key)
dict.__setitem__(self, key, default)
return default
''', '''
if key not in self:
    self._list_add(key)
    dict.__setitem__(self, key, default)
return dict.__getitem__(self, key)
'''),
    ('D', 'SortedDict.update', '''
keys = list(dict.__iter__(self))
keys.extend((key for key in pairs if key not in self))
keys.sort(key=self._key)
dict.update(self, pairs)
self._list_clear()
self._list_update(keys)
''', '''
new_keys = [key for key in pairs if not dict.__contains__(self, key)]
keys = sorted(chain(dict.keys(self), new_keys), key=self._key)
dict.update(self, pairs)
self._list_clear()
self._list_update(keys)
'''),
    ('D', 'SortedDict.__or__', '''
items = chain(self.items(), other.items())
return self.__class__(self._key, items)
''', '''
result = self.copy()
result.update(other)
return result
'''),
    ('D', 'SortedDict.peekitem', '''
key = self._list[index]
return (key, self[key])
''', '''
key = self._list[index]
return (key, dict.__getitem__(self, key))
'''),
]
R['lists2'] = [
    ('L', 'SortedList.__delitem__', '''
values = self._getitem(slice(None, start))
if stop < self._len:
    values += self._getitem(slice(stop, None))
self._clear()
return self._update(values)
''', '''
values = list(self)
del values[start:stop]
self._clear()
self._update(values)
return
'''),
    ('L', 'SortedList.__delitem__', '''
for index in indices:
    pos, idx = _pos(index)
    _delete(pos, idx)
''', '''
for index in list(indices):
    _delete(*_pos(index))
'''),
    ('L', 'SortedList.update', '''
values = reduce(iadd, _lists, []) + values
values.sort()
self._clear()
''', '''
values = sorted(chain(chain.from_iterable(_lists), values))
self._clear()
'''),
    ('L', 'SortedList.__contains__', '''
pos = bisect_left(_maxes, value)

if pos == len(_maxes):
    return False

_lists = self._lists
idx = bisect_left(_lists[pos], value)
return _lists[pos][idx] == value
''', '''
pos = bisect_left(_maxes, value)

if pos < len(_maxes):
    run = self._lists[pos]
    return run[bisect_left(run, value)] == value

return False
'''),
    ('L', 'SortedList.add', '''
if _maxes:
    pos = bisect_right(_maxes, value)

    if pos == len(_maxes):
        pos -= 1
        _lists[pos].append(value)
        _maxes[pos] = value
    else:
        insort(_lists[pos], value)

    self._expand(pos)
else:
    _lists.append([value])
    _maxes.append(value)

self._len += 1
''', '''
self._len += 1

if not _maxes:
    _lists.append([value])
    _maxes.append(value)
    return

try:
    pos = min(bisect_right(_maxes, value), len(_maxes) - 1)
    insort(_lists[pos], value)
except BaseException:
    self._len -= 1
    raise
_maxes[pos] = _lists[pos][-1]
self._expand(pos)
'''),
]


def copy(name):
    w = tempfile.mkdtemp(prefix='rf-')
    subprocess.run(['cp', '-a', '/repo', w + '/repo'], check=True)
    base = w + '/repo/src/sortedcontainers'
    srcs = {f: ast.unparse(ast.parse(open(os.path.join(base, f)).read())) for f in seed.FILES.values()}
    names = list(R) if name == 'all' else [name]
    if name == 'all':
        names = [n for n in names if n != 'generators' and not n.endswith('2')]
    for n in names:
        srcs = edited(srcs, R[n])
    for f, s in srcs.items():
        open(os.path.join(base, f), 'w').write(s)
    return w


def run(name, props):
    w = copy(name)
    try:
        out = []
        missing = seed.tests(w + '/repo', w)
        if missing:
            out.append(f'{len(missing)} tests fail {missing[:3]}')
        for p in props:
            env = dict(os.environ, VERIF_REPO_SRC=w + '/repo/src', VERIF_SEED=os.environ.get('VERIF_SEED', '1'),
                       VERIF_WORKERS='4')
            r = subprocess.run([sys.executable, os.path.join(seed.HERE, 'check.py'), p, 'quick'], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                out.append(f'{p} RC={r.returncode} {r.stdout[-700:]}')
        return name, out
    finally:
        shutil.rmtree(w)


def fast(names, seedno='1'):
    """As run, but only the traces that differ from the library's are decided (two shards per property)."""
    import mutants
    sys.path.insert(0, seed.HERE)
    import check
    jobs = [f'C{p:02}:{k}' for k in (0, 1) for p in range(1, 22)]
    base = tempfile.mkdtemp(prefix='mutbase-')
    par = int(os.environ.get('HUNT_PAR', '4'))
    ex = cf.ThreadPoolExecutor(par)
    list(ex.map(lambda j: mutants.fastrec('/repo/src', base, '-', [j]), jobs))

    def one(name):
        w = copy(name)
        todo, out = list(jobs), []
        try:
            missing = seed.tests(w + '/repo', w)
            if missing:
                out.append(f'{len(missing)} tests fail {missing[:3]}')
            while todo:
                s, rc = mutants.fastrec(w + '/repo/src', w, base, todo)
                if s == 'same':
                    break
                if rc or s.startswith('died'):
                    return name, out + [s]
                p, sh, n = s.split()
                lines = open(f'{w}/{p}-{sh}.ndjson').read().split('\n')[:-1]
                fl, _, _, bad = check.validate(lines, w, 'm')
                if fl or bad:
                    out.append(f'{p} {fl[:4]} {bad[:1]}')
                todo = todo[todo.index(p + ':' + sh) + 1:]
            return name, out
        finally:
            shutil.rmtree(w)
    for f in cf.as_completed([ex.submit(one, n) for n in names]):
        n, out = f.result()
        print(n, 'quiet' if not out else '\n   '.join(out), flush=True)
    shutil.rmtree(base)


if __name__ == '__main__':
    args = sys.argv[1:]
    if args and args[0] == 'fast':
        fast(args[1:] or [*R, 'all'])
        sys.exit()
    props = [f'C{i:02}' for i in range(1, 22)]
    if args and args[0] == '-p':
        props, args = [x for x in args[1].split(',') if x], args[2:]
    with cf.ThreadPoolExecutor(int(os.environ.get('HUNT_PAR', '2'))) as ex:
        for n, out in ex.map(lambda n: run(n, props), args or [*R, 'all']):
            print(n, 'quiet' if not out else '\n   '.join(out), flush=True)
