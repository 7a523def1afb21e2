# -*- coding: utf-8 -*-
"""C15: reference lists behave like Python lists of the same objects."""
import itertools

import avb

from mc import docs, plain, spec

LEVEL = 'model_checking'
TECHNIQUE = ('explicit exploration of all list operation sequences up to a depth, a Python list of labels as the '
             'model, every step executed and compared on the real library and the saved file decoded independently')
RULE = 'distinct (list kind, origin, initial list, operation sequence) behaviours'
BOUNDS = ('all sequences of up to 2 of 58 list operations (3 for parameter lists and sequences in the thorough tier) '
          'on 5 initial lists (with nulls and repeats), for every list carrying kind, loaded (held, each element '
          'loaded or not) and created, both byte orders; 30 observations after every step; '
          'each of 72 operations on lists of 9 to 300 elements')
ASSUMPTIONS = ['ordering comparisons (<) and the textual form of lists are not part of the property']

KINDS = ('PRLS', 'TMCS', 'SEQU', 'TKDS', 'TKPS', 'TKDA', 'MULD')
INITIAL = ([], [1], [1, 2, 3], [2, 1, 2], [1, 0, 3, 0])


def setslice(L, s, v):
    L[s] = v


def setitem(L, i, v):
    L[i] = v


def delitem(L, i):
    del L[i]


def iadd(L, x):
    L += x
    return L is not None


def imul(L, n):
    L *= n
    return L is not None


S = slice
MUT = [
    ('append1', lambda L, o, k: L.append(o[1])),
    ('append5', lambda L, o, k: L.append(o[5])),
    ('append0', lambda L, o, k: L.append(o[0])),
    ('insert0', lambda L, o, k: L.insert(0, o[3])),
    ('insert1', lambda L, o, k: L.insert(1, o[5])),
    ('insert-1', lambda L, o, k: L.insert(-1, o[5])),
    ('insert99', lambda L, o, k: L.insert(99, o[2])),
    ('extend', lambda L, o, k: L.extend([o[5], o[1]])),
    ('extendgen', lambda L, o, k: L.extend(x for x in (o[3], o[0]))),
    ('extendself', lambda L, o, k: L.extend(L)),
    ('extendnone', lambda L, o, k: L.extend(())),
    ('extenderr', lambda L, o, k: L.extend(None)),
    ('iadd', lambda L, o, k: iadd(L, [o[5]])),
    ('iaddself', lambda L, o, k: iadd(L, L)),
    ('imul2', lambda L, o, k: imul(L, 2)),
    ('imul0', lambda L, o, k: imul(L, 0)),
    ('pop', lambda L, o, k: L.pop()),
    ('pop0', lambda L, o, k: L.pop(0)),
    ('pop1', lambda L, o, k: L.pop(1)),
    ('pop-2', lambda L, o, k: L.pop(-2)),
    ('pop9', lambda L, o, k: L.pop(9)),
    ('remove1', lambda L, o, k: L.remove(o[1])),
    ('remove2', lambda L, o, k: L.remove(o[2])),
    ('remove0', lambda L, o, k: L.remove(o[0])),
    ('remove5', lambda L, o, k: L.remove(o[5])),
    ('clear', lambda L, o, k: L.clear()),
    ('reverse', lambda L, o, k: L.reverse()),
    ('sort', lambda L, o, k: L.sort(key=k)),
    ('sortrev', lambda L, o, k: L.sort(key=k, reverse=True)),
    ('sortneg', lambda L, o, k: L.sort(key=lambda x: -k(x))),
    ('sorterr', lambda L, o, k: L.sort(key=lambda x: 1 // 0)),
    ('set0', lambda L, o, k: setitem(L, 0, o[5])),
    ('set-1', lambda L, o, k: setitem(L, -1, o[1])),
    ('setnull', lambda L, o, k: setitem(L, 0, o[0])),
    ('set9', lambda L, o, k: setitem(L, 9, o[1])),
    ('slice01', lambda L, o, k: setslice(L, S(0, 1), [o[5], o[2]])),
    ('slice12', lambda L, o, k: setslice(L, S(1, 2), [])),
    ('sliceall', lambda L, o, k: setslice(L, S(None), [o[3], o[1]])),
    ('sliceself', lambda L, o, k: setslice(L, S(1, 1), L)),
    ('slicerev', lambda L, o, k: setslice(L, S(None), L[::-1])),
    ('slicegen', lambda L, o, k: setslice(L, S(0, 0), (x for x in (o[1], o[2])))),
    ('slicestep', lambda L, o, k: setslice(L, S(None, None, 2), [o[5]] * ((len(L) + 1) // 2))),
    ('slicesteperr', lambda L, o, k: setslice(L, S(None, None, 2), [o[5]] * (len(L) + 3))),
    ('del0', lambda L, o, k: delitem(L, 0)),
    ('del-1', lambda L, o, k: delitem(L, -1)),
    ('del9', lambda L, o, k: delitem(L, 9)),
    ('delslice', lambda L, o, k: delitem(L, S(0, 2))),
    ('delstep', lambda L, o, k: delitem(L, S(None, None, 2))),
    ('delall', lambda L, o, k: delitem(L, S(None))),
    ('swap', lambda L, o, k: (setitem(L, 0, L[-1]))),
    ('rotate', lambda L, o, k: L.append(L.pop(0))),
    ('dedup', lambda L, o, k: [L.remove(x) for x in list(L) if L.count(x) > 1]),
    ('iterdel', lambda L, o, k: [L.remove(x) for x in L]),
    ('readall', lambda L, o, k: [x for x in L]),
    ('read0', lambda L, o, k: L[0]),
    ('otherlist', lambda L, o, k: L.extend(o['list'])),
    ('otherslice', lambda L, o, k: setslice(L, S(0, 1), o['list'])),
    ('otheriadd', lambda L, o, k: iadd(L, o['list'])),
]
NAMES = [n for n, _ in MUT]
BIG = [
    ('pop20', lambda L, o, k: L.pop(20)),
    ('pop-30', lambda L, o, k: L.pop(-30)),
    ('del17', lambda L, o, k: delitem(L, 17)),
    ('set33', lambda L, o, k: setitem(L, 33, o[5])),
    ('insert16', lambda L, o, k: L.insert(16, o[5])),
    ('slicemid', lambda L, o, k: setslice(L, S(10, 31), [o[5], o[0]])),
    ('slicegrow', lambda L, o, k: setslice(L, S(15, 17), [o[5]] * 70)),
    ('slicestep7', lambda L, o, k: setslice(L, S(3, None, 7), [o[5]] * len(range(3, len(L), 7)))),
    ('delmid', lambda L, o, k: delitem(L, S(8, -9))),
    ('delstep3', lambda L, o, k: delitem(L, S(None, None, -3))),
    ('imul5', lambda L, o, k: imul(L, 5)),
    ('fill', lambda L, o, k: [L.append(o[i % 4]) for i in range(300)] and None),
    ('drain', lambda L, o, k: [L.pop(0) for i in range(len(L) - 2)]),
    ('removeall', lambda L, o, k: [L.remove(o[2]) for i in range(L.count(o[2]))]),
]
LARGE = (9, 17, 40, 128, 300)
FN = dict(MUT + BIG)

OBS = [
    ('len', lambda L, o: len(L)), ('iter', lambda L, o: [x for x in L]), ('list', lambda L, o: list(L)),
    ('tuple', lambda L, o: list(tuple(L))), ('reversed', lambda L, o: [x for x in reversed(L)]),
    ('slice', lambda L, o: L[:]), ('slice1', lambda L, o: L[1:3]), ('step', lambda L, o: L[::2]),
    ('rev', lambda L, o: L[::-1]), ('tail', lambda L, o: L[-2:]),
    ('first', lambda L, o: L[0]), ('last', lambda L, o: L[-1]), ('over', lambda L, o: L[7]),
    ('each', lambda L, o: [L[i] for i in range(len(L))]),
    ('in', lambda L, o: [o[i] in L for i in (0, 1, 2, 3, 5)]),
    ('count', lambda L, o: [L.count(o[i]) for i in (0, 1, 2, 3, 5)]),
    ('index1', lambda L, o: L.index(o[1])), ('index2', lambda L, o: L.index(o[2])),
    ('index3', lambda L, o: L.index(o[3])), ('index0', lambda L, o: L.index(o[0])),
    ('index5', lambda L, o: L.index(o[5])), ('index2f', lambda L, o: L.index(o[2], 1)),
    ('index1r', lambda L, o: L.index(o[1], 0, 1)),
    ('eq', lambda L, o: [L == list(L), list(L) == L, L == [], L == [o[1]], L == [o[1], o[2], o[3]], L == L, L == o['list']]),
    ('ne', lambda L, o: [L != list(L), L != [o[1]], L != [], [] != L]),
    ('eqother', lambda L, o: [L == None, L == 3, L != tuple(L), L == tuple(L)]),
    ('bool', lambda L, o: bool(L)),
    ('add', lambda L, o: L + [o[5]]), ('radd', lambda L, o: [o[5]] + L), ('addself', lambda L, o: L + L),
    ('addlist', lambda L, o: [L + o['list'], o['list'] + L]),
    ('mul', lambda L, o: [L * 2, 2 * L, L * 0]),
    ('star', lambda L, o: (lambda *a: list(a))(*L)), ('unpack', lambda L, o: [[a, r] for a, *r in [L]]),
    ('zip', lambda L, o: [list(p) for p in zip(L, L[1:])]), ('enum', lambda L, o: [list(p) for p in enumerate(L)]),
]


def label(x):
    """implementation result -> model result"""
    if isinstance(x, (list, tuple)):
        return [label(y) for y in x]
    if x is None or isinstance(x, bool) or (isinstance(x, int) and not hasattr(x, 'root')):
        return x if x is None or isinstance(x, bool) else ('n', x)
    return plain.leaf_ref(x)[1]


def mlabel(x):
    if isinstance(x, (list, tuple)):
        return [mlabel(y) for y in x]
    if isinstance(x, El):
        return x.n
    if isinstance(x, int) and not isinstance(x, bool):
        return ('n', x)
    return x


class El(object):
    """model element: equal only to itself, like an object"""
    def __init__(self, n):
        self.n = n


def attempt(fn, *a):
    try:
        return ('ok', fn(*a))
    except (IndexError, ValueError, TypeError, AttributeError, ZeroDivisionError) as e:
        return ('raised', type(e).__name__)


def the_list(f, cid):
    c = f.content
    return c if cid in plain.LISTLIKE else getattr(c, plain.REFLISTS[cid])


def field(cid):
    return '$list' if cid in plain.LISTLIKE else plain.REFLISTS[cid]


def document(cid, init, order):
    d = docs.Doc()
    for i in (1, 2, 3):
        d.put(*spec.leaf(i))
    oth = d.put('PRLS', {'$list': [docs.R(3), docs.R(0), docs.R(1)]})
    holder = d.add('PRIT', control_track=docs.R(oth))
    v = docs.default(cid)
    v[field(cid)] = [docs.R(i) for i in init]
    d.put(cid, v)
    return d.encode(order)


def setup(cid, init, order, origin):
    if origin == 'created':
        f = avb.file.AVBFile()
        objs = dict((i, plain.make_leaf(f, i)) for i in (1, 2, 3, 5))
        objs[0] = None
        v = docs.default(cid)
        v[field(cid)] = [docs.R(i) for i in init]
        f.content = plain.make_object(f, cid, v, objs)
        if cid in plain.LISTLIKE:
            L = f.content
        else:
            L = avb.core.AVBRefList.__new__(avb.core.AVBRefList, root=f, parent=f.content)
            L.extend(objs[i] for i in init)
            setattr(f.content, field(cid), L)
        oth = f.create.ParameterList()
        oth.extend([objs[3], None, objs[1]])
        objs['list'] = oth
        return f, the_list(f, cid), objs
    f = plain.open_bytes(document(cid, init, order))
    L = the_list(f, cid)
    objs = Lazy(f) if origin == 'lazy' else dict((i, f.read_object(i)) for i in (1, 2, 3))
    objs[0] = None
    objs[5] = plain.make_leaf(f, 5)
    objs['list'] = f.read_object(4)
    return f, L, objs


class Lazy(dict):
    """objects loaded only when an operation names them, held from then on"""

    def __init__(self, f):
        dict.__init__(self)
        self.f = f

    def __missing__(self, n):
        self[n] = o = self.f.read_object(n)
        return o


def observe(ctx, L, objs, M, mo, what):
    for name, fn in OBS:
        a = attempt(fn, L, objs)
        b = attempt(fn, M, mo)
        if a[0] != b[0] or (a[0] == 'raised' and a[1] != b[1]) or (
                a[0] == 'ok' and repr(label(a[1])) != repr(mlabel(b[1]))):
            ctx.fail('%s after %s: library %s, list %s' % (
                name, what, a if a[0] == 'raised' else label(a[1]), b if b[0] == 'raised' else mlabel(b[1])))


def sequence(ctx, cid, order, origin, init, hist):
    f, L, objs = setup(cid, init, order, origin)
    mo = dict((i, El(i)) for i in (1, 2, 3, 5))
    mo[0] = None
    mo['list'] = [mo[3], None, mo[1]]
    M = [mo[i] for i in init]
    if not hist:
        observe(ctx, L, objs, M, mo, 'opening')
    for i, name in enumerate(hist):
        fn = FN[name]
        b = attempt(fn, M, mo, lambda x: x.n if x is not None else 0)
        a = attempt(fn, L, objs, lambda x: plain.leaf_ref(x)[1] if x is not None else 0)
        ctx.step()
        if a[0] != b[0] or (a[0] == 'raised' and a[1] != b[1]) or (
                a[0] == 'ok' and repr(label(a[1])) != repr(mlabel(b[1]))):
            ctx.fail('%s: library %s, list %s' % (name, a, b))
        if i == len(hist) - 1:
            observe(ctx, L, objs, M, mo, '.'.join(hist))
    ctx.state((cid, origin, mlabel(M), [type(x).__name__ for x in list.__iter__(L)] if isinstance(L, list) else 0))
    data = plain.save_bytes(f, order, ctx.path())
    p, saved = plain.decode_saved(data, order)
    v = plain.relabel(saved[p.root][1], saved)[field(cid)]
    want = [('R', x.n if x is not None else 0) for x in M]
    if v != want:
        ctx.fail('saved %s, list %s' % (v, want))
    g = plain.open_bytes(data)
    got = label(list(the_list(g, cid)))
    if got != mlabel(M):
        ctx.fail('reopened %s, list %s' % (got, mlabel(M)))
    ctx.impl()


def shards(tier):
    out = [{'cid': c, 'large': n} for c in KINDS for n in LARGE]
    for cid in KINDS:
        for origin in ('loaded', 'lazy', 'created'):
            for i in range(len(INITIAL)):
                if cid not in ('PRLS', 'SEQU') and tier != 'thorough' and (i not in (2, 4) or origin == 'loaded'):
                    continue
                for order in spec.ORDERS:
                    if order == 'big' and tier != 'thorough' and (i != 4 or origin != 'lazy'):
                        continue
                    for first in (NAMES if tier == 'thorough' and cid in ('PRLS', 'SEQU') else [None]):
                        out.append({'cid': cid, 'origin': origin, 'init': i, 'order': order, 'first': first})
    return out


def run(shard, ctx):
    if 'large' in shard:
        init = [(i * i + i // 3) % 4 for i in range(shard['large'])]
        for origin in ('loaded', 'lazy', 'created'):
            for order in spec.ORDERS:
                for name in NAMES + [n for n, _ in BIG]:
                    if (order == 'big' or origin == 'created') and name in NAMES and shard['large'] != 40 and not ctx.thorough:
                        continue
                    k = '%s/%s/%d items/%s/%s' % (shard['cid'], origin, len(init), order, name)
                    ctx.case(k, sequence, ctx, shard['cid'], order, origin, init, (name,))
        return
    init = INITIAL[shard['init']]

    def go(h):
        k = '%s/%s/%s/%s/%s' % (shard['cid'], shard['origin'], ''.join(map(str, init)), shard['order'], '.'.join(h))
        ctx.case(k, sequence, ctx, shard['cid'], shard['order'], shard['origin'], init, h)
    if shard['first']:
        for h in itertools.product(NAMES, repeat=2):
            go((shard['first'],) + h)
        return
    for n in (0, 1, 2):
        for h in itertools.product(NAMES, repeat=n):
            go(h)
