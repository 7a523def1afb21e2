# -*- coding: utf-8 -*-
"""C16: attribute dictionaries are ordered typed maps that survive saving."""
import itertools
import uuid
from collections import OrderedDict

import avb

from mc import docs, plain, spec

LEVEL = 'model_checking'
TECHNIQUE = ('explicit exploration of all dictionary operation sequences up to a depth, an ordered map of plain '
             'values as the model, every step executed on the real library and the saved bytes decoded independently')
RULE = 'distinct model states (ordered contents, origin) reached'
BOUNDS = ('all sequences of up to 2 (3 from one loaded dictionary, 3 everywhere in the thorough tier) of 53 dictionary operations on 3 initial dictionaries, '
          'loaded and created, both byte orders, 20 observations after every step; every boundary value and every '
          'unstorable value or key in every position of 3 entry dictionaries; each operation on dictionaries of 8 to 300 entries; once more with the compiled reader for the kinds that have one')
ASSUMPTIONS = ['merging with | and pickling are not part of the property']

INITIAL = (
    (),
    ((u'a', 1), (u'b', u'text'), (u'o', ('R', 1))),
    ((u'o', ('R', 1)), (u'n', ('R', 0)), (u'p', ('R', 2)), (u'x', b'\x00\x01'), (u'q', ('R', 1))),
)


class El(object):
    """model of an object: equal only to itself"""
    def __init__(self, n):
        self.n = n


def setitem(a, k, v):
    a[k] = v


def delitem(a, k):
    del a[k]


MUT = [
    ('a=int', lambda a, o: setitem(a, u'a', -7)),
    ('a=text', lambda a, o: setitem(a, u'a', u'caf\xe9')),
    ('a=bob', lambda a, o: setitem(a, u'a', bytearray(b'\x00z\x00'))),
    ('a=obj', lambda a, o: setitem(a, u'a', o[2])),
    ('a=new', lambda a, o: setitem(a, u'a', o[5])),
    ('a=null', lambda a, o: setitem(a, u'a', None)),
    ('o=int', lambda a, o: setitem(a, u'o', 2)),
    ('o=obj', lambda a, o: setitem(a, u'o', o[1])),
    ('z=int', lambda a, o: setitem(a, u'z', 2 ** 31 - 1)),
    ('z=min', lambda a, o: setitem(a, u'z', -2 ** 31)),
    ('z=empty', lambda a, o: setitem(a, u'z', u'')),
    ('z=ebob', lambda a, o: setitem(a, u'z', bytearray())),
    ('e=', lambda a, o: setitem(a, u'', 1)),
    ('swap', lambda a, o: a.update([(u'a', a[u'o']), (u'o', a[u'a'])])),
    ('del a', lambda a, o: delitem(a, u'a')),
    ('del o', lambda a, o: delitem(a, u'o')),
    ('del n', lambda a, o: delitem(a, u'n')),
    ('del none', lambda a, o: delitem(a, u'missing')),
    ('pop a', lambda a, o: a.pop(u'a')),
    ('pop o', lambda a, o: a.pop(u'o')),
    ('pop n', lambda a, o: a.pop(u'n', 3)),
    ('pop missing', lambda a, o: a.pop(u'missing')),
    ('pop default', lambda a, o: a.pop(u'missing', 9)),
    ('pop objdef', lambda a, o: a.pop(u'missing', o[1])),
    ('popitem', lambda a, o: a.popitem()),
    ('popfirst', lambda a, o: a.popitem(last=False)),
    ('popfirst2', lambda a, o: a.popitem(False)),
    ('setdefault a', lambda a, o: a.setdefault(u'a', 4)),
    ('setdefault o', lambda a, o: a.setdefault(u'o', o[2])),
    ('setdefault z', lambda a, o: a.setdefault(u'z', o[2])),
    ('setdefault n', lambda a, o: a.setdefault(u'z')),
    ('update', lambda a, o: a.update({u'a': 5})),
    ('update pairs', lambda a, o: a.update([(u'z', u'y'), (u'o', o[2])])),
    ('update kw', lambda a, o: a.update(k=o[5])),
    ('update self', lambda a, o: a.update(a)),
    ('update other', lambda a, o: a.update(o['dict'])),
    ('update none', lambda a, o: a.update(())),
    ('update err', lambda a, o: a.update(5)),
    ('clear', lambda a, o: a.clear()),
    ('end a', lambda a, o: a.move_to_end(u'a')),
    ('end o', lambda a, o: a.move_to_end(u'o')),
    ('front o', lambda a, o: a.move_to_end(u'o', last=False)),
    ('front q', lambda a, o: a.move_to_end(u'q', False)),
    ('end missing', lambda a, o: a.move_to_end(u'missing')),
    ('read o', lambda a, o: a[u'o']),
    ('readall', lambda a, o: [v for k, v in a.items()]),
    ('rename', lambda a, o: setitem(a, u'renamed', a.pop(u'o'))),
    ('reinsert', lambda a, o: [setitem(a, k, a.pop(k)) for k in sorted(a)]),
    ('sortkeys', lambda a, o: [a.move_to_end(k) for k in sorted(a)]),
    ('filter', lambda a, o: [delitem(a, k) for k in list(a) if isinstance(a[k], int)]),
    ('bob edit', lambda a, o: a[u'x'].append(7) if u'x' in a else None),
    ('bob edit2', lambda a, o: setitem(a[u'a'], 0, 9) if isinstance(a.get(u'a'), bytearray) and a[u'a'] else None),
    ('del view', lambda a, o: [a.pop(k) for k in list(a.keys())[:1]]),
]
NAMES = [n for n, _ in MUT]
FN = dict(MUT)

OBS = [
    ('len', lambda a, o: len(a)), ('iter', lambda a, o: [k for k in a]), ('keys', lambda a, o: list(a.keys())),
    ('values', lambda a, o: list(a.values())), ('items', lambda a, o: [list(i) for i in a.items()]),
    ('reversed', lambda a, o: list(reversed(a))), ('list', lambda a, o: list(a)), ('bool', lambda a, o: bool(a)),
    ('each', lambda a, o: [a[k] for k in a]), ('gets', lambda a, o: [a.get(k) for k in a]),
    ('get', lambda a, o: [a.get(u'missing'), a.get(u'missing', 3), a.get(u'o'), a.get(u'n', 4), a.get(u'missing', o[1])]),
    ('in', lambda a, o: [k in a for k in (u'a', u'o', u'n', u'x', u'z', u'missing', u'')]),
    ('missing', lambda a, o: a[u'missing']), ('geto', lambda a, o: a[u'o']), ('getn', lambda a, o: a[u'n']),
    ('dict', lambda a, o: [[k, v] for k, v in dict(a.items()).items()]),
    ('eq', lambda a, o: [a == OrderedDict(a.items()), a == dict(a.items()), dict(a.items()) == a, a == {}, a == a,
                         a == {u'a': 1}, a == OrderedDict([(u'a', 1)]), a == OrderedDict(list(a.items())[::-1])]),
    ('ne', lambda a, o: [a != OrderedDict(a.items()), a != dict(a.items()), a != {}, a != {u'a': 1}]),
    ('eqother', lambda a, o: [a == None, a == 3, a != [], a == o['dict'], o['dict'] == a, a != o['dict']]),
    ('objeq', lambda a, o: [v is o[1] for v in a.values()]),
]


def label(x):
    if isinstance(x, (list, tuple)):
        return [label(y) for y in x]
    if isinstance(x, dict):
        return [[k, label(v)] for k, v in x.items()]
    if hasattr(x, 'class_id') or isinstance(x, avb.utils.AVBObjectRef):
        return 'obj%d' % plain.leaf_ref(x)[1]
    return (type(x).__name__, x)


def mlabel(x):
    if isinstance(x, (list, tuple)):
        return [mlabel(y) for y in x]
    if isinstance(x, dict):
        return [[k, mlabel(v)] for k, v in x.items()]
    if isinstance(x, El):
        return 'obj%d' % x.n
    return (type(x).__name__, x)


def attempt(fn, *a):
    try:
        return ('ok', fn(*a))
    except (KeyError, IndexError, ValueError, TypeError, AttributeError) as e:
        return ('raised', type(e).__name__)


def same(ctx, a, b, what):
    la = a if a[0] == 'raised' else ('ok', label(a[1]))
    lb = b if b[0] == 'raised' else ('ok', mlabel(b[1]))
    if repr(la) != repr(lb):
        ctx.fail('%s: library %s, map %s' % (what, la, lb))


def document(init, order):
    d = docs.Doc()
    for i in (1, 2, 3):
        d.put(*spec.leaf(i))
    d.put('ATTR', {'$items': [docs.attr(u'a', 1), docs.attr(u'k', docs.R(2))]})
    d.put('ATTR', {'$items': [docs.attr(k, v) for k, v in init]})
    return d.encode(order)


def setup(init, order, origin):
    if origin == 'loaded':
        f = plain.open_bytes(document(init, order))
        a = f.content
        objs = dict((i, f.read_object(i)) for i in (1, 2, 3))
        other = f.read_object(4)
    else:
        f = avb.file.AVBFile()
        objs = dict((i, plain.make_leaf(f, i)) for i in (1, 2, 3))
        a = f.create.Attributes()
        for k, v in init:
            a[k] = (objs.get(v[1]) if isinstance(v, tuple) else bytearray(v) if isinstance(v, bytes) else v)
        f.content = a
        other = f.create.Attributes()
        other[u'a'] = 1
        other[u'k'] = objs[2]
    objs[5] = plain.make_leaf(f, 5)
    objs['dict'] = other
    return f, a, objs


def model(init):
    mo = dict((i, El(i)) for i in (1, 2, 3, 5))
    m = OrderedDict()
    for k, v in init:
        m[k] = mo.get(v[1]) if isinstance(v, tuple) else bytearray(v) if isinstance(v, bytes) else v
    mo['dict'] = OrderedDict([(u'a', 1), (u'k', mo[2])])
    return m, mo


def check_file(ctx, f, m, order):
    data = plain.save_bytes(f, order, ctx.path())
    p, saved = plain.decode_saved(data, order)
    items = plain.relabel(saved[p.root][1], saved)['$items']
    want = []
    for k, v in m.items():
        if v is None or isinstance(v, El):
            want.append({'type': 3, 'key': k, 'value': ('R', v.n if v else 0)})
        elif isinstance(v, bytearray):
            want.append({'type': 4, 'key': k, 'value': bytes(v)})
        elif isinstance(v, int):
            want.append({'type': 1, 'key': k, 'value': v})
        else:
            want.append({'type': 2, 'key': k, 'value': v})
    if items != want:
        ctx.fail('saved %s, map %s' % (items, want))
    g = plain.open_bytes(data)
    got = label(g.content)
    if repr(got) != repr(mlabel(m)):
        ctx.fail('reopened %s, map %s' % (got, mlabel(m)))


def sequence(ctx, order, origin, init, hist):
    f, a, objs = setup(init, order, origin)
    m, mo = model(init)
    for i, name in enumerate(hist):
        x = attempt(FN[name], a, objs)
        y = attempt(FN[name], m, mo)
        ctx.step()
        same(ctx, x, y, '%s (step %d of %s)' % (name, i, hist))
    for name, fn in OBS:
        same(ctx, attempt(fn, a, objs), attempt(fn, m, mo), '%s after %s' % (name, hist))
    ctx.state((origin, mlabel(m)))
    check_file(ctx, f, m, order)
    ctx.impl()


def large(ctx, order, origin, n, name):
    """a dictionary with many entries of all types"""
    init = []
    for i in range(n):
        k = u'k%d' % ((i * 7919) % 10007)
        init.append((k, (i - 5, u'text %d' % i, b'bin%d' % i, ('R', i % 4))[(i + i // 5) % 4]))
    init[n // 2] = (u'a', 1)
    init[n - 2] = (u'o', ('R', 1))
    f, a, objs = setup(init, order, origin)
    m, mo = model(init)
    x, y = attempt(FN[name], a, objs), attempt(FN[name], m, mo)
    ctx.step()
    same(ctx, x, y, name)
    for what, fn in OBS:
        same(ctx, attempt(fn, a, objs), attempt(fn, m, mo), '%s after %s' % (what, name))
    ctx.state((order, origin, n, name))
    check_file(ctx, f, m, order)
    ctx.impl()


class Number(int):
    pass


GOOD = [0, 1, -1, 127, 128, 255, 256, 65535, 65536, 2 ** 31 - 1, -2 ** 31, u'', u'a', u'\xe9\u2022', u'a\x00b',
        u'x' * 300, u'y' * 65534, bytearray(), bytearray(b'\x00'), bytearray(range(256)), bytearray(70000),
        None, 'obj1', 'new', True, False, Number(7)]
BAD = [2 ** 31, -2 ** 31 - 1, 2 ** 64, 1.5, 0.0, float('nan'), b'bytes', b'', [1], [], (1, 2), {u'a': 1}, {}, set(),
       object, uuid.UUID(int=3), u'\u4e2d', u'x\x00', u'\x00x', u'y' * 65535, u'z' * 65536, 'helper', 'foreign', 1j]
BADKEYS = [b'k', 5, None, (1,), u'\u4e2d', u'k\x00', u'\x00', u'k' * 65535, 1.5]
GOODKEYS = [u'', u'k', u'\xe9', u'k k', u'k' * 65534, u'a\x00b', u'_USER', u'\xff']


def resolve(v, f, g):
    if v == 'obj1':
        return plain.make_leaf(f, 1)
    if v == 'new':
        return plain.make_leaf(f, 5)
    if v == 'helper':
        return f.create.Track()
    if v == 'foreign':
        return plain.make_leaf(g, 3)
    return v


def values(ctx, order, origin, k, v, pos, ok):
    """one value at position pos of a three entry dictionary"""
    init = INITIAL[1]
    f, a, objs = setup((), order, origin)
    m = OrderedDict()
    entries = [(u'first', 3), (u'second', u'two')]
    g = avb.file.AVBFile()
    # keep the numbering of both documents apart or colliding
    for i in range(3):
        g.create.Filler()
    entries.insert(pos, (k, v))
    for kk, vv in entries:
        a[kk] = resolve(vv, f, g) if isinstance(vv, str) else vv
        m[kk] = El({'obj1': 1, 'new': 5}[vv]) if isinstance(vv, str) and vv in ('obj1', 'new') else int(vv) if isinstance(vv, int) else vv
    ctx.step()
    ctx.state((order, origin, repr(k)[:50], repr(v)[:50], pos))
    if ok:
        check_file(ctx, f, m, order)
        ctx.impl()
        return
    try:
        data = plain.save_bytes(f, order, ctx.path())
    except Exception:
        # the document can still be saved when the entry is gone
        del a[k]
        del m[k]
        check_file(ctx, f, m, order)
        ctx.impl()
        return
    ctx.fail('saved an unstorable entry: reopened as %s' % str(label(plain.open_bytes(data).content))[:300])


def shards(tier):
    out = [{'values': 1, 'order': o, 'origin': og} for o in spec.ORDERS for og in ('loaded', 'created')]
    out += [{'large': n, 'order': o, 'origin': og} for n in (8, 9, 33, 100, 300) for o in spec.ORDERS for og in ('loaded', 'created')]
    for i in range(len(INITIAL)):
        for og in ('loaded', 'created'):
            for o in spec.ORDERS:
                deep = tier == 'thorough' or (i, og, o) == (1, 'loaded', 'little')
                for first in [None] + (NAMES if deep else []):
                    out.append({'init': i, 'origin': og, 'order': o, 'first': first})
    return out


def ext_shards(tier):
    return [s for s in shards(tier) if s['origin'] == 'loaded' and s['order'] == 'little' and not s.get('first')]


def run(shard, ctx):
    order, origin = shard['order'], shard['origin']
    if 'values' in shard:
        for pos in (0, 1, 2):
            for ok, ks, vs in ((True, GOODKEYS, [1, u'v', bytearray(b'q')]), (True, [u'k'], GOOD),
                               (False, [u'k'], BAD), (False, BADKEYS, [1, u'v', None])):
                for i, k in enumerate(ks):
                    for j, v in enumerate(vs):
                        key = 'value/%s/%s/%d/%s/%d.%s/%d.%s' % (order, origin, pos, ok, i, repr(k)[:20], j, repr(v)[:20])
                        ctx.case(key, values, ctx, order, origin, k, v, pos, ok)
        return
    if 'large' in shard:
        for name in NAMES:
            ctx.case('large/%s/%s/%d/%s' % (order, origin, shard['large'], name), large, ctx, order, origin, shard['large'], name)
        return
    init = INITIAL[shard['init']]

    def go(h):
        ctx.case('%d/%s/%s/%s' % (shard['init'], origin, order, '|'.join(h)), sequence, ctx, order, origin, init, h)
    if shard['first']:
        for h in itertools.product(NAMES, repeat=2):
            go((shard['first'],) + h)
        return
    for n in (0, 1, 2):
        for h in itertools.product(NAMES, repeat=n):
            go(h)
