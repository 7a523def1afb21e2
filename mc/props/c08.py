# -*- coding: utf-8 -*-
"""C08: reading changes nothing; saving is deterministic and idempotent."""
import gc
import io
import itertools
import sys

import avb
import avb.core

from mc import cases, docs, many, plain, spec

LEVEL = 'model_checking'
TECHNIQUE = 'stateless exploration of all read-only operation sequences on the real library, saved bytes as the oracle'
RULE = 'distinct operation sequences / (kind, value) documents'
BOUNDS = ('all sequences of up to 2 (3 in the thorough tier) of 32 read-only operations on a 25 object project, '
          'both byte orders; open / traverse / call every reading method and property, query every declared property with and without a default / save / save / reopen / save '
          'for every kind, optional layout and boundary value, and for curves with 1 to 3 points in every order; complete reads of documents of up to 1050 clips in 5 ways, objects copied meanwhile; once more with the compiled reader for the kinds that have one')
ASSUMPTIONS = []


def mobs(f):
    return list(f.content.mobs)


def seq(f):
    return mobs(f)[0].tracks[0].component


def traverse(o, seen=None):
    """touch everything reachable through attributes"""
    seen = {} if seen is None else seen
    if id(o) in seen:
        return
    seen[id(o)] = o
    if hasattr(o, 'property_data'):
        for k in list(o.property_data.keys()):
            traverse(getattr(o, k), seen)
    elif isinstance(o, dict):
        for k in o:
            traverse(o[k], seen)
    elif isinstance(o, (list, tuple)):
        for x in o:
            traverse(x, seen)


CALLS = {
    'value_at': [(t,) for t in (-5, -0.5, 0, 0.5, 1, 15, 1e7)],
    'nearest_index': [(-5,), (0,), (1.5,), (99,)],
    'integrate': [(0, 3), (-2, 2)],
    'nearest_component_at_time': [(-1,), (0,), (3,), (50,)], 'nearest_index_at_time': [(-1,), (0,), (3,), (50,)],
    'positions': [()], 'components': [()], 'dependant_mobs': [()],
    'compositionmobs': [()], 'mastermobs': [()], 'toplevel': [()], 'find_by_mob_id': [(plain.make_mob(docs.mob_id(2)),)],
    'get': [('name', None), ('nope', 1)], 'get_property_def': [('name',), ('nope',)],
    'keys': [()], 'items': [()], 'values': [()], 'index': [(None,)], 'count': [(None,)], '__len__': [()], '__iter__': [()],
    '__reversed__': [()], '__contains__': [(None,), ('x',)], '__repr__': [()], '__str__': [()], '__hash__': [()],
    '__eq__': [(None,), ([],)], '__ne__': [({},)], '__getitem__': [(0,), (-1,), ('x',), (slice(0, 2),)], '__add__': [([],)],
    '__mul__': [(2,)], '__bool__': [()], '__dir__': [()], '__sizeof__': [()]}


def close(o):
    try:
        return all(abs(p.time) < 1000 for p in o.control_points)
    except Exception:
        return False


def queries(o, n=[0]):
    """every property and reading method of an object; whatever they raise"""
    t = type(o)
    for k in t.__mro__:
        for a, v in list(k.__dict__.items()):
            if isinstance(v, property):
                try:
                    x = getattr(o, a)
                    if hasattr(x, '__next__'):
                        list(x)
                except Exception:
                    pass
    for a in CALLS:
        if a == 'integrate' and not close(o):
            continue        # a sample for every frame between the points
        if a == 'components' and isinstance(getattr(t, a, None), property):
            continue
        for args in CALLS[a]:
            try:
                x = getattr(o, a)
                if callable(x):
                    x = x(*args)
                    if hasattr(x, '__next__'):
                        list(x)
            except Exception:
                pass
    for d in getattr(t, 'propertydefs', ()) if hasattr(o, 'property_data') else ():
        for fn in (lambda a: o.get(a), lambda a: o.get(a, 7), lambda a: o.get(a, u'other'), lambda a: getattr(o, a),
                   lambda a: getattr(o, a, 7), lambda a: hasattr(o, a), lambda a: o.get_property_def(a)):
            for a in set((d.name, d.long_name)):
                try:
                    fn(a)
                except Exception:
                    pass


def quiet(fn, *args):
    # reading an unreadable object prints its data
    keep = sys.stdout
    sys.stdout = io.StringIO()
    try:
        return fn(*args)
    finally:
        sys.stdout = keep


def ask(f):
    seen = {}
    traverse(f.content, seen)
    for o in list(seen.values()):
        if hasattr(o, 'property_data') or isinstance(o, (list, dict)) or isinstance(o, avb.mobid.MobID):
            quiet(queries, o)


def op_walk(f):
    for o in avb.core.walk_references(f.content):
        repr(o)


def op_repr(f):
    for i in range(1, len(f.object_positions)):
        try:
            repr(f.read_object(i))
        except Exception:
            pass


def op_damaged(f):
    for i in range(1, 3):
        try:
            f.read_object(i)
        except Exception:
            continue
    try:
        f.read_object(len(f.object_positions) + 5)
    except Exception:
        pass


def op_hold(f):
    f.held = [f.read_object(i) for i in range(3, len(f.object_positions))]


def op_drop(f):
    f.held = None
    gc.collect()


def op_copy(f):
    g = avb.file.AVBFile()
    mobs(f)[0].copy(g)


def op_copycurve(f):
    g = avb.file.AVBFile()
    params(f)[2].copy(g)


def effect(f):
    return seq(f).components[3]


def params(f):
    return effect(f).param_list


def op_curve(f):
    c = params(f)[2]
    for t in (-1, 0, 0.25, 0.5, 1, 7):
        c.value_at(t)
    c.nearest_index(0.2)
    c.integrate(0, 3)
    c.value_type_name, c.interp
    for p in c.control_points:
        p.time, p.tangents, p.base_frame, list(p.point_properties)


def op_attr(f):
    for m in mobs(f):
        a = m.attributes
        if a is None:
            continue
        list(a), list(a.items()), list(a.keys()), list(a.values()), len(a)
        a.get(u'_COLOR'), a.get(u'missing', 1), u'x' in a
        for k in a:
            a[k]
        repr(a)


def op_get(f):
    for m in mobs(f):
        m.get('name', None)
        m.get('missing', 3)
        m.get_property_def('name')
        hasattr(m, 'nope')
        m.media_kind, m.mob_type, m.usage, m.mob_id, str(m.mob_id)


def op_list(f):
    c = seq(f).components
    c[0], c[-1], c[1:3], len(c), list(c), c[0] in c, list(reversed(list(c))), bool(c)
    p = params(f)
    p[0], p[1], len(p), list(p), p[0:2], p[0] in p
    try:
        p.index(p[2])
        p.count(p[2])
    except ValueError:
        pass


def op_failedsave(f):
    b = f.content
    import os
    try:
        f.write(os.path.join(f.tmpdir, 'no', 'such', 'dir', 'x.avb'))
    except (OSError, IOError):
        pass


OPS = [
    ('walk', op_walk), ('repr', op_repr), ('damaged', op_damaged), ('hold', op_hold), ('drop', op_drop),
    ('traverse', lambda f: traverse(f.content)),
    ('mobs', lambda f: mobs(f)),
    ('toplevel', lambda f: list(f.content.toplevel())),
    ('compositionmobs', lambda f: list(f.content.compositionmobs())),
    ('mastermobs', lambda f: list(f.content.mastermobs())),
    ('find', lambda f: f.content.find_by_mob_id(plain.make_mob(docs.mob_id(2)))),
    ('findnone', lambda f: f.content.find_by_mob_id(plain.make_mob(docs.mob_id(9)))),
    ('chunks', lambda f: [c.hex() for c in f.chunks()]),
    ('chunkdata', lambda f: [c.read() for c in list(f.chunks())[::-1]]),
    ('classids', lambda f: list(f.iter_class_ids([b'CMPO', b'ATTR']))),
    ('positions', lambda f: (list(seq(f).positions()), seq(f).length)),
    ('nearest', lambda f: [seq(f).nearest_component_at_time(t) for t in (-1, 0, 17, 20, 46, 99)]),
    ('clip', lambda f: (seq(f).components[1].mob, seq(f).components[1].track)),
    ('dependant', lambda f: [list(m.dependant_mobs()) for m in mobs(f)]),
    ('curve', op_curve), ('attr', op_attr), ('get', op_get), ('list', op_list), ('copy', op_copy),
    ('copycurve', op_copycurve),
    ('save', lambda f: plain.save_bytes(f, 'little', f.tmpdir + '/other.avb')),
    ('savebig', lambda f: plain.save_bytes(f, 'big', f.tmpdir + '/other.avb')),
    ('failedsave', op_failedsave),
    ('tracks', lambda f: [(t.media_kind, t.flags) for m in mobs(f) for t in m.tracks]),
    ('view', lambda f: (f.content.view_setting.columns, f.content.view_setting.attributes, f.content.items[0].mob)),
    ('ask', ask),
    ('createhelper', lambda f: (f.create.Track(), f.create.BinItem())),
]
NAMES = [n for n, _ in OPS]
FN = dict(OPS)


def base_doc(order):
    d = docs.rich()
    # two objects nothing refers to: damaged data and an unknown kind
    e = docs.Doc()
    e.raw('FILL', b'\x02\x09junk')
    e.raw('ZZZZ', b'\x03')
    shift = 2

    def sh(v):
        if isinstance(v, tuple) and v and v[0] == 'R':
            return ('R', v[1] + shift if v[1] else 0)
        if isinstance(v, dict):
            return dict((k, sh(x)) for k, x in v.items())
        if isinstance(v, list):
            return [sh(x) for x in v]
        return v
    for cid, v in d.chunks:
        e.put(cid, sh(v))
    return e.encode(order)


def baseline(order, ctx):
    data = base_doc(order)
    f = plain.open_bytes(data)
    return data, dict((o, plain.save_bytes(plain.open_bytes(data), o, ctx.path())) for o in spec.ORDERS)


def sequence(ctx, order, hist):
    data, want = ctx.cache[order]
    f = plain.open_bytes(data)
    f.tmpdir = ctx.tmp
    f.held = None
    for name in hist:
        FN[name](f)
        ctx.step()
        if f.modified_objects:
            ctx.fail('%s marked %r modified' % (name, list(f.modified_objects.values())))
        if f.reading or f.octx is not None:
            ctx.fail('%s left the document in a reading or saving state' % name)
    for o in spec.ORDERS:
        got = plain.save_bytes(f, o, ctx.path())
        if got != want[o]:
            ctx.fail('saved bytes (%s) differ after reading operations %s' % (o, ','.join(hist)))
    ctx.impl()


def kind(ctx, cid, order, v):
    data = spec.golden(cid, v, order)
    f = plain.open_bytes(data)
    first = plain.save_bytes(plain.open_bytes(data), order, ctx.path())
    traverse(f.content)
    if not isinstance(f.content, (dict, list)):
        # not every value has a textual form (for example an unknown mob type)
        try:
            repr(f.content)
        except Exception:
            pass
    ask(f)
    ctx.step(4)
    if f.modified_objects:
        ctx.fail('reading marked %r modified' % (f.modified_objects,))
    a = plain.save_bytes(f, order, ctx.path())
    b = plain.save_bytes(f, order, ctx.path('b.avb'))
    if a != first:
        ctx.fail('traversal changed the saved bytes')
    if a != b:
        ctx.fail('second save differs')
    if f.modified_objects:
        ctx.fail('saving marked objects modified')
    g = plain.open_bytes(a)
    c = plain.save_bytes(g, order, ctx.path())
    if c != a:
        ctx.fail('reopening and saving changed the bytes')
    ctx.impl()


TIMES = (0, 10, 20, 30)


def curve_values():
    """control points in any order, with repeated times"""
    base = spec.generate('PRCL')[0]
    p = base['control_points'][0]
    for n in (1, 2, 3):
        for t in itertools.product(TIMES[:n + 1], repeat=n):
            for kind in range(1, 7):
                yield 'curve/%s/%d' % ('.'.join(map(str, t)), kind), dict(
                    base, interp_kind=kind, control_points=[dict(p, offset=[x, 1], value=x) for x in t])


def shards(tier):
    out = [{'curves': o} for o in spec.ORDERS] + [{'many': n} for n in many.SIZES]
    out += [{'seq': n, 'order': o} for n in NAMES for o in spec.ORDERS]
    return out + cases.kind_shards('quick', per=160)


def ext_shards(tier):
    return cases.compiled([s for s in shards(tier) if s.get('curves') != 'big' and 'many' not in s])


def run(shard, ctx):
    if 'many' in shard:
        for order in spec.ORDERS:
            k = 'many/%d/%s' % (shard['many'], order)
            ctx.state(k)
            ctx.case(k, many.quiet, ctx, shard['many'], order)
        return
    if 'curves' in shard:
        for k, v in curve_values():
            ctx.state(k)
            ctx.case(k + '/' + shard['curves'], kind, ctx, 'PRCL', shard['curves'], v)
        return
    if 'seq' in shard:
        order = shard['order']
        ctx.cache = {order: baseline(order, ctx)}
        depth = 3 if ctx.thorough else 2
        for n in range(0, depth):
            for rest in itertools.product(NAMES, repeat=n):
                h = (shard['seq'],) + rest
                k = '%s/%s' % (order, '.'.join(h))
                ctx.state(k)
                ctx.case(k, sequence, ctx, order, h)
        return
    for k, o, v in cases.each(shard, 'quick'):
        if not ctx.thorough and len(o) > 2 and not all(x is False for x in o.values()):
            continue
        ctx.state(k)
        ctx.case(k, kind, ctx, shard['cid'], shard['order'], v)
