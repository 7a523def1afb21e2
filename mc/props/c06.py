# -*- coding: utf-8 -*-
"""C06: saving a graph that contains another document's object is refused."""
import os

import avb

from mc import cases, docs, graphs, many, plain, spec
from mc.props import c05

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of foreign objects (origin, instance number) at every place that can hold a reference '
             'and at every position of small graphs; the real save has to raise and to leave the destination alone')
RULE = 'distinct (place, origin of the foreign object) documents'
BOUNDS = ('every reference place of every kind, and every position in all acyclic graphs of 4 objects with 6 kinds, x '
          'foreign objects loaded from an equal document, loaded from another one and created, with instance numbers '
          'that are free, used by another object, used by the very object replaced and used by the root; hosts loaded '
          'and created; one foreign object at the positions around each power of two in sequences of up to 1050 clips; whole reference lists, helper records and roots of another document; both orders of references')
ASSUMPTIONS = ['helper records without reference to an object are values and may be used in any document']


def foreign(variant, number, keep):
    """a foreign leaf object whose instance number is the given one"""
    if variant == 'loaded':
        d = docs.Doc()
        for i in range(number):
            d.put(*spec.leaf(i + 1))
        d.add('ABIN')
        f = plain.open_bytes(d.encode('little'))
        o = f.read_object(number)
    elif variant == 'edited':
        d = docs.Doc()
        for i in range(number):
            d.put(*spec.leaf(i + 1))
        d.add('ABIN')
        f = plain.open_bytes(d.encode('big'))
        o = f.read_object(number)
        o.settings = bytearray(b'leaf9')
    else:
        f = avb.file.AVBFile()
        o = None
        while o is None or o.instance_id < number:
            o = f.create.TrackerParameter()
        o.settings = bytearray(b'leaf1')
        if o.instance_id != number:
            return None
    keep.append(f)
    return o


def attempt(ctx, f, what):
    """the save raises and does not touch the destination"""
    p = ctx.path()
    with open(p, 'wb') as g:
        g.write(b'previous')
    for order in spec.ORDERS:
        try:
            f.write(p, order)
        except Exception:
            pass
        else:
            ctx.fail('%s: saved' % what)
        with open(p, 'rb') as g:
            if g.read() != b'previous':
                ctx.fail('%s: the refused save changed the destination' % what)
    ctx.step(2)


def host(cid, v, how):
    """document with 5 leaves and one object; {1..5: leaf}, object"""
    if how == 'created':
        f = avb.file.AVBFile()
        refs = plain.Refs(f)
        for i in range(1, 6):
            refs[i]
        f.content = plain.make_object(f, cid, v, refs)
        return f, dict(refs), f.content
    chunks = [spec.leaf(i) for i in range(1, 6)] + [(cid, v)]
    f = plain.open_bytes(spec.container([(c, spec.encode(c, x, 'little')) for c, x in chunks], 6, 'little'))
    return f, dict((i, f.read_object(i)) for i in range(1, 6)), f.content


def place(ctx, cid, v, i, how):
    """reference i of the object leads to another document"""
    marked = c05_mark(v, i, [0])
    for variant in ('loaded', 'edited', 'created'):
        for which in ('free', 'same', 'other', 'root'):
            keep = []
            f, leaves, obj = host(cid, v, how)
            target = only_target(v, i)
            n = {'free': 77, 'same': leaves[target].instance_id if target else None,
                 'other': leaves[target % 5 + 1].instance_id if target else leaves[1].instance_id,
                 'root': obj.instance_id}[which]
            if n is None:
                continue
            o = foreign(variant, n, keep)
            if o is None:
                continue
            refs = dict(leaves)
            refs['foreign'] = o
            plain.set_fields(f, obj, cid, marked, refs)
            attempt(ctx, f, '%s object with number %d (%s)' % (variant, n, which))
            # repaired, the document can be saved
            plain.set_fields(f, obj, cid, v, leaves)
            data = plain.save_bytes(f, 'little', ctx.path())
            chunks = dict((k, spec.leaf(k)) for k in range(1, 6))
            chunks[6] = (cid, v)
            m = graphs.check_saved(data, 'little', chunks, 6)
            if m:
                ctx.fail('after putting back the own object: %s' % m)
            ctx.impl()


def c05_mark(v, i, n):
    if c05.is_ref(v):
        n[0] += 1
        return ('R', 'foreign') if n[0] - 1 == i else v
    if isinstance(v, dict):
        return dict((k, c05_mark(x, i, n)) for k, x in v.items())
    if isinstance(v, list):
        return [c05_mark(x, i, n) for x in v]
    return v


def only_target(v, i):
    out = []

    def go(v):
        if c05.is_ref(v):
            out.append(v[1])
        elif isinstance(v, dict):
            for x in v.values():
                go(x)
        elif isinstance(v, list):
            for x in v:
                go(x)
    go(v)
    return out[i]


def position(ctx, mask, rot, how):
    """the document of one node of an acyclic graph is exchanged, node by node"""
    edges = {1: [t for b, t in ((1, 2), (2, 3), (4, 4)) if mask & b] , 2: [t for b, t in ((8, 3), (16, 4)) if mask & b],
             3: [4] if mask & 32 else [], 4: []}
    kinds = tuple(graphs.KINDS[(rot + i) % 6] for i in range(4))
    seen, cyc = graphs.reachable(edges, 1)
    chunks, root, at = c05.model(edges, kinds, c05.PERM)
    data = spec.container([(chunks[i][0], spec.encode(chunks[i][0], chunks[i][1], 'little')) for i in sorted(chunks)],
                          root, 'little')
    for node in range(1, 5):
        sets = []
        if how == 'loaded':
            f, g = plain.open_bytes(data), plain.open_bytes(data)
            a = dict((i, f.read_object(i)) for i in chunks)
            b = dict((i, g.read_object(i)) for i in chunks)
        else:
            f, g = avb.file.AVBFile(), avb.file.AVBFile()
            a, b = graphs.create(f, chunks), graphs.create(g, chunks)
        # node of g, its references lead to the objects of f
        x = at[node]
        plain.set_fields(g, b[x], chunks[x][0], chunks[x][1], a)
        mixed = dict(a)
        mixed[x] = b[x]
        for i in chunks:
            if i != x:
                plain.set_fields(f, a[i], chunks[i][0], chunks[i][1], mixed)
        f.content = mixed[root]
        what = 'node %d of %s' % (node, edges)
        if node in seen:
            attempt(ctx, f, what)
        else:
            m = graphs.check_saved(plain.save_bytes(f, 'little', ctx.path()), 'little', chunks, root)
            if m:
                ctx.fail('%s is not reachable: %s' % (what, m))
        ctx.impl()


def special(ctx, what, how):
    data = docs.rich().encode('little')

    def doc():
        return plain.open_bytes(data)
    f, g = doc(), doc()
    mf = [m for m in f.content.mobs]
    mg = [m for m in g.content.mobs]
    if what == 'root':
        f.content = g.content
    elif what == 'new root':
        f.content = avb.file.AVBFile().content
    elif what == 'bin item':
        item = f.create.BinItem(mg[0]) if how else None
        if item is None:
            item = f.create.BinItem()
            item.mob = mg[0]
            item.x = item.y = 0
            item.keyframe = 0
            item.user_placed = 0
        f.content.items.append(item)
    elif what == 'foreign bin item':
        f.content.items[0] = g.content.items[0]
    elif what == 'track list':
        mf[0].tracks = mg[0].tracks
    elif what == 'track':
        mf[0].tracks[0] = mg[0].tracks[0]
    elif what == 'component':
        mf[0].tracks[0].component = mg[0].tracks[0].component
    elif what == 'list':
        sf, sg = first_sequence(f), first_sequence(g)
        if how:
            sf.components = sg.components
        else:
            sf.components[:] = sg.components
    elif what == 'list item':
        sf, sg = first_sequence(f), first_sequence(g)
        sf.components.append(sg.components[0])
    elif what == 'attributes':
        mf[0].attributes = g.create.Attributes()
    elif what == 'attribute':
        a = f.create.Attributes()
        a[u'x'] = mg[0]
        mf[0].attributes = a
    elif what == 'descriptor':
        mf[0].descriptor = g.create.MediaDescriptor()
    attempt(ctx, f, what)
    ctx.impl()


def first_sequence(f):
    return [x for x in f.iter_class_ids([b'SEQU'])][0]


SPECIAL = ('root', 'new root', 'bin item', 'foreign bin item', 'track list', 'track', 'component', 'list', 'list item',
           'attributes', 'attribute', 'descriptor')


def shards(tier):
    return ([{'w': 'place', 'part': i} for i in range(24)] + [{'w': 'pos', 'part': i} for i in range(8)] +
            [{'w': 'special'}] + [{'w': 'many', 'n': n} for n in many.SIZES])


def run(shard, ctx):
    w = shard['w']
    if w == 'place':
        for cid in cases.KINDS[shard['part']::24]:
            v = spec.generate(cid, nrefs=5)[0]
            n = [0]
            c05.count(v, n)
            for i in range(n[0]):
                for how in ('loaded', 'created'):
                    k = 'place/%s/%d/%s' % (cid, i, how)
                    ctx.state(k)
                    ctx.case(k, place, ctx, cid, v, i, how)
    elif w == 'many':
        n = shard['n']
        for i in many.picks(n) if n < 1000 or ctx.thorough else many.picks(n)[::3]:
            for how in ('same', 'loaded', 'created'):
                k = 'many/%d/%d/%s' % (n, i, how)
                ctx.state(k)
                ctx.case(k, many.refused, ctx, n, i, how, attempt)
    elif w == 'pos':
        for mask in range(shard['part'], 64, 8):
            for rot in range(6):
                for how in ('loaded', 'created'):
                    k = 'pos/%d/%d/%s' % (mask, rot, how)
                    ctx.state(k)
                    ctx.case(k, position, ctx, mask, rot, how)
    else:
        for what in SPECIAL:
            for how in (0, 1):
                k = 'special/%s/%d' % (what, how)
                ctx.state(k)
                ctx.case(k, special, ctx, what, how)
