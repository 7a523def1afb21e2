# -*- coding: utf-8 -*-
"""Documents with many objects: things that only start to matter after some
number of objects, reads, edits or documents."""
import gc

import avb
import avb.file

from . import docs, graphs, plain, spec

SIZES = (40, 130, 300, 1050)
LARGE = (5000,)


def picks(n):
    """positions around every power of two"""
    out = set((0, n - 1))
    for b in range(1, 17):
        for i in ((1 << b) - 1, 1 << b, (1 << b) + 1, n - (1 << b)):
            if 0 <= i < n:
                out.add(i)
    return sorted(out)


class Many(object):
    """a sequence of n clips with attributes behind a bin"""
    def __init__(self, n, root_first=False):
        d = docs.Doc()
        self.n = n
        root = d.reserve('ABIN') if root_first else None
        self.attrs, self.clips = [], []
        for i in range(n):
            self.attrs.append(d.put('ATTR', {'$items': [docs.attr(u'n', i)]}))
            self.clips.append(d.add('FILL', length=i + 1, attributes=docs.R(self.attrs[-1])))
        self.seq = d.put('SEQU', docs.default('SEQU', components=[docs.R(c) for c in self.clips]))
        ra = d.put('ATTR', {'$items': [docs.attr(u'seq', docs.R(self.seq))]})
        if root_first:
            d.fill(root, attributes=docs.R(ra))
        else:
            root = d.add('ABIN', attributes=docs.R(ra))
        self.d, self.root = d, root
        self.m = dict((i + 1, (c, v)) for i, (c, v) in enumerate(d.chunks))

    def data(self, order):
        return self.d.encode(order, self.root)

    def set_length(self, i, x):
        v = dict(self.m[self.clips[i]][1])
        v['length'] = x
        self.m[self.clips[i]] = ('FILL', v)

    def set_attr(self, i, x):
        self.m[self.attrs[i]] = ('ATTR', {'$items': [docs.attr(u'n', x)]})

    def sequence(self, f):
        return f.content.attributes[u'seq']

    def sweeps(self, f):
        """ways to come by every clip: (name, iterator of (position, clip))"""
        at = dict((c, i) for i, c in enumerate(self.clips))
        yield 'forwards', ((i, c) for i, c in enumerate(self.sequence(f).components))
        yield 'by number', ((i, f.read_object(self.clips[i])) for i in range(self.n))
        yield 'backwards', ((i, self.sequence(f).components[i]) for i in range(self.n - 1, -1, -1))
        yield 'by class', ((at[c.instance_id], c) for c in f.iter_class_ids([b'FILL']))
        yield 'walk', ((at[c.instance_id], c) for c in avb.core.walk_references(f.content)
                       if plain.cid_of(c) == 'FILL')

    def check_saved(self, ctx, f, order, what):
        m = graphs.check_saved(plain.save_bytes(f, order, ctx.path()), order, self.m, self.root)
        if m:
            ctx.fail('%s: %s' % (what, m))


def subsets(n):
    p = picks(n)
    return [('none', []), ('all', list(range(n))), ('powers', p), ('first', [0]), ('last', [n - 1]),
            ('middle', [n // 2]), ('every 7th', list(range(3, n, 7)))]


def identity(ctx, n, order, name, held_at, root_first):
    """held objects are the ones met again however many are read meanwhile"""
    m = Many(n, root_first)
    f = plain.open_bytes(m.data(order))
    seq = m.sequence(f) if name != 'none' else None
    held = dict((i, f.read_object(m.clips[i])) for i in held_at)
    inner = dict((i, held[i].attributes) for i in held_at)
    for rnd in range(2):
        for what, it in m.sweeps(f):
            for i, c in it:
                if i in held and c is not held[i]:
                    ctx.fail('%s: held clip %d of %d is another object' % (what, i, n))
                if c.length != i + 1 or c.instance_id != m.clips[i]:
                    ctx.fail('%s: clip %d of %d is %r' % (what, i, n, c))
                a = c.attributes
                if i in inner and a is not inner[i]:
                    ctx.fail('%s: held attributes %d of %d are another object' % (what, i, n))
                if list(a.items()) != [(u'n', i)]:
                    ctx.fail('%s: attributes %d of %d are %r' % (what, i, n, a))
            ctx.step(n)
            if seq is not None and f.content.attributes[u'seq'] is not seq:
                ctx.fail('%s: the held sequence is another object' % what)
        c = a = it = None
        gc.collect()
    ctx.impl()


def edits(ctx, n, order, name, at, how):
    """every edit reaches the file, however many objects are edited or read"""
    m = Many(n)
    f = plain.open_bytes(m.data(order))
    for i in at:
        if how == 'length':
            m.sequence(f).components[i].length = 7000000 + i
            m.set_length(i, 7000000 + i)
        elif how == 'number':
            f.read_object(m.clips[i]).length = 8000000 + i
            m.set_length(i, 8000000 + i)
        else:
            f.read_object(m.clips[i]).attributes[u'n'] = -i
            m.set_attr(i, -i)
    ctx.step(len(at))
    gc.collect()
    for what, it in m.sweeps(f):
        for i, c in it:
            v = m.m[m.clips[i]][1]['length'], m.m[m.attrs[i]][1]['$items'][0]['value']
            if (c.length, c.attributes[u'n']) != v:
                ctx.fail('%s: clip %d of %d has %s, not %s' % (what, i, n, (c.length, c.attributes[u'n']), v))
        c = None
        ctx.step(n)
    m.check_saved(ctx, f, order, 'saved')
    # the saved document edited again
    for i in at[:3]:
        f.read_object(m.clips[i]).length = 5
        m.set_length(i, 5)
    m.check_saved(ctx, f, spec.ORDERS[order == spec.ORDERS[0]], 'saved again')
    ctx.impl()


def created(ctx, n, order, kind):
    """numbers of many new objects"""
    m = Many(40, True)
    f = plain.open_bytes(m.data(order))
    top = len(m.m)
    ids, keep = set(), []
    seq = f.create.Sequence() if kind != 'dropped' else None
    for i in range(n):
        if kind == 'dropped':
            o = f.create.TrackerParameter()
        elif kind == 'clips':
            o = f.create.Filler()
            o.length = i
            seq.components.append(o)
        else:
            o = f.create.TrackerParameter()
            keep.append(o)
        k = o.instance_id
        if k in ids or 0 <= k <= top:
            ctx.fail('new object %d of %d has the used number %d' % (i, n, k))
        ids.add(k)
        if kind != 'dropped' and (i & (i - 1)) == 0 and f.read_object(k) is not o:
            ctx.fail('number %d of new object %d of %d leads elsewhere' % (k, i, n))
    ctx.step(n)
    for i in (0, n // 2, n - 1):
        if keep and f.read_object(keep[i].instance_id) is not keep[i]:
            ctx.fail('number %d of %d leads elsewhere' % (keep[i].instance_id, n))
    for what, it in m.sweeps(f):
        for i, c in it:
            if c.length != i + 1 or c.instance_id != m.clips[i]:
                ctx.fail('%s: clip %d of the file is %r' % (what, i, c))
    if kind == 'clips':
        if [c.length for c in seq.components] != list(range(n)):
            ctx.fail('the clips are not the created ones')
        f.content.attributes[u'new'] = seq
        g = plain.open_bytes(plain.save_bytes(f, order, ctx.path()))
        if [c.length for c in g.content.attributes[u'new'].components] != list(range(n)):
            ctx.fail('%d new clips are not the saved ones' % n)
        if [c.length for c in m.sequence(g).components] != list(range(1, 41)):
            ctx.fail('the clips of the file are not the saved ones')
    ctx.impl()


def refused(ctx, n, k, how, attempt):
    """one foreign object among many"""
    m = Many(n)
    f = plain.open_bytes(m.data('little'))
    g = plain.open_bytes(m.data('big')) if how != 'created' else avb.file.AVBFile()
    seq = m.sequence(f)
    if how == 'same':
        # the foreign object has the number of the one it replaces
        o = g.read_object(m.clips[k])
        seq.components[k] = o
    elif how == 'loaded':
        o = g.read_object(m.attrs[(k + 1) % n])
        seq.components[k].attributes = o
    else:
        o = g.create.Filler()
        seq.components.insert(k, o)
    attempt(ctx, f, '%s object at %d of %d' % (how, k, n))
    ctx.impl()


def quiet(ctx, n, order):
    """reading many objects leaves the saved bytes alone"""
    m = Many(n)
    data = m.data(order)
    for o2 in spec.ORDERS:
        want = plain.save_bytes(plain.open_bytes(data), o2, ctx.path())
        f = plain.open_bytes(data)
        for what, it in m.sweeps(f):
            for i, c in it:
                repr(c), list(c.attributes.items()), c.name
                if i % 5 == 0:
                    c.copy(f)
            c = None
            gc.collect()
            if what in ('by number', 'walk') and plain.save_bytes(f, o2, ctx.path()) != want:
                ctx.fail('%s of %d clips: saved differently' % (what, n))
            ctx.step(n)
    ctx.impl()


def documents(ctx, n, keep):
    """many documents in one process stay apart"""
    fs = []
    m = Many(3)
    data = m.data('little')
    for i in range(n):
        f = plain.open_bytes(data) if i % 3 else avb.file.AVBFile()
        if i % 3:
            if [c.length for c in m.sequence(f).components] != [1, 2, 3]:
                ctx.fail('document %d shows %r' % (i, [c.length for c in m.sequence(f).components]))
            m.sequence(f).components[1].length = 100 + i
            m.sequence(f).components[2].attributes[u'n'] = i
        else:
            if f.content.attributes is not None and len(f.content.attributes) or len(f.content.items):
                ctx.fail('new document %d is not empty' % i)
            a = f.create.Attributes()
            a[u'i'] = i
            f.content.attributes = a
            f.content.add_mob(f.create.Composition(name=u'%d' % i))
            if f.create.Filler().root is not f:
                ctx.fail('an object of document %d belongs to another' % i)
        if keep:
            fs.append((i, f))
        else:
            fs = [(i, f)]
        ctx.step()
    for i, f in fs:
        if i % 3:
            got = [c.length for c in m.sequence(f).components], m.sequence(f).components[2].attributes[u'n']
            want = [1, 100 + i, 3], i
        else:
            got, want = (f.content.attributes[u'i'], [x.name for x in f.content.mobs]), (i, [u'%d' % i])
        if got != want:
            ctx.fail('document %d shows %r' % (i, got))
        if i in (0, 1, n // 2, n - 1, n - 2) and keep:
            g = plain.open_bytes(plain.save_bytes(f, 'big', ctx.path()))
            if i % 3:
                got = [c.length for c in m.sequence(g).components], m.sequence(g).components[2].attributes[u'n']
            else:
                got = g.content.attributes[u'i'], [x.name for x in g.content.mobs]
            if got != want:
                ctx.fail('document %d is saved as %r' % (i, got))
    ctx.impl()
