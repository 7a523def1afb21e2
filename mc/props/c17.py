# -*- coding: utf-8 -*-
"""C17: bin lookups and filters reflect the bin's current contents."""
import gc
import itertools

import avb

from mc import docs, plain, spec

LEVEL = 'model_checking'
TECHNIQUE = ('explicit exploration of all histories of bin edits, mob edits and lookups up to a depth against a list '
             'model, every step executed on the real library')
RULE = 'distinct model states (items, mob ids, mob types) reached'
BOUNDS = ('all histories of up to 3 (4 in the thorough tier, loaded bin) of 37 operations on a 3 item bin with 5 '
          'candidate mobs, loaded (mobs held or not, with collection steps) and created; both bin kinds over all '
          '3 mob types x 215 usage codes, read, set, and changed after a listing; histories of up to 2 operations on bins of 14 items and '
          'of a lookup and an operation on bins of 44 and 204')
ASSUMPTIONS = ['where several items carry the same id any of them may be returned']

IDS = (1, 2, 3, 4, 9)
# label -> (id, mob_type_id, usage_code)
MOBS = {'A': (1, 1, 0), 'B': (2, 2, 0), 'C': (3, 3, 0), 'D': (1, 1, 1), 'E': (4, 2, 5)}


def mob_id(n):
    return plain.make_mob(docs.mob_id(n))


def bulk_mob(i):
    """(name, id, type, usage) of the ith extra mob"""
    return u'x%d' % i, 20 + i, i % 3 + 1, (i // 3) % 2 * 3


def document(bulk=0):
    d = docs.Doc()
    at = {}
    for k in 'ABCDE':
        i, t, u = MOBS[k]
        at[k] = d.add('CMPO', name=k, mob_type_id=t, usage_code=u, mob_id=docs.mob_id(i))
    it = docs.binitem(1)
    null = dict(it, mob=docs.R(0))
    # objects 4 and 5 are not in the bin
    extra = []
    for i in range(bulk):
        name, n, t, u = bulk_mob(i)
        extra.append(docs.binitem(d.add('CMPO', name=name, mob_type_id=t, usage_code=u, mob_id=docs.mob_id(n))))
    d.add('ABIN', items=[docs.binitem(at['A']), null, docs.binitem(at['B'])] + extra + [docs.binitem(at['C'])])
    return d.encode('little')


class World(object):
    """the library side"""

    def __init__(self, origin, data, bulk=0):
        self.origin = origin
        if origin == 'created':
            f = avb.file.AVBFile()
            self.objs = {}
            for k in 'ABCDE':
                i, t, u = MOBS[k]
                m = f.create.Composition()
                m.name, m.mob_type_id, m.usage_code, m.mob_id = k, t, u, mob_id(i)
                self.objs[k] = m
            b = f.content
            for k in ['A', None, 'B'] + list(range(bulk)) + ['C']:
                it = f.create.BinItem()
                if isinstance(k, int):
                    name, n, t, u = bulk_mob(k)
                    m = f.create.Composition()
                    m.name, m.mob_type_id, m.usage_code, m.mob_id = name, t, u, mob_id(n)
                    it.mob = m
                else:
                    it.mob = self.objs.get(k)
                b.items.append(it)
        else:
            f = plain.open_bytes(data)
            self.objs = {}
            if origin == 'held':
                self.objs = dict((k, f.read_object(i + 1)) for i, k in enumerate('ABCDE'))
        self.f = f
        self.b = f.content

    def mob(self, k, keep=False):
        if k in self.objs:
            return self.objs[k]
        m = self.f.read_object('ABCDE'.index(k) + 1)
        if keep:
            self.objs[k] = m
        return m

    def item(self, k):
        it = self.f.create.BinItem()
        it.mob = self.mob(k) if k else None
        return it


class Model(object):
    def __init__(self, bulk=0):
        self.items = ['A', None, 'B', 'C']
        self.at = dict((k, list(v)) for k, v in MOBS.items())
        for i in range(bulk):
            name, n, t, u = bulk_mob(i)
            self.items.insert(3 + i, name)
            self.at[name] = [n, t, u]

    def find(self, i):
        return [k for k in self.items if k and self.at[k][0] == i]

    def key(self):
        return (tuple(self.items), tuple(sorted((k, tuple(v)) for k, v in self.at.items())))


def m_set(m, k, pos, v):
    m.at[k][pos] = v


def inplace(w, k, n, how):
    m = w.mob(k, True)
    b = bytearray(mob_id(n).bytes_le)
    if how == 'bytes':
        m.mob_id.bytes_le[:] = b
    elif how == 'urn':
        m.mob_id.urn = mob_id(n).urn
    else:
        x = mob_id(n)
        m.mob_id.material = x.material
        m.mob_id.instanceLow = x.instanceLow
        m.mob_id.instanceMid = x.instanceMid
        m.mob_id.instanceHigh = x.instanceHigh
        m.mob_id.SMPTELabel = x.SMPTELabel
        m.mob_id.length = x.length


OPS = {}


def op(name, lib, model):
    OPS[name] = (lib, model)


for k in 'ADE':
    op('add' + k, lambda w, k=k: w.b.add_mob(w.mob(k)), lambda m, k=k: m.items.append(k))
op('insertD', lambda w: w.b.items.insert(0, w.item('D')), lambda m: m.items.insert(0, 'D'))
op('insert0', lambda w: w.b.items.insert(1, w.item(None)), lambda m: m.items.insert(1, None))
op('appendE', lambda w: w.b.items.append(w.item('E')), lambda m: m.items.append('E'))
for i in (0, 1, -1):
    op('del%d' % i, lambda w, i=i: w.b.items.pop(i), lambda m, i=i: m.items.pop(i))
op('delall', lambda w: w.b.items.__delitem__(slice(None)), lambda m: m.items.__delitem__(slice(None)))
op('assign', lambda w: setattr(w.b, 'items', [w.item('B'), w.item('E')]), lambda m: setattr(m, 'items', ['B', 'E']))
op('filter', lambda w: setattr(w.b, 'items', w.b.items[::-1]), lambda m: setattr(m, 'items', m.items[::-1]))
op('reverse', lambda w: w.b.items.reverse(), lambda m: m.items.reverse())
op('dup', lambda w: w.b.items.append(w.item(w.b.items[0].mob and w.b.items[0].mob.name)), lambda m: m.items.append(m.items[0]))
for i, k in ((0, 'D'), (0, 'E'), (-1, 'A')):
    op('replace%d%s' % (i, k), lambda w, i=i, k=k: setattr(w.b.items[i], 'mob', w.mob(k)),
       lambda m, i=i, k=k: m.items.__setitem__(i, k))
op('swap', lambda w: [w.b.items.append(w.b.items.pop(0))], lambda m: m.items.append(m.items.pop(0)))
for k, n in (('A', 4), ('A', 2), ('B', 1), ('B', 9), ('E', 1), ('C', 1)):
    op('id%s%d' % (k, n), lambda w, k=k, n=n: setattr(w.mob(k), 'mob_id', mob_id(n)), lambda m, k=k, n=n: m_set(m, k, 0, n))
op('bytesA4', lambda w: inplace(w, 'A', 4, 'bytes'), lambda m: m_set(m, 'A', 0, 4))
op('urnB1', lambda w: inplace(w, 'B', 1, 'urn'), lambda m: m_set(m, 'B', 0, 1))
op('partsA2', lambda w: inplace(w, 'A', 2, 'parts'), lambda m: m_set(m, 'A', 0, 2))
for k, t in (('A', 2), ('B', 1), ('C', 1)):
    op('type%s%d' % (k, t), lambda w, k=k, t=t: setattr(w.mob(k), 'mob_type_id', t), lambda m, k=k, t=t: m_set(m, k, 1, t))
for k, u in (('A', 3), ('D', 0)):
    op('usage%s%d' % (k, u), lambda w, k=k, u=u: setattr(w.mob(k), 'usage_code', u), lambda m, k=k, u=u: m_set(m, k, 2, u))
for n in (1, 2, 4, 9):
    op('find%d' % n, lambda w, n=n: w.b.find_by_mob_id(mob_id(n)), lambda m: None)
op('mobs', lambda w: list(w.b.mobs), lambda m: None)
op('collect', lambda w: gc.collect(), lambda m: None)
NAMES = sorted(OPS)
LOOKUPS = [n for n in NAMES if n.startswith('find')]


def names(it):
    return [m.name for m in it]


def check(ctx, w, m, what):
    for n in IDS if len(m.items) < 20 else IDS + tuple(range(19, 20 + len(m.items), 7)):
        r = w.b.find_by_mob_id(mob_id(n))
        want = m.find(n)
        if r is None:
            if want:
                ctx.fail('%s: looking up id %d found nothing, the bin holds %s' % (what, n, want))
        elif r.name not in want:
            ctx.fail('%s: looking up id %d returned %s, the bin holds %s' % (what, n, r.name, want))
    def t(k, x):
        return k and m.at[k][1] == x
    for name, got, want in (
            ('mobs', names(w.b.mobs), [k for k in m.items if k]),
            ('toplevel', names(w.b.toplevel()), [k for k in m.items if t(k, 1) and m.at[k][2] == 0]),
            ('compositionmobs', names(w.b.compositionmobs()), [k for k in m.items if t(k, 1)]),
            ('mastermobs', names(w.b.mastermobs()), [k for k in m.items if t(k, 2)])):
        if got != want:
            ctx.fail('%s: %s lists %s, expected %s' % (what, name, got, want))


def possible(hist):
    m = Model()
    for h in hist:
        try:
            OPS[h][1](m)
        except IndexError:
            return False
    return True


def history(ctx, origin, data, hist, reopen, bulk=0):
    w, m = World(origin, data, bulk), Model(bulk)
    for i, h in enumerate(hist):
        OPS[h][0](w)
        OPS[h][1](m)
        ctx.step()
    ctx.state(m.key())
    check(ctx, w, m, '.'.join(hist))
    ctx.impl()
    if reopen:
        g = World('loaded', plain.save_bytes(w.f, 'little', ctx.path()))
        check(ctx, g, m, '.'.join(hist) + ' and reopening')


CODES = sorted(set(list(range(-20, 40)) + [g * (1 << k) + d for k in range(5, 31) for g in (1, -1) for d in (-1, 0, 1)] +
                   [(1 << 31) - 1, -(1 << 31)]))


def codes(ctx, kind, todo, order, how):
    """filters and lookups of a bin over mobs with every type and usage code"""
    d = docs.Doc()
    ids = [b'\x06\x0a' + bytes(bytearray([i >> 8, i & 255])) + docs.mob_id(1)[4:] for i in range(len(todo))]
    items = []
    for i, (t, u) in enumerate(todo):
        # read with these codes, or given them afterwards
        st, su = (t, u) if how == 'read' else ((1, 0) if i % 2 else (2, 5))
        at = d.add('CMPO', name=u'm%d' % i, mob_type_id=st, usage_code=su, mob_id=ids[i])
        items.append(docs.binitem(at))
    d.add(kind, items=items)
    f = plain.open_bytes(d.encode(order))
    b = f.content
    held = list(b.mobs)
    if how == 'set':
        for m, (t, u) in zip(held, todo):
            m.mob_type_id = t
            m.usage_code = u
    elif how == 'late':
        # listed once before the codes change
        list(b.toplevel()), list(b.mastermobs()), list(b.compositionmobs())
        for m, (t, u) in zip(held, todo):
            m.usage_code = u
            m.mob_type_id = t
    for again in (0, 1):
        for name, got, want in (
                ('mobs', b.mobs, todo),
                ('toplevel', b.toplevel(), [x for x in todo if x == (1, 0)]),
                ('compositionmobs', b.compositionmobs(), [x for x in todo if x[0] == 1]),
                ('mastermobs', b.mastermobs(), [x for x in todo if x[0] == 2])):
            ctx.step()
            got = [(m.mob_type_id, m.usage_code) for m in got]
            if got != want:
                bad = [x for x in got if x not in want] or [x for x in want if x not in got] or ['the order']
                ctx.fail('%s of a bin: wrong about type and usage %s' % (name, bad[0]))
        for i, m in enumerate(held):
            if b.find_by_mob_id(plain.make_mob(ids[i])) is not m:
                ctx.fail('looking up mob %d of %d finds another one' % (i, len(held)))
        if again == 0:
            b.items.reverse()
            held.reverse()
            todo = todo[::-1]
            ids.reverse()
    ctx.impl(2)


def run_codes(shard, ctx):
    todo = [(t, u) for t in (1, 2, 3) for u in CODES]
    for n, lo in enumerate(range(0, len(todo), 150)):
        part = todo[lo:lo + 150]
        for order in spec.ORDERS:
            for how in ('read', 'set', 'late'):
                for t, u in part:
                    ctx.state((shard['codes'], t, u, order, how))
                ctx.case('codes/%s/%d/%s/%s' % (shard['codes'], lo, order, how), codes, ctx, shard['codes'], part, order, how)


def shards(tier):
    out = [{'codes': 'ABIN'}, {'codes': 'BINF'}]
    out += [{'bulk': n, 'origin': o} for n in (10, 40, 200) for o in ('loaded', 'created')]
    for origin in ('loaded', 'held', 'created'):
        for first in NAMES:
            out.append({'origin': origin, 'first': first, 'deep': tier == 'thorough' and origin != 'held'})
    return out


def run(shard, ctx):
    if 'codes' in shard:
        return run_codes(shard, ctx)
    if 'bulk' in shard:
        n, origin = shard['bulk'], shard['origin']
        data = document(n)
        for h in [()] + [(a,) for a in NAMES] + [(a, b) for a in (NAMES if n == 10 or ctx.thorough else LOOKUPS[:1] + ['mobs'])
                                                 for b in NAMES]:
            if possible(h):
                ctx.case('bulk/%d/%s/%s' % (n, origin, '.'.join(h)), history, ctx, origin, data, h, len(h) < 2, n)
        return
    data = document()
    gc.disable()
    if shard['first'] == NAMES[0]:
        ctx.case(shard['origin'] + '/', history, ctx, shard['origin'], data, (), True)
    for n in range(0, 4 if shard['deep'] else 3):
        # histories that end with an edit and are not observed in between
        for rest in itertools.product(NAMES, repeat=n):
            h = (shard['first'],) + rest
            if not possible(h):
                continue
            ctx.case('%s/%s' % (shard['origin'], '.'.join(h)), history, ctx, shard['origin'], data, h, n < 2)
            if n == 2 and ctx.cases % 50 == 0:
                gc.collect()
