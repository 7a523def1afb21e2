# -*- coding: utf-8 -*-
"""C14: a copy is an equal, fully independent object."""
import zlib

import avb

from mc import cases, docs, parts, plain, spec

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive exploration of copy histories (source x target document x every single in-place edit of '
             'either side) on the real library against the layout model')
RULE = 'distinct (kind, value, source, target, edit) behaviours'
BOUNDS = ('every kind, optional layout and boundary value copied from a loaded and from a created object, into the '
          'same and a new document; every in-place edit of every mutable part of either side for every layout '
          '(all pairs of edits in the thorough tier on the default value); pairs of optional parts and type selectors; every object of a 25 object project; '
          'copies of copies; lists of up to 1025 items and byte strings of up to 131073 bytes; dictionaries holding values that cannot '
          'be stored; once more with the compiled reader for the kinds that have one')
ASSUMPTIONS = []


def source(cid, order, v, how):
    if how == 'loaded':
        return plain.open_bytes(spec.golden(cid, v, order))
    return plain.build(cid, v)


def check_saved(data, order, cid, v):
    """a copy holds its own copy of every object it refers to, one per
    reference, so only the values are compared"""
    p, objs = plain.decode_saved(data, order)
    if p.root != p.count or objs[p.root][0] != cid:
        return 'root is %s' % objs[p.root][0]
    return plain.diff(plain.normalise(cid, plain.relabel(objs[p.root][1], objs)), plain.normalise(cid, v))


def copied(ctx, cid, order, v, how, where):
    f = source(cid, order, v, how)
    a = f.content
    before = plain.save_bytes(source(cid, order, v, how), order, ctx.path()) if how == 'loaded' else None
    ctx.step()
    if where == 'same':
        g = f
    elif where == 'new':
        g = avb.file.AVBFile()
    else:
        g = plain.open_bytes(docs.rich().encode(order))
    b = a.copy(g)
    if b is a:
        ctx.fail('copy is the original')
    if plain.cid_of(b) != cid:
        ctx.fail('copy has class %s' % plain.cid_of(b))
    if b.root is not g:
        ctx.fail('copy does not belong to the target document')
    if before is not None:
        after = plain.save_bytes(f, order, ctx.path())
        if after != before:
            ctx.fail('copying changed what the source document saves')
        f.content = a
    g.content = b
    data = plain.save_bytes(g, order, ctx.path())
    d = check_saved(data, order, cid, v)
    if d:
        ctx.fail('saved copy: ' + d)
    return f, a, g, b


def run_copy(ctx, cid, order, v, how, where):
    copied(ctx, cid, order, v, how, where)
    ctx.impl()


def run_chain(ctx, cid, order, v):
    f, a, g, b = copied(ctx, cid, order, v, 'created', 'new')
    h = avb.file.AVBFile()
    c = b.copy(h)
    h.content = c
    d = check_saved(plain.save_bytes(h, order, ctx.path()), order, cid, v)
    if d:
        ctx.fail('copy of a copy: ' + d)
    back = c.copy(f)
    f.content = back
    d = check_saved(plain.save_bytes(f, order, ctx.path()), order, cid, v)
    if d:
        ctx.fail('copy back into the first document: ' + d)
    ctx.impl()


def independent(ctx, a, b, top=True, pairs=False):
    ua, ub = parts.unfold(a), parts.unfold(b)
    want = repr(ua)
    if want != repr(ub):
        ctx.fail('copy differs: %s' % plain.diff([ua], [ub]))
    for x, other, name in ((b, a, 'copy'), (a, b, 'original')):
        es = parts.edits(x, top)
        for i, e in enumerate(es):
            e.do()
            ctx.step()
            if i % 7 == 0 and repr(parts.unfold(x)) == want:
                ctx.fail('edit %s of the %s had no effect' % (e.path, name))
            if repr(parts.unfold(other)) != want:
                ctx.fail('edit %s of the %s is visible in the other one' % (e.path, name))
            if pairs:
                for e2 in es[i + 1:]:
                    e2.do()
                    ctx.step()
                    if repr(parts.unfold(other)) != want:
                        ctx.fail('edits %s, %s of the %s are visible in the other one' % (e.path, e2.path, name))
                    e2.undo()
            e.undo()
    ctx.nontrivial += 1


def run_edits(ctx, cid, order, v, how, where, pairs):
    f, a, g, b = copied(ctx, cid, order, v, how, where)
    independent(ctx, a, b, True, pairs)
    ctx.impl()


def run_graph(ctx, order, i, where):
    data = docs.rich().encode(order)
    f = plain.open_bytes(data)
    want = plain.save_bytes(plain.open_bytes(data), order, ctx.path())
    a = f.read_object(i)
    g = f if where == 'same' else avb.file.AVBFile()
    b = a.copy(g)
    if where != 'same':
        g.content = b
        g2 = plain.open_bytes(plain.save_bytes(g, order, ctx.path()))
        if repr(parts.unfold(g2.content)) != repr(parts.unfold(a)):
            ctx.fail('saved copy differs: %s' % plain.diff([parts.unfold(g2.content)], [parts.unfold(a)]))
    if plain.save_bytes(f, order, ctx.path()) != want:
        ctx.fail('copying changed what the source document saves')
    independent(ctx, a, b, True)
    ctx.impl()


ODD = (b'', b'raw\x00', 1.5, 0.0, [], [1], {}, {u'a': 1}, (), (1, u'a'), set(), frozenset([1]), 1j, object, Ellipsis,
       memoryview(b'abc'), 1 << 40, -(1 << 40), True, False, u'\u2603', u'x\x00', u'')


def run_odd(ctx, i, at, inside, where):
    """a dictionary with a value that cannot be stored: copying refuses or
    gives an equal one"""
    f = avb.file.AVBFile()
    a = f.create.Attributes()
    keys = [u'k0', u'k1', u'k2']
    keys.insert(at, u'odd')
    for n, k in enumerate(keys):
        a[k] = ODD[i] if k == u'odd' else (5, u'text', bytearray(b'bin'))[n % 3]
    o = a
    if inside:
        o = f.create.Filler(edit_rate=25, media_kind='picture')
        o.attributes = a
    ctx.step()
    try:
        c = o.copy(f if where == 'same' else avb.file.AVBFile())
    except Exception:
        return
    c = c.attributes if inside else c
    if list(c.keys()) != keys:
        ctx.fail('the copy has the keys %s, the original %s' % (list(c.keys()), keys))
    for k in keys:
        if c[k] != a[k] or type(c[k]) is not type(a[k]):
            ctx.fail('%s is %r in the copy, %r in the original' % (k, c[k], a[k]))
        if c[k] is a[k] and isinstance(a[k], (list, dict, set)):
            ctx.fail('%s is shared with the copy' % k)
    ctx.impl()


QUICK = (('little', 'loaded', 'new'), ('little', 'created', 'same'), ('big', 'loaded', 'other'))


def shards(tier):
    out = [{'graph': 1, 'order': o, 'obj': i} for o in spec.ORDERS for i in range(1, len(docs.rich().chunks) + 1)]
    out.append({'odd': 1})
    return out + cases.kind_shards('quick', orders=('little',), per=120)


def ext_shards(tier):
    return cases.compiled(shards(tier))


def run(shard, ctx):
    if 'graph' in shard:
        for where in ('new', 'same'):
            k = 'graph/%s/%d/%s' % (shard['order'], shard['obj'], where)
            ctx.state(k)
            ctx.case(k, run_graph, ctx, shard['order'], shard['obj'], where)
        return
    if 'odd' in shard:
        for i in range(len(ODD)):
            for at in range(4):
                for inside in (0, 1):
                    for where in ('same', 'new'):
                        k = 'odd/%d/%d/%d/%s' % (i, at, inside, where)
                        ctx.state(k)
                        ctx.case(k, run_odd, ctx, i, at, inside, where)
        return
    cid = shard['cid']
    for k, o, v in cases.each(shard, 'quick'):
        simple = len(o) <= 1 or all(x is False for x in o.values())
        typed = len(o) == 2 and any(cases.structural(p, None) and p.split('.')[-1] in cases.TYPE_FIELDS for p in o)
        if not simple and typed and not ctx.thorough:
            # the value of another type
            order, how, where = QUICK[zlib.crc32(k.encode('utf-8')) % 3]
            kk = '%s/%s/%s/%s' % (k, order, how, where)
            ctx.state(kk)
            ctx.case(kk, run_copy, ctx, cid, order, v, how, where)
        if not simple and not ctx.thorough:
            continue
        for order in spec.ORDERS:
            for how in ('loaded', 'created'):
                for where in ('same', 'new', 'other'):
                    if o and not ctx.thorough and (order, how, where) not in QUICK:
                        continue
                    kk = '%s/%s/%s/%s' % (k, order, how, where)
                    ctx.state(kk)
                    ctx.case(kk, run_copy, ctx, cid, order, v, how, where)
        structural = (all(x is False for x in o.values()) and len(o) != 2) or (len(o) == 1 and cases.structural(list(o)[0], None))
        if structural or ctx.thorough:
            for where in ('same', 'new'):
                if len(o) > 2 and where == 'same' and not ctx.thorough:
                    continue
                kk = '%s/edits/%s' % (k, where)
                ctx.state(kk)
                ctx.case(kk, run_edits, ctx, cid, 'little', v, 'loaded', where, ctx.thorough and not o)
            kk = '%s/chain' % k
            ctx.state(kk)
            ctx.case(kk, run_chain, ctx, cid, 'big', v)
    for k, o, v in cases.longs(shard):
        order, how, where = QUICK[zlib.crc32(k.encode('utf-8')) % 3]
        kk = '%s/%s/%s/%s' % (k, order, how, where)
        ctx.state(kk)
        ctx.case(kk, run_copy, ctx, cid, order, v, how, where)
