# -*- coding: utf-8 -*-
"""C02: the reader yields exactly the values the bytes encode."""
import os

from mc import cases, plain, samples, spec

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of an independent layout model, each state replayed on the real reader'
RULE = 'distinct (kind, byte order, model value) states'
BOUNDS = ('every kind x both byte orders; all subsets of optional groups (up to 2^7; all sets of <=2 absent '
          'or <=2 present beyond that); every boundary alternative of every field, alone and combined with '
          'every structural choice (list lengths 0..3, type selectors), lists of 4..1025 items and byte strings of 7..131073 bytes; each whole number alone over 133 small values, single bits and constants with a meaning; up to 3 tracks without their lock number block; all pairs in the thorough tier; every object '
          'of the sample documents and sample objects in the repository\'s tests, in both byte orders; once more with the compiled reader for the kinds that have one')
ASSUMPTIONS = ['the layout model in mc/spec.py is the AVB layout (cross checked against the sample file chunks in tests/)']


def shards(tier):
    return cases.kind_shards(tier) + samples.shards()


def ext_shards(tier):
    return cases.compiled(shards(tier))


def check(ctx, cid, order, v, enc=None):
    data = spec.golden(cid, v, order)
    ctx.step()
    f = plain.open_bytes(data)
    got = plain.read_plain(f, f.content)
    want = plain.normalise(cid, v)
    ctx.impl()
    if type(f.content).__name__ != spec.NAMES[cid]:
        ctx.fail('class %s' % type(f.content).__name__)
    d = plain.diff(got, want)
    if d:
        ctx.fail('read value differs from the encoded value: ' + d)
    if f.modified_objects:
        ctx.fail('reading marked objects modified')


def no_locks(ctx, cid, order, v):
    """tracks without the block of their lock numbers"""
    n = len(v['tracks'])
    lock = dict(v, tracks=[dict(t, lock_number=0x7A5C) for t in v['tracks']])
    body = spec.encode(cid, lock, order)
    block = b'\x01\x01' + n * (b'E' + (b'\x5c\x7a' if order == spec.LE else b'\x7a\x5c'))
    assert body.count(block) == 1
    chunks = [(a, spec.encode(a, b, order)) for a, b in map(spec.leaf, range(1, 5))]
    data = spec.container(chunks + [(cid, body.replace(block, b''))], 5, order)
    ctx.step()
    f = plain.open_bytes(data)
    got = plain.object_plain(f.content, plain.leaf_ref)
    ctx.impl()
    if any('lock_number' in t for t in got['tracks']):
        ctx.fail('a lock number the file does not hold: %r' % (got['tracks'],))
    d = plain.diff(plain.read_plain(f, f.content), plain.normalise(cid, v))
    if d:
        ctx.fail('read value differs from the encoded value: ' + d)


def sample_object(ctx, path, order):
    cid, v, n = samples.object_value(ctx, path)
    f = plain.open_bytes(spec.golden(cid, v, order, nrefs=n))
    ctx.step()
    d = plain.diff(plain.read_plain(f, f.content), plain.normalise(cid, v))
    ctx.impl()
    if d:
        ctx.fail('read value differs from the stored value: ' + d)


def sample_document(ctx, path, order):
    p, objs = samples.document_values(ctx, path)
    data = samples.load(path)
    if order != p.order:
        # the same document, written by the model in the other byte order
        data = spec.container([(cid, spec.encode(cid, v, order)) for cid, v in objs[1:]], p.root, order)
    f = plain.open_bytes(data)
    ctx.step(p.count)
    if f.content.instance_id != p.root:
        ctx.fail('the root is object %s, stored %d' % (f.content.instance_id, p.root))
    for i in range(1, p.count + 1):
        cid, v = objs[i]
        o = f.read_object(i)
        ctx.impl()
        if plain.cid_of(o) != cid:
            ctx.fail('object %d is read as %s, stored as %s' % (i, plain.cid_of(o), cid))
        got = plain.normalise(cid, plain.object_plain(o, lambda x: ('R', x.instance_id)))
        d = plain.diff(got, plain.normalise(cid, v))
        if d:
            ctx.fail('object %d (%s): read value differs from the stored value: %s' % (i, cid, d))
    if f.modified_objects:
        ctx.fail('reading marked objects modified')


def run(shard, ctx):
    if 'sample' in shard:
        for order in spec.ORDERS:
            if shard['sample'] == 'objects':
                for p in samples.objects():
                    k = 'sample/%s/%s' % (os.path.basename(p), order)
                    ctx.state(k)
                    ctx.case(k, sample_object, ctx, p, order)
            else:
                k = 'sample/%s/%s' % (shard['sample'], order)
                ctx.state(k)
                ctx.case(k, sample_document, ctx, os.path.join(samples.root(), shard['sample']), order)
        return
    for k, o, v in cases.every(shard, ctx.tier):
        ctx.state(k)
        ctx.case(k, check, ctx, shard['cid'], shard['order'], v)
    for k, v in cases.without_locks(shard):
        if not any('lock_number' in t for t in v['tracks']):
            ctx.state(k)
            ctx.case(k, no_locks, ctx, shard['cid'], shard['order'], v)
