# -*- coding: utf-8 -*-
"""C03: saved bytes are the layout of the value."""
import os

from mc import cases, plain, samples, spec

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of an independent layout model, each state replayed on the real writer'
RULE = 'distinct (kind, byte order, model value, origin) states'
BOUNDS = ('every kind x both byte orders x (built with the factory | loaded and saved unmodified), over the '
          'value space of C02; the sample documents and sample objects of the repository\'s tests saved in both '
          'byte orders, unmodified and with every object rewritten; up to 3 tracks with every subset of their lock numbers left out')
ASSUMPTIONS = ['the layout model in mc/spec.py is the AVB layout (cross checked against the sample file chunks in tests/)']


def shards(tier):
    return cases.kind_shards(tier, per=160) + samples.shards()


def built(ctx, cid, order, v):
    f = plain.build(cid, v)
    data = plain.save_bytes(f, order, ctx.path())
    ctx.step()
    ctx.impl()
    d = plain.check_layout(data, order, cid, v, f)
    if d:
        ctx.fail('constructed object: ' + d)


def loaded(ctx, cid, order, v):
    f = plain.open_bytes(spec.golden(cid, v, order))
    data = plain.save_bytes(f, order, ctx.path())
    ctx.step()
    ctx.impl()
    d = plain.check_layout(data, order, cid, v, f)
    if d:
        ctx.fail('loaded object: ' + d)


def sample_object(ctx, path, order, origin):
    cid, v, n = samples.object_value(ctx, path)
    if origin == 'loaded':
        f = plain.open_bytes(spec.golden(cid, v, order, nrefs=n))
    else:
        f = plain.build(cid, v)
    data = plain.save_bytes(f, order, ctx.path())
    ctx.step()
    ctx.impl()
    d = plain.check_layout(data, order, cid, v, f)
    if d:
        ctx.fail('%s object: %s' % (origin, d))


def sample_document(ctx, path, order, touch):
    p, objs = samples.document_values(ctx, path)
    f = plain.open_bytes(samples.load(path))
    if touch:
        for i in range(1, p.count + 1):
            o = f.read_object(i)
            if o.instance_id != i:
                ctx.fail('object %d has the instance id %s' % (i, o.instance_id))
            o.mark_modified()
    data = plain.save_bytes(f, order, ctx.path())
    ctx.step(p.count)
    ctx.impl()
    q, saved = samples.values(ctx, data)
    if q.order != order:
        ctx.fail('byte order %s' % q.order)
    d, n = samples.same_graph(objs, p.root, saved, q.root)
    if d:
        ctx.fail('saved sample document: ' + d)


def run(shard, ctx):
    if 'sample' in shard:
        for order in spec.ORDERS:
            if shard['sample'] == 'objects':
                for p in samples.objects():
                    for origin in ('built', 'loaded'):
                        k = 'sample/%s/%s/%s' % (os.path.basename(p), order, origin)
                        ctx.state(k)
                        ctx.case(k, sample_object, ctx, p, order, origin)
            else:
                for touch in (0, 1):
                    k = 'sample/%s/%s/%d' % (shard['sample'], order, touch)
                    ctx.state(k)
                    ctx.case(k, sample_document, ctx, os.path.join(samples.root(), shard['sample']), order, touch)
        return
    for k, o, v in cases.every(shard, ctx.tier):
        for name, fn in (('built', built), ('loaded', loaded)):
            ctx.state(k + name)
            ctx.case(k + '/' + name, fn, ctx, shard['cid'], shard['order'], v)
    for k, v in cases.without_locks(shard):
        ctx.state(k)
        ctx.case(k, built, ctx, shard['cid'], shard['order'], v)
