# -*- coding: utf-8 -*-
"""C04: chains of byte order conversions are lossless."""
import itertools

from mc import cases, plain, spec

LEVEL = 'model_checking'
TECHNIQUE = 'explicit exploration of all byte order conversion histories up to a depth over model documents'
RULE = 'distinct (kind, model value, byte order history) states'
BOUNDS = ('all histories of 2 saves that change the order (all of 3 saves in the thorough tier, all of 4 for the '
          'default value of each kind) over both byte orders, for every kind, optional layout, boundary value and list or '
          'byte string length, and each whole number alone over 133 small values, single bits and constants with a meaning')
ASSUMPTIONS = []


def shards(tier):
    return cases.kind_shards(tier, orders=('little',), per=160, extra={'order': 'any'})


def check(ctx, cid, v, hist):
    data = spec.golden(cid, v, hist[0])
    want = plain.normalise(cid, v)
    seen = {}
    for order in hist[1:]:
        f = plain.open_bytes(data)
        data = plain.save_bytes(f, order, ctx.path())
        ctx.step()
        d = plain.check_layout(data, order, cid, v)
        if d:
            ctx.fail('after saving as %s: %s' % (order, d))
        # the header carries the save time of the source document
        p = spec.parse(data)
        if order in seen and seen[order] != p.chunks:
            ctx.fail('objects saved as %s differ from the previous %s save' % (order, order))
        seen[order] = p.chunks
    g = plain.open_bytes(data)
    ctx.impl()
    d = plain.diff(plain.read_plain(g, g.content), want)
    if d:
        ctx.fail('reopened value differs: ' + d)


def run(shard, ctx):
    cid = shard['cid']
    for k, o, v in cases.every(shard, 'quick'):
        if ctx.thorough:
            depth = 5 if not o else 4
        else:
            depth = 5 if not o else 3
        for h in itertools.product(spec.ORDERS, repeat=depth):
            if depth == 3 and (h[0] == h[1] or (len(o) > 1 and h[1] == h[2])):
                continue
            kk = k + '/' + '>'.join(x[0] for x in h)
            ctx.state(kk)
            ctx.case(kk, check, ctx, cid, v, h)
