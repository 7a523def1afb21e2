# -*- coding: utf-8 -*-
"""C01: save and reopen is lossless, or the save raises."""
import datetime
import struct

from mc import cases, plain, spec

LEVEL = 'model_checking'
TECHNIQUE = 'explicit enumeration of model values; save/reopen of the real code compared with the model value'
RULE = 'distinct (kind, byte order, model value, origin) states'
BOUNDS = ('value space of C02 x (built | loaded) x both byte orders, plus every field set to values just '
          'outside what its encoding holds, every list with one item more, less or none, the lists with a 16 bit count with 32767, 32768 and 65534..65537 items, every object and record with '
          'one value missing, with one or two of its optional values only (must raise or survive), each whole number alone over 133 small values, single bits and constants with a meaning; once more with the compiled reader for the kinds that have one')
ASSUMPTIONS = ['empty text and absent text (None) of component names are one value']


def shards(tier):
    return cases.kind_shards(tier, per=160)


def ext_shards(tier):
    return cases.compiled(shards(tier))


def reopened(ctx, cid, order, v, data):
    g = plain.open_bytes(data)
    ctx.impl()
    if type(g.content).__name__ != spec.NAMES[cid]:
        ctx.fail('reopened as %s' % type(g.content).__name__)
    got = plain.read_plain(g, g.content)
    return plain.diff(got, plain.normalise(cid, v))


def built(ctx, cid, order, v):
    f = plain.build(cid, v)
    ctx.step(2)
    d = reopened(ctx, cid, order, v, plain.save_bytes(f, order, ctx.path()))
    if d:
        ctx.fail('built, saved and reopened: ' + d)


def loaded(ctx, cid, order, v):
    f = plain.open_bytes(spec.golden(cid, v, order))
    ctx.step(2)
    d = reopened(ctx, cid, order, v, plain.save_bytes(f, order, ctx.path()))
    if d:
        ctx.fail('loaded, saved and reopened: ' + d)


def bad(ctx, cid, order, v):
    f = plain.build(cid, {} if cid not in ('ATTR', 'PRLS', 'TMCS') else spec.generate(cid)[0])
    ctx.step()
    try:
        refs = plain.Refs(f)
        plain.set_fields(f, f.content, cid, v, refs)
        data = plain.save_bytes(f, order, ctx.path())
    except Exception:
        return
    d = reopened(ctx, cid, order, v, data)
    if d:
        ctx.fail('a value which cannot be stored was altered: ' + d)


def longlists(ctx, cid, order, path, n):
    """a list with as many items as its count field can hold, or more"""
    v = spec.generate(cid)[0]
    t = v
    parts = path.split('.')
    for p in parts[:-1]:
        name, i = p[:-1].split('[')
        t = t[name][int(i)]
    item = t[parts[-1]][0]
    t[parts[-1]] = [item] * n
    if path == 'items':
        # large bins have a wider count
        v['large_bin'] = n > 0xFFFF
    try:
        spec.encode(cid, v, order)
    except (spec.Invalid, struct.error):
        bad(ctx, cid, order, v)
        return
    built(ctx, cid, order, v)
    loaded(ctx, cid, order, v)


def shapes(cid):
    """values with a list longer or shorter by one, a dictionary without one
    of its entries, an object with one or two of its optional values only"""
    full, dom, ext = spec.generate(cid)
    small = spec.generate(cid, dict((e, False) for e in ext))[0]
    out = []

    def go(v, path, put):
        if isinstance(v, dict) and set(v) == set([0, 1]):
            # a pair
            for x in ([v[0]], [v[0], v[1], v[1]]):
                out.append((path + '/%d' % len(x), put(x)))
            return
        if isinstance(v, dict):
            for k in sorted(v, key=str):
                if k == '$h':
                    continue
                rest = dict(v)
                del rest[k]
                if k not in ('$items', '$list', 'byte_order') and cid != 'ATTR':
                    out.append(('%s-%s' % (path, k), put(rest)))
                go(v[k], '%s.%s' % (path, k), lambda x, v=v, k=k: put(dict(v, **{k: x})))
        elif isinstance(v, list):
            if v and path != '.$items':
                out.append((path + '/more', put(v + [v[0]])))
                out.append((path + '/less', put(v[:-1])))
                out.append((path + '/none', put([])))
            for i, x in enumerate(v):
                go(x, '%s[%d]' % (path, i), lambda x, v=v, i=i: put(v[:i] + [x] + v[i + 1:]))
    go(full, '', lambda x: x)
    new = [k for k in sorted(full) if k not in small] if isinstance(full, dict) else []
    for i, a in enumerate(new):
        out.append(('only ' + a, dict(small, **{a: full[a]})))
        for b in new[i + 1:]:
            out.append(('only %s %s' % (a, b), dict(small, **{a: full[a], b: full[b]})))
    return out


def run(shard, ctx):
    cid, order = shard['cid'], shard['order']
    for k, o, v in cases.every(shard, ctx.tier):
        for name, fn in (('built', built), ('loaded', loaded)):
            ctx.state(k + name)
            ctx.case(k + '/' + name, fn, ctx, cid, order, v)
    seen = set()
    bases = [{}]
    for p, alts in spec.generate(cid)[1]:
        if cases.structural(p, alts):
            bases += [{p: a} for a in alts]
    for b in bases:
        try:
            items = spec.unrepresentable(cid, b)
        except spec.Invalid:
            continue
        for p, vals in items:
            for i, x in enumerate(vals):
                o = dict(b)
                o[p] = x
                try:
                    v = spec.generate(cid, o)[0]
                except spec.Invalid:
                    continue
                k = '%s/%s/bad/%s' % (cid, order, cases.key(dict(b, **{p: 'bad%d' % i})))
                if k in seen or not cases.in_part(k, shard):
                    continue
                seen.add(k)
                ctx.state(k)
                ctx.case(k, bad, ctx, cid, order, v)
    for what, v in shapes(cid):
        k = '%s/%s/shape/%s' % (cid, order, what)
        if cases.in_part(k, shard):
            ctx.state(k)
            ctx.case(k, bad, ctx, cid, order, v)
    for p in LONG.get(cid, ()):
        for n in (0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x10000, 0x10001):
            k = '%s/%s/long/%s %d' % (cid, order, p, n)
            if cases.in_part(k, shard):
                ctx.state(k)
                ctx.case(k, longlists, ctx, cid, order, p, n)


# lists counted with 16 bits
LONG = {'TMCS': ['$list'], 'BVst': ['columns', 'format_descriptors'],
        'TKDA': ['clips'], 'PRCL': ['control_points[0].pp'], 'CTRL': ['control_points[0].pp'],
        'ABIN': ['items', 'sort_columns'], 'BINF': ['items', 'sort_columns'],
        'MSML': [], 'DIDP': []}
