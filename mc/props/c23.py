# -*- coding: utf-8 -*-
"""C23: edit rates and other decimal floats survive saving exactly."""
from fractions import Fraction

import avb

from mc import cases, docs, plain, spec

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of decimal mantissa/exponent pairs saved and reopened through the real library, against '
             'exact rational arithmetic')
RULE = 'distinct (mantissa, exponent) pairs'
BOUNDS = ('all mantissas 0..19999 (0..199999 thorough) with 0 to 6 decimals, both signs for a tenth of them, 3000 mantissas '
          'below the 32 bit limits and around every power of ten with 0 to 9 decimals and exponents 1 to 9, common rates; '
          'every kind and field that stores a rate in both byte orders; rates set by the user and rates read from a file; '
          '60 rates that do not fit; once more with the compiled reader for the kinds that have one')
ASSUMPTIONS = ['rates with more digits than the mantissa holds may be stored rounded to the precision of the format']

TOP = 2147483647


def exact(m, e):
    return float(Fraction(m) * Fraction(10) ** e)


def build(values, order, how):
    """a document with one filler per rate"""
    d = docs.Doc()
    base = docs.default('FILL', edit_rate=25.0)
    refs = []
    for v in values:
        x = dict(base)
        x['edit_rate'] = v if how == 'read' else 25.0
        refs.append(docs.R(d.put('FILL', x)))
    d.add('SEQU', edit_rate=25.0, components=refs)
    return d.encode(order)


def rates(data):
    f = plain.open_bytes(data)
    return [c.edit_rate for c in f.content.components], f


def decimals(ctx, pairs, order):
    other = 'big' if order == 'little' else 'little'
    want = [exact(m, e) for m, e in pairs]
    # read from a file
    data = build(pairs, order, 'read')
    got, f = rates(data)
    for (m, e), a, b in zip(pairs, got, want):
        if a != b:
            ctx.fail('%d e%d is read as %r, nearest is %r' % (m, e, a, b))
    for c in f.content.components:
        c.mark_modified()
    again, g = rates(plain.save_bytes(f, other, ctx.path()))
    for (m, e), a, b in zip(pairs, again, want):
        ctx.step()
        if a != b:
            ctx.fail('%d e%d, read as %r, is %r after saving' % (m, e, b, a))
    # set by the user
    f = plain.open_bytes(build([25.0] * len(pairs), order, 'set'))
    for i, (c, b) in enumerate(zip(f.content.components, want)):
        c.edit_rate = int(b) if b == int(b) and i % 2 else b
    again, g = rates(plain.save_bytes(f, 'little', ctx.path()))
    for (m, e), a, b in zip(pairs, again, want):
        ctx.step()
        if type(a) is not float or a != b:
            ctx.fail('rate %r is %r after saving' % (b, a))
    ctx.impl(len(pairs))


def field(ctx, cid, name, order, vals):
    for v in vals:
        x = spec.generate(cid)[0]
        x[name] = v
        f = plain.open_bytes(spec.golden(cid, x, order))
        if getattr(f.content, name) != v:
            ctx.fail('%s.%s %r is read as %r' % (cid, name, v, getattr(f.content, name)))
        f.content.mark_modified()
        g = plain.open_bytes(plain.save_bytes(f, 'little', ctx.path()))
        if getattr(g.content, name) != v:
            ctx.fail('%s.%s %r is %r after saving' % (cid, name, v, getattr(g.content, name)))
        ctx.step()
        setattr(g.content, name, 25.0)
        setattr(g.content, name, v)
        g = plain.open_bytes(plain.save_bytes(g, 'little', ctx.path()))
        if getattr(g.content, name) != v:
            ctx.fail('%s.%s set to %r is %r after saving' % (cid, name, v, getattr(g.content, name)))
        ctx.impl()


def refuse(ctx, v):
    """the save raises, or (numbers only) stores the number itself"""
    f = plain.open_bytes(build([25.0], 'little', 'set'))
    f.content.components[0].edit_rate = v
    try:
        data = plain.save_bytes(f, 'little', ctx.path())
    except Exception:
        ctx.impl()
        return
    got, g = rates(data)
    if not (isinstance(v, (int, float)) and got[0] == v):
        ctx.fail('rate %r is %r after saving' % (v, got[0]))
    ctx.impl()


def nearly(ctx, v):
    """more digits than fit: the save raises or keeps about nine digits"""
    f = plain.open_bytes(build([25.0], 'little', 'set'))
    f.content.components[0].edit_rate = v
    try:
        data = plain.save_bytes(f, 'little', ctx.path())
    except Exception:
        ctx.impl()
        return
    got, g = rates(data)
    if abs(got[0] - v) > abs(v) * 5e-9:
        ctx.fail('rate %r is %r after saving' % (v, got[0]))
    # stable from there on
    g.content.components[0].mark_modified()
    again, h = rates(plain.save_bytes(g, 'little', ctx.path()))
    if again != got:
        ctx.fail('rate %r, %r after saving, is %r after saving again' % (v, got[0], again[0]))
    ctx.impl()


COMMON = [1.0, 10.0, 12.5, 15.0, 23.976, 23.98, 24.0, 25.0, 29.97, 30.0, 47.952, 48.0, 50.0, 59.94, 59.94006, 60.0, 90.0,
          100.0, 119.88, 5994.0, 599.4, 0.5994, 5.994, 59940.0, 59.9400, 22050.0, 32000.0, 44056.0, 44100.0, 44144.0, 48000.0,
          47952.048, 48048.0, 88200.0, 96000.0, 176400.0, 192000.0, 0.35, 1.1, 0.1, 0.000001, 0.0, -25.0, -29.97]


def limits():
    out = set()
    for k in range(10):
        for d in range(-100, 101):
            for sign in (1, -1):
                m = sign * (10 ** k + d)
                out.add(m)
    for d in range(500):
        out.add(TOP - d)
        out.add(-TOP - 1 + d)
    for b in (8, 15, 16, 23, 24, 30):
        for d in range(-20, 21):
            out.add((1 << b) + d)
    return sorted(out)


RAISE = ([TOP + 1, TOP + 1.0, 1 << 32, (1 << 32) + 1.0, float(1 << 53) - 1, 1 << 40, -TOP - 2, -(1 << 40), 4294967297, 1.5e300,
          1e300, 1e308, float('inf'), float('-inf'), None, 'x', u'25', b'25', [25], (25, 1), {}, 2147483648.0, 9999999999, 12345678901.0])
NEAR = [47952.047952, 30000 / 1001.0, 24000 / 1001.0, 60000 / 1001.0, 1 / 3.0, 2 / 3.0, 0.1 + 0.2, 1.1 * 1.1, 3.141592653589793, 1e-7, 1.5e-7,
        123456.7890123, 44100 / 1.001, 48000 / 1.001, 2147483.6471, 21474836.475, 214748364.75, -30000 / 1001.0, 99999.99999999,
        0.99999999999, 9.99999999995, 1e-12, 1.23456789012e-9]


def fields():
    out = []
    for cid in cases.KINDS:
        v = spec.generate(cid)[0]
        if isinstance(v, dict):
            for n in ('edit_rate', 'sample_rate'):
                if n in v and isinstance(v[n], float):
                    out.append((cid, n))
    return out


def shards(tier):
    n = 200 if tier == 'thorough' else 20
    out = [{'w': 'grid', 'lo': i * 1000, 'hi': i * 1000 + 1000} for i in range(n)]
    out += [{'w': 'limits', 'part': i} for i in range(16)]
    out += [{'w': 'fields', 'part': i} for i in range(8)]
    out += [{'w': 'other'}]
    return out


def ext_shards(tier):
    return [s for s in shards(tier) if s['w'] != 'grid' or s['lo'] < 4000]


def run(shard, ctx):
    w = shard['w']
    if w == 'grid':
        for e in range(0, -7, -1):
            for lo in range(shard['lo'], shard['hi'], 250):
                pairs = [(m if m % 10 else -m, e) for m in range(lo, lo + 250)]
                for p in pairs:
                    ctx.state(p)
                order = spec.ORDERS[(lo // 250 + e) % 2]
                ctx.case('grid/%d/%d' % (lo, e), decimals, ctx, pairs, order)
    elif w == 'limits':
        ms = limits()[shard['part']::16]
        for e in range(9, -10, -1):
            pairs = [(m, e) for m in ms]
            for p in pairs:
                ctx.state(p)
            ctx.case('limits/%d/%d' % (shard['part'], e), decimals, ctx, pairs, spec.ORDERS[e % 2])
    elif w == 'fields':
        for cid, n in fields()[shard['part']::8]:
            for order in spec.ORDERS:
                k = 'fields/%s/%s/%s' % (cid, n, order)
                ctx.state(k)
                ctx.case(k, field, ctx, cid, n, order, COMMON)
    else:
        for i, v in enumerate(RAISE):
            ctx.state('raise%d' % i)
            ctx.case('raise/%r' % (v,), refuse, ctx, v)
        ctx.case('raise/nan', refuse, ctx, float('nan'))
        for v in NEAR:
            ctx.state('near%r' % v)
            ctx.case('near/%r' % v, nearly, ctx, v)
