# -*- coding: utf-8 -*-
"""C20: keyframe evaluation is total, exact at keyframes and selects the right
segment."""
import itertools
from fractions import Fraction

import avb

from mc import curves, docs, plain
from mc.curves import Key

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of keyframe sets, interpolation kinds, handles and query times; every value is '
             'compared with an exact rational model of the interpolant')
RULE = 'distinct (keyframes, interpolation) curves'
BOUNDS = ('curves of 1 to 4 keyframes at all increasing choices of 6 times (fractional and negative included), values in '
          '{-2.5, 0, 1, 1e6} (all combinations), 4 interpolation kinds and 4 unknown ones, integer and double values; for '
          'Bezier segments all pairs of handles from 9 positions x 4 values (9 x 6 thorough) at 5 scales of the segment; '
          'near degenerate Bezier segments: 7 positions x 17 x 17 handle lengths; up to 9 keyframes, and 10 to 257 at irregular times, for segment selection; about 20 query times per segment, next to and at keyframes and outside')
ASSUMPTIONS = ['Bezier and cubic values are accepted if they are a point of the curve within 1e-9 of the queried time',
               'outside the keyframes the first or last value holds (the library does not interpret extrap_kind)',
               'query times and segment lengths between 1e-6 and 1e6']


def build(keys, kind, vt, how):
    if how == 'loaded':
        d = docs.Doc()
        d.add('PRCL', length=30, media_kind_id=6, value_type=vt, interp_kind=kind, extrap_kind=1, fields=1,
              control_points=[docs.point(k.num, k.den, k.scale, k.value, k.pps()) for k in keys])
        return plain.open_bytes(d.encode('little')).content
    f = avb.file.AVBFile()
    p = f.create.ParamClip()
    p.interp_kind, p.value_type, p.control_points = kind, vt, []
    for k in keys:
        cp = avb.components.ParamControlPoint.__new__(avb.components.ParamControlPoint, root=f)
        cp.offset, cp.timescale, cp.value, cp.pp = [k.num, k.den], k.scale, k.value, []
        for code, t, v in k.pps():
            pp = avb.components.ParamControlPointProperty.__new__(avb.components.ParamControlPointProperty, root=f)
            pp.code, pp.type, pp.value = code, t, v
            cp.pp.append(pp)
        p.control_points.append(cp)
    KEEP[0] = f
    return p


KEEP = [None]
FRACS = (1e-12, 1e-6, 0.01, 0.125, 0.25, 1 / 3.0, 0.5, 0.625, 0.75, 0.9, 0.999999, 1 - 1e-12)


def queries(keys, dense=True):
    ts = [float(k.time) for k in keys]
    out = [ts[0] - 1000.0, ts[0] - 0.5, ts[-1] + 0.25, ts[-1] + 1000]
    for i, t in enumerate(ts):
        out.append(t)
        if t == int(t):
            out.append(int(t))
        if i + 1 < len(ts):
            for f in (FRACS if dense else (1e-6, 0.25, 0.5, 0.9)):
                out.append(t + (ts[i + 1] - t) * f)
    return out


def curve(ctx, keys, kind, vt, how, dense=True):
    p = build(keys, kind, vt, how)
    cache = {}
    for x in queries(keys, dense):
        lo, hi = curves.expect(keys, kind, x, cache)
        v = p.value_at(x)
        ctx.step()
        if type(v) is not float:
            ctx.fail('value at %r is %r' % (x, v))
        if not lo <= v <= hi:
            w, i = curves.where(keys, x)
            ctx.fail('value at %r (%s %d) is %r, expected %r to %r' % (x, w, i, v, lo, hi))
        w, i = curves.where(keys, x)
        n = p.nearest_index(float(x))
        if n != i:
            ctx.fail('nearest index at %r is %d, expected %d' % (x, n, i))
    ctx.impl()


def unknown(ctx, keys, kind, how):
    """kinds which are not implemented are refused, keyframes stay exact"""
    p = build(keys, kind, 2, how)
    for x in queries(keys, False):
        w, i = curves.where(keys, x)
        if w == 'in':
            try:
                v = p.value_at(x)
            except NotImplementedError:
                continue
            ctx.fail('kind %d evaluates to %r' % (kind, v))
        elif p.value_at(x) != float(keys[i].value):
            ctx.fail('value at %r is %r' % (x, p.value_at(x)))
        ctx.step()
    ctx.impl()


def empty(ctx, how):
    p = build([], 3, 2, how)
    for fn in (p.value_at, p.nearest_index):
        try:
            v = fn(0.0)
        except ValueError:
            continue
        ctx.fail('no keyframes but got %r' % (v,))
    ctx.impl()


# (num, den, timescale) at increasing times -5, -1/2, 0, 5/4, 2, 2.1
TIMES = [(-5, 1, 1), (-1, 20, 10), (0, 25, 7), (5, 4, 1), (60, 30, 1), (21, 100, 10)]
VALUES = (-2.5, 0.0, 1.0, 1000000.0)
INTS = (-2, 0, 7, 2147483647)
HPOS = (-3.0, -1.0, -0.4, -0.01, 0.0, 0.01, 0.4, 1.0, 3.0)
HVAL = (0.0, 1.0, -2.0, 100.0)
HVAL2 = (0.0, 0.001, 1.0, -2.0, 100.0, -1e5)
SCALES = ((0, 1), (0, 8), (3, 100000), (-7, 1), (1, 3))


# near degenerate segments: (start, length) and out / in handle lengths
FINE = (((0, 1), (1, 3)), ((10000, 1), (1, 3)), ((0, 1), (1, 1)), ((5, 1), (2, 1)), ((-7, 1), (100000, 1)),
        ((2073600, 1), (1, 25)), ((5, 1), (10, 1)))


def fine_handles(length):
    third = length / 3
    return sorted(set([0.0, 1.0, 2.0, length, 3 * length, -1.0, 0.9 * length, 0.1 * length, length / 2, third,
                       third * (1 - 1e-6), third * (1 + 1e-8), third * (1 - 1e-10), third * (1 + 1e-12),
                       length * 0.333333, length * 0.9999999, length / 3 + length / 3 * 1e-4]))


def shards(tier):
    out = []
    for n in (1, 2, 3, 4):
        for kind in (2, 3, 5, 6):
            for part in range({4: 4, 3: 2}.get(n, 1)):
                out.append({'w': 'sets', 'n': n, 'kind': kind, 'part': part, 'of': {4: 4, 3: 2}.get(n, 1)})
    for i in range(len(HPOS)):
        out.append({'w': 'handles', 'i': i})
    for i in range(len(FINE)):
        out.append({'w': 'fine', 'i': i})
    out.append({'w': 'many'})
    out += [{'w': 'large', 'kind': k} for k in (2, 3, 5, 6)]
    out.append({'w': 'other'})
    return out


def run(shard, ctx):
    w = shard['w']
    if w == 'sets':
        n, kind = shard['n'], shard['kind']
        c = 0
        for ts in itertools.combinations(TIMES, n):
            for vi in itertools.product(range(4), repeat=n):
                c += 1
                if c % shard['of'] != shard['part']:
                    continue
                for vt in (1, 2):
                    vals = [(INTS if vt == 1 else VALUES)[v] for v in vi]
                    keys = []
                    for j, (t, v) in enumerate(zip(ts, vals)):
                        # tangents present on some keyframes only
                        tan = [(0.0, 0.0, 0.0, 0.0), (-0.2, 1.0, 0.3, -1.0), (None,) * 4, (-1, 2, 1, 3)][(j + c) % 4]
                        keys.append(Key(t[0], t[1], t[2], v, tan))
                    k = '%d/%d/%s/%s' % (kind, vt, ts, vals)
                    ctx.state(k)
                    ctx.case('sets/loaded/' + k, curve, ctx, keys, kind, vt, 'loaded', n < 4)
                    if n <= 2:
                        ctx.case('sets/created/' + k, curve, ctx, keys, kind, vt, 'created')
    elif w == 'handles':
        o = HPOS[shard['i']]
        hv = HVAL2 if ctx.thorough else HVAL
        for start, length in SCALES:
            for inn in HPOS:
                for ov, iv in itertools.product(hv, hv):
                    for v3 in (1.0, 50.0):
                        keys = [Key(start, 1, 1, 0.0, (0.0, 0.0, o * length, ov)),
                                Key(start + length, 1, 1, v3, (-inn * length, iv, 1.0, 1.0))]
                        k = 'handles/%s+%s/%s,%s,%s,%s,%s' % (start, length, o, inn, ov, iv, v3)
                        ctx.state(k)
                        ctx.case(k, curve, ctx, keys, 5, 2, 'loaded')
    elif w == 'fine':
        start, length = [Fraction(*x) for x in FINE[shard['i']]]
        end = start + length
        hs = fine_handles(float(length))
        for o in hs:
            for inn in hs:
                for ov, iv in (((1.0, -1.0), (0.0, 0.0), (7.0, 3.0), (0.0, -1.0)) if ctx.thorough else ((1.0, -1.0),)):
                    keys = [Key(start.numerator, start.denominator, 1, 0.0, (0.0, 0.0, o, ov)),
                            Key(end.numerator, end.denominator, 1, 10.0, (-inn, iv, 1.0, 1.0))]
                    k = 'fine/%s+%s/%r,%r,%s,%s' % (start, length, o, inn, ov, iv)
                    ctx.state(k)
                    ctx.case(k, curve, ctx, keys, 5, 2, 'loaded')
    elif w == 'many':
        for n in range(1, 10):
            for kind in (2, 3, 5, 6):
                for step in (1, 7):
                    for shape in range(4):
                        keys = [Key(i * step - 3, 1, 1, [float(i), float(-i), float(i % 2), float((i * i) % 5)][shape],
                                    (-0.3, 0.0, 0.3, 0.5)) for i in range(n)]
                        k = 'many/%d/%d/%d/%d' % (n, kind, step, shape)
                        ctx.state(k)
                        ctx.case(k, curve, ctx, keys, kind, 2, 'loaded')
    elif w == 'large':
        kind = shard['kind']
        for n in list(range(10, 40)) + [63, 64, 65, 100, 129, 257]:
            for how in ('loaded', 'created'):
                # irregular, growing distances
                keys, t = [], -n
                for i in range(n):
                    t += 1 + (i * i) % 3
                    keys.append(Key(t, 2, 1, float((i * 7) % 11 - 5), [(-0.3, 0.0, 0.3, 0.5), (0.0, 0.0, 0.2, -1.0)][i % 2]))
                k = 'large/%d/%d/%s' % (n, kind, how)
                ctx.state(k)
                ctx.case(k, curve, ctx, keys, kind, 2, how, False)
    else:
        for how in ('loaded', 'created'):
            for kind in (0, 1, 4, 7):
                for n in (1, 2, 3):
                    keys = [Key(i * 2, 1, 1, float(i)) for i in range(n)]
                    k = 'unknown/%s/%d/%d' % (how, kind, n)
                    ctx.state(k)
                    ctx.case(k, unknown, ctx, keys, kind, how)
            ctx.state('empty' + how)
            ctx.case('empty/' + how, empty, ctx, how)
