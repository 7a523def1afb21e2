# -*- coding: utf-8 -*-
"""C21: speed curves integrate to consistent source positions."""
import itertools

from avb import interpolation

from mc import curves
from mc.curves import Key
from mc.props import c20

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of speed curves and of every frame range around them; samples are compared with a '
             'model of the trapezoidal sum over an independent curve evaluator and with the sums over every split')
RULE = 'distinct (curve, range) pairs'
BOUNDS = ('78 curves (constant, linear, Bezier and cubic; 1 to 3 keyframes at integer and fractional times before, at and '
          'after 0; base frame offsets present and absent), every range start, end in -4..8 (-8..16 thorough), open end, '
          'every split point of a range, plain integration of ranges of 0 to 6 frames; curves of '
          'up to 65 keyframes over ranges that start 60 frames before and end 70 frames behind them')
ASSUMPTIONS = ['the rule of Media Composer is used: 5 trapezoids per half frame, each over the step before its point',
               'sums are compared to a relative 1e-9 (1e-7 for Bezier and cubic curves)']


def curve_list():
    out = []
    for n in (1, 2, 3):
        for times in (((0, 1), (3, 1), (6, 1)), ((1, 1), (2, 1), (5, 1)), ((-2, 1), (1, 1), (2, 1)),
                      ((1, 4), (7, 4), (19, 4)), ((3, 4), (5, 2), (4, 1)), ((-3, 4), (1, 2), (2, 1)),
                      ((-7, 2), (-1, 1), (11, 4))):
            for kind in (2, 3, 5, 6):
                if n == 1 and kind > 3:
                    continue
                vals = ((1.0, 2.0, 0.5), (2.0, -1.0, 3.0))[(n + kind) % 2]
                keys = []
                for i in range(n):
                    tan = (-0.4, 0.1, 0.4, -0.2)
                    extra = [(14, 2, 0.75)] if (kind % 2 and i == 0) else []
                    keys.append(Key(times[i][0], times[i][1], 1, vals[i], tan, extra))
                out.append((kind, keys))
    for v in (0.0, 1.0, -2.0, 0.25):
        out.append((2, [Key(0, 1, 1, v)]))
        out.append((3, [Key(0, 1, 1, v), Key(4, 1, 1, v)]))
    return out


CURVES = curve_list()


class Model(object):
    def __init__(self, kind, keys):
        self.kind, self.keys, self.cache, self.values = kind, keys, {}, {}
        self.tol = 1e-7 if kind > 3 else 1e-9

    def at(self, x):
        if x not in self.values:
            self.values[x] = curves.point(self.keys, self.kind, x, self.cache)
        return self.values[x]

    def half(self, a, b):
        h = (b - a) / 5.0
        xs = [a - h] + [a + i * h for i in range(5)]
        vs = [self.at(x) for x in xs]
        return sum((u + v) * h / 2 for u, v in zip(vs, vs[1:]))

    def position(self, t):
        """source position at half frame t relative to the first keyframe"""
        center = float(int(self.keys[0].time))
        pos = 0.0
        x = center
        while x < t:
            pos += self.half(x, x + 0.5)
            x += 0.5
        while x > t:
            pos -= self.half(x - 0.5, x)
            x -= 0.5
        base = [v for c, k, v in self.keys[0].extra if c == 14]
        return pos + (base[0] if base else 0)


def near(a, b, tol):
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def ranges(ctx, ci, lo, hi):
    kind, keys = CURVES[ci]
    p = c20.build(keys, kind, 2, 'loaded')
    m = Model(kind, keys)
    pos = {}
    for start in range(lo, hi + 1):
        whole = {}
        for end in range(lo, hi + 1):
            ctx.state((ci, start, end))
            ctx.step()
            if start > end:
                try:
                    r = p.integrate(start, end)
                except ValueError:
                    continue
                ctx.fail('range %d..%d gives %r' % (start, end, r))
            r = p.integrate(start, end)
            want = [start + i * 0.5 for i in range(2 * (end - start) + 1)]
            if [t for t, v in r] != want:
                ctx.fail('range %d..%d has samples at %s' % (start, end, [t for t, v in r]))
            for t, v in r:
                if t not in pos:
                    pos[t] = m.position(t)
                if not near(v, pos[t], m.tol):
                    ctx.fail('position at %s of range %d..%d is %r, trapezoidal sum %r' % (t, start, end, v, pos[t]))
                if t in whole and not near(v, whole[t], 1e-9):
                    ctx.fail('position at %s depends on the range: %r and %r' % (t, whole[t], v))
                whole[t] = v
            if len(set(k.value for k in keys)) == 1 and not keys[0].extra:
                c = int(keys[0].time)
                for t, v in r:
                    if not near(v, keys[0].value * (t - c), 1e-12):
                        ctx.fail('constant curve: position at %s is %r' % (t, v))
            ctx.impl()
        e = int(keys[-1].time)
        if start <= e:
            if p.integrate(start) != p.integrate(start, e):
                ctx.fail('open range from %d differs from the range up to the last keyframe' % start)
        else:
            try:
                p.integrate(start)
            except ValueError:
                continue
            ctx.fail('open range from %d after the last keyframe' % start)


def plain(ctx, ci, lo, hi):
    """integrate_iter: every range, and every split of it"""
    kind, keys = CURVES[ci]
    p = c20.build(keys, kind, 2, 'loaded')
    m = Model(kind, keys)
    for start in range(lo, hi + 1):
        for end in range(start, hi + 1):
            ctx.state(('plain', ci, start, end))
            r = list(interpolation.integrate_iter(p.value_at, start, end))
            want = [start + i * 0.5 for i in range(max(0, 2 * (end - start) - 1))]
            if [t for t, v in r] != want:
                ctx.fail('frames %d..%d have samples at %s' % (start, end, [t for t, v in r]))
            acc = 0.0
            for t, v in r:
                acc += m.half(t - 0.5, t)
                if not near(acc, v, m.tol):
                    ctx.fail('sum at %s of frames %d..%d is %r, expected %r' % (t, start, end, v, acc))
            ctx.step()
            for mid in range(start + 1, end):
                a = list(interpolation.integrate_iter(p.value_at, start, mid + 1))
                b = list(interpolation.integrate_iter(p.value_at, mid, end))
                # both halves hold the sample at mid
                off = a[-1][1] - b[0][1]
                j = a + [(t, v + off) for t, v in b[1:]]
                ctx.step()
                for (t, v), (t2, v2) in zip(j, r):
                    if t != t2 or not near(v, v2, 1e-9):
                        ctx.fail('split at %d gives %r at %s, whole range %r' % (mid, v, t, v2))
            ctx.impl()


def wide(ctx, kind, n, step, base):
    """long curves and ranges that start and end far away"""
    keys = [Key(i * step + 2, 1, 1, (1.0, 2.0, 0.5, -1.5)[i % 4], (-0.4, 0.1, 0.4, -0.2),
                [(14, 2, base)] if base and not i else []) for i in range(n)]
    p = c20.build(keys, kind, 2, 'loaded')
    m = Model(kind, keys)
    end = (n - 1) * step + 2
    marks = sorted(set([-60, -1, 0, 1, 2, 3, 12, end // 2, end - 1, end, end + 1, end + 70]))
    # the positions, summed up once
    pos, x, v = {}, 2.0, base or 0
    pos[x] = v
    while x < marks[-1]:
        v += m.half(x, x + 0.5)
        x += 0.5
        pos[x] = v
    x, v = 2.0, base or 0
    while x > marks[0]:
        v -= m.half(x - 0.5, x)
        x -= 0.5
        pos[x] = v
    for a in marks:
        for b in marks:
            if a > b:
                continue
            r = p.integrate(a, b)
            ctx.step()
            if [t for t, v in r] != [a + i * 0.5 for i in range(2 * (b - a) + 1)]:
                ctx.fail('range %d..%d has samples at %s...' % (a, b, [t for t, v in r][:5]))
            for t, v in r:
                if not near(v, pos[t], m.tol):
                    ctx.fail('position at %s of range %d..%d is %r, trapezoidal sum %r' % (t, a, b, v, pos[t]))
    ctx.impl()


def shards(tier):
    return [{'c': i} for i in range(len(CURVES))] + [{'wide': k} for k in (2, 3, 5, 6)]


def run(shard, ctx):
    if 'wide' in shard:
        for n in (1, 4, 7, 10, 16, 17, 33, 65):
            for step in (1, 3):
                for base in (0, 0.75):
                    if n == 1 and shard['wide'] > 3:
                        continue
                    k = 'wide/%d/%d/%d/%s' % (shard['wide'], n, step, base)
                    ctx.state(k)
                    ctx.case(k, wide, ctx, shard['wide'], n, step, base)
        return
    c = shard['c']
    lo, hi = (-8, 16) if ctx.thorough else (-4, 8)
    ctx.case('ranges/%d' % c, ranges, ctx, c, lo, hi)
    ctx.case('plain/%d' % c, plain, ctx, c, -3 if ctx.thorough else -1, 6 if ctx.thorough else 4)
