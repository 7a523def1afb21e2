# -*- coding: utf-8 -*-
"""Independent model of key framed curves (exact rational arithmetic where the
interpolant is rational)."""
from fractions import Fraction as F

CONST, LINEAR, BEZIER, CUBIC = 2, 3, 5, 6


class Key(object):
    """one keyframe; time = num / den * scale; tan = (in_pos, in_val, out_pos, out_val)"""
    def __init__(self, num, den, scale, value, tan=(0, 0, 0, 0), extra=()):
        self.num, self.den, self.scale, self.value = num, den, scale, value
        self.tan, self.extra = tan, extra

    @property
    def time(self):
        return F(float(F(self.num, self.den) * self.scale))

    def pps(self):
        out = [(9, 1, 3)]
        for code, v in zip((5, 6, 7, 8), self.tan):
            if v is not None:
                out.append((code, 1, v) if isinstance(v, int) else (code, 2, v))
        return out + list(self.extra)

    def __repr__(self):
        return 'Key(%d/%d*%d=%r %r)' % (self.num, self.den, self.scale, self.value, self.tan)


def bez(p, t):
    u = 1 - t
    return u * u * u * p[0] + 3 * u * u * t * p[1] + 3 * u * t * t * p[2] + t * t * t * p[3]


def solve(xs, x):
    """t with bez(xs, t) == x for a non decreasing bez(xs)"""
    a, b = 0.0, 1.0
    for _ in range(90):
        m = (a + b) / 2
        if bez(xs, m) < x:
            a = m
        else:
            b = m
    return (a + b) / 2


def handles(t0, v0, t3, v3, out, inn):
    """control points of a segment; handles which leave the segment are cut
    off where they cross its end, those pointing away become vertical"""
    t1, v1 = t0 + out[0], v0 + out[1]
    t2, v2 = t3 + inn[0], v3 + inn[1]
    if t1 > t3:
        v1 = v0 + (v1 - v0) * (t3 - t0) / (t1 - t0)
        t1 = t3
    elif t1 < t0:
        t1 = t0
    if t2 < t0:
        v2 = v3 + (v2 - v3) * (t0 - t3) / (t2 - t3)
        t2 = t0
    elif t2 > t3:
        t2 = t3
    return (t0, t1, t2, t3), (v0, v1, v2, v3)


def spline(p0, p1, p2, inward):
    """tangent at p1 of the cardinal like spline through p0, p1, p2"""
    dt = F(2, 5) * ((p1[0] - p0[0]) if inward else (p2[0] - p1[0]))
    before, after, whole = p1[1] - p0[1], p2[1] - p1[1], p2[1] - p0[1]
    up = [d >= 0 for d in (before, after, whole)]
    if whole == 0 or up[0] != up[1] or up[2] != up[1]:
        dv = F(0)
    else:
        dv = 2 * min(abs(before), abs(after)) / abs(whole) * whole / (p2[0] - p0[0]) * dt
    return (-dt, -dv) if inward else (dt, dv)


def segment(keys, kind, i):
    """(xs, ys) of the cubic between key i and i + 1"""
    k = [(x.time, F(x.value)) for x in keys]
    p1, p2 = k[i], k[i + 1]
    if kind == BEZIER:
        out = [F(v or 0) for v in keys[i].tan[2:4]]
        inn = [F(v or 0) for v in keys[i + 1].tan[0:2]]
    else:
        half = (p2[0] - p1[0]) / 2
        p0 = k[i - 1] if i else (p1[0] - half, p1[1])
        p3 = k[i + 2] if i + 2 < len(k) else (p2[0] + half, p2[1])
        out, inn = spline(p0, p1, p2, False), spline(p1, p2, p3, True)
    xs, ys = handles(p1[0], p1[1], p2[0], p2[1], out, inn)
    return [float(v) for v in xs], [float(v) for v in ys]


def where(keys, x):
    """('key', i), ('out', i) or ('in', i)"""
    x = F(x)
    times = [k.time for k in keys]
    for i, t in enumerate(times):
        if t == x:
            return 'key', i
    if x < times[0]:
        return 'out', 0
    if x > times[-1]:
        return 'out', len(keys) - 1
    return 'in', max(i for i, t in enumerate(times) if t < x)


def expect(keys, kind, x, cache=None):
    """(lo, hi): the interval of acceptable results"""
    w, i = where(keys, x)
    if w in ('key', 'out') or kind == CONST:
        v = float(keys[i].value)
        return v, v
    if kind == LINEAR:
        a, b = keys[i], keys[i + 1]
        v = F(a.value) + (F(b.value) - F(a.value)) * (F(x) - a.time) / (b.time - a.time)
        e = 1e-9 * (1e-300 + abs(float(a.value)) + abs(float(b.value)))
        return float(v) - e, float(v) + e
    seg = None if cache is None else cache.get(i)
    if seg is None:
        seg = segment(keys, kind, i)
        if cache is not None:
            cache[i] = seg
    xs, ys = seg
    d = 1e-9 * (xs[3] - xs[0]) + 1e-15 * max(abs(v) for v in xs)
    t0, t1 = solve(xs, float(x) - d), solve(xs, float(x) + d)
    vs = [bez(ys, t0 + (t1 - t0) * n / 8) for n in range(9)]
    e = 1e-8 * (1e-300 + max(abs(y) for y in ys)) + (max(vs) - min(vs))
    return min(vs) - e, max(vs) + e


def point(keys, kind, x, cache=None):
    lo, hi = expect(keys, kind, x, cache)
    return (lo + hi) / 2
