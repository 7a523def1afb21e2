# -*- coding: utf-8 -*-
"""C26: timestamps survive saving in every time zone and across clock changes."""
import datetime
import os
import time

import avb

from mc import docs, plain, spec

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of time zones x stored seconds around every clock change; documents are saved and '
             'reopened by the real library with the process in that zone and compared with the stored integers')
RULE = 'distinct (zone, second) pairs'
BOUNDS = ('17 zone rules (none, fixed, half hour, 30 minute daylight saving, negative daylight saving, southern, day '
          'skipping and historical ones where the tz database is present); every 15 minutes from 3 h before to 3 h after '
          'each clock change of the years 2000 to 2037 (1971 to 2105 thorough), the seconds next to each change and the limits of the field; '
          'creation, modification and save times, read, set as naive and as aware times, saved in one zone and reopened '
          'in another; once more with the compiled reader for the kinds that have one')
ASSUMPTIONS = ['times are kept to the second', 'a local time skipped by a clock change does not exist and is not checked']

ZONES = ['UTC0', 'EST5EDT,M3.2.0,M11.1.0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'GMT0BST,M3.5.0/1,M10.5.0',
         'IST-1GMT0,M10.5.0,M3.5.0/1', 'LHST-10:30LHDT-11,M10.1.0,M4.1.0', 'NZST-12NZDT,M9.5.0,M4.1.0/3',
         'IST-5:30', 'NPT-5:45', 'HST10', '<+14>-14', '<-12>12', 'AEST-10AEDT,M10.1.0,M4.1.0/3',
         ':America/New_York', ':Pacific/Apia', ':Europe/Moscow', ':Africa/Casablanca']
OTHER = 'EST5EDT,M3.2.0,M11.1.0'


def set_zone(z):
    os.environ['TZ'] = z
    time.tzset()


def usable(z):
    return not z.startswith(':') or os.path.exists('/usr/share/zoneinfo/' + z[1:])


def offset(t):
    return time.localtime(t).tm_gmtoff


def changes(years):
    out = []
    for y in years:
        t = int(datetime.datetime(y, 1, 1, tzinfo=datetime.timezone.utc).timestamp())
        end = t + 366 * 86400
        while t < end:
            if offset(t) != offset(t + 3600 * 12):
                a, b = t, t + 3600 * 12
                while b - a > 1:
                    m = (a + b) // 2
                    if offset(m) == offset(a):
                        a = m
                    else:
                        b = m
                out.append(b)
            t += 3600 * 12
    return out


def seconds(years):
    s = {0, 1, 59, 86400, 1500000000, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff}
    for c in changes(years):
        for d in range(-3 * 3600, 3 * 3600 + 1, 900):
            s.add(c + d)
        for d in (-3601, -3600, -3599, -2, -1, 0, 1, 2, 1799, 1800, 1801, 3599, 3600, 3601):
            s.add(c + d)
    return sorted(x for x in s if 0 <= x <= 0xffffffff)


def document(pairs, order, saved=1500000000):
    d = docs.Doc()
    refs = []
    for a, b in pairs:
        refs.append(docs.R(d.add('CMPO', last_modified=a, creation_time=b)))
    d.add('SEQU', components=refs)
    return spec.container([(c, spec.encode(c, v, order)) for c, v in d.chunks], len(d.chunks), order, timestamp=saved)


def stored(data):
    p = spec.parse(data)
    order = p.order
    out = []
    for cid, raw in p.chunks:
        if cid == 'CMPO':
            v = spec.decode(cid, raw, order)[0]
            out.append((v['last_modified'], v['creation_time']))
    return out, p


def wall(t):
    """local time of t by the C library"""
    return tuple(time.localtime(t)[:6])


def check_wall(ctx, what, d, t):
    if (d.year, d.month, d.day, d.hour, d.minute, d.second) != wall(t):
        ctx.fail('%s stored as %d is read as %s, local time is %s' % (what, t, d, wall(t)))


def loaded(ctx, zone, zone2, part, order):
    pairs = list(zip(part, reversed(part)))
    data = document(pairs, order)
    try:
        set_zone(zone)
        f = plain.open_bytes(data)
        for c, (a, b) in zip(f.content.components, pairs):
            check_wall(ctx, 'last_modified', c.last_modified, a)
            check_wall(ctx, 'creation_time', c.creation_time, b)
            c.mark_modified()
            ctx.step()
        out = plain.save_bytes(f, order, ctx.path())
        got, p = stored(out)
        for w, g in zip(pairs, got):
            if w != g:
                ctx.fail('%s: seconds %s are saved as %s' % (zone, w, g))
        if len(got) != len(pairs):
            ctx.fail('%d of %d mobs saved' % (len(got), len(pairs)))
        set_zone(zone2)
        g = plain.open_bytes(out)
        for c, (a, b) in zip(g.content.components, pairs):
            check_wall(ctx, 'last_modified', c.last_modified, a)
            c.mark_modified()
        got, p = stored(plain.save_bytes(g, 'big', ctx.path()))
        if got != pairs:
            ctx.fail('reopened in %s: seconds %s are saved as %s' % ((zone2,) + [x for x in zip(pairs, got) if x[0] != x[1]][0]))
    finally:
        set_zone('UTC0')
    ctx.impl(len(pairs))


def copied(ctx, zone, part, order):
    """copies into another document keep the seconds"""
    pairs = list(zip(part, part))
    try:
        set_zone(zone)
        f = plain.open_bytes(document(pairs, order))
        g = avb.file.AVBFile()
        g.content = f.content.copy(g)
        got, p = stored(plain.save_bytes(g, order, ctx.path()))
        if got != pairs:
            ctx.fail('%s: copying changes %s to %s' % ((zone,) + [x for x in zip(pairs, got) if x[0] != x[1]][0]))
    finally:
        set_zone('UTC0')
    ctx.impl(len(pairs))


def header(ctx, zone, t, order):
    data = document([(1, 2)], order, saved=t)
    try:
        set_zone(zone)
        f = plain.open_bytes(data)
        check_wall(ctx, 'last_save', f.last_save, t)
        out = plain.save_bytes(f, order, ctx.path())
        p = spec.parse(out)
        if p.timestamp != t:
            ctx.fail('%s: save time %d is saved as %d' % (zone, t, p.timestamp))
        if p.date != u'%04d/%02d/%02d %02d:%02d:%02d' % wall(t):
            ctx.fail('%s: save time %d is described as %r' % (zone, t, p.date))
        g = plain.open_bytes(out)
        if g.last_save != f.last_save:
            ctx.fail('save time %s is read back as %s' % (f.last_save, g.last_save))
        ctx.step()
    finally:
        set_zone('UTC0')
    ctx.impl()


def candidates(d):
    """every second with the local time d"""
    t0 = int(d.replace(tzinfo=datetime.timezone.utc).timestamp())
    out = set()
    for probe in range(t0 - 86400 * 2, t0 + 86400 * 2 + 1, 1800):
        t = t0 - offset(probe)
        if wall(t) == tuple(d.timetuple()[:6]):
            out.add(t)
    return sorted(out)


def user(ctx, zone, part, order, aware):
    try:
        set_zone(zone)
        f = plain.open_bytes(document([(1, 2)] * len(part), order))
        want = []
        for i, (c, t) in enumerate(zip(f.content.components, part)):
            if aware:
                tz = datetime.timezone(datetime.timedelta(minutes=(0, 330, -480)[i % 3]))
                d = datetime.datetime.fromtimestamp(t, tz)
                ok = {t}
            else:
                d = datetime.datetime(*wall(t))
                cand = candidates(d)
                if t not in cand:
                    ctx.fail('harness: %d not in %s' % (t, cand))
                # the first of two repeated times unless told otherwise
                if i % 2 and len(cand) == 2:
                    d = d.replace(fold=1)
                    ok = {cand[1]}
                else:
                    ok = {cand[0]}
            c.last_modified = d
            c.creation_time = d.replace(microsecond=999999)
            want.append((d, ok))
        out = plain.save_bytes(f, order, ctx.path())
        got, p = stored(out)
        g = plain.open_bytes(out)
        for c, (d, ok), (a, b) in zip(g.content.components, want, got):
            ctx.step()
            if a not in ok or b not in ok:
                ctx.fail('%s: %r is saved as %d and %d, expected %s' % (zone, d, a, b, ok))
            if not aware and (c.last_modified != d.replace(fold=0) if not d.fold else c.last_modified.replace(fold=0) != d.replace(fold=0)):
                ctx.fail('%s: %r is read back as %r' % (zone, d, c.last_modified))
    finally:
        set_zone('UTC0')
    ctx.impl(len(part))


def refuse(ctx, d, field):
    f = plain.open_bytes(document([(1, 2)], 'little'))
    if field == 'last_save':
        f.last_save = d
    else:
        setattr(f.content.components[0], field, d)
    try:
        plain.save_bytes(f, 'little', ctx.path())
    except Exception:
        ctx.impl()
        return
    ctx.fail('%s = %r accepted' % (field, d))


def shards(tier):
    return [{'z': i, 'how': h} for i in range(len(ZONES)) for h in ('loaded', 'user', 'header')] + [{'how': 'refuse'}]


def ext_shards(tier):
    return [s for s in shards(tier) if s['how'] == 'loaded']


def run(shard, ctx):
    how = shard['how']
    if how == 'refuse':
        dt = datetime.datetime
        for i, d in enumerate([dt(1969, 12, 31, 23, 59, 58), dt(2106, 2, 7, 6, 28, 16), dt(1904, 1, 1), dt(9999, 1, 1),
                               None, 'now', 5, 1500000000.0]):
            for field in ('last_modified', 'creation_time', 'last_save'):
                ctx.state(('refuse', i, field))
                ctx.case('refuse/%r/%s' % (d, field), refuse, ctx, d, field)
        return
    zone = ZONES[shard['z']]
    if not usable(zone):
        return
    years = range(1971, 2106) if ctx.thorough else range(2000, 2038)
    try:
        set_zone(zone)
        secs = seconds(years)
    finally:
        set_zone('UTC0')
    for s in secs:
        ctx.state((zone, s))
    for n in range(0, len(secs), 100):
        part = secs[n:n + 100]
        if how == 'loaded':
            for order in spec.ORDERS:
                ctx.case('loaded/%s/%d/%s' % (zone, n, order), loaded, ctx, zone, OTHER, part, order)
                ctx.case('copied/%s/%d/%s' % (zone, n, order), copied, ctx, zone, part, order)
            ctx.case('loaded2/%s/%d' % (zone, n), loaded, ctx, OTHER, zone, part, 'little')
        elif how == 'user':
            ctx.case('user/naive/%s/%d' % (zone, n), user, ctx, zone, part, 'little', False)
            ctx.case('user/aware/%s/%d' % (zone, n), user, ctx, zone, part, 'big', True)
        else:
            for i, t in enumerate(part):
                ctx.case('header/%s/%d' % (zone, t), header, ctx, zone, t, spec.ORDERS[i % 2])
