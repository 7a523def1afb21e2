# -*- coding: utf-8 -*-
"""C19: sequence positions and lengths add up over any mix of transitions."""
import itertools

import avb

from mc import docs, plain, spec

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of clip/transition sequences; positions, length and coverage computed by a frame '
             'by frame model are compared with the real library at every position')
RULE = 'distinct sequences'
BOUNDS = ('all sequences of up to 4 (5 in the thorough tier) clips with lengths {0,1,3,4}, with a transition of length '
          '{none,0,1,2,3} at every cut that its neighbours can hold, loaded and created, at every position from -2 to 2 '
          'past the end; arbitrary (also inconsistent) orders of up to 5 components for the running sums; '
          'pairs of 18 component kinds, sequences inside sequences included; sequences of 6 to 1000 clips; lengths up to 2^32 - 1')
ASSUMPTIONS = ['coverage is only specified where transitions fit into their neighbours']


def build_loaded(items):
    d = docs.Doc()
    refs = []
    for kind, n in items:
        if kind == 'T':
            refs.append(d.add('TNFX', length=n, media_kind_id=1, effect_id=u'x', cutpoint=n // 2))
        else:
            refs.append(d.add({'C': 'SCLP', 'F': 'FILL', 'E': 'TKFX'}[kind], length=n, media_kind_id=1))
    d.add('SEQU', media_kind_id=1, components=[docs.R(r) for r in refs])
    return plain.open_bytes(d.encode('little')).content


def build_created(items):
    f = avb.file.AVBFile()
    s = f.create.Sequence()
    for kind, n in items:
        c = getattr(f.create, {'T': 'TransitionEffect', 'C': 'SourceClip', 'F': 'Filler', 'E': 'TrackEffect'}[kind])()
        c.length = n
        s.components.append(c)
    return s, f


def sums(ctx, s, items):
    length = 0
    want = []
    for i, (kind, n) in enumerate(items):
        if kind == 'T':
            length -= n
            want.append((i, length))
        else:
            want.append((i, length))
            length += n
    got = []
    for i, pos, c in s.positions():
        got.append((i, pos))
        if c is not s.components[i]:
            ctx.fail('positions() lists another component at index %d' % i)
    if got != want:
        ctx.fail('positions %s, running sums %s' % (got, want))
    if s.length != length:
        ctx.fail('length %s, clips minus overlaps %d' % (s.length, length))
    ctx.step(2)
    return want, length


def covered(items, want, length):
    """position -> set of component indexes covering it; a transition has
    precedence over the clips it overlaps"""
    out = []
    for t in range(length):
        cl = [i for i, p in want if items[i][0] != 'T' and p <= t < p + items[i][1]]
        tr = [i for i, p in want if items[i][0] == 'T' and p <= t < p + items[i][1]]
        out.append(set(tr) or set(cl))
    return out


def sequence(ctx, items, how):
    keep = None
    if how == 'created':
        s, keep = build_created(items)
    else:
        s = build_loaded(items)
    want, length = sums(ctx, s, items)
    cov = covered(items, want, length)
    for t in range(length):
        c, pos = s.nearest_component_at_time(t)
        i, pos2 = s.nearest_index_at_time(t)
        ctx.step()
        if pos != pos2 or s.components[i] is not c:
            ctx.fail('index and component lookup disagree at %d' % t)
        if i not in cov[t]:
            ctx.fail('position %d is covered by component %s, lookup returned %d of %s' % (t, sorted(cov[t]), i, items))
        if pos != dict(want)[i]:
            ctx.fail('component %d starts at %d, lookup returned %d' % (i, dict(want)[i], pos))
    real = [i for i, (k, n) in enumerate(items) if n]
    if real:
        for t in (length, length + 2):
            i, pos = s.nearest_index_at_time(t)
            if i != real[-1]:
                ctx.fail('past the end lookup returned %d, last component is %d' % (i, real[-1]))
        i, pos = s.nearest_index_at_time(-2)
        if i != real[0] or pos != dict(want)[i]:
            ctx.fail('before the start lookup returned %d at %d' % (i, pos))
    ctx.impl()


def free(ctx, items):
    sums(ctx, build_loaded(items), items)
    s, f = build_created(items)
    sums(ctx, s, items)
    ctx.impl()


WITH_LENGTH = ('FILL', 'SCLP', 'TCCP', 'ECCP', 'TRKR', 'TKFX', 'PVOL', 'ASPI', 'EQMB', 'MASK', 'RSET', 'REPT', 'SLCT', 'SPED',
               'STRB', 'CMPO', 'CTRL', 'SEQU')


def kinds(ctx, ks, how):
    """components of every kind, whole sequences included"""
    items, d, refs = [], docs.Doc(), []
    for i in (1, 2, 3):
        d.put(*spec.leaf(i))
    for i, k in enumerate(ks):
        n = 4 + i
        if i:
            items.append(('T', 2))
            refs.append(d.add('TNFX', length=2, media_kind_id=1))
        items.append(('C', n))
        if k == 'SEQU':
            # a sequence has the length of its parts
            parts = [docs.R(d.add(c, length=x, media_kind_id=1)) for c, x in (('FILL', n + 3), ('TNFX', 5), ('SCLP', 2))]
            refs.append(d.add(k, media_kind_id=1, components=parts))
        else:
            refs.append(d.put(k, dict(spec.generate(k, nrefs=3)[0], length=n)))
    d.add('SEQU', media_kind_id=1, components=[docs.R(r) for r in refs])
    f = plain.open_bytes(d.encode('little'))
    s = f.content
    if how == 'copied':
        g = avb.file.AVBFile()
        s = s.copy(g)
    want, length = sums(ctx, s, items)
    lookups(ctx, s, items, want, length, range(-2, length + 3))
    ctx.impl()


def lookups(ctx, s, items, want, length, times):
    """lookups at some positions"""
    at = dict(want)
    real = [i for i, (k, n) in enumerate(items) if n]
    clips = [(i, p, p + items[i][1]) for i, p in want if items[i][0] != 'T' and items[i][1]]
    trans = [(i, p, p + items[i][1]) for i, p in want if items[i][0] == 'T']
    for t in times:
        i, pos = s.nearest_index_at_time(t)
        c, pos2 = s.nearest_component_at_time(t)
        ctx.step()
        if pos != pos2 or s.components[i] is not c or pos != at[i]:
            ctx.fail('lookups at %d: component %d at %s, %s; it starts at %s' % (t, i, pos, pos2, at[i]))
        if t < 0 or t >= length:
            ok = [real[-1] if t >= 0 else real[0]]
        else:
            ok = [j for j, lo, hi in trans if lo <= t < hi] or [j for j, lo, hi in clips if lo <= t < hi]
        if i not in ok:
            ctx.fail('position %d is covered by component %s, lookup returned %d' % (t, ok, i))


def long_items(n, every):
    items = []
    for i in range(n):
        items.append(('CFE'[i % 3], (7, 4, 11, 5, 6)[i % 5]))
        if i < n - 1 and every and i % every == 0:
            items.append(('T', (1, 2, 0)[i % 3]))
    return items


def long(ctx, n, every, how):
    items = long_items(n, every)
    keep = None
    if how == 'created':
        s, keep = build_created(items)
    else:
        s = build_loaded(items)
    want, length = sums(ctx, s, items)
    edges = sorted(set(t + d for i, t in want for d in (-1, 0, 1)) | set((-2, length, length + 2)))
    lookups(ctx, s, items, want, length, edges if n <= 100 else edges[::n // 50])
    ctx.impl()


HUGE = (1, 65535, 65536, (1 << 24) + 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1)


def huge(ctx, ls, tr, how):
    items = []
    for i, n in enumerate(ls):
        if i and tr:
            items.append(('T', min(ls[i - 1], n) // 2))
        items.append(('CF'[i % 2], n))
    keep = None
    if how == 'created':
        s, keep = build_created(items)
    else:
        s = build_loaded(items)
    want, length = sums(ctx, s, items)
    lookups(ctx, s, items, want, length, sorted(set(t + d for i, t in want for d in (-1, 0, 1)) | set((-2, length - 1, length, length + 2))))
    ctx.impl()


LENGTHS = (0, 1, 3, 4)
TRANS = (None, 0, 1, 2, 3)


def fits(ls, ts):
    for i, n in enumerate(ls):
        left = ts[i - 1] or 0 if i else 0
        right = ts[i] or 0 if i < len(ts) else 0
        if left + right > n:
            return False
    return True


def shards(tier):
    n = 5 if tier == 'thorough' else 4
    return [{'part': i, 'of': 32, 'n': n} for i in range(32)] + [{'w': x} for x in ('kinds', 'long', 'huge')]


def run(shard, ctx):
    if 'w' in shard:
        hows = ('loaded', 'created')
        if shard['w'] == 'kinds':
            todo = [('/'.join(ks) + '/' + how, kinds, (ks, how)) for n in (1, 2) for ks in itertools.product(WITH_LENGTH, repeat=n)
                    for how in ('loaded', 'copied')]
        elif shard['w'] == 'long':
            todo = [('%d/%d/%s' % (n, e, how), long, (n, e, how)) for n in list(range(6, 40)) + [50, 64, 65, 100, 128, 129, 257, 1000]
                    for e in (0, 1, 2, 3, 7) for how in hows]
        else:
            todo = [('%s/%s/%s' % (ls, tr, how), huge, (ls, tr, how)) for n in (1, 2, 3) for ls in itertools.product(HUGE, repeat=n)
                    for tr in (False, True) for how in hows]
        for k, fn, a in todo:
            k = '%s/%s' % (shard['w'], k)
            ctx.state(k)
            ctx.case(k, fn, ctx, *a)
        return
    c = 0
    for n in range(0, shard['n'] + 1):
        for ls in itertools.product(LENGTHS, repeat=n):
            for ts in itertools.product(TRANS, repeat=max(0, n - 1)):
                if not fits(ls, ts):
                    continue
                c += 1
                if c % shard['of'] != shard['part']:
                    continue
                items = []
                for i, l in enumerate(ls):
                    items.append(('CFE'[(i + n) % 3], l))
                    if i < n - 1 and ts[i] is not None:
                        items.append(('T', ts[i]))
                k = ''.join('%s%d' % x for x in items)
                ctx.state(k)
                for how in ('loaded', 'created'):
                    ctx.case('%s/%s' % (how, k), sequence, ctx, items, how)
    for n in range(0, 6 if shard['n'] == 5 else 5):
        for items in itertools.product([('C', 2), ('F', 0), ('T', 1), ('T', 3), ('E', 1)], repeat=n):
            c += 1
            if c % shard['of'] != shard['part']:
                continue
            k = 'free/' + ''.join('%s%d' % x for x in items)
            ctx.state(k)
            ctx.case(k, free, ctx, list(items))
