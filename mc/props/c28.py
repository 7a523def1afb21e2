# -*- coding: utf-8 -*-
"""C28: source clips resolve to the mob and the track they name."""
import itertools

import avb

from mc import docs, plain, spec

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of small mob / track / clip arrangements; the answer computed from the '
             'arrangement is compared with the real library')
RULE = 'distinct (tracks, clip) arrangements'
BOUNDS = ('all triples of tracks over track number {absent,0,1,2} x component {absent, '
          'null, no kind, picture, sound, sequence} x every clip over mob {first, second, duplicate, missing, zero, absent} x track '
          'number 0..2 x media kind {none, picture, sound}; loaded and created; bins in several orders; 288 mob ids that differ in one byte from zero, all ones and each '
          'other, with track numbers over the whole 16 bit range; tracks and clips of 26 media kinds; mobs with 4 to 300 tracks; once more with the compiled reader for the kinds that have one')
ASSUMPTIONS = ['where several tracks or mobs match any of them may be returned', 'the root object of the document is a bin']

INDEX = ('-', 0, 1, 2)
COMP = ('-', 'null', 0, 1, 2, 'seq')
MOBS = (1, 2, 3, 9, 0, '-')
CLIPS = [(m, t, k) for m in MOBS for t in (0, 1, 2) for k in (0, 1, 2)]
TRACKS = list(itertools.product(INDEX, COMP))


def track_value(d, ix, comp):
    kw = {'lock_number': 0}
    if ix != '-':
        kw['index'] = ix
    if comp == 'null':
        kw['component'] = docs.R(0)
    elif comp == 'seq':
        kw['component'] = docs.R(d.add('SEQU', media_kind_id=1))
    elif comp != '-':
        kw['component'] = docs.R(d.add('FILL', length=3, media_kind_id=comp))
    # every optional part of a track that plays no role
    kw['control_code'] = 4
    return docs.track(**kw)


def kind(comp):
    return 1 if comp == 'seq' else comp


def clip_value(m, t, k):
    v = docs.default('SCLP', length=4, media_kind_id=k, track_id=t)
    if m == '-':
        del v['mob_id']
    else:
        v['mob_id'] = docs.mob_id(m) if m else bytes(32)
    return v


def document(tracks, items, clips):
    """mob 1 has the given tracks, mob 2 the same in reverse order, mob 3
    occurs twice, mob 9 is not in the bin"""
    d = docs.Doc()
    at = {}

    def mob(name, n, ts):
        tv = [track_value(d, *t) for t in ts]
        v = docs.default('CMPO', name=name, mob_type_id=2, usage_code=0, tracks=tv)
        if n is None:
            del v['mob_id']
        else:
            v['mob_id'] = docs.mob_id(n)
        at[name] = d.put('CMPO', v)
    mob(u'one', 1, tracks)
    mob(u'two', 2, tracks[::-1])
    mob(u'three', 3, tracks[:1])
    mob(u'three2', 3, tracks[:1])
    mob(u'out', 9, tracks)
    mob(u'noid', None, tracks)
    ci = [d.put('SCLP', clip_value(*c)) for c in clips]
    its = [docs.binitem(at[x]) if x else dict(docs.binitem(1), mob=docs.R(0)) for x in items]
    d.add('ABIN', items=its)
    return d, ci


BINS = ((u'one', u'two', u'three', u'three2', u'noid'), (u'noid', None, u'three2', u'three', u'two', u'one'))


def expect(tracks, items, c):
    m, t, k = c
    by = {1: [u'one'], 2: [u'two'], 3: [u'three', u'three2']}
    names = [x for x in by.get(m, []) if x in items]
    ts = []
    if names:
        mine = {1: list(enumerate(tracks)), 2: list(enumerate(tracks[::-1])), 3: list(enumerate(tracks[:1]))}[m]
        ts = [i for i, (ix, comp) in mine if ix == t and comp not in ('-', 'null') and kind(comp) == k]
    return names, ts


def check(ctx, clip, tracks, items, c):
    names, ts = expect(tracks, items, c)
    m = clip.mob
    if m is None:
        if names:
            ctx.fail('clip %s: no mob, expected %s' % (c, names))
    elif m.name not in names:
        ctx.fail('clip %s: mob %s, expected %s' % (c, m.name, names or None))
    tr = clip.track
    if tr is None:
        if ts:
            ctx.fail('clip %s: no track, expected one of %s' % (c, ts))
    else:
        if not ts:
            ctx.fail('clip %s: found a track, expected none' % (c,))
        pos = [i for i, x in enumerate(m.tracks) if x is tr]
        if not pos or pos[0] not in ts:
            ctx.fail('clip %s: track at %s, expected one of %s' % (c, pos, ts))
    ctx.step(2)


def media(ctx, mob, tracks):
    for tr, (ix, comp) in zip(mob.tracks, tracks):
        want = None if comp in ('-', 'null') else {0: None, 1: 'picture', 2: 'sound'}[kind(comp)]
        if tr.media_kind != want:
            ctx.fail('media kind of track %s is %s' % ((ix, comp), tr.media_kind))


def arrangement(ctx, tracks, items):
    d, ci = document(tracks, items, CLIPS)
    f = plain.open_bytes(d.encode('little'))
    for c, i in zip(CLIPS, ci):
        check(ctx, f.read_object(i), tracks, items, c)
    media(ctx, f.read_object(f.content.items[0].mob.instance_id), tracks if items[0] == u'one' else tracks)
    ctx.impl()


def created(ctx, tracks):
    f = avb.file.AVBFile()
    for name, n, ts in ((u'one', 1, tracks), (u'two', 2, tracks[::-1]), (u'three', 3, tracks[:1])):
        m = f.create.Composition(name, 'MasterMob')
        m.name = name
        m.mob_id = plain.make_mob(docs.mob_id(n))
        for ix, comp in ts:
            t = f.create.Track()
            if ix != '-':
                t.index = ix
            if comp == 'null':
                t.component = None
            elif comp == 'seq':
                t.component = f.create.Sequence(media_kind='picture')
            elif comp != '-':
                t.component = f.create.Filler(media_kind={0: None, 1: 'picture', 2: 'sound'}[comp])
            m.tracks.append(t)
        f.content.add_mob(m)
        media(ctx, m, ts)
    for c in CLIPS:
        s = f.create.SourceClip(media_kind={0: None, 1: 'picture', 2: 'sound'}[c[2]])
        s.track_id = c[1]
        if c[0] == '-':
            del s.property_data['mob_id']
        elif c[0]:
            s.mob_id = plain.make_mob(docs.mob_id(c[0]))
        check(ctx, s, tracks, (u'one', u'two', u'three'), c)
    ctx.impl()


def patterns():
    """ids that differ from zero, from all ones and from an ordinary id in one byte"""
    out = []
    for base in (bytes(32), b'\xff' * 32, docs.mob_id(1)):
        for i in range(32):
            for v in (1, 0x80, 0xff):
                b = bytearray(base)
                b[i] ^= v
                out.append(bytes(b))
    return out


def exact(ctx, k, how, order):
    """many mobs, each found by its own id; wide track numbers"""
    ids = patterns()[k::4]
    tracks = [-32768, -257, -1, 0, 1, 2, 255, 256, 257, 32767]
    f = avb.file.AVBFile()
    mobs = []
    for n, i in enumerate(ids):
        m = f.create.Composition(u'm%d' % n, ('MasterMob', 'SourceMob', 'CompositionMob')[n % 3])
        m.name = u'm%d' % n
        m.mob_id = avb.mobid.MobID(bytes_le=bytearray(i))
        for x in tracks[n % 4:] + tracks[:n % 4]:
            t = f.create.Track()
            t.index = x
            t.component = f.create.Filler(media_kind='picture')
            m.tracks.append(t)
        f.content.add_mob(m)
        mobs.append(m)
    seq = f.create.Sequence(media_kind='picture')
    for n, i in enumerate(ids):
        c = f.create.SourceClip(media_kind='picture')
        c.mob_id = avb.mobid.MobID(bytes_le=bytearray(i))
        c.track_id = tracks[n % len(tracks)]
        seq.components.append(c)
    t = f.create.Track()
    t.index = 77
    t.component = seq
    mobs[0].tracks.append(t)
    if how == 'loaded':
        f = plain.open_bytes(plain.save_bytes(f, order, ctx.path()))
    mobs = list(f.content.mobs)
    clips = [c for c in mobs[0].tracks[-1].component.components if type(c).__name__ == 'SourceClip']
    if len(clips) != len(ids):
        ctx.fail('%d clips' % len(clips))
    for n in list(range(len(ids))) + list(range(len(ids)))[::-1]:
        c = clips[n]
        ctx.step()
        if c.mob is not mobs[n]:
            ctx.fail('clip of mob %s resolves to %r' % (ids[n].hex(), c.mob))
        want = [t for t in mobs[n].tracks if t.index == tracks[n % len(tracks)]]
        if len(want) != 1 or c.track is not want[0]:
            ctx.fail('clip of track %d resolves to %r' % (tracks[n % len(tracks)], c.track))
        if f.content.find_by_mob_id(avb.mobid.MobID(bytes_le=bytearray(ids[n]))) is not mobs[n]:
            ctx.fail('mob %s is not found' % ids[n].hex())
    ctx.impl()


CODES = list(range(-2, 21)) + [99, 0x7fff, -0x8000]


def kinds(ctx, order, rev):
    """one track of every media kind, all with the same number"""
    d = docs.Doc()
    codes = CODES[::-1] if rev else CODES
    tv = []
    for k in codes:
        c = d.add('FILL', length=3, media_kind_id=k)
        tv.append(docs.track(index=1, component=docs.R(c), lock_number=0))
    m = d.put('CMPO', docs.default('CMPO', name=u'm', mob_type_id=2, usage_code=0, tracks=tv, mob_id=docs.mob_id(1)))
    half = d.put('CMPO', docs.default('CMPO', name=u'h', mob_type_id=2, usage_code=0, tracks=tv[::2], mob_id=docs.mob_id(2)))
    ci = [(n, k, d.put('SCLP', clip_value(n, 1, k))) for n in (1, 2) for k in codes]
    d.add('ABIN', items=[docs.binitem(m), docs.binitem(half)])
    f = plain.open_bytes(d.encode(order))
    for n, k, i in ci:
        c = f.read_object(i)
        mob = f.read_object(m if n == 1 else half)
        want = [t for t in mob.tracks if t.component.media_kind_id == k]
        ctx.step()
        if c.mob is not mob or (c.track is not want[0] if want else c.track is not None):
            ctx.fail('clip of kind %d: track %r, expected %r' % (k, c.track, want))
    ctx.impl()


def many(ctx, n, order, how):
    """mobs with many tracks: picture and sound by turns, numbers 1, 1, 2, 2, ..."""
    d = docs.Doc()
    ids = [bytes(bytearray([6, 10, i & 255, i >> 8])) + docs.mob_id(3)[4:] for i in range(3)]
    at = []
    for i in range(3):
        tv = []
        for j in range(n):
            c = d.add('FILL', length=3, media_kind_id=1 + j % 2)
            tv.append(docs.track(index=1 + j // 2, component=docs.R(c), lock_number=0))
        k = (0, n // 2, n - 1)[i]
        tv = tv[k:] + tv[:k]
        at.append((d.put('CMPO', docs.default('CMPO', name=u'm%d' % i, mob_type_id=2, usage_code=0, tracks=tv, mob_id=ids[i])), k))
    ci = []
    for i in range(3):
        for j in list(range(n)) + [n, n + 1]:
            v = docs.default('SCLP', length=4, media_kind_id=1 + j % 2, track_id=1 + j // 2, mob_id=ids[i])
            ci.append((i, j, d.put('SCLP', v)))
    d.add('ABIN', items=[docs.binitem(a) for a, k in at])
    f = plain.open_bytes(d.encode(order))
    if how == 'saved':
        f = plain.open_bytes(plain.save_bytes(f, order, ctx.path()))
        mobs = list(f.content.mobs)
        todo = []
    else:
        mobs = [f.read_object(a) for a, k in at]
        todo = [(i, j, f.read_object(o)) for i, j, o in ci]
    if how != 'loaded':
        # clips made by hand
        for i, j, o in ci:
            c = f.create.SourceClip(media_kind=('picture', 'sound')[j % 2])
            c.mob_id, c.track_id = plain.make_mob(ids[i]), 1 + j // 2
            todo.append((i, j, c))
    for i, j, c in todo:
        want = mobs[i].tracks[(j - at[i][1]) % n] if j < n else None
        if n % 2 and j == n:
            want = None
        ctx.step()
        if c.mob is not mobs[i] or c.track is not want:
            ctx.fail('clip of track %d of %d (mob %d): %r, expected %r' % (j, n, i, c.track, want))
    ctx.impl()


def shards(tier):
    return [{'exact': k} for k in range(4)] + [{'part': i, 'n': 3, 'all': tier == 'thorough'} for i in range(32)]


def ext_shards(tier):
    return [s for s in shards(tier) if 'exact' in s or s['part'] % 4 == 0]


def run(shard, ctx):
    if 'exact' in shard:
        for how, order in (('created', 'little'), ('loaded', 'little'), ('loaded', 'big')):
            ctx.state(('exact', shard['exact'], how, order))
            ctx.case('exact/%d/%s/%s' % (shard['exact'], how, order), exact, ctx, shard['exact'], how, order)
        for n in [x for x in (4, 5, 9, 16, 17, 33, 64, 65, 100, 128, 200, 300) if x % 4 == shard['exact'] or x == 300]:
            for order in ('little', 'big'):
                for how in ('loaded', 'saved', 'both'):
                    ctx.state(('many', n, order, how))
                    ctx.case('many/%d/%s/%s' % (n, order, how), many, ctx, n, order, how)
        if shard['exact'] == 0:
            for order in ('little', 'big'):
                for rev in (False, True):
                    ctx.state(('kinds', order, rev))
                    ctx.case('kinds/%s/%d' % (order, rev), kinds, ctx, order, rev)
        return
    def go(ts):
        k = '/'.join('%s.%s' % t for t in ts)
        for i, b in enumerate(BINS[:2 if len(ts) < 3 or shard['all'] else 1]):
            ctx.state((ts, i))
            ctx.case('bin%d/%s' % (i, k), arrangement, ctx, ts, b)
        if len(ts) == 3 and not shard['all']:
            return
        ctx.state((ts, 'created'))
        ctx.case('created/%s' % k, created, ctx, ts)
    for n in range(0, shard['n'] + 1):
        for i, ts in enumerate(itertools.product(TRACKS, repeat=n)):
            if i % 32 == shard['part']:
                go(ts)
