# -*- coding: utf-8 -*-
"""C31: symbolic names and stored codes convert both ways without loss."""
import json
import os
import struct
import uuid

import avb

from mc import docs, plain, spec

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of every stored code (and of every name set over every code) on the real library, '
             'compared with independent code tables, followed by a save whose bytes must still hold the codes')
RULE = 'distinct (field, code or name) pairs'
BOUNDS = ('all 65536 track kind codes, all 65536 property codes and value types, all 256 mob types, usage / interpolation codes -300..300 and '
          'around every power of two, every known parameter id and its one bit neighbours, all 1024 track part '
          'combinations, every name and 60 non names set over every boundary code; both byte orders; once more with the compiled reader for the kinds that have one')
ASSUMPTIONS = ['the tables of names were taken from the documented values; names for codes the tables do not list may be '
               'anything that is not a listed name, or raise']

MEDIA = {0: None, 1: 'picture', 2: 'sound', 3: 'timecode', 4: 'edgecode', 5: 'attribute', 6: 'effectdata',
         7: 'DescriptiveMetadata', 16: 'DataEssenceTrack'}
USAGE = {0: None, 1: 'precompute', 2: 'subclip', 3: 'effect', 4: 'group', 5: 'groupoofter', 6: 'motion',
         7: 'mastermob', 9: 'precompute_file'}
MOBS = {1: 'CompositionMob', 2: 'MasterMob', 3: 'SourceMob'}
TYPES = {1: 'int', 2: 'double', 4: 'reference'}
INTERP = {2: 'ConstantInterp', 3: 'LinearInterp', 5: 'BezierInterpolator', 6: 'CubicInterpolator'}
POINTS = {5: 'PP_IN_TANGENT_POS_U', 6: 'PP_IN_TANGENT_VAL_U', 7: 'PP_OUT_TANGENT_POS_U', 8: 'PP_OUT_TANGENT_VAL_U',
          9: 'PP_TANGENT_MODE_U', 14: 'PP_BASE_FRAME_U'}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'parameter_names.json')) as _f:
    PARAMS = json.load(_f)

S16 = sorted(set([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 18, 255, 256, 257, 262, 272, 512, 32767, -1, -2, -16, -32768]))
S32 = sorted(set(list(range(-300, 301)) + [s * (1 << k) + d for k in range(8, 31) for s in (1, -1) for d in (-1, 0, 1, 2, 3, 5, 6, 9)] +
                 [(1 << 31) - 1, -(1 << 31)]))

NOTNAMES = ['', u'', 'Picture', 'PICTURE', 'picture ', ' picture', 'pictur', 'picture1', 'video', 'audio', 'unknown',
            'unknown0', 'unknown1', 'unknown2', 'unknown8', 'unknown16', 'unknown42', 'none', 'None', '1', '0', '16',
            b'picture', b'sound', 0, 1, 2, 16, 8, 1.0, True, False, 'Sound', 'Timecode', 'Edgecode', 'Attribute',
            'EffectData', 'effectData', 'Effectdata', 'descriptivemetadata', 'Descriptivemetadata',
            'dataessencetrack', 'DataEssence', 'DescriptiveMetaData', 'timecode\x00', 'TC', 'EC',
            'tapecode', 'null', [], ['picture'], ('picture',), {}, 'sound,picture', u'pict\u00fcre', 'picturesound']


def value(cid, **kw):
    v = docs.default(cid, **kw)
    if cid == 'SLCT':
        v.update(tracks=[docs.track(lock_number=0)], selected=0)
    if cid == 'ASPI':
        v['plugins'] = [docs.blank(None, spec.generate(cid)[0]['plugins'][0])]
    return v


def describe(x):
    return '%s %r' % (type(x).__name__, x)


def name_of(get):
    """('name', x) or ('raise', type)"""
    try:
        return ('name', get())
    except Exception as e:
        return ('raise', type(e).__name__)


def agree(ctx, what, code, got, table, exact=True):
    ctx.impl()
    ctx.step()
    if code in table:
        if got != ('name', table[code]):
            ctx.fail('%s code %s: %s, expected %r' % (what, code, got, table[code]))
    elif got[0] == 'name' and (got[1] in table.values()):
        # a listed name (None included) for a code that is not it
        if not (got[1] is None and None not in table.values()):
            ctx.fail('%s code %s: named %r, which is another code' % (what, code, got[1]))


def roundtrip(ctx, d, order, visit):
    data = d.encode(order)
    f = plain.open_bytes(data)
    visit(f)
    p0 = spec.parse(data)
    out = plain.save_bytes(f, order, ctx.path())
    p = spec.parse(out)
    if [c for c, _ in p.chunks] != [c for c, _ in p0.chunks]:
        ctx.fail('objects changed by viewing and saving')
    for i, (a, b) in enumerate(zip(p0.chunks, p.chunks)):
        if a[1] != b[1]:
            ctx.fail('object %d (%s) changed by viewing and saving' % (i + 1, a[0]))
    return f


def media_codes(ctx, codes, order):
    d = docs.Doc()
    for c in codes:
        d.add('FILL', media_kind_id=c)
    at = list(range(1, len(codes) + 1))
    d.add('SEQU', components=[docs.R(i) for i in at])

    def visit(f):
        seen = {}
        for c, o in zip(codes, f.content.components):
            g = name_of(lambda: o.media_kind)
            agree(ctx, 'media kind', c, g, MEDIA)
            if o.media_kind_id != c:
                ctx.fail('stored code %d shows as %d' % (c, o.media_kind_id))
            if g[0] == 'name':
                if g[1] in seen:
                    ctx.fail('codes %d and %d have the same name %r' % (seen[g[1]], c, g[1]))
                seen[g[1]] = c
                if c not in MEDIA and str(c) not in str(g[1]):
                    ctx.fail('name %r does not identify the code %d' % (g[1], c))
    roundtrip(ctx, d, order, visit)


def components():
    out = []
    for cid in sorted(spec.SPECS):
        if cid == 'TRKG':
            continue
        v = spec.generate(cid)[0]
        if isinstance(v, dict) and 'media_kind_id' in v:
            out.append(cid)
    return out


def media_kinds(ctx, cid, order):
    """each boundary code in every kind of component"""
    for c in S16:
        d = docs.Doc()
        d.put(cid, value(cid, media_kind_id=c))

        def visit(f):
            agree(ctx, '%s media kind' % cid, c, name_of(lambda: f.content.media_kind), MEDIA)
        roundtrip(ctx, d, order, visit)


def media_set(ctx, cid, start, order):
    """set every name over a stored code"""
    for code, name in MEDIA.items():
        for fresh in (False, True):
            if fresh:
                f = avb.file.AVBFile()
                f.content = plain.make_object(f, cid, value(cid, media_kind_id=start), plain.Refs(f))
            else:
                d = docs.Doc()
                d.put(cid, value(cid, media_kind_id=start))
                f = plain.open_bytes(d.encode(order))
            o = f.content
            o.media_kind = name
            if o.media_kind_id != code or o.media_kind != name:
                ctx.fail('set %r: code %r, name %r' % (name, o.media_kind_id, o.media_kind))
            g = plain.open_bytes(plain.save_bytes(f, order, ctx.path()))
            if g.content.media_kind_id != code or g.content.media_kind != name:
                ctx.fail('set %r: reopened code %r, name %r' % (name, g.content.media_kind_id, g.content.media_kind))
            ctx.step(2)
    # names of the other created ones
    for bad in NOTNAMES:
        try:
            o.media_kind = bad
        except Exception:
            ok = True
        else:
            # a spelling the library takes has to read back as itself
            ok = o.media_kind == bad and type(o.media_kind) is type(bad) and o.media_kind_id != start
        if not ok:
            ctx.fail('setting %s stored code %r' % (describe(bad), o.media_kind_id))
        if o.media_kind_id != code:
            ctx.fail('refused name %s changed the code to %r' % (describe(bad), o.media_kind_id))
        ctx.step()


def factory(ctx, cid):
    """names given to the factory"""
    cls = spec.NAMES[cid]
    for code, name in MEDIA.items():
        f = avb.file.AVBFile()
        try:
            o = getattr(f.create, cls)(media_kind=name)
        except TypeError:
            return      # takes no media kind
        if o.media_kind_id != code or o.media_kind != name:
            ctx.fail('%s(media_kind=%r) has code %r' % (cls, name, o.media_kind_id))
        ctx.step()
    for bad in NOTNAMES:
        try:
            o = getattr(f.create, cls)(media_kind=bad)
        except Exception:
            continue
        ctx.fail('%s(media_kind=%s) accepted, code %r' % (cls, describe(bad), o.media_kind_id))


def mob_factory(ctx):
    f = avb.file.AVBFile()
    for code, name in MOBS.items():
        for o in (f.create.Composition(mob_type=name), f.create.Composition('x', name),
                  f.create.from_name('Composition', u'x', name)):
            if o.mob_type_id != code or o.mob_type != name:
                ctx.fail('Composition(mob_type=%r) has type %r %r' % (name, o.mob_type_id, o.mob_type))
            if o.usage_code != 0 or o.usage is not None:
                ctx.fail('new mob has usage %r' % o.usage)
    for bad in NOTNAMES + ['compositionmob', 'CompositionMob ', 'Composition', 'Master', 'SourceMob2', 'FileMob', 'TapeMob', None, 3]:
        try:
            o = f.create.Composition(mob_type=bad)
        except Exception:
            ctx.step()
            continue
        ctx.fail('Composition(mob_type=%s) accepted, type %r' % (describe(bad), o.mob_type_id))


def mob_types(ctx, codes, usage, order):
    d = docs.Doc()
    for c in codes:
        for u in usage:
            d.add('CMPO', mob_type_id=c, usage_code=u, tracks=[])
    n = len(d.chunks)
    d.add('ABIN', items=[docs.binitem(i) for i in range(1, n + 1)])
    pairs = [(c, u) for c in codes for u in usage]

    def visit(f):
        mobs = list(f.content.mobs)
        for (c, u), m in zip(pairs, mobs):
            if (m.mob_type_id, m.usage_code) != (c, u):
                ctx.fail('stored codes %s show as %s' % ((c, u), (m.mob_type_id, m.usage_code)))
            agree(ctx, 'mob type', c, name_of(lambda: m.mob_type), MOBS)
            agree(ctx, 'usage', u, name_of(lambda: m.usage), USAGE)
        if all(c in MOBS for c in codes):
            # the bin's symbolic filters
            for name, want in (('toplevel', [i for i, (c, u) in enumerate(pairs) if c == 1 and u == 0]),
                               ('compositionmobs', [i for i, (c, u) in enumerate(pairs) if c == 1]),
                               ('mastermobs', [i for i, (c, u) in enumerate(pairs) if c == 2])):
                got = [x.instance_id for x in getattr(f.content, name)()]
                if got != [mobs[i].instance_id for i in want]:
                    ctx.fail('%s lists %d mobs, expected %d' % (name, len(got), len(want)))
    roundtrip(ctx, d, order, visit)


def params(ctx, kinds, vtypes, order):
    """interpolation and value types of parameter clips and control clips"""
    d = docs.Doc()
    for k in kinds:
        for t in vtypes:
            d.add('PRCL', interp_kind=k, value_type=t, control_points=[])
    n = len(d.chunks)
    d.add('SEQU', components=[docs.R(i) for i in range(1, n + 1)])
    pairs = [(k, t) for k in kinds for t in vtypes]

    def visit(f):
        for (k, t), o in zip(pairs, f.content.components):
            if (o.interp_kind, o.value_type) != (k, t):
                ctx.fail('stored codes %s show as %s' % ((k, t), (o.interp_kind, o.value_type)))
            agree(ctx, 'interpolation', k, name_of(lambda: o.interp), INTERP)
            agree(ctx, 'value type', t, name_of(lambda: o.value_type_name), TYPES)
    roundtrip(ctx, d, order, visit)


def points(ctx, codes, order):
    """point property codes, all with their value type"""
    d = docs.Doc()
    size = 2048
    for lo in range(0, len(codes), size):
        pp = [{'$h': 'ParamControlPointProperty', 'code': c, 'type': 1, 'value': i} for i, c in enumerate(codes[lo:lo + size])]
        d.add('PRCL', interp_kind=2, value_type=1, control_points=[docs_point(pp)])
    d.add('SEQU', components=[docs.R(i) for i in range(1, len(d.chunks) + 1)])

    def visit(f):
        i = 0
        for o in f.content.components:
            for p in o.control_points[0].pp:
                if p.code != codes[i]:
                    ctx.fail('stored property code %d shows as %d' % (codes[i], p.code))
                agree(ctx, 'point property', codes[i], name_of(lambda: p.name), POINTS)
                if p.type_name != 'int':
                    ctx.fail('type name %r' % p.type_name)
                i += 1
        if i != len(codes):
            ctx.fail('%d properties of %d' % (i, len(codes)))
    roundtrip(ctx, d, order, visit)


def docs_point(pp):
    return {'$h': 'ParamControlPoint', 'offset': [0, 1], 'timescale': 1, 'value': 1, 'pp': pp}


def type_names(ctx, codes):
    """value type codes of records that are not stored by themselves"""
    f = avb.file.AVBFile()
    pp = f.create.from_name('ParamControlPointProperty')
    clip = f.create.ParamClip()
    item = f.create.ParameterItem()
    for c in codes:
        pp.type = clip.value_type = item.value_type = c
        agree(ctx, 'property type', c, name_of(lambda: pp.type_name), TYPES)
        agree(ctx, 'clip value type', c, name_of(lambda: clip.value_type_name), TYPES)
        agree(ctx, 'parameter value type', c, name_of(lambda: item.value_type_name), TYPES)
        if (pp.type, clip.value_type, item.value_type) != (c, c, c):
            ctx.fail('viewing changed type %d' % c)


def parameters(ctx, ids, order):
    """parameter ids and value types of parameter items"""
    d = docs.Doc()
    sub = d.add('TKPA')
    todo = [(u, t) for u in ids for t in (4, 1, 2)]
    for u, t in todo:
        d.add('PRIT', uuid=u, value_type=t, value=7 if t == 1 else 1.5 if t == 2 else docs.R(sub))
    d.put('PRLS', {'$list': [docs.R(i) for i in range(2, len(d.chunks) + 1)]})

    def visit(f):
        items = list(f.content)
        for (u, t), o in zip(todo, items):
            ctx.step()
            want = PARAMS.get(str(u), str(u))
            if o.uuid != u or o.parameter_name != want:
                ctx.fail('parameter %s is named %r, expected %r' % (u, o.parameter_name, want))
            agree(ctx, 'parameter value type', t, name_of(lambda: o.value_type_name), TYPES)
    roundtrip(ctx, d, order, visit)


def track_flags(ctx, masks, order):
    """the flag word of a track names exactly the parts it has"""
    fields = spec.TRACK_FIELDS
    d = docs.Doc()
    masks = [1023] + masks      # refers to every leaf, in the order they are stored
    at = d.put('ATTR', {'$items': []})
    leaf = d.add('FILL', media_kind_id=2, length=1)
    bob = d.add('TKPA')
    ts = []
    for m in masks:
        kw = {'lock_number': 0}
        for bit, name, kind in fields:
            if m >> bit & 1:
                kw[name] = {'component': docs.R(leaf), 'filler_proxy': docs.R(leaf), 'attributes': docs.R(at),
                            'session_attr': docs.R(at), 'bob_data': docs.R(bob)}.get(name, 1 if kind == 'bool' else 3)
                if kind == 'bool':
                    kw[name] = True
        ts.append(docs.track(**kw))
    d.add('CMPO', tracks=ts)

    def visit(f):
        for m, t in zip(masks, f.content.tracks):
            ctx.step()
            ctx.impl()
            if t.flags != m:
                ctx.fail('track with parts %s has flags %s' % (bin(m), bin(t.flags)))
            want = 'sound' if m >> 2 & 1 else None
            if t.media_kind != want:
                ctx.fail('track with parts %s has media kind %r' % (bin(m), t.media_kind))
    roundtrip(ctx, d, order, visit)
    # the same parts set through the model
    f = avb.file.AVBFile()
    comp, attr, b = f.create.Filler(), f.create.Attributes(), f.create.TrackerParameter()
    comp.media_kind = 'picture'
    for m in masks:
        t = f.create.from_name('Track')
        t.property_data.clear()
        for bit, name, kind in fields:
            if m >> bit & 1:
                setattr(t, name, {'component': comp, 'filler_proxy': comp, 'attributes': attr, 'session_attr': attr,
                                  'bob_data': b}.get(name, True if kind == 'bool' else 0))
        if t.flags != m:
            ctx.fail('built track with parts %s has flags %s' % (bin(m), bin(t.flags)))
        if t.media_kind != ('picture' if m >> 2 & 1 else None):
            ctx.fail('built track with parts %s has media kind %r' % (bin(m), t.media_kind))


def track_media(ctx, order):
    """the media kind of a track is that of its component, of any kind"""
    for cid in components():
        for c in S16:
            d = docs.Doc()
            i = d.put(cid, value(cid, media_kind_id=c))
            d.add('CMPO', tracks=[docs.track(lock_number=0, component=docs.R(i))])
            f = plain.open_bytes(d.encode(order))
            agree(ctx, 'track media kind (%s)' % cid, c, name_of(lambda: f.content.tracks[0].media_kind), MEDIA)


def objects_without_kind(ctx, cid, order):
    """objects that are no components have no media kind"""
    d = docs.Doc()
    v = spec.generate(cid)[0]
    d.put(cid, value(cid) if isinstance(v, dict) and '$items' not in v and '$list' not in v else docs.blank(cid, v))
    f = plain.open_bytes(d.encode(order))
    if getattr(f.content, 'media_kind', None) is not None:
        ctx.fail('%s has media kind %r' % (cid, f.content.media_kind))
    if f.content.class_id != cid.encode('latin-1') or type(f.content).__name__ != spec.NAMES[cid]:
        ctx.fail('class %r of kind %s' % (type(f.content).__name__, cid))


def neighbours(u):
    n = uuid.UUID(u).int
    return [uuid.UUID(int=n ^ (1 << b)) for b in range(0, 128, 9)]


def shards(tier):
    out = []
    for w, n in (('media', 16), ('points', 8), ('set', 8), ('params', 6), ('uuid', 8), ('types', 2), ('mobs', 4),
                 ('misc', 4)):
        out += [{'w': w, 'part': i, 'of': n} for i in range(n)]
    return out


def ext_shards(tier):
    return shards(tier)


def run(shard, ctx):
    w, part, of = shard['w'], shard['part'], shard['of']
    orders = spec.ORDERS
    if w == 'media':
        codes = list(range(-32768, 32768))[part::of]
        for n, lo in enumerate(range(0, len(codes), 512)):
            cs = codes[lo:lo + 512]
            for c in cs:
                ctx.state(('m', c))
            for order in (orders if ctx.thorough else [orders[n % 2]]):
                ctx.case('media/%d/%d/%s' % (part, lo, order), media_codes, ctx, cs, order)
        for cid in components()[part::of]:
            for order in orders:
                ctx.state((cid, order))
                ctx.case('kind/%s/%s' % (cid, order), media_kinds, ctx, cid, order)
            ctx.case('factory/%s' % cid, factory, ctx, cid)
    elif w == 'set':
        todo = [(cid, s) for cid in components() for s in (S16 if ctx.thorough else (0, 1, 8, -1, 16))]
        for n, (cid, s) in enumerate(todo[part::of]):
            ctx.state(('s', cid, s))
            ctx.case('set/%s/%d' % (cid, s), media_set, ctx, cid, s, orders[n % 2])
    elif w == 'points':
        codes = list(range(-32768, 32768))[part::of]
        for c in codes:
            ctx.state(('p', c))
        for order in orders:
            ctx.case('points/%d/%s' % (part, order), points, ctx, codes, order)
    elif w == 'params':
        ks = S32[part::of]
        for n, lo in enumerate(range(0, len(ks), 100)):
            for k in ks[lo:lo + 100]:
                ctx.state(('i', k))
            ctx.case('interp/%d/%d' % (part, lo), params, ctx, ks[lo:lo + 100], (1, 2, 4), orders[n % 2])
    elif w == 'types':
        codes = list(range(-32768, 32768))[part::of]
        for c in codes:
            ctx.state(('t', c))
        ctx.case('types/%d' % part, type_names, ctx, codes)
    elif w == 'mobs':
        us = S32[part::of]
        for n, lo in enumerate(range(0, len(us), 60)):
            for u in us[lo:lo + 60]:
                ctx.state(('u', u))
            ctx.case('usage/%d/%d' % (part, lo), mob_types, ctx, [1, 2, 3], us[lo:lo + 60], orders[n % 2])
        cs = list(range(256))[part::of]
        for c in cs:
            ctx.state(('mt', c))
        for order in orders:
            ctx.case('mobtype/%d/%s' % (part, order), mob_types, ctx, cs, [0, 1, 2, 7], order)
        if part == 0:
            ctx.case('mobfactory', mob_factory, ctx)
    elif w == 'uuid':
        ids = sorted(PARAMS)[part::of]
        for n, lo in enumerate(range(0, len(ids), 20)):
            us = [uuid.UUID(x) for x in ids[lo:lo + 20]]
            for x in ids[lo:lo + 20]:
                us += neighbours(x)
            for u in us:
                ctx.state(str(u))
            ctx.case('uuid/%d/%d' % (part, lo), parameters, ctx, us, orders[n % 2])
    else:
        masks = list(range(1024))[part::of]
        for m in masks:
            ctx.state(('f', m))
        for order in orders:
            ctx.case('flags/%d/%s' % (part, order), track_flags, ctx, masks, order)
            for cid in sorted(k for k in spec.SPECS if k != 'TRKG' and k not in components())[part::of]:
                ctx.state((cid, order))
                ctx.case('nokind/%s/%s' % (cid, order), objects_without_kind, ctx, cid, order)
        if part < 2:
            ctx.case('trackmedia/%d' % part, track_media, ctx, orders[part])
