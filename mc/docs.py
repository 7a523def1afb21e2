# -*- coding: utf-8 -*-
"""Model documents: object graphs encoded with mc.spec, independent of pyavb."""
from . import spec


def blank(cid, v):
    """drop references and list items of a generated value"""
    if isinstance(v, tuple) and v and v[0] == 'R':
        return ('R', 0)
    if isinstance(v, dict):
        return dict((k, blank(None, x)) for k, x in v.items())
    if isinstance(v, list):
        if all(isinstance(x, (int, float)) for x in v) or (v and isinstance(v[0], list)):
            return v
        return []
    return v


def default(cid, **kw):
    """a plain value of the kind with null references and empty lists"""
    v = spec.generate(cid)[0]
    keep = {}
    if cid in ('ABIN', 'BINF'):
        keep = {'sifted_settings': v['sifted_settings'], 'large_bin': False}
    if cid in ('SPED', 'PRIT'):
        pass
    v = blank(cid, v)
    v.update(keep)
    for k in [k for k in v if k in ('left_bob', 'precomputed')]:
        v[k] = ('R', 0)
    for k in kw:
        assert k in v, (cid, k)
    v.update(kw)
    return v


MISSING = object()


def without(v, *names):
    for n in names:
        v.pop(n, None)
    return v


def R(i):
    return ('R', i)


def mob_id(n, b=0):
    """a 32 byte mob id"""
    return bytes(bytearray([6, 10, 43, 52, 1, 1, 1, 5, 1, 1, 15, 16, 19, 0, b & 255, n & 255] +
                           [(n * 7 + i * 3 + 1) & 255 for i in range(16)]))


class Doc(object):
    def __init__(self):
        self.chunks = []
        self.values = [None]
        self.names = {}

    def add(self, cid, label=None, **kw):
        return self.put(cid, default(cid, **kw), label)

    def put(self, cid, v, name=None):
        self.chunks.append([cid, v])
        i = len(self.chunks)
        if name:
            self.names[name] = i
        return i

    def reserve(self, cid, name=None):
        """index of an object given later with fill()"""
        return self.put(cid, None, name)

    def fill(self, i, **kw):
        self.chunks[i - 1][1] = default(self.chunks[i - 1][0], **kw)

    def value(self, i):
        return self.chunks[i - 1][1]

    def raw(self, cid, data, name=None):
        self.chunks.append([cid, bytes(data)])
        i = len(self.chunks)
        if name:
            self.names[name] = i
        return i

    def encode(self, order, root=None):
        out = []
        for cid, v in self.chunks:
            out.append((cid, v if isinstance(v, bytes) else spec.encode(cid, v, order)))
        return spec.container(out, root or len(out), order)


def track(**kw):
    d = {'$h': 'Track'}
    d.update(kw)
    return d


def binitem(mob):
    return {'$h': 'BinItem', 'mob': R(mob), 'x': 1, 'y': 2, 'keyframe': 3, 'user_placed': True}


def attr(key, value, t=None):
    if t is None:
        t = 3 if isinstance(value, tuple) else 4 if isinstance(value, bytes) else 1 if isinstance(value, int) else 2
    return {'type': t, 'key': key, 'value': value}


def point(num, den, timescale, value, pps=()):
    return {'$h': 'ParamControlPoint', 'offset': [num, den], 'timescale': timescale, 'value': value,
            'pp': [{'$h': 'ParamControlPointProperty', 'code': c, 'type': t, 'value': v} for c, t, v in pps]}


def rich():
    """a small project: bin, view, three linked mobs, a timeline with a
    transition, an effect with keyframes, attributes and descriptors"""
    d = Doc()
    va = d.put('ATTR', {'$items': [attr(u'view', 7)]}, 'view_attr')
    view = d.add('BVst', 'view', attributes=R(va),
                 columns=[{'title': u'Name', 'format': 20, 'type': 201, 'hidden': False},
                          {'title': u'Color', 'format': 105, 'type': 51, 'hidden': True}],
                 format_descriptors=[])
    # source mob
    loc_attr = d.put('ATTR', {'$items': [attr(u'disk', u'A1')]})
    loc = d.add('FILE', 'locator', path=u'/media/a.mxf')
    desc = d.add('PCMA', 'descriptor', locator=R(loc), attributes=R(loc_attr), edit_rate=48000.0, length=100)
    tc = d.add('TCCP', 'timecode', length=100, media_kind_id=3, start=90000, fps=25)
    fill = d.add('FILL', 'filler', length=10, media_kind_id=1)
    src = d.add('CMPO', 'source', name=u'source', mob_type_id=3, usage_code=0, mob_id=mob_id(3), descriptor=R(desc), length=100,
                tracks=[track(index=1, component=R(tc), lock_number=0),
                        track(index=2, component=R(fill), lock_number=0)])
    # master mob
    sc = d.add('SCLP', 'clip_src', length=50, media_kind_id=1, track_id=2, start_time=5, mob_id=mob_id(3))
    mattr = d.put('ATTR', {'$items': [attr(u'_COLOR', 5), attr(u'note', u'caf\xe9'),
                                      attr(u'bob', b'\x00\x01\x02'), attr(u'obj', R(loc_attr))]}, 'attr')
    master = d.add('CMPO', 'master', name=u'master', mob_type_id=2, usage_code=0, mob_id=mob_id(2), attributes=R(mattr), length=50,
                   tracks=[track(index=1, component=R(sc), lock_number=0)])
    # composition
    z0 = d.add('FILL', length=0, media_kind_id=1)
    c1 = d.add('SCLP', 'clip', length=20, media_kind_id=1, track_id=1, start_time=0, mob_id=mob_id(2))
    tf = d.add('FILL', length=4, media_kind_id=1)
    trans = d.add('TNFX', 'transition', length=4, media_kind_id=1, effect_id=u'EFF_BLEND', cutpoint=2,
                  tracks=[track(index=1, component=R(tf), lock_number=0)])
    prcl = d.add('PRCL', 'curve', length=30, media_kind_id=6, value_type=2, interp_kind=2, extrap_kind=1, fields=1,
                 control_points=[
                     {'$h': 'ParamControlPoint', 'offset': [0, 1], 'timescale': 30, 'value': 1.0, 'pp': []},
                     {'$h': 'ParamControlPoint', 'offset': [1, 2], 'timescale': 30, 'value': 2.0,
                      'pp': [{'$h': 'ParamControlPointProperty', 'code': 1, 'type': 2, 'value': 0.5}]}])
    prit = d.add('PRIT', 'param', value_type=1, value=3, control_track=R(prcl))
    prls = d.put('PRLS', {'$list': [R(prit), R(0), R(prcl)]}, 'params')
    ec = d.add('SCLP', length=30, media_kind_id=1, track_id=1, start_time=3, mob_id=mob_id(2))
    eff = d.add('TKFX', 'effect', length=30, media_kind_id=1, effect_id=u'EFF_X', param_list=R(prls),
                tracks=[track(index=1, component=R(ec), lock_number=0)])
    seq = d.put('SEQU', default('SEQU', media_kind_id=1, components=[R(z0), R(c1), R(trans), R(eff), R(z0)]), 'seq')
    cattr = d.put('ATTR', {'$items': [attr(u'_USER', R(mattr))]}, 'comp_attr')
    compo = d.add('CMPO', 'comp', name=u'comp', mob_type_id=1, usage_code=0, mob_id=mob_id(1), attributes=R(cattr), length=46,
                  tracks=[track(index=1, component=R(seq), read_only=True, lock_number=2),
                          track(index=2, start_pos=4, lock_number=0)])
    battr = d.put('ATTR', {'$items': [attr(u'b', 1)]})
    root = d.add('ABIN', 'bin', view_setting=R(view), attributes=R(battr),
                 items=[binitem(compo), binitem(master), binitem(src)],
                 sort_columns=[[1, u'Name']])
    return d
