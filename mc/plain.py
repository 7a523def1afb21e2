# -*- coding: utf-8 -*-
"""Conversion between pyavb objects and the plain values of mc.spec, using the
public surface only (attributes, property_data, create, read_object)."""
from __future__ import print_function

import calendar
import datetime
import io
import os
import struct
import uuid
import warnings
warnings.simplefilter('ignore')

import avb
import avb.mobid
import avb.utils

from . import spec

TIMESTAMPS = ('last_modified', 'creation_time')

LISTLIKE = {'ATTR': '$items', 'PRLS': '$list', 'TMCS': '$list'}


def cid_of(obj):
    c = getattr(obj, 'class_id', None)
    if c is None:
        return None
    return bytes(c[:]).decode('latin-1')


def mob_bytes(m):
    u = m.material
    return bytes(bytearray(list(m.SMPTELabel) + [m.length, m.instanceHigh,
                                                 m.instanceMid, m.instanceLow])) + u.bytes


def make_mob(b):
    m = avb.mobid.MobID()
    b = bytearray(b)
    m.SMPTELabel = list(b[:12])
    m.length = b[12]
    m.instanceHigh = b[13]
    m.instanceMid = b[14]
    m.instanceLow = b[15]
    m.material = uuid.UUID(bytes=bytes(b[16:32]))
    return m


def from_ts(ts):
    return datetime.datetime.fromtimestamp(ts)


def to_ts(d):
    # harness processes run with TZ=UTC
    return calendar.timegm(d.timetuple())


def value_plain(v, ref):
    """ref: callable(object) -> ('R', n)"""
    if v is None or isinstance(v, (bool, int, float)):
        return v
    if isinstance(v, str):
        return v
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    if isinstance(v, uuid.UUID):
        return v
    if isinstance(v, avb.mobid.MobID):
        return ('M', mob_bytes(v))
    if isinstance(v, datetime.datetime):
        return ('T', to_ts(v))
    if hasattr(v, 'class_id') and v.class_id:
        return ref(v)
    if hasattr(v, 'property_data'):
        d = {'$h': type(v).__name__}
        for k, x in v.property_data.items():
            d[k] = value_plain(x, ref)
        return d
    if isinstance(v, dict):
        return dict((k, value_plain(x, ref)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [value_plain(x, ref) for x in v]
    if isinstance(v, avb.utils.AVBObjectRef):
        return ('R', v.index) if v.value is None else ref(v.value)
    raise TypeError('unexpected value %r' % (v,))


def object_plain(obj, ref):
    cid = cid_of(obj)
    if cid == 'ATTR':
        out = []
        for k, v in obj.items():
            out.append([k, value_plain(v, ref), type(v).__name__ == 'bool'])
        return {'$items': out}
    if cid in ('PRLS', 'TMCS'):
        return {'$list': [value_plain(x, ref) for x in obj]}
    d = {}
    for k in obj.property_data.keys():
        d[k] = value_plain(getattr(obj, k), ref)
    return d


def norm(v, path=''):
    """normal form shared by spec values and object values"""
    if isinstance(v, tuple):
        if v[0] == 'R':
            return None if not v[1] else ('R', v[1])
        if v[0] in ('M', 'T'):
            return v[1]
        return [norm(x) for x in v]
    if isinstance(v, dict):
        if set(v) == set([0, 1]):
            return [norm(v[0]), norm(v[1])]
        if set(v) == set(['type', 'key', 'value']):
            return [v['key'], norm(v['value']), False]
        return dict((k, norm(x)) for k, x in v.items())
    if isinstance(v, list):
        return [norm(x) for x in v]
    if isinstance(v, float):
        return ('f', struct.pack('>d', v)) if v != v or v in (float('inf'), float('-inf')) or v == 0 else v
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, bytearray):
        return bytes(v)
    return v


def normalise(cid, v):
    n = norm(v)
    if cid == 'MPGP' and 'leader_length' in n:
        pass
    if cid in ('ABIN', 'BINF'):
        n = dict(n)
    if 'tracks' in n:
        for t in n['tracks']:
            if isinstance(t, dict):
                t.setdefault('lock_number', 0)
    for k in ('name', 'effect_id', 'path', 'kind'):
        pass
    return n


TEXT_EMPTY = ('name', 'effect_id')


def equal(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return a == b
        # 0.0 normal form against integer 0
        if isinstance(a, tuple) and a[0] == 'f' and not isinstance(b, tuple):
            return struct.unpack('>d', a[1])[0] == b
        if isinstance(b, tuple) and b[0] == 'f' and not isinstance(a, tuple):
            return struct.unpack('>d', b[1])[0] == a
        return a == b
    if isinstance(a, tuple) and a and a[0] == 'f' and isinstance(b, int):
        return struct.unpack('>d', a[1])[0] == b
    if isinstance(b, tuple) and b and b[0] == 'f' and isinstance(a, int):
        return struct.unpack('>d', b[1])[0] == a
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if (a is None or a == u'') and (b is None or b == u'') and not (isinstance(a, bytes) or isinstance(b, bytes)):
        return True
    if type(a) is not type(b) and not (isinstance(a, int) and isinstance(b, int)):
        return False
    return a == b


def diff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                return '%s.%s only in second: %r' % (path, k, b[k])
            if k not in b:
                return '%s.%s only in first: %r' % (path, k, a[k])
            d = diff(a[k], b[k], '%s.%s' % (path, k))
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return '%s length %d != %d' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if not equal(a, b):
        return '%s: %r != %r' % (path or '.', a, b)
    return None


# ------------------------------------------------------------------- documents

def open_bytes(data, **kw):
    return avb.file.AVBFile(io.BytesIO(data), **kw)


def leaf_ref(o):
    """label of a leaf target object"""
    if cid_of(o) == 'TKPA':
        s = bytes(o.settings)
        if s[:4] == b'leaf':
            return ('R', int(s[4:]))
    raise AssertionError('reference resolves to unexpected object %s' % cid_of(o))


def read_plain(f, obj):
    return normalise(cid_of(obj), object_plain(obj, leaf_ref))


def from_plain_value(f, k, v, refs):
    if isinstance(v, tuple) and v and v[0] == 'R':
        return refs[v[1]] if v[1] else None
    if isinstance(v, dict) and '$h' in v:
        return make_helper(f, v, refs)
    if isinstance(v, dict) and set(v) == set([0, 1]):
        return [v[0], v[1]]
    if isinstance(v, dict):
        return dict((a, from_plain_value(f, a, b, refs)) for a, b in v.items())
    if isinstance(v, list):
        return [from_plain_value(f, k, x, refs) for x in v]
    if k == 'mob_id':
        return make_mob(v)
    if k in TIMESTAMPS:
        return from_ts(v)
    if isinstance(v, bytes) and k != 'compress_method':
        return bytearray(v)
    return v


def make_helper(f, v, refs):
    cls = avb.utils.AVBClassName_dict[v['$h']]
    if v['$h'] == 'ASPIPlugin':
        try:
            o = f.create.from_name(v['$h'])
        except TypeError:
            o = cls.__new__(cls)
            o.root = f
    else:
        o = f.create.from_name(v['$h'])
    for k in list(o.property_data.keys()):
        if k not in v:
            del o.property_data[k]
    for k, x in v.items():
        if k != '$h':
            setattr(o, k, from_plain_value(f, k, x, refs))
    return o


REFLISTS = {'SEQU': 'components', 'TKDS': 'tracker_data', 'TKPS': 'params',
            'TKDA': 'clips', 'MULD': 'descriptors'}


def set_fields(f, obj, cid, v, refs):
    if cid == 'ATTR':
        obj.clear()
        for it in v['$items']:
            obj[it['key']] = from_plain_value(f, 'value', it['value'], refs)
        return
    if cid in ('PRLS', 'TMCS'):
        del obj[:]
        for r in v['$list']:
            obj.append(from_plain_value(f, None, r, refs))
        return
    for k in list(obj.property_data.keys()):
        if k not in v:
            del obj.property_data[k]
    for k, x in v.items():
        setattr(obj, k, from_plain_value(f, k, x, refs))


def make_object(f, cid, v, refs):
    """build an object in document f through the public factory"""
    name = spec.NAMES[cid]
    obj = getattr(f.create, name)()
    set_fields(f, obj, cid, v, refs)
    return obj


def make_leaf(f, n):
    o = f.create.TrackerParameter()
    o.settings = bytearray(b'leaf%d' % n)
    return o


def save_bytes(f, order, tmp):
    f.write(tmp, order)
    with open(tmp, 'rb') as g:
        return g.read()


def decode_saved(data, expect_order=None):
    """independent decode of a saved document.
    -> (Parsed, [(cid, plain value)], resolve) where resolve maps a raw
    reference index to the leaf label reference"""
    p = spec.parse(data)
    if p.trailing:
        raise AssertionError('%d bytes after the last object' % p.trailing)
    if expect_order and p.order != expect_order:
        raise AssertionError('byte order %s' % p.order)
    objs = [(None, None)]
    for cid, d in p.chunks:
        try:
            v, len_ = spec.decode(cid, d, p.order, p.count)
        except spec.Reject as e:
            raise AssertionError('saved %s object is malformed: %s' % (cid, e))
        objs.append((cid, v))
    return p, objs


def relabel(v, objs):
    """replace raw reference indexes by leaf labels"""
    if isinstance(v, tuple) and v and v[0] == 'R':
        if not v[1]:
            return ('R', 0)
        cid, t = objs[v[1]]
        n = spec.leaf_label(cid, t)
        if n is None:
            raise AssertionError('reference to unexpected object %d (%s)' % (v[1], cid))
        return ('R', n)
    if isinstance(v, dict):
        return dict((k, relabel(x, objs)) for k, x in v.items())
    if isinstance(v, list):
        return [relabel(x, objs) for x in v]
    return v



class Refs(dict):
    """leaf objects of a document, made on demand"""

    def __init__(self, f):
        dict.__init__(self)
        self.f = f

    def __missing__(self, n):
        self[n] = o = make_leaf(self.f, n)
        return o


def build(cid, v):
    """new document whose root is a constructed object"""
    f = avb.file.AVBFile()
    f.content = make_object(f, cid, v, Refs(f))
    return f


def check_layout(data, order, cid, v, f=None, canonical_header=True):
    """data must be exactly the layout of a document with one object of kind
    cid holding value v, stored after the leaf objects it refers to"""
    p = spec.parse(data)
    if p.order != order:
        return 'byte order %s' % p.order
    if p.trailing:
        return '%d bytes after the last object' % p.trailing
    if p.root != p.count:
        return 'root index %d of %d' % (p.root, p.count)
    if p.chunks[-1][0] != cid:
        return 'last object is %s' % p.chunks[-1][0]
    refmap = {}
    for i, (c, d) in enumerate(p.chunks[:-1]):
        try:
            lv, _ = spec.decode(c, d, order, p.count)
            n = spec.leaf_label(c, lv)
        except spec.Reject:
            n = None
        if n is None or n in refmap:
            return 'unexpected object %d (%s)' % (i + 1, c)
        refmap[n] = i + 1
    used = set()
    find_refs(v, used)
    if set(refmap) != used:
        return 'objects stored %s, referenced %s' % (sorted(refmap), sorted(used))
    want = spec.encode(cid, v, order, refmap)
    got = p.chunks[-1][1]
    if got != want:
        n = min(len(got), len(want))
        i = next((i for i in range(n) if got[i:i + 1] != want[i:i + 1]), n)
        return 'byte %d of the object: stored %s, layout %s (lengths %d, %d)' % (
            i, got[i:i + 8].hex(), want[i:i + 8].hex(), len(got), len(want))
    if f is not None:
        ts = calendar.timegm(f.last_save.timetuple())
        h = spec.header(order, p.count, p.root, ts,
                        f.last_save.strftime(u'%Y/%m/%d %H:%M:%S'), f.creator_version)
        if data[:len(h)] != h or p.header_len != len(h):
            return 'header bytes %s expected %s' % (data[:p.header_len].hex(), h.hex())
    return None


def find_refs(v, out):
    if isinstance(v, tuple) and v and v[0] == 'R':
        if v[1]:
            out.add(v[1])
    elif isinstance(v, dict):
        for x in v.values():
            find_refs(x, out)
    elif isinstance(v, (list, tuple)):
        for x in v:
            find_refs(x, out)
