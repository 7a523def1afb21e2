# -*- coding: utf-8 -*-
"""Independent declarative model of the AVB container and of every object
layout (62 chunk kinds).

Each layout is written once, as a function over a bidirectional codec ``c``:

* ``Enc``  turns a plain document value into the expected bytes (golden encoder)
* ``Dec``  is the reference decoder: bytes -> plain value, or ``Reject``
* ``Gen``  enumerates the bounded value space of the layout: it produces a
  default value and records, per field path, the finite set of alternatives
  (boundary values, list lengths, presence of optional groups)

Nothing in this file imports pyavb.  Plain values are ints, floats, unicode
strings, bytes, None, lists, dicts, ``('R', n)`` for object references (0 is
the null reference), ``uuid.UUID`` and 32-byte mob ids.
"""
from __future__ import print_function

import decimal
from fractions import Fraction
import struct
import uuid


class Reject(Exception):
    """the reference decoder refuses the bytes"""


class Invalid(Exception):
    """a combination of choices which is not a value of the layout"""


class Lenient(Exception):
    """bytes outside the documented layout for which no verdict is given"""


LE, BE = 'little', 'big'
ORDERS = (LE, BE)

INT_FMT = {
    'u8': ('B', 0, 0xFF), 's8': ('b', -0x80, 0x7F),
    'u16': ('H', 0, 0xFFFF), 's16': ('h', -0x8000, 0x7FFF),
    'u32': ('I', 0, 0xFFFFFFFF), 's32': ('i', -0x80000000, 0x7FFFFFFF),
    'u64': ('Q', 0, 0xFFFFFFFFFFFFFFFF),
    's64': ('q', -0x8000000000000000, 0x7FFFFFFFFFFFFFFF),
}


def pack_int(kind, v, order):
    return struct.pack((('<' if order == LE else '>') + INT_FMT[kind][0]), v)


def raw_uuid(u, order):
    return u.bytes_le if order == LE else u.bytes


def exp10_encode(value):
    """canonical (mantissa, exponent) of an edit rate: as many decimal digits
    as the mantissa holds, no trailing zeros after the point"""
    d = decimal.Decimal(float(value))
    for prec in (10, 9):
        r = decimal.Context(prec=prec, rounding=decimal.ROUND_HALF_EVEN).plus(d)
        sign, digits, e = r.as_tuple()
        m = int(''.join(str(x) for x in digits)) * (-1 if sign else 1)
        while m and m % 10 == 0:
            m, e = m // 10, e + 1
        if m == 0:
            e = 0
        full = m * 10 ** max(0, prec - len(str(abs(m))))
        if -0x80000000 <= full <= 0x7fffffff or -0x80000000 <= m <= 0x7fffffff and len(str(abs(m))) < prec:
            break
    if e > 0 and -0x80000000 <= m * 10 ** e <= 0x7fffffff:
        m, e = m * 10 ** e, 0
    if (m, e) == (5994, -2):
        return 59940, -3
    return m, e


def exp10_decode(m, e):
    """the nearest double"""
    if -22 <= e < 0:
        return float(Fraction(m, 10 ** -e))
    return float(m) * pow(10, e)


# --------------------------------------------------------------------- codecs

class Enc(object):
    mode = 'enc'

    def __init__(self, v, order, refmap=None):
        self.v = v
        self.order = order
        self.out = []
        self.refmap = refmap

    def sub(self, v):
        c = Enc(v, self.order, self.refmap)
        c.out = self.out
        return c

    def data(self):
        return b''.join(self.out)

    def raw(self, b):
        self.out.append(bytes(b))

    def tag(self, *vals):
        for t in vals:
            self.out.append(struct.pack('B', t))

    def put(self, kind, v):
        self.out.append(pack_int(kind, v, self.order))

    def const(self, kind, v):
        self.put(kind, v)

    def skip(self, n):
        self.out.append(b'\x00' * n)

    def derived(self, kind, fn):
        self.put(kind, fn(self.v))

    def int(self, kind, name, dom=None):
        self.put(kind, self.v[name])

    def bool(self, name):
        self.put('u8', 1 if self.v[name] else 0)

    def wstr(self, s, enc='mac-roman', none=False):
        if none and not s:
            self.put('u16', 0xFFFF)
            return
        if not s:
            self.put('u16', 0)
            return
        d = s.encode(enc)
        if enc == 'utf-8':
            d = b'\x00\x00' + d
        self.put('u16', len(d))
        self.raw(d)

    def string(self, name, enc='mac-roman', none=False, keep=False):
        self.wstr(self.v[name], enc, none)

    def wref(self, r):
        n = 0 if r is None else r[1]
        if self.refmap is not None and n:
            n = self.refmap[n]
        self.put('u32', n)

    def ref(self, name):
        self.wref(self.v[name])

    def double(self, name):
        self.out.append(struct.pack('<d' if self.order == LE else '>d',
                                    self.v[name]))

    def exp10(self, name):
        v = self.v[name]
        m, e = v if isinstance(v, tuple) else exp10_encode(v)
        self.put('s32', m)
        self.put('s16', e)

    def timestamp(self, name):
        self.put('u32', self.v[name])

    def ruuid(self, name):
        self.raw(raw_uuid(self.v[name], self.order))

    def wmob(self, m):
        self.tag(65)
        self.put('s32', 12)
        self.raw(m[:12])
        for i in range(12, 16):
            self.tag(68)
            self.raw(m[i:i + 1])
        u = uuid.UUID(bytes=bytes(m[16:32]))
        self.tag(72)
        self.put('u32', u.time_low)
        self.tag(70)
        self.put('u16', u.time_mid)
        self.tag(70)
        self.put('u16', u.time_hi_version)
        self.tag(65)
        self.put('s32', 8)
        self.raw(u.bytes[8:])

    def mob_id(self, name):
        self.wmob(self.v[name])

    def mob_words(self, name):
        """redundant half of the mob id kept in front of it (lo, hi)"""
        m = self.v.get(name)
        if m is None:
            self.put('u32', 0)
            self.put('u32', 0)
        else:
            u = uuid.UUID(bytes=bytes(m[16:32]))
            self.put('u32', u.time_low)
            self.put('u32', u.time_mid + (u.time_hi_version << 16))

    def blob(self, name, size_kind, tag=None):
        d = self.v[name]
        self.put(size_kind, len(d))
        self.raw(d)

    def fixed(self, name, n):
        d = self.v[name]
        assert len(d) == n
        self.raw(d)

    def fourcc(self, name):
        d = self.v[name]
        self.raw(d[::-1] if self.order == LE else d)

    def list(self, name, count, fn, helper=None, lens=None, scale=1):
        items = self.v[name]
        if count:
            self.put(count, len(items) * scale)
        for it in items:
            fn(self.sub(it))

    def reflist(self, name, count):
        self.put(count, len(self.v[name]))
        for r in self.v[name]:
            self.wref(r)

    def pair(self, name, kind='s32', n=2):
        for x in self.v[name]:
            self.put(kind, x)

    def scalar(self, kind):
        """list element which is itself a plain integer"""
        self.put(kind, self.v)

    def present(self, *names):
        return all(n in self.v for n in names)

    def ext(self, groups):
        """groups: sequence of (tag, key names, fn)"""
        for tag, keys, fn in groups:
            if all(k in self.v for k in keys):
                self.tag(0x01, tag)
                fn(self)


class Dec(object):
    mode = 'dec'

    def __init__(self, data, order, nrefs=None):
        self.buf = data
        self.pos = 0
        self.order = order
        self.nrefs = nrefs
        self.v = {}
        self.parent = None
        self.lenient = False

    # shared cursor
    def top(self):
        c = self
        while c.parent is not None:
            c = c.parent
        return c

    def sub(self, v=None):
        c = Dec(self.buf, self.order, self.nrefs)
        c.parent = self
        return c

    def take(self, n):
        t = self.top()
        if n < 0:
            raise Reject('negative size')
        if t.pos + n > len(t.buf):
            raise Reject('short')
        b = bytes(t.buf[t.pos:t.pos + n])
        t.pos += n
        return b

    def raw(self, b):
        if self.take(len(b)) != b:
            raise Reject('magic')

    def tag(self, *vals):
        for t in vals:
            if self.take(1) != struct.pack('B', t):
                raise Reject('tag')

    def get(self, kind):
        n = struct.calcsize('<' + INT_FMT[kind][0])
        return struct.unpack(('<' if self.order == LE else '>') +
                             INT_FMT[kind][0], self.take(n))[0]

    def const(self, kind, v):
        if self.get(kind) != v:
            raise Reject('const')

    def skip(self, n):
        self.take(n)

    def derived(self, kind, fn):
        self.get(kind)

    def int(self, kind, name, dom=None):
        v = self.get(kind)
        if dom is not None and v not in dom:
            raise Reject('domain')
        self.v[name] = v

    def bool(self, name):
        self.v[name] = self.take(1) == b'\x01'

    def rstr(self, enc, none):
        n = self.get('u16')
        if n == 0xFFFF:
            return None if none else u''
        d = self.take(n).strip(b'\x00')
        try:
            s = d.decode(enc)
        except UnicodeDecodeError:
            raise Reject('text')
        return (s or None) if none else s

    def string(self, name, enc='mac-roman', none=False, keep=False):
        s = self.rstr(enc, none)
        self.v[name] = s if not keep else (s or u'')

    def rref(self):
        n = self.get('u32')
        if self.nrefs is not None and n > self.nrefs:
            raise Reject('reference')
        return ('R', n)

    def ref(self, name):
        self.v[name] = self.rref()

    def double(self, name):
        self.v[name] = struct.unpack('<d' if self.order == LE else '>d',
                                     self.take(8))[0]

    def exp10(self, name):
        m = self.get('s32')
        e = self.get('s16')
        try:
            self.v[name] = exp10_decode(m, e)
        except OverflowError:
            raise Reject('overflow')

    def timestamp(self, name):
        self.v[name] = self.get('u32')

    def ruuid(self, name):
        b = self.take(16)
        self.v[name] = uuid.UUID(bytes_le=b) if self.order == LE else uuid.UUID(bytes=b)

    def mob_id(self, name):
        self.tag(65)
        self.const('s32', 12)
        m = self.take(12)
        for i in range(4):
            self.tag(68)
            m += self.take(1)
        self.tag(72)
        a = self.get('u32')
        self.tag(70)
        b = self.get('u16')
        self.tag(70)
        d = self.get('u16')
        self.tag(65)
        self.const('s32', 8)
        m += struct.pack('>IHH', a, b, d) + self.take(8)
        self.v[name] = m

    def mob_words(self, name):
        self.take(8)

    def blob(self, name, size_kind, tag=None):
        self.v[name] = self.take(self.get(size_kind))

    def fixed(self, name, n):
        self.v[name] = self.take(n)

    def fourcc(self, name):
        d = self.take(4)
        self.v[name] = d[::-1] if self.order == LE else d

    def count(self, kind, strict=False):
        n = self.get(kind)
        if n < 0:
            raise Reject('negative count')
        if n > len(self.top().buf):
            raise Reject('count')
        return n

    def list(self, name, count, fn, helper=None, lens=None, scale=1):
        if count is None:
            n = lens[0]
        else:
            n = self.count(count) // scale
        out = []
        for i in range(n):
            s = self.sub()
            if helper:
                s.v['$h'] = helper
            fn(s)
            out.append(s.v)
        self.v[name] = out

    def reflist(self, name, count):
        self.v[name] = [self.rref() for i in range(self.count(count))]

    def pair(self, name, kind='s32', n=2):
        self.v[name] = [self.get(kind) for i in range(n)]

    def scalar(self, kind):
        self.v = self.get(kind)

    def peek(self):
        t = self.top()
        if t.pos >= len(t.buf):
            raise Reject('short')
        return bytes(t.buf[t.pos:t.pos + 1])

    def ext(self, groups):
        fns = {}
        for tag, keys, fn in groups:
            fns[tag] = fn
        while self.peek() == b'\x01':
            self.take(1)
            t = ord(self.take(1))
            if t not in fns:
                raise Reject('ext tag')
            fns[t](self)


ALT = {}
for _k, (_f, _lo, _hi) in INT_FMT.items():
    if _lo == 0:
        ALT[_k] = [0, 1, _hi, _hi - 1, (_hi >> 1) + 1, _hi >> 1]
    else:
        ALT[_k] = [0, 1, -1, _hi, _lo, _lo + 1]

# values the field cannot hold
BAD = {}
for _k, (_f, _lo, _hi) in INT_FMT.items():
    BAD[_k] = [_hi + 1, _lo - 1, 1 << 70, -(1 << 70)]
BAD_STR = [u'\u4e2d', u'a\U0001F3AC', u'\x00', u'\x00a', u'a\x00', u'z' * 65535, u'z' * 65536, u'z' * 70000,
           u'\xe9' * 65535]
BAD_UTF = [u'\x00', u'\x00a', u'a\x00', u'z' * 65533, u'z' * 65534, u'z' * 65536, u'\u4e2d' * 21845,
           u'\ud800']

STR_ALT = [u'', u' ', u' \xe9\u2202 caf\xe9\r\n', u'x' * 300]
UTF_ALT = [u'', u' ', u'\t\u2603 \xfc\u4e2d ', u'\U0001F3AC', u'y' * 300]


class Gen(object):
    """builds a value; ``over`` maps path -> alternative"""
    mode = 'gen'

    def __init__(self, over=None, nrefs=4, path='', shared=None):
        self.over = over or {}
        self.nrefs = nrefs
        self.path = path
        self.v = {}
        self.sh = shared if shared is not None else {'n': 0, 'dom': [], 'ext': [], 'bad': []}

    def key(self, name):
        return self.path + str(name)

    def tick(self):
        self.sh['n'] += 1
        return self.sh['n']

    def choose(self, name, default, alts, bad=()):
        p = self.key(name)
        self.sh['dom'].append((p, list(alts)))
        if bad:
            self.sh['bad'].append((p, list(bad)))
        return self.over[p] if p in self.over else default

    def raw(self, b):
        pass

    def tag(self, *v):
        pass

    def const(self, kind, v):
        pass

    def skip(self, n):
        pass

    def derived(self, kind, fn):
        pass

    def idefault(self, kind):
        n = self.tick()
        f, lo, hi = INT_FMT[kind]
        size = struct.calcsize('<' + f)
        v = 0
        for i in range(size):
            # distinct, position dependent bytes, top bit clear
            v = (v << 8) | ((n * 7 + i * 29 + 3) % 0x7C + 2)
        if size == 1:
            v = n % 0x60 + 4
        return v

    def int(self, kind, name, dom=None):
        if dom is not None:
            dom = list(dom)
            self.v[name] = self.choose(name, dom[-1], dom)
        else:
            self.v[name] = self.choose(name, self.idefault(kind), ALT[kind], BAD[kind])

    def bool(self, name):
        d = bool(self.tick() % 2)
        self.v[name] = self.choose(name, d, [True, False])

    def string(self, name, enc='mac-roman', none=False, keep=False):
        d = u's%d\xdf' % self.tick()
        alts = UTF_ALT if enc == 'utf-8' else STR_ALT
        v = self.choose(name, d, alts, BAD_UTF if enc == 'utf-8' else BAD_STR)
        if none and not v:
            v = None
        self.v[name] = v

    def ref(self, name):
        n = self.tick()
        self.v[name] = self.choose(name, ('R', n % self.nrefs + 1),
                                   [('R', i) for i in range(self.nrefs + 1)])

    def double(self, name):
        self.v[name] = self.choose(name, 1.5 + self.tick(),
                                   [0.0, -1.25, 1e300, -5e-324, float('inf')])

    def exp10(self, name):
        self.v[name] = self.choose(name, 20.0 + self.tick(),
                                   [25.0, 23.976, 29.97, 59.94, 0.0, 48000.0,
                                    2147483647.0, -1.5, 119.88])

    def timestamp(self, name):
        self.v[name] = self.choose(name, 1500000000 + self.tick() * 1001,
                                   [0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF],
                                   [-1, -86400 * 365, 1 << 32, (1 << 32) + 86400])

    def ruuid(self, name):
        n = self.tick()
        d = uuid.UUID(bytes=bytes(bytearray((n * 3 + i * 17 + 1) % 256 for i in range(16))))
        self.v[name] = self.choose(name, d, [uuid.UUID(int=0), uuid.UUID(int=(1 << 128) - 1)])

    def mob_id(self, name):
        n = self.tick()
        d = bytes(bytearray((n * 5 + i * 11 + 1) % 256 for i in range(32)))
        self.v[name] = self.choose(name, d, [b'\x00' * 32, b'\xff' * 32,
                                             b'\x80' * 32])

    def mob_words(self, name):
        pass

    def blob(self, name, size_kind, tag=None):
        n = self.tick()
        alts = [b'', b'\x03', b'\x01\x02\x03\x00', bytes(bytearray(range(256)))]
        self.v[name] = self.choose(name, b'blob%d\x00\x01' % n, alts)

    def fixed(self, name, n):
        t = self.tick()
        self.v[name] = self.choose(name, bytes(bytearray((t + i) % 250 + 1 for i in range(n))),
                                   [b'\x00' * n, b'\xff' * n],
                                   [b'', b'a' * (n - 1), b'a' * (n + 1)])

    def fourcc(self, name):
        t = self.tick()
        self.v[name] = self.choose(name, bytes(bytearray((t + 65 + i) % 250 for i in range(4))),
                                   [b'\x00' * 4, b'\xff\x00\x01\x02'],
                                   [b'', b'abc', b'abcde'])

    def sub(self, i, name, helper=None):
        c = Gen(self.over, self.nrefs, '%s%s[%d].' % (self.path, name, i), self.sh)
        if helper:
            c.v['$h'] = helper
        return c

    def list(self, name, count, fn, helper=None, lens=(0, 1, 2, 3), scale=1):
        if count is None:
            n = lens[0]
        else:
            n = self.choose(name + '#', 2 if 2 in lens else lens[-1], lens)
        out = []
        for i in range(n):
            s = self.sub(i, name, helper)
            fn(s)
            out.append(s.v)
        self.v[name] = out

    def reflist(self, name, count):
        n = self.choose(name + '#', 2, (0, 1, 2, 3))
        out = []
        for i in range(n):
            t = self.tick()
            out.append(self.choose('%s[%d]' % (name, i), ('R', t % self.nrefs + 1),
                                   [('R', k) for k in range(self.nrefs + 1)]))
        self.v[name] = out

    def pair(self, name, kind='s32', n=2):
        out = []
        for i in range(n):
            out.append(self.choose('%s[%d]' % (name, i), self.idefault(kind), ALT[kind], BAD[kind]))
        self.v[name] = out

    def scalar(self, kind):
        self.v = self.choose('', self.idefault(kind), ALT[kind], BAD[kind])

    def ext(self, groups):
        for tag, keys, fn in groups:
            p = self.key('?%s' % keys[0])
            self.sh['ext'].append(p)
            if self.over.get(p, True):
                fn(self)


# --------------------------------------------------------------- helper items

def bool_field(c, name, tag):
    c.tag(tag)
    c.bool(name)


def X(kind, name, tag):
    """ext group holding one tagged value"""
    def fn(c):
        c.tag(tag)
        if kind == 'ref':
            c.ref(name)
        elif kind == 'bool':
            c.bool(name)
        elif kind == 'double':
            c.double(name)
        elif kind == 'string':
            c.string(name)
        elif kind == 'utf8':
            c.string(name, 'utf-8')
        elif kind == 'ts':
            c.timestamp(name)
        elif kind == 'ruuid':
            c.ruuid(name)
        else:
            c.int(kind, name)
    return fn


def MOB(name='mob_id'):
    return lambda c: c.mob_id(name)


SPECS = {}
NAMES = {}


def spec(cid, clsname):
    def deco(fn):
        SPECS[cid] = fn
        NAMES[cid] = clsname
        return fn
    return deco


END = 0x03


# ------------------------------------------------------------------ attributes

@spec('ATTR', 'Attributes')
def s_attr(c):
    c.tag(2, 1)

    def item(c):
        c.int('u32', 'type', dom=(1, 2, 3, 4))
        c.string('key')
        t = c.v['type']
        if t == 1:
            c.int('s32', 'value')
        elif t == 2:
            c.string('value')
        elif t == 3:
            c.ref('value')
        else:
            c.blob('value', 'u32')
    c.list('$items', 'u32', item, lens=(0, 1, 2, 4))
    if c.mode != 'enc':
        keys = [i['key'] for i in c.v['$items']]
        if len(set(keys)) != len(keys):
            if c.mode == 'gen':
                raise Invalid('repeated key')
            c.top().lenient = True
    c.tag(END)


@spec('PRLS', 'ParameterList')
def s_prls(c):
    c.tag(2, 1)
    c.reflist('$list', 's32')
    c.tag(END)


@spec('TMCS', 'TimeCrumbList')
def s_tmcs(c):
    c.tag(2, 1)
    c.reflist('$list', 's16')
    c.tag(END)


# ------------------------------------------------------------------------- bin

@spec('BVst', 'BinViewSetting')
def s_bvst(c):
    c.tag(2, 6)
    c.string('name')
    c.string('kind')
    c.int('s16', 'attr_count')
    c.int('s16', 'attr_type')
    c.ref('attributes')
    c.tag(2, 10)

    def col(c):
        c.string('title')
        c.int('s16', 'format')
        c.int('s16', 'type')
        c.bool('hidden')
    c.list('columns', 'u16', col)

    def ext1(c):
        c.tag(69)

        def d(c):
            c.tag(69)
            c.int('s16', 'vcid_free_column_id')
            # tagged size, then a length prefixed utf-8 string with two nulls
            if c.mode == 'enc':
                data = c.v['format_descriptor'].encode('utf-8')
                c.tag(71)
                c.put('s32', len(data))
                c.tag(76)
                c.put('u16', len(data) + 2)
                c.put('u16', 0)
                c.raw(data)
            elif c.mode == 'dec':
                c.tag(71)
                n = c.get('s32')
                if n < 0:
                    raise Reject('negative')
                c.tag(76)
                c.take(4)
                try:
                    c.v['format_descriptor'] = c.take(n).decode('utf-8')
                except UnicodeDecodeError:
                    raise Reject('text')
            else:
                c.string('format_descriptor', 'utf-8')
        if c.mode == 'dec':
            t = struct.unpack('<h' if c.order == LE else '>h', bytes(c.top().buf[c.top().pos:c.top().pos + 2]).ljust(2, b'\0'))[0]
            if t < 0:
                raise Reject('negative count')
        c.list('format_descriptors', 's16', d)
    c.ext([(1, ['format_descriptors'], ext1)])
    c.tag(END)


def bin_body(c):
    c.tag(2)
    if c.mode == 'enc':
        big = bool(c.v['large_bin']) or len(c.v['items']) > 0xFFFF
        c.tag(0x0f if big else 0x0e)
    elif c.mode == 'dec':
        b = c.take(1)
        if b not in (b'\x0e', b'\x0f'):
            raise Reject('version')
        big = b == b'\x0f'
        c.v['large_bin'] = big
    else:
        c.bool('large_bin')
        big = c.v['large_bin']
    c.ref('view_setting')
    c.int('u64', 'uid')

    def item(c):
        c.ref('mob')
        c.int('s16', 'x')
        c.int('s16', 'y')
        c.int('s32', 'keyframe')
        c.bool('user_placed')
    c.list('items', 'u32' if big else 'u16', item, helper='BinItem')
    c.int('s32', 'display_mask')
    c.int('s16', 'display_mode')
    c.bool('sifted')

    def sift(c):
        c.int('s16', 'method')
        c.string('string')
        c.string('column')
    c.list('sifted_settings', None, sift, helper='SiftItem', lens=(6,))

    def sort(c):
        c.int('u8', 0)
        c.string(1)
    c.list('sort_columns', 's16', sort)
    c.int('s16', 'mac_font')
    c.int('s16', 'mac_font_size')
    c.int('s16', 'mac_image_scale')
    c.const('s16', 1)
    c.pair('home_rect', 's16', 4)
    c.const('s16', 1)
    c.pair('background_color', 'u16', 3)
    c.const('s16', 1)
    c.pair('forground_color', 'u16', 3)
    c.int('s16', 'ql_image_scale')
    c.ref('attributes')
    c.bool('was_iconic')


@spec('ABIN', 'Bin')
def s_abin(c):
    bin_body(c)
    c.tag(END)


@spec('BINF', 'BinFirst')
def s_binf(c):
    bin_body(c)
    c.tag(2, 1)
    c.int('s32', 'unknown_s32')
    c.tag(END)


# ------------------------------------------------------------------ components

def component(c):
    c.tag(2, 3)
    c.ref('left_bob')
    c.ref('right_bob')
    c.int('s16', 'media_kind_id')
    c.exp10('edit_rate')
    c.string('name', none=True)
    c.string('effect_id', none=True)
    c.ref('attributes')
    c.ref('session_attrs')
    c.ref('precomputed')
    c.ext([(1, ['param_list'], X('ref', 'param_list', 72))])


@spec('SEQU', 'Sequence')
def s_sequ(c):
    component(c)
    c.tag(2, 3)
    c.reflist('components', 'u32')
    c.tag(END)


def clip(c):
    component(c)
    c.tag(2, 1)
    c.int('u32', 'length')


@spec('SCLP', 'SourceClip')
def s_sclp(c):
    clip(c)
    c.tag(2, 3)
    c.mob_words('mob_id')
    c.int('s16', 'track_id')
    c.int('s32', 'start_time')
    c.ext([(1, ['mob_id'], MOB())])
    c.tag(END)


@spec('TCCP', 'Timecode')
def s_tccp(c):
    clip(c)
    c.tag(2, 1)
    c.int('u32', 'flags')
    c.int('u16', 'fps')
    c.skip(6)
    c.int('u32', 'start')
    c.tag(END)


@spec('ECCP', 'Edgecode')
def s_eccp(c):
    clip(c)
    c.tag(2, 1)
    c.fixed('header', 8)
    c.int('u8', 'film_kind')
    c.int('u8', 'code_format')
    c.int('u16', 'base_perf')
    c.skip(4)
    c.int('s32', 'start_ec')
    c.tag(END)


@spec('TRKR', 'TrackRef')
def s_trkr(c):
    clip(c)
    c.tag(2, 1)
    c.int('s16', 'relative_scope')
    c.int('s16', 'relative_track')
    c.tag(END)


@spec('PRCL', 'ParamClip')
def s_prcl(c):
    clip(c)
    c.tag(2, 1)
    c.int('s32', 'interp_kind')
    c.int('s16', 'value_type', dom=(1, 4, 2))
    vt = c.v['value_type']

    def pp(c):
        c.int('s16', 'code')
        c.int('s16', 'type', dom=(1, 2))
        if c.v['type'] == 2:
            c.double('value')
        else:
            c.int('s32', 'value')

    def cp(c):
        c.pair('offset')
        c.int('s32', 'timescale')
        if vt == 1:
            c.int('s32', 'value')
        elif vt == 2:
            c.double('value')
        else:
            c.ref('value')
        nonneg(c, 's16')
        c.list('pp', 's16', pp, helper='ParamControlPointProperty')
    nonneg(c, 's32')
    c.list('control_points', 's32', cp, helper='ParamControlPoint')
    c.ext([(1, ['extrap_kind'], X('s32', 'extrap_kind', 71)),
           (2, ['fields'], X('s32', 'fields', 71))])
    c.tag(END)


def nonneg(c, kind):
    """the following signed count may not be negative"""
    if c.mode == 'dec':
        t = c.top()
        p = t.pos
        n = c.get(kind)
        t.pos = p
        if n < 0:
            raise Reject('negative count')


@spec('CTRL', 'ControlClip')
def s_ctrl(c):
    clip(c)
    c.tag(2, 3)
    c.int('s32', 'interp_kind')

    def pp(c):
        c.int('s16', 'code')
        c.pair('value')

    def cp(c):
        c.pair('offset')
        c.int('s32', 'time_scale')
        c.tag(1)
        c.pair('value')
        nonneg(c, 's16')
        c.list('pp', 's16', pp, helper='ControlPointProperty')
    c.list('control_points', 's32', cp, helper='ControlPoint')
    c.tag(END)


@spec('FILL', 'Filler')
def s_fill(c):
    clip(c)
    c.tag(2, 1)
    c.tag(END)


# ---------------------------------------------------------------- track groups

TRACK_FIELDS = [  # (flag bit, name, kind) in stream order
    (0, 'index', 's16'), (1, 'attributes', 'ref'), (9, 'session_attr', 'ref'),
    (2, 'component', 'ref'), (3, 'filler_proxy', 'ref'), (4, 'bob_data', 'ref'),
    (5, 'control_code', 's16'), (6, 'control_sub_code', 's16'),
    (7, 'start_pos', 's32'), (8, 'read_only', 'bool'),
]


def track(c):
    flags = 0
    if c.mode == 'enc':
        for bit, name, kind in TRACK_FIELDS:
            if name in c.v:
                flags |= 1 << bit
        c.put('u16', flags)
    elif c.mode == 'dec':
        flags = c.get('u16')
        if flags & 0xFC00:
            raise Reject('flags')
    else:
        for bit, name, kind in TRACK_FIELDS:
            p = c.key('?' + name)
            c.sh['ext'].append(p)
            if c.over.get(p, True):
                flags |= 1 << bit
    for bit, name, kind in TRACK_FIELDS:
        if not flags & (1 << bit):
            continue
        if kind == 'ref':
            c.ref(name)
        elif kind == 'bool':
            c.bool(name)
        else:
            c.int(kind, name)


def trackgroup(c, mc=None):
    component(c)
    c.tag(2, 8)
    c.int('u8', 'mc_mode')
    c.int('s32', 'length')
    c.int('s32', 'num_scalars')
    c.list('tracks', 's32', track, helper='Track')
    tracks = c.v['tracks']
    if c.mode == 'enc':
        if tracks:
            c.tag(1, 1)
            for t in tracks:
                c.tag(69)
                c.put('s16', t.get('lock_number', 0))
    elif c.mode == 'dec':
        def fn(c):
            for t in tracks:
                c.tag(69)
                t['lock_number'] = c.get('s16')
        c.ext([(1, ['tracks'], fn)])
    else:
        for i, t in enumerate(tracks):
            p = 'tracks[%d].lock_number' % i
            t['lock_number'] = c.choose(p, 100 + i, ALT['s16'])


@spec('TRKG', 'TrackGroup')
def s_trkg(c):
    # a bare track group has no chunk terminator of its own in the tree; it is
    # only ever a base of other kinds
    trackgroup(c)
    c.tag(END)


def trackeffect(c):
    trackgroup(c)
    c.tag(2, 6)
    c.int('s32', 'left_length')
    c.int('s32', 'right_length')
    effect_info(c)
    c.ref('keyframes')
    c.bool('info_force_software')
    c.bool('info_never_hardware')
    c.ext([(2, ['trackman'], X('ref', 'trackman', 72))])


def effect_info(c):
    c.int('s16', 'info_version')
    c.int('s32', 'info_current')
    c.int('s32', 'info_smooth')
    c.int('s16', 'info_color_item')
    c.int('s16', 'info_quality')
    c.int('s8', 'info_is_reversed')
    c.bool('info_aspect_on')


@spec('TKFX', 'TrackEffect')
def s_tkfx(c):
    trackeffect(c)
    c.tag(END)


@spec('PVOL', 'PanVolumeEffect')
def s_pvol(c):
    trackeffect(c)
    c.tag(2, 5)
    c.int('s32', 'level')
    c.int('s32', 'pan')
    c.bool('suppress_validation')
    c.bool('level_set')
    c.bool('pan_set')
    c.ext([(1, ['supports_seperate_gain'], X('s32', 'supports_seperate_gain', 71)),
           (2, ['is_trim_gain_effect'], X('s32', 'is_trim_gain_effect', 71))])
    c.tag(END)


@spec('ASPI', 'AudioSuitePluginEffect')
def s_aspi(c):
    trackeffect(c)
    c.tag(2, 1)

    def chunk(c):
        if c.mode == 'enc':
            c.put('s32', len(c.v['data']))
        elif c.mode == 'dec':
            n = c.get('s32')
            if n < 0:
                raise Reject('negative size')
        c.int('s32', 'version')
        c.int('u32', 'manufacturer_id')
        c.int('u32', 'product_id')
        c.int('u32', 'plugin_id')
        c.int('u32', 'chunk_id')
        c.string('name')
        if c.mode == 'enc':
            c.raw(c.v['data'])
        elif c.mode == 'dec':
            c.v['data'] = c.take(n)
        else:
            c.blob('data', 's32')

    def plugin(c):
        c.string('name')
        c.int('u32', 'manufacturer_id')
        c.int('u32', 'product_id')
        c.int('u32', 'plugin_id')
        nonneg(c, 's32')
        c.list('chunks', 's32', chunk, helper='ASPIPluginChunk')
    if c.mode == 'dec':
        p = c.top().pos
        if c.get('s32') != 1:
            raise Reject('plugin count')
        c.top().pos = p
    c.list('plugins', 's32', plugin, helper='ASPIPlugin', lens=(1,))

    def words(c):
        c.tag(71)
        if c.mode == 'enc':
            m = c.v['mob_id']
            u = uuid.UUID(bytes=bytes(m[16:32]))
            c.put('u32', u.time_low)
        elif c.mode == 'dec':
            c.take(4)
        c.tag(71)
        if c.mode == 'enc':
            c.put('u32', u.time_mid + (u.time_hi_version << 16))
        elif c.mode == 'dec':
            c.take(4)

    def preset(c):
        c.tag(72)
        if c.mode == 'gen':
            c.blob('preset_path', 'u32')
        elif c.mode == 'enc':
            d = c.v['preset_path']
            c.put('u32', len(d))
            if d:
                c.tag(65)
                c.put('u32', len(d))
                c.raw(d)
        else:
            n = c.get('u32')
            if n:
                c.tag(65)
                if c.get('u32') != n:
                    raise Reject('sizes differ')
            c.v['preset_path'] = c.take(n)
    groups = [(1, ['mob_id'], words),
              (8, ['mob_id'], MOB()),
              (2, ['mark_in'], X('s64', 'mark_in', 77)),
              (3, ['mark_out'], X('s64', 'mark_out', 77)),
              (4, ['tracks_to_affect'], X('s32', 'tracks_to_affect', 72)),
              (5, ['rendering_mode'], X('s32', 'rendering_mode', 71)),
              (6, ['padding_secs'], X('s32', 'padding_secs', 71)),
              (9, ['preset_path'], preset)]
    if c.mode == 'gen':
        groups = groups[1:]
    c.ext(groups)
    c.tag(END)


@spec('EQMB', 'EqualizerMultiBand')
def s_eqmb(c):
    trackeffect(c)
    c.tag(2, 5)

    def band(c):
        c.int('s32', 'type')
        c.int('s32', 'freq')
        c.int('s32', 'gain')
        c.int('s32', 'q')
        c.bool('enable')
    nonneg(c, 's32')
    c.list('bands', 's32', band, helper='EqualizerBand')
    c.bool('effect_enable')
    c.string('filter_name')
    c.tag(END)


def timewarp(c):
    trackgroup(c)
    c.tag(2, 2)
    c.int('s32', 'phase_offset')


@spec('MASK', 'CaptureMask')
def s_mask(c):
    timewarp(c)
    c.tag(2, 1)
    c.bool('is_double')
    c.int('u32', 'mask_bits')
    c.tag(END)


@spec('STRB', 'StrobeEffect')
def s_strb(c):
    timewarp(c)
    c.tag(2, 1)
    c.int('s32', 'strobe_value')
    c.tag(END)


@spec('SPED', 'MotionEffect')
def s_sped(c):
    timewarp(c)
    c.tag(2, 3)
    c.pair('speed_ratio')
    c.ext([(1, ['offset_adjust'], X('double', 'offset_adjust', 75)),
           (2, ['source_param_list'], X('ref', 'source_param_list', 72)),
           (3, ['new_source_calculation'], X('bool', 'new_source_calculation', 66))])
    c.tag(END)


@spec('REPT', 'Repeat')
def s_rept(c):
    timewarp(c)
    c.tag(2, 1)
    c.tag(END)


@spec('RSET', 'EssenceGroup')
def s_rset(c):
    trackgroup(c)
    c.tag(2, 1)
    c.ext([(1, ['rep_set_type'], X('s32', 'rep_set_type', 71))])
    c.tag(END)


@spec('TNFX', 'TransitionEffect')
def s_tnfx(c):
    trackgroup(c)
    c.tag(2, 1)
    c.int('s32', 'cutpoint')
    c.tag(2, 5)
    c.int('s32', 'left_length')
    c.int('s32', 'right_length')
    effect_info(c)
    c.ref('keyframes')
    c.bool('info_force_software')
    c.bool('info_never_hardware')
    c.ext([(1, ['trackman'], X('ref', 'trackman', 72))])
    c.tag(END)


@spec('SLCT', 'Selector')
def s_slct(c):
    trackgroup(c)
    c.tag(2, 1)
    c.bool('is_ganged')
    if c.mode == 'gen':
        n = len(c.v['tracks'])
        c.v['selected'] = c.choose('selected', n - 1, list(range(n)) or [0])
        if not 0 <= c.v['selected'] < n:
            raise Invalid('selected')
    else:
        c.int('u16', 'selected')
        if c.mode == 'dec' and c.v['selected'] >= len(c.v['tracks']):
            raise Reject('selected')
    c.tag(END)


@spec('CMPO', 'Composition')
def s_cmpo(c):
    trackgroup(c)
    c.tag(2, 2)
    c.mob_words('mob_id')
    c.timestamp('last_modified')
    c.int('u8', 'mob_type_id')
    c.int('s32', 'usage_code')
    c.ref('descriptor')
    c.ext([(1, ['creation_time'], X('ts', 'creation_time', 71)),
           (2, ['mob_id'], MOB())])
    c.tag(END)


# ------------------------------------------------------------------------ misc

def filelocator(c):
    c.tag(2, 2)
    c.string('path')
    c.ext([(1, ['path_posix'], X('string', 'path_posix', 76)),
           (2, ['path_utf8'], X('utf8', 'path_utf8', 76)),
           (3, ['path2_utf8'], X('utf8', 'path2_utf8', 76))])
    c.tag(END)


@spec('FILE', 'MacFileLocator')
def s_file(c):
    filelocator(c)


@spec('WINF', 'WinFileLocator')
def s_winf(c):
    filelocator(c)


@spec('URLL', 'URLLocator')
def s_urll(c):
    c.tag(END)


@spec('GRFX', 'GraphicEffect')
def s_grfx(c):
    c.tag(2, 1)
    c.blob('pict_data', 's32')
    c.tag(END)


@spec('SHLP', 'ShapeList')
def s_shlp(c):
    c.tag(2, 1)
    c.blob('shape_data', 's32')
    c.tag(END)


@spec('CCFX', 'ColorCorrectionEffect')
def s_ccfx(c):
    c.tag(2, 1)
    c.blob('color_correction', 's16')
    c.tag(END)


@spec('FXPS', 'EffectParamList')
def s_fxps(c):
    c.tag(2, 0x12)
    c.int('s32', 'orig_length')
    c.int('s32', 'window_offset')
    state = {}
    if c.mode == 'enc':
        c.put('s32', len(c.v['parameters']))
    elif c.mode == 'dec':
        state['n'] = c.count('s32')
    else:
        state['n'] = c.choose('parameters#', 2, (0, 1, 2, 3))
    c.int('s32', 'keyframe_size')

    def param(c):
        for n in ('percent_time', 'level', 'pos_x', 'floor_x', 'ceil_x', 'pos_y',
                  'floor_y', 'ceil_y', 'scale_x', 'scale_y', 'crop_left',
                  'crop_right', 'crop_top', 'crop_bottom'):
            c.int('s32', n)
        c.pair('box', 's32', 4)
        for n in ('box_xscale', 'box_yscale', 'box_xpos', 'box_ypos'):
            c.bool(n)
        c.int('s32', 'border_width')
        c.int('s32', 'border_soft')
        for n in ('splill_gain2', 'splill_gain', 'splill_soft2', 'splill_soft'):
            c.int('s16', n)
        c.int('s8', 'enable_key_flags')
        nonneg(c, 's32')
        c.list('colors', 's32', lambda c: c.scalar('s32'))
        nonneg(c, 's32')
        c.blob('user_param', 's32')
        c.bool('selected')
    c.list('parameters', None, param, helper='EffectParam', lens=(state.get('n'),))
    c.tag(END)


@spec('AVUP', 'CFUserParam')
def s_avup(c):
    c.tag(2, 1)
    c.int('s16', 'byte_order', dom=(0x4949,))
    c.ruuid('uuid')
    if c.mode == 'enc':
        c.put('s32', len(c.v['data']) + 4)
    elif c.mode == 'dec':
        n1 = c.get('s32')
        p = c.top().pos
        n2 = c.get('s32')
        c.top().pos = p
        if n2 != n1 - 4:
            raise Reject('sizes differ')
        if n2 < 0:
            raise Reject('negative size')
    c.blob('data', 's32')
    c.tag(END)


@spec('PRIT', 'ParameterItem')
def s_prit(c):
    c.tag(2, 2)
    c.ruuid('uuid')
    c.int('s16', 'value_type', dom=(1, 4, 2))
    vt = c.v['value_type']
    if vt == 1:
        c.int('s32', 'value')
    elif vt == 2:
        c.double('value')
    else:
        c.ref('value')
    if c.mode == 'enc':
        c.wstr(c.v['name'], none=True)
    else:
        c.string('name')
    c.bool('enable')
    c.ref('control_track')
    c.ext([(1, ['contribs_to_sig'], X('bool', 'contribs_to_sig', 66))])
    c.tag(END)


@spec('MSML', 'MSMLocator')
def s_msml(c):
    c.tag(2, 2)
    c.mob_words('mob_id')
    c.string('last_known_volume')
    c.ext([(1, ['domain_type'], X('s32', 'domain_type', 71)),
           (2, ['mob_id'], MOB()),
           (3, ['last_known_volume_utf8'], X('utf8', 'last_known_volume_utf8', 76))])
    c.tag(END)


def position(c):
    c.tag(2, 1)
    c.mob_words('mob_id')
    c.ext([(1, ['mob_id'], MOB())])


@spec('APOS', 'Position')
def s_apos(c):
    position(c)
    c.tag(END)


def bobposition(c):
    position(c)
    c.tag(2, 1)
    c.int('s32', 'sample_num')
    c.int('s32', 'length')
    c.int('s16', 'track_type')
    c.int('s16', 'track_index')


@spec('ABOB', 'BOBPosition')
def s_abob(c):
    bobposition(c)
    c.tag(END)


def didposition(c):
    bobposition(c)
    c.tag(2, 1)
    c.int('s32', 'strip')
    c.int('u64', 'offset')
    c.int('u64', 'byte_length')
    c.bool('spos_invalid')


@spec('DIDP', 'DIDPosition')
def s_didp(c):
    didposition(c)
    c.tag(END)


@spec('MPGP', 'MPGPosition')
def s_mpgp(c):
    didposition(c)
    c.tag(2, 1)
    c.int('s16', 'trailing_discards')
    c.bool('need_seq_hdr')

    def field(c):
        c.int('u8', 0)
        c.int('u32', 1)
    if c.mode == 'enc':
        n = len(c.v['fields'])
        c.put('s16', n)
        if n:
            c.put('s16', n * 2)
    elif c.mode == 'dec':
        n = c.count('s16')
        if n:
            c.get('s16')
    else:
        n = c.choose('fields#', 2, (0, 1, 2, 3))
    c.list('fields', None, field, lens=(n,))
    c.tag(END)


@spec('MCBR', 'BinRef')
def s_mcbr(c):
    c.tag(2, 1)
    c.int('s32', 'uid_high')
    c.int('s32', 'uid_low')
    c.string('name')
    c.ext([(1, ['name_utf8'], X('utf8', 'name_utf8', 76))])
    c.tag(END)


def mobref(c):
    c.tag(2, 1)
    c.mob_words('mob_id')
    c.int('s32', 'position')
    c.ext([(1, ['mob_id'], MOB())])


@spec('MCMR', 'MobRef')
def s_mcmr(c):
    mobref(c)
    c.tag(END)


@spec('TMBC', 'Marker')
def s_tmbc(c):
    mobref(c)
    c.tag(2, 3)
    c.int('s32', 'comp_offset')
    c.ref('attributes')
    c.const('s16', 1)
    c.pair('color', 'u16', 3)
    c.ext([(1, ['handled_codes'], X('bool', 'handled_codes', 66))])
    c.tag(END)


@spec('TKMN', 'TrackerManager')
def s_tkmn(c):
    c.tag(2, 1)
    c.ref('data_slots')
    c.ref('param_slots')
    c.tag(END)


@spec('TKDS', 'TrackerDataSlot')
def s_tkds(c):
    c.tag(2, 1)
    c.reflist('tracker_data', 's32')
    c.ext([(1, ['track_fg'], X('bool', 'track_fg', 66))])
    c.tag(END)


@spec('TKPS', 'TrackerParameterSlot')
def s_tkps(c):
    c.tag(2, 1)
    nonneg(c, 's16')
    c.blob('settings', 's16')
    nonneg(c, 's32')
    c.reflist('params', 's32')
    c.tag(END)


@spec('TKDA', 'TrackerData')
def s_tkda(c):
    c.tag(2, 1)
    if c.mode == 'dec':
        p = c.top().pos
        if c.get('s16') < 0:
            raise Reject('negative size')
        c.top().pos = p
    c.blob('settings', 's16')
    c.int('u32', 'clip_version')
    c.reflist('clips', 's16')
    c.ext([(1, ['offset_tracking'], X('u32', 'offset_tracking', 72)),
           (2, ['smoothing'], X('u32', 'smoothing', 72)),
           (3, ['jitter_removal'], X('u32', 'jitter_removal', 72)),
           (4, ['filter_amount'], X('double', 'filter_amount', 75)),
           (5, ['clip5'], X('ref', 'clip5', 72)),
           (6, ['clip6'], X('ref', 'clip6', 72))])
    c.tag(END)


@spec('TKPA', 'TrackerParameter')
def s_tkpa(c):
    c.tag(2, 1)
    nonneg(c, 's16')
    c.blob('settings', 's16')
    c.tag(END)


# --------------------------------------------------------------------- essence

def mdes(c):
    c.tag(2, 3)
    c.int('u8', 'mob_kind')
    c.ref('locator')
    c.bool('intermediate')
    c.ref('physical_media')

    def u(c):
        c.tag(65)
        c.const('s32', 16)
        c.ruuid('uuid')

    def w(c):
        c.tag(65)
        if c.mode == 'dec':
            p = c.top().pos
            if c.get('s32') < 0:
                raise Reject('negative size')
            c.top().pos = p
        c.blob('wchar', 's32')
    c.ext([(1, ['uuid'], u), (2, ['wchar'], w),
           (3, ['attributes'], X('ref', 'attributes', 72))])


@spec('MDES', 'MediaDescriptor')
def s_mdes(c):
    mdes(c)
    c.tag(END)


@spec('MDTP', 'TapeDescriptor')
def s_mdtp(c):
    mdes(c)
    c.tag(2, 2)
    c.int('s16', 'cframe')
    c.tag(END)


@spec('MDFM', 'FilmDescriptor')
def s_mdfm(c):
    mdes(c)
    c.tag(2, 1)
    c.tag(END)


@spec('MDNG', 'NagraDescriptor')
def s_mdng(c):
    mdes(c)
    c.tag(2, 1)
    c.tag(END)


def mdfl(c):
    mdes(c)
    c.tag(2, 3)
    c.exp10('edit_rate')
    c.int('s32', 'length')
    c.int('s16', 'is_omfi')
    c.int('s32', 'data_offset')


@spec('MDFL', 'MediaFileDescriptor')
def s_mdfl(c):
    mdfl(c)
    c.tag(END)


@spec('MULD', 'MultiDescriptor')
def s_muld(c):
    mdfl(c)
    c.tag(2, 1)
    c.reflist('descriptors', 's32')
    c.tag(END)


def riff(c, magic, order):
    c.raw(magic)
    if c.mode == 'enc':
        d = c.v['summary']
        c.raw(pack_int('u32', len(d), order))
        c.raw(d)
    elif c.mode == 'dec':
        n = struct.unpack('<I' if order == LE else '>I', c.take(4))[0]
        c.v['summary'] = c.take(n)
    else:
        c.blob('summary', 'u32')


@spec('WAVE', 'WaveDescriptor')
def s_wave(c):
    mdfl(c)
    c.tag(2, 1)
    riff(c, b'RIFF', LE)
    c.tag(END)


@spec('AIFC', 'AIFCDescriptor')
def s_aifc(c):
    mdfl(c)
    c.tag(2, 1)
    riff(c, b'FORM', BE)
    c.ext([(1, ['data_pos'], X('s32', 'data_pos', 71))])
    c.tag(END)


def audio_head(c):
    c.int('u16', 'channels')
    c.int('u16', 'quantization_bits')
    c.exp10('sample_rate')
    c.bool('locked')
    c.int('s16', 'audio_ref_level')
    c.int('s32', 'electro_spatial_formulation')
    c.int('u16', 'dial_norm')
    c.int('u32', 'coding_format')


@spec('PCMA', 'PCMADescriptor')
def s_pcma(c):
    mdfl(c)
    c.tag(2, 1)
    audio_head(c)
    c.int('u32', 'block_align')
    c.int('u16', 'sequence_offset')
    c.int('u32', 'average_bps')
    c.bool('has_peak_envelope_data')
    for n in ('peak_envelope_version', 'peak_envelope_format',
              'points_per_peak_value', 'peak_envelope_block_size',
              'peak_channel_count', 'peak_frame_count'):
        c.int('s32', n)
    c.int('u64', 'peak_of_peaks_offset')
    c.int('s32', 'peak_envelope_timestamp')
    c.ext([(1, ['ebu_timestamp'], X('s64', 'ebu_timestamp', 77)),
           (3, ['timecode_framerate'], X('string', 'timecode_framerate', 76))])
    c.tag(END)


@spec('MPGA', 'MPGADescriptor')
def s_mpga(c):
    mdfl(c)
    c.tag(2, 1)
    audio_head(c)
    c.int('u32', 'bit_rate')
    c.ext([(1, ['sub_frame_alignment'], X('u64', 'sub_frame_alignment', 77)),
           (2, ['origin'], X('u64', 'origin', 77))])
    c.tag(END)


def box4(c, name):
    """four tagged (x, y) corners"""
    if c.mode == 'gen':
        out = []
        for i in range(4):
            out.append([c.choose('%s[%d][%d]' % (name, i, j), c.idefault('s32'), ALT['s32'], BAD['s32'])
                        for j in range(2)])
        c.v[name] = out
        return
    if c.mode == 'enc':
        for x, y in c.v[name]:
            c.tag(71)
            c.put('s32', x)
            c.tag(71)
            c.put('s32', y)
        return
    out = []
    for i in range(4):
        c.tag(71)
        x = c.get('s32')
        c.tag(71)
        y = c.get('s32')
        out.append([x, y])
    c.v[name] = out


def did(c):
    mdfl(c)
    c.tag(2, 2)
    for n in ('stored_height', 'stored_width', 'sampled_height', 'sampled_width',
              'sampled_x_offset', 'sampled_y_offset', 'display_height',
              'display_width', 'display_x_offset', 'display_y_offset'):
        c.int('s32', n)
    c.int('s16', 'frame_layout')
    c.pair('aspect_ratio')
    c.list('line_map', 's32', lambda c: c.scalar('s32'), scale=4)
    c.int('s32', 'alpha_transparency')
    c.bool('uniformness')
    c.int('s32', 'did_image_size')
    c.ref('next_did_desc')
    c.fourcc('compress_method')
    c.int('s32', 'resolution_id')
    c.int('s32', 'image_alignment_factor')

    def fill(c):
        c.tag(71)
        c.int('s32', 'client_fill_start')
        c.tag(71)
        c.int('s32', 'client_fill_end')

    def boxes(c):
        box4(c, 'valid_box')
        box4(c, 'essence_box')
        box4(c, 'source_box')

    def framing(c):
        box4(c, 'framing_box')
        c.tag(71)
        c.int('s32', 'reformatting_option')

    def prim(c):
        c.tag(80)
        c.ruuid('color_primaries')
        c.tag(80)
        c.ruuid('coding_equations')
    c.ext([(1, ['frame_index_byte_order'], X('s16', 'frame_index_byte_order', 69)),
           (2, ['frame_sample_size'], X('s32', 'frame_sample_size', 71)),
           (3, ['first_frame_offset'], X('s32', 'first_frame_offset', 71)),
           (4, ['client_fill_start', 'client_fill_end'], fill),
           (5, ['offset_to_rle_frame_index'], X('s32', 'offset_to_rle_frame_index', 71)),
           (6, ['frame_start_offset'], X('s32', 'frame_start_offset', 71)),
           (8, ['valid_box', 'essence_box', 'source_box'], boxes),
           (9, ['framing_box', 'reformatting_option'], framing),
           (10, ['transfer_characteristic'], X('ruuid', 'transfer_characteristic', 80)),
           (11, ['color_primaries', 'coding_equations'], prim),
           (12, ['essence_compression'], X('ruuid', 'essence_compression', 80)),
           (14, ['essence_element_size_kind'], X('u8', 'essence_element_size_kind', 68)),
           (15, ['frame_checked_with_mapper'], X('bool', 'frame_checked_with_mapper', 66))])


@spec('DIDD', 'DIDDescriptor')
def s_didd(c):
    did(c)
    c.tag(END)


def cdci(c):
    did(c)
    c.tag(2, 2)
    c.int('u32', 'horizontal_subsampling')
    c.int('u32', 'vertical_subsampling')
    c.int('s32', 'component_width')
    c.int('s16', 'color_sitting')
    c.int('u32', 'black_ref_level')
    c.int('u32', 'white_ref_level')
    c.int('u32', 'color_range')
    c.int('s64', 'frame_index_offset')
    c.ext([(1, ['alpha_sampled_width'], X('u32', 'alpha_sampled_width', 72)),
           (2, ['ignore_bw'], X('u32', 'ignore_bw', 72))])


@spec('CDCI', 'CDCIDescriptor')
def s_cdci(c):
    cdci(c)
    c.tag(END)


@spec('MPGI', 'MPGIDescriptor')
def s_mpgi(c):
    cdci(c)
    c.tag(2, 1)
    for n in ('mpeg_version', 'profile', 'gop_structure', 'stream_type'):
        c.int('u8', n)
    for n in ('random_access', 'leading_discard', 'trailing_discard'):
        c.bool(n)
    c.int('u16', 'min_gop_length')
    c.int('u16', 'max_gop_length')
    nonneg(c, 's32')
    c.blob('sequence_hdr', 's32')
    c.tag(END)


@spec('JPED', 'JPEGDescriptor')
def s_jped(c):
    cdci(c)
    c.tag(2, 1)
    c.int('s32', 'jpeg_table_id')
    c.int('u64', 'jpeg_frame_index_offset')
    nonneg(c, 's32')
    c.blob('quantization_tables', 's32')
    c.ext([(1, ['image_start_align'], X('s32', 'image_start_align', 71))])
    c.tag(END)


@spec('RGBA', 'RGBADescriptor')
def s_rgba(c):
    did(c)
    c.tag(2, 1)
    if c.mode == 'enc':
        lay = c.v['pixel_layout']
        c.put('u32', len(lay))
        c.raw(bytes(bytearray(p['Code'] for p in lay)))
        c.put('u32', len(lay))
        c.raw(bytes(bytearray(p['Size'] for p in lay)))
    elif c.mode == 'dec':
        a = c.take(c.get('u32'))
        b = c.take(c.get('u32'))
        if len(a) != len(b):
            raise Reject('layout')
        c.v['pixel_layout'] = [{'Code': x, 'Size': y}
                               for x, y in zip(bytearray(a), bytearray(b))]
    else:
        def px(c):
            c.int('u8', 'Code')
            c.int('u8', 'Size')
        c.list('pixel_layout', 'u32', px)
    c.const('u32', 0)
    c.const('u32', 0)
    c.const('u32', 0)

    def comp(c):
        c.tag(66)
        c.bool('has_comp_min_ref')
        c.tag(72)
        c.int('u32', 'comp_min_ref')
        c.tag(66)
        c.bool('has_comp_max_ref')
        c.tag(72)
        c.int('u32', 'comp_max_ref')

    def alpha(c):
        c.tag(72)
        c.int('u32', 'alpha_min_ref')
        c.tag(72)
        c.int('u32', 'alpha_max_ref')
    c.ext([(1, ['frame_index_offset'], X('u64', 'frame_index_offset', 77)),
           (2, ['has_comp_min_ref', 'comp_min_ref', 'has_comp_max_ref', 'comp_max_ref'], comp),
           (3, ['alpha_min_ref', 'alpha_max_ref'], alpha)])
    c.tag(END)


def datd(c):
    mdfl(c)
    c.tag(2, 1)
    c.bool('is_offset_to_frame_indexes_valid')
    c.int('u64', 'offset_to_frame_indexes')
    c.int('s32', 'first_frame_offset')
    c.int('s32', 'min_sample_size')
    c.int('s32', 'max_sample_size')


@spec('DATD', 'DataDescriptor')
def s_datd(c):
    datd(c)
    c.tag(END)


@spec('ANCD', 'ANCDataDescriptor')
def s_ancd(c):
    datd(c)
    c.tag(2, 1)
    c.int('s32', 'manifest_element_count')
    c.tag(END)


# --------------------------------------------------------------- entry points

def encode(cid, v, order, refmap=None):
    c = Enc(v, order, refmap)
    SPECS[cid](c)
    return c.data()


def decode(cid, data, order, nrefs=None):
    """-> (value, lenient flag); raises Reject or Lenient"""
    c = Dec(data, order, nrefs)
    SPECS[cid](c)
    if c.pos != len(data):
        raise Reject('trailing')
    return c.v, c.lenient


def generate(cid, over=None, nrefs=4):
    """-> (value, [(path, alternatives)], [optional group paths])"""
    c = Gen(over, nrefs)
    SPECS[cid](c)
    return c.v, c.sh['dom'], c.sh['ext']


def unrepresentable(cid, over=None):
    """[(path, values outside what the layout can hold)]"""
    c = Gen(over)
    SPECS[cid](c)
    return c.sh['bad']


# ------------------------------------------------------------------ container

def wstr(s, order):
    d = s.encode('mac-roman')
    return pack_int('u16', len(d), order) + d


def fourcc(b, order):
    return b[::-1] if order == LE else b


def header(order, count, root, timestamp=1500000000, date=u'2017/07/14 02:40:00',
           version=u'pyavb 0.1.0'):
    out = [b'\x06\x00' if order == LE else b'\x00\x06', b'Domain',
           fourcc(b'OBJD', order), wstr(u'AObjDoc', order), b'\x04',
           wstr(date, order), pack_int('u32', count, order),
           pack_int('u32', root, order),
           b'IIII' if order == LE else b'MMMM',
           pack_int('u32', timestamp, order), b'\x00' * 4,
           fourcc(b'ATob', order), fourcc(b'ATve', order),
           wstr(version[:30].ljust(30), order), b'\x00' * 16]
    return b''.join(out)


def chunk(cid, data, order):
    b = cid.encode('ascii') if not isinstance(cid, bytes) else cid
    return fourcc(b, order) + pack_int('u32', len(data), order) + data


def container(chunks, root, order, **kw):
    """chunks: list of (class id, data)"""
    return header(order, len(chunks), root, **kw) + b''.join(
        chunk(a, b, order) for a, b in chunks)


class Parsed(object):
    pass


def parse(data):
    """independent, strict container parser"""
    p = Parsed()
    if data[:2] == b'\x06\x00':
        p.order = LE
    elif data[:2] == b'\x00\x06':
        p.order = BE
    else:
        raise Reject('byte order mark')
    d = Dec(data, p.order)
    d.take(2)
    d.raw(b'Domain')
    d.raw(fourcc(b'OBJD', p.order))
    if d.rstr('mac-roman', False) != u'AObjDoc':
        raise Reject('doc')
    d.tag(4)
    p.date = d.rstr('mac-roman', False)
    p.count = d.get('u32')
    p.root = d.get('u32')
    d.raw(b'IIII' if p.order == LE else b'MMMM')
    p.timestamp = d.get('u32')
    d.take(4)
    d.raw(fourcc(b'ATob', p.order))
    d.raw(fourcc(b'ATve', p.order))
    n = d.get('u16')
    p.version = d.take(n).decode('mac-roman')
    d.take(16)
    p.header_len = d.pos
    p.chunks = []
    for i in range(p.count):
        cid = d.take(4)
        if p.order == LE:
            cid = cid[::-1]
        size = d.get('u32')
        p.chunks.append((cid.decode('latin-1'), d.take(size)))
    p.trailing = len(data) - d.pos
    return p


# leaf objects used as distinguishable reference targets
def leaf(n):
    return ('TKPA', {'settings': b'leaf%d' % n})


def leaf_label(cid, v):
    if cid == 'TKPA' and v['settings'][:4] == b'leaf':
        return int(v['settings'][4:])
    return None


def golden(cid, v, order, nrefs=4, **kw):
    """a document whose root is one object of kind cid and whose references
    point at nrefs leaf objects"""
    chunks = []
    for i in range(1, nrefs + 1):
        k, lv = leaf(i)
        chunks.append((k, encode(k, lv, order)))
    chunks.append((cid, encode(cid, v, order)))
    return container(chunks, len(chunks), order, **kw)
