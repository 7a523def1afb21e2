# -*- coding: utf-8 -*-
"""C22: all representations of a mob id agree and convert without loss."""
import itertools
import uuid

import avb
from avb.mobid import MobID

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of byte patterns and of setter sequences on the real class, compared after every '
             'step with a model that keeps the 32 bytes')
RULE = 'distinct 32 byte values'
BOUNDS = ('8 base patterns x every byte position x all 256 values (each through all views and back); every sequence of up '
          'to 2 (3 thorough) of 34 setter calls from 3 base patterns; all ordered pairs of 70 ids; 2000 generated ids')
ASSUMPTIONS = ['URN text is the SMPTE form, half swapped for ids whose material number is']

MAGIC = b'\x06\x0e\x2b\x34\x7f\x7f'
LABEL = b'\x06\x0a\x2b\x34\x01\x01\x01\x05\x01\x01\x0f'
BASES = [bytes(32), b'\xff' * 32, bytes(range(1, 33)), bytes(range(0xa0, 0xc0)),
         LABEL + b'\x00\x13\x00\x01\x02' + b'\x11\x22\x33\x44\x55\x66\x77\x88' + MAGIC + b'\x2a\x80',
         LABEL + b'\x20\x13\x00\x00\x00' + b'\xde\xad\xbe\xef\x80\x81\x7f\xfe' + bytes(range(8, 0, -1)),
         LABEL + b'\x00\x13\x00\x00\x00' + b'\x34\x2b\x0e\x06\x7f\x7f\x01\x02' + MAGIC + b'\x01\x02',
         LABEL + b'\x20\x13\x00\x00\x00' + b'\x01' * 8 + MAGIC + b'\x00\x00']


def swapped(b):
    return b[11] == 0 and b[24:30] == MAGIC


def ambiguous(b):
    """a plain id whose URN text reads as the half swapped form of another"""
    return b[11] == 0 and b[16:22] == b'\x34\x2b\x0e\x06\x7f\x7f' and not swapped(b)


def urn(b):
    d1, d2, d3 = b[16:20][::-1].hex(), b[20:22][::-1].hex(), b[22:24][::-1].hex()
    h = b[:16].hex()
    out = [h[i:i + 8] for i in range(0, 32, 8)]
    d4 = b[24:].hex()
    if swapped(b):
        out += [d4[:8], d4[8:], d1, d2 + d3]
    else:
        out += [d1, d2 + d3, d4[:8], d4[8:]]
    return 'urn:smpte:umid:' + '.'.join(out)


def as_dict(b):
    return {'SMPTELabel': list(b[:12]), 'length': b[12], 'instanceHigh': b[13], 'instanceMid': b[14],
            'instanceLow': b[15],
            'material': {'Data1': int.from_bytes(b[16:20], 'little'), 'Data2': int.from_bytes(b[20:22], 'little'),
                         'Data3': int.from_bytes(b[22:24], 'little'), 'Data4': list(b[24:])}}


def agree(ctx, m, b):
    def same(name, got, want):
        if got != want:
            ctx.fail('%s is %r, bytes %s say %r' % (name, got, b.hex(), want))
    same('bytes', bytes(m.bytes_le), b)
    same('urn', str(m.urn), urn(b))
    same('repr', repr(m), urn(b))
    same('str', str(m), urn(b))
    same('int', m.int, int.from_bytes(b, 'big'))
    same('__int__', int(m), int.from_bytes(b, 'big'))
    d = as_dict(b)
    same('dict', m.to_dict(), d)
    same('SMPTELabel', list(m.SMPTELabel), d['SMPTELabel'])
    for n in ('length', 'instanceHigh', 'instanceMid', 'instanceLow'):
        same(n, getattr(m, n), d[n])
    for n in ('Data1', 'Data2', 'Data3'):
        same(n, getattr(m, n), d['material'][n])
    same('Data4', list(m.Data4), d['material']['Data4'])
    same('material', m.material, uuid.UUID(bytes_le=b[16:]))
    same('hash', hash(m), hash(MobID(bytes_le=b)))


def views(ctx, b):
    m = MobID(bytes_le=b)
    agree(ctx, m, b)
    d = MobID()
    d.from_dict(m.to_dict())
    u = MobID(m.urn)
    for name, x in (('int', MobID(int=m.int)), ('dict', d), ('urn', u), ('bytes', MobID(bytes_le=m.bytes_le))):
        ctx.step()
        if bytes(x.bytes_le) != b:
            ctx.fail('%s -> %s -> %s' % (b.hex(), name, bytes(x.bytes_le).hex()))
        if x != m or not x == m or hash(x) != hash(m):
            ctx.fail('%s read back from %s is not equal' % (b.hex(), name))
    x = MobID()
    x.urn = str(m.urn).upper()
    if bytes(x.bytes_le) != b:
        ctx.fail('upper case URN of %s reads as %s' % (b.hex(), bytes(x.bytes_le).hex()))
    x.bytes_le[5] ^= 1
    if bytes(m.bytes_le) != b:
        ctx.fail('ids share their bytes')
    f = MobID()
    for n in ('length', 'instanceHigh', 'instanceMid', 'instanceLow', 'Data1', 'Data2', 'Data3', 'Data4', 'SMPTELabel'):
        setattr(f, n, getattr(m, n))
    if bytes(f.bytes_le) != b:
        ctx.fail('fields of %s give %s' % (b.hex(), bytes(f.bytes_le).hex()))
    ctx.impl()


def setters():
    out = []

    def put(name, off, fmt, vals):
        for v in vals:
            out.append((name, v, lambda b, v=v: b[:off] + fmt(v) + b[off + len(fmt(v)):]))
    byte = lambda v: bytes([v])
    put('length', 12, byte, (0, 0x13, 255))
    put('instanceHigh', 13, byte, (0, 128))
    put('instanceMid', 14, byte, (1, 255))
    put('instanceLow', 15, byte, (2, 0))
    put('Data1', 16, lambda v: v.to_bytes(4, 'little'), (0, 0x01020384, 0xffffffff))
    put('Data2', 20, lambda v: v.to_bytes(2, 'little'), (0x8001, 0xffff, 0))
    put('Data3', 22, lambda v: v.to_bytes(2, 'little'), (0x0180, 5))
    put('Data4', 24, bytes, (list(range(8)), MAGIC + b'\x2a\x80', bytearray(b'\xff' * 8)))
    put('SMPTELabel', 0, bytes, (list(LABEL) + [0], LABEL + b'\x20', [0] * 12))
    put('material', 16, lambda v: v.bytes_le, (uuid.UUID(int=0x0102030405060708090a0b0c0d0e0f10),
                                               uuid.UUID(bytes_le=b'\x01' * 8 + MAGIC + b'\x01\x02')))
    for base in BASES[2:5]:
        out.append(('urn', urn(base), lambda b, base=base: base))
        out.append(('int', int.from_bytes(base, 'big'), lambda b, base=base: base))
        out.append(('from_dict', as_dict(base), lambda b, base=base: base))
        out.append(('bytes_le', bytearray(base), lambda b, base=base: base))
    return out


SETTERS = setters()


def history(ctx, base, ops):
    m = MobID(bytes_le=base)
    b = base
    for i in ops:
        name, v, fn = SETTERS[i]
        if name == 'from_dict':
            m.from_dict(v)
        elif name == 'bytes_le':
            m.bytes_le = bytearray(v)
        else:
            setattr(m, name, v)
        b = fn(b)
        ctx.step()
        ctx.state(b)
        if not ambiguous(b):
            agree(ctx, m, b)
    ctx.impl()


def order(ctx, a, others):
    x = MobID(bytes_le=a)
    for b in others:
        y = MobID(bytes_le=b)
        ctx.step()
        if (x == y, x != y, x < y, x <= y, x > y, x >= y) != (a == b, a != b, a < b, a <= b, a > b, a >= b):
            ctx.fail('comparing %s with %s' % (a.hex(), b.hex()))
        if (len({x, y}) == 1) != (a == b):
            ctx.fail('hashing %s and %s' % (a.hex(), b.hex()))
    for other in (None, 5, 'x', a, int.from_bytes(a, 'big')):
        if x == other or not x != other:
            ctx.fail('equal to %r' % (other,))
        for fn in (lambda: x < other, lambda: x <= other, lambda: x > other, lambda: x >= other):
            try:
                r = fn()
            except TypeError:
                continue
            ctx.fail('ordered against %r: %r' % (other, r))
    ctx.impl()


def bad(ctx, what, v):
    m = MobID(bytes_le=BASES[2])
    try:
        setattr(m, what, v)
    except Exception:
        ctx.impl()
        return
    ctx.fail('%s = %r accepted as %s' % (what, v, bytes(m.bytes_le).hex()))


def fresh(ctx, n):
    f = avb.file.AVBFile()
    seen = set()
    for i in range(n):
        m = MobID.new() if i % 2 else f.create.Composition().mob_id
        b = bytes(m.bytes_le)
        if b in seen:
            ctx.fail('generated twice: %s' % b.hex())
        seen.add(b)
        ctx.state(b)
        if len(b) != 32 or b[:12] != LABEL + b'\x20' or b[12:16] != b'\x13\0\0\0':
            ctx.fail('not a well formed basic UMID: %s' % b.hex())
        agree(ctx, m, b)
        u = m.material
        if u.version != 4 or u.variant != uuid.RFC_4122:
            ctx.fail('material number is not a random UUID: %s' % u)
    ctx.impl(n)


def known(ctx, b):
    if bytes(MobID(MobID(bytes_le=b).urn).bytes_le) != b:
        ctx.fail('the URN of a plain id whose Data1, Data2 are 060e2b34 7f7f is read back as half swapped')


def shards(tier):
    return ([{'w': 'views', 'base': i, 'half': h} for i in range(len(BASES)) for h in range(4)] +
            [{'w': 'hist', 'first': i} for i in range(len(SETTERS))] + [{'w': 'order'}, {'w': 'other'}])


def run(shard, ctx):
    w = shard['w']
    if w == 'views':
        base = BASES[shard['base']]
        for p in range(shard['half'] * 8, shard['half'] * 8 + 8):
            for v in range(256):
                b = base[:p] + bytes([v]) + base[p + 1:]
                if ambiguous(b):
                    continue
                ctx.state(b)
                ctx.case('views/%d/%d/%d' % (shard['base'], p, v), views, ctx, b)
    elif w == 'hist':
        i = shard['first']
        for base in BASES[:3]:
            ctx.case('hist/%s/%d' % (base.hex()[:4], i), history, ctx, base, (i,))
            for r in ((1, 2) if ctx.thorough else (1,)):
                for rest in itertools.product(range(len(SETTERS)), repeat=r):
                    ctx.case('hist/%s/%s' % (base.hex()[:4], (i,) + rest), history, ctx, base, (i,) + rest)
    elif w == 'order':
        ids = list(BASES)
        for p in range(32):
            ids.append(BASES[3][:p] + bytes([BASES[3][p] - 1]) + BASES[3][p + 1:])
            ids.append(BASES[3][:p] + bytes([BASES[3][p] + 0x40]) + BASES[3][p + 1:])
        for i, a in enumerate(ids):
            ctx.case('order/%d' % i, order, ctx, a, ids)
    else:
        u = urn(BASES[2])
        for i in range(15, len(u)):
            if u[i] != '.':
                ctx.case('bad/char/%d' % i, bad, ctx, 'urn', u[:i] + 'g' + u[i + 1:])
                ctx.case('bad/short/%d' % i, bad, ctx, 'urn', u[:i] + u[i + 1:])
                ctx.case('bad/long/%d' % i, bad, ctx, 'urn', u[:i] + '0' + u[i:])
        for v in (-1, 1 << 256, (1 << 256) + 5, -(1 << 255)):
            ctx.case('bad/int/%x' % v, bad, ctx, 'int', v)
        for name, vals in (('length', (-1, 256)), ('instanceHigh', (256,)), ('instanceMid', (-1,)), ('instanceLow', (300,)),
                           ('Data1', (-1, 1 << 32)), ('Data2', (-1, 65536)), ('Data3', (65536,)),
                           ('Data4', ([0] * 7, [0] * 9, [256] * 8)), ('SMPTELabel', ([0] * 11, [0] * 13, [-1] * 12))):
            for v in vals:
                ctx.case('bad/%s/%s' % (name, v), bad, ctx, name, v)
        ctx.case('fresh', fresh, ctx, 2000)
        ctx.case('urn-ambiguous', known, ctx,
                 LABEL + b'\x00\x13\x00\x00\x00\x34\x2b\x0e\x06\x7f\x7f\x01\x02' + bytes(range(8)))
