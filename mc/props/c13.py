# -*- coding: utf-8 -*-
"""C13: the compiled reader refuses damaged data exactly as the Python reader."""
import os

import avb
import avb.file

from mc import cases, docs, plain, spec
from mc.props import c11, c12

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of damage to the data of every accelerated kind, each state replayed on the extension, built '
             'with the address sanitizer, and on the Python reader; verdict and values compared')
RULE = 'distinct (kind, value, damage) cases'
BOUNDS = ('the 14 accelerated kinds, with all, none and single optional parts and every list length and type selector: every '
          'truncation length, 6 extensions, every lost and every doubled byte; every byte of the first values set to 8 (thorough: '
          'all 256) values; every pair and every 4 adjacent bytes to extreme values; every kind labelled as every other; empty data')
ASSUMPTIONS = ['the extension is built with PyPy 3.9, the interpreter with which this sandbox can build it',
               'reads outside the object are those the address sanitizer sees: beyond the buffer of the object data']

PAIRS = ((0xff, 0xff), (0, 0), (0x7f, 0xff), (0xff, 0x7f))
MORE = ((0x80, 0), (0, 0x80), (1, 2), (3, 3), (1, 1), (2, 1), (1, 0xff))
QUADS = (b'\xff\xff\xff\xff', b'\0\0\0\0', b'\xff\xff\xff\x7f', b'\0\0\0\x80', b'\xff\xff\0\0', b'\0\0\x01\0',
         b'\xfe\xff\xff\xff', b'\0\0\0\x20')
EXTREME = (b'\xff\x7f', b'\0\x80', b'\x34\x01', b'\x35\x01', b'\x36\x01', b'\xcc\xfe', b'\x17\0', b'\xe9\xff', b'\x2c\x01')


def read(data, use_ext):
    """(document, object or None, verdict)"""
    f = plain.open_bytes(data, use_ext=use_ext)
    try:
        return f, f.read_object(c11.LEAVES + 1), 'read'
    except (MemoryError, RecursionError) as e:
        return f, None, type(e).__name__
    except Exception:
        return f, None, 'refused'


def check(ctx, cid, body, others=False):
    data = c11.document(cid, body, 'little')
    ctx.step(2)
    fe, oe, re_ = read(data, True)
    fp, op, rp = read(data, False)
    if re_ != rp:
        ctx.fail('%s by the compiled reader, %s by the other: %s' % (re_, rp, body.hex()[:400]))
    for f in (fe, fp):
        if f.reading or f.modified_objects:
            ctx.fail('the document is left reading or modified')
    if op is not None:
        if type(oe) is not type(op):
            ctx.fail('classes %s, %s' % (type(oe).__name__, type(op).__name__))
        d = c12.tdiff(values(oe), values(op))
        if d:
            ctx.fail('%s: %s' % (d, body.hex()[:400]))
    if others:
        if op is None and read_again(fe):
            ctx.fail('the second access gives an object')
        for i in (1, 2, 3, 4, 6):
            if plain.leaf_ref(fe.read_object(i)) != ('R', i):
                ctx.fail('object %d is not readable beside the damaged one' % i)
    ctx.impl(2)


def values(o):
    """every value, or what giving it raises (a reference to damaged data)"""
    c = plain.cid_of(o)
    if c in ('ATTR', 'PRLS', 'TMCS'):
        return c12.typed_object(o, c11.any_ref)
    out = {}
    for k in o.property_data.keys():
        out[k] = c12.typed(getattr(o, k), c11.any_ref)
    return out


def read_again(f):
    try:
        return f.read_object(c11.LEAVES + 1)
    except Exception:
        return None


def many(ctx, cid, bodies):
    for i, b in enumerate(bodies):
        check(ctx, cid, b, i % 16 == 0)


def cuts(body):
    out = [body[:n] for n in range(len(body))]
    out += [body + x for x in (b'\0', b'\x03', b'\x01', b'\xff', body[-8:], bytes(40))]
    out += [body[:n] + body[n + 1:] for n in range(len(body))]
    out += [body[:n] + body[n:n + 1] + body[n:] for n in range(len(body))]
    return out


def put(body, pos, b):
    return body[:pos] + b + body[pos + len(b):]


def changes(body, pos, thorough, first):
    vals = c11.values(body[pos], thorough)
    out = [put(body, pos, bytes(bytearray([x]))) for x in vals]
    if first or thorough:
        out += [put(body, pos, bytes(bytearray(p))) for p in PAIRS + (MORE if thorough else ())]
        out += [put(body, pos, q) for q in QUADS[:len(QUADS) if thorough else 4] if pos + 4 <= len(body)]
        out += [put(body, pos, q) for q in EXTREME if pos + 2 <= len(body)]
    return out


def shards(tier):
    out = []
    of = 8 if tier == 'thorough' else 2
    for cid in c12.kinds():
        for part in range(of):
            out.append({'w': 'byte', 'cid': cid, 'part': part, 'of': of})
            out.append({'w': 'cut', 'cid': cid, 'part': part, 'of': of})
        out.append({'w': 'label', 'cid': cid})
    big = ('DIDD', 'CDCI', 'FXPS', 'TKFX', 'CMPO', 'PRCL')
    out.sort(key=lambda s: s['cid'] not in big)
    return out


def run(shard, ctx):
    c12.require_ext()
    w, cid = shard['w'], shard['cid']
    if w == 'cut':
        for n, (k, v) in enumerate(c11.variants(cid, ctx.thorough)):
            if n % shard['of'] != shard['part']:
                continue
            body = spec.encode(cid, v, 'little')
            bs = cuts(body)
            for i in range(len(bs)):
                ctx.state((cid, k, i))
            for i in range(0, len(bs), 64):
                ctx.case('cut/%s/%s/%d' % (cid, k, i), many, ctx, cid, bs[i:i + 64])
    elif w == 'byte':
        for n, (k, v) in enumerate(c11.variants(cid, False)):
            if n > 1 and not ctx.thorough:
                break
            body = spec.encode(cid, v, 'little')
            for pos in range(len(body))[shard['part']::shard['of']]:
                bs = changes(body, pos, ctx.thorough and n < 2, n == 0)
                for x in range(len(bs)):
                    ctx.state((cid, k, 'b', pos, x))
                ctx.case('byte/%s/%s/%d' % (cid, k, pos), many, ctx, cid, bs)
    else:
        for other in cases.KINDS:
            if other == cid:
                continue
            vs = c11.variants(other, False)[:2]
            ctx.state((other, cid))
            ctx.case('label/%s/%s' % (other, cid), many, ctx, cid, [spec.encode(other, v, 'little') for k, v in vs])
        ctx.case('empty/%s' % cid, check, ctx, cid, b'', True)
