# -*- coding: utf-8 -*-
"""Bounded enumeration of the value space of one object layout.

A case is an override dict for spec.generate; its key is the canonical text of
that dict.  Structural paths (list lengths, type selectors, flags that change
the layout, presence of optional groups) are combined with every alternative of
every other path; all alternatives are combined pairwise in the thorough tier."""
from __future__ import print_function

import itertools
import struct
import zlib

from . import spec

TYPE_FIELDS = ('type', 'value_type', 'large_bin')
ABSTRACT = ('TRKG',)   # base layout; only stored as part of the kinds built on it
KINDS = sorted(k for k in spec.SPECS if k not in ABSTRACT)



def structural(path, alts):
    last = path.split('.')[-1]
    return path.endswith('#') or last in TYPE_FIELDS


def key(over):
    return ','.join('%s=%r' % (k, over[k]) for k in sorted(over))


def overrides(cid, tier, full_pairs=None):
    """yields override dicts, without repetition"""
    if full_pairs is None:
        full_pairs = tier == 'thorough'
    seen = set()

    def emit(o):
        k = key(o)
        if k in seen:
            return ()
        seen.add(k)
        return (o,)
    v, dom, ext = spec.generate(cid)
    for o in emit({}):
        yield o
    structs = [(p, a) for p, a in dom if structural(p, a)]
    # optional groups
    n = len(ext)
    limit = 10 if tier == 'thorough' else 7
    if n <= limit:
        for r in range(1, n + 1):
            for c in itertools.combinations(ext, r):
                for o in emit(dict((p, False) for p in c)):
                    yield o
    else:
        for r in ((1, 2, 3) if tier == 'thorough' and n <= 20 else (1, 2)):
            for c in itertools.combinations(ext, r):
                for o in emit(dict((p, False) for p in c)):
                    yield o
                for o in emit(dict((p, False) for p in ext if p not in c)):
                    yield o
    for o in emit(dict((p, False) for p in ext)):
        yield o
    # singles
    for p, alts in dom:
        for a in alts:
            for o in emit({p: a}):
                yield o
    # structural choices combined with each other and with every single
    base = []
    for p, alts in structs:
        for a in alts:
            base.append({p: a})
    for (p, a), (q, b) in itertools.combinations(structs, 2):
        for x in a:
            for y in b:
                base.append({p: x, q: y})
    for s in base:
        try:
            v2, dom2, ext2 = spec.generate(cid, s)
        except spec.Invalid:
            continue
        for o in emit(s):
            yield o
        for o in emit(dict(list(s.items()) + [(p, False) for p in ext2])):
            yield o
        for p in ext2:
            for o in emit(dict(list(s.items()) + [(p, False)])):
                yield o
        if len(s) == 1 or len(dom2) <= 24:
            for p, alts in dom2:
                if p in s:
                    continue
                for a in alts:
                    o = dict(s)
                    o[p] = a
                    for o in emit(o):
                        yield o
    # pairs
    alts2 = [(p, a) for p, al in dom for a in al]
    small = len(alts2) <= (60 if tier != 'thorough' else 130)
    if full_pairs or small:
        for (p, a), (q, b) in itertools.combinations(alts2, 2):
            if p != q:
                for o in emit({p: a, q: b}):
                    yield o


def counts(tier):
    return dict((c, sum(1 for _ in overrides(c, tier))) for c in KINDS)


def weight(cid):
    v, dom, ext = spec.generate(cid)
    return sum(len(a) for p, a in dom) + 40


def kind_shards(tier, kinds=None, orders=spec.ORDERS, per=250, extra=None):
    """shards: {'cid', 'order', 'part', 'of'}"""
    out = []
    for cid in kinds or KINDS:
        w = weight(cid)
        of = max(1, w // per)
        if tier == 'thorough':
            of *= 6
        for order in orders:
            for part in range(of):
                d = {'cid': cid, 'order': order, 'part': part, 'of': of}
                if extra:
                    d.update(extra)
                out.append(d)
    out.sort(key=lambda s: -weight(s['cid']) // s['of'])
    return out


def compiled(shards):
    """the shards for which the compiled reader is at work"""
    from .props import c12
    return [s for s in shards if s.get('order', 'little') == 'little' and s.get('cid', 'FILL') in c12.READERS]


def in_part(k, shard):
    return shard['of'] == 1 or zlib.crc32(k.encode('utf-8', 'backslashreplace')) % shard['of'] == shard['part']


def consistent(o, dom, ext):
    """every choice made by o exists in the value it leads to"""
    if not o:
        return True
    left = set(o)
    left.difference_update(ext)
    if left:
        for p, alts in dom:
            if p in left:
                x = o[p]
                if not any(type(a) is type(x) and a == x for a in alts):
                    return False
                left.discard(p)
                if not left:
                    break
    return not left


def each(shard, tier, **kw):
    """-> (case key, override, value)"""
    cid = shard['cid']
    for o in overrides(cid, tier, **kw):
        k = key(o)
        if in_part(k, shard):
            try:
                v, dom, ext = spec.generate(cid, o)
            except spec.Invalid:
                continue
            if not consistent(o, dom, ext):
                continue
            yield '%s/%s/%s' % (cid, shard['order'], k), o, v


LIST_LENGTHS = (4, 5, 8, 9, 16, 17, 33, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1025)
BLOB_LENGTHS = (7, 8, 15, 16, 17, 127, 128, 255, 257, 512, 1000, 1024, 4095, 4096, 4097, 8193, 32767, 32768, 65534, 65535, 65536,
                65537, 131073)


def longs(shard, deep=False):
    """-> (case key, override, value): lists and byte strings of many lengths"""
    cid = shard['cid']
    bases = [{}]
    for p, alts in spec.generate(cid)[1]:
        if p.split('.')[-1] in TYPE_FIELDS:
            bases += [{p: a} for a in alts]
    seen = set()
    for b in bases:
        try:
            dom = spec.generate(cid, b)[1]
        except spec.Invalid:
            continue
        for p, alts in dom:
            if p in b:
                continue
            if p.endswith('#') and 3 in alts:
                vals = [(n, n) for n in LIST_LENGTHS]
            elif bytes(bytearray(range(256))) in alts:
                vals = [(n, bytes(bytearray((i * 5 + i // 251 + n) & 255 for i in range(n)))) for n in BLOB_LENGTHS]
            else:
                continue
            if p in seen and not deep:
                continue
            seen.add(p)
            for n, x in vals:
                if n > 300 and not deep and p.count('.') > 1:
                    continue
                k = '%s/%s/%s/length %s %d' % (cid, shard['order'], key(b), p, n)
                if not in_part(k, shard):
                    continue
                o = dict(b)
                o[p] = x
                try:
                    v = spec.generate(cid, o)[0]
                    spec.encode(cid, v, 'little')
                except (spec.Invalid, struct.error):
                    continue
                yield k, o, v


NUMBERS = sorted(set(list(range(2, 34)) + [48, 50, 59, 60, 64, 72, 100, 120, 127, 128, 200, 255, 256, 257, 1000, 4095,
                 4096, 5994, 23976, 24000, 29970, 30000, 44100, 48000, 65535, 65536, 0x4949, 0x4D4D, 0x49494949,
                 0x4D4D4D4D, -2, -3, -4, -8, -128, -129, -32768, -32769, 0x7FFFFF, 0xFFFFFF] +
                 [1 << b for b in range(64)] + [(1 << b) - 1 for b in range(5, 63, 8)]))


def numbers(shard):
    """-> (case key, override, value): each whole number of the kind alone takes
    all small values, single bits and numbers with a meaning"""
    cid = shard['cid']
    for p, alts in spec.generate(cid)[1]:
        if p.endswith('#') or p.split('.')[-1] in TYPE_FIELDS or not alts:
            continue
        if any(type(a) is not int for a in alts) or 0 not in alts or 1 not in alts or len(alts) < 5:
            continue
        for n in NUMBERS:
            if n in alts or not min(alts) <= n <= max(alts):
                continue
            k = '%s/%s/number %s %d' % (cid, shard['order'], p, n)
            if not in_part(k, shard):
                continue
            try:
                v = spec.generate(cid, {p: n})[0]
                spec.encode(cid, v, 'little')
            except (spec.Invalid, struct.error):
                continue
            yield k, {p: n}, v


def every(shard, tier, **kw):
    return itertools.chain(each(shard, tier, **kw), longs(shard), numbers(shard))


def without_locks(shard):
    """-> (case key, value): tracks of which some or all hold no lock number"""
    cid = shard['cid']
    dom = dict(spec.generate(cid)[1])
    if 'tracks#' not in dom:
        return
    for n in (1, 2, 3):
        full = spec.generate(cid, {'tracks#': n})[0]
        if not all('lock_number' in t for t in full['tracks']):
            return
        for bits in range(1, 1 << n):
            k = '%s/%s/no lock number %d %d' % (cid, shard['order'], n, bits)
            if in_part(k, shard):
                yield k, dict(full, tracks=[dict((a, b) for a, b in t.items() if a != 'lock_number' or not bits >> i & 1)
                                            for i, t in enumerate(full['tracks'])])
