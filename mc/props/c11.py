# -*- coding: utf-8 -*-
"""C11: damaged object data is rejected, never misread."""
import io
import itertools
import struct

import avb

from mc import cases, docs, plain, spec

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of truncations, extensions, byte corruptions and class changes of every object kind on the '
             'real reader; verdict and values compared with an independent strict decoder')
RULE = 'distinct (kind, value, damage) cases'
BOUNDS = ('every kind in both byte orders, with all, none and single optional parts and every list length and type selector: '
          'every truncation length and 6 extensions; every byte of the default value set to 8 (thorough: all 256) values; every '
          'pair of adjacent bytes to 4 extreme values; every type selector set to unknown values with every run of up to 10 bytes behind '
          'it left out; every unknown optional part number with 7 contents; every kind labelled as every other; every byte of the chunk '
          'headers of a 27 object project; once more with the compiled reader for the kinds that have one')
ASSUMPTIONS = ['the compiled reader is covered by C13']

LEAVES = 4


def document(cid, body, order):
    """leaves 1-4, the damaged object, another leaf as the root"""
    chunks = []
    for i in range(1, LEAVES + 1):
        k, lv = spec.leaf(i)
        chunks.append((k, spec.encode(k, lv, order)))
    chunks.append((cid, body))
    k, lv = spec.leaf(6)
    chunks.append((k, spec.encode(k, lv, order)))
    return spec.container(chunks, 6, order)


def any_ref(o):
    """reference label of whatever object is there"""
    return ('R', o.instance_id) if hasattr(o, 'instance_id') else ('R', o.index)


def shallow(obj):
    """values of an object without reading what it refers to"""
    return plain.normalise(plain.cid_of(obj), plain.object_plain(obj, any_ref))


def verdict(cid, body, order, count):
    """('bad',), ('any',) or ('ok', value)"""
    if cid not in spec.SPECS:
        return ('bad', 'class')
    if cid == 'TRKG':
        return ('any',)
    try:
        v, lenient = spec.decode(cid, body, order, count)
    except spec.Reject as e:
        return ('bad', str(e))
    except spec.Lenient:
        return ('any',)
    except (OverflowError, ValueError, struct.error) as e:
        return ('any',)
    return ('any',) if lenient else ('ok', v)


def damaged_refs(v, n):
    """references that lead back to the object itself or the root"""
    found = set()
    plain.find_refs(v, found)
    return found


def check(ctx, cid, body, order, others=False):
    data = document(cid, body, order)
    want = verdict(cid, body, order, LEAVES + 2)
    ctx.step()
    f = plain.open_bytes(data)
    first = None
    try:
        obj = f.read_object(LEAVES + 1)
    except (MemoryError, RecursionError) as e:
        ctx.fail('%s while reading' % type(e).__name__)
    except Exception as e:
        if want[0] == 'ok':
            ctx.fail('well formed data is refused: %s %s' % (type(e).__name__, str(e)[:100]))
        obj = None
        first = e
    else:
        if want[0] == 'bad':
            ctx.fail('damaged data is read (%s): %s' % (want[1], body.hex()[:300]))
    if f.reading or f.modified_objects:
        ctx.fail('the document is left reading or modified')
    if want[0] == 'ok':
        v = want[1]
        refs = damaged_refs(v, LEAVES + 1)
        got = compare(ctx, obj, cid, v)
    elif obj is None and others:
        # it is refused again, even while the first error (and what the failing
        # code held) is kept, and everything else is readable
        try:
            f.read_object(LEAVES + 1)
        except Exception:
            pass
        else:
            ctx.fail('the second access gives an object')
    first = None
    if others:
        for i in (1, 2, 3, 4, 6):
            if plain.leaf_ref(f.read_object(i)) != ('R', i):
                ctx.fail('object %d is not readable beside the damaged one' % i)
    ctx.impl()


def compare(ctx, obj, cid, v):
    if plain.cid_of(obj) != cid:
        ctx.fail('read as %s' % plain.cid_of(obj))
    want = plain.normalise(cid, v)
    got = shallow(obj)
    d = plain.diff(got, want)
    if d:
        ctx.fail('fields differ from the bytes: ' + d)


def many(ctx, cid, bodies, order):
    for i, b in enumerate(bodies):
        check(ctx, cid, b, order, i % 16 == 0)


def variants(cid, thorough):
    """override dicts: all, none and single optional parts, structural choices"""
    v, dom, ext = spec.generate(cid)
    out = [{}]
    if ext:
        out.append(dict((p, False) for p in ext))
    for p in ext:
        out.append({p: False})
        if thorough:
            out.append(dict((q, False) for q in ext if q != p))
    for p, alts in dom:
        if cases.structural(p, alts):
            out += [{p: a} for a in alts]
    seen, res = set(), []
    for o in out:
        k = cases.key(o)
        if k in seen:
            continue
        seen.add(k)
        try:
            res.append((k, spec.generate(cid, o)[0]))
        except spec.Invalid:
            continue
    return res


QUICK = (0, 0xff, 0x7f, 0x80)


def values(b, thorough):
    if thorough:
        return [x for x in range(256) if x != b]
    s = set([0, 0xff, 0x80, b ^ 1, b ^ 0x80, (b + 1) & 255, 3, 5, LEAVES + 3, LEAVES + 4])
    s.discard(b)
    return sorted(s)


def truncations(ctx, cid, body, order):
    many(ctx, cid, [body[:n] for n in range(len(body))], order)
    many(ctx, cid, [body + x for x in (b'\0', b'\x03', b'\x01', b'\xff', body[-8:], bytes(40))], order)
    # bytes lost or doubled inside
    many(ctx, cid, [body[:n] + body[n + 1:] for n in range(len(body))], order)
    many(ctx, cid, [body[:n] + body[n:n + 1] + body[n:] for n in range(len(body))], order)


def directory(ctx, order, i, off, values_):
    """damage in the header of chunk i; every object is judged by the table
    that results"""
    d = docs.rich()
    data = bytearray(d.encode(order))
    p = spec.parse(bytes(data))
    pos = p.header_len + sum(8 + len(x[1]) for x in p.chunks[:i]) + off
    for val in values_:
        if data[pos] == val:
            continue
        b = bytearray(data)
        b[pos] = val
        judge(ctx, bytes(b), p, order)


def table(data, p, order):
    e = '<' if order == 'little' else '>'
    at = p.header_len
    out = []
    for i in range(p.count):
        if at + 8 > len(data):
            return None
        c = data[at:at + 4]
        n = struct.unpack(e + 'I', data[at + 4:at + 8])[0]
        out.append((c[::-1] if order == 'little' else c, at + 8, n))
        at += 8 + n
    return out


def judge(ctx, data, p, order):
    t = table(data, p, order)
    ctx.step()
    try:
        f = plain.open_bytes(data)
    except MemoryError:
        ctx.fail('MemoryError')
    except Exception:
        f = None
    ok = t is not None
    verdicts = []
    if t:
        for c, pos, n in t:
            body = data[pos:pos + n]
            try:
                cid = c.decode('ascii')
            except UnicodeDecodeError:
                cid = None
            verdicts.append(('bad', 'size') if len(body) != n else verdict(cid, body, order, p.count))
        ok = verdicts[p.root - 1][0] == 'ok'
        if verdicts[p.root - 1][0] == 'any':
            return
    if f is None:
        if ok:
            ctx.fail('a readable document is refused')
        return
    if not ok:
        ctx.fail('a document with a damaged root opens')
    for i, (c, pos, n) in enumerate(t, 1):
        try:
            o = f.read_object(i)
        except MemoryError:
            ctx.fail('MemoryError')
        except Exception as e:
            if verdicts[i - 1][0] == 'ok':
                ctx.fail('object %d is refused: %s' % (i, e))
            continue
        if verdicts[i - 1][0] == 'bad':
            ctx.fail('damaged object %d (%s) is read' % (i, verdicts[i - 1][1]))
        if verdicts[i - 1][0] == 'ok':
            if o.class_id != c:
                ctx.fail('object %d read as %s' % (i, o.class_id))
            w = plain.normalise(c.decode('ascii'), verdicts[i - 1][1])
            try:
                g = shallow(o)
            except Exception:
                continue    # it refers to a damaged object
            d = plain.diff(g, w)
            if d:
                ctx.fail('object %d: %s' % (i, d))
    ctx.impl()


def nested(ctx, order, name, body):
    """a damaged object in the middle of a project: everything else reads,
    reaching it raises each time, other references work"""
    d = docs.rich()
    i = d.names[name]
    want = [plain.normalise(cid, v) for cid, v in d.chunks]
    d.chunks[i - 1][1] = body
    f = plain.open_bytes(d.encode(order))
    for rnd in (0, 1):
        for k in range(1, len(d.chunks) + 1):
            try:
                o = f.read_object(k)
            except Exception:
                if k != i:
                    ctx.fail('object %d is not readable' % k)
                continue
            if k == i:
                ctx.fail('the damaged object is read')
            try:
                g = shallow(o)
            except Exception:
                continue
            x = plain.diff(g, want[k - 1])
            if x:
                ctx.fail('object %d: %s' % (k, x))
            ctx.step()
    try:
        plain.save_bytes(f, order, ctx.path())
    except Exception:
        pass
    else:
        ctx.fail('a document with a damaged object was saved')
    ctx.impl()


def relabel(ctx, cid, other, order):
    """data of one kind in a chunk of another"""
    for k, v in variants(cid, False)[:2]:
        check(ctx, other, spec.encode(cid, v, order), order, True)


def unknown(ctx, order):
    names = ['ZZZZ', 'fill', 'FIL ', '    ', 'LLIF', 'OBJD', '\0\0\0\0', 'FILM', 'CMP0', 'TRKG', 'ABIM', 'XXXX', 'BVsT', 'BVST', 'AVBF']
    for n in names:
        for cid in ('FILL', 'ATTR', 'TKPA'):
            body = spec.encode(cid, spec.generate(cid)[0], order)
            if n == 'TRKG':
                continue
            check(ctx, n, body, order, True)
        check(ctx, n, b'', order, True)
        check(ctx, n, b'\x03', order, True)


class Marked(spec.Enc):
    """an encoder that notes where the type selectors are"""

    def __init__(self, v, order, refmap=None):
        spec.Enc.__init__(self, v, order, refmap)
        self.marks = []

    def sub(self, v):
        c = Marked(v, self.order, self.refmap)
        c.out = self.out
        c.marks = self.marks
        return c

    def int(self, kind, name, dom=None):
        at = len(self.data())
        spec.Enc.int(self, kind, name, dom)
        if dom:
            self.marks.append((at, len(self.data()), tuple(dom)))


def marked(cid, v, order):
    c = Marked(v, order)
    spec.SPECS[cid](c)
    return c.data(), c.marks


def selector(ctx, cid, body, order, mark, thorough):
    """a selector of no known kind, what follows is whole, or any run of bytes
    behind it is left out"""
    a, b, dom = mark
    n = b - a
    alts = set([0, max(dom) + 1, 9, 1 << (8 * n - 1), (1 << 8 * n) - 1, (max(dom) << 8 | 1) & ((1 << 8 * n) - 1)])
    if thorough:
        alts |= set(range(32)) | set([255, 256, 257])
    out = []
    for x in sorted(alts - set(dom)):
        field = x.to_bytes(n, order)
        for q in range(b, min(len(body), b + (120 if thorough else 40)) + 1):
            for w in range(1, 20 if thorough else 11):
                out.append(body[:a] + field + body[b:q] + body[q + w:])
        out.append(body[:a] + field + body[b:])
    many(ctx, cid, out, order)


def optional(ctx, cid, body, order, thorough):
    """an optional part of no known number, with and without contents"""
    end = len(body) - 1
    tails = [b'', b'\x42\x01', b'\x41\x01', b'\x45\0\0', b'\x48\0\0\0\0', b'\x47\0\0\0\0', b'\x4d' + bytes(8)]
    tags = range(256)
    many(ctx, cid, [body[:end] + bytes(bytearray([1, t])) + x + body[end:] for t in tags for x in tails], order)
    many(ctx, cid, [body[:end] + bytes(bytearray([t])) + body[end:] for t in tags], order)
    for t in tags if thorough else (9, 0xff):
        many(ctx, cid, [body[:q] + bytes(bytearray([1, t])) + body[q:] for q in range(end)], order)


def shards(tier):
    out = []
    for cid in cases.KINDS:
        for order in spec.ORDERS:
            out.append({'w': 'cut', 'cid': cid, 'order': order})
            out.append({'w': 'sel', 'cid': cid, 'order': order})
            for part in range(8 if tier == 'thorough' else 1):
                out.append({'w': 'byte', 'cid': cid, 'order': order, 'part': part, 'of': 8 if tier == 'thorough' else 1})
    for order in spec.ORDERS:
        for part in range(8):
            out.append({'w': 'dir', 'order': order, 'part': part})
            out.append({'w': 'label', 'order': order, 'part': part})
        out.append({'w': 'misc', 'order': order})
    return out


def ext_shards(tier):
    return cases.compiled(s for s in shards(tier) if 'cid' in s)


def run(shard, ctx):
    w, order = shard['w'], shard['order']
    if w == 'cut':
        cid = shard['cid']
        for n, (k, v) in enumerate(variants(cid, ctx.thorough)):
            if not ctx.thorough and n > 1 and (order == 'big') != (n % 2 == 1):
                continue
            body = spec.encode(cid, v, order)
            for i in range(len(body) * 3 + 6):
                ctx.state((cid, order, k, i))
            ctx.case('cut/%s/%s/%s' % (cid, order, k), truncations, ctx, cid, body, order)
    elif w == 'sel':
        cid = shard['cid']
        seen = set()
        for n, (k, v) in enumerate(variants(cid, False)):
            body, marks = marked(cid, v, order)
            for m in marks:
                x = (body[m[1]:], m[2])
                if x in seen:
                    continue
                seen.add(x)
                ctx.state((cid, order, k, 'sel', m[0]))
                ctx.case('sel/%s/%s/%s/%d' % (cid, order, k, m[0]), selector, ctx, cid, body, order, m, ctx.thorough)
            if n < 2:
                for t in range(256):
                    ctx.state((cid, order, k, 'opt', t))
                ctx.case('opt/%s/%s/%s' % (cid, order, k), optional, ctx, cid, body, order, ctx.thorough)
    elif w == 'byte':
        cid = shard['cid']
        vs = variants(cid, False)
        for n, (k, v) in enumerate(vs):
            if n > 1 and not ctx.thorough:
                break
            body = spec.encode(cid, v, order)
            for pos in range(len(body))[shard['part']::shard['of']]:
                vals = values(body[pos], ctx.thorough and n < 2)
                bs = [body[:pos] + bytes(bytearray([x])) + body[pos + 1:] for x in vals]
                if n == 0:
                    for a, b in ((0xff, 0xff), (0, 0), (0x7f, 0xff), (0xff, 0x7f)) + (((0x80, 0), (0, 0x80), (1, 2), (3, 3)) if ctx.thorough else ()):
                        bs.append(body[:pos] + bytes(bytearray([a, b])) + body[pos + 2:])
                for x in range(len(bs)):
                    ctx.state((cid, order, k, 'b', pos, x))
                ctx.case('byte/%s/%s/%s/%d' % (cid, order, k, pos), many, ctx, cid, bs, order)
    elif w == 'label':
        for cid in cases.KINDS[shard['part']::8]:
            for other in cases.KINDS:
                if other == cid:
                    continue
                ctx.state((cid, other, order))
                ctx.case('label/%s/%s/%s' % (cid, other, order), relabel, ctx, cid, other, order)
    elif w == 'dir':
        n = len(docs.rich().chunks)
        for i in range(n)[shard['part']::8]:
            for off in range(8):
                ctx.state((i, off, order))
                vals = range(256) if ctx.thorough else (0, 1, 2, 3, 7, 8, 9, 16, 31, 64, 0x7f, 0x80, 0xfe, 0xff, 0x41, 0x46)
                ctx.case('dir/%s/%d/%d' % (order, i, off), directory, ctx, order, i, off, vals)
    else:
        ctx.case('unknown/%s' % order, unknown, ctx, order)
        d = docs.rich()
        for name in sorted(d.names):
            cid, v = d.chunks[d.names[name] - 1]
            if name == 'bin':
                continue
            body = spec.encode(cid, v, order)
            for j, b in enumerate((b'', body[:-1], body + b'\0', b'\x02\x07' + body[2:], body[:len(body) // 2])):
                ctx.state((name, j, order))
                ctx.case('nested/%s/%s/%d' % (name, order, j), nested, ctx, order, name, b)
