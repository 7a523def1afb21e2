# -*- coding: utf-8 -*-
"""C27: the header and chunk directory are read strictly and agree with the bytes."""
import binascii
import gc
import io
import itertools
import os
import struct
import tempfile

import avb

from mc import docs, many, plain, spec

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of header corruptions and chunk directories on the real reader, verdict and content compared '
             'with an independent container parser')
RULE = 'distinct files'
BOUNDS = ('every byte of a 3 object document set to every value, every truncation and extension, all object count / root pairs '
          '0..8 and extreme ones, both byte orders; all chunk directories of up to 3 chunks over 7 classes and 6 sizes; '
          '25 ways to hand over a file; all access orders of 4 chunks; every save time byte pattern; files whose objects lie behind '
          'one to three chunks of up to 4 GiB; directories of up to 70000 chunks with the root at the positions around each power of two')
ASSUMPTIONS = ['free parts of the header (save time text, creator, reserved bytes, the byte order mark inside the header '
               'disagreeing with the one in front) and bytes behind the last object may be anything',
               'damage outside the header and root object shows when the object is accessed (C11)']


class No(Exception):
    pass


def verdict(data):
    """(True, info) valid, (False, why) refused, (None, info) either"""
    p = 0

    def take(n):
        nonlocal p
        if p + n > len(data):
            raise No('ends early')
        p += n
        return data[p - n:p]
    try:
        m = take(2)
        if m == b'\x06\x00':
            order, e = 'little', '<'
        elif m == b'\x00\x06':
            order, e = 'big', '>'
        else:
            raise No('byte order')

        def num(f):
            return struct.unpack(e + f, take(struct.calcsize(e + f)))[0]

        def cc():
            b = take(4)
            return b[::-1] if order == 'little' else b

        def text():
            n = num('H')
            return take(n) if n != 0xFFFF else b''
        if take(6) != b'Domain':
            raise No('magic')
        if cc() != b'OBJD':
            raise No('OBJD')
        if text().strip(b'\0') != b'AObjDoc':
            raise No('AObjDoc')
        if take(1) != b'\x04':
            raise No('version')
        free = False
        text()
        count, root = num('I'), num('I')
        mark = take(4)
        if mark not in (b'IIII', b'MMMM'):
            raise No('mark')
        if mark != (b'IIII' if order == 'little' else b'MMMM'):
            free = True
        stamp = num('I')
        take(4)
        if cc() != b'ATob' or cc() != b'ATve':
            raise No('ATob')
        creator = text().decode('mac-roman')
        take(16)
        top = p
        if not 0 < root <= count:
            raise No('root index')
        chunks = [(b'OBJD', 8, top - 8)]
        if count > len(data):
            raise No('too many objects')
        for i in range(count):
            c = cc()
            n = num('I')
            chunks.append((c, p, n))
            p += n
    except No as x:
        return False, str(x)
    c, pos, n = chunks[root]
    body = data[pos:pos + n]
    if len(body) != n:
        return False, 'root object cut off'
    try:
        cid = c.decode('ascii')
    except UnicodeDecodeError:
        return False, 'root class'
    if cid not in spec.NAMES or cid in ('TRKG',):
        return (False if cid != 'TRKG' else None), 'root class'
    try:
        v, lenient = spec.decode(cid, body, order, count)
    except spec.Reject as x:
        return False, 'root object: %s' % x
    except spec.Lenient:
        return None, None
    info = (order, count, root, stamp, creator, chunks, cid, v)
    if lenient:
        return None, None
    return (None if free else True), info


def ref(o):
    return ('R', o.instance_id) if hasattr(o, 'instance_id') else ('R', o.index)


def root_plain(o):
    """values without following references"""
    d = {}
    for k in o.property_data:
        v = o.property_data[k]
        d[k] = v
    return d


def listing(ctx, f, data, info):
    order, count, root, stamp, creator, chunks, cid, v = info
    got = list(f.chunks())
    if len(got) != count + 1:
        ctx.fail('%d chunks listed, %d in the file' % (len(got) - 1, count))
    for i, (g, (c, pos, n)) in enumerate(zip(got, chunks)):
        if (g.class_id, g.pos, g.size) != (c, pos, n):
            ctx.fail('chunk %d is listed as %s, the file has %s' % (i, (g.class_id, g.pos, g.size), (c, pos, n)))
        want = data[pos:pos + n]
        if bytes(g.read()) != want:
            ctx.fail('chunk %d: other data than in the file' % i)
        if i and len(want) == n and binascii.unhexlify(g.hex()) != data[pos - 8:pos + n]:
            ctx.fail('chunk %d: the hex dump is %s..., the file has %s...' % (
                i, g.hex()[:24], binascii.hexlify(data[pos - 8:pos + 4])))
        h = f.read_chunk(i)
        if (h.class_id, h.pos, h.size) != (c, pos, n):
            ctx.fail('chunk %d read by index is %s' % (i, (h.class_id, h.pos, h.size)))
        if i:
            r = avb.utils.AVBObjectRef(f, i)
            if not r.valid or r.class_id != c:
                ctx.fail('reference to chunk %d is %r' % (i, r))
    for i in (count + 1, count + 2, 0x7FFFFFFF, 0xFFFFFFFF):
        r = avb.utils.AVBObjectRef(f, i)
        if r.valid or r.class_id is not None:
            ctx.fail('reference to chunk %d of %d is %r' % (i, count, r))
        repr(r)
    if avb.utils.AVBObjectRef(f, 0).value is not None:
        ctx.fail('null reference')
    ctx.step(len(got))


def check(ctx, data, full=True):
    want, info = verdict(data)
    ctx.step()
    try:
        f = avb.open(io.BytesIO(data))
    except MemoryError:
        ctx.fail('MemoryError while opening')
    except Exception as e:
        if want:
            ctx.fail('a valid file is refused: %s %s' % (type(e).__name__, str(e)[:100]))
        return
    if want is False:
        ctx.fail('an invalid file opens (%s)' % info)
    if info is None:
        return
    order, count, root, stamp, creator, chunks, cid, v = info
    if f.ictx.byte_order != order:
        ctx.fail('byte order %s' % f.ictx.byte_order)
    if f.root_index != root or plain.cid_of(f.content) != cid or f.content.instance_id != root:
        ctx.fail('root is object %s %s, the file says %d %s' % (f.root_index, plain.cid_of(f.content), root, cid))
    if plain.to_ts(f.last_save) != stamp:
        ctx.fail('saved at %s, the file says %d' % (f.last_save, stamp))
    if f.creator_version.rstrip(u' \0').lstrip(u'\0') != creator.rstrip(u' \0').lstrip(u'\0'):
        ctx.fail('creator %r, the file says %r' % (f.creator_version, creator))
    if full:
        listing(ctx, f, data, info)
    got = plain.norm(v)
    ctx.impl()


def small(order, root=None):
    d = docs.Doc()
    a = d.add('TKPA', settings=b'leaf1')
    b = d.add('FILL', length=7, media_kind_id=1)
    d.put('ATTR', {'$items': [docs.attr(u'n', 7), docs.attr(u'o', docs.R(a)), docs.attr(u'p', docs.R(b))]})
    return d.encode(order, root)


def header_len(order):
    return len(spec.header(order, 0, 0))


def flip(ctx, data, pos, values):
    for b in values:
        if b == data[pos]:
            continue
        check(ctx, data[:pos] + bytes(bytearray([b])) + data[pos + 1:], full=b % 16 == 0)


def cut(ctx, data, ks):
    for k in ks:
        check(ctx, data[:k])


def grow(ctx, data, extra):
    check(ctx, data + extra)


COUNTS = list(range(0, 9)) + [255, 256, 65535, 65536, 1 << 24, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff]


def counts(ctx, order, count, root):
    data = bytearray(small(order))
    at = data.index(b'IIII' if order == 'little' else b'MMMM') - 8
    e = '<' if order == 'little' else '>'
    data[at:at + 8] = struct.pack(e + 'II', count, root)
    check(ctx, bytes(data))


def stamps(ctx, order):
    for k in range(32):
        for d in (-1, 0, 1):
            t = max(0, min((1 << 32) - 1, (1 << k) + d))
            data = spec.container([('TKPA', spec.encode('TKPA', {'settings': b'leaf1'}, order))], 1, order, timestamp=t)
            check(ctx, data)


def creators(ctx, order):
    for v in [u'', u'a', u'x' * 30, u'x' * 29, u'\xe9\u2202', u'  lead', u'pyavb 0.1.0', u'Avid Media Composer 2018.12 \xae'] + [
            bytes(bytearray([c])).decode('mac-roman') + u'q' for c in range(1, 256)]:
        data = spec.container([('TKPA', spec.encode('TKPA', {'settings': b'leaf1'}, order))], 1, order, version=v)
        check(ctx, data)
        if v == u'' or v != v.strip():
            continue
        # what a save writes is what the next open shows
        f = avb.open(io.BytesIO(data))
        g = plain.open_bytes(plain.save_bytes(f, order, ctx.path()))
        f2 = avb.open()
        f2.creator_version = v
        h = plain.open_bytes(plain.save_bytes(f2, order, ctx.path()))
        for x in (g, h):
            if x.creator_version.rstrip() != v:
                ctx.fail('creator %r is saved as %r' % (v, x.creator_version))


CLASSES = [b'FILL', b'ZZZZ', b'\xff\x80ab', b'OBJD', b'    ', b'ABIN', b'\0\0\0\0']
SIZES = [0, 1, 2, 8, 300, 65537]


def directory(ctx, order, spec_list, at):
    body = [(c, bytes(bytearray((i * 7 + n * 3 + 1) & 255 for i in range(n)))) for c, n in spec_list]
    root = ('ATTR', spec.encode('ATTR', {'$items': [docs.attr(u'n', 7)]}, order))
    body.insert(at, root)
    data = spec.container(body, at + 1, order)
    check(ctx, data)
    f = avb.open(io.BytesIO(data))
    info = verdict(data)[1]
    # raw reads in any order, with an object read between
    for perm in itertools.permutations(range(1, len(body) + 1)):
        cs = list(f.chunks())
        for i in perm:
            if bytes(cs[i].read()) != body[i - 1][1]:
                ctx.fail('chunk %d has other data' % i)
            f.read_object(at + 1)
    ids = set(bytes(c) if isinstance(c, bytes) else c.encode() for c, _ in body)
    if b'ATTR' in ids:
        got = list(f.iter_class_ids([b'ATTR']))
        if [o.instance_id for o in got] != [at + 1] or got[0] is not f.content:
            ctx.fail('class iteration found %r' % [o.instance_id for o in got])
    if list(f.iter_class_ids([b'SEQU'])) or list(f.iter_class_ids([])):
        ctx.fail('class iteration found objects that are not there')
    # classes that cannot be read are reported when they are reached
    for c in set(c for c, _ in spec_list):
        if c == b'OBJD':
            continue
        try:
            list(f.iter_class_ids([c]))
        except Exception:
            continue
        ctx.fail('class iteration passed over a damaged %r object' % c)


def crowd(ctx, order, n):
    """a long directory with the root anywhere"""
    root = spec.encode('ATTR', {'$items': [docs.attr(u'n', 7)]}, order)
    cls = (b'ZZZZ', b'FILL', b'OTHR')
    body = [(cls[i % 3], b'abcdefg'[:i % 5]) for i in range(n)]
    start = len(spec.header(order, 1, 1))
    # some places are enough, the directory is read for each of them
    for r in many.picks(n)[::1 if n < 1000 else 4 if n < 10000 else 12]:
        all = body[:r] + [(b'ATTR', root)] + body[r + 1:]
        data = spec.container([(c.decode(), b) for c, b in all], r + 1, order)
        f = avb.open(io.BytesIO(data))
        if list(f.content.items()) != [(u'n', 7)] or f.content.instance_id != r + 1:
            ctx.fail('root %d of %d is %r' % (r + 1, n, f.content))
        cs = list(f.chunks())[1:]
        if len(cs) != n:
            ctx.fail('%d chunks of %d' % (len(cs), n))
        at = start
        for i, (c, b) in enumerate(all):
            if (bytes(cs[i].class_id), cs[i].pos, cs[i].size) != (c, at + 8, len(b)):
                ctx.fail('chunk %d of %d is %r' % (i + 1, n, (cs[i].class_id, cs[i].pos, cs[i].size)))
            at += 8 + len(b)
        for i in many.picks(n):
            if bytes(cs[i].read()) != all[i][1]:
                ctx.fail('chunk %d of %d has other data' % (i + 1, n))
        if [o.instance_id for o in f.iter_class_ids([b'ATTR'])] != [r + 1]:
            ctx.fail('class iteration does not find the root')
        ctx.step(n)
    ctx.impl()


def iteration(ctx, order, wanted):
    """class iteration lists exactly the objects of the classes, in order"""
    d = docs.rich()
    f = plain.open_bytes(d.encode(order))
    want = [i for i, (cid, v) in enumerate(d.chunks, 1) if cid.encode() in wanted]
    for cont in (list(wanted), tuple(wanted), set(wanted)):
        got = []
        for o in f.iter_class_ids(cont):
            got.append(o.instance_id)
            # other reads between the steps
            f.read_object(1 + len(got) % len(d.chunks))
            f.read_chunk(2).read()
        if got != want:
            ctx.fail('iterating %s lists %s, expected %s' % (wanted, got, want))
        ctx.step()


def everything(f):
    out = [f.root_index, f.last_save, f.creator_version]
    for c in f.chunks():
        out.append((c.class_id, c.pos, c.size, bytes(c.read())))
    for i in range(1, len(out) - 3):
        o = f.read_object(i)
        out.append(plain.normalise(plain.cid_of(o), plain.object_plain(o, ref)))
    return out


class Minimal(object):
    """only what the reader asks a file object for"""

    def __init__(self, data):
        self._b = io.BytesIO(data)
        for n in ('read', 'readinto', 'seek', 'tell', 'close'):
            setattr(self, n, getattr(self._b, n))


def ways(path, data):
    b = []
    for n in (0, 1, 2, 3, 7, 8, 16, 31, 512, 8192, 1 << 20, -1):
        b.append(('path buffering %d' % n, lambda n=n: avb.open(path, buffering=n)))
    b += [('path', lambda: avb.open(path)), ('str', lambda: avb.open(str(path))),
          ('bytes path', lambda: avb.open(path.encode())),
          ('file', lambda: avb.open(open(path, 'rb'))), ('raw', lambda: avb.open(open(path, 'rb', buffering=0))),
          ('bytesio', lambda: avb.open(io.BytesIO(data))), ('minimal', lambda: avb.open(Minimal(data))),
          ('update', lambda: avb.open(open(path, 'r+b'))), ('random', lambda: avb.open(io.BufferedRandom(io.FileIO(path, 'r+')))),
          ('keyword', lambda: avb.open(fileobject=path, buffering=64, use_ext=False)),
          ('noext', lambda: avb.open(io.BytesIO(data), use_ext=False)),
          ('spooled', lambda: spool(data)), ('temporary', lambda: temporary(data, path))]
    return b


def spool(data):
    t = tempfile.SpooledTemporaryFile(max_size=1 << 20)
    t.write(data)
    t.seek(0)
    if not hasattr(t, 'readinto'):
        return avb.open(io.BytesIO(data))
    return avb.open(t)


def temporary(data, path):
    t = tempfile.TemporaryFile(dir=os.path.dirname(path))
    t.write(data)
    t.seek(0)
    return avb.open(t)


def handing(ctx, order):
    data = docs.rich().encode(order)
    p = ctx.path('in.avb')
    with open(p, 'wb') as g:
        g.write(data)
    want = everything(avb.open(io.BytesIO(data)))
    out = {}
    for o in spec.ORDERS:
        out[o] = plain.save_bytes(avb.open(io.BytesIO(data)), o, ctx.path())
    for name, fn in ways(p, data):
        f = fn()
        got = everything(f)
        if got != want:
            i = next(i for i, (a, b) in enumerate(zip(got, want)) if a != b)
            ctx.fail('%s: entry %d differs' % (name, i))
        for o in spec.ORDERS:
            if plain.save_bytes(f, o, ctx.path()) != out[o]:
                ctx.fail('%s: saves other bytes' % name)
        f.close()
        with fn() as f:
            f.content
        ctx.step()
    ctx.impl()


def inside(ctx, order, skip):
    """a document that starts inside a larger file object"""
    data = docs.rich().encode(order)
    b = io.BytesIO(bytes(skip) + data)
    b.seek(skip)
    f = avb.open(b)
    want = everything(avb.open(io.BytesIO(data)))
    got = everything(f)
    for a, w in zip(got, want):
        if isinstance(a, tuple) and len(a) == 4:
            a = (a[0], a[1] - skip) + a[2:]
        if a != w:
            ctx.fail('a document at offset %d reads differently' % skip)


class Holes(io.RawIOBase):
    """a file of many gigabytes, zero but for a few pieces"""

    def __init__(self, pieces, size):
        self._p, self._n, self._at = pieces, size, 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self._at

    def seek(self, n, whence=0):
        n += (0, self._at, self._n)[whence]
        if n < 0:
            raise ValueError('negative position')
        self._at = n
        return n

    def readinto(self, b):
        n = max(0, min(len(b), self._n - self._at))
        if n > 1 << 26:
            raise MemoryError('a chunk that is never used is read')
        out = bytearray(n)
        for start, d in self._p:
            lo, hi = max(start, self._at), min(start + len(d), self._at + n)
            if lo < hi:
                out[lo - self._at:hi - self._at] = d[lo - start:hi - start]
        b[:n] = bytes(out)
        self._at += n
        return n


def moved(v, new):
    """the value with references by the new numbers"""
    if isinstance(v, tuple) and v and v[0] == 'R':
        return ('R', new[v[1]] if v[1] else 0)
    if isinstance(v, dict):
        return dict((k, moved(x, new)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return type(v)(moved(x, new) for x in v)
    return v


FAR = (0x10000, 0x7fffffe0, 0x7fffffff, 0x80000000, 0xffffffff)


def far(ctx, order, sizes, wrap):
    """chunks that lie far behind the start of the file"""
    d = docs.rich()
    n = len(d.chunks)
    at = dict((n - i, s) for i, s in enumerate(sizes))     # the hole in front of the new chunk n - i
    new, k = {}, 0
    for i in range(1, n + 1):
        k += 1 + (i in at)
        new[i] = k
    body = []
    for i, (cid, v) in enumerate(d.chunks, 1):
        if i in at:
            body.append((None, at[i]))
        body.append((cid.encode(), spec.encode(cid, moved(v, new), order)))
    head = spec.header(order, len(body), new[n])
    e = '<' if order == 'little' else '>'
    pieces, pos, want = [(0, head)], len(head), []
    for c, b in body:
        c, size = (b'ZZZZ', b) if c is None else (c, len(b))
        pieces.append((pos, (c[::-1] if order == 'little' else c) + struct.pack(e + 'I', size)))
        want.append((c, pos + 8, size))
        pos += 8
        if size != b:
            pieces.append((pos, b))
        pos += size
    f = Holes(pieces, pos)
    f = avb.open(io.BufferedReader(f, 1 << 13) if wrap else f)
    got = list(f.chunks())
    if [(c.class_id, c.pos, c.size) for c in got[1:]] != want:
        ctx.fail('chunks are listed at %s' % [x.pos for x in got[1:]][-4:])
    for i, (c, b) in enumerate(body, 1):
        if c is None:
            continue
        for g in (got[i], f.read_chunk(i)):
            if bytes(g.read()) != b:
                ctx.fail('chunk %d at %d: other data than in the file' % (i, want[i - 1][1]))
        if f.read_object(i).instance_id != i:
            ctx.fail('object %d' % i)
        ctx.step()
    out = 'big' if order == 'little' else 'little'
    if plain.save_bytes(f, out, ctx.path()) != plain.save_bytes(plain.open_bytes(d.encode(order)), out, ctx.path()):
        ctx.fail('objects far behind the start are saved otherwise')
    ctx.impl()


def empty(ctx):
    """a new document"""
    for fn in (avb.open, lambda: avb.open(None), lambda: avb.open(fileobject=None)):
        f = fn()
        if type(f.content).__name__ != 'Bin':
            ctx.fail('new document holds %r' % f.content)
        if [c for c in f.chunks() if c is not None and c.class_id != b'OBJD']:
            ctx.fail('a new document lists chunks')
        if list(f.iter_class_ids([b'ABIN'])):
            ctx.fail('a new document has stored objects')
        for i in (99999, 12345678):
            try:
                f.read_object(i)
            except Exception:
                pass
            else:
                ctx.fail('read object %d of a new document' % i)
        if f.read_object(f.content.instance_id) is not f.content or f.read_object(0) is not None:
            ctx.fail('objects of a new document')
        f.close()
        with f as g:
            if g is not f:
                ctx.fail('context manager')


def refused(ctx, x):
    try:
        avb.open(x)
    except Exception:
        return
    ctx.fail('%r opens' % (x,))


def closed(ctx, order):
    """close() and the context manager close the file"""
    p = ctx.path('in.avb')
    with open(p, 'wb') as g:
        g.write(docs.rich().encode(order))
    n0 = len(os.listdir('/proc/self/fd'))
    f = avb.open(p)
    f.close()
    with avb.open(p) as g:
        g.content
    try:
        with avb.open(p) as g:
            raise KeyError('x')
    except KeyError:
        pass
    del f, g
    gc.collect()
    if len(os.listdir('/proc/self/fd')) != n0:
        ctx.fail('files stay open')
    # objects read before stay usable
    with avb.open(p) as g:
        c = g.content
        m = list(c.mobs)[0]
    if m.name != u'comp' or len(c.items) != 3:
        ctx.fail('loaded objects are lost on closing')


def shards(tier):
    out = [{'w': 'flip', 'order': o, 'part': i, 'of': 12} for o in spec.ORDERS for i in range(12)]
    out += [{'w': 'dir', 'order': o, 'part': i, 'of': 8} for o in spec.ORDERS for i in range(8)]
    out += [{'w': 'misc', 'order': o} for o in spec.ORDERS]
    out += [{'w': 'crowd', 'order': o, 'n': n} for o in spec.ORDERS for n in (40, 300, 1050, 5000, 70000)]
    out += [{'w': 'iter', 'order': o} for o in spec.ORDERS]
    return out


def run(shard, ctx):
    w, order = shard['w'], shard['order']
    if w == 'flip':
        for root in (None, 1):
            data = small(order, root)
            if root and not ctx.thorough:
                data = data[:header_len(order) + 60]
                data = small(order, root)
            for pos in range(len(data))[shard['part']::shard['of']]:
                for b in range(256):
                    ctx.state((order, root, pos, b))
                ctx.case('flip/%s/%s/%d' % (order, root, pos), flip, ctx, data, pos, range(256))
            if ctx.thorough and root is None:
                # pairs of bytes in the header
                n = header_len(order)
                vals = (0, 1, 4, 6, 0x20, 0x7f, 0x80, 0xff)
                for pos in range(n)[shard['part']::shard['of']]:
                    for pos2 in range(pos + 1, n):
                        for b in vals:
                            d2 = data[:pos] + bytes(bytearray([b])) + data[pos + 1:]
                            ctx.state((order, pos, pos2, b))
                            ctx.case('pair/%s/%d/%d/%d' % (order, pos, pos2, b), flip, ctx, d2, pos2, vals)
    elif w == 'crowd':
        ctx.state((order, shard['n']))
        ctx.case('crowd/%s/%d' % (order, shard['n']), crowd, ctx, order, shard['n'])
    elif w == 'dir':
        todo = []
        for n in range(0, 4):
            for cs in itertools.product(range(len(CLASSES)), repeat=n):
                # every class with every size, sizes combined diagonally
                for k in range(len(SIZES)):
                    todo.append([(CLASSES[c], SIZES[(k + i * (1 + c)) % len(SIZES)]) for i, c in enumerate(cs)])
        for i, sl in enumerate(todo):
            if i % shard['of'] != shard['part']:
                continue
            if len(sl) == 3 and not ctx.thorough and i // shard['of'] % 5:
                continue
            for at in range(len(sl) + 1) if ctx.thorough or len(sl) < 3 else (i % 4,):
                ctx.state((order, i, at))
                ctx.case('dir/%s/%d/%d' % (order, i, at), directory, ctx, order, sl, at)
    elif w == 'iter':
        ids = sorted(set(c.encode() for c, _ in docs.rich().chunks)) + [b'ZZZZ']
        for n in (0, 1, 2, 3):
            for c in itertools.combinations(ids, n):
                ctx.state((order, c))
                ctx.case('iter/%s/%s' % (order, b'.'.join(c).decode()), iteration, ctx, order, c)
    else:
        data = small(order)
        for root in (None, 1, 2):
            d = small(order, root)
            for lo in range(0, len(d), 50):
                ks = list(range(lo, min(lo + 50, len(d))))
                for k in ks:
                    ctx.state((order, root, 'cut', k))
                ctx.case('cut/%s/%s/%d' % (order, root, lo), cut, ctx, d, ks)
        for i, extra in enumerate((b'\0', b'\xff', bytes(7), bytes(8), bytes(9), bytes(100), data, b'\x03' * 40)):
            ctx.state((order, 'grow', i))
            ctx.case('grow/%s/%d' % (order, i), grow, ctx, data, extra)
        for c in COUNTS:
            for r in COUNTS:
                ctx.state((order, c, r))
                ctx.case('count/%s/%d/%d' % (order, c, r), counts, ctx, order, c, r)
        ctx.case('stamps/%s' % order, stamps, ctx, order)
        ctx.case('creators/%s' % order, creators, ctx, order)
        ctx.case('handing/%s' % order, handing, ctx, order)
        ctx.case('closed/%s' % order, closed, ctx, order)
        for skip in (1, 2, 3, 7, 8, 100, 5000):
            ctx.case('inside/%s/%d' % (order, skip), inside, ctx, order, skip)
        for i, x in enumerate([(a, b) for a in FAR for b in FAR] + [(a, a, b) for a in FAR for b in FAR]):
            ctx.state((order, 'far', x))
            ctx.case('far/%s/%s' % (order, x), far, ctx, order, x, i % 2)
        if order == 'little':
            ctx.case('empty', empty, ctx)
            for i, x in enumerate((ctx.path('nothing.avb'), ctx.tmp, 5.5, [], io.BytesIO(b''), io.BytesIO(b'\x06'), io.StringIO(u'text'), b'', '')):
                ctx.case('refused/%d' % i, refused, ctx, x)
