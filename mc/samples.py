# -*- coding: utf-8 -*-
"""The sample documents and objects shipped with the tests of the repository:
the conformance side of the layout model (mc/spec.py).

Every stored object is decoded by the model, encoded again (the bytes have to
come out as they were: the model is the layout these files use), read by the
real reader, and compared value by value."""
from __future__ import print_function

import glob
import io
import os

from . import plain, spec


def root():
    return os.path.join(os.environ.get('VERIF_REPO') or '/repo', 'tests')


def documents():
    t = os.path.join(root(), 'test_files')
    return sorted(glob.glob(os.path.join(t, '*.avb')) + glob.glob(os.path.join(t, '*', '*.avb')))


def objects():
    return sorted(glob.glob(os.path.join(root(), 'chunks', '*', '*.chunk')))


def load(path):
    with io.open(path, 'rb') as f:
        return f.read()


def shards():
    out = [{'sample': 'objects'}]
    out.extend({'sample': os.path.relpath(p, root())} for p in documents())
    return out


def model(ctx, cid, data, order, nrefs):
    if cid not in spec.SPECS:
        ctx.fail('the model has no layout for %s' % cid)
    v, lenient = spec.decode(cid, data, order, nrefs)
    ctx.step()
    if lenient:
        ctx.fail('the model has no exact layout for these bytes')
    return v


def renumber(v, m):
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'R':
        return ('R', m[v[1]]) if v[1] else v
    if isinstance(v, dict):
        return dict((k, renumber(x, m)) for k, x in v.items())
    if isinstance(v, list):
        return [renumber(x, m) for x in v]
    return v


def object_value(ctx, path):
    """-> cid, value whose references are 1..n, n, byte order"""
    b = load(path)
    cid = b[:4][::-1].decode('ascii')
    v = model(ctx, cid, b[8:], spec.LE, None)
    if spec.encode(cid, v, spec.LE) != b[8:]:
        ctx.fail('the model does not encode the object as it was stored')
    used = set()
    plain.find_refs(v, used)
    m = dict((r, i + 1) for i, r in enumerate(sorted(used)))
    return cid, renumber(v, m), len(used)


def document_values(ctx, path):
    """-> Parsed, [(cid, value)] with the null object first"""
    return values(ctx, load(path))


def values(ctx, data, exact=True):
    p = spec.parse(data)
    if p.trailing:
        ctx.fail('%d bytes after the last object' % p.trailing)
    objs = [(None, None)]
    for i, (cid, d) in enumerate(p.chunks):
        v = model(ctx, cid, d, p.order, p.count)
        if spec.encode(cid, v, p.order) != d:
            ctx.fail('object %d (%s) is not stored in its layout' % (i + 1, cid))
        objs.append((cid, v))
    return p, objs


def same_graph(a, ra, b, rb):
    """a, b: [(cid, value)]; the graphs reachable from objects ra and rb are
    the same up to numbering -> first difference, number of objects"""
    pair = {ra: rb}
    back = {rb: ra}
    todo = [ra]

    def walk(x, y, path):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == 'R':
            if not (isinstance(y, tuple) and len(y) == 2 and y[0] == 'R'):
                return '%s is not a reference' % path
            i, j = x[1], y[1]
            if not i or not j:
                return None if i == j else '%s refers to %d, was %d' % (path, j, i)
            if pair.get(i, j) != j or back.get(j, i) != i:
                return '%s refers to another object' % path
            if i not in pair:
                pair[i] = j
                back[j] = i
                todo.append(i)
            return None
        if isinstance(x, dict) and isinstance(y, dict):
            if set(x) != set(y):
                return '%s has other members' % path
            for k in sorted(x, key=str):
                d = walk(x[k], y[k], '%s.%s' % (path, k))
                if d:
                    return d
            return None
        if isinstance(x, list) and isinstance(y, list):
            if len(x) != len(y):
                return '%s length %d != %d' % (path, len(x), len(y))
            for i, (s, t) in enumerate(zip(x, y)):
                d = walk(s, t, '%s[%d]' % (path, i))
                if d:
                    return d
            return None
        d = plain.diff(plain.norm(x), plain.norm(y))
        return '%s%s' % (path, d) if d else None

    n = 0
    while todo:
        i = todo.pop()
        n += 1
        if a[i][0] != b[pair[i]][0]:
            return 'object %d is %s, was %s' % (i, b[pair[i]][0], a[i][0]), n
        d = walk(a[i][1], b[pair[i]][1], '%s %d ' % (a[i][0], i))
        if d:
            return d, n
    return None, n
