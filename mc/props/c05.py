# -*- coding: utf-8 -*-
"""C05: a save writes each reachable object once and keeps the reference graph."""
import itertools

import avb

from mc import docs, graphs, plain, spec

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of reference graphs over all ways to refer to an object, loaded and created; the saved '
             'document is decoded independently and matched object by object with the graph')
RULE = 'distinct (graph, kinds, order) documents'
BOUNDS = ('all directed graphs with self links on 3 objects x all assignments of 6 kinds (216); all 65536 directed graphs on 4 '
          'objects x rotating kinds (6 rotations in the thorough tier); acyclic multigraphs with double and null '
          'references; every relinking of 3 loaded objects from any acyclic graph to any graph; every place of every '
          'kind that can hold a reference; chains of 3000, doubled ladders of 60, fans of 500 and of 66000 objects; both byte orders')
ASSUMPTIONS = []

PERM = (2, 0, 3, 1)


def layout(n, perm):
    """file index of node i"""
    return dict((i + 1, p + 1) for i, p in enumerate(perm[:n] if n == 4 else [(p) for p in perm if p < n]))


def model(edges, kinds, perm):
    """{file index: (cid, value)}, root index; node 1 is the root"""
    at = layout(len(edges), perm)
    chunks = {}
    for n, ts in edges.items():
        k = kinds[n - 1]
        chunks[at[n]] = (k, graphs.node(k, n, [at[t] if t else 0 for t in ts]))
    return chunks, at[1], at


def save(ctx, f, order):
    try:
        return plain.save_bytes(f, order, ctx.path())
    except Exception as e:
        return e


def verdict(ctx, got, order, chunks, root, cyc, what):
    if cyc:
        if not isinstance(got, Exception):
            ctx.fail('%s: a graph with a cycle was saved' % what)
        if isinstance(got, MemoryError):
            ctx.fail('%s: %r' % (what, got))
        return
    if isinstance(got, Exception):
        ctx.fail('%s: saving failed with %r' % (what, got))
    m = graphs.check_saved(got, order, chunks, root)
    if m:
        ctx.fail('%s: %s' % (what, m))


def graph(ctx, edges, kinds, perm, order, hows):
    chunks, root, at = model(edges, kinds, perm)
    seen, cyc = graphs.reachable(edges, 1)
    for how in hows:
        ctx.step()
        if how == 'loaded':
            data = spec.container([(chunks[i][0], spec.encode(chunks[i][0], chunks[i][1], order)) for i in sorted(chunks)],
                                  root, order)
            f = plain.open_bytes(data)
            objs = None
        else:
            f = avb.file.AVBFile()
            objs = graphs.create(f, chunks)
            f.content = objs[root]
        out = 'big' if order == 'little' else 'little'
        verdict(ctx, save(ctx, f, out), out, chunks, root, cyc, how)
        ctx.impl()


def relink(ctx, e1, e2, kinds):
    """a loaded document whose objects get new references"""
    c1, root, at = model(e1, kinds, (1, 0, 2))
    c2, root, at = model(e2, kinds, (1, 0, 2))
    data = spec.container([(c1[i][0], spec.encode(c1[i][0], c1[i][1], 'little')) for i in sorted(c1)], root, 'little')
    f = plain.open_bytes(data)
    objs = dict((i, f.read_object(i)) for i in c2)
    for i in c2:
        plain.set_fields(f, objs[i], c2[i][0], c2[i][1], objs)
    if sum(e1[1]) % 2:
        del objs
    seen, cyc = graphs.reachable(e2, 1)
    verdict(ctx, save(ctx, f, 'little'), 'little', c2, root, cyc, 'relinked')
    ctx.impl()


def place(ctx, cid, v, order):
    """all references of one kind, targets in reverse file order, an
    unreachable object in front"""
    chunks = {}
    for i in range(1, 6):
        chunks[i] = spec.leaf(i)
    chunks[6] = (cid, v)
    data = spec.container([(c, spec.encode(c, x, order)) for c, x in (chunks[i] for i in sorted(chunks))], 6, order)
    for how in ('loaded', 'reset', 'created'):
        if how == 'created':
            f = avb.file.AVBFile()
            f.content = plain.make_object(f, cid, v, plain.Refs(f))
        else:
            f = plain.open_bytes(data)
            if how == 'reset':
                plain.set_fields(f, f.content, cid, v, dict((i, f.read_object(i)) for i in range(1, 6)))
        ctx.step()
        verdict(ctx, save(ctx, f, order), order, chunks, 6, False, how)
    ctx.impl()


def big(ctx, name, how):
    if name == 'chain':
        n = 3000
        edges = dict((i, [i + 1] if i < n else []) for i in range(1, n + 1))
        kinds = ['SEQU', 'CMPO', 'TKFX', 'PRLS', 'ATTR'] * n
    elif name == 'ladder':
        n = 60
        edges = dict((i, [i + 1, i + 1, 0, i + 1] if i < n else []) for i in range(1, n + 1))
        kinds = ['PRLS', 'SEQU', 'ATTR', 'CMPO'] * n
    elif name == 'dense':
        n = 40
        edges = dict((i, list(range(n, i, -1))) for i in range(1, n + 1))
        kinds = ['CMPO', 'SEQU', 'PRLS'] * n
    elif name == 'fan':
        n = 500
        edges = dict((i, []) for i in range(2, n + 1))
        edges[1] = list(range(2, n + 1)) + list(range(n, 1, -1))
        kinds = ['ABIN'] + ['SEQU', 'ATTR'] * n
    elif name == 'wide':
        # more objects than 16 bits count
        n = 66000
        edges = dict((i, []) for i in range(2, n + 1))
        edges[1] = list(range(2, n + 1))
        kinds = ['PRLS'] + ['ATTR'] * n
    elif name == 'long cycle':
        n = 2000
        edges = dict((i, [i % n + 1]) for i in range(1, n + 1))
        kinds = ['SEQU', 'PRLS'] * n
    chunks = {}
    for i, ts in edges.items():
        chunks[n + 1 - i] = (kinds[i - 1], graphs.node(kinds[i - 1], i, [n + 1 - t if t else 0 for t in ts]))
    seen, cyc = graphs.reachable(edges, 1)
    if how == 'loaded':
        f = plain.open_bytes(spec.container([(chunks[i][0], spec.encode(chunks[i][0], chunks[i][1], 'little'))
                                             for i in sorted(chunks)], n, 'little'))
    else:
        f = avb.file.AVBFile()
        objs = graphs.create(f, chunks)
        f.content = objs[n]
    verdict(ctx, save(ctx, f, 'little'), 'little', chunks, n, cyc, how)
    ctx.impl()


def bits(mask, n):
    return dict((i + 1, [j + 1 for j in range(n) if mask >> (i * n + j) & 1]) for i in range(n))


def shards(tier):
    out = [{'w': 'three', 'k': i} for i in range(36)]
    out += [{'w': 'four', 'part': i} for i in range(64)]
    out += [{'w': 'multi', 'part': i} for i in range(8)]
    out += [{'w': 'relink', 'part': i} for i in range(8)]
    out += [{'w': 'place', 'part': i} for i in range(8)]
    out += [{'w': 'big', 'name': x} for x in ('chain', 'ladder', 'dense', 'fan', 'long cycle', 'wide')]
    return out


def run(shard, ctx):
    w = shard['w']
    K = graphs.KINDS
    if w == 'three':
        a, b = K[shard['k'] % 6], K[shard['k'] // 6]
        for c in K:
            for mask in range(512):
                e = bits(mask, 3)
                k = 'three/%s%s%s/%d' % (a, b, c, mask)
                ctx.state(k)
                ctx.case(k, graph, ctx, e, (a, b, c), (1, 2, 0), spec.ORDERS[mask % 2],
                         ('loaded', 'created') if ctx.thorough else (('loaded', 'created')[mask // 2 % 2],))
    elif w == 'four':
        for mask in range(shard['part'], 65536, 64):
            e = bits(mask, 4)
            for rot in range(6) if ctx.thorough else (mask * 7 // 64 % 6,):
                kinds = tuple(K[(rot + i) % 6] for i in range(4))
                k = 'four/%d/%d' % (mask, rot)
                ctx.state(k)
                ctx.case(k, graph, ctx, e, kinds, PERM, spec.ORDERS[rot % 2],
                         ('loaded', 'created') if ctx.thorough else (('loaded', 'created')[mask // 64 % 2],))
    elif w == 'multi':
        # node 1 -> lists over {null, 2, 3, 4}, 2 -> over {null, 3, 4}, 3 -> over {4}
        c = 0
        for l1 in itertools.chain.from_iterable(itertools.product((0, 2, 3, 4), repeat=r) for r in (1, 2, 3)):
            for l2 in itertools.chain.from_iterable(itertools.product((0, 3, 4), repeat=r) for r in (0, 2)):
                for l3 in ((), (4,), (4, 0, 4)):
                    c += 1
                    if c % 8 != shard['part']:
                        continue
                    e = {1: list(l1), 2: list(l2), 3: list(l3), 4: []}
                    for rot in range(6) if ctx.thorough else (c // 8 % 6,):
                        kinds = tuple(K[(rot + i) % 6] for i in range(4))
                        k = 'multi/%s/%s/%s/%d' % (l1, l2, l3, rot)
                        ctx.state(k)
                        ctx.case(k, graph, ctx, e, kinds, PERM, spec.ORDERS[c % 2], ('loaded', 'created'))
    elif w == 'relink':
        for m1 in range(8):
            e1 = {1: [x for x, b in ((2, 1), (3, 2)) if m1 & b], 2: [3] if m1 & 4 else [], 3: []}
            for m2 in range(512):
                if (m1 + m2) % 8 != shard['part']:
                    continue
                for rot in range(6) if ctx.thorough else (m2 // 8 % 6,):
                    kinds = tuple(K[(rot + i) % 6] for i in range(3))
                    k = 'relink/%d/%d/%d' % (m1, m2, rot)
                    ctx.state(k)
                    ctx.case(k, relink, ctx, e1, bits(m2, 3), kinds)
    elif w == 'place':
        from mc import cases
        for cid in cases.KINDS[shard['part']::8]:
            v = spec.generate(cid, nrefs=5)[0]
            refs = set()
            plain.find_refs(v, refs)
            if not refs:
                continue
            for flip in (False, True):
                x = v
                if flip:
                    x = swap(v)
                for order in spec.ORDERS:
                    k = 'place/%s/%s/%s' % (cid, flip, order)
                    ctx.state(k)
                    ctx.case(k, place, ctx, cid, x, order)
            # every single reference alone
            n = [0]
            count(v, n)
            for i in range(n[0]):
                x = only(v, i, [0])
                k = 'place/%s/only %d' % (cid, i)
                ctx.state(k)
                ctx.case(k, place, ctx, cid, x, spec.ORDERS[i % 2])
    else:
        for how in ('loaded', 'created'):
            ctx.state((shard['name'], how))
            ctx.case('big/%s/%s' % (shard['name'], how), big, ctx, shard['name'], how)


def is_ref(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == 'R'


def swap(v):
    """targets 1..5 in the opposite order"""
    if is_ref(v):
        return ('R', 6 - v[1] if v[1] else 0)
    if isinstance(v, dict):
        return dict((k, swap(x)) for k, x in v.items())
    if isinstance(v, list):
        return [swap(x) for x in v]
    return v


def count(v, n):
    if is_ref(v):
        n[0] += 1
    elif isinstance(v, dict):
        for x in v.values():
            count(x, n)
    elif isinstance(v, list):
        for x in v:
            count(x, n)


def only(v, i, n):
    """only reference i is not null"""
    if is_ref(v):
        n[0] += 1
        return ('R', 3) if n[0] - 1 == i else ('R', 0)
    if isinstance(v, dict):
        return dict((k, only(x, i, n)) for k, x in v.items())
    if isinstance(v, list):
        return [only(x, i, n) for x in v]
    return v
