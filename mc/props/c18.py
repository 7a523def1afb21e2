# -*- coding: utf-8 -*-
"""C18: dependent mob listing is complete, duplicate free, ordered, terminating."""
import itertools

import avb

from mc import docs, plain, spec

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of all mob link graphs up to a size; reachability and topological order computed '
             'on the graph are compared with the listing of the real library')
RULE = 'distinct (graph, starting mob, link shape) documents'
BOUNDS = ('all directed graphs with 3 mobs (self links included) x every start x 5 link shapes (clips as components, nested, shared, in proxies, attributes, lists and renders) x both clip orders x '
          'missing links x duplicate links; all graphs with 4 mobs without self links (with them in the thorough '
          'tier); chains, rings, fans and layered graphs up to 40 mobs; chains, rings, fans and combs of 300 and 1100; clips below 150 nested components; loaded and created documents; start at an '
          'effect and at a mob without id')
ASSUMPTIONS = []

MISSING = 77


def mid(n):
    return docs.mob_id(n & 255, n >> 8)


def clips(d, targets, shape, order):
    """tracks holding clips that link to the targets"""
    ts = list(targets) if order == 'up' else list(targets)[::-1]
    cs = [d.add('SCLP', length=10, media_kind_id=1, track_id=1, mob_id=mid(t)) for t in ts]
    nul = d.add('SCLP', length=10, media_kind_id=1, track_id=1, mob_id=bytes(32))
    if shape == 'tracks':
        return [docs.track(index=i + 1, component=docs.R(c), lock_number=0) for i, c in enumerate(cs + [nul])]
    if shape == 'seq':
        s = d.add('SEQU', media_kind_id=1, components=[docs.R(c) for c in [nul] + cs])
        return [docs.track(index=1, component=docs.R(s), lock_number=0), docs.track(index=2, lock_number=0)]
    if shape == 'effect':
        out = []
        for c in cs:
            e = d.add('TKFX', length=10, media_kind_id=1,
                      tracks=[docs.track(index=1, component=docs.R(c), lock_number=0)])
            out.append(docs.R(e))
        s = d.add('SEQU', media_kind_id=1, components=out)
        return [docs.track(index=1, component=docs.R(s), lock_number=0)]
    if shape == 'shared':
        # every clip is reachable twice
        s = d.add('SEQU', media_kind_id=1, components=[docs.R(c) for c in cs + cs])
        return [docs.track(index=i, component=docs.R(s), lock_number=0) for i in (1, 2)]
    if shape == 'deep':
        # clips at the end of a long line of nested components
        x = cs + [nul]
        for i in range(150):
            s = d.add('SEQU', media_kind_id=1, components=[docs.R(c) for c in x])
            x = [s] if i % 2 else [d.add('TKFX', length=10, media_kind_id=1,
                                         tracks=[docs.track(index=1, component=docs.R(s), lock_number=0)])]
        return [docs.track(index=1, component=docs.R(x[0]), lock_number=0)]
    if shape == 'hidden':
        # clips that are not the component of a track
        def f(**kw):
            return docs.R(d.add('FILL', length=10, media_kind_id=1, **kw))
        out = []
        for i, c in enumerate(cs):
            a = docs.R(d.put('ATTR', {'$items': [docs.attr(u'c', docs.R(c))]}))
            k = (i + len(cs)) % 6
            t = docs.track(index=i + 1, lock_number=0)
            if k == 0:
                t = docs.track(index=i + 1, component=f(), filler_proxy=docs.R(c), lock_number=0)
            elif k == 1:
                t = docs.track(index=i + 1, component=f(attributes=a), lock_number=0)
            elif k == 2:
                t = docs.track(index=i + 1, component=f(), attributes=a, lock_number=0)
            elif k == 3:
                t = docs.track(index=i + 1, component=f(precomputed=docs.R(c)), lock_number=0)
            elif k == 4:
                t = docs.track(index=i + 1, filler_proxy=docs.R(c), lock_number=0)
            else:
                s = d.add('SEQU', media_kind_id=1, components=[], param_list=docs.R(d.put('PRLS', {'$list': [docs.R(c)]})))
                t = docs.track(index=i + 1, component=docs.R(s), lock_number=0)
            out.append(t)
        return out
    raise ValueError(shape)


def document(n, edges, shape, order, noid=None):
    d = docs.Doc()
    at = []
    for i in range(n):
        ts = clips(d, edges[i], shape, order)
        kw = {}
        v = docs.default('CMPO', name=u'm%d' % i, mob_type_id=1, usage_code=0, mob_id=mid(i), tracks=ts)
        if noid == i:
            del v['mob_id']
        at.append(d.put('CMPO', v))
    d.add('ABIN', items=[docs.binitem(a) for a in at])
    return d, at


def created(n, edges):
    f = avb.file.AVBFile()
    mobs = []
    for i in range(n):
        m = f.create.Composition()
        m.name, m.mob_id = u'm%d' % i, plain.make_mob(mid(i))
        mobs.append(m)
        f.content.add_mob(m)
    for i in range(n):
        s = f.create.Sequence()
        for t in edges[i]:
            c = f.create.SourceClip()
            c.mob_id = plain.make_mob(mid(t))
            s.components.append(c)
        tr = f.create.Track()
        tr.index, tr.component = 1, s
        mobs[i].tracks.append(tr)
    return f, mobs


def closure(n, edges, start):
    seen, todo = set(), list(edges[start])
    while todo:
        x = todo.pop()
        if x < n and x not in seen:
            seen.add(x)
            todo.extend(edges[x])
    return seen


def check(ctx, n, edges, start, mob, removed=()):
    want = closure(n, edges, start) - set([start])
    got = []
    for m in mob.dependant_mobs():
        got.append(int(m.name[1:]))
        if len(got) > 3 * n + 3:
            ctx.fail('listing does not end: %s...' % got)
    if len(set(got)) != len(got):
        ctx.fail('mob listed twice: %s' % got)
    if start in got:
        ctx.fail('mob %d is listed as its own dependency: %s' % (start, got))
    if set(got) != want:
        ctx.fail('listed %s, mob %d depends on %s' % (got, start, sorted(want)))
    reach = want | set([start])
    if n > 100:
        # chains: what depends on a mob stands behind it
        pos = dict((m, i) for i, m in enumerate(got))
        for a in got:
            for b in edges[a]:
                if b < n and a < b and b in pos and pos[b] > pos[a]:
                    ctx.fail('mob %d is listed before %d it depends on' % (a, b))
        return True
    acyclic = all(x not in closure(n, edges, x) for x in reach)
    if acyclic:
        for i, m in enumerate(got):
            late = closure(n, edges, m) - set(got[:i])
            if late:
                ctx.fail('mob %d is listed before %s it depends on: %s' % (m, sorted(late), got))
    return acyclic


def graph(ctx, n, edges, shape, order, starts):
    d, at = document(n, edges, shape, order)
    data = d.encode('little')
    for s in starts:
        f = plain.open_bytes(data)
        if check(ctx, n, edges, s, f.read_object(at[s])):
            ctx.nontrivial += 1
        # a second listing is the same
        ctx.step()
    check(ctx, n, edges, s, f.read_object(at[s]))
    for o in starts:
        check(ctx, n, edges, o, f.read_object(at[o]))
    ctx.impl()


def graph_created(ctx, n, edges):
    f, mobs = created(n, edges)
    for s in range(n):
        check(ctx, n, edges, s, mobs[s])
        ctx.step()
    ctx.impl()


def graph_effect(ctx, n, edges):
    """starting at a track group that is not a mob, and at a mob without id"""
    d, at = document(n, edges, 'seq', 'up', noid=0)
    e = dict((i, list(x)) for i, x in enumerate(edges))
    # nothing can refer to a mob without id
    e2 = [[t for t in x if t != 0] for x in edges]
    f = plain.open_bytes(d.encode('little'))
    check(ctx, n, e2, 0, f.read_object(at[0]))
    d, at = document(n, edges, 'seq', 'up')
    cs = [d.add('SCLP', length=10, media_kind_id=1, track_id=1, mob_id=mid(t)) for t in (0, MISSING)]
    x = d.add('TKFX', tracks=[docs.track(index=i + 1, component=docs.R(c), lock_number=0) for i, c in enumerate(cs)])
    d.add('ABIN', items=[docs.binitem(a) for a in at])
    f = plain.open_bytes(d.encode('little'))
    check(ctx, n + 1, list(edges) + [[0, MISSING]], n, f.read_object(x))
    ctx.step(2)
    ctx.impl()


def big_shapes():
    for n in (6, 12, 40):
        yield 'chain%d' % n, [[i + 1] if i + 1 < n else [] for i in range(n)]
        yield 'ring%d' % n, [[(i + 1) % n] for i in range(n)]
        yield 'fan%d' % n, [list(range(1, n))] + [[] for i in range(n - 1)]
        yield 'full%d' % n, [list(range(i + 1, n)) for i in range(n)]
        yield 'rev%d' % n, [list(range(i)) for i in range(n)]
        if n <= 12:
            yield 'complete%d' % n, [list(range(n)) for i in range(n)]
    for n in (300, 1100):
        yield 'chain%d' % n, [[i + 1] if i + 1 < n else [] for i in range(n)]
        yield 'ring%d' % n, [[(i + 1) % n] for i in range(n)]
        yield 'fan%d' % n, [list(range(1, n))] + [[] for i in range(n - 1)]
        yield 'comb%d' % n, [[i + 1, n - 1] if i + 1 < n else [] for i in range(n)]
    # layers of 3, every mob linked to every mob of the next layer
    n = 36
    yield 'layers', [[j for j in range(n) if j // 3 == i // 3 + 1] for i in range(n)]


SHAPES = ('tracks', 'seq', 'effect', 'shared', 'hidden')


def subsets(xs):
    xs = list(xs)
    return [c for r in range(len(xs) + 1) for c in itertools.combinations(xs, r)]


def shards(tier):
    out = [{'what': 'big'}]
    for part in range(8):
        for s in SHAPES:
            for o in ('up', 'down'):
                out.append({'what': 'g3', 'part': part, 'shape': s, 'order': o})
        out.append({'what': 'g3m', 'part': part})
        out.append({'what': 'created', 'part': part})
    for part in range(16 if tier == 'quick' else 64):
        out.append({'what': 'g4', 'part': part, 'of': 16 if tier == 'quick' else 64, 'self': tier == 'thorough'})
    return out


def run(shard, ctx):
    w = shard['what']
    if w == 'big':
        for name, edges in big_shapes():
            n = len(edges)
            for shape in ('tracks', 'seq', 'effect', 'deep') if n < 13 else ('seq',):
                ctx.state((name, shape))
                ctx.case('big/%s/%s' % (name, shape), graph, ctx, n, edges, shape, 'up',
                         [0, n // 2, n - 1] if n < 1000 or 'fan' in name else [0])
        return
    if w in ('g3', 'g3m', 'created'):
        extra = (0, 1, 2) if w == 'g3' else (0, 1, 2, MISSING)
        for i, g in enumerate(itertools.product(subsets(extra), repeat=3)):
            if i % 8 != shard['part']:
                continue
            k = repr(g).replace(' ', '')
            if w == 'g3':
                ctx.state((g, shard['shape'], shard['order']))
                ctx.case('3/%s/%s/%s' % (shard['shape'], shard['order'], k), graph, ctx, 3, g, shard['shape'],
                         shard['order'], (0, 1, 2))
            elif w == 'created':
                ctx.state((g, 'created'))
                ctx.case('3/created/%s' % k, graph_created, ctx, 3, g)
                ctx.case('3/effect/%s' % k, graph_effect, ctx, 3, g)
            else:
                # duplicate links in both orders
                g2 = [list(x) + list(x)[::-1] for x in g]
                ctx.state((g, 'dup'))
                ctx.case('3/dup/%s' % k, graph, ctx, 3, g2, 'seq', 'up', (0, 1, 2))
        return
    rows = [subsets(range(4)) if shard['self'] else subsets([j for j in range(4) if j != i]) for i in range(4)]
    for i, g in enumerate(itertools.product(*rows)):
        if i % shard['of'] != shard['part']:
            continue
        k = repr(g).replace(' ', '')
        ctx.state((g, 4))
        ctx.case('4/%s' % k, graph, ctx, 4, g, 'seq', 'down' if i % 2 else 'up', (0, 1, 2, 3))
