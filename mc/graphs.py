# -*- coding: utf-8 -*-
"""Small reference graphs over object kinds that can refer to other objects,
and the comparison of a saved document with such a graph."""
from . import docs, plain, spec

R = docs.R


def node(kind, n, targets):
    """plain value of node n; targets: indexes, 0 is null"""
    t = [R(x) for x in targets]
    if kind == 'SEQU':
        return docs.default('SEQU', name=u'n%d' % n, components=t)
    if kind == 'PRLS':
        return {'$list': t}
    if kind == 'ATTR':
        return {'$items': [docs.attr(u'id', n)] + [docs.attr(u'k%d' % i, x) for i, x in enumerate(t)]}
    if kind == 'ABIN':
        return docs.default('ABIN', uid=n, items=[docs.binitem(x[1]) for x in t])
    if kind == 'CMPO':
        # all the places of a track
        tracks, i = [], 0
        while i < len(t):
            kw = {'index': i, 'lock_number': 0}
            for f in ('component', 'filler_proxy', 'attributes', 'bob_data'):
                if i < len(t):
                    kw[f] = t[i]
                    i += 1
            tracks.append(docs.track(**kw))
        return docs.default('CMPO', length=n, tracks=tracks)
    if kind == 'TKFX':
        # places of the object itself
        kw = dict(zip(('trackman', 'keyframes', 'param_list', 'left_bob', 'attributes', 'precomputed', 'session_attrs',
                       'right_bob'), t))
        return docs.default('TKFX', length=n, **kw)
    raise ValueError(kind)


KINDS = ('SEQU', 'CMPO', 'PRLS', 'ATTR', 'TKFX', 'ABIN')


def reachable(edges, root):
    """edges: {n: [targets]} -> set, whether a cycle is reachable"""
    state = {}
    cyc = False
    stack = [(root, iter(edges[root]))]
    state[root] = 1
    while stack:
        n, it = stack[-1]
        for t in it:
            if not t:
                continue
            if state.get(t) == 1:
                cyc = True
            elif t not in state:
                state[t] = 1
                stack.append((t, iter(edges[t])))
                break
        else:
            state[n] = 2
            stack.pop()
    return set(state), cyc


def flat(v):
    if isinstance(v, dict) and set(v) == set([0, 1]):
        return [v[0], v[1]]
    if isinstance(v, tuple) and len(v) == 2 and v[0] in ('M', 'T'):
        return v[1]
    return v


def match(a, b, mp, todo, path=''):
    """a model value, b saved value; mp maps model to saved indexes.
    -> description of the first difference or None"""
    if isinstance(a, tuple) and a and a[0] == 'R':
        if not (isinstance(b, tuple) and b and b[0] == 'R'):
            return '%s is %r, not a reference' % (path, b)
        if not a[1] or not b[1]:
            return None if a[1] == b[1] else '%s is %s, not %s' % (path, b, a)
        if a[1] in mp:
            return None if mp[a[1]] == b[1] else '%s leads to the wrong object' % path
        mp[a[1]] = b[1]
        todo.append(a[1])
        return None
    a, b = flat(a), flat(b)
    if isinstance(a, dict):
        if not isinstance(b, dict) or set(a) != set(b):
            return '%s has %s, not %s' % (path, sorted(b, key=str) if isinstance(b, dict) else b, sorted(a, key=str))
        for k in sorted(a, key=str):
            m = match(a[k], b[k], mp, todo, '%s.%s' % (path, k))
            if m:
                return m
        return None
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return '%s is %r, not %r' % (path, b, a)
        for i, (x, y) in enumerate(zip(a, b)):
            m = match(x, y, mp, todo, '%s[%d]' % (path, i))
            if m:
                return m
        return None
    return None if a == b else '%s is %r, not %r' % (path, b, a)


def check_saved(data, order, chunks, root):
    """chunks: {index: (cid, value)} of the model; a message or None"""
    try:
        p, objs = plain.decode_saved(data, order)
    except (AssertionError, spec.Reject) as e:
        return str(e)
    if p.root != p.count:
        return 'the root is object %d of %d' % (p.root, p.count)
    mp = {root: p.root}
    todo = [root]
    while todo:
        m = todo.pop()
        s = mp[m]
        if not 0 < s <= p.count:
            return 'reference to object %d of %d' % (s, p.count)
        if objs[s][0] != chunks[m][0]:
            return 'object %d is saved as %s, not %s' % (m, objs[s][0], chunks[m][0])
        bad = match(chunks[m][1], objs[s][1], mp, todo)
        if bad:
            return 'object %d (%s) is saved with %s' % (m, chunks[m][0], bad)
        refs = set()
        plain.find_refs(objs[s][1], refs)
        if any(r >= s for r in refs):
            return 'object %d is saved before the objects it refers to' % m
    if len(set(mp.values())) != len(mp):
        return 'different objects are saved as one'
    if len(mp) != p.count:
        return '%d objects are reachable, %d are saved' % (len(mp), p.count)
    return None


def create(f, chunks):
    """the graph built through the factory; {index: object}"""
    objs = {}
    for i in sorted(chunks):
        cid, v = chunks[i]
        objs[i] = plain.make_object(f, cid, docs.blank(cid, v) if cid not in ('PRLS', 'ATTR') else
                                    ({'$list': []} if cid == 'PRLS' else {'$items': []}), {})
    for i in sorted(chunks):
        cid, v = chunks[i]
        plain.set_fields(f, objs[i], cid, v, objs)
    return objs
