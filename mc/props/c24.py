# -*- coding: utf-8 -*-
"""C24: objects and documents share no mutable state."""
import copy
import avb
import avb.utils

from mc import cases, docs, many, parts, plain, spec

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive exploration of create / load / edit / create histories on the real library: every in-place '
             'edit of one object checked against every sibling object')
RULE = 'distinct (kind, origin of the edited object, edit) behaviours'
BOUNDS = ('every class the factory offers x every mutable default and every value of the default layouts x every '
          'in-place edit (all pairs of edits in the thorough tier), observed on siblings created before and after '
          'the edit and loaded in the same and in other documents, and on the other parts of the edited object; up to 300 documents opened, created, edited and dropped in one process; values of the layouts also with equal elements in every list; loaded objects once more with the compiled reader')
ASSUMPTIONS = []

CLASSES = sorted(set(spec.NAMES.values()) | set(['Track', 'ParamControlPoint', 'ParamControlPointProperty', 'BinItem',
                                                 'SiftItem', 'ASPIPlugin', 'ASPIPluginChunk', 'TrackerSettings'] ))


def classes():
    out = []
    for n in sorted(avb.utils.AVBClassName_dict):
        out.append(n)
    return out


def make(f, name):
    return f.create.from_name(name)


def observable(o):
    return parts.unfold(o)


def stable(a, b):
    """field names whose value is the same in two fresh objects"""
    return a == b


def strip(u, mask):
    return u


def mask(a, b, clock=False):
    """paths at which two fresh objects differ (generated ids, times)"""
    out = []

    def walk(x, y, p):
        if type(x) is not type(y):
            out.append(p)
        elif isinstance(x, dict):
            if set(x) != set(y):
                out.append(p)
            else:
                for k in x:
                    walk(x[k], y[k], p + (k,))
        elif clock and p[-1:] in (('creation_time',), ('last_modified',)) and abs(x - y) < 1200:
            pass        # made at another second
        elif isinstance(x, (list, tuple)):
            if len(x) != len(y):
                out.append(p)
            else:
                for i, (s, t) in enumerate(zip(x, y)):
                    walk(s, t, p + (i,))
        elif x != y:
            out.append(p)
    walk(a, b, ())
    return set(out)


def fresh_edits(o, m):
    return parts.edits(o, True)


def run_created(ctx, name, pairs):
    f = avb.file.AVBFile()
    g = avb.file.AVBFile()
    a, a2, b = make(f, name), make(f, name), make(g, name)
    if a is a2:
        ctx.fail('two creations gave one object')
    u1, u2 = observable(a), observable(b)
    m = mask(u1, u2, True)
    # what a fresh object looks like, before anything was edited
    ref = observable(make(avb.file.AVBFile(), name))
    m |= mask(ref, u1, True)
    u3 = observable(a2)
    es = parts.edits(a, True)

    def look(what):
        for other, want, which in ((a2, u3, 'a sibling in the same document'), (b, u2, 'an object in another document')):
            got = observable(other)
            if got != want:
                ctx.fail('%s changed %s: %s' % (what, which, plain.diff([got], [want])))
        for d, which in ((f, 'the same'), (avb.file.AVBFile(), 'a new')):
            got = observable(make(d, name))
            x = mask(got, ref, True) - m
            if x:
                ctx.fail('%s changed the defaults of an object created later in %s document at %s' % (
                    what, which, sorted(x, key=str)))
    look('nothing')
    own = observable(a)
    for i, e in enumerate(es):
        e.do()
        ctx.step()
        x = mask(own, observable(a))
        if len(x) > 1:
            ctx.fail('edit %s changed %d places of the object itself: %s' % (e.path, len(x), sorted(x, key=str)[:4]))
        look('edit ' + e.path)
        if pairs:
            for e2 in es[i + 1:]:
                e2.do()
                ctx.step()
                look('edits %s %s' % (e.path, e2.path))
                e2.undo()
        e.undo()
    ctx.impl()


# containers of a fresh object that start empty
def run_fill(ctx, name):
    """put something into every empty container of a new object"""
    f = avb.file.AVBFile()
    a = make(f, name)
    b = make(f, name)
    ub = observable(b)
    ref = observable(make(avb.file.AVBFile(), name))
    m = mask(ref, ub, True)
    n = 0
    if not hasattr(a, 'property_data'):
        ctx.impl()
        return
    for k in list(a.property_data.keys()):
        v = getattr(a, k)
        for what, fn in (('append', lambda: v.append(1)), ('extend', lambda: v.extend([1, 2])),
                         ('item', lambda: v.__setitem__(u'k', 1)), ('update', lambda: v.update({u'z': 2}))):
            if not hasattr(v, {'item': '__setitem__'}.get(what, what)):
                continue
            try:
                fn()
            except Exception:
                continue
            n += 1
            ctx.step()
            if observable(b) != ub:
                ctx.fail('%s on %s of one object changed another' % (what, k))
            x = mask(observable(make(avb.file.AVBFile(), name)), ref, True) - m
            if x:
                ctx.fail('%s on %s changed the defaults: %s' % (what, k, sorted(x, key=str)))
    ctx.impl()


def shallow(o):
    """the object's own values, references by leaf"""
    return plain.object_plain(o, lambda x: x.instance_id)


def run_loaded(ctx, cid, order, v):
    data = spec.golden(cid, v, order)
    f, g = plain.open_bytes(data), plain.open_bytes(data)
    fresh = avb.file.AVBFile()
    a, b = f.content, g.content
    c = make(fresh, spec.NAMES[cid])
    ub, uc = observable(b), observable(c)
    own = shallow(a)
    for e in parts.edits(a, True):
        e.do()
        ctx.step()
        x = mask(own, shallow(a))
        if len(x) > 1:
            ctx.fail('edit %s changed %d places of the object itself: %s' % (e.path, len(x), sorted(x, key=str)[:4]))
        if observable(b) != ub:
            ctx.fail('edit %s of a loaded object is visible in another document' % e.path)
        if observable(c) != uc:
            ctx.fail('edit %s of a loaded object is visible in a created one' % e.path)
        h = plain.open_bytes(data)
        if observable(h.content) != ub:
            ctx.fail('edit %s of a loaded object is visible in a document opened later' % e.path)
        e.undo()
    # different object of the same document
    d = spec.Doc2(cid, v, order) if hasattr(spec, 'Doc2') else None
    ctx.impl()


def run_twins(ctx, cid, order, v):
    """two equal objects of one document"""
    p = spec.parse(spec.golden(cid, v, order))
    leaves = p.chunks[:-1]
    data = spec.container(leaves + [p.chunks[-1], p.chunks[-1]], len(leaves) + 2, order)
    f = plain.open_bytes(data)
    b = f.read_object(len(leaves) + 1)
    a = f.content
    if a is b:
        ctx.fail('two objects of the file are one Python object')
    # the leaves are shared by both on purpose, the objects themselves not
    want = repr(plain.object_plain(b, plain.leaf_ref))
    for e in parts.edits(a, True):
        if '.settings' in e.path and 'leaf' in repr(getattr(e, 'path', '')):
            continue
        e.do()
        ctx.step()
        try:
            got = repr(plain.object_plain(b, plain.leaf_ref))
        except (AssertionError, ValueError):
            got = want      # a shared leaf was edited
        if got != want and not leafy(e, a):
            ctx.fail('edit %s of one object is visible in another one of the same document' % e.path)
        e.undo()
    ctx.impl()


def leafy(e, a):
    """edit inside an object a refers to"""
    o = a
    import re
    for m in re.finditer(r'\.(\w+)|\[(\d+|\'[^\']*\'|u\'[^\']*\')\]', e.path):
        try:
            if m.group(1):
                o = getattr(o, m.group(1))
            else:
                x = m.group(2)
                o = o[int(x) if x.isdigit() else x.strip("u'")]
        except Exception:
            return False
        if parts.is_object(o) and plain.cid_of(o) == 'TKPA' and o is not a:
            return True
    return False


def alike(v):
    """v with the elements of every plain list made equal"""
    if isinstance(v, dict):
        return dict((k, alike(x)) for k, x in v.items())
    if isinstance(v, list) and len(v) > 1 and not any(isinstance(x, tuple) for x in v):
        x = alike(v[0])
        if all(type(y) is type(v[0]) and (not isinstance(y, (list, dict)) or len(y) == len(v[0])) for y in v):
            return [copy.deepcopy(x) for _ in v]
        return [alike(y) for y in v]
    if isinstance(v, list):
        return [alike(y) for y in v]
    return v


def shards(tier):
    out = [{'names': classes()[i::8]} for i in range(8)]
    out += [{'many': n} for n in (10, 40, 130, 300)]
    return out + cases.kind_shards('quick', orders=('little',), per=400)


def simple(o):
    return len(o) == 0 or all(x is False for x in o.values()) and len(o) != 2 or (
        len(o) == 1 and cases.structural(list(o)[0], None))


def ext_shards(tier):
    return cases.compiled([s for s in shards(tier) if 'cid' in s])


def run(shard, ctx):
    if 'many' in shard:
        for keep in (True, False):
            k = 'many/%d/%s' % (shard['many'], keep)
            ctx.state(k)
            ctx.case(k, many.documents, ctx, shard['many'], keep)
        return
    if 'names' in shard:
        for n in shard['names']:
            try:
                make(avb.file.AVBFile(), n)
            except Exception:
                # not constructible without arguments: covered through its owner
                continue
            for k, fn, args in (('create', run_created, (n, ctx.thorough)), ('fill', run_fill, (n,))):
                key = '%s/%s' % (k, n)
                ctx.state(key)
                ctx.case(key, fn, ctx, *args)
        return
    if shard['part'] == 0:
        for name, fn in (('loaded', run_loaded), ('twins', run_twins)):
            cid = shard['cid']
            v = alike(spec.generate(cid)[0])
            if cid in ('ATTR', 'PRLS', 'TMCS'):
                # their keys are different
                continue
            ctx.state((cid, 'alike', name))
            ctx.case('%s/alike/%s' % (cid, name), fn, ctx, cid, 'little', v)
    for k, o, v in cases.each(shard, 'quick'):
        if not simple(o) and not (ctx.thorough and len(o) == 1):
            continue
        for name, fn in (('loaded', run_loaded), ('twins', run_twins)):
            kk = k + '/' + name
            ctx.state(kk)
            ctx.case(kk, fn, ctx, shard['cid'], 'little', v)
