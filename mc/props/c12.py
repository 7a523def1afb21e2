# -*- coding: utf-8 -*-
"""C12: the compiled reader and the Python reader give identical objects."""
import datetime
import gc
import itertools
import os
import uuid

import avb
import avb.file
import avb.mobid
import avb.utils

from mc import cases, docs, plain, spec

LEVEL = 'model_checking'
TECHNIQUE = ('explicit enumeration of the layout model of every accelerated kind, each state replayed on both real readers '
             '(freshly built extension) and compared with each other and with the model')
RULE = 'distinct (kind, model value, use) states'
BOUNDS = ('the 14 accelerated kinds (little endian): all subsets of optional groups; every boundary alternative of every field, '
          'alone and combined with every structural choice; lists of up to 1025 items and byte strings of up to 131073 bytes; each whole number alone over 133 small values, single bits and constants; all pairs in the thorough tier; saving in both byte orders after '
          'reading, after every one-step edit of a contained list or helper object, and after a copy; all ordered pairs of structural choices of a kind and of two kinds read one after the other; every such edit next to an equal object and an equal document; a 27 object project')
ASSUMPTIONS = ['the extension is built with PyPy 3.9, the interpreter with which this sandbox can build it',
               'the compiled reader is only used for little endian files']

READERS = ('ATTR', 'CDCI', 'CMPO', 'DIDD', 'FILL', 'FXPS', 'MDES', 'PRCL', 'PRIT', 'SCLP', 'SEQU', 'SLCT', 'TKFX', 'TRKR')


def kinds():
    return [k for k in READERS if k in cases.KINDS]


def require_ext():
    import avb._ext     # noqa: a build without the extension proves nothing


def typed(v, ref=None):
    """value with the Python type of everything in it"""
    if v is None or isinstance(v, (bool, int, str)):
        return (type(v).__name__, v)
    if isinstance(v, float):
        return ('float', plain.norm(v))
    if isinstance(v, (bytes, bytearray)):
        return (type(v).__name__, bytes(v))
    if isinstance(v, (uuid.UUID, datetime.datetime)):
        return (type(v).__name__, v)
    if isinstance(v, avb.mobid.MobID):
        return ('MobID', plain.mob_bytes(v))
    if plain.cid_of(v):
        if ref is None:
            return ('object', v.instance_id)
        return ('object', ref(v))
    if hasattr(v, 'property_data'):
        return (type(v).__name__, dict((k, typed(getattr(v, k), ref)) for k in v.property_data.keys()))
    if isinstance(v, dict):
        return (type(v).__name__, [(k, typed(x, ref)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [typed(x, ref) for x in v])
    raise TypeError('unexpected value %r' % (v,))


def typed_object(o, ref=None):
    c = plain.cid_of(o)
    if c == 'ATTR':
        return [(k, typed(x, ref)) for k, x in o.items()]
    if c in ('PRLS', 'TMCS'):
        return [typed(x, ref) for x in o]
    return dict((k, typed(getattr(o, k), ref)) for k in o.property_data.keys())


def tdiff(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return '%s.%s only with the %s reader' % (path, k, 'Python' if k in b else 'compiled')
            d = tdiff(a[k], b[k], path + '.' + k)
            if d:
                return d
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2 and a[0] == b[0] and a[0] != 'f':
        return tdiff(a[1], b[1], path)
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = tdiff(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if a != b:
        return '%s: compiled %r, Python %r' % (path or '.', a, b)
    return None


def shown(o):
    try:
        return str(o).split(' at 0x')[0]
    except Exception as e:
        return type(e).__name__


def both(data):
    return plain.open_bytes(data, use_ext=True), plain.open_bytes(data, use_ext=False)


def saves(ctx, fs, what):
    """the same bytes, in both orders"""
    for order in spec.ORDERS:
        e, p = [outcome(f, order, ctx.path()) for f in fs]
        if type(e) is not type(p):
            ctx.fail('%s: saving gives %s with the compiled reader, %s with the other' % (what, show(e), show(p)))
        if isinstance(e, str):
            if e != p:
                ctx.fail('%s: saving raises %s, %s' % (what, e, p))
            continue
        if strip(e) != strip(p):
            ctx.fail('%s: saved bytes (%s) depend on the reader: %s' % (what, order, where(e, p)))


def outcome(f, order, path):
    """saved bytes, or the name of what saving raises"""
    try:
        return plain.save_bytes(f, order, path)
    except Exception as e:
        return type(e).__name__


def show(x):
    return x if isinstance(x, str) else 'a file'


def strip(b):
    """saved bytes without the time of saving"""
    p = spec.parse(b)
    return (p.order, p.root, p.count, p.trailing, [(c, bytes(d)) for c, d in p.chunks])


def where(a, b):
    x, y = spec.parse(a), spec.parse(b)
    for i, (m, n) in enumerate(zip(x.chunks, y.chunks), 1):
        if m[0] != n[0]:
            return 'object %d %s, %s' % (i, m[0], n[0])
        if m[1] != n[1]:
            j = next((j for j in range(min(len(m[1]), len(n[1]))) if m[1][j] != n[1][j]), -1)
            return 'object %d %s byte %d' % (i, m[0], j)
    return 'counts %d %d' % (x.count, y.count)


def check(ctx, cid, v):
    data = spec.golden(cid, v, 'little')
    ctx.step(2)
    fe, fp = fs = both(data)
    if type(fe.content) is not type(fp.content):
        ctx.fail('classes %s, %s' % (type(fe.content).__name__, type(fp.content).__name__))
    d = tdiff(typed_object(fe.content, plain.leaf_ref), typed_object(fp.content, plain.leaf_ref))
    if d:
        ctx.fail(d)
    d = plain.diff(plain.read_plain(fe, fe.content), plain.normalise(cid, v))
    if d:
        ctx.fail('the compiled reader gives other values than the bytes encode: ' + d)
    if fe.modified_objects or fe.reading:
        ctx.fail('reading marked objects modified')
    if shown(fe.content) != shown(fp.content):
        ctx.fail('shown as %s, %s' % (shown(fe.content), shown(fp.content)))
    saves(ctx, fs, 'unchanged')
    ctx.impl(2)


def edits(o, cid):
    """every one-step change of what o contains: (name, function)"""
    out = []

    def lists(get, path, depth):
        x = get(o)
        if isinstance(x, list):
            n = len(x)
            if n:
                out.append((path + '.pop', lambda o, g=get: g(o).pop()))
                out.append((path + '.del0', lambda o, g=get: g(o).__delitem__(0)))
                out.append((path + '.reverse', lambda o, g=get: g(o).reverse()))
                out.append((path + '.dup', lambda o, g=get: g(o).append(g(o)[0])))
            if depth:
                for i in range(n):
                    lists(lambda o, g=get, i=i: g(o)[i], '%s[%d]' % (path, i), depth - 1)
        elif isinstance(x, bytearray):
            out.append((path + '.append', lambda o, g=get: g(o).append(7)))
        elif hasattr(x, 'property_data') and not plain.cid_of(x):
            for k in list(x.property_data.keys()):
                lists(lambda o, g=get, k=k: getattr(g(o), k), '%s.%s' % (path, k), depth)
                if isinstance(getattr(x, k), int) and not isinstance(getattr(x, k), bool) and k not in ('type', 'flags', 'index'):
                    out.append(('%s.%s=1' % (path, k), lambda o, g=get, k=k: setattr(g(o), k, 1)))
    if cid == 'ATTR':
        for k in list(o.keys()):
            lists(lambda o, k=k: o[k], k, 0)
            out.append(('del ' + k, lambda o, k=k: o.__delitem__(k)))
            out.append(('set ' + k, lambda o, k=k: o.__setitem__(k, 5)))
        out.append(('new', lambda o: o.__setitem__(u'zz', 1)))
        return out
    for k in list(o.property_data.keys()):
        lists(lambda o, k=k: getattr(o, k), k, 2)
        v = getattr(o, k)
        if isinstance(v, avb.mobid.MobID):
            out.append((k + '.low', lambda o, k=k: setattr(getattr(o, k), 'instanceLow', 5)))
            out.append((k + '.material', lambda o, k=k: setattr(getattr(o, k), 'material', uuid.UUID(int=77))))
            out.append((k + '.label', lambda o, k=k: setattr(getattr(o, k), 'SMPTELabel', list(range(12)))))
            out.append((k + '.int', lambda o, k=k: setattr(getattr(o, k), 'int', 123)))
        if isinstance(v, int) and not isinstance(v, bool) and k not in ('value_type', 'mob_kind', 'value'):
            out.append((k + '=1', lambda o, k=k: setattr(o, k, 1)))
        if v is None or plain.cid_of(v):
            out.append((k + '=None', lambda o, k=k: setattr(o, k, None)))
    return out


def edit(ctx, cid, v, name):
    """the same change of both objects is saved alike"""
    data = spec.golden(cid, v, 'little')
    fs = both(data)
    res = []
    for f in fs:
        fn = dict(edits(f.content, cid)).get(name)
        if fn is None:
            ctx.fail('%s is not possible' % name)
        try:
            fn(f.content)
            res.append('ok')
        except Exception as e:
            res.append(type(e).__name__)
    ctx.step(2)
    if res[0] != res[1]:
        ctx.fail('%s: %s with the compiled reader, %s with the other' % (name, res[0], res[1]))
    saves(ctx, fs, name)
    ctx.impl(2)


def persist(ctx, cid, v, name):
    """a change of an object nobody keeps, behind a reference, is saved"""
    data = behind(cid, v)
    out = []
    for use_ext in (True, False):
        f = plain.open_bytes(data, use_ext=use_ext)
        o = f.content.attributes[u'ref']
        fn = dict(edits(o, cid)).get(name)
        if fn is None:
            ctx.fail('%s is not possible' % name)
        try:
            fn(o)
        except Exception:
            return
        del o, fn
        gc.collect()
        gc.collect()
        out.append(outcome(f, 'little', ctx.path()))
    ctx.step(2)
    if isinstance(out[0], str) or isinstance(out[1], str):
        if out[0] != out[1]:
            ctx.fail('%s behind a reference: saving gives %s with the compiled reader, %s with the other' % (name, show(out[0]), show(out[1])))
    elif strip(out[0]) != strip(out[1]):
        ctx.fail('%s behind a reference: saved bytes depend on the reader: %s' % (name, where(*out)))
    ctx.impl(2)


def behind(cid, v):
    """leaves 1.., object n, attributes n+1 with a reference to it, filler root"""
    refs = set()
    plain.find_refs(v, refs)
    n = max(list(refs) + [0])
    chunks = []
    for i in range(1, n + 1):
        k, lv = spec.leaf(i)
        chunks.append((k, spec.encode(k, lv, 'little')))
    chunks.append((cid, spec.encode(cid, v, 'little')))
    a = {'$items': [{'type': 3, 'key': u'ref', 'value': ('R', n + 1)}]}
    chunks.append(('ATTR', spec.encode('ATTR', a, 'little')))
    w = dict(spec.generate('FILL')[0])
    for k in w:
        if isinstance(w[k], tuple) and w[k][0] == 'R':
            w[k] = ('R', 0)
    w['attributes'] = ('R', n + 2)
    chunks.append(('FILL', spec.encode('FILL', w, 'little')))
    return spec.container(chunks, n + 3, 'little')


def copied(ctx, cid, v):
    """copies into another document are alike, and independent"""
    data = spec.golden(cid, v, 'little')
    fs = both(data)
    dst = [avb.file.AVBFile(), avb.file.AVBFile()]
    for f, g in zip(fs, dst):
        g.content = f.content.copy(g)
    ctx.step(2)
    d = tdiff(typed_object(dst[0].content, plain.leaf_ref), typed_object(dst[1].content, plain.leaf_ref))
    if d:
        ctx.fail('copies: ' + d)
    saves(ctx, dst, 'copies')
    saves(ctx, fs, 'copied')
    ctx.impl(2)


def sequence(ctx, objs, kept):
    """objects read one after the other leave nothing behind in the reader"""
    leaves = [(k, spec.encode(k, lv, 'little')) for k, lv in (spec.leaf(i) for i in range(1, 5))]
    body = leaves + [(cid, spec.encode(cid, v, 'little')) for cid, v in objs]
    body.append(('ABIN', spec.encode('ABIN', docs.default('ABIN'), 'little')))
    data = spec.container(body, len(body), 'little')
    n = len(leaves)
    for at in itertools.permutations(range(len(objs))) if len(objs) < 4 else (range(len(objs)),):
        fe, fp = both(data)
        hold = []
        for i in at:
            e, p = fe.read_object(n + 1 + i), fp.read_object(n + 1 + i)
            d = tdiff(typed_object(e, plain.leaf_ref), typed_object(p, plain.leaf_ref))
            if d:
                ctx.fail('object %d of %s read as %s: %s' % (i, [c for c, v in objs], at, d))
            d = plain.diff(plain.read_plain(fe, e), plain.normalise(*objs[i]))
            if d:
                ctx.fail('object %d of %s read as %s is not what the bytes encode: %s' % (i, [c for c, v in objs], at, d))
            if kept:
                hold.append((e, p, i))
            ctx.step(2)
        for e, p, i in hold:
            d = tdiff(typed_object(e, plain.leaf_ref), typed_object(p, plain.leaf_ref))
            if d:
                ctx.fail('object %d of %s changed when others were read: %s' % (i, [c for c, v in objs], d))
    ctx.impl(2)


def twins(ctx, cid, v, name):
    """equal objects read by the compiled reader share nothing"""
    leaves = [(k, spec.encode(k, lv, 'little')) for k, lv in (spec.leaf(i) for i in range(1, 5))]
    n = len(leaves)
    body = leaves + [(cid, spec.encode(cid, v, 'little'))] * 2
    body.append(('ABIN', spec.encode('ABIN', docs.default('ABIN'), 'little')))
    data = spec.container(body, len(body), 'little')
    f, g = plain.open_bytes(data, use_ext=True), plain.open_bytes(data, use_ext=True)
    a, b, c = f.read_object(n + 1), f.read_object(n + 2), g.read_object(n + 1)
    try:
        dict(edits(a, cid))[name](a)
    except Exception:
        pass
    want = plain.normalise(cid, v)
    late = g.read_object(n + 2), plain.open_bytes(data, use_ext=True).read_object(n + 1)
    for what, o in (('its neighbour', b), ('an object of another document', c),
                    ('an object read later', late[0]), ('a document opened later', late[1])):
        d = plain.diff(plain.read_plain(o.root, o), want)
        if d:
            ctx.fail('%s of one object changes %s: %s' % (name, what, d))
    ctx.step(4)
    ctx.impl()


def project(ctx, order2):
    """a whole project through both readers"""
    data = docs.rich().encode('little')
    fs = both(data)
    n = spec.parse(data).count
    for i in range(1, n + 1):
        objs = [f.read_object(i) for f in fs]
        d = tdiff(typed_object(objs[0]), typed_object(objs[1]))
        if d:
            ctx.fail('object %d: %s' % (i, d))
        ctx.step(2)
    saves(ctx, fs, 'project')
    w = [[type(o).__name__ for o in avb.core.walk_references(f.content)] for f in fs]
    if w[0] != w[1]:
        ctx.fail('walk_references depends on the reader')
    ctx.impl(2)


def samples():
    d = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'tests', 'test_files')
    if not os.path.isdir(d):
        return []
    return [os.path.join(d, x) for x in sorted(os.listdir(d)) if x.endswith('.avb')]


def sample(ctx, path):
    fs = [avb.file.AVBFile(path, use_ext=e) for e in (True, False)]
    try:
        if fs[1].ictx.byte_order != 'little':
            return
        for i in range(1, len(fs[1].object_positions)):
            objs = []
            for f in fs:
                try:
                    objs.append(f.read_object(i))
                except NotImplementedError:
                    objs.append(None)
            ctx.step(2)
            if objs[0] is None and objs[1] is None:
                continue
            if objs[0] is None or objs[1] is None:
                ctx.fail('object %d' % i)
            d = tdiff(typed_object(objs[0]), typed_object(objs[1]))
            if d:
                ctx.fail('object %d: %s' % (i, d))
        saves(ctx, fs, 'sample')
        ctx.impl(2)
    finally:
        for f in fs:
            f.close()


def edit_values(cid, thorough):
    v, dom, ext = spec.generate(cid)
    out = [{}]
    for p, alts in dom:
        if cases.structural(p, alts):
            out += [{p: a} for a in alts]
    if ext:
        out.append(dict((p, False) for p in ext))
    if thorough:
        out += [{p: a} for p, alts in dom for a in alts]
    seen = set()
    for o in out:
        k = cases.key(o)
        if k in seen:
            continue
        seen.add(k)
        try:
            yield k, spec.generate(cid, o)[0]
        except spec.Invalid:
            pass


def shards(tier):
    out = [dict(s, w='read') for s in cases.kind_shards(tier, kinds(), ('little',), per=500)]
    for cid in kinds():
        out.append({'w': 'edit', 'cid': cid})
        out.append({'w': 'copy', 'cid': cid})
        out.append({'w': 'pairs', 'cid': cid})
    out.append({'w': 'kinds'})
    out.append({'w': 'misc'})
    return out


def run(shard, ctx):
    require_ext()
    w = shard['w']
    if w == 'read':
        for k, o, v in cases.every(shard, ctx.tier):
            ctx.state(k)
            ctx.case(k, check, ctx, shard['cid'], v)
    elif w == 'edit':
        cid = shard['cid']
        for k, v in edit_values(cid, ctx.thorough):
            f = plain.open_bytes(spec.golden(cid, v, 'little'), use_ext=False)
            for name, fn in edits(f.content, cid):
                ctx.state((cid, k, name))
                ctx.case('edit/%s/%s/%s' % (cid, k, name), edit, ctx, cid, v, name)
                ctx.case('keep/%s/%s/%s' % (cid, k, name), persist, ctx, cid, v, name)
                ctx.case('twins/%s/%s/%s' % (cid, k, name), twins, ctx, cid, v, name)
    elif w == 'pairs':
        cid = shard['cid']
        vs = list(edit_values(cid, False))
        if ctx.thorough:
            more = list(edit_values(cid, True))
            todo = list(itertools.product(vs, more)) + list(zip(more, more[1:])) + list(zip(more, more[2:]))
        else:
            more = list(edit_values(cid, True))
            todo = list(itertools.product(vs, vs)) + list(zip(more, more[1:]))
        for (k, v), (k2, v2) in todo:
            kk = 'pair/%s/%s/%s' % (cid, k, k2)
            ctx.state(kk)
            ctx.case(kk, sequence, ctx, [(cid, v), (cid, v2)], True)
    elif w == 'kinds':
        ends = {}
        for cid in kinds():
            ext = spec.generate(cid)[2]
            ends[cid] = [spec.generate(cid)[0], spec.generate(cid, dict((p, False) for p in ext))[0]]
        for a, b in itertools.product(kinds(), repeat=2):
            for i, j in itertools.product((0, 1), repeat=2):
                kk = 'kinds/%s/%d/%s/%d' % (a, i, b, j)
                ctx.state(kk)
                ctx.case(kk, sequence, ctx, [(a, ends[a][i]), (b, ends[b][j]), (a, ends[a][1 - i])], i == j)
        everything = [(c, ends[c][i]) for i in (0, 1) for c in kinds()]
        for r in range(len(everything)):
            ctx.case('round/%d' % r, sequence, ctx, everything[r:] + everything[:r], True)
    elif w == 'copy':
        cid = shard['cid']
        for k, v in edit_values(cid, True):
            ctx.state((cid, k, 'copy'))
            ctx.case('copy/%s/%s' % (cid, k), copied, ctx, cid, v)
    else:
        for o in spec.ORDERS:
            ctx.case('project/' + o, project, ctx, o)
        for p in samples():
            ctx.case('sample/' + os.path.basename(p), sample, ctx, p)
