# -*- coding: utf-8 -*-
"""C09: an object of a file is one Python object while anyone holds it."""
import gc
import itertools
import weakref

import avb
import avb.core

from mc import cases, docs, many, plain, spec

LEVEL = 'model_checking'
TECHNIQUE = ('stateless exploration of all access / hold / drop / edit / failed read histories on the real library against '
             'a model of which objects are held or edited and of every value')
RULE = 'distinct histories and (kind, value) documents'
BOUNDS = ('all histories of up to 3 (4 thorough) of 40 operations (28 ways to reach 8 objects, dropping, collecting, '
          'editing, failing reads, sweeps, failing saves, creating) on a 27 object project that has a damaged and an '
          'unknown object; all ordered pairs (triples thorough) of first loads; every reference of every kind; 7 sets '
          'of held objects x 5 ways to read all others in documents of up to 10000 objects; once more with the compiled reader for the kinds that have one')
ASSUMPTIONS = ['objects are reached from one thread', 'indexes are those the file uses (1 to the number of objects)']

SHIFT = 2


def shifted(v):
    if isinstance(v, tuple) and v and v[0] == 'R':
        return ('R', v[1] + SHIFT if v[1] else 0)
    if isinstance(v, dict):
        return dict((k, shifted(x)) for k, x in v.items())
    if isinstance(v, list):
        return [shifted(x) for x in v]
    return v


class Model(object):
    def __init__(self):
        d = docs.rich()
        n = d.names
        battr = d.value(n['bin'])['attributes'][1]
        d.chunks[battr - 1][1] = {'$items': [docs.attr(u'ok', docs.R(n['attr'])), docs.attr(u'bad', docs.R(1 - SHIFT)),
                                             docs.attr(u'unk', docs.R(2 - SHIFT)), docs.attr(u'mob', docs.R(n['comp'])),
                                             docs.attr(u'seq', docs.R(n['seq']))]}
        e = docs.Doc()
        e.raw('FILL', b'\x02\x09junk')
        e.raw('ZZZZ', b'\x03')
        for cid, v in d.chunks:
            e.put(cid, shifted(v))
        self.doc = e
        self.n = dict((k, v + SHIFT) for k, v in n.items())
        self.n['z0'] = e.value(self.n['seq'])['components'][0][1]
        self.count = len(e.chunks)
        self.bytes = dict((o, e.encode(o)) for o in spec.ORDERS)
        self.want = dict((i, plain.normalise(cid, v)) for i, (cid, v) in enumerate(e.chunks, 1) if i > SHIFT)


# -------------------------------------------------------------------- routes

def by_mob(n):
    return lambda f, m: f.content.find_by_mob_id(plain.make_mob(docs.mob_id(n)))


def at(name):
    return lambda f, m: f.read_object(m.n[name])


def by_class(cid, name):
    def fn(f, m):
        # every object of that class, in file order
        for o in f.iter_class_ids([cid]):
            if o.instance_id == m.n[name]:
                return o
    return fn


def walk(name):
    def fn(f, m):
        for o in avb.core.walk_references(f.read_object(m.n['comp'])):
            if o.instance_id == m.n[name]:
                return o
    return fn


def mob(f, i):
    return list(f.content.mobs)[i]


def battr(f):
    return f.content.attributes


def seq(f):
    return mob(f, 0).tracks[0].component


ROUTES = [
    ('comp', 'index', at('comp')), ('comp', 'item', lambda f, m: f.content.items[0].mob),
    ('comp', 'mobs', lambda f, m: mob(f, 0)), ('comp', 'find', by_mob(1)),
    ('comp', 'toplevel', lambda f, m: next(f.content.toplevel())), ('comp', 'attr', lambda f, m: battr(f)[u'mob']),
    ('comp', 'class', by_class(b'CMPO', 'comp')),
    ('master', 'mastermobs', lambda f, m: next(f.content.mastermobs())),
    ('master', 'clip', lambda f, m: seq(f).components[1].mob), ('master', 'find', by_mob(2)),
    ('master', 'dependant', lambda f, m: list(mob(f, 0).dependant_mobs())[-1]),
    ('seq', 'index', at('seq')), ('seq', 'track', lambda f, m: seq(f)), ('seq', 'attr', lambda f, m: battr(f)[u'seq']),
    ("seq", "get", lambda f, m: battr(f).get(u"seq")),
    ('z0', 'first', lambda f, m: seq(f).components[0]), ('z0', 'last', lambda f, m: seq(f).components[4]),
    ('z0', 'slice', lambda f, m: seq(f).components[4:5][0]), ('z0', 'iter', lambda f, m: list(seq(f).components)[0]),
    ('z0', 'class', by_class(b'FILL', 'z0')), ('z0', 'walk', walk('z0')),
    ('attr', 'attributes', lambda f, m: mob(f, 1).attributes),
    ('attr', 'nested', lambda f, m: mob(f, 0).attributes[u'_USER']), ('attr', 'attr', lambda f, m: battr(f)[u'ok']),
    ('params', 'list', lambda f, m: seq(f).components[3].param_list),
    ('curve', 'item', lambda f, m: seq(f).components[3].param_list[0].control_track),
    ('curve', 'list', lambda f, m: seq(f).components[3].param_list[2]),
    ('view', 'view', lambda f, m: f.content.view_setting),
]
TARGETS = sorted(set(r[0] for r in ROUTES))


def bad_class(f):
    list(f.iter_class_ids([b'FILL', b'ABIN']))


def bad_values(f):
    list(battr(f).values())


def bad_index(f):
    f.read_object(1)


def bad_unknown(f):
    f.read_object(2)


def bad_key(f):
    battr(f)[u'bad']


def bad_range(f):
    f.read_object(99999)


# the routes by class pass over the damaged object and stop there
CLASS_FAILS = ('class',)


class State(object):
    def __init__(self, ctx, m, order):
        self.ctx, self.m = ctx, m
        self.f = plain.open_bytes(m.bytes[order])
        self.f.tmpdir = ctx.tmp
        self.slots = {}
        self.errors = []
        self.edited = {}
        self.want = dict(m.want)
        self.new = []

    def arrive(self, name, how, o):
        i = self.m.n[name]
        if o is None or not hasattr(o, 'instance_id') or o.instance_id != i:
            self.ctx.fail('%s by %s is %r' % (name, how, o))
        h = self.slots.get(i)
        if h is not None and h is not o:
            self.ctx.fail('%s by %s is not the object that is held' % (name, how))
        e = self.edited.get(i)
        if e is not None and e() is not o:
            self.ctx.fail('%s by %s is not the object that was edited' % (name, how))
        return i

    def get(self, r):
        name, how, fn = r
        if how in CLASS_FAILS and name == 'z0':
            # the damaged object comes first
            o = None
            try:
                fn(self.f, self.m)
            except Exception:
                o = self.f.read_object(self.m.n[name])
        else:
            o = fn(self.f, self.m)
        self.slots[self.arrive(name, how, o)] = o

    def edit(self, name):
        i = self.m.n[name]
        o = self.slots.get(i)
        if o is None:
            o = self.f.read_object(i)
        self.arrive(name, 'index', o)
        w = self.want[i]
        if name == 'attr':
            o[u'new'] = 9
            w = {'$items': [x for x in w['$items'] if x[0] != u'new'] + [[u'new', 9, False]]}
        elif name == 'params':
            o.append(None)
            w = {'$list': w['$list'] + [None]}
        elif name == 'view':
            o.columns[0]['title'] = u'Other'
            w = dict(w, columns=[dict(w['columns'][0], title=u'Other')] + w['columns'][1:])
        elif name == 'seq':
            o.components.append(o.components[1])
            w = dict(w, components=w['components'] + [w['components'][1]])
        elif name == 'comp':
            o.tracks[1].start_pos = 77
            w = dict(w, tracks=[w['tracks'][0], dict(w['tracks'][1], start_pos=77)])
        elif name == 'curve':
            o.control_points[0].value = 5.0
            w = dict(w, control_points=[dict(w['control_points'][0], value=5.0)] + w['control_points'][1:])
        else:
            o.name = u'edited'
            w = dict(w, name=u'edited')
        self.want[i] = w
        self.edited[i] = weakref.ref(o)

    def op(self, op):
        kind = op[0]
        f = self.f
        if kind == 'get':
            self.get(ROUTES[op[1]])
        elif kind == 'edit':
            self.edit(op[1])
        elif kind == 'drop':
            self.slots.clear()
            del self.errors[:]
        elif kind == 'gc':
            gc.collect()
        elif kind == 'failkeep':
            # the errors (and so everything the failing code held) are kept
            for fn in (bad_index, bad_unknown, bad_key, bad_values, bad_class) * 2:
                try:
                    fn(f)
                except Exception as e:
                    self.errors.append(e)
                    continue
                self.ctx.fail('%s did not raise again while the first error is kept' % fn.__name__)
        elif kind == 'fail':
            for fn in (bad_index, bad_unknown, bad_key, bad_values, bad_class, bad_range):
                try:
                    fn(f)
                except Exception:
                    continue
                self.ctx.fail('%s did not raise' % fn.__name__)
        elif kind == 'badsave':
            try:
                f.write(self.ctx.path(), op[1])
            except Exception:
                pass
            else:
                self.ctx.fail('saved a damaged object')
        elif kind == 'sweep':
            rng = range(SHIFT + 1, self.m.count + 1)
            for i in (rng if op[1] else reversed(rng)):
                o = f.read_object(i)
                h = self.slots.get(i)
                if h is not None and h is not o:
                    self.ctx.fail('object %d read again while held' % i)
        elif kind == 'create':
            o = f.create.Filler()
            if o.instance_id <= self.m.count or any(o.instance_id == x.instance_id for x in self.new):
                self.ctx.fail('new object has id %d' % o.instance_id)
            self.new.append(o)
        self.ctx.step()
        if f.reading or f.octx is not None:
            self.ctx.fail('%s left the document reading or saving' % kind)

    def finish(self):
        f, m = self.f, self.m
        for name, how, fn in ROUTES:
            if how in CLASS_FAILS and name == 'z0':
                continue
            self.arrive(name, how, fn(f, m))
        held = []
        for i in range(SHIFT + 1, m.count + 1):
            o = f.read_object(i)
            held.append(o)
            h = self.slots.get(i)
            if h is not None and h is not o:
                self.ctx.fail('object %d is not the one held' % i)
            if o.instance_id != i:
                self.ctx.fail('object %d has id %r' % (i, o.instance_id))
            got = quiet_plain(o)
            d = plain.diff(got, self.want[i])
            if d:
                self.ctx.fail('object %d (%s): %s' % (i, plain.cid_of(o), d))
        for o in self.new:
            if f.read_object(o.instance_id) is not o:
                self.ctx.fail('new object %d is not found' % o.instance_id)
        for i, o in enumerate(held, SHIFT + 1):
            if f.read_object(i) is not o:
                self.ctx.fail('object %d read again while held' % i)
        self.ctx.impl()


def ref(o):
    return ('R', o.instance_id) if hasattr(o, 'instance_id') else ('R', o.index)


def quiet_plain(o):
    if plain.cid_of(o) == 'ATTR' and u'bad' in o:
        out = []
        for k in o:
            try:
                v = plain.value_plain(o[k], ref)
            except Exception:
                if k not in (u'bad', u'unk'):
                    raise
                v = ('R', 1 if k == u'bad' else 2)
            out.append([k, v, False])
        return plain.norm({'$items': out})
    return plain.normalise(plain.cid_of(o), plain.object_plain(o, ref))


OPS = ([('get', i) for i in range(len(ROUTES))] +
       [('edit', n) for n in TARGETS if n in ('attr', 'params', 'view', 'seq', 'curve', 'z0', 'comp')] +
       [('drop',), ('gc',), ('fail',), ('failkeep',), ('badsave', 'little'), ('sweep', 1), ('sweep', 0), ('create',)])
SMALL = [o for o in OPS if o[0] != 'gc' and not (o[0] == 'sweep' and o[1]) and
         not (o[0] == 'get' and (ROUTES[o[1]][0], ROUTES[o[1]][1]) in (
             ('comp', 'item'), ('comp', 'toplevel'), ('master', 'find'), ('seq', 'values'), ('z0', 'slice'), ('z0', 'iter'),
             ('seq', 'index'), ('attr', 'attr'), ('comp', 'mobs'), ('view', 'view'), ('comp', 'find'))) and
         not (o[0] == 'edit' and o[1] in ('view', 'z0', 'comp'))]


def history(ctx, m, order, hist):
    s = State(ctx, m, order)
    for o in hist:
        s.op(o)
    s.finish()


def firsts(ctx, m, order, idx, hold):
    """objects loaded first in some order"""
    f = plain.open_bytes(m.bytes[order])
    kept = []
    for i in idx:
        try:
            o = f.read_object(i)
        except Exception:
            if i > SHIFT:
                raise
            continue
        if i <= SHIFT:
            ctx.fail('damaged object %d was read' % i)
        if hold:
            kept.append((i, o))
        d = plain.diff(quiet_plain(o), m.want[i])
        if d:
            ctx.fail('object %d: %s' % (i, d))
        del o
    for i in range(SHIFT + 1, m.count + 1):
        d = plain.diff(quiet_plain(f.read_object(i)), m.want[i])
        if d:
            ctx.fail('object %d after loading %s: %s' % (i, idx, d))
    for i, o in kept:
        if f.read_object(i) is not o:
            ctx.fail('object %d is another one' % i)
    ctx.step(len(idx))
    ctx.impl()


def collect(v, path, out, depth=0):
    """every object reached from a value, with its path"""
    if hasattr(v, 'instance_id') and depth:
        out.append((path, v))
        return
    if hasattr(v, 'property_data'):
        for k in list(v.property_data.keys()):
            collect(getattr(v, k), path + '.' + k, out, depth + 1)
    elif isinstance(v, dict):
        for k in list(v):
            collect(v[k], '%s[%r]' % (path, k), out, depth + 1)
    elif isinstance(v, list):
        for i in range(len(v)):
            collect(v[i], '%s[%d]' % (path, i), out, depth + 1)
        for i, x in enumerate(v):
            collect(x, '%s{%d}' % (path, i), out, depth + 1)
        for i, x in enumerate(v[:]):
            collect(x, '%s[:][%d]' % (path, i), out, depth + 1)


def kind(ctx, cid, order, v):
    f = plain.open_bytes(spec.golden(cid, v, order))
    root = f.content
    want = plain.normalise(cid, v)
    first = {}
    for rnd in (0, 1):
        out = []
        collect(root, '', out)
        for path, o in out:
            h = first.setdefault(o.instance_id, o)
            if h is not o:
                ctx.fail('%s is not the object reached before as %d' % (path, o.instance_id))
            if f.read_object(o.instance_id) is not o:
                ctx.fail('%s is not the object read by index' % path)
            if plain.leaf_ref(o) != ('R', o.instance_id):
                ctx.fail('%s: object %d has the value of %s' % (path, o.instance_id, plain.leaf_ref(o)))
        if rnd == 0:
            for o in f.iter_class_ids([b'TKPA']):
                if first.get(o.instance_id, o) is not o:
                    ctx.fail('class iteration gives another object %d' % o.instance_id)
        ctx.step(len(out))
    if f.read_object(root.instance_id) is not root or f.content is not root:
        ctx.fail('root object read again')
    ids = sorted(first)
    first.clear()
    out = o = h = None
    gc.collect() if ctx.thorough else None
    d = plain.diff(plain.read_plain(f, root), want)
    if d:
        ctx.fail('values after dropping: ' + d)
    again = []
    collect(f.content, '', again)
    if sorted(set(o.instance_id for _, o in again)) != ids:
        ctx.fail('other objects reached after dropping')
    ctx.impl()


def shards(tier):
    out = [{'w': 'h', 'first': i, 'order': spec.ORDERS[i % 2]} for i in range(len(OPS))]
    out += [{'w': 'first', 'part': i, 'order': o} for i in range(4) for o in spec.ORDERS]
    for s in cases.kind_shards('quick', per=160):
        out.append(dict(s, w='kind'))
    out += [{'w': 'many', 'order': o, 'n': n} for o in spec.ORDERS for n in many.SIZES + many.LARGE]
    return out


def ext_shards(tier):
    return cases.compiled(s for s in shards(tier) if s.get('n', 0) <= 1050)


def run(shard, ctx):
    w = shard['w']
    if w == 'many':
        n, order = shard['n'], shard['order']
        for name, at in many.subsets(n):
            for rf in (False, True):
                if n in many.LARGE and (rf or name in ('first', 'middle', 'every 7th')) and not ctx.thorough:
                    continue
                k = 'many/%d/%s/%s/%d' % (n, order, name, rf)
                ctx.state(k)
                ctx.case(k, many.identity, ctx, n, order, name, at, rf)
        return
    if w == 'kind':
        for k, o, v in cases.each(shard, 'quick'):
            if not ctx.thorough and len(o) > 1:
                continue
            ctx.state(k)
            ctx.case(k, kind, ctx, shard['cid'], shard['order'], v)
        return
    m = Model()
    order = shard['order']
    if w == 'first':
        idx = range(1, m.count + 1)
        n = 3 if ctx.thorough else 2
        for h in itertools.islice(itertools.product(idx, repeat=n), shard['part'], None, 4):
            for hold in (0, 1):
                ctx.state((order, h, hold))
                ctx.case('first/%s/%s/%d' % (order, '.'.join(map(str, h)), hold), firsts, ctx, m, order, h, hold)
        return
    # all operations at depth 2, then the reduced alphabet
    gc.disable()
    first = OPS[shard['first']]
    plans = [(), (OPS,), (SMALL, SMALL)]
    if ctx.thorough:
        plans = [(), (OPS,), (OPS, OPS), (SMALL, SMALL, SMALL)]
    for p in plans:
        for rest in itertools.product(*p):
            h = (first,) + rest
            k = 'h/%s/%s' % (order, '.'.join('-'.join(map(str, x)) for x in h))
            ctx.state(k)
            ctx.case(k, history, ctx, m, order, h)
    gc.enable()
