# -*- coding: utf-8 -*-
"""C25: created objects have unique identities; the factory builds what it is asked for."""
import gc
import itertools
import json
import os
import random
import time

import avb
import avb.utils

from mc import cases, docs, many, parts, plain, spec

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive exploration of all histories of creating, copying, loading, dropping and saving objects in three '
             'documents, and of all orders of obtaining and calling two factory attributes, on the real library')
RULE = 'distinct histories'
BOUNDS = ('all histories of 4 (5 in the thorough tier) of 12 operations over a loaded, a new and a second loaded '
          'document (whose root is the last or the first object of its file); all ordered pairs of the factory\'s classes with the attributes obtained before either is called, '
          'within one document and across two; all triples of 8 kinds; every documented argument, positional and '
          'named; the defaults of every class against a table; up to 70000 new objects in one document')
ASSUMPTIONS = ['the default values of new objects are pinned by mc/defaults.json']


# ----------------------------------------------------------------- factory

def class_names():
    return sorted(set(spec.NAMES.values()) | set(json.load(open(os.path.join(os.path.dirname(__file__), '..',
                                                                             'defaults.json')))))


def jsonable(v):
    if isinstance(v, (bytes, bytearray)):
        return {'bytes': bytes(v).hex()}
    if isinstance(v, dict):
        return dict((str(k), jsonable(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [jsonable(x) for x in v]
    return v


def shape(o):
    u = jsonable(parts.unfold(o))
    if isinstance(u, list) and len(u) == 2 and isinstance(u[1], dict):
        for k in ('uid',) + (('mob_id', 'last_modified', 'creation_time') if u[0] == 'CMPO' else ()):
            if k in u[1]:
                u[1][k] = '*'
    return u


DEFAULTS = None


def is_kind(ctx, o, name, f, what):
    global DEFAULTS
    if DEFAULTS is None:
        DEFAULTS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'defaults.json')))
    if type(o).__name__ != name or type(o) is not avb.utils.AVBClassName_dict[name]:
        ctx.fail('%s: create.%s built %s' % (what, name, type(o).__name__))
    if o.root is not f:
        ctx.fail('%s: the object belongs to another document' % what)
    d = plain.diff([shape(o)], [DEFAULTS[name]])
    if d:
        ctx.fail('%s: new %s is not as documented: %s' % (what, name, d))


def pair(ctx, a, b):
    f, g = avb.file.AVBFile(), avb.file.AVBFile()
    for d1, d2, where in ((f, f, 'one document'), (f, g, 'two documents')):
        for order in ('abAB', 'abBA', 'aAbB', 'abABAB', 'abAbBA'):
            h = {}
            made = []
            for c in order:
                if c == 'a':
                    h['a'] = getattr(d1.create, a)
                elif c == 'b':
                    h['b'] = getattr(d2.create, b)
                elif c == 'A':
                    made.append((h['a'](), a, d1))
                else:
                    made.append((h['b'](), b, d2))
                ctx.step()
            for o, n, d in made:
                is_kind(ctx, o, n, d, '%s in %s' % (order, where))
            distinct(ctx, [o for o, n, d in made if d is f], 'in ' + where)
            ctx.impl()


def triple(ctx, names):
    f = avb.file.AVBFile()
    hs = [getattr(f.create, n) for n in names]
    for perm in itertools.permutations(range(3)):
        for i in perm:
            is_kind(ctx, hs[i](), names[i], f, str(perm))
            ctx.step()
    ctx.impl()


def distinct(ctx, objs, what):
    ids = {}
    for o in objs:
        if not getattr(o, 'class_id', None):
            continue
        i = o.instance_id
        if i in ids and ids[i] is not o:
            ctx.fail('%s: two objects with number %d' % (what, i))
        ids[i] = o


KIND_NAMES = (None, 'picture', 'sound', 'timecode', 'edgecode', 'attribute', 'effectdata', 'DescriptiveMetadata')
COMPONENTS = ('Sequence', 'Edgecode', 'TrackRef', 'ParamClip', 'ControlClip', 'Filler', 'SourceClip', 'Timecode',
              'TrackGroup', 'TrackEffect', 'PanVolumeEffect', 'AudioSuitePluginEffect', 'EqualizerMultiBand', 'Repeat',
              'MotionEffect', 'StrobeEffect', 'CaptureMask', 'TransitionEffect', 'Selector', 'EssenceGroup')


def arguments(ctx, name):
    f = avb.file.AVBFile()
    make = getattr(f.create, name)
    for rate in (None, 24, 25.0, 29.97, 30, 48000):
        for kind in KIND_NAMES:
            for how in range(3):
                if how == 0:
                    kw = {}
                    if rate is not None:
                        kw['edit_rate'] = rate
                    if kind is not None:
                        kw['media_kind'] = kind
                    o = make(**kw)
                elif how == 1:
                    o = make(25 if rate is None else rate, kind)
                else:
                    o = f.create.from_name(name, 25 if rate is None else rate, media_kind=kind)
                ctx.step()
                if o.edit_rate != (25 if rate is None else rate) or o.media_kind != kind:
                    ctx.fail('%s(%s, %s) has %s, %s' % (name, rate, kind, o.edit_rate, o.media_kind))
                o.edit_rate, o.media_kind_id = 25, 0
                is_kind(ctx, o, name, f, 'with arguments')
    ctx.impl()


def composition(ctx):
    f = avb.file.AVBFile()
    ids = set()
    for name in (None, u'', u'x', u'long name ' * 5):
        for mt, code in ((None, 2), ('CompositionMob', 1), ('MasterMob', 2), ('SourceMob', 3)):
            for how in range(3):
                kw = {}
                if how != 1:
                    if name is not None:
                        kw['name'] = name
                    if mt is not None:
                        kw['mob_type'] = mt
                    o = f.create.Composition(**kw) if how == 0 else f.create.from_name('Composition', **kw)
                else:
                    o = f.create.Composition(name or u'Mob', mt or 'MasterMob')
                want = u'Mob' if name is None or (how == 1 and not name) else name
                ctx.step()
                if o.name != want or o.mob_type_id != code or o.mob_type != (mt or 'MasterMob'):
                    ctx.fail('Composition(%r, %r) is %r, %r' % (name, mt, o.name, o.mob_type))
                b = plain.mob_bytes(o.mob_id)
                if b in ids or b == bytes(32):
                    ctx.fail('the mob id of a new mob is not new')
                ids.add(b)
                for t in (o.creation_time, o.last_modified):
                    if abs(plain.to_ts(t) - time.time()) > 600:
                        ctx.fail('time of a new mob: %s' % t)
                o.name, o.mob_type_id = u'Mob', 2
                is_kind(ctx, o, 'Composition', f, 'with arguments')
    for bad in ('Composition', 'mastermob', '', None, 4, 2):
        n = len(f.modified_objects)
        try:
            f.create.Composition(mob_type=bad)
        except ValueError:
            pass
        else:
            ctx.fail('Composition(mob_type=%r) is accepted' % (bad,))
    # every series starts from the same random state
    uids, ids = [], []
    for i in range(8):
        random.seed(1)
        uids += [f.create.Bin().uid for i in range(25)]
        ids += [int.from_bytes(bytes(f.create.Composition().mob_id.bytes_le), 'big') for i in range(25)]
    for what, x, size, least in (('uids of new bins', uids, 64, 60), ('ids of new mobs', ids, 256, 100)):
        if len(set(x)) != len(x):
            ctx.fail('%s repeat' % what)
        vary = sum(1 for b in range(size) if len(set(v >> b & 1 for v in x)) == 2)
        if vary < least or min(x) < 0 or max(x) >> size:
            ctx.fail('%s differ in %d bits only' % (what, vary))
    for bad in ('Nothing', 'composition', '', 'AVBObject2', 'Root'):
        for call in (lambda: f.create.from_name(bad), lambda: getattr(f.create, bad)()):
            try:
                call()
            except (ValueError, AttributeError):
                pass
            else:
                ctx.fail('the factory builds %r' % bad)
    ctx.impl()


# ---------------------------------------------------------------- histories

OPS = ('new', 'tree', 'bad', 'obtain', 'call', 'load', 'copy in', 'copy out', 'save', 'drop', 'helper', 'other')


class Run(object):
    def __init__(self, ctx, order, root=None):
        self.ctx = ctx
        d = docs.Doc()
        if root == 'first':
            d.add('ABIN')
        a = d.put('ATTR', {'$items': [docs.attr(u'n', 1)]})
        s = d.add('FILL', 'f', length=4)
        q = d.put('SEQU', docs.default('SEQU', components=[docs.R(s), docs.R(a)]))
        d.add('ABIN')
        self.n, self.filler, self.sequence, self.root = len(d.chunks), s, q, root
        data = d.encode(order, 1 if root == 'first' else None)
        self.a = plain.open_bytes(data)
        self.b = avb.file.AVBFile()
        self.c = plain.open_bytes(data)
        self.held = dict((f, []) for f in (self.a, self.b, self.c))
        self.ids = dict((f, set()) for f in (self.a, self.b, self.c))
        # objects later found in the saved file, by label
        self.labels = {}
        self.handle = None
        self.count = 0

    def made(self, f, o):
        """a new object and everything created with it"""
        for x in avb.core.walk_references(o):
            if any(x is h for h in self.held[f]) or x is f.content.attributes and x.instance_id in self.ids[f]:
                continue
            if x.root is not f:
                self.ctx.fail('new object belongs to another document')
            i = x.instance_id
            if i in self.ids[f]:
                self.ctx.fail('number %d is given to two objects' % i)
            if f is not self.b and 0 <= i <= self.n:
                self.ctx.fail('number %d of an object of the file is given to a new one' % i)
            self.ids[f].add(i)
            self.held[f].append(x)
            y = f.read_object(i)
            if y is not x:
                self.ctx.fail('number %d leads to %r, not %r' % (i, y, x))

    def check(self, last=False):
        for f in self.held:
            distinct(self.ctx, self.held[f], 'history')
        for f in (self.a, self.c):
            for i in range(1, self.n + 1):
                o = f.object_cache.get(i)
                if o is not None and o.instance_id != i:
                    self.ctx.fail('object %d has number %d' % (i, o.instance_id))
            if self.root and not last:
                continue
            o = f.read_object(self.filler)
            if plain.cid_of(o) != 'FILL' or o.length != 4:
                self.ctx.fail('object 2 of the file is %r' % o)

    def attach(self, f, o):
        self.count += 1
        k = u'o%d' % self.count
        if f.content.attributes is None:
            f.content.attributes = a = f.create.Attributes()
            if a.instance_id in self.ids[f]:
                self.ctx.fail('number %d is given to two objects' % a.instance_id)
            self.ids[f].add(a.instance_id)
        f.content.attributes[k] = o
        self.labels.setdefault(f, {})[k] = (plain.cid_of(o), o.get('length', None) if plain.cid_of(o) == 'FILL' else None)

    def do(self, op):
        f = self.a
        if op == 'new':
            o = f.create.Filler()
            self.count += 1
            o.length = 100 + self.count
            self.made(f, o)
            self.attach(f, o)
        elif op == 'tree':
            self.made(f, f.create.Composition())
        elif op == 'bad':
            try:
                f.create.Composition(mob_type='bad')
            except ValueError:
                pass
            else:
                self.ctx.fail('unknown mob type')
        elif op == 'obtain':
            self.handle = (self.a.create.Filler, self.b.create.Timecode, self.c.create.MediaDescriptor)
        elif op == 'call':
            if self.handle:
                for h, d, n in zip(self.handle, (self.a, self.b, self.c), ('Filler', 'Timecode', 'MediaDescriptor')):
                    o = h()
                    if type(o).__name__ != n or o.root is not d:
                        self.ctx.fail('kept factory attribute %s built %r' % (n, o))
                    if n == 'Filler':
                        o.length = 55
                    self.made(d, o)
                    self.attach(d, o)
        elif op == 'load':
            for i in range(1, self.n + 1):
                f.read_object(i).instance_id
            for o in f.iter_class_ids([b'FILL', b'SEQU']):
                if o.instance_id > self.n:
                    self.ctx.fail('an object of the file has number %d' % o.instance_id)
        elif op == 'copy in':
            o = self.c.read_object(self.sequence).copy(f)
            self.made(f, o)
            self.attach(f, o)
        elif op == 'copy out':
            o = f.read_object(self.sequence).copy(self.b)
            self.made(self.b, o)
            self.attach(self.b, o)
            o = f.read_object(self.filler).copy(f)
            self.made(f, o)
            self.attach(f, o)
        elif op == 'save':
            for d in (self.a, self.b, self.c):
                self.saved(d, 'big')
        elif op == 'drop':
            for d in self.held:
                self.held[d] = []
            gc.collect(0)
        elif op == 'helper':
            t = f.create.Track()
            t2 = f.create.SiftItem()
            if t.root is not f:
                self.ctx.fail('helper belongs to another document')
        elif op == 'other':
            o = self.c.create.Timecode()
            self.made(self.c, o)
            self.attach(self.c, o)
            o = self.b.create.Composition(u'm', 'SourceMob')
            self.made(self.b, o)
            self.attach(self.b, o)
        self.ctx.step()
        self.check()

    def saved(self, d, order):
        data = plain.save_bytes(d, order, self.ctx.path())
        p, objs = plain.decode_saved(data, order)
        want = self.labels.get(d, {})
        got = {}
        root = objs[p.root][1]
        if root['attributes'][1]:
            for it in objs[root['attributes'][1]][1]['$items']:
                cid, v = objs[it['value'][1]]
                got[it['key']] = (cid, v['length'] if cid == 'FILL' else None)
        if got != want:
            self.ctx.fail('saved %r, created %r' % (got, want))


def history(ctx, ops, order, root=None):
    r = Run(ctx, order, root)
    for op in ops:
        r.do(op)
    r.check(True)
    for d in (r.a, r.b, r.c):
        r.saved(d, order)
    ctx.impl()


def shards(tier):
    return ([{'w': 'pair', 'part': i} for i in range(16)] + [{'w': 'triple'}, {'w': 'args'}] +
            [{'w': 'many', 'n': n} for n in (300, 1050, 70000)] +
            [{'w': 'hist', 'op': op, 'op2': op2} for op in OPS for op2 in OPS])


def run(shard, ctx):
    w = shard['w']
    if w == 'pair':
        names = class_names()
        names.remove('AVBRefList')
        for i, a in enumerate(names):
            if i % 16 != shard['part']:
                continue
            for b in names:
                k = 'pair/%s/%s' % (a, b)
                ctx.state(k)
                ctx.case(k, pair, ctx, a, b)
    elif w == 'many':
        for kind in ('dropped', 'kept', 'clips'):
            if kind == 'clips' and shard['n'] > 2000:
                continue
            for order in spec.ORDERS:
                k = 'many/%d/%s/%s' % (shard['n'], kind, order)
                ctx.state(k)
                ctx.case(k, many.created, ctx, shard['n'], order, kind)
    elif w == 'triple':
        for t in itertools.permutations(('Composition', 'Sequence', 'Track', 'Attributes', 'Bin', 'ParamClip',
                                         'CDCIDescriptor', 'ParameterList'), 3):
            k = 'triple/%s/%s/%s' % t
            ctx.state(k)
            ctx.case(k, triple, ctx, t)
    elif w == 'args':
        for n in COMPONENTS:
            ctx.state(n)
            ctx.case('args/' + n, arguments, ctx, n)
        ctx.state('composition')
        ctx.case('composition', composition, ctx)
    else:
        for rest in itertools.product(OPS, repeat=3 if ctx.thorough else 2):
            ops = (shard['op'], shard['op2']) + rest
            k = 'hist/' + '/'.join(ops)
            ctx.state(k)
            ctx.case(k, history, ctx, ops, spec.ORDERS[len(rest[0]) % 2])
            # nothing of the file but the root, its first object, is read unless the operations do
            ctx.case(k + '/root', history, ctx, ops, spec.ORDERS[len(rest[0]) % 2], 'first')
