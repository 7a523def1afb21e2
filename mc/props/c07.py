# -*- coding: utf-8 -*-
"""C07: every edit reaches the saved file."""
import gc
import itertools

import avb
import avb.core
import avb.mobid

from mc import cases, docs, graphs, many, parts, plain, spec

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of single edits of every place of every kind, and of all histories of edits, dropped '
             'references, garbage collection, reads and (failed) saves on a project, compared with a model document that '
             'the same edits are applied to')
RULE = 'distinct (object, edit, what happens before the save) behaviours'
BOUNDS = ('every in-place edit and assignment of every field, helper record, list, dictionary and byte of the full layout '
          'of every kind, reached over the shortest path, every value assigned as a whole or replaced by an equal one, and every new optional value and pair of them, x 5 ways to go on; all histories of 2 edits (3 in the thorough '
          'tier) out of 33 on a 27 object project x 3 ways to reach the objects x 9 events after each edit; 7 sets of edits in documents of up to 1050 clips; both byte orders; once more with the compiled reader for the kinds that have one')
ASSUMPTIONS = ['the byte_order of a color correction parameter is the one of the file, assigning it has no effect',
               'edits go through attributes, lists, dictionaries and their methods, not through property_data']


# ------------------------------------------------- every edit of every kind

def step(o, s):
    if s[0] == 'get ':
        return o.get(s[1], None)
    return getattr(o, s[1]) if s[0] == '.' else o[s[1]]


def enum(obj):
    """-> [(steps, op, arg)]"""
    out = []

    def walk(v, steps, top):
        if isinstance(v, avb.mobid.MobID):
            out.append((steps + (('.', 'bytes_le'),), 'flip', None))
            out.append((steps, 'attr', ('instanceLow', v.instanceLow ^ 1)))
            out.append((steps, 'attr', ('int', v.int ^ 3)))
            return
        if isinstance(v, bytearray):
            out.append((steps, 'append', 0x41))
            if len(v):
                out.append((steps, 'flip', None))
            return
        if isinstance(v, dict):
            for k in list(v):
                s = parts._scalar(v[k]) if not parts.is_object(v[k]) and not isinstance(v[k], (list, dict)) else None
                if s is not None:
                    out.append((steps, 'item', (k, s)))
            if parts.is_object(v):
                out.append((steps, 'item', (u'new_key', 3)))
                out.append((steps, 'update', {u'n1': u'x', u'n2': 5}))
                out.append((steps, 'setdefault', (u'n3', 9)))
                for k in list(v)[:1]:
                    out.append((steps, 'del', k))
            for k in list(v):
                if not parts.is_object(v[k]):
                    walk(v[k], steps + (('[', k),), False)
            return
        if isinstance(v, list):
            if len(v):
                out.append((steps, 'append first', None))
                out.append((steps, 'del', len(v) - 1))
                out.append((steps, 'reverse', None))
                s = parts._scalar(v[0]) if not parts.is_object(v[0]) and v[0] is not None else None
                if s is not None:
                    out.append((steps, 'item', (0, s)))
            for i in range(len(v)):
                if not parts.is_object(v[i]):
                    walk(v[i], steps + (('[', i),), False)
            return
        if hasattr(v, 'property_data'):
            for k in list(v.property_data):
                x = getattr(v, k)
                if parts.is_object(x):
                    out.append((steps, 'attr', (k, None)))
                elif not isinstance(x, (list, dict)):
                    s = parts._scalar(x)
                    if s is not None and k != 'byte_order':
                        out.append((steps, 'attr', (k, s)))
                if not parts.is_object(x) or isinstance(x, list) and not getattr(x, 'class_id', None):
                    walk(x, steps + (('.', k),), False)
    walk(obj, (), True)
    for k in list(getattr(obj, 'property_data', ())):
        x = getattr(obj, k)
        for how in REBUILD:
            if isinstance(x, (list, dict, bytearray)) and not getattr(x, 'class_id', None) and rebuilt(x, how) != x:
                out.append(((), 'rebuild', (k, how)))
    return out


REBUILD = ('longer', 'shorter', 'none', 'turned')


def rebuilt(x, how):
    """a new container of other contents"""
    if isinstance(x, dict):
        keys = list(x)
        if how == 'longer':
            return dict(x, new_key=3)
        return dict((k, x[k]) for k in (keys[:-1] if how == 'shorter' else [] if how == 'none' else keys))
    if how == 'longer':
        return x[:] + x[:1]
    if how == 'turned':
        return x[::-1]
    return x[:-1] if how == 'shorter' else x[:0]


def twin(v):
    """an equal value of its own"""
    if isinstance(v, avb.mobid.MobID):
        return avb.mobid.MobID(bytes_le=bytes(v.bytes_le))
    if isinstance(v, bytearray):
        return bytearray(v)
    if isinstance(v, dict):
        return dict(v)
    return [x for x in v]


def swappable(obj, e):
    if not e[0] or e[1] in ('new', 'rebuild', 'swap', 'stale'):
        return False
    for s in e[0]:
        obj = step(obj, s)
    return isinstance(obj, (list, dict, bytearray, avb.mobid.MobID)) and not parts.is_object(obj)


def apply(f, obj, e):
    steps, op, arg = e
    if isinstance(obj, int):
        obj = f.read_object(obj)    # nothing else holds it while a part of it is edited
    if op in ('swap', 'stale'):
        # the value is replaced with an equal one; the new or the old one is edited afterwards
        for s in steps[:-1]:
            obj = step(obj, s)
        old = step(obj, steps[-1])
        new = twin(old)
        if steps[-1][0] == '.':
            setattr(obj, steps[-1][1], new)
        else:
            obj[steps[-1][1]] = new
        apply(f, new if op == 'swap' else old, ((),) + arg)
        return
    for s in steps:
        obj = step(obj, s)
    if op == 'flip':
        obj[0] = obj[0] ^ 1
    elif op == 'append':
        obj.append(arg)
    elif op == 'append first':
        obj.append(obj[0])
    elif op == 'del':
        del obj[arg]
    elif op == 'reverse':
        obj.reverse()
    elif op == 'item':
        obj[arg[0]] = arg[1]
    elif op == 'update':
        obj.update(arg)
    elif op == 'setdefault':
        obj.setdefault(*arg)
    elif op == 'attr':
        setattr(obj, *arg)
    elif op == 'rebuild':
        setattr(obj, arg[0], rebuilt(getattr(obj, arg[0]), arg[1]))
    elif op == 'new':
        for k, v in zip(arg[::2], arg[1::2]):
            setattr(obj, k, plain.from_plain_value(f, k, v, Leaves(f)))


class Leaves(object):
    def __init__(self, f):
        self.f = f

    def __getitem__(self, i):
        return self.f.read_object(i)


def wrap(cid, v, order):
    """leaves 1..5, the object 6, a root that refers to it"""
    ch = [spec.leaf(i) for i in range(1, 6)] + [(cid, v), ('ATTR', {'$items': [docs.attr(u'o', docs.R(6))]}),
                                                ('ABIN', docs.default('ABIN', attributes=docs.R(7)))]
    return spec.container([(c, spec.encode(c, x, order)) for c, x in ch], 8, order)


WAYS = ('gc', 'read', 'save', 'bad save', 'nothing')


def show(o):
    try:
        return repr(o)
    except ValueError:
        pass        # mob types without name


def between(ctx, f, way):
    if way == 'gc':
        gc.collect()
    elif way == 'read':
        gc.collect()
        for i in range(1, len(f.object_positions)):
            show(f.read_object(i))
        gc.collect()
    elif way == 'save':
        gc.collect()
        try:
            f.write(ctx.path('between.avb'), 'big')
        except Exception:
            pass
        gc.collect()
    elif way == 'bad save':
        old = f.content.mac_font
        f.content.mac_font = 1 << 40
        try:
            f.write(ctx.path('between.avb'), 'little')
        except Exception:
            pass
        else:
            ctx.fail('unsavable document was saved')
        f.content.mac_font = old
        gc.collect()


def outcome(ctx, f, order, cid):
    try:
        data = plain.save_bytes(f, order, ctx.path())
    except Exception as e:
        return type(e).__name__
    p, objs = plain.decode_saved(data, order)
    at = [i for i in range(1, p.count + 1) if objs[i][0] == 'ATTR' and any(
        it['key'] == u'o' and it['type'] == 3 for it in objs[i][1]['$items'])]
    o = [it['value'][1] for it in objs[at[-1]][1]['$items'] if it['key'] == u'o'][0]
    if objs[o][0] != cid:
        raise AssertionError('saved %s' % objs[o][0])
    return plain.normalise(cid, plain.relabel(objs[o][1], objs))


def replaced(ctx, cid, v, order, e, way):
    """an equal value takes the place of the old one, then one of the two is edited"""
    data = wrap(cid, v, order)
    want = []
    for edit in (e, None):
        f = plain.open_bytes(data)
        if edit:
            apply(f, f.read_object(6), edit)
        m = plain.normalise(cid, plain.object_plain(f.read_object(6), plain.leaf_ref))
        want.append((m, outcome(ctx, f, order, cid)))
    for kind, (model, out) in zip(('swap', 'stale'), want):
        f = plain.open_bytes(data)
        apply(f, f.read_object(6), (e[0], kind, e[1:]))
        between(ctx, f, way)
        ctx.step()
        d = plain.diff(plain.normalise(cid, plain.object_plain(f.read_object(6), plain.leaf_ref)), model)
        if d:
            ctx.fail('%s after %s: %s' % (way, kind, d))
        got = outcome(ctx, f, order, cid)
        if isinstance(out, str) or isinstance(got, str):
            if isinstance(out, str) != isinstance(got, str):
                ctx.fail('%s after %s: saved %r instead of %r' % (way, kind, got, out))
        else:
            d = plain.diff(got, out)
            if d:
                ctx.fail('%s after %s: saved %s' % (way, kind, d))
        ctx.impl()


def one(ctx, cid, v, order, e, ways):
    data = wrap(cid, v, order)
    # reference: everything is held
    f = plain.open_bytes(data)
    hold = [f.read_object(i) for i in range(1, 9)]
    deep = parts.unfold(f.content)
    o = f.read_object(6)
    before = repr(plain.object_plain(o, plain.leaf_ref))
    apply(f, o, e)
    want_model = plain.normalise(cid, plain.object_plain(o, plain.leaf_ref))
    if repr(plain.object_plain(o, plain.leaf_ref)) == before and e[1] != 'reverse':
        ctx.fail('the edit does not change what is read back')
    want = outcome(ctx, f, order, cid)
    if not isinstance(want, str):
        d = plain.diff(want, want_model)
        if d:
            ctx.fail('saved %s' % d)
    for way in ways:
        f = plain.open_bytes(data)
        apply(f, 6, e)
        between(ctx, f, way)
        ctx.step()
        d = plain.normalise(cid, plain.object_plain(f.read_object(6), plain.leaf_ref))
        d = plain.diff(d, want_model)
        if d:
            ctx.fail('%s: the edit is lost: %s' % (way, d))
        got = outcome(ctx, f, order, cid)
        if isinstance(want, str) or isinstance(got, str):
            if isinstance(want, str) != isinstance(got, str):
                ctx.fail('%s: saved %r instead of %r' % (way, got, want))
        else:
            d = plain.diff(got, want)
            if d:
                ctx.fail('%s: saved %s' % (way, d))
        ctx.impl()


# ------------------------------------------------------ histories of edits

class World(object):
    """the project and the model that is edited with it"""

    def __init__(self, ctx, nav, order):
        self.ctx = ctx
        d = docs.rich()
        self.m = dict((i + 1, [c, v]) for i, (c, v) in enumerate(d.chunks))
        self.names = d.names
        self.root = len(d.chunks)
        self.f = plain.open_bytes(d.encode(order))
        self.nav = nav
        self.order = order
        self.k = 0

    def v(self, name):
        return self.m[self.names[name]][1]

    def new(self, cid, v):
        i = max(self.m) + 1
        self.m[i] = [cid, v]
        return i

    def o(self, name):
        """the object: over the content, by number or by class"""
        f = self.f
        if self.nav == 'number':
            return f.read_object(self.names[name])
        if self.nav == 'class':
            n = [i for i in sorted(self.names.values()) if self.m[i][0] == self.m[self.names[name]][0] and i <= self.root]
            cid = self.m[self.names[name]][0].encode('latin-1')
            for x in f.iter_class_ids([cid]):
                if x.instance_id == self.names[name]:
                    return x
            raise AssertionError(name)
        P = {
            'bin': lambda: f.content, 'view': lambda: f.content.view_setting,
            'view_attr': lambda: f.content.view_setting.attributes,
            'comp': lambda: f.content.items[0].mob if self.bin_ok() else self.by_number('comp'),
            'master': lambda: f.content.items[1].mob if self.bin_ok() else self.by_number('master'),
            'source': lambda: f.content.items[2].mob if self.bin_ok() else self.by_number('source'),
            'locator': lambda: self.o('descriptor').locator,
            'descriptor': lambda: self.o('source').descriptor,
            'attr': lambda: self.o('master').attributes,
            'comp_attr': lambda: self.o('comp').attributes,
        }
        if name in P:
            x = P[name]()
            if x is not None and x.instance_id == self.names[name]:
                return x
        return self.by_number(name)

    def bin_ok(self):
        return len(self.f.content.items) >= 3

    def by_number(self, name):
        for x in avb.core.walk_references(self.f.content):
            if x.instance_id == self.names[name] and x.root is self.f:
                return x
        return self.f.read_object(self.names[name])


def e_name(w):
    w.o('comp').name = u'edited'
    w.v('comp')['name'] = u'edited'


def e_time(w):
    w.o('comp').creation_time = plain.from_ts(1234567890)
    w.v('comp')['creation_time'] = 1234567890 if not isinstance(w.v('comp')['creation_time'], tuple) else ('T', 1234567890)


def e_track(w):
    w.o('master').tracks[0].lock_number = 77
    w.v('master')['tracks'][0]['lock_number'] = 77


def e_track_iter(w):
    for t in w.o('comp').tracks:
        t.index += 5
    for t in w.v('comp')['tracks']:
        t['index'] += 5


def e_track_null(w):
    w.o('source').tracks[1].component = None
    w.v('source')['tracks'][1]['component'] = docs.R(0)


def e_track_new(w):
    t = w.f.create.Track()
    t.index, t.lock_number = 9, 1
    t.component = w.o('timecode')
    w.o('comp').tracks.append(t)
    w.v('comp')['tracks'].append(docs.track(index=9, lock_number=1, component=docs.R(w.names['timecode'])))


def e_track_del(w):
    del w.o('comp').tracks[-1]
    del w.v('comp')['tracks'][-1]


def items(w, name):
    return w.v(name)['$items']


def put(w, name, key, value):
    for it in items(w, name):
        if it['key'] == key:
            it.update(docs.attr(key, value))
            return
    items(w, name).append(docs.attr(key, value))


def e_attr(w):
    w.o('attr')[u'note'] = u'changed'
    put(w, 'attr', u'note', u'changed')


def e_attr_bytes(w):
    w.o('attr')[u'bob'].append(7)
    for it in items(w, 'attr'):
        if it['key'] == u'bob':
            it['value'] = it['value'] + b'\x07'


def e_attr_bytes_values(w):
    for v in w.o('attr').values():
        if isinstance(v, bytearray):
            v[0] ^= 0x55
    for it in items(w, 'attr'):
        if it['key'] == u'bob':
            it['value'] = bytes(bytearray([it['value'][0] ^ 0x55])) + it['value'][1:]


def e_attr_bytes_items(w):
    for k, v in w.o('attr').items():
        if k == u'bob':
            v[-1] ^= 1
    for it in items(w, 'attr'):
        if it['key'] == u'bob':
            it['value'] = it['value'][:-1] + bytes(bytearray([it['value'][-1] ^ 1]))


def e_attr_bytes_get(w):
    w.o('attr').get(u'bob').extend(b'yz')
    for it in items(w, 'attr'):
        if it['key'] == u'bob':
            it['value'] = it['value'] + b'yz'


def e_attr_new(w):
    w.k += 1
    w.o('comp_attr')[u'k%d' % w.k] = w.k
    put(w, 'comp_attr', u'k%d' % w.k, w.k)


def e_attr_del(w):
    w.o('attr').pop(u'_COLOR', None)
    w.m[w.names['attr']][1]['$items'] = [i for i in items(w, 'attr') if i['key'] != u'_COLOR']


def e_attr_obj(w):
    a = w.f.create.Attributes()
    a[u'inside'] = w.o('attr')
    w.o('view_attr')[u'new object'] = a
    i = w.new('ATTR', {'$items': [docs.attr(u'inside', docs.R(w.names['attr']))]})
    put(w, 'view_attr', u'new object', docs.R(i))


def e_attr_order(w):
    w.o('attr').move_to_end(u'note', last=False)
    it = [i for i in items(w, 'attr') if i['key'] == u'note']
    w.m[w.names['attr']][1]['$items'] = it + [i for i in items(w, 'attr') if i['key'] != u'note']


def e_point(w):
    w.o('curve').control_points[0].value = 5.5
    w.v('curve')['control_points'][0]['value'] = 5.5


def e_point_prop(w):
    w.o('curve').control_points[1].pp[0].value = 0.25
    w.v('curve')['control_points'][1]['pp'][0]['value'] = 0.25


def e_point_new(w):
    p = w.f.create.ParamControlPoint()
    p.offset, p.timescale, p.value, p.pp = [3, 4], 30, 8.0, []
    w.o('curve').control_points.insert(1, p)
    w.v('curve')['control_points'].insert(1, docs.point(3, 4, 30, 8.0))
    # the points keep their places for the other edits
    c = w.o('curve').control_points
    c[1], c[2] = c[2], c[1]
    c = w.v('curve')['control_points']
    c[1], c[2] = c[2], c[1]


def e_list(w):
    w.o('seq').components.append(w.o('clip'))
    w.v('seq')['components'].append(docs.R(w.names['clip']))


def e_list_del(w):
    del w.o('seq').components[0]
    del w.v('seq')['components'][0]


def e_list_replace(w):
    c = w.o('seq').components
    c[1:2] = [w.o('clip'), w.f.create.Filler()]
    c[2].length = 3
    x = docs.default('FILL', length=3)
    a = w.new('ATTR', {'$items': []})
    filler_model(w, x, a)
    w.v('seq')['components'][1:2] = [docs.R(w.names['clip']), docs.R(w.new('FILL', x))]


def filler_model(w, x, a):
    """a Filler as the factory makes it"""
    x.update(left_bob=docs.R(0), right_bob=docs.R(0), media_kind_id=0, edit_rate=25.0, name=None, effect_id=None,
             attributes=docs.R(a), session_attrs=docs.R(0), precomputed=docs.R(0))
    x.pop('param_list', None)


def e_list_iadd(w):
    s = w.o('seq')
    s.components += [w.o('clip_src')]
    w.v('seq')['components'].append(docs.R(w.names['clip_src']))


def e_params(w):
    w.o('params').insert(0, w.o('param'))
    w.v('params')['$list'].insert(0, docs.R(w.names['param']))


def e_params_pop(w):
    if len(w.v('params')['$list']):
        w.o('params').pop()
        w.v('params')['$list'].pop()


def e_param(w):
    w.o('param').value = 99
    w.v('param')['value'] = 99


def e_item(w):
    w.o('bin').items[-1].x = 1234
    w.v('bin')['items'][-1]['x'] = 1234


def e_item_del(w):
    del w.o('bin').items[-1]
    del w.v('bin')['items'][-1]


def e_item_new(w):
    i = w.f.create.BinItem()
    i.mob = w.o('source')
    i.x, i.y, i.keyframe, i.user_placed = 8, 9, 1, False
    w.o('bin').items.insert(0, i)
    # the first item stays in front for the other edits
    b = w.o('bin').items
    b.append(b.pop(0))
    w.v('bin')['items'].append({'$h': 'BinItem', 'mob': docs.R(w.names['source']), 'x': 8, 'y': 9, 'keyframe': 1,
                                'user_placed': False})


def e_colour(w):
    w.o('bin').background_color[1] = 777
    w.v('bin')['background_color'][1] = 777


def e_column(w):
    w.o('view').columns[0]['title'] = u'Titel'
    w.v('view')['columns'][0]['title'] = u'Titel'


def e_column_new(w):
    w.o('view').columns.append({'title': u'New', 'format': 1, 'type': 2, 'hidden': True})
    w.v('view')['columns'].append({'title': u'New', 'format': 1, 'type': 2, 'hidden': True})


def e_sort(w):
    w.o('bin').sort_columns.append([0, u'Color'])
    w.v('bin')['sort_columns'].append([0, u'Color'])


def mid(w, name, b):
    old = w.v(name)['mob_id']
    w.v(name)['mob_id'] = ('M', b) if isinstance(old, tuple) else b


def mget(w, name):
    old = w.v(name)['mob_id']
    return old[1] if isinstance(old, tuple) else old


def e_mobid(w):
    w.o('clip').mob_id.bytes_le[0] ^= 0x10
    b = bytearray(mget(w, 'clip'))
    b[0] ^= 0x10
    mid(w, 'clip', bytes(b))


def e_mobid_field(w):
    w.o('comp').mob_id.instanceLow = 33
    b = bytearray(mget(w, 'comp'))
    b[15] = 33
    mid(w, 'comp', bytes(b))


def e_mobid_set(w):
    w.o('clip_src').mob_id = plain.make_mob(docs.mob_id(77))
    mid(w, 'clip_src', docs.mob_id(77))


def e_path(w):
    w.o('locator').path = u'/other/b.mxf'
    w.v('locator')['path'] = u'/other/b.mxf'


def e_drop_attr(w):
    w.o('source').attributes = w.o('comp_attr')
    w.v('source')['attributes'] = docs.R(w.names['comp_attr'])


EDITS = (e_name, e_time, e_track, e_track_iter, e_track_null, e_track_new, e_track_del, e_attr, e_attr_bytes,
         e_attr_bytes_values, e_attr_bytes_items, e_attr_bytes_get, e_attr_new, e_attr_del, e_attr_obj, e_attr_order,
         e_point, e_point_prop, e_point_new, e_list, e_list_del, e_list_replace, e_list_iadd, e_params, e_params_pop,
         e_param, e_item, e_item_del, e_item_new, e_colour, e_column, e_column_new, e_sort, e_mobid, e_mobid_field,
         e_mobid_set, e_path, e_drop_attr)

EVENTS = ('none', 'gc', 'read all', 'save', 'save big', 'bad save', 'lookups', 'copy', 'hold')


def event(w, ev):
    f = w.f
    if ev == 'gc':
        gc.collect()
    elif ev == 'read all':
        gc.collect()
        for i in range(1, len(f.object_positions)):
            repr(f.read_object(i))
        gc.collect()
    elif ev in ('save', 'save big'):
        gc.collect()
        check(w, 'little' if ev == 'save' else 'big', 'in between')
        gc.collect()
    elif ev == 'bad save':
        x = f.create.Filler()
        x.length = 1 << 50
        w.o('bin').attributes[u'bad'] = x
        del x
        try:
            f.write(w.ctx.path('bad.avb'))
        except Exception:
            pass
        else:
            w.ctx.fail('unsavable document was saved')
        del w.o('bin').attributes[u'bad']
        gc.collect()
    elif ev == 'lookups':
        for m in f.content.mobs:
            list(m.dependant_mobs())
        list(f.content.toplevel()), list(f.content.mastermobs())
        for c in f.iter_class_ids([b'PRCL']):
            c.value_at(0.3)
        for c in f.chunks():
            c.read()
    elif ev == 'copy':
        g = avb.file.AVBFile()
        for m in f.content.mobs:
            m.copy(g)
        del g, m
        gc.collect()
    elif ev == 'hold':
        w.held = [f.read_object(i) for i in range(1, len(f.object_positions), 2)]


def check(w, order, what):
    try:
        data = plain.save_bytes(w.f, order, w.ctx.path())
    except Exception as e:
        w.ctx.fail('%s: saving failed: %r' % (what, e))
    m = graphs.check_saved(data, order, dict((i, tuple(x)) for i, x in w.m.items()), w.root)
    if m:
        w.ctx.fail('%s: %s' % (what, m))


def history(ctx, es, evs, nav, order):
    w = World(ctx, nav, order)
    for e, ev in zip(es, evs):
        e(w)
        event(w, ev)
        ctx.step(2)
    check(w, order, 'in the end')
    ctx.impl()


def shards(tier):
    out = []
    for cid in cases.KINDS:
        out.append({'w': 'kind', 'cid': cid})
    for nav in ('path', 'number', 'class'):
        for i in range(len(EDITS)):
            out.append({'w': 'hist', 'nav': nav, 'e': i})
    out += [{'w': 'many', 'order': o, 'n': n} for o in spec.ORDERS for n in many.SIZES]
    return out


def ext_shards(tier):
    out = cases.compiled(s for s in shards(tier) if s.get('nav', 'path') == 'path')
    return [dict(s, orders=['little']) if s['w'] == 'kind' else s for s in out]


def run(shard, ctx):
    if shard['w'] == 'many':
        n, order = shard['n'], shard['order']
        for name, at in many.subsets(n)[1:]:
            for how in ('length', 'number', 'attributes'):
                k = 'many/%d/%s/%s/%s' % (n, order, name, how)
                ctx.state(k)
                ctx.case(k, many.edits, ctx, n, order, name, at, how)
        return
    if shard['w'] == 'kind':
        cid = shard['cid']
        full = spec.generate(cid)[0]
        for order in shard.get('orders', spec.ORDERS):
            probe = plain.open_bytes(wrap(cid, full, order))
            es = enum(probe.read_object(6))
            for i, e in enumerate(es):
                k = 'kind/%s/%s/%s%s/%r' % (cid, order, e[1], ''.join('%s%s' % s for s in e[0]), e[2])
                ctx.state(k)
                ways = WAYS if ctx.thorough else (('gc', WAYS[1 + (i + len(order)) % 4]) if order == 'little' else
                                                  (WAYS[(i + 2) % 4],))
                ctx.case(k, one, ctx, cid, full, order, e, ways)
                if e[0] and e[0][0][0] == '.':
                    e2 = ((('get ', e[0][0][1]),) + e[0][1:],) + e[1:]
                    ctx.state('get/' + k)
                    ctx.case('get/' + k, one, ctx, cid, full, order, e2, WAYS if ctx.thorough else ('gc',))
                if swappable(probe.read_object(6), e):
                    for w in WAYS if ctx.thorough else (WAYS[(i + len(order)) % 5],):
                        ctx.state('swap/%s/%s' % (k, w))
                        ctx.case('swap/%s/%s' % (k, w), replaced, ctx, cid, full, order, e, w)
            # values assigned as a whole, what was there is not looked at
            alts = {}
            for over in cases.overrides(cid, ctx.tier, False):
                if len(over) != 1:
                    continue
                try:
                    v2 = spec.generate(cid, over)[0]
                except spec.Invalid:
                    continue
                ch = [k for k in sorted(set(full) | set(v2)) if full.get(k) != v2.get(k)]
                if len(ch) == 1 and ch[0] in v2 and ch[0] in full and not ch[0].startswith('$'):
                    x = alts.setdefault(ch[0], [])
                    if v2[ch[0]] not in x and len(x) < (12 if ctx.thorough else 2):
                        x.append(v2[ch[0]])
            for k in full:
                if isinstance(full[k], list) and len(full[k]) and not k.startswith('$') and not k.endswith('color'):
                    if full[k][:-1] not in alts.setdefault(k, []):
                        alts[k].append(full[k][:-1])
            for k in sorted(alts):
                for n, x in enumerate(alts[k]):
                    e = ((), 'new', (k, x))
                    kk = 'whole/%s/%s/%s/%r' % (cid, order, k, x)
                    ctx.state(kk)
                    ctx.case(kk, one, ctx, cid, full, order, e, WAYS if ctx.thorough else ('gc', WAYS[1 + n % 4]))
            # optional values an object does not have yet
            ext = spec.generate(cid)[2]
            small = spec.generate(cid, dict((x, False) for x in ext))[0]
            for k in sorted(full):
                if k in small or k == '$h':
                    continue
                e = ((), 'new', (k, full[k]))
                kk = 'new/%s/%s/%s' % (cid, order, k)
                ctx.state(kk)
                ctx.case(kk, one, ctx, cid, small, order, e, WAYS)
                for other in sorted(full):
                    if other > k and other not in small and other != '$h':
                        e = ((), 'new', (k, full[k], other, full[other]))
                        kk = 'new/%s/%s/%s/%s' % (cid, order, k, other)
                        ctx.state(kk)
                        ctx.case(kk, one, ctx, cid, small, order, e, WAYS[len(k + other) % 2:][:1])
        return
    e1 = EDITS[shard['e']]
    n = 0
    for e2 in EDITS:
        for a, ev1 in enumerate(EVENTS):
            for b, ev2 in enumerate(EVENTS if ctx.thorough else (('gc', 'read all', 'save', 'hold')[(a + shard['e']) % 4],)):
                n += 1
                if not ctx.thorough and (n + shard['e']) % 3 != ('path', 'number', 'class').index(shard['nav']):
                    continue
                k = 'hist/%s/%s/%s/%s/%s' % (shard['nav'], e1.__name__, ev1, e2.__name__, ev2)
                ctx.state(k)
                ctx.case(k, history, ctx, (e1, e2), (ev1, ev2), shard['nav'], spec.ORDERS[n % 2])
        if ctx.thorough and shard['nav'] == 'path':
            for e3 in EDITS:
                k = 'hist/%s/%s/%s/%s/triple' % (shard['nav'], e1.__name__, e2.__name__, e3.__name__)
                ctx.state(k)
                ctx.case(k, history, ctx, (e1, e2, e3), ('gc', 'read all', 'save'), shard['nav'], spec.ORDERS[n % 2])
