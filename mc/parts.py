# -*- coding: utf-8 -*-
"""In-place edits of every mutable part of an object."""
import datetime
import uuid

import avb
import avb.core
import avb.mobid
import avb.utils

from . import plain


def is_object(v):
    return hasattr(v, 'class_id') and hasattr(v, 'root')


def _scalar(v):
    """a different value of the same sort, or None"""
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + 1 if v < 100 else v - 1
    if isinstance(v, float):
        return v + 0.5
    if isinstance(v, str):
        return v[:-1] + u'q' if v[-1:] != u'q' else v + u'z'
    if isinstance(v, (bytes, bytearray)):
        return bytearray(v) + b'\x01'
    if isinstance(v, uuid.UUID):
        return uuid.UUID(int=v.int ^ 1)
    if isinstance(v, datetime.datetime):
        return v + datetime.timedelta(seconds=60)
    if isinstance(v, avb.mobid.MobID):
        return plain.make_mob(bytes(bytearray([plain.mob_bytes(v)[0] ^ 1])) + plain.mob_bytes(v)[1:])
    if v is None:
        return 1
    return None


class Edit(object):
    def __init__(self, path, do, undo):
        self.path, self.do, self.undo = path, do, undo


def edits(obj, top=False, skip=()):
    """every in-place edit of the mutable parts reachable from obj.  With top
    also the assignment of obj's own scalar fields."""
    out = []
    seen = set()

    def walk(v, path, fields):
        if id(v) in seen:
            return
        if isinstance(v, avb.mobid.MobID):
            seen.add(id(v))
            out.append(_bytes_edit(v.bytes_le, path + '.bytes_le'))
            return
        if isinstance(v, bytearray):
            seen.add(id(v))
            out.append(_append_edit(v, 0x41, path))
            if len(v):
                out.append(_bytes_edit(v, path))
            return
        if isinstance(v, list):
            seen.add(id(v))
            if not isinstance(v, tuple):
                if len(v):
                    out.append(_append_edit(v, v[0], path))
                    out.append(_pop_edit(v, path))
                    s = _scalar(v[0]) if not is_object(v[0]) and v[0] is not None else None
                    if s is not None:
                        out.append(_item_edit(v, 0, s, path))
                elif not is_object(v):
                    out.append(_append_edit(v, {'new': 1} if path.endswith('columns') else 1, path))
            for i, x in enumerate(list(v)):
                walk(x, '%s[%d]' % (path, i), True)
            return
        if isinstance(v, dict):
            seen.add(id(v))
            for k in list(v):
                s = _scalar(v[k]) if not is_object(v[k]) and not isinstance(v[k], (list, dict)) else None
                if s is not None:
                    out.append(_item_edit(v, k, s, path))
            if is_object(v):
                out.append(_newkey_edit(v, u'new_key', 3, path))
            elif v and not all(isinstance(k, int) for k in v):
                out.append(_newkey_edit(v, u'new_key', 3, path))
            for k in list(v):
                walk(v[k], '%s[%r]' % (path, k), True)
            return
        if hasattr(v, 'property_data'):
            seen.add(id(v))
            for k in list(v.property_data.keys()):
                x = getattr(v, k)
                if fields and (path, k) not in skip:
                    s = _scalar(x) if not is_object(x) and not isinstance(x, (list, dict)) else None
                    if s is not None:
                        out.append(_field_edit(v, k, s, path))
                walk(x, '%s.%s' % (path, k), True)
    walk(obj, '', top)
    return out


def _bytes_edit(b, path):
    def do():
        b[0] = b[0] ^ 1
    return Edit(path + '[0]^1', do, do)


def _append_edit(v, x, path):
    def undo():
        del v[len(v) - 1]
    return Edit(path + '+1', lambda: v.append(x), undo)


def _pop_edit(v, path):
    keep = []

    def do():
        keep.append(v[len(v) - 1])
        del v[len(v) - 1]
    return Edit(path + '-1', do, lambda: v.append(keep.pop()))


def _item_edit(v, k, s, path):
    old = v[k]

    def do():
        v[k] = s

    def undo():
        v[k] = old
    return Edit('%s[%r]=' % (path, k), do, undo)


def _newkey_edit(v, k, s, path):
    def do():
        v[k] = s

    def undo():
        del v[k]
    return Edit('%s[%r]+' % (path, k), do, undo)


def _field_edit(v, k, s, path):
    old = getattr(v, k)

    def do():
        setattr(v, k, s)

    def undo():
        setattr(v, k, old)
    return Edit('%s.%s=' % (path, k), do, undo)


def unfold(obj, depth=0):
    """plain tree of everything reachable from obj; objects are expanded at
    every reference (graphs are acyclic)"""
    if depth > 200:
        raise AssertionError('cyclic graph')
    if is_object(obj):
        d = plain.object_plain(obj, lambda o: ('O', unfold(o, depth + 1)))
        return [plain.cid_of(obj) or type(obj).__name__, plain.norm(d)]
    return plain.norm(plain.value_plain(obj, lambda o: ('O', unfold(o, depth + 1))))
