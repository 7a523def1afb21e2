# -*- coding: utf-8 -*-
"""C32: text survives saving for every character the format can encode."""
import re

import avb

from mc import docs, plain, spec

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive enumeration of characters and boundary lengths in every text field on the real library; saved bytes '
             'and reopened text compared with an independent layout model')
RULE = 'distinct (field, text) pairs'
BOUNDS = ('every one of the 256 MacRoman characters alone and inside text in every text field of every kind; every Unicode '
          'code point in every UTF-8 field; every ordered pair of MacRoman characters and of 69 unusual Unicode characters in every field; every BMP code point (thorough: every code point) outside MacRoman must be '
          'refused; every length 0..300 in one field and lengths around 2^8, 2^15 and 2^16 in every field with 1 to 4 byte '
          'characters; read from a file, set on a new object and set on a loaded object; both byte orders; once more with the compiled reader for the kinds that have one')
ASSUMPTIONS = ['NUL at either end of a text is padding in the format, so such text may be refused',
               'empty and missing text are the same for the fields that have no other mark of absence',
               'bin column descriptors may be refused from 32766 bytes on (signed length word)']

MAC = [bytes(bytearray([i])).decode('mac-roman') for i in range(256)]
MACSET = frozenset(MAC)


def generated(cid):
    if cid == 'ATTR':
        return spec.generate(cid, {'$items[0].type': 2, '$items[0].value': u'v', '$items[0].key': u'k0', '$items[1].key': u'k1'})
    return spec.generate(cid)


def fields(cid):
    """(path, encoding) of every text field of the kind"""
    out = []
    for p, alts in generated(cid)[1]:
        if spec.STR_ALT[-1] in alts or spec.UTF_ALT[-1] in alts:
            out.append((p, 'utf-8' if u'\U0001F3AC' in alts else 'mac-roman'))
    if cid == 'ATTR':
        out = [('$items[0].key', 'mac-roman'), ('$items[0].value', 'mac-roman'), ('$items[1].key', 'mac-roman')]
    return [x for x in out if not re.match(r'(sifted_settings|columns|sort_columns)\[[1-4]\]', x[0])]


ALL = [(cid, p, e) for cid in sorted(spec.SPECS) if cid != 'TRKG' for p, e in fields(cid)]
UTF = [x for x in ALL if x[2] == 'utf-8']
ONE = ('FILL', 'name', 'mac-roman')


def parts(path):
    return [int(x) if x.isdigit() else x for x in re.findall(r'[^.\[\]]+', path)]


def put(v, path, text):
    ps = parts(path)
    for p in ps[:-1]:
        v = v[p]
    v[ps[-1]] = text


def get(obj, cid, path):
    ps = parts(path)
    if cid == 'ATTR':
        k = list(obj.keys())[ps[1]]
        return k if ps[2] == 'key' else obj[k]
    for p in ps:
        obj = step(obj, p)
    return obj


def step(obj, p):
    if isinstance(p, int) or isinstance(obj, dict):
        return obj[p]
    return getattr(obj, p)


def assign(f, obj, cid, path, text):
    """set the text on an object of an open document"""
    ps = parts(path)
    if cid == 'ATTR':
        items = list(obj.items())
        obj.clear()
        for i, (k, v) in enumerate(items):
            if i == ps[1]:
                k, v = (text, v) if ps[2] == 'key' else (k, text)
            obj[k] = v
        return
    for p in ps[:-1]:
        obj = step(obj, p)
    if isinstance(obj, (dict, list)):
        if isinstance(obj, list) or ps[-1] in obj:
            obj[ps[-1]] = text
            return
    setattr(obj, ps[-1], text)


def limit(path, enc):
    if path.endswith('format_descriptor'):
        return 32765
    return 65532 if enc == 'utf-8' else 65534


def fits(path, enc, text):
    """True, False or None when either is right"""
    try:
        n = len(text.encode(enc))
    except UnicodeEncodeError:
        return False
    desc = path.endswith('format_descriptor')
    if not desc and (text[:1] == u'\0' or text[-1:] == u'\0'):
        return None
    if n > 65532 + (0 if enc == 'utf-8' else 2):
        return False
    if n > limit(path, enc):
        return None
    return True


def same(ctx, how, got, text):
    if (got or u'') != text or not isinstance(got, (type(None), type(u''))):
        i = next((i for i, (a, b) in enumerate(zip(got or u'', text)) if a != b), min(len(got or u''), len(text)))
        ctx.fail('%s: text of %d characters read as %d, first difference at %d: %r for %r' % (
            how, len(text), len(got or u''), i, (got or u'')[i:i + 4], text[i:i + 4]))


def value(cid, path, text):
    v = generated(cid)[0]
    put(v, path, text or (None if path in ('name', 'effect_id') and v.get('media_kind_id') is not None else text))
    return v


def base(cid, path):
    return value(cid, path, u'before')


def one(ctx, cid, path, enc, text, order, ways):
    ok = fits(path, enc, text)
    v = value(cid, path, text)
    ctx.step()
    if 'load' in ways and ok:
        data = spec.golden(cid, v, order)
        f = plain.open_bytes(data)
        same(ctx, 'loaded', get(f.content, cid, path), text)
        out = plain.save_bytes(f, order, ctx.path())
        msg = plain.check_layout(out, order, cid, v, f)
        if msg:
            ctx.fail('loaded and saved %r: %s' % (text[:8], msg))
        ctx.impl()
    for w in ('new', 'edit'):
        if w not in ways:
            continue
        if w == 'new':
            f = avb.file.AVBFile()
            obj = plain.make_object(f, cid, base(cid, path), plain.Refs(f))
            f.content = obj
        else:
            f = plain.open_bytes(spec.golden(cid, base(cid, path), order))
        try:
            assign(f, f.content, cid, path, text)
            out = plain.save_bytes(f, order, ctx.path())
        except Exception as e:
            if ok:
                ctx.fail('%s: text %r (%d characters) refused: %s' % (w, text[:8], len(text), str(e)[:80]))
            ctx.step()
            continue
        if ok is False:
            ctx.fail('%s: text %r (%d characters) that the field cannot hold was saved' % (w, text[:8], len(text)))
        msg = plain.check_layout(out, order, cid, v, f) if ok else None
        if msg:
            ctx.fail('%s: saved %r: %s' % (w, text[:8], msg))
        g = plain.open_bytes(out)
        same(ctx, w, get(g.content, cid, path), text)
        ctx.impl()


def many(ctx, cid, path, enc, texts, order, ways):
    for t in texts:
        one(ctx, cid, path, enc, t, order, ways)


def refuse(ctx, cid, path, enc, texts):
    """each text must make the save raise; the document stays usable"""
    f = avb.file.AVBFile()
    f.content = obj = plain.make_object(f, cid, base(cid, path), plain.Refs(f))
    tmp = ctx.path()
    for t in texts:
        try:
            assign(f, obj, cid, path, t)
            f.write(tmp, 'little')
        except Exception:
            ctx.step()
            continue
        ctx.fail('%r (U+%04X) was saved in a MacRoman field' % (t, ord(t[-1])))
    assign(f, obj, cid, path, u'fine')
    msg = plain.check_layout(plain.save_bytes(f, 'little', tmp), 'little', cid, value(cid, path, u'fine'), f)
    if msg:
        ctx.fail('after refused texts: ' + msg)


def wrong_type(ctx, cid, path, enc, order):
    """values that are not text"""
    for bad in (b'bytes', bytearray(b'x'), 5, 1.5, [u'a'], {u'a': 1}, object(), True, (u'a',)):
        if cid == 'ATTR':
            return      # typed by the value, see C16
        f = plain.open_bytes(spec.golden(cid, base(cid, path), order))
        try:
            assign(f, f.content, cid, path, bad)
            f.write(ctx.path(), order)
        except Exception:
            ctx.step()
            continue
        ctx.fail('%r saved as text' % (bad,))


def lengths(enc, path):
    top = limit(path, enc)
    ns = set([0, 1, 2, 3, 254, 255, 256, 257, 32764, 32765, top - 3, top - 2, top - 1, top])
    if not path.endswith('format_descriptor'):
        ns |= set([32766, 32767, 32768, 32769])
    ns |= set([65529, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65538, 70000, 131072, 131073, 131080, 196610])
    return sorted(ns)


def texts_of(n, unit):
    """texts of n encoded bytes made of the unit, padded with ASCII"""
    if len(unit) == 1:
        return u'x' * n
    return None


def length_texts(enc, path, thorough):
    out = []
    for n in lengths(enc, path):
        out.append(u'x' * n)
        if enc == 'mac-roman':
            out.append(u'\xe9' * n)
        else:
            for ch in (u'\xe9', u'\u4e2d', u'\U0001F3AC'):
                k = len(ch.encode('utf-8'))
                out.append(u'x' * (n % k) + ch * (n // k))
                if thorough:
                    out.append(ch * (n // k) + u'x' * (n % k))
    return out


def codepoints():
    return [i for i in range(1, 0x110000) if not 0xD800 <= i < 0xE000]


ODD = (u'aAe1 \0\x01\t\n\r\x1b\x7f\x80\x85\xa0\xad\xdf\xe9\u0130\u0131\u0300\u0301\u0308\u0323\u0327\u0345\u034f\u0378\u05bf\u0600'
       u'\u093c\u0958\u0f71\u1100\u1161\u11a8\u1e9e\u200b\u200c\u200d\u200e\u2028\u2029\u202e\u2060\u20ac\u2126\u212b\u3000'
       u'\u304b\u3099\uac00\ud7ff\ue000\uf900\ufb01\ufb1d\ufe0f\ufeff\ufffd\ufffe\uffff\U00010000\U0001d15e\U0001f1e6\U0001f1fa'
       u'\U0001f3ac\U0001f469\U0010ffff')


def pair_texts(enc):
    """texts in which every ordered pair of characters is next to each other"""
    chars = MAC if enc == 'mac-roman' else list(ODD)
    per = 64 if enc == 'mac-roman' else 16
    out = []
    for lo in range(0, len(chars), per):
        out.append(u'x' + u''.join(a + b for a in chars[lo:lo + per] for b in chars) + u'x')
    return out


def shards(tier):
    t = tier == 'thorough'
    out = [{'w': 'mac', 'part': i, 'of': 24} for i in range(24)]
    out += [{'w': 'utf', 'part': i, 'of': 16} for i in range(16)]
    out += [{'w': 'bad', 'part': i, 'of': 128 if t else 16} for i in range(128 if t else 16)]
    out += [{'w': 'len', 'part': i, 'of': 24} for i in range(24)]
    out += [{'w': 'pair', 'part': i, 'of': 16} for i in range(16)]
    out += [{'w': 'short', 'part': i, 'of': 4} for i in range(4)]
    out += [{'w': 'surrogate', 'part': i, 'of': 4} for i in range(4)]
    if t:
        out += [{'w': 'each', 'part': i, 'of': 64} for i in range(64)]
    return out


def ext_shards(tier):
    return shards(tier)


WAYS = ('load', 'new', 'edit')


def run(shard, ctx):
    w, part, of = shard['w'], shard['part'], shard['of']
    orders = spec.ORDERS
    if w == 'mac':
        for n, (cid, p, e) in enumerate(ALL[part::of]):
            for lo in range(0, 256, 32):
                for k, order in enumerate(orders if ctx.thorough else [orders[(n + lo // 32) % 2]]):
                    ts = []
                    for i, c in enumerate(MAC[lo:lo + 32]):
                        ts += [c, u'a' + c + u'b'] + ([u'a' + c, c + u'a', c + c] if ctx.thorough else [])
                    for x in ts:
                        ctx.state((cid, p, x))
                    ways = WAYS if ctx.thorough or (lo // 32) % 4 == part % 4 else ('load', WAYS[1 + lo // 32 % 2])
                    ctx.case('mac/%s/%s/%d/%s' % (cid, p, lo, order), many, ctx, cid, p, e, ts, order, ways)
            ctx.case('type/%s/%s' % (cid, p), wrong_type, ctx, cid, p, e, orders[n % 2])
    elif w == 'utf':
        cps = codepoints()
        packs = [cps[i:i + 256] for i in range(0, len(cps), 256)][part::of]
        for n, pack in enumerate(packs):
            text = u''.join(chr(c) for c in pack)
            for k, (cid, p, e) in enumerate(UTF):
                ctx.state((cid, p, pack[0]))
                order = orders[(n + k) % 2]
                ways = WAYS if ctx.thorough else (WAYS[(n + k // 2) % 3],)
                ctx.case('utf/%s/%s/%X/%s' % (cid, p, pack[0], order), one, ctx, cid, p, e, text, order, ways)
    elif w == 'each':
        cid, p, e = [x for x in UTF if x[0] == 'MCBR'][0]
        cps = codepoints()[part::of]
        for lo in range(0, len(cps), 500):
            ts = [chr(c) for c in cps[lo:lo + 500]]
            for x in ts:
                ctx.state(x)
            ctx.case('each/%d/%d' % (part, lo), many, ctx, cid, p, e, ts, orders[lo // 500 % 2], ('load',) if lo // 500 % 2 else ('new',))
    elif w == 'bad':
        cps = [c for c in range(1, 0x110000 if ctx.thorough else 0x10000) if chr(c) not in MACSET][part::of]
        for lo in range(0, len(cps), 500):
            ts = [chr(c) for c in cps[lo:lo + 500]]
            for x in ts:
                ctx.state(('bad', x))
            ctx.case('bad/%d/%d' % (part, lo), refuse, ctx, ONE[0], ONE[1], ONE[2], ts)
        if part < 16:
            hard = [u'\u4e2d', u'a\u0301', u'\x80', u'\u2028', u'\xa4', u'\U0001F3AC', u'\ud83c', u'plain\ufffd', u'\xad', u'\xb2', u'\xd7', u'\u0100']
            for cid, p, e in [x for x in ALL if x[2] == 'mac-roman'][part::16]:
                ctx.state((cid, p))
                ctx.case('hard/%s/%s' % (cid, p), refuse, ctx, cid, p, e, hard)
    elif w == 'len':
        for n, (cid, p, e) in enumerate(ALL[part::of]):
            for i, t in enumerate(length_texts(e, p, ctx.thorough)):
                ctx.state((cid, p, len(t), t[-1:]))
                ways = WAYS if ctx.thorough else (WAYS[i % 2], 'edit') if n % 4 == 0 else (WAYS[i % 2],)
                for order in (orders if ctx.thorough else [orders[(i + n) % 2]]):
                    ctx.case('len/%s/%s/%d/%s/%s' % (cid, p, i, len(t), order), one, ctx, cid, p, e, t, order, ways)
    elif w == 'pair':
        for n, (cid, p, e) in enumerate(ALL[part::of]):
            for i, t in enumerate(pair_texts(e)):
                ctx.state((cid, p, 'pairs', i))
                ways = WAYS if ctx.thorough else (WAYS[(i + n) % 3],)
                for order in (orders if ctx.thorough else [orders[(i + n // 3) % 2]]):
                    ctx.case('pair/%s/%s/%d/%s' % (cid, p, i, order), one, ctx, cid, p, e, t, order, ways)
    elif w == 'short':
        # every length, in one field of each encoding
        top = 4000 if ctx.thorough else 300
        for cid, p, e in (ONE, [x for x in UTF if x[0] == 'MCBR'][0], ('ATTR', '$items[0].key', 'mac-roman'),
                          [x for x in UTF if x[0] == 'BVst'][0]):
            ns = list(range(0, top))[part::of]
            ts = [u'\xe9' * (n // 2) + u'x' * (n - n // 2) for n in ns]
            for n in ns:
                ctx.state((cid, n))
            for order in orders:
                ctx.case('short/%s/%d/%s' % (cid, part, order), many, ctx, cid, p, e, ts, order, WAYS)
    else:
        # lone surrogates cannot be encoded
        cps = list(range(0xD800, 0xE000))[part::of]
        for cid, p, e in UTF[:2] if not ctx.thorough else UTF:
            for c in cps:
                ctx.state(('sur', cid, p, c))
            ctx.case('surrogate/%s/%s/%d' % (cid, p, part), refuse, ctx, cid, p, e, [chr(c) for c in cps])
