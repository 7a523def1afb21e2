# -*- coding: utf-8 -*-
"""C10: a failed or interrupted save never damages data."""
import builtins
import errno
import gc
import io
import itertools
import os
import pathlib
import resource
import shutil
import signal
import stat
import sys

import avb

from mc import docs, graphs, plain, spec

LEVEL = 'model_checking'
TECHNIQUE = ('exhaustive fault injection into the real save (every byte the disk can fill up at, every crash point, every failing '
             'call, every interrupted line, every unwritable object) and exploration of all save / edit histories over the source file')
RULE = 'distinct (document, destination, fault point) and histories'
BOUNDS = ('25 object project and a 60 kB one; destinations: new, another document, the source file, a symbolic link to it, an open file, a descriptor, a pipe, a leftover file; '
          'disk full or killed at every byte of the file (every 64th for the large one in the thorough tier, every 997th and '
          'around the buffer size otherwise); every file system call failing or being the last; every read of the source '
          'and every write of buffered bytes failing; an interrupt at every line run (quick: every line of the file layer, every 7th elsewhere); every object '
          'unwritable; all histories of 3 (4 when the last is a save; 5 thorough) of 10 operations; every prefix of a saved file')
ASSUMPTIONS = ['power failure (loss of data the operating system had accepted) is outside the model',
               'a fault after the new document is complete may leave the new document']

DESTS = ('new', 'other', 'self', 'link')


class Model(object):
    def __init__(self, big=False):
        d = docs.rich()
        if big:
            at = d.value(d.names['comp'])['attributes'][1]
            its = d.value(at)['$items']
            its += [docs.attr(u'bob%d' % i, bytes(bytearray((i * 31 + j * 7) & 255 for j in range(15000)))) for i in range(4)]
        self.d = d
        self.n = d.names
        self.root = len(d.chunks)
        self.chunks = dict((i, tuple(c)) for i, c in enumerate(d.chunks, 1))
        self.bytes = dict((o, d.encode(o)) for o in spec.ORDERS)
        o = docs.rich()
        at = o.value(o.names['attr'])['$items']
        at.append(docs.attr(u'pad', bytes(9000 + (70000 if big else 0))))
        self.other = o.encode('big')


def edited(m):
    """the model after edit()"""
    c = dict(m.chunks)
    i = m.n['master']
    c[i] = (c[i][0], dict(c[i][1], name=u'a new name'))
    i = m.n['attr']
    c[i] = (c[i][0], {'$items': [x if x['key'] != u'_COLOR' else dict(x, value=77) for x in c[i][1]['$items']]})
    return c


def edit(f, m):
    f.read_object(m.n['master']).name = u'a new name'
    f.read_object(m.n['attr'])[u'_COLOR'] = 77


class Env(object):
    """a fresh folder with the source file, another document and a link"""

    def __init__(self, ctx, m, order, dest, source=None, to=None):
        self.ctx, self.m = ctx, m
        self.to = to or order
        self.dir = os.path.join(ctx.tmp, 'env')
        shutil.rmtree(self.dir, ignore_errors=True)
        os.mkdir(self.dir)
        self.src = os.path.join(self.dir, 'source.avb')
        self.oth = os.path.join(self.dir, 'other.avb')
        self.lnk = os.path.join(self.dir, 'link.avb')
        put(self.src, m.bytes[order])
        put(self.oth, m.other)
        os.symlink('source.avb', self.lnk)
        self.dest = {'new': os.path.join(self.dir, 'new.avb'), 'other': self.oth, 'self': self.src, 'link': self.lnk}[dest]
        self.old = {'new': None, 'other': m.other, 'self': m.bytes[order], 'link': m.bytes[order]}[dest]
        self.keep = [] if dest in ('self', 'link') else [(self.src, m.bytes[order])]
        if dest != 'other':
            self.keep.append((self.oth, m.other))
        self.want = m.expect[self.to]
        self.f = avb.file.AVBFile(source(self.src) if source else self.src)
        # the save time shown in the header
        self.f.last_save = m.time
        edit(self.f, m)

    def close(self):
        self.f.close()
        if self.f.f is not None:
            self.f.f.close()

    def save(self):
        self.f.write(self.dest, self.to)

    def state(self):
        if not os.path.exists(self.dest):
            return None
        return take(self.dest)

    def check_files(self, what, done=None, strict=False):
        """done: True saved, False failed, None killed"""
        fail = self.ctx.fail
        now = self.state()
        if done:
            if now != self.want:
                fail('%s: saved file is wrong' % what)
        elif now != self.old and (strict or now != self.want):
            fail('%s: the file at the destination is damaged (%s bytes of %s, new %s)' % (
                what, None if now is None else len(now), None if self.old is None else len(self.old), len(self.want)))
        for p, b in self.keep:
            if take(p) != b:
                fail('%s: %s was changed' % (what, os.path.basename(p)))
        for name in sorted(os.listdir(self.dir)):
            p = os.path.join(self.dir, name)
            if p in (self.src, self.oth, self.lnk, self.dest):
                continue
            b = take(p)
            if b != self.want:
                try:
                    g = plain.open_bytes(b)
                    whole(g)
                except Exception:
                    continue
                fail('%s: a partial file %s of %d bytes opens' % (what, name, len(b)))
        self.ctx.step()

    def again(self, what):
        """the open document can be saved again"""
        try:
            self.save()
            got = self.state()
            second = plain.save_bytes(self.f, self.to, os.path.join(self.dir, 'second.avb'))
        except Exception as e:
            self.ctx.fail('%s: saving again failed: %r' % (what, e))
        if got != self.want:
            self.ctx.fail('%s: saving again wrote something else' % what)
        if second != self.want:
            self.ctx.fail('%s: saving again elsewhere wrote something else' % what)
        for p, b in self.keep:
            if take(p) != b:
                self.ctx.fail('%s: %s was changed by saving again' % (what, os.path.basename(p)))
        self.ctx.impl()


def whole(f):
    for o in avb.core.walk_references(f.content):
        pass


def put(p, b):
    with open(p, 'wb') as g:
        g.write(b)


def take(p):
    with open(p, 'rb') as g:
        return g.read()


def prepare(ctx, big):
    m = Model(big)
    m.expect = {}
    m.time = plain.from_ts(1500000000)
    for o in spec.ORDERS:
        f = plain.open_bytes(m.bytes[o])
        f.last_save = m.time
        edit(f, m)
        m.expect[o] = plain.save_bytes(f, o, ctx.path('expect.avb'))
        bad = graphs.check_saved(m.expect[o], o, edited(m), m.root)
        if bad:
            ctx.fail('saving the edited document: ' + bad)
    return m


# ------------------------------------------------------------- in process

def limited(k):
    resource.setrlimit(resource.RLIMIT_FSIZE, (k, resource.RLIM_INFINITY))


def unlimited():
    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))


def disk_full(ctx, m, order, dest, k):
    e = Env(ctx, m, order, dest)
    done = False
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    limited(k)
    try:
        e.save()
        done = True
    except (OSError, IOError) as x:
        if x.errno != errno.EFBIG:
            raise
    finally:
        unlimited()
    if done and k < len(e.want):
        ctx.fail('disk full at byte %d of %d went unnoticed' % (k, len(e.want)))
    e.check_files('disk full at byte %d' % k, done)
    e.again('disk full at byte %d' % k)
    e.close()


class Fault(Exception):
    pass


HOOK = {'on': False, 'n': 0, 'at': -1, 'act': None, 'names': []}
INSTALLED = []


def hook(event, args):
    h = HOOK
    if not h['on'] or not (event == 'open' or event.startswith('os.') or event.startswith('shutil.')):
        return
    h['n'] += 1
    h['names'].append(event)
    if h['n'] == h['at']:
        h['on'] = False
        h['act']()


def arm(at, act):
    if not INSTALLED:
        sys.addaudithook(hook)
        INSTALLED.append(1)
    HOOK.update(on=True, n=0, at=at, act=act, names=[])


def disarm():
    HOOK['on'] = False
    return list(HOOK['names'])


def no_space():
    raise OSError(errno.EIO, 'injected')


def failing_call(ctx, m, order, dest, n):
    """the n-th file system call of the save fails; True if there is one"""
    e = Env(ctx, m, order, dest)
    done = False
    arm(n, no_space)
    try:
        e.save()
        done = True
    except (OSError, IOError) as x:
        if x.errno != errno.EIO:
            raise
    finally:
        names = disarm()
    what = 'call %d (%s) failing' % (n, names[n - 1] if len(names) >= n else '-')
    e.check_files(what, done)
    e.again(what)
    e.close()
    return len(names) >= n


def failing_calls(ctx, m, order, dest):
    n = 1
    while failing_call(ctx, m, order, dest, n):
        n += 1
        if n > 200:
            ctx.fail('more than 200 file system calls')
    if n < 2:
        ctx.fail('the save made no file system call')


class Source(io.FileIO):
    """a source file whose n-th access fails"""
    left = None
    kind = None

    def hit(self):
        if Source.left is not None:
            Source.left -= 1
            if Source.left == 0:
                Source.left = None
                raise OSError(errno.EIO, 'injected')

    def read(self, *a):
        self.hit()
        return super().read(*a)

    def readinto(self, b):
        self.hit()
        return super().readinto(b)

    def seek(self, *a):
        self.hit()
        return super().seek(*a)


def failing_read(ctx, m, order, dest, n):
    e = Env(ctx, m, order, dest, lambda p: Source(p, 'rb'))
    gc.collect()
    done = False
    Source.left = n
    try:
        e.save()
        done = True
    except (OSError, IOError) as x:
        if x.errno != errno.EIO:
            raise
    finally:
        used = Source.left is None
        Source.left = None
    what = 'read access %d failing' % n
    if used and done:
        ctx.fail('%s went unnoticed' % what)
    e.check_files(what, done, strict=not done)
    e.again(what)
    e.close()
    return used


def failing_reads(ctx, m, order, dest):
    n = 1
    while failing_read(ctx, m, order, dest, n):
        n += 1
    if n < 10:
        ctx.fail('the save read the source %d times only' % n)


class Written(io.FileIO):
    """a file of the save; the n-th write into it fails, or that one and all later ones"""
    left = None
    sticky = False
    hits = 0

    def write(self, b):
        if Written.left is not None:
            Written.left -= 1
            if Written.left == 0 or Written.left < 0 and Written.sticky:
                Written.hits += 1
                raise OSError(errno.ENOSPC, 'injected')
        return super().write(b)


def failing_write(ctx, m, order, dest, n, sticky):
    e = Env(ctx, m, order, dest)
    gc.collect()
    real = io.open

    def opening(path, mode='r', buffering=-1, *a, **k):
        if 'b' not in mode or not set(mode) & set('wax+') or isinstance(path, int):
            return real(path, mode, buffering, *a, **k)
        raw = Written(path, mode.replace('b', ''))
        if buffering == 0:
            return raw
        return (io.BufferedRandom if '+' in mode else io.BufferedWriter)(raw, *([buffering] if buffering > 1 else []))
    done = False
    Written.left, Written.sticky, Written.hits = n, sticky, 0
    io.open = builtins.open = opening
    try:
        e.save()
        done = True
    except (OSError, IOError) as x:
        if x.errno != errno.ENOSPC:
            raise
    finally:
        io.open = builtins.open = real
        Written.left = None
        hits = Written.hits
    what = 'write %d%s failing' % (n, ' and later' if sticky else '')
    if hits and done:
        ctx.fail('%s went unnoticed' % what)
    e.check_files(what, done)
    e.again(what)
    e.close()
    return hits


def failing_writes(ctx, m, order, dest):
    for sticky in (False, True):
        n = 1
        while failing_write(ctx, m, order, dest, n, sticky):
            n += 1
            if n > 500:
                ctx.fail('more than 500 writes')


class Interrupt(BaseException):
    pass


HERE = os.path.dirname(os.path.abspath(avb.__file__))


def interrupt(ctx, m, order, dest, n, act):
    """an interrupt at the n-th line the library runs; True if there is one"""
    e = Env(ctx, m, order, dest)
    left = [n]

    def local(frame, event, arg):
        if event == 'line':
            left[0] -= 1
            if left[0] == 0:
                act()
        return local

    def trace(frame, event, arg):
        if frame.f_code.co_filename.startswith(HERE):
            return local
        return None
    done = False
    sys.settrace(trace)
    try:
        e.save()
        done = True
    except Interrupt:
        pass
    finally:
        sys.settrace(None)
    what = 'interrupt at line %d' % n
    # the library is not expected to be reentrant after an interrupt at any
    # line, only the files count
    e.check_files(what, done)
    ctx.impl()
    e.close()
    return left[0] <= 0


def raise_interrupt():
    raise Interrupt()


def line_events(ctx, m, order, dest):
    """the library lines a save runs: True for those of the file layer"""
    e = Env(ctx, m, order, dest)
    out = []

    def local(frame, event, arg):
        if event == 'line':
            out.append(os.path.basename(frame.f_code.co_filename) == 'file.py')
        return local
    sys.settrace(lambda fr, ev, arg: local if fr.f_code.co_filename.startswith(HERE) else None)
    try:
        e.save()
    finally:
        sys.settrace(None)
    e.close()
    return out


def unwritable(ctx, m, order, dest, i, k):
    """property k of object i has a value that cannot be written"""
    e = Env(ctx, m, order, dest)
    o = e.f.read_object(i)
    cid = plain.cid_of(o)
    bad = object()
    if cid == 'ATTR':
        key = list(o.keys())[k]
        keep = o[key]
        o[key] = bad
    elif cid == 'PRLS':
        keep = o[k]
        o[k] = bad
    else:
        key = list(o.property_data.keys())[k]
        keep = getattr(o, key)
        setattr(o, key, bad)
    done = False
    try:
        e.save()
        done = True
    except Exception:
        pass
    if done:
        ctx.fail('object %d was saved with an unwritable value' % i)
    e.check_files('unwritable object %d' % i, False, strict=True)
    if cid == 'ATTR':
        o[key] = keep
    elif cid == 'PRLS':
        o[k] = keep
    else:
        setattr(o, key, keep)
    e.again('unwritable object %d' % i)
    e.close()


def width(m, i):
    cid, v = m.chunks[i]
    if cid == 'ATTR':
        return len(v['$items'])
    if cid == 'PRLS':
        return len(v['$list'])
    return len(v)


def nth(m, i, k):
    cid, v = m.chunks[i]
    return None if cid in ('ATTR', 'PRLS') else list(v.values())[k]


def bad_place(ctx, m, order, kind):
    """destinations that cannot be written"""
    e = Env(ctx, m, order, 'new')
    if kind == 'missing':
        e.dest = os.path.join(e.dir, 'none', 'x.avb')
    elif kind == 'folder':
        e.dest = os.path.join(e.dir, 'folder')
        os.mkdir(e.dest)
    elif kind == 'underfile':
        e.dest = os.path.join(e.oth, 'x.avb')
    elif kind == 'long':
        e.dest = os.path.join(e.dir, 'x' * 300)
    elif kind == 'empty':
        e.dest = ''
    elif kind == 'nul':
        e.dest = os.path.join(e.dir, 'a\0b')
    elif kind == 'type':
        e.dest = 1.5
    elif kind == 'order':
        e.to = 'middle'
    cwd = os.getcwd()
    os.chdir(e.dir)
    try:
        e.save()
    except Exception:
        pass
    else:
        ctx.fail('saved to %s' % kind)
    finally:
        os.chdir(cwd)
    for p, b in e.keep:
        if take(p) != b:
            ctx.fail('%s was changed' % p)
    if kind == 'folder':
        os.rmdir(e.dest)
    e.dest, e.to = os.path.join(e.dir, 'fine.avb'), order
    e.again(kind)
    e.close()


def pipe(ctx, e, d, order):
    """a pipe is not replaced by a file, whether it can be written or not"""
    p = os.path.join(e.dir, 'pipe')
    os.mkfifo(p)
    r = os.open(p, os.O_RDONLY | os.O_NONBLOCK)
    try:
        e.f.write(p, order)
    except (OSError, IOError):
        pass
    finally:
        os.close(r)
    if not stat.S_ISFIFO(os.stat(p).st_mode):
        ctx.fail('the pipe was replaced')
    os.remove(p)
    ctx.step()


def spellings(ctx, m, order, kind):
    """ways to name the destination"""
    e = Env(ctx, m, order, 'self')
    d = e.src
    if kind == 'bytes':
        d = e.src.encode()
    elif kind == 'path':
        d = pathlib.Path(e.src)
    elif kind == 'relative':
        d = 'source.avb'
    elif kind == 'dotted':
        d = os.path.join(e.dir, '..', 'env', '.', 'source.avb')
    elif kind == 'unicode':
        d = os.path.join(e.dir, u'n\xe4me \u4e2d.avb')
    elif kind == 'chain':
        os.symlink('link.avb', os.path.join(e.dir, 'chain.avb'))
        d = os.path.join(e.dir, 'chain.avb')
    elif kind == 'dangling':
        os.symlink('target.avb', os.path.join(e.dir, 'dangling.avb'))
        d = os.path.join(e.dir, 'dangling.avb')
    elif kind == 'hard':
        d = os.path.join(e.dir, 'hard.avb')
        os.link(e.src, d)
    elif kind == 'mode':
        os.chmod(e.src, 0o640)
    cwd = os.getcwd()
    os.chdir(e.dir)
    try:
        before = set(os.listdir(e.dir))
        for i in range(2):
            if kind == 'descriptor':
                d = os.path.join(e.dir, 'fd%d' % i)
                before.add('fd%d' % i)
                e.f.write(os.open(d, os.O_RDWR | os.O_CREAT | os.O_EXCL), order)
            elif kind == 'pipe':
                pipe(ctx, e, d, order)
                continue
            else:
                e.f.write(d, order)
            if take(d) != e.want:
                ctx.fail('%s: wrong content' % kind)
            extra = set(os.listdir(e.dir)) - before - set([u'n\xe4me \u4e2d.avb', 'target.avb'])
            if extra:
                ctx.fail('%s: a successful save leaves %s' % (kind, sorted(extra)))
            if not os.path.islink(e.lnk) or (kind in ('chain', 'dangling') and not os.path.islink(d)):
                ctx.fail('%s: a link was replaced' % kind)
            if kind == 'mode' and os.stat(d).st_mode & 0o7777 != 0o640:
                ctx.fail('the save changed the permissions to %o' % os.stat(d).st_mode)
            ctx.step()
        if take(e.oth) != m.other:
            ctx.fail('%s: another file was changed' % kind)
        e.dest = os.path.join(e.dir, 'fine.avb')
        e.keep = e.keep[1:]
        e.again(kind)
    finally:
        os.chdir(cwd)
        e.close()


# ---------------------------------------------------------------- crashes

def crash(ctx, m, order, dest, act, what):
    """runs the save in a child that may die; -> exit status"""
    e = Env(ctx, m, order, dest)
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            signal.setitimer(signal.ITIMER_PROF, 0)
            act()
            e.save()
            code = 0
        except BaseException:
            code = 4
        finally:
            os._exit(code)
    st = os.waitpid(pid, 0)[1]
    done = True if st == 0 else None
    e.check_files(what, done)
    # the document can still be opened and saved from the files left
    g = avb.file.AVBFile(e.src)
    whole(g)
    g.close()
    ctx.impl()
    e.close()
    return st


def killed_at(ctx, m, order, dest, k):
    def act():
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
        limited(k)
    crash(ctx, m, order, dest, act, 'killed at byte %d' % k)


def killed_calls(ctx, m, order, dest):
    n = 1
    while True:
        st = crash(ctx, m, order, dest, lambda: arm(n, lambda: os._exit(9)), 'killed at call %d' % n)
        if st == 0:
            break
        n += 1
        if n > 200:
            ctx.fail('too many calls')
    if n < 2:
        ctx.fail('the save made no file system call')


def killed_line(ctx, m, order, dest, n):
    left = [n]

    def local(frame, event, arg):
        if event == 'line':
            left[0] -= 1
            if left[0] == 0:
                os._exit(9)
        return local
    crash(ctx, m, order, dest, lambda: sys.settrace(
        lambda fr, ev, arg: local if fr.f_code.co_filename.startswith(HERE) else None), 'killed at line %d' % n)


# --------------------------------------------------------------- prefixes

def prefixes(ctx, data, ks):
    for k in ks:
        ctx.step()
        try:
            g = plain.open_bytes(data[:k])
            whole(g)
        except Exception:
            continue
        ctx.fail('a file cut off after %d of %d bytes opens' % (k, len(data)))


# --------------------------------------------------------------- histories

class World(object):
    def __init__(self, ctx, m, order):
        self.ctx, self.m, self.order = ctx, m, order
        self.e = e = Env(ctx, m, order, 'self')
        e.close()
        put(e.src, m.bytes[order])
        self.f = avb.file.AVBFile(e.src)
        self.open = [self.f]
        self.chunks = dict(m.chunks)
        self.disk = {e.src: (m.bytes[order]), e.oth: m.other}
        self.saved = dict(m.chunks)
        self.k = 0

    def model(self, i, fn):
        self.chunks[i] = (self.chunks[i][0], fn(self.chunks[i][1]))

    def save(self, path, order):
        self.f.write(path, order)
        got = take(path)
        bad = graphs.check_saved(got, order, self.chunks, self.m.root)
        if bad:
            self.ctx.fail('saved to %s: %s' % (os.path.basename(path), bad))
        self.disk[os.path.realpath(path)] = got
        if os.path.realpath(path) == self.e.src:
            self.saved = dict(self.chunks)
            self.saved_order = order

    def op(self, o):
        e, m, f = self.e, self.m, self.f
        if o == 'self':
            self.save(e.src, self.order)
        elif o == 'swap':
            self.order = 'big' if self.order == 'little' else 'little'
            self.save(e.src, self.order)
        elif o == 'link':
            self.save(e.lnk, self.order)
        elif o == 'other':
            self.save(e.oth, 'little')
        elif o == 'edit1':
            self.k += 1
            f.read_object(self.ids('comp')).name = u'name %d' % self.k
            self.model(m.n['comp'], lambda v: dict(v, name=u'name %d' % self.k))
        elif o == 'edit2':
            # a change of the size of an early object
            self.k += 1
            a = f.read_object(self.ids('attr'))
            a[u'k%d' % self.k] = u'v' * self.k * 50
            self.model(m.n['attr'], lambda v: {'$items': v['$items'] + [docs.attr(u'k%d' % self.k, u'v' * self.k * 50)]})
        elif o == 'edit3':
            # one object less
            seq = f.read_object(self.ids('seq'))
            if len(seq.components):
                del seq.components[-1]
                self.model(m.n['seq'], lambda v: dict(v, components=v['components'][:-1]))
        elif o == 'drop':
            gc.collect()
        elif o == 'fail':
            c = f.read_object(self.ids('comp'))
            keep = c.length
            c.length = u'long'
            for p in (e.src, e.oth):
                before = take(p)
                try:
                    f.write(p, self.order)
                except Exception:
                    pass
                else:
                    self.ctx.fail('an unwritable value was saved')
                if take(p) != before:
                    self.ctx.fail('a failed save changed %s' % os.path.basename(p))
            c.length = keep
        elif o == 'reopen':
            # another document of the same file, the first stays open
            self.f = avb.file.AVBFile(e.src)
            self.open.append(self.f)
            self.chunks = dict(self.saved)
            self.index = None
        for p, b in self.disk.items():
            if take(p) != b:
                self.ctx.fail('%s changed %s' % (o, os.path.basename(p)))
        self.ctx.step()

    def ids(self, name):
        """index of a named object in the document that is open now"""
        if self.f is self.open[0]:
            return self.m.n[name]
        # walk down from the root, the objects are not where they were
        f = self.f
        comp = [x for x in f.content.mobs if x.mob_type == 'CompositionMob'][0]
        master = [x for x in f.content.mobs if x.mob_type == 'MasterMob'][0]
        return {'comp': comp, 'attr': master.attributes, 'seq': comp.tracks[0].component}[name].instance_id

    def finish(self):
        for o in spec.ORDERS:
            got = plain.save_bytes(self.f, o, os.path.join(self.e.dir, 'last.avb'))
            bad = graphs.check_saved(got, o, self.chunks, self.m.root)
            if bad:
                self.ctx.fail('at the end: ' + bad)
        g = avb.file.AVBFile(self.e.src)
        got = plain.save_bytes(g, 'little', os.path.join(self.e.dir, 'last.avb'))
        bad = graphs.check_saved(got, 'little', self.saved, self.m.root)
        if bad:
            self.ctx.fail('the source file at the end: ' + bad)
        g.close()
        for f in self.open:
            f.close()
        self.ctx.impl()


OPS = ('self', 'swap', 'link', 'other', 'edit1', 'edit2', 'edit3', 'drop', 'fail', 'reopen')


def history(ctx, m, order, hist):
    w = World(ctx, m, order)
    for o in hist:
        w.op(o)
    w.finish()


# ------------------------------------------------------------------- driver

def kpoints(size, big, thorough):
    if not big:
        return list(range(0, size + 2))
    ks = set(range(0, size + 64, 64 if thorough else 997))
    for c in range(0, size + 8192, 8192):
        ks |= set(range(max(c - 3, 0), c + 4))
    ks |= set(range(size - 5, size + 3))
    return sorted(k for k in ks if k <= size + 70)


def shards(tier):
    t = tier == 'thorough'
    out = []
    for big in (0, 1):
        for i in range(8):
            out.append({'w': 'full', 'big': big, 'part': i, 'of': 8})
            out.append({'w': 'kill', 'big': big, 'part': i, 'of': 8})
    out += [{'w': 'calls', 'dest': d, 'order': o} for d in DESTS for o in spec.ORDERS]
    out += [{'w': 'lines', 'part': i, 'of': 16} for i in range(16)]
    out += [{'w': 'unwritable', 'part': i, 'of': 8} for i in range(8)]
    out += [{'w': 'prefix', 'part': i, 'of': 8} for i in range(8)]
    out += [{'w': 'h', 'first': o, 'order': spec.ORDERS[i % 2]} for i, o in enumerate(OPS)]
    if t:
        out += [{'w': 'h', 'first': o, 'order': spec.ORDERS[(i + 1) % 2]} for i, o in enumerate(OPS)]
        out += [{'w': 'killlines', 'part': i, 'of': 32} for i in range(32)]
    return out


def run(shard, ctx):
    w = shard['w']
    orders = spec.ORDERS
    m = prepare(ctx, shard.get('big', 0))
    if w in ('full', 'kill'):
        big = shard['big']
        size = len(m.expect['little'])
        ks = kpoints(size, big, ctx.thorough)[shard['part']::shard['of']]
        for n, k in enumerate(ks):
            if ctx.thorough:
                todo = [(d, o) for d in DESTS for o in orders]
            elif w == 'full':
                todo = [(DESTS[n % 4], orders[n // 4 % 2]), (DESTS[(n + 2) % 4], orders[n // 4 % 2])]
            else:
                todo = [(DESTS[n % 4], orders[n // 4 % 2])]
            for d, o in todo:
                ctx.state((w, big, k, d, o))
                ctx.case('%s/%d/%d/%s/%s' % (w, big, k, d, o), disk_full if w == 'full' else killed_at, ctx, m, o, d, k)
    elif w == 'calls':
        d, o = shard['dest'], shard['order']
        for name, fn in (('failing', failing_calls), ('killed', killed_calls), ('reads', failing_reads), ('writes', failing_writes)):
            ctx.state((name, d, o))
            ctx.case('%s/%s/%s' % (name, d, o), fn, ctx, m, o, d)
        if d == 'new':
            for kind in ('missing', 'folder', 'underfile', 'long', 'empty', 'nul', 'type', 'order'):
                ctx.state((kind, o))
                ctx.case('place/%s/%s' % (kind, o), bad_place, ctx, m, o, kind)
        if d == 'self':
            for kind in ('bytes', 'path', 'relative', 'dotted', 'unicode', 'chain', 'dangling', 'hard', 'mode', 'descriptor', 'pipe'):
                ctx.state((kind, o))
                ctx.case('spelling/%s/%s' % (kind, o), spellings, ctx, m, o, kind)
    elif w in ('lines', 'killlines'):
        part, of = shard['part'], shard['of']
        for d, o in ((('self', 'little'), ('other', 'big')) if not ctx.thorough else [(d, o) for d in DESTS for o in orders]):
            ev = line_events(ctx, m, o, d)
            for n, inner in enumerate(ev, 1):
                if n % of != part:
                    continue
                if not ctx.thorough and not inner and (n // of) % 7:
                    continue
                ctx.state((w, d, o, n))
                if w == 'lines':
                    ctx.case('line/%s/%s/%d' % (d, o, n), interrupt, ctx, m, o, d, n, raise_interrupt)
                else:
                    ctx.case('killline/%s/%s/%d' % (d, o, n), killed_line, ctx, m, o, d, n)
    elif w == 'unwritable':
        for i in sorted(m.chunks)[shard['part']::8]:
            for k in range(width(m, i)):
                if isinstance(nth(m, i, k), bool):
                    continue    # anything is true or false
                for n, d in enumerate(DESTS if ctx.thorough else (DESTS[(i + k) % 4],)):
                    o = orders[(i + k + n) % 2]
                    ctx.state((i, k, d))
                    ctx.case('unwritable/%d/%d/%s/%s' % (i, k, d, o), unwritable, ctx, m, o, d, i, k)
    elif w == 'prefix':
        for o in orders:
            data = m.expect[o]
            ks = list(range(len(data)))[shard['part']::8]
            for lo in range(0, len(ks), 100):
                for k in ks[lo:lo + 100]:
                    ctx.state((o, k))
                ctx.case('prefix/%s/%d/%d' % (o, shard['part'], lo), prefixes, ctx, data, ks[lo:lo + 100])
    else:
        depth = 5 if ctx.thorough else 4
        for n in range(depth):
            for rest in itertools.product(OPS, repeat=n):
                h = (shard['first'],) + rest
                if n == depth - 1 and h[-1] not in ('self', 'swap') and not ctx.thorough:
                    continue
                ctx.state((shard['order'], h))
                ctx.case('h/%s/%s' % (shard['order'], '.'.join(h)), history, ctx, m, shard['order'], h)
