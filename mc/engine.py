# -*- coding: utf-8 -*-
"""Exhaustive exploration driver.

A property module (mc.props.cNN) provides

    LEVEL, TECHNIQUE, RULE (what counts as a state)
    shards(tier)      -> list of JSON-able shard descriptions, a partition of
                         the bounded space
    run(shard, ctx)   -> explores every behaviour of the shard, calling
                         ctx.case(key, fn) for each one

The driver distributes shards over worker processes, merges the counts, applies
the known findings and writes the evidence file.
"""
from __future__ import print_function

import gc
import hashlib
import importlib
import io
import json
import os
import pickle
import resource
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

CASE_LIMIT = float(os.environ.get('VERIF_CASE_LIMIT', '40'))
MAX_VIOLATIONS = 12
CURRENT = None


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


def _alarm(signum, frame):
    raise Hang()


def h64(x):
    if not isinstance(x, bytes):
        x = repr(x).encode('utf-8', 'backslashreplace')
    return int.from_bytes(hashlib.blake2b(x, digest_size=8).digest(), 'big')


class Ctx(object):
    def __init__(self, tier, tmp, only=None, known=()):
        self.tier = tier
        self.tmp = tmp
        self.only = only
        self.known = known
        self.states = set()
        self.transitions = 0
        self.validated = 0
        self.cases = 0
        self.nontrivial = 0
        self.samples = []
        self.violations = []
        self.known_hit = {}
        self.stop = False

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def path(self, name='out.avb'):
        return os.path.join(self.tmp, name)

    def state(self, s):
        """record one canonical state reached; True if it is new"""
        h = h64(s)
        if h in self.states:
            return False
        self.states.add(h)
        return True

    def step(self, n=1):
        self.transitions += n

    def impl(self, n=1):
        """one behaviour executed on the implementation and compared"""
        self.validated += n

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(str(s)[:300])

    def fail(self, msg):
        raise Violation(msg)

    def case(self, key, fn, *args):
        """run one behaviour; key identifies it (string)"""
        if self.stop:
            return
        if self.only is not None and key != self.only:
            return
        self.cases += 1
        msg = None
        # CPU time, so that a loaded machine does not look like a hang
        note(key)
        signal.setitimer(signal.ITIMER_PROF, CASE_LIMIT)
        # ends the process when native code does not return
        signal.setitimer(signal.ITIMER_VIRTUAL, 2 * CASE_LIMIT)
        try:
            fn(*args)
        except Violation as e:
            msg = str(e)
        except Hang:
            msg = 'no result within %g s of processor time' % CASE_LIMIT
        except RecursionError as e:
            msg = 'unexpected RecursionError'
        except MemoryError:
            msg = 'unexpected MemoryError'
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            where = ['%s:%d %s' % (os.path.basename(t[0]), t[1], t[2]) for t in tb[-3:]]
            msg = 'unexpected %s: %s [%s]' % (type(e).__name__, e, ' < '.join(reversed(where)))
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        if msg is not None:
            self.report(key, msg)
        elif len(self.samples) < 2 or (len(self.samples) < 3 and self.cases % 997 == 0):
            self.samples.append(str(key)[:300])

    def report(self, key, msg):
        if key in self.known:
            self.known_hit[key] = msg[:400]
            return
        self.violations.append({'key': key, 'message': msg[:1500]})
        if len(self.violations) >= MAX_VIOLATIONS:
            self.stop = True


def load_known(prop):
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith('fixed:') or line.startswith('#'):
                    continue
                d = json.loads(line)
                if d.get('property') == prop and 'key' in d:
                    out[d['key']] = d.get('what', '')
    return out


def scratch_root():
    for d in ('/dev/shm', tempfile.gettempdir()):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return None


def _worker(args):
    prop, shard, tier, base, only, known = args
    # the code under test prints diagnostics when a chunk is rejected
    devnull = open(os.devnull, 'w')
    old = sys.stdout
    sys.stdout = devnull
    signal.signal(signal.SIGPROF, _alarm)
    tmp = tempfile.mkdtemp(dir=base)
    ctx = Ctx(tier, tmp, only, known)
    t0 = time.time()
    try:
        mod = importlib.import_module('mc.props.' + prop.lower())
        mod.run(shard, ctx)
    except Hang:
        ctx.violations.append({'key': 'shard', 'message': 'shard did not finish'})
    except Exception:
        ctx.violations.append({'key': 'shard', 'message': 'shard failed: ' + traceback.format_exc()[-1500:]})
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        sys.stdout = old
        shutil.rmtree(tmp, ignore_errors=True)
    import array
    return {'shard': shard, 'states': array.array('Q', ctx.states).tobytes(),
            'transitions': ctx.transitions, 'validated': ctx.validated,
            'cases': ctx.cases, 'nontrivial': ctx.nontrivial,
            'samples': ctx.samples,
            'violations': ctx.violations, 'known': ctx.known_hit,
            'wall': time.time() - t0}


def limit_memory():
    gb = 3 << 30
    try:
        resource.setrlimit(resource.RLIMIT_AS, (gb, resource.RLIM_INFINITY))
    except (ValueError, OSError):
        pass


def _init():
    os.environ['TZ'] = os.environ.get('VERIF_TZ', 'UTC')
    time.tzset()
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 2)
    if '__pypy__' not in sys.modules and 'PyPy' not in sys.version:
        limit_memory()
    sys.setrecursionlimit(1000)


def _child(job, out, now):
    """runs one shard in a forked process; its result goes into a file, the
    case it works on into another, which tells what a crash was caused by"""
    global CURRENT
    code = 1
    try:
        CURRENT = os.open(now, os.O_WRONLY | os.O_CREAT)
        _init()
        r = _worker(job)
        with open(out + '.part', 'wb') as f:
            pickle.dump(r, f, 2)
        os.rename(out + '.part', out)
        code = 0
    finally:
        os._exit(code)


def note(key):
    if CURRENT is not None:
        b = key.encode('utf-8', 'backslashreplace')[:4000]
        os.pwrite(CURRENT, struct.pack('<I', len(b)) + b, 0)


def noted(now):
    try:
        with open(now, 'rb') as f:
            d = f.read()
        n = struct.unpack('<I', d[:4])[0]
        return d[4:4 + n].decode('utf-8')
    except Exception:
        return 'shard'


def crash_report(pid):
    """what the address sanitizer wrote about a process, if it is in use"""
    base = os.environ.get('VERIF_SAN_LOG')
    if not base:
        return ''
    try:
        with open('%s.%d' % (base, pid)) as f:
            lines = f.read().split('\n')
    except (IOError, OSError):
        return ''
    keep = [l.strip() for l in lines if 'ERROR' in l or l.startswith('    #')][:8]
    return ': ' + ' '.join(keep)


def run_shards(jobs, workers, base, deadline):
    """yields (job, result or None, case, message) as shards end"""
    running = {}
    todo = list(range(len(jobs)))
    todo.reverse()
    try:
        while todo or running:
            while todo and len(running) < workers:
                i = todo.pop()
                out, now = os.path.join(base, 'r%d' % i), os.path.join(base, 'n%d' % i)
                sys.stdout.flush()
                pid = os.fork()
                if pid == 0:
                    _child(jobs[i], out, now)
                running[pid] = (i, out, now)
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                if deadline is not None and time.time() > deadline:
                    return
                time.sleep(0.004)
                continue
            if pid not in running:
                continue
            i, out, now = running.pop(pid)
            if os.path.exists(out):
                with open(out, 'rb') as f:
                    r = pickle.load(f)
                os.remove(out)
                yield jobs[i], r, None, None
            else:
                if os.WIFSIGNALED(status):
                    sig = os.WTERMSIG(status)
                    what = 'no result within %g s of processor time' % CASE_LIMIT if sig == signal.SIGVTALRM \
                        else 'the process was ended by signal %d' % sig
                else:
                    what = 'the process ended with status %d' % os.WEXITSTATUS(status)
                yield jobs[i], None, noted(now), what + crash_report(pid)
    finally:
        for pid in running:
            try:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            except OSError:
                pass


def explore(prop, tier, workers=8, only=None, shard_filter=None, deadline=None, phase=''):
    import array
    mod = importlib.import_module('mc.props.' + prop.lower())
    known = load_known(prop)
    shards = [shard_filter] if shard_filter is not None else mod.ext_shards(tier) if phase else mod.shards(tier)
    base = tempfile.mkdtemp(prefix='verif_', dir=scratch_root())
    res = {'states': set(), 'transitions': 0, 'validated': 0, 'cases': 0, 'nontrivial': 0,
           'samples': [], 'violations': [], 'known': {}, 'shards': 0, 'shards_total': len(shards),
           'sum_states': 0}
    try:
        jobs = [(prop, s, tier, base, only, known) for s in shards]
        for job, r, key, what in run_shards(jobs, workers, base, deadline):
            if r is None:
                if key in known:
                    res['known'][key] = what
                else:
                    res['violations'].append({'shard': job[1], 'key': key, 'message': what})
                res['cases'] += 1
                continue
            res['shards'] += 1
            a = array.array('Q')
            a.frombytes(r['states'])
            res['states'].update(a)
            for k in ('transitions', 'validated', 'cases', 'nontrivial'):
                res[k] += r[k]
            if len(res['samples']) < 8:
                res['samples'].extend(r['samples'][:2])
            for v in r['violations']:
                res['violations'].append(dict(v, shard=r['shard']))
            res['known'].update(r['known'])
            if len(res['violations']) >= 3 * MAX_VIOLATIONS:
                break
        if res['cases'] == 0 and res['shards'] < len(shards):
            res['violations'].append({'shard': None, 'key': 'deadline',
                                      'message': 'exploration made no progress before the deadline'})
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return res


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--budget', type=float, default=0)
    ap.add_argument('--no-evidence', action='store_true')
    ap.add_argument('--phase', default='')
    a = ap.parse_args(argv)
    t0 = time.time()
    os.environ['TZ'] = os.environ.get('VERIF_TZ', 'UTC')
    time.tzset()
    mod = importlib.import_module('mc.props.' + a.prop.lower())
    only = shard = None
    if a.replay:
        with open(a.replay) as f:
            rp = json.load(f)
        only, shard = rp['key'], rp['shard']
    budget = a.budget or (780 if a.tier == 'quick' else 3300)
    res = explore(a.prop, a.tier, a.workers, only, shard, t0 + budget, a.phase)
    known = load_known(a.prop)
    wall = time.time() - t0
    for k in sorted(res['known']):
        print('KNOWN-FINDING: property=%s %s (%s)' % (a.prop, known[k], k))
    viol = res['violations']
    if not a.replay and not a.no_evidence:
        write_evidence(a.prop, a.tier, mod, res, wall, a.phase)
    print('%s tier=%s shards=%d/%d behaviours=%d states=%d transitions=%d validated=%d known=%d violations=%d wall=%.1fs' % (
        a.prop + (' (compiled reader)' if a.phase else ''), a.tier, res['shards'], res['shards_total'], res['cases'], len(res['states']),
        res['transitions'], res['validated'], len(res['known']), len(viol), wall))
    if viol:
        d = os.path.join(ROOT, 'replays')
        if not os.path.isdir(d):
            os.makedirs(d)
        for i, v in enumerate(viol[:5]):
            p = os.path.join(d, '%s%s_%d.json' % (a.prop, a.phase and '_' + a.phase, i))
            with open(p, 'w') as f:
                json.dump(dict(v, property=a.prop, tier=a.tier, phase=a.phase), f, indent=1)
            print('  case %s\n    %s' % (v['key'], v['message']))
            print('VIOLATION property=%s replay=%s' % (a.prop, p))
        return 1
    if res['cases'] == 0:
        print('nothing explored')
        return 2
    return 0


def write_evidence(prop, tier, mod, res, wall, phase=''):
    d = os.path.join(ROOT, 'evidence')
    if not os.path.isdir(d):
        os.makedirs(d)
    level = mod.LEVEL
    samples = res['samples'][:6] or ['(none)']
    if level == 'model_checking':
        cov = {'states': len(res['states']), 'transitions': res['transitions'],
               'traces_validated_against_impl': res['validated'],
               'samples': samples,
               'exhaustive': res['shards'] == res['shards_total'] and not res['violations']}
    else:
        cov = {'evaluations': res['cases'], 'distinct_nontrivial': len(res['states']),
               'rule': mod.RULE, 'samples': samples}
    cov['behaviours'] = res['cases']
    cov['shards_completed'] = res['shards']
    cov['shards_total'] = res['shards_total']
    cov['bounds'] = getattr(mod, 'BOUNDS', '')
    ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': level, 'coverage': cov, 'wall_s': round(wall, 2),
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'violations': [{'key': v['key'], 'message': v['message'][:300]} for v in res['violations'][:20]]}
    path = os.path.join(d, prop + '.json')
    if phase:
        # added to what the Python reader's run has written
        with open(path) as f:
            ev0 = json.load(f)
        c0 = ev0['coverage']
        for k in ('states', 'transitions', 'traces_validated_against_impl', 'behaviours', 'shards_completed',
                  'shards_total'):
            c0[k] += cov[k]
        c0['exhaustive'] = c0['exhaustive'] and cov['exhaustive']
        c0['with_compiled_reader'] = dict((k, cov[k]) for k in ('states', 'transitions', 'behaviours'))
        c0['samples'] = (c0['samples'] + ['compiled reader: %s' % x for x in samples[:2]])
        ev0['violations'] += ev['violations']
        ev0['wall_s'] = round(ev0['wall_s'] + wall, 2)
        ev = ev0
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
