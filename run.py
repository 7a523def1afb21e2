#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Selects the interpreter (CPython for the pure-Python reader, PyPy with a freshly
built extension for the properties about the accelerated reader) and explores."""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
EXT = ('C12', 'C13')
SANITIZE = ('C13',)


# Python reader first, the kinds with a compiled reader once more with that
BOTH = ('C01', 'C02', 'C07', 'C08', 'C09', 'C11', 'C14', 'C16', 'C23', 'C24', 'C26', 'C28', 'C31', 'C32')


def engine(py, args, env):
    code = 'import sys; from mc import engine; sys.exit(engine.main(sys.argv[1:]))'
    return subprocess.call([py, '-c', code] + args, env=env, cwd=HERE)


def compiled(prop, args, env):
    from mc import extbuild
    env = dict(env)
    scratch = None
    try:
        scratch = extbuild.build(REPO, prop in SANITIZE)
        env['PYTHONPATH'] = scratch + os.pathsep + HERE
        env['VERIF_EXT'] = '1'
        if prop in SANITIZE:
            env['VERIF_SAN_LOG'] = os.path.join(scratch, 'asan')
            env['LD_PRELOAD'] = extbuild.runtime()
            env['ASAN_OPTIONS'] = ('detect_leaks=0:abort_on_error=1:max_allocation_size_mb=400:hard_rss_limit_mb=3000:'
                                   'log_path=' + env['VERIF_SAN_LOG'])
        return engine('/opt/venv-ext/bin/python', args, env)
    finally:
        if scratch:
            shutil.rmtree(scratch, ignore_errors=True)


def main():
    if len(sys.argv) < 2:
        sys.exit('usage: run.py PROPERTY [--tier T]')
    prop = sys.argv[1]
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC',
               LC_ALL='C.UTF-8', VERIF_MC='1')
    sys.path.insert(0, HERE)
    args = [a for a in sys.argv[1:] if a != '--ext']
    only = None
    if '--replay' in args:
        with open(args[args.index('--replay') + 1]) as f:
            only = json.load(f).get('phase', '')
    if prop in EXT or '--ext' in sys.argv:
        rc = compiled(prop, args, env)
    elif only == 'ext':
        rc = compiled(prop, args, env)
    else:
        env['PYTHONPATH'] = os.path.join(REPO, 'src') + os.pathsep + HERE
        rc = engine('/opt/venv/bin/python', args, env)
        if rc == 0 and prop in BOTH and only is None:
            # the same histories on objects the compiled reader has read
            rc = compiled(prop, args + ['--phase', 'ext'], env)
    sys.exit(rc)


if __name__ == '__main__':
    main()
