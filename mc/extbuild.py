"""Builds the Cython extension from /repo's current working tree, outside it."""
import glob
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

PY = '/opt/venv-ext/bin/python'


SAN = ['-fsanitize=address', '-fno-omit-frame-pointer', '-g1', '-D_GLIBCXX_ASSERTIONS']


def runtime():
    return subprocess.check_output(['g++', '-print-file-name=libasan.so'], universal_newlines=True).strip()


def build(repo, sanitize=False):
    base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
    d = tempfile.mkdtemp(prefix='verif_ext_', dir=base)
    try:
        pkg = os.path.join(d, 'avb')
        os.mkdir(pkg)
        src = os.path.join(repo, 'src', 'avb')
        for f in os.listdir(src):
            p = os.path.join(src, f)
            if f.endswith('.py') or f.endswith('.pyx') or f.endswith('.pxd') or \
               (f.endswith(('.cpp', '.h', '.hpp')) and f != '_ext.cpp'):
                shutil.copy(p, os.path.join(pkg, f))
            elif os.path.isdir(p) and f != '__pycache__':
                shutil.copytree(p, os.path.join(pkg, f))
        info = subprocess.check_output(
            [PY, '-c', 'import sysconfig as s; print(s.get_paths()["include"]); '
                       'print(s.get_config_var("EXT_SUFFIX"))'],
            universal_newlines=True).split('\n')
        out = os.path.join(pkg, '_ext.cpp')
        log = subprocess.run([PY, '-m', 'cython', '--cplus', '-3', '_ext.pyx', '-o', out],
                             cwd=pkg, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             universal_newlines=True)
        if log.returncode:
            raise SystemExit('cython failed:\n' + log.stdout[-3000:])
        so = os.path.join(pkg, '_ext' + info[1])
        log = subprocess.run(['g++', '-O1', '-shared', '-fPIC', '-w', '-I' + info[0],
                              '-I' + pkg, out, '-o', so] + (SAN if sanitize else []), cwd=pkg,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                             universal_newlines=True)
        if log.returncode:
            raise SystemExit('g++ failed:\n' + log.stdout[-3000:])
        os.remove(out)
        return d
    except BaseException:
        shutil.rmtree(d, ignore_errors=True)
        raise
