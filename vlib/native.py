"""Builds the native modules of /repo's *current* working tree outside /repo and assembles an importable PyECLOUD
package out of them: every top-level entry of /repo is symlinked, the compiled modules come from a content-addressed
cache in /verif/build (git-ignored).  Variants:
  plain  the project's own build commands (Makefile, setup.py)
  san    the same sources with -fsanitize=address,undefined, gfortran -fcheck=all, Cython boundscheck forced on
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import re
import shlex
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, 'build', 'native')
VENV = '/opt/venv/bin'
F2PY = VENV + '/f2py'
PY = VENV + '/python'

SRC_EXT = ('.f', '.f90', '.c', '.h', '.pyx', '.pxd')


def native_sources():
    out = []
    for fn in sorted(os.listdir(REPO)):
        if fn.endswith(SRC_EXT) or fn in ('Makefile', 'setup.py'):
            if fn.endswith('.c') and os.path.exists(os.path.join(REPO, fn[:-2] + '.pyx')):
                continue  # generated by Cython
            out.append(fn)
    return out


def digest(variant):
    h = hashlib.sha256(('v3:' + variant).encode())
    for fn in native_sources():
        h.update(fn.encode() + b'\0')
        with open(os.path.join(REPO, fn), 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:24]


def _env(variant):
    env = dict(os.environ)
    env.pop('LD_PRELOAD', None)
    env['PATH'] = VENV + ':/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    env.update(PYTHONDONTWRITEBYTECODE='1', CCACHE_DISABLE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    if variant == 'san':
        s = '-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined'
        # -fcheck=all: array bounds, substring, loop variables, NULL pointers (its failure ends the process)
        env['FFLAGS'] = s + ' -fcheck=all -finit-real=snan -ffpe-summary=none'
        env['CFLAGS'] = s
        env['LDFLAGS'] = '-fsanitize=address,undefined'
    return env


def _run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors='replace')
    return p.returncode, p.stdout


class BuildError(Exception):
    pass


def ensure(variant='plain'):
    """Returns the directory holding the compiled modules of the current sources."""
    key = digest(variant)
    dest = os.path.join(CACHE, variant + '-' + key)
    if os.path.exists(os.path.join(dest, 'ok')):
        return dest
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock-' + variant), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, 'ok')):
            return dest
        work = tempfile.mkdtemp(prefix='vbuild-')
        try:
            env = _env(variant)
            p = subprocess.run(['make', '-n', 'all', 'F2PY=' + F2PY], cwd=REPO, env=env, stdout=subprocess.PIPE,
                               text=True)
            jobs = []
            for line in p.stdout.splitlines():
                c = shlex.split(line)
                if c[:1] == [F2PY]:
                    jobs.append(c)

            def stage(name):
                d = os.path.join(work, name)
                os.makedirs(d)
                for fn in native_sources():
                    shutil.copy2(os.path.join(REPO, fn), d)
                return d

            def dof2py(c):
                name = c[c.index('-m') + 1]
                d = stage('f_' + name)
                rc, out = _run(c, d, env)
                return name, d, rc, out

            def docython(_):
                d = stage('cython')
                if variant == 'san':
                    for fn in glob.glob(d + '/*.pyx'):
                        with open(fn) as f:
                            s = f.read()
                        s = re.sub(r'(boundscheck|wraparound|initializedcheck)\s*\(\s*False\s*\)',
                                   lambda m: m.group(1) + ('(True)' if m.group(1) != 'wraparound' else '(False)'), s)
                        with open(fn, 'w') as f:
                            f.write(s)
                rc, out = _run([PY, 'setup.py', 'build_ext', '-i', '-f'], d, env)
                return 'cython', d, rc, out

            os.makedirs(dest + '.tmp', exist_ok=True)
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                futs = [ex.submit(docython, None)] + [ex.submit(dof2py, c) for c in jobs]
                for fu in futs:
                    name, d, rc, out = fu.result()
                    sos = glob.glob(d + '/*.so')
                    if rc != 0 or not sos:
                        raise BuildError('build of %s (%s) failed:\n%s' % (name, variant, out[-4000:]))
                    for so in sos:
                        shutil.copy2(so, dest + '.tmp')
            open(os.path.join(dest + '.tmp', 'ok'), 'w').close()
            shutil.rmtree(dest, ignore_errors=True)
            os.rename(dest + '.tmp', dest)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    # keep the cache small
    old = sorted(glob.glob(os.path.join(CACHE, variant + '-*')), key=os.path.getmtime)
    for d in old[:-4]:
        if d != dest:
            shutil.rmtree(d, ignore_errors=True)
    return dest


def make_package(root, variant='plain'):
    """Creates root/PyECLOUD; returns root (to put on sys.path)."""
    so_dir = ensure(variant)
    pkg = os.path.join(root, 'PyECLOUD')
    os.makedirs(pkg)
    for fn in os.listdir(REPO):
        if fn.startswith('.') or fn.endswith('.so') or fn in ('build', '__pycache__'):
            continue
        os.symlink(os.path.join(REPO, fn), os.path.join(pkg, fn))
    for so in glob.glob(so_dir + '/*.so'):
        os.symlink(so, os.path.join(pkg, os.path.basename(so)))
    return root


def under_sanitizers(modname, argv):
    """Runs the check again in a process with the sanitizer run-time."""
    lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True).stdout.strip()
    logs = tempfile.mkdtemp(prefix='vsan-')
    env = dict(os.environ, VERIF_VARIANT='san', VERIF_SANLOG=logs, LD_PRELOAD=lib,
               ASAN_OPTIONS='detect_leaks=0:exitcode=97:max_malloc_fill_size=1000000000:malloc_fill_byte=255:quarantine_size_mb=32:log_path=' + logs + '/asan',
               UBSAN_OPTIONS='halt_on_error=1:exitcode=98:print_stacktrace=1:log_path=' + logs + '/ubsan')
    try:
        return subprocess.run([PY, '-c', 'import sys; sys.path.insert(0, "."); from vlib import harness; sys.exit(harness.main(sys.argv[1], sys.argv[2:]))', modname] + argv, env=env, cwd=VERIF).returncode
    finally:
        shutil.rmtree(logs, ignore_errors=True)


if __name__ == '__main__':
    for v in sys.argv[1:] or ['plain', 'san']:
        print(v, ensure(v))
