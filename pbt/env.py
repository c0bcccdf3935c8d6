"""Makes /repo's current tree importable, with compiled kernels that match the .f90 sources.

* Python sources are imported from /repo directly; no byte code is written there or read from there.
* The two f2py modules are taken from /repo only if the build stamp proves that they were
  made from exactly the current .f90 text; otherwise they are built here (into /verif/.build,
  which git ignores) and served through an import hook.  /repo and /opt/vp are never written.
"""
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PBT_REPO', '/repo')
PKG = os.path.join(REPO, 'atooms', 'postprocessing')
PY = '/opt/venv/bin/python'
SUFFIX = sysconfig.get_config_var('EXT_SUFFIX')
KERNELS = ('realspace', 'fourierspace')
HYPOTHESIS_DIRS = ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',)


class EnvError(Exception):
    """The harness itself cannot run (never a verdict on the code)."""


def add_hypothesis():
    """Hypothesis lives in another venv, whose numpy must not shadow ours: append it last."""
    for path in HYPOTHESIS_DIRS:
        if os.path.isdir(path) and path not in sys.path:
            sys.path.append(path)


def _sha(path):
    with open(path, 'rb') as fh:
        return hashlib.sha256(fh.read()).hexdigest()


def _stamp_ok(name):
    """True if the .so in /repo is known to come from the current .f90 (see /opt/vp/build.sh)."""
    src = os.path.join(PKG, name + '.f90')
    lib = os.path.join(PKG, name + '_wrap' + SUFFIX)
    stamp = '/opt/vp-build/%s.stamp' % name
    if not (os.path.isfile(lib) and os.path.isfile(stamp)):
        return None
    with open(stamp) as fh:
        text = fh.read().replace('\n', '').replace(' ', '')
    return lib if text == _sha(src) + '-' + _sha(lib) + '-' else None


def build_kernel(name, checked=False):
    """Return the path of the extension module built from the current source."""
    src = os.path.join(PKG, name + '.f90')
    if not os.path.isfile(src):
        raise EnvError('missing ' + src)
    if not checked:
        lib = _stamp_ok(name)
        if lib:
            return lib
    flags = '-O1 -g -fcheck=bounds' if checked else ''
    key = hashlib.sha256((_sha(src) + flags + sys.version).encode()).hexdigest()[:24]
    out_dir = os.path.join(VERIF, '.build', '%s-%s' % (name, key))
    out = os.path.join(out_dir, name + '_wrap' + SUFFIX)
    if os.path.isfile(out):
        return out
    os.makedirs(os.path.dirname(out_dir), exist_ok=True)
    work = tempfile.mkdtemp(prefix='pbt-f2py-', dir=os.path.dirname(out_dir))
    try:
        shutil.copy(src, os.path.join(work, name + '.f90'))
        env = dict(os.environ)
        env['PATH'] = '/opt/venv/bin:' + env.get('PATH', '/usr/bin:/bin')
        env['LC_ALL'] = 'C.UTF-8'
        env.pop('PYTHONPATH', None)
        if flags:
            env['FFLAGS'] = flags
        with open(os.path.join(work, 'log'), 'wb') as log:
            code = subprocess.call([PY, '-m', 'numpy.f2py', '-c', '--backend', 'meson',
                                    '--build-dir', os.path.join(work, 'build'),
                                    '-m', name + '_wrap', name + '.f90'],
                                   cwd=work, env=env, stdout=log, stderr=subprocess.STDOUT)
        lib = os.path.join(work, name + '_wrap' + SUFFIX)
        if code != 0 or not os.path.isfile(lib):
            with open(os.path.join(work, 'log'), errors='replace') as log:
                sys.stderr.write(log.read()[-4000:])
            raise EnvError('cannot build %s.f90' % name)
        os.makedirs(out_dir, exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        shutil.copy(lib, tmp)
        os.replace(tmp, out)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return out


class _KernelFinder:
    def __init__(self, table):
        self.table = table

    def find_spec(self, fullname, path=None, target=None):
        if fullname in self.table:
            lib = self.table[fullname]
            loader = importlib.machinery.ExtensionFileLoader(fullname, lib)
            return importlib.util.spec_from_file_location(fullname, lib, loader=loader)
        return None


_ready = None


def prepare(checked=False):
    """Build what is needed; returns the table of libraries (call it in the parent)."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(2) as pool:
        libs = list(pool.map(lambda n: build_kernel(n, checked), KERNELS))
    return {'atooms.postprocessing.%s_wrap' % n: lib for n, lib in zip(KERNELS, libs)}


def setup(checked=False):
    """Make atooms.postprocessing importable in this process."""
    global _ready
    if _ready is not None:
        assert _ready == checked, 'one kind of kernels per process'
        return
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(VERIF, '.build', 'no-pycache')
    add_hypothesis()
    table = prepare(checked)
    sys.meta_path.insert(0, _KernelFinder(table))
    if REPO != '/repo':
        # Development only: check a scratch copy of the repository
        sys.path.insert(0, REPO)
        import atooms
        atooms.__path__.insert(0, os.path.join(REPO, 'atooms'))
    import warnings
    warnings.simplefilter('ignore')
    import numpy
    numpy.seterr(all='ignore')
    import atooms.postprocessing
    if os.path.dirname(os.path.abspath(atooms.postprocessing.__file__)) != PKG:
        raise EnvError('atooms.postprocessing comes from %s' % atooms.postprocessing.__file__)
    import logging
    logging.getLogger('atooms').setLevel(logging.CRITICAL)
    logging.getLogger('atooms').addHandler(logging.NullHandler())
    logging.getLogger('atooms').propagate = False
    # (a deprecated alias that numpy still provides may warn; that is no business of ours)
    _ready = checked
