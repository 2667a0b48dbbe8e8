"""Environment of every check: import ProjectQ from /repo's working tree, with a C++ simulator built from it."""
import glob
import hashlib
import importlib.util
import os
import subprocess
import sys
import sysconfig
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')


def _cpp_inputs():
    res = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'projectq')):
        for f in files:
            if f.endswith(('.cpp', '.cc', '.c', '.hpp', '.h')):
                res.append(os.path.relpath(os.path.join(root, f), REPO))
    return res


def _stamp(lib):
    """The hash /opt/vp/build.sh records for a build that is up to date."""
    names = _cpp_inputs() + ['setup.py', 'setup.cfg', 'pyproject.toml', lib, '/opt/vp/build.sh']
    out = b''
    for n in sorted(names, key=lambda x: x.encode()):
        with open(os.path.join(REPO, n), 'rb') as f:
            out += f'{hashlib.sha256(f.read()).hexdigest()}  {n}\n'.encode()
    return hashlib.sha256(out).hexdigest()


def _load(path):
    name = 'projectq.backends._sim._cppsim'
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    sys.modules[name] = mod


def _cppsim():
    lib = 'projectq/backends/_sim/_cppsim' + sysconfig.get_config_var('EXT_SUFFIX')
    stampfile = os.path.join(REPO, 'build/cext.stamp')
    try:
        with open(stampfile) as f:
            if f.read().split()[0] == _stamp(lib):
                return None  # /repo's own build is current
    except (OSError, IndexError):
        pass
    h = hashlib.sha256()
    for n in sorted(_cpp_inputs()):
        with open(os.path.join(REPO, n), 'rb') as f:
            h.update(n.encode() + b'\0' + f.read())
    out = os.path.join(BUILD, 'cppsim-' + h.hexdigest()[:16] + '.so')
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        for old in glob.glob(os.path.join(BUILD, 'cppsim-*.so')):
            os.unlink(old)
        inc = subprocess.run(
            [sys.executable, '-m', 'pybind11', '--includes'], check=True, capture_output=True, text=True
        ).stdout.split()
        tmp = out + f'.{os.getpid()}.tmp'
        subprocess.run(
            ['g++', '-O2', '-ffast-math', '-mavx2', '-DINTRIN', '-std=c++17', '-shared', '-fPIC', '-fopenmp']
            + inc
            + [os.path.join(REPO, 'projectq/backends/_sim/_cppsim.cpp'), '-o', tmp],
            check=True,
            capture_output=True,
        )
        os.rename(tmp, out)
    return out


def setup():
    """Prepare this process.  Called once, before anything of ProjectQ is imported."""
    sys.dont_write_bytecode = True
    scratch = tempfile.mkdtemp(prefix='verif-')
    sys.pycache_prefix = os.path.join(scratch, 'pyc')
    os.chdir(scratch)
    sys.path.insert(0, REPO)
    so = _cppsim()
    if so is not None:
        _load(so)
    import projectq

    assert os.path.realpath(projectq.__file__).startswith(os.path.realpath(REPO) + '/'), projectq.__file__
    from projectq.backends._sim import _simulator

    assert not _simulator.FALLBACK_TO_PYSIM
    return scratch
