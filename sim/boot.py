"""Process bootstrap: puts every source of nondeterminism behind a seam
*before* Wake-T is imported.

  threads   numba is replaced by sim.kernels (pure Python kernels whose
            parallel loops run on simulated threads)
  disk      sim/iofault.c is preloaded under openPMD-api, HDF5 and h5py
  clock     time.time & co. read a simulated clock (sim.clock)
  random    numpy's global generator is seeded per run
  hashing   PYTHONHASHSEED fixed (the determinism self-test varies it)
"""
import ctypes
import hashlib
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
FIXED_ENV = {
    'WAKET_DISABLE_CACHING': '1',
    'NUMBA_DISABLE_JIT': '1',
    'NUMBA_NUM_THREADS': '8',
    'OPENBLAS_NUM_THREADS': '1',
    'OMP_NUM_THREADS': '1',
    'MKL_NUM_THREADS': '1',
    'PYTHONDONTWRITEBYTECODE': '1',
    'MPLBACKEND': 'Agg',
    'HDF5_USE_FILE_LOCKING': 'FALSE',
    'WAKET_NUM_THREADS': '1',
}


def build_shim():
    """Compile the storage shim into /verif/build (ignored by git)."""
    src = os.path.join(VERIF, 'sim', 'iofault.c')
    tag = hashlib.sha1(open(src, 'rb').read()).hexdigest()[:12]
    out_dir = os.path.join(VERIF, 'build')
    out = os.path.join(out_dir, 'iofault-%s.so' % tag)
    if not os.path.exists(out):
        os.makedirs(out_dir, exist_ok=True)
        tmp = out + '.%d.tmp' % os.getpid()
        subprocess.check_call(
            ['gcc', '-O1', '-shared', '-fPIC', '-o', tmp, src, '-ldl'])
        os.replace(tmp, out)
    return out


def reexec_if_needed():
    """Restart the interpreter with the simulated environment, once."""
    if os.environ.get('WAKET_SIM') == '1':
        return
    env = dict(os.environ)
    for k in ('PYTHONPATH', 'PYTHONHOME', 'PYTHONSTARTUP'):
        env.pop(k, None)
    env.update(FIXED_ENV)
    env.setdefault('PYTHONHASHSEED', '0')
    if 'VERIF_HASHSEED' in env:
        env['PYTHONHASHSEED'] = env['VERIF_HASHSEED']
    else:
        env['PYTHONHASHSEED'] = '0'
    env['PYTHONPATH'] = REPO + os.pathsep + VERIF
    env['LD_PRELOAD'] = build_shim()
    env['WAKET_SIM'] = '1'
    # No address-space randomisation is needed: nothing depends on ids.
    os.execve(PYTHON, [PYTHON, '-u'] + sys.argv, env)


def load():
    """Install the seams and import Wake-T from the working tree."""
    from sim import kernels, clock
    clock.install()
    kernels.install()
    import wake_t
    path = os.path.abspath(wake_t.__file__)
    if not path.startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError('wake_t imported from %s, not %s' % (path, REPO))
    # Import every public part so that forked runs start from the same state.
    import wake_t.diagnostics
    import wake_t.diagnostics.bunch_analysis
    import wake_t.tracking.tracker
    import wake_t.utilities.bunch_generation
    import wake_t.utilities.bunch_saving
    import wake_t.physics_models.laser.laser_pulse
    import wake_t.beamline_elements
    import h5py  # noqa: F401
    lib = ctypes.CDLL(None)
    try:
        assert lib.iof_present() == 1
    except AttributeError:
        raise RuntimeError('storage shim not preloaded')
    return wake_t
