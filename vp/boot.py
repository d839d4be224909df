"""Process environment shared by every check.

Must be imported before numpy / openmdao / omtools.  Re-executes the interpreter once so
that PYTHONHASHSEED and the byte-code cache location are fixed for the whole run.
"""
import os
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
VENV_PY = '/opt/venv/bin/python'
HYP_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def reexec(hashseed):
    want = {
        'PYTHONHASHSEED': str(hashseed),
        'OPENMDAO_REPORTS': '0',
        'MPLBACKEND': 'Agg',
        'OMP_NUM_THREADS': '1',
        'OPENBLAS_NUM_THREADS': '1',
        'MKL_NUM_THREADS': '1',
        'HYPOTHESIS_STORAGE_DIRECTORY': '/nonexistent-hyp',
    }
    if os.environ.get('VP_BOOTED') == '1' and os.environ.get('PYTHONHASHSEED') == want['PYTHONHASHSEED']:
        return
    env = dict(os.environ)
    env.update(want)
    env['VP_BOOTED'] = '1'
    env['PYTHONPATH'] = os.pathsep.join([REPO, VERIF])
    env.pop('PYTHONSTARTUP', None)
    os.execve(VENV_PY, [VENV_PY, '-B', '-W', 'ignore'] + sys.argv_exec, env)


def scratch():
    """A scratch directory for this process; removed by the caller."""
    d = tempfile.mkdtemp(prefix='vp_')
    os.environ['OPENMDAO_WORKDIR'] = d
    sys.pycache_prefix = os.path.join(d, 'pyc')
    return d


def paths():
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        sys.path.append(HYP_SITE)
        import hypothesis  # noqa: F401
