"""Process environment of the checks."""
import os
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parents[1]
REPO = Path(os.environ.get('VERIF_REPO', '/repo'))
PYTHON = '/opt/venv/bin/python'

ENV = dict(
    PYTHONHASHSEED='0',
    PYTHONDONTWRITEBYTECODE='1',
    PROJ_DATA='/opt/vp/proj-data',
    PROJ_NETWORK='OFF',
    OMP_NUM_THREADS='1',
    OPENBLAS_NUM_THREADS='1',
    TQDM_DISABLE='',
)


def reexec_if_needed():
    """Restart under the repository's interpreter with a fixed environment."""
    want = dict(os.environ)
    changed = False
    for k, v in ENV.items():
        if v == '':
            if k in want:
                want.pop(k)
                changed = True
        elif want.get(k) != v:
            want[k] = v
            changed = True
    for k in ('PYTHONPATH', 'GDAL_NUM_THREADS', 'GDAL_CACHEMAX', 'CPL_DEBUG'):
        if k in want:
            want.pop(k)
            changed = True
    py = PYTHON if os.path.exists(PYTHON) else sys.executable
    if changed and not want.get('VERIF_REEXEC'):
        want['VERIF_REEXEC'] = '1'
        os.execve(py, [py, '-B', *sys.argv], want)


def use_repo():
    """Make ``import orthority`` resolve to the working tree under test."""
    p = str(REPO)
    if sys.path[0] != p:
        sys.path.insert(0, p)
