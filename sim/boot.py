"""Import order matters: environment, seams, then mpnum from /repo."""
import os
import sys

for _v in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[_v] = '1'
os.environ.setdefault('HDF5_USE_FILE_LOCKING', 'FALSE')
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
# Never trust byte code lying around in the tree: compile the current source.
sys.pycache_prefix = '/nonexistent-pycache'
if REPO not in sys.path[:1]:
    sys.path.insert(0, REPO)

import warnings  # noqa
warnings.simplefilter('ignore')
import numpy as np  # noqa
np.seterr(all='ignore')

from . import seams  # noqa
seams.install()
K = seams.K

import mpnum  # noqa
import mpnum as mp  # noqa
import mpnum.factory  # noqa
import mpnum.linalg  # noqa
import mpnum.mparray  # noqa
import mpnum.mpsmpo  # noqa
import mpnum.povm  # noqa
import mpnum.povm.localpovm  # noqa
import mpnum.special  # noqa
import mpnum.utils  # noqa
import mpnum.utils.extmath  # noqa
import mpnum.utils.pmf  # noqa
from mpnum.mpstruct import LocalTensors  # noqa

assert os.path.realpath(mpnum.__file__).startswith(
    os.path.realpath(REPO) + os.sep), mpnum.__file__
