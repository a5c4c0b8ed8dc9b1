"""Environment set-up: import first. Makes every run of the machinery deterministic and points it at /repo."""
import os
import sys

REPO = os.environ.get('GLOMPO_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

from . import explore  # noqa: E402  (keeps the real clock)
from . import virt  # noqa: E402

virt.install()

import warnings  # noqa: E402

import glompo  # noqa: E402

assert os.path.abspath(glompo.__file__).startswith(os.path.abspath(REPO) + os.sep), glompo.__file__
warnings.simplefilter('ignore')


def scratch():
    """ A scratch directory which the caller removes. """
    import tempfile
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    return tempfile.mkdtemp(prefix='glompo_mc_', dir=base)
