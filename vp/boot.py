"""Imports jax and the optax of /repo (never an installed copy)."""
import os
import sys
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
sys.dont_write_bytecode = True
REPO = os.environ.get('VP_REPO', '/repo')
for p in (REPO, '/opt/optax-compat'):
  if p in sys.path: sys.path.remove(p)
  sys.path.insert(0, p)
import warnings
warnings.filterwarnings('ignore')
try:
  import jax_removed_names  # noqa: F401
except ImportError:
  pass
import jax  # noqa: E402
import optax  # noqa: E402
from absl import logging as _al  # noqa: E402
_al.set_verbosity(_al.ERROR)
assert os.path.realpath(optax.__file__).startswith(os.path.realpath(REPO) + os.sep), optax.__file__
