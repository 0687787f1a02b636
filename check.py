#!/bin/sh
''':'
here=$(CDPATH= cd -- "$(dirname -- "$0")" && pwd)
export PYTHONPATH=/opt/optax-compat:"$here" JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec /opt/venv/bin/python "$here/check.py" "$@"
':'''
"""check.py Cxx [--tier quick|thorough] [--replay FILE] [-v]"""
import argparse
import json
import os
import sys
import time
import traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('prop')
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  ap.add_argument('--replay')
  ap.add_argument('-v', action='store_true')
  a = ap.parse_args()
  if a.tier not in ('quick', 'thorough'): a.tier = 'quick'
  os.environ['VP_TIER'] = a.tier
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  from vp import verdict
  if a.replay: sys.exit(verdict.replay(a.prop, a.replay))
  sys.exit(verdict.check(a.prop, a.tier, seed, a.v))


if __name__ == '__main__':
  sys.setrecursionlimit(20000)
  import threading
  threading.stack_size(512 * 1024 * 1024)
  rc = [2]

  def go():
    try:
      main()
    except SystemExit as e:
      rc[0] = e.code if isinstance(e.code, int) else 2
    except BaseException:
      traceback.print_exc()
      rc[0] = 2
  th = threading.Thread(target=go)
  th.start(); th.join()
  sys.stdout.flush(); sys.stderr.flush()
  os._exit(rc[0])
