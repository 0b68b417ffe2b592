#!/usr/bin/env python3
"""Decides one property from the current source of /repo."""
import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


LIMIT = {'quick': 780}
REPORT = []


class OutOfTime(BaseException):
  pass


def decide(r, module, fn, tier):
  try:
    getattr(module, fn)(r, tier)
  except ValueError as e:
    if 'expected 1, got 0' not in str(e):
      raise
    import traceback
    import common
    traceback.print_exc()
    raise common.Refused(traceback.extract_tb(e.__traceback__)[-1].line) from e


def main():
  ap = argparse.ArgumentParser()
  ap.add_argument('--property', required=True)
  ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
  a = ap.parse_args()
  import common
  import registry
  import report
  mod, fn, level = registry.CHECKS[a.property]
  r = report.Report(a.property, a.tier, int(os.environ.get('VERIF_SEED', '1')))
  REPORT[:] = [r, level]
  from pyabs import interp
  try:
    decide(r, importlib.import_module(mod), fn, a.tier)
  except interp.Budget as e:
    r.undecided('budget', str(e))
  except OutOfTime:
    r.undecided('budget', 'out of time')
  except common.Refused as e:
    r.check(False, 'runs-at-all', str(e)[:200], 'call', 'fails on every path')
  except Exception as e:  # the analysis gave up: what was decided so far still counts
    import traceback
    traceback.print_exc()
    r.undecided('analysis-gave-up', '%s: %s' % (type(e).__name__, str(e)[:200]))
  return r.finish(level)


if __name__ == '__main__':
  import threading
  threading.stack_size(512 * 1024 * 1024)
  res = []

  def run():
    try:
      res.append(main())
    except SystemExit as e:
      res.append(e.code)
    except BaseException:  # pylint: disable=broad-except
      import traceback
      traceback.print_exc()
      res.append(2)
  t = threading.Thread(target=run, daemon=True)
  t.start()
  t.join(float(os.environ.get('VERIF_LIMIT', 0)) or LIMIT.get(
      'quick' if 'thorough' not in sys.argv else 'thorough', 6000))
  if t.is_alive():
    # Out of time: what was decided so far still counts.
    import ctypes
    ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(OutOfTime))
    t.join(30)
    while t.is_alive() and not res and REPORT:
      try:
        REPORT[0].undecided('budget', 'out of time')
        res.append(REPORT[0].finish(REPORT[1]))
      except RuntimeError:
        pass
  sys.stdout.flush()
  os._exit(res[0] if res else 2)
