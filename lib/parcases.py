"""Runs the cases of a check on all cores, with a bound on the time of each."""
import mmap
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

from absint import Unsupported

_fn = None
_limit = 10
_stuck = {}


class _Slow(BaseException):
  pass


def _alarm(*_):
  raise _Slow()


def _work(t):
  try:
    return _work0(t)
  except _Slow:
    return t, [], 'the cases are too many for the domain'


def _work0(t):
  key = t[0]
  if _stuck.get(key, 0) >= 3:
    return t, [], 'the cases are too many for the domain'
  signal.signal(signal.SIGALRM, _alarm)
  signal.alarm(_limit)
  try:
    return t, _fn(t), None
  except Unsupported as e:
    return t, [], str(e)
  except (AttributeError, TypeError, KeyError, IndexError, ValueError, RecursionError) as e:
    tb = traceback.extract_tb(e.__traceback__)[-1]
    return t, [], 'a value the domain does not represent (%s:%d)' % (tb.name, tb.lineno)
  except _Slow:
    _stuck[key] = _stuck.get(key, 0) + 1
    return t, [], 'the cases are too many for the domain'
  finally:
    signal.alarm(0)


def _serve(todo, chunk, jobs, path, counts, me, stop):
  """A worker: takes chunks off the pipe until it is empty, keeps the results in a file."""
  with open(path, 'wb') as f:
    while sum(counts[:]) < stop:
      b = os.read(jobs, 4)
      if len(b) < 4:
        break
      i = int.from_bytes(b, 'little')
      rs = [_work(t) for t in todo[i:i + chunk]]
      counts[me] = min(255, counts[me] + sum(bool(r[1]) for r in rs))
      pickle.dump((i, rs), f)
      f.flush()


def run(fn, todo, chunk=16, limit=10, stop=60, workers=8):
  """-> [(case, complaints, undecided)]; ends early after `stop` cases with complaints."""
  global _fn, _limit
  _fn, _limit = fn, limit
  chunk = max(chunk, len(todo) // 8000 + 1)
  thorough = os.environ.get('VERIF_TIER') == 'thorough'
  end = time.time() + (7200 if thorough else 780)
  counts = mmap.mmap(-1, workers)
  jobs, feed = os.pipe()
  os.write(feed, b''.join(i.to_bytes(4, 'little') for i in range(0, len(todo), chunk)))
  os.close(feed)
  sys.stdout.flush()
  sys.stderr.flush()
  d = tempfile.mkdtemp()
  pids = []
  for me in range(workers):
    pid = os.fork()
    if not pid:
      try:
        _serve(todo, chunk, jobs, os.path.join(d, str(me)), counts, me, stop)
      except BaseException:
        traceback.print_exc()
      finally:
        sys.stderr.flush()
        os._exit(0)
    pids.append(pid)
  os.close(jobs)
  live = set(pids)
  while live and time.time() < end:
    time.sleep(0.02)
    live -= {p for p in live if os.waitpid(p, os.WNOHANG)[0]}
  for p in live:
    os.kill(p, signal.SIGKILL)
    os.waitpid(p, 0)
  got = {}
  for me in range(workers):
    path = os.path.join(d, str(me))
    if os.path.exists(path):
      with open(path, 'rb') as f:
        try:
          while True:
            i, rs = pickle.load(f)
            got[i] = rs
        except (EOFError, pickle.UnpicklingError):
          pass
  shutil.rmtree(d, ignore_errors=True)
  out = [r for i in sorted(got) for r in got[i]]
  missing = [i for i in range(0, len(todo), chunk) if i not in got]
  if missing and sum(bool(r[1]) for r in out) < stop:
    out.append((todo[missing[0]], [], 'the cases did not finish'))
  return out


def check(c, case, todo, names, fns, where, chunk=16, **kw):
  """Runs the cases and reports them on the check `c`."""
  for fn in names:
    c.need(fn in fns, fn)
  res = run(case, todo, chunk, **kw)
  und, seen = set(), set()
  for t, bad, un in res:
    c.count('cases')
    c.count(t[0])
    if un:
      und.add((where[t[0]], '%s: %s' % (t[0], un)))
      continue
    for x in bad:
      c.bad(where[t[0]], x, key='%s|%s' % (t[0], x))
    if not bad:
      c.ok(None if t[0] in seen else '%s for every case' % t[0])
      seen.add(t[0])
  for x in sorted(und):
    c.undecided(*x)
