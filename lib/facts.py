"""Drives the extractor (tool/arx.cc) over /repo and loads its output."""
import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('ARX_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
LLVM = '/usr/lib/llvm-18'


class AnalysisBroken(Exception):
  """The analysis lost its footing: neither a pass nor a violation."""


def _sh(cmd, **kw):
  r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
  if r.returncode != 0:
    raise AnalysisBroken('command failed: %s\n%s' % (cmd, r.stdout.decode(errors='replace')[-3000:]))
  return r.stdout.decode(errors='replace')


def _tree_files(root, subs, exts):
  res = []
  for sub in subs:
    top = os.path.join(root, sub)
    for d, dirs, files in os.walk(top):
      dirs.sort()
      for f in sorted(files):
        if f.endswith(exts):
          res.append(os.path.join(d, f))
  return res


def _hash_files(files):
  h = hashlib.sha256()
  for f in files:
    h.update(f.encode() + b'\0')
    with open(f, 'rb') as fh:
      b = fh.read()
    h.update(str(len(b)).encode() + b'\0' + b)
  return h.hexdigest()


class Lock:
  def __init__(self, name):
    os.makedirs(BUILD, exist_ok=True)
    self.p = os.path.join(BUILD, name + '.lock')

  def __enter__(self):
    self.f = open(self.p, 'w')
    fcntl.flock(self.f, fcntl.LOCK_EX)

  def __exit__(self, *a):
    self.f.close()


def ensure_tool():
  """Builds the extractor, the generated protobuf headers and the PCH."""
  with Lock('tool'):
    th = _hash_files([os.path.join(VERIF, 'tool', 'arx.cc'), os.path.join(VERIF, 'tool', 'build.sh')])
    stamp = os.path.join(BUILD, 'arx.stamp')
    arx = os.path.join(BUILD, 'arx')
    if not (os.path.exists(arx) and os.path.exists(stamp) and open(stamp).read() == th):
      _sh(['bash', os.path.join(VERIF, 'tool', 'build.sh'), arx])
      open(stamp, 'w').write(th)
    protos = _tree_files(REPO, ['arolla', 'py'], ('.proto',))
    shim = _tree_files(VERIF, ['shim'], ('',)) + [os.path.join(VERIF, 'tool', 'pch_all.h')]
    ph = _hash_files(protos + shim)
    pbdir = os.path.join(BUILD, 'pb')
    stamp = os.path.join(BUILD, 'pb.stamp')
    if not (os.path.exists(stamp) and open(stamp).read() == ph):
      _sh(['bash', os.path.join(VERIF, 'shim', 'genpb.sh'), REPO, pbdir])
      _sh([LLVM + '/bin/clang++'] + base_flags() + ['-x', 'c++-header', os.path.join(VERIF, 'tool', 'pch_all.h'),
                                                     '-o', os.path.join(BUILD, 'all.pch')])
      open(stamp, 'w').write(ph)
  return arx


def base_flags():
  return ['-std=gnu++20', '-w', '-DAROLLA_SHARED_COMPILATION', '-DAROLLA_IMPLEMENTATION',
          '-DABSL_DEFINE_UNQUALIFIED_STATUS_MACROS', '-I' + VERIF + '/shim/include_std', '-I' + VERIF + '/shim/include',
          '-I' + BUILD + '/pb', '-I' + REPO, '-I/usr/include/python3.12', '-resource-dir', LLVM + '/lib/clang/18']


_SKIP = re.compile(r'(_test\.(cc|h)$)|(_test_utils\.)|(/testing/)|(benchmark)|(codegen/io/examples)|(test_util)|(/testdata/)')


def repo_sources(subs=('arolla',)):
  """All non-test C++ sources of the repository, as paths relative to REPO."""
  out = []
  for f in _tree_files(REPO, list(subs), ('.cc', '.h')):
    rel = os.path.relpath(f, REPO)
    if not _SKIP.search(rel):
      out.append(rel)
  return out


# .cc files that cannot be parsed offline: they need a dependency that is
# neither installed nor shimmed.
_UNPARSABLE_INCLUDES = re.compile(r'#include ["<](pybind11/|pybind11_abseil|riegeli/)')


class Scope:
  """What to extract: translation units, header units, instantiations."""

  def __init__(self, cc=None, hdr=None, only=None, inst=(), extra=()):
    self.cc = cc        # regexes over .cc paths (None: none)
    self.hdr = hdr      # regexes over .h paths to be parsed through synthetic units
    self.only = only or []
    self.inst = list(inst)
    self.extra = list(extra)   # additional TUs, absolute paths

  def key(self):
    return json.dumps([self.cc, self.hdr, self.only, self.inst,
                       [[e, open(e).read()] for e in self.extra]])


ALL = Scope(cc=['.*'], hdr=['.*'])


def extract(scope):
  """Returns the list of raw fact records for `scope`."""
  arx = ensure_tool()
  src = _tree_files(REPO, ['arolla', 'py'], ('.cc', '.h', '.proto'))
  tool_inputs = [os.path.join(VERIF, 'tool', 'arx.cc'), os.path.join(VERIF, 'lib', 'facts.py')] + \
      _tree_files(VERIF, ['shim'], ('',))
  key = hashlib.sha256((_hash_files(src) + _hash_files(tool_inputs) + scope.key()).encode()).hexdigest()[:24]
  cache = os.path.join(BUILD, 'facts', key)
  with Lock('facts'):
    if not os.path.exists(os.path.join(cache, 'ok')):
      _run_extract(arx, scope, cache)
  recs = []
  for f in sorted(os.listdir(cache)):
    if f.endswith('.jsonl'):
      with open(os.path.join(cache, f)) as fh:
        for line in fh:
          recs.append(json.loads(line))
  return recs


def _run_extract(arx, scope, cache):
  base = os.path.join(BUILD, 'facts')
  os.makedirs(base, exist_ok=True)
  # keep the cache small
  old = sorted((os.path.join(base, d) for d in os.listdir(base)), key=os.path.getmtime)
  for d in old[:-12]:
    subprocess.run(['rm', '-rf', d])
  tmp = cache + '.tmp'
  subprocess.run(['rm', '-rf', tmp])
  os.makedirs(tmp)
  srcs = repo_sources()
  tus = []
  if scope.cc:
    rx = [re.compile(r) for r in scope.cc]
    for s in srcs:
      if s.endswith('.cc') and any(r.match(s) for r in rx):
        with open(os.path.join(REPO, s), errors='replace') as fh:
          if _UNPARSABLE_INCLUDES.search(fh.read()):
            continue
        tus.append(os.path.join(REPO, s))
  if scope.hdr:
    rx = [re.compile(r) for r in scope.hdr]
    hdrs = []
    for s in srcs:
      if s.endswith('.h') and any(r.match(s) for r in rx):
        with open(os.path.join(REPO, s), errors='replace') as fh:
          if _UNPARSABLE_INCLUDES.search(fh.read()):
            continue
        hdrs.append(s)
    n = max(1, min(16, len(hdrs) // 6 + 1))
    for i in range(n):
      part = hdrs[i * len(hdrs) // n:(i + 1) * len(hdrs) // n]
      if part:
        p = os.path.join(tmp, 'hdr_%d.cc' % i)
        with open(p, 'w') as fh:
          fh.write(''.join('#include "%s"\n' % h for h in part))
        tus.append(p)
  tus += scope.extra
  if not tus:
    raise AnalysisBroken('no translation units for scope')
  sizes = {t: os.path.getsize(t) + (200000 if '/hdr_' in t else 0) for t in tus}
  tus.sort(key=lambda t: -sizes[t])
  nchunk = max(1, min(40, (len(tus) + 2) // 3, len(tus))) if len(tus) > 8 else len(tus)
  chunks = [[] for _ in range(nchunk)]
  if nchunk == len(tus):
    chunks = [[t] for t in tus]
  else:
    # big units first and apart; the rest by a hash of the name, so that an edit
    # changes one chunk only
    for i, t in enumerate(tus):
      if '/hdr_' in t:
        chunks[i % nchunk].append(t)
      else:
        chunks[int(hashlib.sha256(os.path.relpath(t, REPO).encode()).hexdigest(), 16) % nchunk].append(t)
    chunks = [c for c in chunks if c]
    chunks.sort(key=lambda c: -sum(sizes[t] for t in c))
    nchunk = len(chunks)
  opts = ['--root', REPO, '--root2', os.path.join(VERIF, 'tu')]
  for p in scope.only:
    opts += ['--only', p]
  for p in scope.inst:
    opts += ['--inst', p]

  # chunks whose inputs did not change are reused
  hdr_hash = _hash_files([f for f in _tree_files(REPO, ['arolla', 'py'], ('.h', '.proto'))] +
                         [os.path.join(VERIF, 'tool', 'arx.cc')] + _tree_files(VERIF, ['shim'], ('',)))
  chunk_dir = os.path.join(BUILD, 'chunks')
  os.makedirs(chunk_dir, exist_ok=True)
  old = sorted((os.path.join(chunk_dir, d) for d in os.listdir(chunk_dir)), key=os.path.getmtime)
  for d in old[:-200]:
    os.unlink(d)

  def one(i):
    out = os.path.join(tmp, '%03d.jsonl' % i)
    h = hashlib.sha256((hdr_hash + scope.key()).encode())
    for t in chunks[i]:
      with open(t, 'rb') as fh:
        h.update(os.path.basename(t).encode() if '/hdr_' in t else t.encode())
        text = fh.read()
      h.update(text)
      for inc in re.findall(rb'#include "(arolla/[^"]*\.cc)"', text):
        with open(os.path.join(REPO, inc.decode()), 'rb') as fh:
          h.update(fh.read())
    saved = os.path.join(chunk_dir, h.hexdigest()[:32])
    if os.path.exists(saved):
      os.link(saved, out)
      return 0, ''
    cmd = [arx, '--out', out] + opts + chunks[i] + ['--'] + base_flags() + \
        ['-include-pch', os.path.join(BUILD, 'all.pch')]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=tmp)
    if r.returncode == 0:
      os.link(out, saved + '.tmp%d' % os.getpid())
      os.replace(saved + '.tmp%d' % os.getpid(), saved)
    return r.returncode, r.stdout.decode(errors='replace')

  with ThreadPoolExecutor(8) as ex:
    for rc, log in ex.map(one, range(nchunk)):
      if rc != 0:
        errs = [l for l in log.splitlines() if 'error:' in l]
        raise AnalysisBroken('extractor failed (rc=%d): %s' % (rc, '\n'.join(errs[:10]) or log[-2000:]))
  open(os.path.join(tmp, 'ok'), 'w').close()
  os.rename(tmp, cache)


class Facts:

  def __init__(self, recs):
    self.functions = []
    self.by_usr = {}
    self.by_name = {}
    self.insts = []
    self.insts_of = {}
    self.records = {}
    self.record_insts = []
    self.enums = {}
    self.globals = []
    self.tus = []
    seen = set()
    for r in recs:
      k = r['k']
      if k == 'Function':
        key = (r['kind'], r['u'], r['file'], r['l'] if not r['u'] else 0)
        if key in seen:
          continue
        seen.add(key)
        if r['kind'] == 'inst':
          self.insts.append(r)
          self.insts_of.setdefault(r.get('pu'), []).append(r)
          if r['u']:
            self.by_usr.setdefault('I' + r['u'], []).append(r)
        else:
          self.functions.append(r)
          if r['u']:
            self.by_usr.setdefault(r['u'], []).append(r)
          self.by_name.setdefault(r['n'], []).append(r)
      elif k == 'Record':
        key = ('R', r['kind'], r['u'], r['file'])
        if key in seen:
          continue
        seen.add(key)
        if r['kind'] == 'inst':
          self.record_insts.append(r)
        else:
          self.records.setdefault(r['n'], []).append(r)
      elif k == 'Enum':
        self.enums.setdefault(r['n'], r)
      elif k == 'Global':
        key = ('V', r['u'], r['file'], r['l'])
        if key in seen:
          continue
        seen.add(key)
        self.globals.append(r)
      elif k == 'TU':
        self.tus.append(r['file'])
      elif k == 'Error':
        raise AnalysisBroken('parse error in ' + r['file'])

  def callee(self, call, frm=None):
    """The definition of a resolved call's callee, if it lies in the repo."""
    u = call.get('u')
    c = self.by_usr.get(u)
    if not c:
      return None
    if len(c) > 1 and frm is not None:
      same = [f for f in c if f['file'] == frm['file']]
      if same:
        return same[0]
    return c[0]

  def fn(self, name, file=None):
    c = [f for f in self.by_name.get(name, []) if f.get('body') is not None and (file is None or f['file'] == file)]
    return c

  def rec(self, name):
    c = self.records.get(name, [])
    return c[0] if c else None


def load(scope):
  return Facts(extract(scope))
