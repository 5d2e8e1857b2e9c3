"""Statement structure and paths of an emitted C++ text with holes.

The text (pystr parts) is parsed into statements; holes that stand for whole
emitted fragments (loops, guarded field access, item pushes) are statements of
their own. paths() enumerates the executions of one pass through the loops as
lists of events.
"""
import re

import pystr


class ParseError(Exception):
  pass


def flat(v):
  """Items: single characters and holes."""
  out = []
  for p in v:
    if isinstance(p, str):
      out += list(p)
    else:
      out.append(p)
  return out


def txt(items):
  return re.sub(r'\s+', ' ', ''.join(i if isinstance(i, str) else '<%s>' % i.name for i in items)).strip()


class Stmt:

  def __init__(self, kind, **kw):
    self.kind = kind
    self.__dict__.update(kw)

  def __repr__(self):
    return '%s(%s)' % (self.kind, getattr(self, 'text', ''))


STMT_HOLES = {'set_path_to_field', 'push_back_item', 'push_back_empty_item', 'gen_loop_size', 'define_array', 'return_array', '_value_type_definition'}


class Parser:
  """opens(hole) -> the hole opens a loop scope; closes(hole) -> it closes all of them."""

  def __init__(self, value, opens, closes, stmt_holes=STMT_HOLES):
    self.it = flat(value)
    self.i = 0
    self.opens, self.closes, self.sh = opens, closes, stmt_holes

  def ws(self):
    while self.i < len(self.it):
      ch = self.it[self.i]
      if isinstance(ch, str) and ch.isspace():
        self.i += 1
      elif ch == '/' and self.it[self.i + 1:self.i + 2] == ['/']:
        while self.i < len(self.it) and self.it[self.i] != '\n':
          self.i += 1
      else:
        return

  def peek_word(self):
    j = self.i
    w = ''
    while j < len(self.it) and isinstance(self.it[j], str) and (self.it[j].isalnum() or self.it[j] == '_'):
      w += self.it[j]
      j += 1
    return w

  def parens(self):
    self.ws()
    if self.i >= len(self.it) or self.it[self.i] != '(':
      raise ParseError('expected ( near ' + txt(self.it[self.i:self.i + 30]))
    d, j = 0, self.i
    while j < len(self.it):
      if self.it[j] == '(':
        d += 1
      elif self.it[j] == ')':
        d -= 1
        if d == 0:
          r = self.it[self.i + 1:j]
          self.i = j + 1
          return r
      j += 1
    raise ParseError('unbalanced parentheses')

  def stmts(self):
    """Statements up to the end of the enclosing scope."""
    out = []
    while True:
      self.ws()
      if self.i >= len(self.it):
        return out
      ch = self.it[self.i]
      if ch == '}':
        return out
      if not isinstance(ch, str) and self.closes(ch):
        return out
      s = self.stmt()
      if s is not None:
        out.append(s)

  def loop_body(self):
    """Body of a loop whose brace has been opened; closed by `}` or by a closing hole (left in place)."""
    body = self.stmts()
    if self.i < len(self.it) and self.it[self.i] == '}':
      self.i += 1
    elif self.i >= len(self.it):
      raise ParseError('unclosed loop')
    return body

  def stmt(self):
    ch = self.it[self.i]
    if not isinstance(ch, str):
      if self.opens(ch):
        self.i += 1
        return Stmt('loop', text='<%s>' % ch.name, hole=ch, body=self.loop_body())
      if ch.info.get('call') in self.sh:
        self.i += 1
        return Stmt('hole', text='<%s>' % ch.name, hole=ch)
    if ch == ';':
      self.i += 1
      return None
    if ch == '{':
      self.i += 1
      b = self.stmts()
      self.close()
      return Stmt('block', body=b)
    w = self.peek_word()
    if w == 'if':
      self.i += 2
      c = self.parens()
      self.ws()
      a = self.stmt()
      self.ws()
      b = None
      if self.peek_word() == 'else':
        self.i += 4
        self.ws()
        b = self.stmt()
      return Stmt('if', text=txt(c), cond=c, then=a, other=b)
    if w in ('for', 'while'):
      self.i += len(w)
      c = self.parens()
      self.ws()
      if self.it[self.i] == '{':
        self.i += 1
        return Stmt('loop', text=txt(c), cond=c, hole=None, body=self.loop_body())
      return Stmt('loop', text=txt(c), cond=c, hole=None, body=[self.stmt()])
    # simple statement up to ;
    d, j = 0, self.i
    while j < len(self.it):
      x = self.it[j]
      if x in ('(', '[', '{'):
        d += 1
      elif x in (')', ']', '}'):
        d -= 1
        if d < 0:
          break
      elif x == ';' and d == 0:
        break
      j += 1
    body = self.it[self.i:j]
    self.i = j + 1 if j < len(self.it) and self.it[j] == ';' else j
    t = txt(body)
    m = re.match(r'^(return|continue|break)\b\s*(.*)$', t)
    if m:
      return Stmt(m.group(1), text=m.group(2), items=body)
    return Stmt('expr', text=t, items=body)

  def close(self):
    self.ws()
    if self.i < len(self.it) and self.it[self.i] == '}':
      self.i += 1
    else:
      raise ParseError('missing }')


def parse(value, opens=lambda h: False, closes=lambda h: False, stmt_holes=STMT_HOLES):
  p = Parser(value, opens, closes, stmt_holes)
  out = p.stmts()
  while p.i < len(p.it) and (not isinstance(p.it[p.i], str) and closes(p.it[p.i])):
    p.i += 1
    out += p.stmts()
  if p.i < len(p.it):
    raise ParseError('text left over: ' + txt(p.it[p.i:p.i + 40]))
  return out


def paths(stmts, split=lambda h: None):
  """[(events, exit)] with exit in fall/continue/break/return.

  Events: ('expr', text), ('hole', Hole), ('cond', text, bool), ('loop', Stmt), ('return', text).
  `split(hole)` -> list of (events, statements-or-None) alternatives; None falls through.
  """
  cur = [((), 'fall')]
  for s in stmts:
    nxt = []
    for ev, ex in cur:
      if ex != 'fall':
        nxt.append((ev, ex))
        continue
      for e2, x2 in one(s, split):
        nxt.append((ev + e2, x2))
    cur = nxt
  return cur


def one(s, split):
  if s is None:
    return [((), 'fall')]
  if s.kind == 'block':
    return paths(s.body, split)
  if s.kind == 'expr':
    return [((('expr', s.text),), 'fall')]
  if s.kind == 'return':
    return [((('return', s.text),), 'return')]
  if s.kind in ('continue', 'break'):
    return [((), s.kind)]
  if s.kind == 'hole':
    alt = split(s.hole)
    if alt is None:
      return [((('hole', s.hole),), 'fall')]
    out = []
    for ev, st in alt:
      if st is None:
        out.append((tuple(ev), 'fall'))
      else:
        for e2, x2 in paths(st, split):
          out.append((tuple(ev) + e2, x2))
    return out
  if s.kind == 'if':
    out = []
    for e2, x2 in one(s.then, split):
      out.append(((('cond', s.text, True),) + e2, x2))
    for e2, x2 in one(s.other, split) if s.other is not None else [((), 'fall')]:
      out.append(((('cond', s.text, False),) + e2, x2))
    return out
  if s.kind == 'loop':
    out = []
    for e2, x2 in paths(s.body, split):
      out.append(((('enter', s),) + e2 + (('leave', s, x2),), 'return' if x2 == 'return' else 'fall'))
    return out
  raise ParseError(s.kind)
