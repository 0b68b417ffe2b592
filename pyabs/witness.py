"""Random interpretation of terms: a valuation of a path's symbols that satisfies the path's facts.

Two terms that agree under random interpretations are equal with overwhelming probability; a valuation
under which an obligation fails confirms that the failure is not an artefact of interval reasoning.
Terms are interpreted, never the program.
"""
import datetime
import hashlib
import math
import operator
import random
import time

from . import terms as T

F1 = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos,
      'atan': math.atan, 'exp': math.exp, 'log': math.log, 'log10': math.log10, 'tanh': math.tanh,
      'abs': abs, 'floor': math.floor, 'ceil': math.ceil, 'int': int, 'round': round,
      'sign': lambda x: (x > 0) - (x < 0)}


CMP = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}

EPOCH = datetime.datetime(1970, 1, 1)
CALENDAR = ('dt.year', 'dt.month', 'dt.day', 'dt.hour', 'dt.minute', 'dt.second')


class NoValue(Exception):
  pass


def enc(x, ev):
  """A stable description of an atom's argument under the valuation."""
  if isinstance(x, T.Poly):
    return '%.7g' % ev.poly(x)
  if isinstance(x, T.Atom):
    return '%.7g' % ev.atom(x)
  if isinstance(x, (tuple, list)):
    return '(' + ','.join(enc(y, ev) for y in x) + ')'
  if isinstance(x, frozenset):
    return '{' + ','.join(sorted(enc(y, ev) for y in x)) + '}'
  return repr(x)


class Digits:
  """Numbers from the digits of a hash."""

  def __init__(self, h):
    self.n = [int.from_bytes(h[i:i + 5], 'big') / 256.0**5 for i in (0, 5, 10)]

  def random(self):
    return self.n.pop()

  def uniform(self, a, b):
    return a + (b - a) * self.n.pop()


_COMPILED = {}


def compiled(p):
  """A term with floating-point coefficients and exponents."""
  c = _COMPILED.get(p)
  if c is None:
    if len(_COMPILED) > 200000:
      _COMPILED.clear()
    c = _COMPILED[p] = [(float(k), [(a, int(e) if e.denominator == 1 else float(e)) for a, e in m]) for m, k in p.terms.items()]
  return c


class Valuation:

  def __init__(self, seed, facts):
    self.seed, self.facts = seed, facts
    self.val = {}
    self.rnd = random.Random(seed)
    self.leafs = []

  def draw(self, iv, isint, h):
    r = Digits(h)
    lo = -math.inf if iv.lo == -T.INF else float(iv.lo)
    hi = math.inf if iv.hi == T.INF else float(iv.hi)
    mode = r.random()
    if lo == hi:
      v = lo
    elif math.isinf(lo) and math.isinf(hi):
      v = (10 ** r.uniform(-2, 6)) * (1 if r.random() < .5 else -1)
    elif math.isinf(hi):
      v = lo + 10 ** r.uniform(-2, 6)
    elif math.isinf(lo):
      v = hi - 10 ** r.uniform(-2, 6)
    elif mode < .8:
      v = r.uniform(lo, hi)
    elif mode < .9:
      v = lo + (hi - lo) * 1e-3 * r.random()
    else:
      v = hi - (hi - lo) * 1e-3 * r.random()
    if isint:
      v = round(v)
      if v < lo:
        v = math.ceil(lo)
      if v > hi:
        v = math.floor(hi)
    return float(v)

  def leaf(self, a, key):
    h = hashlib.md5(('%s|%s' % (self.seed, key)).encode()).digest()
    v = self.draw(self.facts.atom_iv(a), a.isint, h)
    if a.op == 'var':
      self.leafs.append(a)
    return v

  def atom(self, a):
    v = self.val.get(a)
    if v is None:
      v = self.val[a] = self._atom(a)
    return v

  def _atom(self, a):
    op = a.op
    if op == 'var':
      return self.leaf(a, 'var %s' % (a.args[0],))
    if op == 'grp':
      return self.poly(a.args[0])
    if op == 'grp^':
      return self.poly(a.args[0]) ** float(a.args[1])
    if op in ('max', 'min'):
      vs = [self.poly(p) for p in a.args[0]]
      return max(vs) if op == 'max' else min(vs)
    if op in F1 and len(a.args) == 1 and isinstance(a.args[0], T.Poly):
      return float(F1[op](self.poly(a.args[0])))
    if op == 'atan2':
      return math.atan2(self.poly(a.args[0]), self.poly(a.args[1]))
    if op == 'mod':
      return self.poly(a.args[0]) % self.poly(a.args[1])
    if op == 'fmod':
      return math.fmod(self.poly(a.args[0]), self.poly(a.args[1]))
    if op == 'drem':
      return math.remainder(self.poly(a.args[0]), 2 * math.pi)
    if op in CALENDAR and len(a.args) == 1 and isinstance(a.args[0], T.Poly):
      x = self.poly(a.args[0])
      if -6e8 <= x <= 4.2e9:   # 1951 to 2103
        return float(getattr(EPOCH + datetime.timedelta(seconds=x), op[3:]))
    if op == 'ite':
      c = a.args[0]
      if isinstance(c, T.Poly) and len(c.terms) == 1:   # a substitution wraps the condition in a term
        (m, k), = c.terms.items()
        c = m[0][0] if k == 1 and len(m) == 1 and m[0][1] == 1 else c
      f = CMP.get(c.op[3:]) if isinstance(c, T.Atom) and c.op[:3] == 'cmp' and len(c.args) == 2 and all(
          isinstance(p, T.Poly) for p in c.args) else None
      if f is None or not all(isinstance(p, T.Poly) for p in a.args[1:]):
        raise NoValue('ite')
      return self.poly(a.args[1] if f(self.poly(c.args[0]), self.poly(c.args[1])) else a.args[2])
    if op == 'pwl':
      x = self.poly(a.args[0])
      xs, ys, ex = [float(c) for c in a.args[1]], [float(c) for c in a.args[2]], a.args[3]
      i = 1
      while i < len(xs) - 1 and x > xs[i]:
        i += 1
      if not ex:
        x = min(max(x, xs[0]), xs[-1])
      return ys[i - 1] + (ys[i] - ys[i - 1]) * (x - xs[i - 1]) / (xs[i] - xs[i - 1])
    # an uninterpreted function of its arguments
    return self.leaf(a, op + enc(a.args, self))

  def poly(self, p):
    s = 0.0
    for t, m in compiled(p):
      for a, e in m:
        x = self.val.get(a)
        if x is None:
          x = self.atom(a)
        if e.__class__ is int:
          t *= x ** e
        else:
          if x < 0:
            raise NoValue('root of a negative number')
          t *= x ** e
      s += t
    if s != s or math.isinf(s):
      raise NoValue('overflow')
    return s

  def ok(self, strict=True):
    """The facts the valuation breaks."""
    bad = []
    for p, iv in self.facts.b.items():
      v = self.poly(p)
      tol = 1e-9 * max(1.0, abs(v))
      if iv.lo != -T.INF and (v < float(iv.lo) - tol or (iv.lopen and v <= float(iv.lo))):
        bad.append((p, iv, v))
      elif iv.hi != T.INF and (v > float(iv.hi) + tol or (iv.hopen and v >= float(iv.hi))):
        bad.append((p, iv, v))
    return bad

  def repair(self, rounds=12):
    """Moves single symbols so that broken facts hold."""
    for _ in range(rounds):
      bad = self.ok()
      if not bad:
        return True
      p, iv, v = self.rnd.choice(bad)
      vs = [a for a in variables(p) if a.op == 'var']
      if not vs:
        return False
      a = self.rnd.choice(vs)
      old = self.val.get(a)
      if old is None:
        return False
      lo = float(iv.lo) if iv.lo != -T.INF else None
      hi = float(iv.hi) if iv.hi != T.INF else None
      if lo is not None and hi is not None:
        goal = lo if lo == hi else self.rnd.uniform(lo, hi)
      elif lo is not None:
        goal = lo + (0 if not iv.lopen and self.rnd.random() < .2 else abs(lo) * 10 ** self.rnd.uniform(-6, 0) + 10 ** self.rnd.uniform(-3, 3))
      else:
        goal = hi - (0 if not iv.hopen and self.rnd.random() < .2 else abs(hi) * 10 ** self.rnd.uniform(-6, 0) + 10 ** self.rnd.uniform(-3, 3))
      if not self.solve(p, a, goal):
        self.put(a, old)
    return not self.ok()

  def put(self, a, v):
    self.val = {x: w for x, w in self.val.items() if x.op == 'var' or a not in depends(x)}
    self.val[a] = v

  def solve(self, p, a, goal):
    """Secant steps on one symbol."""
    x0 = self.val[a]
    f0 = self.poly(p) - goal
    if a.isint:
      return False
    x1 = x0 + (abs(x0) * 1e-3 + 1e-3)
    for _ in range(30):
      self.put(a, x1)
      f1 = self.poly(p) - goal
      if abs(f1) <= 1e-12 * max(1.0, abs(goal)):
        return True
      if f1 == f0:
        return False
      x0, f0, x1 = x1, f1, x1 - f1 * (x1 - x0) / (f1 - f0)
      if x1 != x1 or abs(x1) > 1e15:
        return False
    return abs(f1) <= 1e-9 * max(1.0, abs(goal))


_VARS = {}
_DEP = {}


def depends(x):
  """The symbols an atom is a function of."""
  r = _DEP.get(x)
  if r is None:
    r = _DEP[x] = frozenset(variables(x))
  return r


def variables(x):
  if isinstance(x, T.Poly):
    r = _VARS.get(x)
    if r is None:
      s = set()
      for m in x.terms:
        for a, _ in m:
          s |= set(variables(a))
      r = _VARS[x] = sorted(s, key=lambda a: a.id)
    return r
  if isinstance(x, T.Atom):
    if x.op == 'var':
      return [x]
    s = set()
    for y in x.args:
      s |= set(variables(y))
    return sorted(s, key=lambda a: a.id)
  if isinstance(x, (tuple, list, frozenset)):
    s = set()
    for y in x:
      s |= set(variables(y))
    return sorted(s, key=lambda a: a.id)
  return []


_KNOWN = {}


def valuations(facts, n=40):
  """Valuations that satisfy a path's facts; those found for the same facts are kept."""
  key = frozenset((p, iv.lo, iv.hi, iv.lopen, iv.hopen) for p, iv in facts.b.items())
  if key not in _KNOWN:
    if len(_KNOWN) > 16:
      del _KNOWN[next(iter(_KNOWN))]
    _KNOWN[key] = ([], generate(facts.copy(), n))
  found, more = _KNOWN[key]
  i = 0
  while i < n:
    if i == len(found):
      v = next(more, None)
      if v is None:
        return
      found.append(v)
    yield found[i]
    i += 1


def generate(facts, n, tries=400):
  k = 0
  for i in range(tries):
    v = Valuation(i, facts)
    try:
      for p in facts.b:
        v.poly(p)
      if v.repair():
        yield v
        k += 1
    except (NoValue, ValueError, OverflowError, ZeroDivisionError):
      continue
    if k >= n:
      return
    if i >= 60 and k == 0:
      return


REL = {'==': lambda d, t: abs(d) <= t, '<=': lambda d, t: d <= t, '>=': lambda d, t: d >= -t,
       '<': lambda d, t: d < t, '>': lambda d, t: d > -t, '!=': lambda d, t: abs(d) > 0}


SPENT = [0.0]
ENOUGH = 150.0   # seconds; beyond that, what is not settled symbolically stays undecided


class Exhausted(Exception):
  pass


def confirm(facts, op, p, q, n=40):
  """(consistent valuations tried, violating ones, one violating valuation)."""
  if SPENT[0] > ENOUGH:
    raise Exhausted
  t = time.time()
  try:
    return _confirm(facts, op, p, q, n)
  finally:
    SPENT[0] += time.time() - t


def _confirm(facts, op, p, q, n):
  tried = bad = 0
  wit = None
  for v in valuations(facts, n):
    try:
      a, b = v.poly(p), v.poly(q)
    except (NoValue, ValueError, OverflowError, ZeroDivisionError):
      continue
    tried += 1
    if not REL[op](a - b, 1e-7 * max(1.0, abs(a), abs(b)) if op == '==' else 1e-9 * max(1.0, abs(a), abs(b))):
      bad += 1
      if bad >= 2 and tried >= 3:
        break
      if wit is None:
        wit = {str(x): v.val[x] for x in v.val if x.op == 'var'}
  return tried, bad, wit
