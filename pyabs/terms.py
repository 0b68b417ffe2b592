"""Value-numbered arithmetic terms, intervals and facts (the abstract numeric domain).

A number is a polynomial with rational coefficients over atoms.  Atoms are
hash-consed, so two computations that perform the same arithmetic - in whatever
order, through whatever helper - get the same term.  Bounds are intervals,
refined by the facts that branch conditions establish about terms.
"""
import math
from fractions import Fraction

INF = float('inf')


def frac(x):
  if isinstance(x, Fraction):
    return x
  if isinstance(x, bool):
    return Fraction(int(x))
  if isinstance(x, int):
    return Fraction(x)
  if isinstance(x, float):
    if x in (INF, -INF):
      return x
    return Fraction(repr(x)) if x == x else None
  raise TypeError(x)


class Atom:
  __slots__ = ('op', 'args', 'id', 'rng', 'isint', 'lab', '_h')
  table = {}
  count = 0

  def __repr__(self):
    return show_atom(self)

  def __hash__(self):
    return self._h


def atom(op, *args, rng=None, isint=False, lab=frozenset()):
  key = (op, args)
  a = Atom.table.get(key)
  if a is None:
    a = Atom.__new__(Atom)
    a.op, a.args = op, args
    a.id = Atom.count
    Atom.count += 1
    a.rng = rng
    a.isint = isint
    l = lab
    for x in args:
      l = l | _labels(x)
    a.lab = l
    a._h = hash(a.id)
    Atom.table[key] = a
  return a


def _labels(x):
  if isinstance(x, Atom):
    return x.lab
  if isinstance(x, Poly):
    return x.lab
  if isinstance(x, tuple):
    l = frozenset()
    for y in x:
      l = l | _labels(y)
    return l
  return frozenset()


def show_atom(a, depth=3):
  if a.op == 'var':
    return str(a.args[0])
  if depth == 0:
    return '..'
  if a.op == 'grp':
    return '(' + show(a.args[0], depth - 1) + ')'
  return a.op + '(' + ', '.join(
      show(x, depth - 1) if isinstance(x, Poly) else
      show_atom(x, depth - 1) if isinstance(x, Atom) else
      '(' + ','.join(show(y, depth - 1) if isinstance(y, Poly) else str(y)
                     for y in x) + ')' if isinstance(x, tuple) else str(x)
      for x in a.args) + ')'


def show_num(c):
  if c.denominator == 1:
    return str(c.numerator)
  return '%.9g' % float(c)


def show(p, depth=4):
  if not p.terms:
    return '0'
  out = []
  for i, (m, c) in enumerate(p.terms.items()):
    if i >= 8:
      out.append('...')
      break
    s = '*'.join(show_atom(a, depth) + ('' if e == 1 else '^' + str(e)) for a, e in m)
    if not m:
      s = show_num(c)
    elif c != 1:
      s = show_num(c) + '*' + s
    out.append(s)
  return ' + '.join(out)


MAXTERMS = 60


class Poly:
  __slots__ = ('terms', '_h', 'lab')
  table = {}

  def __hash__(self):
    return self._h

  def __repr__(self):
    return show(self)

  # interned: default identity equality
  @property
  def const(self):
    """The constant value if this is a constant, else None."""
    if not self.terms:
      return Fraction(0)
    if len(self.terms) == 1 and () in self.terms:
      return self.terms[()]
    return None

  def __add__(self, o):
    o = poly(o)
    if not o.terms:
      return self
    t = dict(self.terms)
    for m, c in o.terms.items():
      n = t.get(m, 0) + c
      if n:
        t[m] = n
      else:
        t.pop(m, None)
    return mk(t)

  def __neg__(self):
    return mk({m: -c for m, c in self.terms.items()})

  def __sub__(self, o):
    return self + (-poly(o))

  def scale(self, k):
    k = frac(k)
    if not k:
      return ZERO
    if k == 1:
      return self
    return mk({m: c * k for m, c in self.terms.items()})

  def __mul__(self, o):
    o = poly(o)
    k = o.const
    if k is not None:
      return self.scale(k)
    k = self.const
    if k is not None:
      return o.scale(k)
    a, b = self, o
    r = _cancel(a, b) or _cancel(b, a)
    if r is not None:
      return r
    if len(a.terms) * len(b.terms) > MAXTERMS:
      if len(a.terms) > 4:
        a = _fold(a)
      if len(b.terms) > 4:
        b = _fold(b)
    res = ZERO
    t = {}
    for m1, c1 in a.terms.items():
      for m2, c2 in b.terms.items():
        m, extra = _mmul(m1, m2)
        if extra is None:
          n = t.get(m, 0) + c1 * c2
          if n:
            t[m] = n
          else:
            t.pop(m, None)
        else:
          p = mk({m: c1 * c2})
          for e in extra:
            p = p * e
          res = res + p
    return mk(t) + res

  def split(self):
    """(constant, rest)"""
    if () in self.terms:
      t = dict(self.terms)
      c = t.pop(())
      return c, mk(t)
    return Fraction(0), self


def _mkey(m):
  return tuple((a.id, e) for a, e in m)


def mk(t):
  items = sorted(t.items(), key=lambda kv: _mkey(kv[0]))
  key = tuple(items)
  p = Poly.table.get(key)
  if p is None:
    p = Poly.__new__(Poly)
    p.terms = dict(items)
    l = frozenset()
    for m, _ in items:
      for a, _e in m:
        l = l | a.lab
    p.lab = l
    p._h = hash(key)
    Poly.table[key] = p
  return p


ZERO = mk({})


def const(x):
  x = frac(x)
  return mk({(): x}) if x else ZERO


ONE = const(1)


def poly(x):
  if isinstance(x, Poly):
    return x
  if isinstance(x, Atom):
    return mk({((x, Fraction(1)),): Fraction(1)})
  return const(x)


def var(name, lo=-INF, hi=INF, lo_open=False, hi_open=False, isint=False, lab=frozenset()):
  return poly(atom('var', name, rng=Iv(frac(lo), frac(hi), lo_open, hi_open),
                   isint=isint, lab=lab))


def absval(p):
  """|p|, with the sign and scale of p normalised."""
  if p.const is not None:
    return const(abs(p.const))
  k, q = _lead(p)
  return poly(atom('abs', q, isint=all_int(q))).scale(abs(k))


def _only_atom(p, op):
  """The atom p consists of, if that is one of kind op."""
  if len(p.terms) == 1:
    (m, c), = p.terms.items()
    if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == op:
      return m[0][0]
  return None


_fresh = [0]


def fresh(name, lab=frozenset(), isint=False, rng=None):
  _fresh[0] += 1
  return poly(atom('var', '%s#%d' % (name, _fresh[0]), lab=lab, isint=isint, rng=rng))


def _fold(p):
  """A name for a large polynomial, so that products stay small."""
  k, q = _lead(p)
  return mk({((atom('grp', q), Fraction(1)),): k}) if not q.const else p


def _lead(p):
  """p = k*q with q having leading coefficient 1."""
  it = [c for m, c in p.terms.items() if m]
  k = it[0] if it else p.const
  return k, p.scale(1 / k)


def _cancel(a, b):
  """a * b where terms of a are divided by (a multiple of) b, or by a divisor of b; else None."""
  if len(b.terms) < 2 or len(b.terms) > 12:
    return None
  kb, qb = _lead(b)
  for g in {at for m in a.terms for at, e in m if at.op == 'grp' and e <= -1}:
    q = g.args[0]
    if q is qb:
      quo = const(kb)
    else:
      quo = exact_div(b, q)
      if quo is None:
        continue
    over, rest = {}, {}
    for m, c in a.terms.items():
      d = dict(m)
      if d.get(g, 0) <= -1:
        d[g] += 1
        if not d[g]:
          del d[g]
        over[tuple(sorted(d.items(), key=lambda ae: ae[0].id))] = c
      else:
        rest[m] = c
    return mk(over) * quo + (mk(rest) * b if rest else ZERO)
  return None


def _atoms(p):
  return {a for m in p.terms for a, _ in m}


def exact_div(p, q):
  """p / q for polynomials if the division leaves no remainder, else None."""
  if not 2 <= len(q.terms) <= 4 or len(p.terms) < len(q.terms) or len(p.terms) > 12:
    return None
  qa = _atoms(q)
  if not qa <= _atoms(p) or any(e.denominator != 1 or e < 0 for m in q.terms for _, e in m):
    return None
  order = sorted(qa, key=lambda a: a.id)
  rank = lambda m: tuple(dict(m).get(a, 0) for a in order)
  lead = max(q.terms, key=rank)
  lc, ld = q.terms[lead], dict(lead)
  quo, rem = ZERO, p
  for _ in range(12):
    if not rem.terms:
      return quo
    top = max(rem.terms, key=rank)
    d = dict(top)
    for a, e in ld.items():
      n = d.get(a, 0) - e
      if n < 0:
        return None
      if n:
        d[a] = n
      else:
        d.pop(a, None)
    t = mk({tuple(sorted(d.items(), key=lambda ae: ae[0].id)): rem.terms[top] / lc})
    quo = quo + t
    new = rem
    for m, c in q.terms.items():
      mm, extra = _mmul(m, next(iter(t.terms)))
      if extra is not None:
        return None
      new = new - mk({mm: c * t.terms[next(iter(t.terms))]})
    if top in new.terms:
      v = new.terms[top]
      if abs(v) > abs(rem.terms[top]) / 10**12:
        return None
      new = new - mk({top: v})
    rem = new
  return None


def powsym(x, y):
  """x ** y with a symbolic exponent, for positive x."""
  x, y = poly(x), poly(y)
  if y.const is not None:
    return power(x, y.const)
  if x.const == 1:
    return ONE
  if len(x.terms) == 1:
    (m, k), = x.terms.items()
    if k > 0 and any(a.op == 'pow' for a, _ in m):
      res, rest = ONE, []
      for a, e in m:
        if a.op == 'pow':
          res = res * powsym(a.args[0], a.args[1].scale(e) * y)
        else:
          rest.append((a, e))
      r = mk({tuple(rest): k})
      return res if r.const == 1 else res * powsym(r, y)
  return poly(atom('pow', x, y))


def _mmul(m1, m2):
  d = dict(m1)
  extra = None
  for a, e in m2:
    n = d.get(a, 0) + e
    if n:
      d[a] = n
    else:
      d.pop(a, None)
  for a in list(d):
    e = d[a]
    if a.op == 'grp' and e > 0 and e.denominator == 1 and e <= 3 and len(a.args[0].terms) <= 12:
      # a group raised to a whole power multiplies out
      if (a, e) in m1 or (a, e) in m2:
        if len(a.args[0].terms) > 4:
          continue  # a folded name
      if len(a.args[0].terms) > 4 and len(a.args[0].terms)**2 > MAXTERMS:
        continue
      del d[a]
      extra = (extra or []) + [a.args[0]] * int(e)
  return tuple(sorted(d.items(), key=lambda ae: ae[0].id)), extra


def power(p, e):
  """p ** e for a rational constant e."""
  p = poly(p)
  e = frac(e)
  if e == 0:
    return ONE
  if e == 1:
    return p
  c = p.const
  if c is not None:
    if e.denominator == 1 and (c != 0 or e > 0):
      return const(c**int(e))
    if c > 0:
      r = float(c)**float(e)
      return const(r)
    if c == 0 and e > 0:
      return ZERO
    return poly(atom('grp^', p, e))
  if e.denominator == 1 and 0 < e <= 4 and (len(p.terms) <= 6):
    r = p
    for _ in range(int(e) - 1):
      r = r * p
    return r
  if len(p.terms) == 1:
    (m, k), = p.terms.items()
    if e.denominator == 1 or (k > 0 and all(_nonneg_atom(a) for a, _ in m)):
      kk = k**int(e) if e.denominator == 1 else Fraction(repr(float(k)**float(e)))
      if all(a.op == 'grp' and _snap(x * e) == 1 for a, x in m) and len(m) == 1:
        return m[0][0].args[0].scale(kk)
      return mk({tuple((a, _snap(x * e)) for a, x in m): kk})
  if e.denominator > 4:
    return mk({((atom('grp', p), e),): Fraction(1)})
  k, q = _lead(p)
  if k < 0 and e.denominator != 1:
    k, q = -k, -q
  kk = k**int(e) if e.denominator == 1 else Fraction(repr(float(k)**float(e)))
  return mk({((atom('grp', q), e),): kk})


def _near_sub(p, q):
  """p - q, where coefficients equal up to rounding cancel."""
  r = {}
  for m in set(p.terms) | set(q.terms):
    x, y = p.terms.get(m, Fraction(0)), q.terms.get(m, Fraction(0))
    if abs(x - y) > Fraction(1, 10**12) * max(abs(x), abs(y)):
      r[m] = x - y
  return mk(r)


def _snap(e):
  """An exponent, a whole number if it is one up to rounding."""
  n = round(e)
  return Fraction(n) if n and e.denominator != 1 and abs(e - n) < Fraction(1, 10**12) else e


def _nonneg_atom(a):
  iv = Facts().atom_iv(a)
  return iv.lo >= 0


def div(p, q):
  p, q = poly(p), poly(q)
  c = q.const
  if c is not None:
    if c == 0:
      return poly(atom('div0', p))
    return p.scale(1 / c)
  if p is q:
    return ONE
  k, qn = _lead(q)
  if p.terms and len(p.terms) == len(q.terms) and len(q.terms) > 1:
    kp, pn = _lead(p)
    if pn is qn:
      return const(kp / k)
  return p * power(q, -1)


# ---------------------------------------------------------------- intervals
class Iv:
  __slots__ = ('lo', 'hi', 'lopen', 'hopen')

  def __init__(self, lo=-INF, hi=INF, lopen=False, hopen=False):
    self.lo, self.hi, self.lopen, self.hopen = lo, hi, lopen, hopen

  def __repr__(self):
    f = lambda x: str(x) if x in (INF, -INF) else show_num(x)
    return ('(' if self.lopen else '[') + f(self.lo) + ', ' + f(self.hi) + (
        ')' if self.hopen else ']')

  def __eq__(self, o):
    return isinstance(o, Iv) and (self.lo, self.hi, self.lopen, self.hopen) == (
        o.lo, o.hi, o.lopen, o.hopen)

  def __hash__(self):
    return hash((self.lo, self.hi, self.lopen, self.hopen))

  def empty(self):
    return self.lo > self.hi or (self.lo == self.hi and (self.lopen or self.hopen))

  def top(self):
    return self.lo == -INF and self.hi == INF

  def meet(self, o):
    if self.lo > o.lo:
      lo, lp = self.lo, self.lopen
    elif self.lo < o.lo:
      lo, lp = o.lo, o.lopen
    else:
      lo, lp = self.lo, self.lopen or o.lopen
    if self.hi < o.hi:
      hi, hp = self.hi, self.hopen
    elif self.hi > o.hi:
      hi, hp = o.hi, o.hopen
    else:
      hi, hp = self.hi, self.hopen or o.hopen
    return Iv(lo, hi, lp, hp)

  def hull(self, o):
    if self.lo < o.lo:
      lo, lp = self.lo, self.lopen
    elif self.lo > o.lo:
      lo, lp = o.lo, o.lopen
    else:
      lo, lp = self.lo, self.lopen and o.lopen
    if self.hi > o.hi:
      hi, hp = self.hi, self.hopen
    elif self.hi < o.hi:
      hi, hp = o.hi, o.hopen
    else:
      hi, hp = self.hi, self.hopen and o.hopen
    return Iv(lo, hi, lp, hp)

  def add(self, o):
    return Iv(_add(self.lo, o.lo), _add(self.hi, o.hi), self.lopen or o.lopen,
              self.hopen or o.hopen)

  def scale(self, k):
    if k == 0:
      return Iv(Fraction(0), Fraction(0))
    if k > 0:
      return Iv(_mul(self.lo, k), _mul(self.hi, k), self.lopen, self.hopen)
    return Iv(_mul(self.hi, k), _mul(self.lo, k), self.hopen, self.lopen)

  def shift(self, c):
    return Iv(_add(self.lo, c), _add(self.hi, c), self.lopen, self.hopen)

  def mul(self, o):
    # the common case: both operands non-negative
    if self.lo >= 0 and o.lo >= 0:
      lo, hi = _mul(self.lo, o.lo), _mul(self.hi, o.hi)
      lp = (self.lopen or o.lopen) if lo else (self.lopen if not self.lo else True) and (
          o.lopen if not o.lo else True) and (self.lopen or o.lopen)
      hp = (self.hopen or o.hopen) if hi else False
      return Iv(lo, hi, lp, hp)
    cands = []
    for x, xo in ((self.lo, self.lopen), (self.hi, self.hopen)):
      for y, yo in ((o.lo, o.lopen), (o.hi, o.hopen)):
        v = _mul(x, y)
        op = (xo or yo)
        if v == 0 and ((x == 0 and not xo) or (y == 0 and not yo)):
          op = False
        cands.append((v, op))
    lo = min(c[0] for c in cands)
    hi = max(c[0] for c in cands)
    lp = all(op for v, op in cands if v == lo)
    hp = all(op for v, op in cands if v == hi)
    return Iv(lo, hi, lp, hp)

  def contains0(self):
    return (self.lo < 0 or (self.lo == 0 and not self.lopen)) and (
        self.hi > 0 or (self.hi == 0 and not self.hopen))

  def inv(self):
    if self.lo == 0 and self.hi == 0:
      return Iv()
    if self.lo > 0 or (self.lo == 0 and self.lopen) or (self.lo >= 0):
      lo = Fraction(0) if self.hi == INF else 1 / self.hi
      hi = INF if self.lo == 0 else 1 / self.lo
      return Iv(lo, hi, self.hopen or self.hi == INF, self.lopen or self.lo == 0)
    if self.hi < 0 or (self.hi <= 0):
      r = self.scale(-1).inv()
      return r.scale(-1)
    return Iv()

  def pow(self, e):
    if e == 1:
      return self
    if e < 0:
      return self.pow(-e).inv()
    if e.denominator == 1:
      n = int(e)
      if n % 2 == 1:
        return Iv(_pow(self.lo, n), _pow(self.hi, n), self.lopen, self.hopen)
      if self.lo >= 0:
        return Iv(_pow(self.lo, n), _pow(self.hi, n), self.lopen, self.hopen)
      if self.hi <= 0:
        return Iv(_pow(self.hi, n), _pow(self.lo, n), self.hopen, self.lopen)
      m = max(-self.lo, self.hi)
      return Iv(Fraction(0), _pow(m, n))
    lo = self.lo if self.lo > 0 else Fraction(0)
    lp = self.lopen if self.lo >= 0 else False
    return Iv(_fpow(lo, e, -1), _fpow(self.hi, e, 1), lp, self.hopen)


def _add(a, b):
  if type(a) is float:
    return a
  if type(b) is float:
    return b
  return a + b


FZERO = Fraction(0)


def _mul(a, b):
  if not a or not b:
    return FZERO
  if type(a) is float or type(b) is float:
    return INF if (a > 0) == (b > 0) else -INF
  return a * b


def _pow(a, n):
  if a in (INF, -INF):
    return INF if (a > 0 or n % 2 == 0) else -INF
  return a**n


def _fpow(a, e, d):
  if a == INF:
    return INF
  if a <= 0:
    return Fraction(0)
  if a == 1:
    return Fraction(1)
  # round outwards
  r = float(a)**float(e)
  r2 = Fraction(r)
  return r2 - abs(r2) / 10**12 if d < 0 else r2 + abs(r2) / 10**12


POINT0 = Iv(Fraction(0), Fraction(0))


def point(c):
  return Iv(c, c)


PI = frac(math.pi)

RANGES = {
    'sin': Iv(Fraction(-1), Fraction(1)),
    'cos': Iv(Fraction(-1), Fraction(1)),
    'acos': Iv(Fraction(0), PI),
    'asin': Iv(-PI / 2, PI / 2),
    'atan': Iv(-PI / 2, PI / 2),
    'atan2': Iv(-PI, PI),
    'norm': Iv(Fraction(0), INF),
    'len': Iv(Fraction(0), INF),
    'uniform01': Iv(Fraction(0), Fraction(1), False, True),
    'sigmoid': Iv(Fraction(0), Fraction(1)),
}

def _out(lo, hi, top):
  """A float interval, rounded outwards and kept within a range."""
  e = Fraction(1, 10**12)
  l, h = Fraction(lo) - e, Fraction(hi) + e
  return Iv(max(l, top.lo), min(h, top.hi))


def _cos_iv(i, shift=0.0):
  top = RANGES['cos']
  if i.lo in (INF, -INF) or i.hi in (INF, -INF) or i.hi - i.lo >= 2 * PI:
    return top
  lo, hi = float(i.lo) + shift, float(i.hi) + shift
  v = [math.cos(lo), math.cos(hi)]
  k0, k1 = math.ceil(lo / math.pi - 1e-9), math.floor(hi / math.pi + 1e-9)
  for k in range(k0, k1 + 1):
    v.append(1.0 if k % 2 == 0 else -1.0)
  return _out(min(v), max(v), top)


def _tan_iv(i):
  if i.lo in (INF, -INF) or i.hi in (INF, -INF):
    return Iv()
  h = PI / 2
  k = math.floor((float(i.lo) + math.pi / 2) / math.pi + 1e-9)
  lo, hi = i.lo - k * PI, i.hi - k * PI   # into [-pi/2, ...)
  if hi > h + Fraction(1, 10**9):
    return Iv()
  e = Fraction(1, 10**9)
  f = lambda x, d: Fraction(math.tan(float(x))) + d * abs(Fraction(math.tan(float(x)))) / 10**12
  l = -INF if lo <= -h + e else f(lo, -1)
  u = INF if hi >= h - e else f(hi, 1)
  return Iv(l, u, l == -INF, u == INF)


def _mono(fn, lo, hi, name, up=True):
  top = RANGES[name]
  def g(i):
    a = lo if i.lo < lo else i.lo
    b = hi if i.hi > hi else i.hi
    if a > b:
      return top
    x, y = fn(float(a)), fn(float(b))
    return _out(min(x, y), max(x, y), top)
  return g


TRIG = {'cos': _cos_iv, 'sin': lambda i: _cos_iv(i, -math.pi / 2), 'tan': _tan_iv,
        'acos': _mono(math.acos, Fraction(-1), Fraction(1), 'acos'),
        'asin': _mono(math.asin, Fraction(-1), Fraction(1), 'asin'),
        'atan': _mono(math.atan, -INF, INF, 'atan')}

ATOM_RULES = {}   # op -> fn(facts, atom) -> Iv ; installed by stubs


class Facts:
  """What a path knows: bounds on normalised terms, truth of opaque predicates."""
  __slots__ = ('b', 'neq', 'truth', '_c')

  def __init__(self, b=None, neq=None, truth=None):
    self.b = b if b is not None else {}
    self.neq = neq if neq is not None else {}
    self.truth = truth if truth is not None else {}
    self._c = {}

  def copy(self):
    return Facts(dict(self.b), dict(self.neq), dict(self.truth))

  # -- evaluation
  def atom_iv(self, a):
    r = self._c.get(a)
    if r is not None:
      return r
    self._c[a] = Iv()  # cycle guard
    r = self._atom_iv(a)
    f = self.b.get(poly(a))
    if f is not None:
      r = r.meet(f)
    self._c[a] = r
    return r

  def _atom_iv(self, a):
    if a.rng is not None:
      return a.rng
    op = a.op
    if op in TRIG and a.args and isinstance(a.args[0], Poly):
      return TRIG[op](self.iv(a.args[0]))
    if op in RANGES:
      return RANGES[op]
    if op == 'grp':
      return self.near_one(a.args[0])
    if op == 'max':
      ivs = [self.iv(p) for p in a.args[0]]
      r = ivs[0]
      for o in ivs[1:]:
        r = _ivmax(r, o)
      return r
    if op == 'min':
      ivs = [self.iv(p).scale(-1) for p in a.args[0]]
      r = ivs[0]
      for o in ivs[1:]:
        r = _ivmax(r, o)
      return r.scale(-1)
    if op == 'ite':
      x, y = self.iv(a.args[1]), self.iv(a.args[2])
      return x.hull(y) if hasattr(x, 'hull') else Iv(min(x.lo, y.lo), max(x.hi, y.hi))
    if op == 'abs':
      i = self.iv(a.args[0])
      if i.lo >= 0:
        return i
      if i.hi <= 0:
        return i.scale(-1)
      return Iv(Fraction(0), max(-i.lo, i.hi))
    if op == 'pow':
      x, y = self.near_one(a.args[0]), self.iv(a.args[1])
      if x.lo < 0 or (x.lo == 0 and not x.lopen):
        return Iv()
      cs = []
      for u in (x.lo, x.hi):
        for v in (y.lo, y.hi):
          try:
            cs.append(Fraction(float(u)**float(v)))
          except (OverflowError, ZeroDivisionError, ValueError, TypeError):
            return Iv(Fraction(0), INF, True)
      lo, hi = min(cs), max(cs)
      e = Fraction(1, 10**12)
      up = lambda z: z + abs(z) * e
      one = Fraction(1)
      lo = max(Fraction(0), lo - abs(lo) * e)
      below = (x.hi <= 1 and y.lo >= 0) or (x.lo >= 1 and y.hi <= 0)
      above = (x.lo >= 1 and y.lo >= 0) or (x.hi <= 1 and y.hi <= 0)
      if below:
        hi = min(hi, one)
      if above:
        lo = max(lo, one)
      strict = (x.hi < 1 or x.hopen or x.lo > 1 or x.lopen) and (
          y.lo > 0 or y.lopen or y.hi < 0 or y.hopen)
      return Iv(lo, hi if hi == one and below else up(hi), lo == 0 or (above and lo == one and strict),
                below and hi == one and strict)
    if op == 'exp':
      i = self.iv(a.args[0])
      lo = Fraction(0) if i.lo == -INF else _fexp(i.lo, -1)
      hi = INF if i.hi == INF else _fexp(i.hi, 1)
      return Iv(lo, hi, i.lo == -INF, False)
    if op in ('floor', 'int', 'round', 'ceil'):
      i = self.iv(a.args[0])
      f = {'floor': math.floor, 'int': int, 'round': round, 'ceil': math.ceil}[op]
      g = lambda x: x if x in (INF, -INF) else Fraction(f(x))
      hi = g(i.hi)
      if op in ('floor', 'int') and i.hopen and hi == i.hi and hi not in (INF, -INF) and hi > 0:
        hi = hi - 1
      return Iv(g(i.lo), hi)
    if op == 'mod':
      m = self.iv(a.args[1])
      if m.lo > 0 or (m.lo == 0 and m.lopen):
        return Iv(Fraction(0), m.hi, False, m.hi != INF and not a.isint)
      return Iv()
    if op in ('boolnum',):
      return Iv(Fraction(0), Fraction(1))
    rule = ATOM_RULES.get(op)
    if rule is not None:
      return rule(self, a)
    return Iv()

  def near_one(self, p):
    """The interval of a ratio, compared with one after clearing its denominator."""
    i = self.iv(p)
    if i.lo < 1 < i.hi and len(p.terms) > 1 and any(
        a.op == 'grp' and e == -1 for m in p.terms for a, e in m):
      j = self.iv(p - ONE)
      if j.lo >= 0:
        return i.meet(Iv(Fraction(1), INF, j.lo > 0 or j.lopen, False))
      if j.hi <= 0:
        return i.meet(Iv(-INF, Fraction(1), False, j.hi < 0 or j.hopen))
    return i

  def mono_iv(self, m):
    r = None
    # quotient rule: x * (x + c)^-1 with x >= 0, c >= 0 lies in [0, 1]
    if len(m) >= 2:
      f = self.b.get(mk({m: Fraction(1)}))
      den = [(a, e) for a, e in m if a.op == 'grp' and e == -1]
      if den:
        a = den[0][0]
        rest = mk({tuple(x for x in m if x[0] is not a): Fraction(1)})
        ri = self.iv(rest)
        if ri.lo >= 0:
          di = self.iv(a.args[0] - rest)
          if di.lo >= 0:
            r = Iv(Fraction(0), Fraction(1), False, di.lo > 0 or di.lopen)
    else:
      f = None
    base = point(Fraction(1))
    for a, e in m:
      base = base.mul(self.atom_iv(a).pow(e))
    if r is not None:
      base = base.meet(r)
    if f is not None:
      base = base.meet(f)
    return base

  def simple(self, p):
    c = p.const
    if c is not None:
      return point(c)
    k, rest = p.split()
    r = point(k)
    for m, c in rest.terms.items():
      r = r.add(self.mono_iv(m).scale(c))
    if rest.terms:
      kk, q = _lead(rest)
      f = self.b.get(q)
      if f is not None:
        r = r.meet(f.scale(kk).shift(k))
    return r

  def iv(self, p, depth=2):
    c = p.const
    if c is not None:
      return point(c)
    key = (p, depth)
    r = self._c.get(key)
    if r is not None:
      return r
    self._c[key] = Iv()
    r = self.simple(p)
    if depth > 0:
      # max/min atoms that occur linearly
      n = 0
      for m, c in p.terms.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('max', 'min') and n < 3:
          n += 1
          a = m[0][0]
          base = p - mk({m: c})
          alts = [self.iv(base + q.scale(c), depth - 1) for q in a.args[0]]
          big = (a.op == 'max') == (c > 0)
          s = alts[0]
          for o in alts[1:]:
            s = _ivmax(s, o) if big else _ivmax(s.scale(-1), o.scale(-1)).scale(-1)
          r = r.meet(s)
      # one linear combination with a known multi-term fact
      k, rest = p.split()
      if len(rest.terms) > 1 or depth > 1:
        for q, f in self.b.items() if len(rest.terms) <= 10 else ():
          if not 2 <= len(q.terms) <= 8:
            continue
          ms = [m for m in q.terms if m in rest.terms]
          if not ms:
            continue
          seen = set()
          for m0 in ms[:3]:
            mult = rest.terms[m0] / q.terms[m0]
            if mult in seen:
              continue
            seen.add(mult)
            rem = rest - q.scale(mult)
            if len(rem.terms) < len(rest.terms) or (
                len(rem.terms) <= len(rest.terms) and depth > 1):
              s = self.iv(rem, depth - 1) if len(rem.terms) < len(rest.terms) else self.simple(rem)
              r = r.meet(f.scale(mult).add(s).shift(k))
      if 3 <= len(p.terms) <= 12:
        cnt = {}
        for m in p.terms:
          for a, e in m:
            if e == 1 and a.op in RANGES:
              cnt[a] = cnt.get(a, 0) + 1
        for a, n in cnt.items():
          if 2 <= n < len(p.terms):
            q = {tuple(x for x in m if x[0] is not a): c for m, c in p.terms.items() if (a, 1) in m}
            rem = {m: c for m, c in p.terms.items() if (a, 1) not in m}
            r = r.meet(self.iv(mk(q), depth - 1).mul(self.atom_iv(a)).add(self.iv(mk(rem), depth - 1)))
      for s in (self._multiaffine(p), self._powers(p, depth), self._cleared(p, depth)):
        if s is not None:
          r = r.meet(s)
      s = self._univariate(p)
      if s is not None:
        r = r.meet(s)
      s = self._roots(p, depth)
      if s is not None:
        r = r.meet(s)
      # factor x*a + x*b with common sign-definite monomial factor
      if len(p.terms) > 1:
        s = self._factor(p, depth)
        if s is not None:
          r = r.meet(s)
    self._c[key] = r
    return r

  def _multiaffine(self, p):
    """Linear in each of 2 or 3 bounded atoms: extreme at the corners of the box."""
    at = []
    for m in p.terms:
      for a, e in m:
        if e != 1:
          return None
        if a not in at:
          at.append(a)
    if not 2 <= len(at) <= 3 or not any(len(m) > 1 for m in p.terms):
      return None
    ivs = [self.atom_iv(a) for a in at]
    if any(i.lo in (INF, -INF) or i.hi in (INF, -INF) for i in ivs):
      return None
    vals = []
    for bits in range(1 << len(at)):
      v = Fraction(0)
      ends = [(ivs[j].hi, ivs[j].hopen) if bits >> j & 1 else (ivs[j].lo, ivs[j].lopen)
              for j in range(len(at))]
      for m, c in p.terms.items():
        for a, _ in m:
          c = c * ends[at.index(a)][0]
        v += c
      vals.append((v, bits))
    lo, hi = min(v for v, _ in vals), max(v for v, _ in vals)
    def opened(x):
      # every corner attaining the bound lies at the same open end of one variable
      cs = [b for v, b in vals if v == x]
      return any(all((b >> j & 1) == side for b in cs) and (ivs[j].hopen if side else ivs[j].lopen)
                 for j in range(len(at)) for side in (0, 1))
    return Iv(lo, hi, opened(lo), opened(hi))

  def _powers(self, p, depth):
    """The sign of c*(x**e - y**e), c*(x**e - 1) with a symbolic exponent, and of their products."""
    if len(p.terms) != 2:
      return None
    (m1, c), (m2, d) = p.terms.items()
    if (c > 0) == (d > 0):
      return None
    if abs(c + d) > abs(c) / 10**9:
      return None
    if c < 0:
      m1, m2, c, d = m2, m1, d, c
    com = [x for x in m1 if x in m2]
    f = self.mono_iv(tuple(com)) if com else point(Fraction(1))
    a1, a2 = [x for x in m1 if x not in com], [x for x in m2 if x not in com]
    if f.lo < 0:
      return None
    def pw(fs):
      if not fs:
        return ONE, None   # 1 to any power
      if len(fs) == 1 and fs[0][0].op == 'pow':
        e = fs[0][1]
        return fs[0][0].args[0], fs[0][0].args[1].scale(e)
      if len(fs) == 1 and fs[0][0].op == 'grp' and fs[0][1].denominator != 1:
        return fs[0][0].args[0], const(fs[0][1])
      if len(fs) == 1 and fs[0][0].op == 'exp' and fs[0][1] == 1:
        return None, fs[0][0].args[0]
      return None
    # A > B when A > B' and B = B' times factors of at most 1 (and the other way round)
    for one_, many, flip in ((a1, a2, 1), (a2, a1, -1)):
      if depth > 0 and 2 <= len(many) <= 6 and len(one_) <= 6:
        small = [self.atom_iv(a).pow(e) for a, e in many]
        for j, x in enumerate(many):
          if all(small[k].hi <= 1 and small[k].lo >= 0 for k in range(len(many)) if k != j):
            left = mk({tuple(one_): c})
            g = self.iv(left - mk({(x,): c}), depth - 1) if (x,) != tuple(one_) else point(FZERO)
            strict = any(small[k].hi < 1 or small[k].hopen for k in range(len(many)) if k != j)
            if g.lo >= 0:
              st = (strict or g.lo > 0 or g.lopen) and (f.lo > 0 or f.lopen)
              return Iv(FZERO, INF, st, False) if flip > 0 else Iv(-INF, FZERO, False, st)
    x, y = pw(a1), pw(a2)
    if x is None or y is None:
      return None
    def ret(sign, strict):
      strict = strict and (f.lo > 0 or f.lopen)
      return Iv(Fraction(0), INF, strict, False) if sign > 0 else Iv(-INF, Fraction(0), False, strict)
    if x[0] is None or y[0] is None:      # exponentials (of a difference)
      ex = x[1] if x[0] is None else ZERO if x[1] is None else None
      ey = y[1] if y[0] is None else ZERO if y[1] is None else None
      if ex is None or ey is None:
        return None
      g = self.iv(ex - ey, depth - 1)
    else:
      e = x[1] if x[1] is not None else y[1]
      if e is None or (x[1] is not None and y[1] is not None and x[1] is not y[1]
                       and not close(x[1], y[1], 1e-12)):
        return None
      ei = self.iv(e, depth - 1)
      g = self.iv(x[0] - y[0], depth)
      if ei.hi <= 0:
        g = g.scale(-1)
      elif ei.lo < 0:
        return None
    if g.lo >= 0:
      return ret(1, g.lo > 0 or g.lopen)
    if g.hi <= 0:
      return ret(-1, g.hi < 0 or g.hopen)
    return None

  def _cleared(self, p, depth):
    """The sign after multiplying out a denominator of known sign."""
    if not 2 <= len(p.terms) <= 12:
      return None
    for g in {a for m in p.terms for a, e in m if a.op == 'grp' and e == -1}:
      if all((g, -1) in m for m in p.terms):
        continue
      gi = self.atom_iv(g)
      if not (gi.lo > 0 or gi.hi < 0):
        continue
      i = self.iv(p * g.args[0], depth - 1)
      if gi.hi < 0:
        i = i.scale(-1)
      if i.lo >= 0:
        return Iv(Fraction(0), INF, i.lo > 0 or i.lopen, False)
      if i.hi <= 0:
        return Iv(-INF, Fraction(0), False, i.hi < 0 or i.hopen)
    return None

  def _univariate(self, p):
    """A polynomial in one bounded atom: evaluated around the middle of pieces of its range."""
    at, deg = None, 0
    for m in p.terms:
      if not m:
        continue
      if len(m) != 1 or m[0][1] < 0 or m[0][1].denominator != 1 or (at is not None and m[0][0] is not at):
        return None
      at = m[0][0]
      deg = max(deg, int(m[0][1]))
    if at is None or not 2 <= deg <= 6:
      return None
    i = self.atom_iv(at)
    if i.lo in (INF, -INF) or i.hi in (INF, -INF):
      return None
    co = [Fraction(0)] * (deg + 1)
    for m, c in p.terms.items():
      co[int(m[0][1]) if m else 0] += c
    n = 16
    w = (i.hi - i.lo) / n / 2
    res = None
    for k in range(n):
      mid = i.lo + w * (2 * k + 1)
      sh = [Fraction(0)] * (deg + 1)     # coefficients in (x - mid)
      for d, c in enumerate(co):
        for j in range(d + 1):
          sh[j] += c * math.comb(d, j) * mid**(d - j)
      e = sum(abs(sh[j]) * w**j for j in range(1, deg + 1))
      v = Iv(sh[0] - e, sh[0] + e)
      res = v if res is None else Iv(min(res.lo, v.lo), max(res.hi, v.hi))
    return res

  def _roots(self, p, depth):
    """sqrt(P) dominates x when P >= x^2: the sign of c*sqrt(P) + d*x."""
    if not 2 <= len(p.terms) <= 5:
      return None
    for m, c in p.terms.items():
      if not any(e.denominator == 2 for _, e in m):
        continue
      rest = mk({n: d for n, d in p.terms.items() if n != m})
      if len(p.terms) > 2 and any(e.denominator == 2 for n in rest.terms for _, e in n):
        continue
      if self.mono_iv(m).lo < 0:
        continue
      g = self.iv(_near_sub(power(mk({m: Fraction(1)}), 2).scale(c * c), rest * rest), depth - 1)
      if g.lo >= 0:
        return Iv(Fraction(0), INF, g.lo > 0 or g.lopen, False) if c > 0 else Iv(
            -INF, Fraction(0), False, g.lo > 0 or g.lopen)
    return None

  def _factor(self, p, depth):
    common = None
    for m in p.terms:
      d = dict(m)
      if common is None:
        common = dict(d)
      else:
        for a in list(common):
          if a not in d:
            del common[a]
          else:
            e = common[a]
            common[a] = min(e, d[a]) if (e > 0) == (d[a] > 0) else None
            if common[a] is None:
              del common[a]
            elif e < 0:
              common[a] = max(e, d[a])
      if not common:
        return None
    fm = tuple(sorted(common.items(), key=lambda ae: ae[0].id))
    inv = mk({tuple((a, -e) for a, e in fm): Fraction(1)})
    q = p * inv
    if len(q.terms) > len(p.terms):
      return None
    return self.mono_iv(fm).mul(self.iv(q, depth - 1))

  # -- decisions
  def decide(self, op, p, q):
    """True / False / None for  p op q."""
    d = p - q
    if op in ('>', '>='):
      return self.decide('<' if op == '>' else '<=', q, p)
    i = self.iv(d)
    if op == '<':
      if i.hi < 0 or (i.hi == 0 and i.hopen):
        return True
      if i.lo >= 0:
        return False
      return None
    if op == '<=':
      if i.hi <= 0:
        return True
      if i.lo > 0 or (i.lo == 0 and i.lopen):
        return False
      return None
    if op == '==':
      c = d.const
      if c is not None:
        return c == 0
      if i.lo == i.hi == 0:
        return True
      if not i.contains0():
        return False
      k, rest = d.split()
      kk, n = _lead(rest)
      ex = self.neq.get(n)
      if ex and (-k / kk) in ex:
        return False
      if all_int(d, True) and k.denominator != 1:
        return False
      return None
    if op == '!=':
      r = self.decide('==', p, q)
      return None if r is None else not r
    raise ValueError(op)

  def assume(self, op, p, q):
    """Adds p op q; returns False if that is contradictory."""
    if op in ('>', '>='):
      return self.assume('<' if op == '>' else '<=', q, p)
    r = self.decide(op, p, q)
    if r is False:
      return False
    if r is True and op != '==':
      return True
    d = p - q
    k, rest = d.split()
    if not rest.terms:
      return True
    kk, n = _lead(rest)
    t = -k / kk       # n ~ t
    self._c = {}
    if op == '!=':
      s = set(self.neq.get(n, ()))
      s.add(t)
      self.neq[n] = frozenset(s)
      # a closed end that is excluded becomes open
      i = self.iv(n)
      if i.lo == t:
        return self._bound(n, Iv(t, INF, True, False))
      if i.hi == t:
        return self._bound(n, Iv(-INF, t, False, True))
      return True
    if op == '==':
      ok = self._bound(n, point(t))
    elif kk > 0:
      ab = _only_atom(n, 'abs')
      if ab is not None and t > 0:
        for s in (1, -1):
          if not self.assume(op, ab.args[0].scale(s), const(t)):
            return False
        self._c = {}
      ok = self._bound(n, Iv(-INF, t, False, op == '<'))
    else:
      ok = self._bound(n, Iv(t, INF, op == '<', False))
    if not ok:
      return False
    # consequences for the arguments of max/min
    for m, c in d.terms.items():
      if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('max', 'min') and op in ('<', '<='):
        a = m[0][0]
        if (a.op == 'max') == (c > 0):
          base = d - mk({m: c})
          for arg in a.args[0]:
            if not self.assume(op, base + arg.scale(c), ZERO):
              return False
        break
    return True

  def _bound(self, n, iv):
    cur = self.iv(n)
    if all_int(n):
      lo, hi = iv.lo, iv.hi
      if lo not in (INF, -INF):
        lo2 = Fraction(math.ceil(lo))
        if iv.lopen and lo2 == lo:
          lo2 += 1
        iv = Iv(lo2, iv.hi, False, iv.hopen)
      if hi not in (INF, -INF):
        hi2 = Fraction(math.floor(hi))
        if iv.hopen and hi2 == hi:
          hi2 -= 1
        iv = Iv(iv.lo, hi2, iv.lopen, False)
    new = cur.meet(iv)
    if new.empty():
      return False
    old = self.b.get(n)
    self.b[n] = iv.meet(old) if old is not None else iv
    self._c = {}
    return True

  def drop(self, atoms):
    """Forget everything about some atoms."""
    self._c = {}
    for d in (self.b, self.neq):
      for k in list(d):
        if any(mentions(k, a) for a in atoms):
          del d[k]

  def merge(self, o):
    """The facts that hold in both."""
    r = Facts()
    for k in set(self.b) | set(o.b):
      if self.b.get(k) == o.b.get(k):
        r.b[k] = self.b[k]
        continue
      if len(k.terms) > 4:
        if k not in self.b or k not in o.b:
          continue
        h = self.b[k].hull(o.b[k])
      else:
        h = self.iv(k).hull(o.iv(k))
      if not h.top():
        r.b[k] = h
    for k in set(self.neq) & set(o.neq):
      s = self.neq[k] & o.neq[k]
      if s:
        r.neq[k] = s
    for k, v in self.truth.items():
      if o.truth.get(k) == v:
        r.truth[k] = v
    return r


def _fexp(x, d):
  try:
    r = Fraction(math.exp(float(x)))
  except OverflowError:
    return INF
  if x == 0:
    return Fraction(1)
  return r - r / 10**12 if d < 0 else r + r / 10**12


def _ivmax(a, b):
  if a.lo > b.lo:
    lo, lp = a.lo, a.lopen
  elif b.lo > a.lo:
    lo, lp = b.lo, b.lopen
  else:
    lo, lp = a.lo, a.lopen or b.lopen
  if a.hi > b.hi:
    hi, hp = a.hi, a.hopen
  elif b.hi > a.hi:
    hi, hp = b.hi, b.hopen
  else:
    hi, hp = a.hi, a.hopen and b.hopen
  return Iv(lo, hi, lp, hp)


def all_int(p, offset=False):
  """Whether a term is an integer (offset: up to its constant)."""
  for m, c in p.terms.items():
    if c.denominator != 1 and (m or not offset):
      return False
    for a, e in m:
      if not a.isint or e.denominator != 1 or e < 0:
        return False
  return True


_ment = {}


def mentions(x, a):
  if x is a:
    return True
  if isinstance(x, Atom):
    k = (x, a)
    r = _ment.get(k)
    if r is None:
      r = any(mentions(y, a) for y in x.args)
      _ment[k] = r
    return r
  if isinstance(x, Poly):
    return any(mentions(y, a) for m in x.terms for y, _ in m)
  if isinstance(x, tuple):
    return any(mentions(y, a) for y in x)
  return False


def subst(p, mapping):
  """Replaces atoms (by Poly) inside a polynomial (top level and inside args)."""
  if not any(mentions(p, a) for a in mapping):
    return p
  r = ZERO
  for m, c in p.terms.items():
    t = const(c)
    for a, e in m:
      t = t * power(_subst_atom(a, mapping), e)
    r = r + t
  return r


def _subst_atom(a, mapping):
  if a in mapping:
    return mapping[a]
  if not any(mentions(a, x) for x in mapping):
    return poly(a)
  def s(x):
    if isinstance(x, Poly):
      return subst(x, mapping)
    if isinstance(x, Atom):
      r = _subst_atom(x, mapping)
      return x if r is poly(x) else r
    if isinstance(x, tuple):
      return tuple(s(y) for y in x)
    return x
  args = tuple(s(x) for x in a.args)
  if a.op == 'grp':
    return args[0]
  if a.op == 'max':
    return tmax(args[0])
  if a.op == 'min':
    return tmin(args[0])
  if a.op == 'pow':
    return powsym(args[0], args[1])
  if a.op == 'exp' and args[0].const == 0:
    return ONE
  keep = a.rng is not None and not (a.op == 'fn' and str(a.args[0]).startswith('np.'))
  return poly(atom(a.op, *args, isint=a.isint, rng=a.rng if keep else None))


def tmax(ps, facts=None):
  return _ext('max', ps, facts)


def tmin(ps, facts=None):
  return _ext('min', ps, facts)


def _ext(op, ps, facts):
  facts = facts or Facts()
  items = []
  for p in ps:
    p = poly(p)
    if len(p.terms) == 1:
      (m, c), = p.terms.items()
      if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == op:
        items += list(m[0][0].args[0])
        continue
    items.append(p)
  uniq = []
  for p in items:
    if p not in uniq:
      uniq.append(p)
  keep = []
  for i, p in enumerate(uniq):
    dominated = False
    for j, q in enumerate(uniq):
      if i == j or (j > i and q in keep):
        continue
      le = facts.decide('<=' if op == 'max' else '>=', p, q)
      if le is True:
        # keep the first of two equal ones
        back = facts.decide('>=' if op == 'max' else '<=', p, q)
        if back is True and i < j:
          continue
        dominated = True
        break
    if not dominated:
      keep.append(p)
  if len(keep) == 1:
    return keep[0]
  keep.sort(key=lambda p: tuple(_mkey(m) for m in p.terms))
  return poly(atom(op, tuple(keep), isint=all(all_int(p) for p in keep)))


def close(p, q, rel=1e-9):
  """Equality of terms up to rounding of the coefficients."""
  if p is q:
    return True
  ks = set(p.terms) | set(q.terms)
  for k in ks:
    a, b = p.terms.get(k, Fraction(0)), q.terms.get(k, Fraction(0))
    if a != b and abs(a - b) > rel * max(abs(a), abs(b)):
      return False
  return True


_ELEM = {}


def elem_atoms(x):
  """The generic-element atoms inside a term: 'elem' atoms and element summaries."""
  if isinstance(x, Poly):
    r = frozenset()
    for m in x.terms:
      for a, _ in m:
        r = r | elem_atoms(a)
    return r
  if isinstance(x, Atom):
    r = _ELEM.get(x)
    if r is None:
      if x.op == 'elem' or x.op == 'var' and str(x.args[0]).startswith('elem#'):
        r = frozenset([x])
      elif x.op == 'at':
        r = elem_atoms(x.args[1:])
      else:
        r = elem_atoms(x.args)
      _ELEM[x] = r
    return r
  if isinstance(x, (tuple, frozenset)):
    r = frozenset()
    for y in x:
      r = r | elem_atoms(y)
    return r
  return frozenset()
