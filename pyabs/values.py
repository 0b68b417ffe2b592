"""Abstract values, heap cells and states."""
from fractions import Fraction

from . import terms as T
from .terms import Poly, Atom

E0 = frozenset()


class V:
  __slots__ = ('lab',)
  F = ()

  def key(self):
    return (type(self).__name__,) + tuple(getattr(self, f) for f in self.F)

  def __eq__(self, o):
    return type(self) is type(o) and self.key() == o.key() and self.lab == o.lab

  def __hash__(self):
    return hash(self.key())

  def with_lab(self, lab):
    if not (lab - self.lab):
      return self
    n = type(self).__new__(type(self))
    for c in type(self).__mro__:
      for s in getattr(c, '__slots__', ()):
        setattr(n, s, getattr(self, s))
    n.lab = self.lab | lab
    return n


def _cls(name, fields, defaults=()):
  ns = {'__slots__': tuple(fields), 'F': tuple(fields)}
  nd = len(defaults)

  def __init__(self, *a, lab=E0):
    for i, f in enumerate(fields):
      if i < len(a):
        setattr(self, f, a[i])
      else:
        setattr(self, f, defaults[i - (len(fields) - nd)])
    self.lab = lab

  def __repr__(self):
    s = name + '(' + ', '.join('%s' % (getattr(self, f),) for f in fields) + ')'
    return s + ('{' + ','.join(sorted(map(str, self.lab))) + '}' if self.lab else '')
  ns['__init__'] = __init__
  ns['__repr__'] = __repr__
  return type(name, (V,), ns)


C = _cls('C', ('val',))                 # a Python constant


def _ckey(self):
  return ('C', type(self.val).__name__, repr(self.val))


C.key = _ckey
N = _cls('N', ('p', 'kind'), ('float',))  # a symbolic number: int | float
Tup = _cls('Tup', ('items',))
En = _cls('En', ('cls', 'name'))        # an enumeration member
R = _cls('R', ('addr',))                # a heap reference
Fn = _cls('Fn', ('fi', 'env', 'dflt'), ((),))
BM = _cls('BM', ('fn', 'self_'))
Cl = _cls('Cl', ('ci',))
Mo = _cls('Mo', ('name',))
X = _cls('X', ('name',))                # an external attribute
XM = _cls('XM', ('obj', 'name'))        # method of an opaque/builtin value
Pa = _cls('Pa', ('fn', 'args', 'kw'))
TD = _cls('TD', ('p',))                 # timedelta, in seconds
DT = _cls('DT', ('p', 'tz'), (True,))   # datetime, seconds since an epoch
O = _cls('O', ('a', 'typ'), ('?',))     # an opaque value
St = _cls('St', ('parts',))             # a symbolic string
Un = _cls('Un', ('alts',))              # one of several values
Sup = _cls('Sup', ('ci', 'self_'))
Sl = _cls('Sl', ('lo', 'hi', 'step'))
Prop = _cls('Prop', ('fget', 'fset'))
SM = _cls('SM', ('fn', 'kind'))         # staticmethod / classmethod wrapper
Gen = _cls('Gen', ('elem', 'n', 'tag', 'site'))  # symbolic iterable: generic element, length
DF = _cls('DF', ('default', 'factory', 'init', 'compare'))  # dataclasses.field

NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def num(v):
  """The term of a numeric value, or None."""
  if isinstance(v, N):
    return v.p
  if isinstance(v, C) and isinstance(v.val, (int, float)) and v.val == v.val:
    if v.val in (T.INF, -T.INF):
      return None
    return T.const(v.val)
  if isinstance(v, En) and v.cls.enum_int:
    ev = v.cls.enum_values[v.name]
    return num(ev)
  if isinstance(v, O):
    return T.poly(v.a)
  return None


def mknum(p, kind='float', lab=E0):
  c = p.const
  if c is not None:
    if kind == 'int' and c.denominator == 1:
      return C(int(c), lab=lab)
    if kind == 'float':
      f = float(c)
      if Fraction(repr(f)) == c:
        return C(f, lab=lab)
    return N(p, kind, lab=lab)
  return N(p, kind, lab=lab)


def kind_of(v):
  if isinstance(v, N):
    return v.kind
  if isinstance(v, C):
    return 'int' if isinstance(v.val, int) else 'float'
  if isinstance(v, En):
    return 'int'
  return 'float'


class Cell:
  """A heap cell; never mutated once it is in a state (copy, then replace)."""
  __slots__ = ('kind', 'cls', 'd', 'meta')

  def __init__(self, kind, cls=None, d=None, meta=None):
    self.kind, self.cls = kind, cls
    self.d = d if d is not None else {}
    self.meta = meta

  def copy(self):
    d = self.d
    return Cell(self.kind, self.cls, dict(d) if isinstance(d, dict) else list(d),
                dict(self.meta) if isinstance(self.meta, dict) else self.meta)

  def __repr__(self):
    return '<%s %s %s %s>' % (self.kind, getattr(self.cls, 'name', self.cls), self.d, self.meta)


class State:
  __slots__ = ('base', 'over', 'facts', 'ctrl', 'stack', 'trace', 'n', 'mon', 'fshared',
               'dead', 'roots')

  def __init__(self, base=None):
    self.base = base if base is not None else {}
    self.over = {}
    self.facts = T.Facts()
    self.ctrl = E0
    self.stack = ()
    self.trace = ()
    self.n = 1
    self.mon = None
    self.fshared = False
    self.roots = ()

  def fork(self):
    s = State.__new__(State)
    s.base = self.base
    s.over = dict(self.over)
    s.facts = self.facts
    self.fshared = s.fshared = True
    s.ctrl, s.stack, s.trace, s.n, s.mon = self.ctrl, self.stack, self.trace, self.n, self.mon
    s.roots = self.roots
    return s

  def own_facts(self):
    if self.fshared:
      self.facts = self.facts.copy()
      self.fshared = False
    return self.facts

  def cell(self, addr):
    c = self.over.get(addr)
    return c if c is not None else self.base[addr]

  def has(self, addr):
    return addr in self.over or addr in self.base

  def mut(self, addr):
    """A private copy of a cell, already installed."""
    c = self.cell(addr).copy()
    self.over[addr] = c
    return c

  def alloc(self, cell):
    a = self.n
    self.n += 1
    self.over[a] = cell
    return a

  def assume(self, op, p, q):
    return self.own_facts().assume(op, p, q)
