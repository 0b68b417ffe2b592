"""Models of Python's builtins and of the libraries the package uses."""
from fractions import Fraction
import math
import operator

from . import terms as T
from .values import *  # pylint: disable=wildcard-import
from .values import E0, Cell

S = {'$prefix': []}     # dotted name -> handler


def stub(*names):
  def d(f):
    for n in names:
      S[n] = f
    return f
  return d


def prefix(*names):
  def d(f):
    for n in names:
      S['$prefix'].append((n, f))
    return f
  return d


def argget(args, kw, i, name, default=None):
  if name in kw:
    return kw[name]
  return args[i] if i < len(args) else default


def labs(*vs):
  l = E0
  for v in vs:
    if v is not None:
      l = l | v.lab
  return l


def isarr(st, v):
  return isinstance(v, R) and st.has(v.addr) and st.cell(v.addr).kind == 'arr'


def islist(st, v):
  return isinstance(v, R) and st.has(v.addr) and st.cell(v.addr).kind == 'list'


def kindof(st, v):
  return st.cell(v.addr).kind if isinstance(v, R) and st.has(v.addr) else None


STRT = ('str', 'path', 'key', 'module', 'logger', 'fn', 'obj', 'file', 'regex', 'bytes', 'dtype')


def numeric(v):
  """Can v be treated as a number?"""
  if isinstance(v, C):
    return isinstance(v.val, (int, float))
  if isinstance(v, N):
    return True
  if isinstance(v, En):
    return bool(v.cls.enum_int)
  if isinstance(v, O):
    return v.typ in ('?', 'elem', 'num', 'arg')
  return False


def opaque(I, st, op, vals, typ='?', lab=E0, rng=None, isint=False):
  """A pure but otherwise unknown function of its arguments."""
  for v in vals:
    lab = lab | I.deep_lab(v, st)
  return O(T.atom('fn', op, tuple(I.vkey(v, st) for v in vals), rng=rng, isint=isint), typ,
           lab=lab)


def opaque_num(I, st, op, vals, rng=None, isint=False, lab=E0):
  o = opaque(I, st, op, vals, 'num', lab, rng, isint)
  return N(T.poly(o.a), 'int' if isint else 'float', lab=o.lab)


def arith(op, a, b, ints):
  """Terms of a op b, or None."""
  if op == '+':
    return a + b
  if op == '-':
    return a - b
  if op == '*':
    return a * b
  if op == '/':
    return T.div(a, b)
  ca, cb = a.const, b.const
  if op == '//':
    if ca is not None and cb is not None and cb:
      return T.const(Fraction(math.floor(ca / cb)))
    q = T.div(a, b)
    if T.all_int(q) and cb is not None and all(c.denominator == 1 for c in q.terms.values()):
      return q
    return T.poly(T.atom('floor', q, isint=True))
  if op == '%':
    if ca is not None and cb is not None and cb:
      return T.const(ca - cb * math.floor(ca / cb))
    if cb is not None and cb > 0 and ints and T.all_int(a):
      if all(c.denominator == 1 and c % cb == 0 for c in a.terms.values()):
        return T.ZERO
    return T.poly(T.atom('mod', a, b, isint=ints))
  if op == '**':
    if cb is not None:
      return T.power(a, cb)
    return T.powsym(a, b)
  return None


def fresh_arr(st, elem, shape, d=None, dtype='float64', lab=E0):
  return R(st.alloc(Cell('arr', None, d or {}, {'elem': elem, 'shape': shape, 'dtype': dtype})),
           lab=lab)


def arr_cell(st, v):
  return st.cell(v.addr)


def lift(I, st, f, vals, node):
  """Applies a scalar function elementwise over arrays (f: values -> V or None)."""
  arrs = [v for v in vals if isarr(st, v)]
  lab = labs(*vals)
  shapes = [st.cell(v.addr).meta.get('shape') for v in arrs]
  shape = max((s for s in shapes if s is not None), key=len, default=None)
  def at(v, k):
    if isarr(st, v):
      c = st.cell(v.addr)
      if c.meta.get('shape') is not None and shape is not None and len(
          c.meta['shape']) == len(shape):
        if len(shape) == 2 and c.meta['shape'][1] == 1 and isinstance(k, tuple) and k not in c.d:
          return c.d.get((k[0], 0), c.d.get(('*', 0), c.meta['elem']))
        return c.d.get(k, c.meta['elem'])
      if not c.d:
        return c.meta['elem']
      # a row stretched over the rows of a matrix
      if c.meta.get('shape') is not None and shape is not None and len(shape) == 2 and isinstance(
          k, tuple) and len(c.meta['shape']) == 1 and c.meta['shape'][0] == shape[1]:
        return c.d.get(k[1], c.meta['elem'])
      return None
    return v
  elem = f(*[st.cell(v.addr).meta['elem'] if isarr(st, v) else v for v in vals])
  d = {}
  keys = set()
  for v in arrs:
    keys |= set(st.cell(v.addr).d)
  for k in keys:
    xs = [at(v, k) for v in vals]
    if any(x is None for x in xs):
      continue
    r = f(*xs)
    if r is not None:
      d[k] = r
  if elem is None:
    elem = opaque(I, st, 'elementwise', list(vals))
  return fresh_arr(st, elem, shape, d, lab=lab)


# ------------------------------------------------------------------ operators
def scalar_bin(I, st, op, a, b, lab):
  """Arithmetic of two numeric scalars; None when not possible."""
  pa, pb = num(a), num(b)
  inf = False
  for v in (a, b):
    if isinstance(v, C) and isinstance(v.val, float) and (math.isinf(v.val) or v.val != v.val):
      inf = True
  if inf:
    if isinstance(a, C) and isinstance(b, C):
      try:
        return C({'+': operator.add, '-': operator.sub, '*': operator.mul,
                  '/': operator.truediv}[op](a.val, b.val), lab=lab)
      except (KeyError, ZeroDivisionError):
        return None
    return O(T.atom('inf' + op, I.vkey(a, st), I.vkey(b, st)), 'num', lab=lab)
  if pa is None or pb is None:
    return None
  ints = kind_of(a) == 'int' and kind_of(b) == 'int' and not isinstance(a, O) and not isinstance(
      b, O)
  if op in ('&', '|', '^', '<<', '>>'):
    if isinstance(a, C) and isinstance(b, C) and ints:
      f = {'&': operator.and_, '|': operator.or_, '^': operator.xor, '<<': operator.lshift,
           '>>': operator.rshift}[op]
      return C(f(a.val, b.val), lab=lab)
    return O(T.atom('op' + op, pa, pb), 'num', lab=lab)
  p = arith(op, pa, pb, ints)
  if p is None:
    return O(T.atom('op' + op, pa, pb), 'num', lab=lab)
  k = 'int' if ints and op not in ('/',) and not (op == '**' and pb.const is not None and
                                                  pb.const < 0) else 'float'
  return mknum(p, k, lab=lab)


@stub('$binop')
def binop(I, op, a, b, st, node, lab):
  # datetimes
  if isinstance(a, (TD, DT)) or isinstance(b, (TD, DT)):
    r = time_bin(I, op, a, b, st, node, lab)
    if r is not None:
      return r
  sa, sb = isinstance(a, C) and isinstance(a.val, str), isinstance(b, C) and isinstance(b.val, str)
  strlike = lambda v: isinstance(v, St) or isinstance(v, C) and isinstance(v.val, str) or (
      isinstance(v, O) and v.typ in ('str', 'path'))
  if strlike(a):
    if op == '+' and (strlike(b) or isinstance(b, O)):
      from .interp import mkstr
      pa = list(a.parts) if isinstance(a, St) else [a.val] if isinstance(a, C) else [(a, '', -1)]
      pb = list(b.parts) if isinstance(b, St) else [b.val] if isinstance(b, C) else [(b, '', -1)]
      fix = lambda l: [x if isinstance(x, str) else (x[0], x[1], -1) for x in l]
      return [(st, mkstr(fix(pa) + fix(pb)).with_lab(lab))]
    if op == '/' and isinstance(a, O) and a.typ == 'path':
      return [(st, opaque(I, st, 'joinpath', [a, b], 'path'))]
    if op == '%':
      return [(st, opaque(I, st, 'str%', [a, b], 'str'))]
    if op == '*' and isinstance(a, C) and isinstance(b, C) and isinstance(b.val, int):
      return [(st, C(a.val * b.val, lab=lab))]
    return I.throw(st, 'TypeError', node)
  if isinstance(a, O) and a.typ == 'path' and op == '/':
    return [(st, opaque(I, st, 'joinpath', [a, b], 'path'))]
  # sequences
  if isinstance(a, Tup) and isinstance(b, Tup) and op == '+':
    return [(st, Tup(a.items + b.items, lab=lab))]
  if isinstance(a, Tup) and isinstance(b, C) and isinstance(b.val, int) and op == '*':
    return [(st, Tup(a.items * b.val, lab=lab))]
  if islist(st, a) and op in ('+', '*'):
    ca = st.cell(a.addr)
    if op == '+' and islist(st, b):
      cb = st.cell(b.addr)
      if ca.meta is None and cb.meta is None:
        return [(st, R(st.alloc(Cell('list', None, list(ca.d) + list(cb.d))), lab=lab))]
      vals = list(ca.d) + list(cb.d)
      for c in (ca, cb):
        if isinstance(c.meta, dict) and 'elem' in c.meta:
          vals.append(c.meta['elem'])
      e = vals[0]
      for v in vals[1:]:
        e = I.blend(e, v, ())
      return [(st, R(st.alloc(Cell('list', None, [], {
          'elem': e, 'len': I.list_len(ca) + I.list_len(cb)})), lab=lab))]
    if op == '*' and numeric(b) and ca.meta is None:
      if isinstance(b, C):
        if isinstance(b.val, int) and len(ca.d) * b.val <= 400:
          return [(st, R(st.alloc(Cell('list', None, list(ca.d) * b.val)), lab=lab))]
      if ca.d:
        e = ca.d[0]
        for v in ca.d[1:]:
          e = I.blend(e, v, ())
        return [(st, R(st.alloc(Cell('list', None, [], {
            'elem': e, 'len': num(b).scale(len(ca.d))})), lab=lab))]
    return None
  if kindof(st, a) == 'set' and kindof(st, b) == 'set' and op in ('|', '&', '-', '^'):
    da, db = st.cell(a.addr).d, st.cell(b.addr).d
    if op == '|':
      d = {**da, **db}
    elif op == '&':
      d = {k: v for k, v in da.items() if k in db}
    elif op == '-':
      d = {k: v for k, v in da.items() if k not in db}
    else:
      d = {k: TRUE for k in list(da) + list(db) if (k in da) != (k in db)}
    return [(st, R(st.alloc(Cell('set', None, d)), lab=lab))]
  if kindof(st, a) == 'dict' and kindof(st, b) == 'dict' and op == '|':
    return [(st, R(st.alloc(Cell('dict', None, {**st.cell(a.addr).d, **st.cell(b.addr).d})),
                   lab=lab))]
  # arrays
  if isarr(st, a) or isarr(st, b):
    ok = lambda v: isarr(st, v) or numeric(v) or isinstance(v, O)
    if ok(a) and ok(b):
      if op == '@':
        return [(st, opaque(I, st, 'matmul', [a, b], 'ndarray'))]
      def f(x, y):
        if isinstance(x, Un) or isinstance(y, Un):
          return opaque(I, st, 'op' + op, [x, y], 'num')
        return scalar_bin(I, st, op, x, y, x.lab | y.lab) if numeric(x) and numeric(y) else \
            opaque(I, st, 'op' + op, [x, y], 'ndarray')
      return [(st, lift(I, st, f, [a, b], node))]
  nd = lambda v: isinstance(v, O) and v.typ in ('ndarray', 'key')
  if nd(a) or nd(b):
    o = b if nd(a) else a
    if numeric(o) or nd(o) or isinstance(o, (Tup, Gen)) or islist(st, o):
      return [(st, O(T.atom('fn', 'op' + op, (I.vkey(a, st), I.vkey(b, st))), 'ndarray',
                     lab=lab | I.deep_lab(a, st) | I.deep_lab(b, st)))]
  if numeric(a) and numeric(b):
    if op == '/' or op == '//' or op == '%':
      pb = num(b)
      if pb is not None and pb.const == 0 and not isinstance(a, O):
        return I.throw(st, 'ZeroDivisionError', node)
      I.emit(st, 'division', num=a, den=b, node=node)
    r = scalar_bin(I, st, op, a, b, lab)
    if r is not None:
      return [(st, r)]
  # interp results and other numeric-like things with None
  for v in (a, b):
    if isinstance(v, C) and v.val is None:
      return I.throw(st, 'TypeError', node, (C('None operand'),))
  if isinstance(a, O) and isinstance(b, (C, St)) and isinstance(getattr(b, 'val', ''), str):
    if op in ('+', '/', '%'):
      return [(st, opaque(I, st, 'op' + op, [a, b], a.typ))]
  return None


def time_bin(I, op, a, b, st, node, lab):
  if isinstance(a, DT) and isinstance(b, TD) and op in '+-':
    return [(st, DT(a.p + b.p if op == '+' else a.p - b.p, a.tz, lab=lab))]
  if isinstance(a, TD) and isinstance(b, DT) and op == '+':
    return [(st, DT(a.p + b.p, b.tz, lab=lab))]
  if isinstance(a, DT) and isinstance(b, DT) and op == '-':
    if bool(a.tz) != bool(b.tz):
      return I.throw(st, 'TypeError', node)
    return [(st, TD(a.p - b.p, lab=lab))]
  if isinstance(a, TD) and isinstance(b, TD):
    if op == '+':
      return [(st, TD(a.p + b.p, lab=lab))]
    if op == '-':
      return [(st, TD(a.p - b.p, lab=lab))]
    if op == '/':
      return [(st, mknum(T.div(a.p, b.p), 'float', lab=lab))]
    if op == '//':
      return [(st, mknum(arith('//', a.p, b.p, False), 'int', lab=lab))]
    if op == '%':
      return [(st, TD(arith('%', a.p, b.p, False), lab=lab))]
    return I.throw(st, 'TypeError', node)
  if isinstance(a, TD) and numeric(b) and num(b) is not None:
    if op == '*':
      return [(st, TD(a.p * num(b), lab=lab))]
    if op == '/':
      return [(st, TD(T.div(a.p, num(b)), lab=lab))]
    if op == '//':
      return [(st, TD(T.poly(T.atom('floor', T.div(a.p, num(b)))), lab=lab))]
  if isinstance(b, TD) and numeric(a) and op == '*' and num(a) is not None:
    return [(st, TD(b.p * num(a), lab=lab))]
  if isinstance(a, (TD, DT)) and isinstance(b, (C, N, TD, DT, St, Tup)) or isinstance(
      b, (TD, DT)) and isinstance(a, (C, N, St, Tup)):
    return I.throw(st, 'TypeError', node)
  o = b if isinstance(a, (TD, DT)) else a
  if isinstance(o, O):
    t = {'+': DT if isinstance(a, DT) or isinstance(b, DT) else TD, '-': TD, '*': TD}.get(op, N)
    p = T.poly(T.atom('op' + op, I.vkey(a, st), I.vkey(b, st)))
    return [(st, t(p, lab=lab))]
  return None


@stub('$compare')
def compare(I, op, a, b, st, node, lab):
  if isinstance(a, TD) and isinstance(b, TD) or isinstance(a, DT) and isinstance(b, DT):
    if isinstance(a, DT) and bool(a.tz) != bool(b.tz):
      if op in ('==', '!='):
        return [(st, C(op == '!=', lab=lab))]
      return I.throw(st, 'TypeError', node)
    return I.cmpnum(op, a.p, b.p, st, lab)
  if isinstance(a, C) and isinstance(b, C):
    try:
      f = {'==': operator.eq, '!=': operator.ne, '<': operator.lt, '<=': operator.le,
           '>': operator.gt, '>=': operator.ge}[op]
      return [(st, C(f(a.val, b.val), lab=lab))]
    except TypeError:
      return I.throw(st, 'TypeError', node)
  if isarr(st, a) or isarr(st, b) or any(isinstance(v, O) and v.typ == 'ndarray' for v in (a, b)):
    if isinstance(a, C) and a.val is None or isinstance(b, C) and b.val is None:
      return None
    def f(x, y):
      px, py = (num(v) if numeric(v) else None for v in (x, y))
      if px is not None and py is not None:
        known = st.facts.decide(op, px, py)
        if known is not None:
          return C(known, lab=x.lab | y.lab | px.lab | py.lab)
        return O(T.atom('cmp' + op, px, py), 'bool', lab=x.lab | y.lab)
      return O(T.atom('cmp' + op, I.vkey(x, st), I.vkey(y, st)), 'bool', lab=x.lab | y.lab)
    if isarr(st, a) or isarr(st, b):
      return [(st, lift(I, st, f, [a, b], node))]
    return [(st, opaque(I, st, 'cmp' + op, [a, b], 'ndarray'))]
  if numeric(a) and numeric(b) and (isinstance(a, (N, O)) or isinstance(b, (N, O))
                                    or isinstance(a, En) or isinstance(b, En)):
    if isinstance(a, O) and isinstance(b, O) and op in ('==', '!='):
      return None
    for x, y, o in ((a, b, op), (b, a, {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op))):
      if isinstance(y, C) and isinstance(y.val, float) and (math.isinf(y.val) or y.val != y.val):
        if y.val != y.val:
          return [(st, C(op == '!=', lab=lab))]
        if o in ('==', '!='):
          return [(st, C(o == '!=', lab=lab))]
        pos = y.val > 0
        return [(st, C((o in ('<', '<=')) == pos, lab=lab))]
    pa, pb = num(a), num(b)
    if pa is not None and pb is not None:
      return I.cmpnum(op, pa, pb, st, lab)
  return None


@stub('$arr.unary')
def arr_unary(I, st, op, v, node):
  if isarr(st, v):
    def f(x):
      p = num(x) if numeric(x) else None
      if p is None or op != '-':
        return opaque(I, st, 'u' + op, [x], 'bool' if op == '~' else 'num')
      return mknum(-p, kind_of(x), lab=x.lab)
    return [(st, lift(I, st, f, [v], node))]
  if isinstance(v, O) and v.typ != 'ndarray' and op == '-':
    return [(st, N(-T.poly(v.a), 'float', lab=v.lab))]
  return [(st, O(T.atom('fn', 'u' + op, (I.vkey(v, st),)), v.typ if isinstance(v, O) else '?',
                 lab=v.lab))]


@stub('$arr.truth')
def arr_truth(I, st, v, node):
  c = st.cell(v.addr)
  if c.meta.get('shape') == () or c.meta.get('shape') == (1,):
    return I.truth(c.d.get(0, c.meta['elem']), st, node)
  return I.fork_atom(T.atom('truth', I.vkey(v, st)), st, I.deep_lab(v, st))


@stub('$arr.iter')
def arr_iter(I, st, v, node):
  c = st.cell(v.addr)
  shape = c.meta.get('shape')
  if shape is None or not shape:
    return [(st, Gen(c.meta['elem'], T.poly(T.atom('len', ('arr', v.addr), isint=True,
                                                   rng=T.Iv(Fraction(0)))), 'list',
                     ('a', v.addr), lab=v.lab))]
  n = shape[0]
  nn = n if isinstance(n, int) else None
  if len(shape) == 1:
    if nn is not None and nn <= (I.arr_limit if I.arr_limit > 64 else 32):
      return [(st, [arr_at(I, st, v, C(i)) for i in range(nn)])]
    return [(st, Gen(c.meta['elem'], T.poly(n), 'list', ('a', v.addr), lab=v.lab))]
  if nn is not None and nn <= (I.arr_limit if I.arr_limit > 64 else 32):
    return [(st, [arr_row(I, st, v, i) for i in range(nn)])]
  row = fresh_arr(st, c.meta['elem'], shape[1:], lab=v.lab)
  return [(st, Gen(row, T.poly(n), 'list', ('a', v.addr), lab=v.lab))]


def arr_row(I, st, v, i):
  c = st.cell(v.addr)
  d = {}
  for k, x in c.d.items():
    if isinstance(k, tuple) and (k[0] == i or k[0] == '*'):
      r = k[1:]
      d[r[0] if len(r) == 1 else r] = x
  e = I.reindex(c.meta['elem'], None, T.const(i))
  r = fresh_arr(st, e, c.meta['shape'][1:], d, lab=v.lab)
  if len(c.meta['shape']) == 2 and isinstance(i, int):
    n = c.meta['shape'][0]
    if i >= 0 or isinstance(n, int):
      st.cell(r.addr).meta['rowof'] = (v.addr, i if i >= 0 else i + n)
  return r


def picks(st, x, dim):
  """The indices an index expression selects along an axis of known length: (list, keeps axis), or None."""
  if not isinstance(dim, int):
    return None
  if isinstance(x, C) and isinstance(x.val, int) and not isinstance(x.val, bool):
    return ([x.val % dim], False) if -dim <= x.val < dim else None
  if isinstance(x, Sl) and all(isinstance(y, C) for y in (x.lo, x.hi, x.step)):
    return list(range(dim)[slice(x.lo.val, x.hi.val, x.step.val)]), True
  its = None
  if islist(st, x) and st.cell(x.addr).meta is None:
    its = st.cell(x.addr).d
  elif isarr(st, x):
    m = st.cell(x.addr)
    n = m.meta.get('shape')
    if n and len(n) == 1 and isinstance(n[0], int) and all(i in m.d for i in range(n[0])):
      its = [m.d[i] for i in range(n[0])]
  if its is not None and all(isinstance(y, C) and isinstance(y.val, int) and not isinstance(y.val, bool) and
                             -dim <= y.val < dim for y in its):
    return [y.val % dim for y in its], 'list'
  return None


def gather(I, st, ob, ix, lab):
  """a[i, j] where every selected element is known."""
  c = st.cell(ob.addr)
  shape = c.meta.get('shape')
  if shape is None or len(shape) != 2 or len(ix.items) != 2:
    return None
  sel = [picks(st, as_index(x), n) for x, n in zip(ix.items, shape)]
  if None in sel or len(sel[0][0]) * len(sel[1][0]) > 1024 or sel[0][1] == sel[1][1] == 'list':
    return None
  keep = [bool(k) for _, k in sel]
  if keep == [False, False]:
    return None
  d = {}
  for a, i in enumerate(sel[0][0]):
    for b, j in enumerate(sel[1][0]):
      v = c.d.get((i, j), c.d.get(('*', j)))
      if v is None:
        return None
      d[(a, b) if keep == [True, True] else a if keep[0] else b] = v
  return fresh_arr(st, c.meta['elem'], tuple(len(p) for (p, k) in sel if k), d, lab=lab)


def arr_at(I, st, v, ix):
  """Element of a one-dimensional array."""
  c = st.cell(v.addr)
  e = c.meta['elem']
  p = num(ix)
  n = c.meta['shape'][0] if c.meta.get('shape') else None
  if isinstance(ix, C) and isinstance(ix.val, int):
    i = ix.val
    if i < 0 and isinstance(n, int):
      i += n
    if i in c.d:
      return c.d[i].with_lab(v.lab)
    return I.reindex(e, None, T.const(i)).with_lab(v.lab)
  if c.d:
    if not isinstance(n, int) or len(c.d) < n:
      r = e
    else:
      r = None
    for x in c.d.values():
      r = x if r is None else I.blend(r, x, ())
    return r.with_lab(v.lab | ix.lab)
  return I.reindex(e, None, p if p is not None else T.ZERO).with_lab(v.lab | ix.lab)


def as_index(ix):
  if isinstance(ix, En) and ix.cls.enum_int:
    return C(ix.cls.enum_values[ix.name].val, lab=ix.lab)
  return ix


@stub('$arr.get')
def arr_get(I, st, ob, ix, node):
  ix = as_index(ix)
  lab = ob.lab | ix.lab
  if not isarr(st, ob):
    a = ob.a
    k = I.vkey(ix, st)
    scal = isinstance(ix, (C, N)) or isinstance(ix, Tup) and all(
        isinstance(x, (C, N)) for x in ix.items)
    return [(st, O(T.atom('getitem', a, k), 'elem' if ob.typ != 'ndarray' else 'ndarray' if not scal
                   else 'elem', lab=lab | I.deep_lab(ix, st)))]
  c = st.cell(ob.addr)
  shape = c.meta.get('shape')
  I.emit(st, 'arrread', addr=ob.addr, index=ix, node=node)
  if isinstance(ix, (C, N, O)) and not (isinstance(ix, O) and ix.typ in ('ndarray', 'bool')) and (
      not isinstance(ix, C) or isinstance(ix.val, (int, float)) and not isinstance(ix.val, bool)):
    if shape is None or len(shape) <= 1:
      if shape and isinstance(shape[0], int) and isinstance(ix, C):
        if not -shape[0] <= ix.val < shape[0]:
          return I.throw(st, 'IndexError', node)
      return [(st, arr_at(I, st, ob, ix))]
    if isinstance(ix, C):
      return [(st, arr_row(I, st, ob, ix.val))]
    e = I.reindex(c.meta['elem'], None, num(ix)) if num(ix) is not None else c.meta['elem']
    d = {k[1] if len(k) == 2 else k[1:]: x for k, x in c.d.items()
         if isinstance(k, tuple) and k[0] == '*'}
    return [(st, fresh_arr(st, e, shape[1:], d, lab=lab))]
  if isinstance(ix, Sl):
    full = all(isinstance(x, C) and x.val is None for x in (ix.lo, ix.hi, ix.step))
    if full:
      return [(st, ob)]
    bounds = [x.val if isinstance(x, C) else Ellipsis for x in (ix.lo, ix.hi, ix.step)]
    if shape and isinstance(shape[0], int) and Ellipsis not in bounds and len(shape) == 1:
      rng = range(shape[0])[slice(*bounds)]
      d = {j: c.d[i] for j, i in enumerate(rng) if i in c.d}
      e = c.meta['elem']
      if len(rng) <= 32:
        for j, i in enumerate(rng):
          if j not in d:
            d[j] = I.reindex(e, None, T.const(i))
      elif bounds[0]:
        e = shift_elem(I, e, T.const(rng.start))
      r = fresh_arr(st, e, (len(rng),), d, lab=lab)
    else:
      lo = T.ZERO if isinstance(ix.lo, C) and ix.lo.val is None else num(ix.lo)
      hi = num(ix.hi) if not (isinstance(ix.hi, C) and ix.hi.val is None) else (
          T.poly(shape[0]) if shape else None)
      ln = (hi - lo) if lo is not None and hi is not None else None
      n = int(ln.const) if ln is not None and ln.const is not None and ln.const >= 0 else ln
      e = c.meta['elem']
      d = {}
      if isinstance(n, int) and n <= 16 and lo is not None and not c.d:
        d = {j: I.reindex(e, None, lo + j) for j in range(n)}
      for x in c.d.values():
        e = I.blend(e, x, ())
      e = shift_elem(I, e, lo)
      r = fresh_arr(st, e, None if n is None else (n,) + tuple(shape[1:] if shape else ()), d,
                    lab=lab)
    st.cell(r.addr).meta['view'] = ob.addr
    return [(st, r)]
  if isinstance(ix, Tup):
    if shape is not None and all(isinstance(as_index(x), C) and isinstance(
        as_index(x).val, int) for x in ix.items) and len(ix.items) == len(shape):
      k = tuple(as_index(x).val for x in ix.items)
      if any(isinstance(n, int) and not -n <= i < n for i, n in zip(k, shape)):
        return I.throw(st, 'IndexError', node)
      k = tuple(i + n if i < 0 and isinstance(n, int) else i for i, n in zip(k, shape))
      if k in c.d:
        return [(st, c.d[k].with_lab(lab))]
      if ('*',) + k[1:] in c.d:
        return [(st, c.d[('*',) + k[1:]].with_lab(lab))]
      return [(st, I.reindex(c.meta['elem'], None, tuple(T.const(x) for x in k)).with_lab(lab))]
    if not any(isinstance(k, tuple) and k[0] == '*' for k in c.d):
      g = gather(I, st, ob, ix, lab)
      if g is not None:
        st.cell(g.addr).meta['view'] = ob.addr
        return [(st, g)]
    nsh, keep = [], []
    for i, x in enumerate(ix.items):
      dim = shape[i] if shape and i < len(shape) else None
      if isinstance(x, Sl):
        b = [y.val if isinstance(y, C) else Ellipsis for y in (x.lo, x.hi, x.step)]
        if isinstance(dim, int) and Ellipsis not in b:
          nsh.append(len(range(dim)[slice(*b)]))
        elif b[0] in (None, 0) and isinstance(b[1], int) and b[1] >= 0 and dim is not None:
          nsh.append(b[1])
        else:
          nsh.append(dim)
        keep.append(i)
      elif isinstance(x, C) and x.val is None:
        nsh.append(1)
    if shape is not None and len(ix.items) < len(shape):
      nsh += list(shape[len(ix.items):])
    e = c.meta['elem']
    # a fixed column of a two-dimensional array
    if len(ix.items) == 2 and isinstance(ix.items[0], Sl) and isinstance(ix.items[1], C) and \
        isinstance(ix.items[1].val, int):
      j = ix.items[1].val
      if ('*', j) in c.d:
        return [(st, fresh_arr(st, c.d[('*', j)], tuple(nsh), lab=lab))]
      rows = ix.items[0]
      if shape is not None and len(shape) == 2 and isinstance(shape[0], int) and isinstance(
          shape[1], int) and all(isinstance(x, C) for x in (rows.lo, rows.hi, rows.step)) and (
              -shape[1] <= j < shape[1]):
        j %= shape[1]
        pick = range(shape[0])[slice(rows.lo.val, rows.hi.val, rows.step.val)]
        d = {}
        for n, i in enumerate(pick):
          if (i, j) in c.d:
            d[n] = c.d[(i, j)]
          elif ('*', j) in c.d:
            d[n] = c.d[('*', j)]
        if len(d) == len(pick):
          return [(st, fresh_arr(st, e, (len(pick),), d, lab=lab))]
      e = I.reindex(e, None, ('col', j))
    if not any(isinstance(x, (Sl,)) for x in ix.items) and shape is not None and len(
        ix.items) == len(shape):
      k = tuple(num(as_index(x)) if numeric(as_index(x)) else I.vkey(x, st) for x in ix.items)
      for x in c.d.values():
        e = I.blend(e, x, ())
      return [(st, I.reindex(e, None, k).with_lab(lab))]
    cols = None
    if shape is not None and len(shape) == 2 and len(ix.items) == 2 and isinstance(
        ix.items[1], Sl) and isinstance(shape[1], int) and isinstance(ix.items[0], Sl) and all(
            isinstance(x, C) and x.val is None for x in (
                ix.items[0].lo, ix.items[0].hi, ix.items[0].step)) and all(isinstance(x, C) for x in (
                    ix.items[1].lo, ix.items[1].hi, ix.items[1].step)) and all(
                        isinstance(k, tuple) and k[0] == '*' for k in c.d):
      rng = range(shape[1])[slice(*[x.val for x in (ix.items[1].lo, ix.items[1].hi, ix.items[1].step)])]
      cols = {('*', j): c.d[('*', i)] for j, i in enumerate(rng) if ('*', i) in c.d}
    if cols is None or len(cols) < nsh[1]:
      for x in c.d.values():
        e = I.blend(e, x, ())
    r = fresh_arr(st, e, tuple(nsh) if all(x is not None for x in nsh) else None, cols, lab=lab)
    st.cell(r.addr).meta['view'] = ob.addr
    return [(st, r)]
  # fancy indexing
  if isarr(st, ix) and shape is not None and isinstance(shape[0], int) and shape[0] <= 4:
    m = st.cell(ix.addr)
    if m.meta.get('shape') == (shape[0],) and len(m.d) == shape[0] and all(
        isinstance(v, O) and v.typ == 'bool' or isinstance(v, C) and isinstance(v.val, bool)
        for v in m.d.values()):
      # one path for each selection of rows
      todo, outs = [(st, 0, ())], []
      while todo:
        s, i, sel = todo.pop()
        if i == shape[0]:
          outs.append((s, take_rows(I, s, ob, sel, lab | ix.lab)))
          continue
        for s1, b in I.truth(m.d[i], s, node):
          todo.append((s1, i + 1, sel + (i,) if b else sel))
      return outs
  e = c.meta['elem']
  for x in c.d.values():
    e = I.blend(e, x, ())
  return [(st, fresh_arr(st, e, None, lab=lab | I.deep_lab(ix, st)))]


def take_rows(I, st, ob, sel, lab):
  c = st.cell(ob.addr)
  d = {k: v for k, v in c.d.items() if isinstance(k, tuple) and k[0] == '*'}
  for n, i in enumerate(sel):
    for k, v in c.d.items():
      if k == i:
        d[n] = v
      elif isinstance(k, tuple) and k[0] == i:
        d[(n,) + k[1:]] = v
  return fresh_arr(st, c.meta['elem'], (len(sel),) + tuple(c.meta['shape'][1:]), d, lab=lab)


def shift_elem(I, e, lo):
  if lo is None:
    return e
  if lo.const == 0:
    return e
  return e


@stub('$arr.set')
def arr_set(I, st, ob, ix, v, node):
  ix = as_index(ix)
  c = st.mut(ob.addr)
  c.meta = dict(c.meta)
  I.emit(st, 'arrwrite', addr=ob.addr, index=ix, value=v, node=node)
  if 'view' in c.meta and st.has(c.meta['view']):
    b = st.mut(c.meta['view'])
    b.meta = dict(b.meta)
    b.meta['elem'] = I.blend(b.meta['elem'], as_elem(I, st, v), ())
    b.d = {k: I.blend(x, as_elem(I, st, v), ()) for k, x in b.d.items()}
  shape = c.meta.get('shape')
  if isinstance(ix, C) and isinstance(ix.val, int) and (shape is None or len(shape) == 1):
    i = ix.val
    if shape and isinstance(shape[0], int):
      if not -shape[0] <= i < shape[0]:
        I.throw(st, 'IndexError', node)
        return []
      i %= shape[0]
    c.d[i] = as_elem(I, st, v)
    up = c.meta.get('rowof')
    if up is not None and st.has(up[0]):
      st.mut(up[0]).d[(up[1], i)] = c.d[i]
    return [st]
  if isinstance(ix, R) and islist(st, ix) and st.cell(ix.addr).meta is None and all(
      isinstance(x, C) for x in st.cell(ix.addr).d):
    for x in st.cell(ix.addr).d:
      c.d[x.val % shape[0] if shape and isinstance(shape[0], int) else x.val] = as_elem(I, st, v)
    return [st]
  if isinstance(ix, Sl) and isinstance(ix.lo, C) and isinstance(ix.hi, C) and shape and isinstance(
      shape[0], int) and isinstance(ix.step, C):
    rng = range(shape[0])[slice(ix.lo.val, ix.hi.val, ix.step.val)]
    if len(rng) <= 64 and len(shape) == 1:
      its = None
      if isinstance(v, Tup):
        its = list(v.items)
      elif isarr(st, v):
        its = [arr_at(I, st, v, C(j)) for j in range(len(rng))]
      elif islist(st, v) and st.cell(v.addr).meta is None:
        its = list(st.cell(v.addr).d)
      if its is not None and len(its) == 1:
        its = its * len(rng)
      if its is not None and len(its) != len(rng):
        I.throw(st, 'ValueError', node)
        return []
      for j, i in enumerate(rng):
        c.d[i] = its[j] if its else v
      return [st]
  if isinstance(ix, Tup) and all(isinstance(as_index(x), C) for x in ix.items) and all(isinstance(
      as_index(x).val, int) for x in ix.items):
    k = tuple(as_index(x).val for x in ix.items)
    if shape and len(shape) == len(k):
      k = tuple(i + n if i < 0 and isinstance(n, int) else i for i, n in zip(k, shape))
    c.d[k] = as_elem(I, st, v)
    return [st]
  if isinstance(ix, Tup) and len(ix.items) == 2 and isinstance(ix.items[0], Sl) and all(
      isinstance(x, C) and x.val is None for x in (ix.items[0].lo, ix.items[0].hi,
                                                   ix.items[0].step)) and isinstance(
                                                       ix.items[1], C):
    j = ix.items[1].val
    c.d = {k: x for k, x in c.d.items() if not (isinstance(k, tuple) and len(k) == 2 and k[1] == j)}
    if isarr(st, v) and shape and isinstance(shape[0], int) and set(st.cell(v.addr).d) == set(
        range(shape[0])) and I.arr_limit > 64:
      for i, x in st.cell(v.addr).d.items():
        c.d[(i, j)] = x
      return [st]
    c.d[('*', j)] = as_elem(I, st, v)
    return [st]
  full = isinstance(ix, Sl) and all(isinstance(x, C) and x.val is None
                                    for x in (ix.lo, ix.hi, ix.step))
  ev = as_elem(I, st, v)
  if full:
    c.d = {}
    c.meta['elem'] = ev
    return [st]
  c.meta['elem'] = I.blend(c.meta['elem'], ev, ())
  p = num(ix) if numeric(ix) else None
  for k in list(c.d):
    if p is not None and isinstance(k, int) and st.facts.decide('==', p, T.const(k)) is False:
      continue
    c.d[k] = I.blend(c.d[k], ev, ())
  return [st]


def as_elem(I, st, v):
  """A generic element of something assigned into an array."""
  if isarr(st, v):
    c = st.cell(v.addr)
    e = c.meta['elem']
    n = c.meta['shape'][0] if c.meta.get('shape') and len(c.meta['shape']) == 1 else None
    xs = list(c.d.values())
    if isinstance(n, int) and len(c.d) >= n and xs:
      e = xs.pop(0)
    for x in xs:
      e = I.blend(e, x, ())
    return e.with_lab(v.lab)
  if isinstance(v, Tup):
    e = v.items[0]
    for x in v.items[1:]:
      e = I.blend(e, x, ())
    return e
  if islist(st, v):
    c = st.cell(v.addr)
    xs = list(c.d) + ([c.meta['elem']] if isinstance(c.meta, dict) and 'elem' in c.meta else [])
    if xs:
      e = as_elem(I, st, xs[0])
      for x in xs[1:]:
        e = I.blend(e, as_elem(I, st, x), ())
      return e
  if isinstance(v, O) and v.typ == 'ndarray':
    return N(T.poly(T.atom('elem', v.a)), 'float', lab=v.lab)
  return v
