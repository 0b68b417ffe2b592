"""Models of numpy, jax.numpy and jax.random."""
from fractions import Fraction
import math

from . import terms as T
from .stubs import *  # pylint: disable=wildcard-import
from .stubs import S, numeric, arr_row
from .values import *  # pylint: disable=wildcard-import
from .values import E0, Cell


def both(*ns):
  return [p + n for n in ns for p in ('numpy.', 'jax.numpy.')]


def listv(st, v):
  """The elements of a concrete sequence value, or None."""
  if isinstance(v, Tup):
    return list(v.items)
  if islist(st, v) and st.cell(v.addr).meta is None:
    return list(st.cell(v.addr).d)
  return None


def dim(p):
  c = p.const if isinstance(p, T.Poly) else p
  return int(c) if c is not None else p


def blend_all(I, xs):
  e = xs[0]
  for x in xs[1:]:
    e = I.blend(e, x, ())
  return e


def asarray(I, st, v, node):
  """An array cell with the contents of v; None when v is not understood."""
  if isarr(st, v):
    return v
  it = listv(st, v)
  lab = v.lab
  if it is not None:
    if not it:
      return fresh_arr(st, C(0.0), (0,), lab=lab)
    if all(numeric(x) or isinstance(x, Un) or isinstance(x, O) and x.typ in ('elem', 'num', '?')
           for x in it):
      return fresh_arr(st, blend_all(I, it), (len(it),), dict(enumerate(it)), lab=lab)
    rows = [asarray(I, st, x, node) if listv(st, x) is not None or isarr(st, x) else None
            for x in it]
    if all(r is not None for r in rows):
      shs = [st.cell(r.addr).meta.get('shape') for r in rows]
      if all(s is not None and s == shs[0] for s in shs):
        d, es = {}, []
        for i, r in enumerate(rows):
          c = st.cell(r.addr)
          es.append(c.meta['elem'])
          for k, x in c.d.items():
            d[(i,) + (k if isinstance(k, tuple) else (k,))] = x
        return fresh_arr(st, blend_all(I, es), (len(it),) + tuple(shs[0]), d, lab=lab)
    return None
  if islist(st, v):
    m = st.cell(v.addr).meta
    if isinstance(m, dict) and 'elem' in m:
      e = m['elem']
      n = dim(I.list_len(st.cell(v.addr)))
      if isarr(st, e):
        c = st.cell(e.addr)
        d = {('*',) + (k if isinstance(k, tuple) else (k,)): x for k, x in c.d.items()}
        sh = c.meta.get('shape')
        return fresh_arr(st, c.meta['elem'], (n,) + tuple(sh) if sh is not None else None, d,
                         lab=lab)
      sub = listv(st, e)
      if sub is not None and sub:
        return fresh_arr(st, blend_all(I, sub), (n, len(sub)),
                         {('*', j): x for j, x in enumerate(sub)}, lab=lab)
      return fresh_arr(st, e, (n,), lab=lab)
  if isinstance(v, Gen) and v.tag != 'iter':
    return fresh_arr(st, v.elem, (dim(v.n),), lab=lab)
  return None


@stub(*both('array', 'asarray', 'atleast_1d', 'asanyarray', 'ascontiguousarray'))
def np_array(I, st, name, args, kw, node):
  v = args[0]
  outs = []
  for st1, a in I.alts(v, st):
    if numeric(a) and not isinstance(a, O) and not name.endswith('atleast_1d'):
      outs.append((st1, a))
      continue
    r = asarray(I, st1, a, node)
    if r is None:
      outs.append((st1, opaque(I, st1, 'array', [a], 'ndarray')))
      continue
    if r is a and name.endswith('.array'):
      c = st1.cell(a.addr).copy()
      c.meta = {k: x for k, x in c.meta.items() if k != 'view'}
      r = R(st1.alloc(c), lab=a.lab)
    dt = argget(args, kw, 1, 'dtype')
    if isinstance(dt, X):
      m = st1.mut(r.addr)
      m.meta = dict(m.meta)
      m.meta['dtype'] = dt.name.rsplit('.', 1)[-1]
      if m.meta['dtype'].startswith('int'):
        m.d = {k: intcast(x) for k, x in m.d.items()}
        m.meta['elem'] = intcast(m.meta['elem'])
    outs.append((st1, r))
  return outs


def intcast(x):
  p = num(x) if numeric(x) else None
  if p is None:
    return x
  if T.all_int(p) or p.const is not None:
    return mknum(T.const(int(p.const)) if p.const is not None else p, 'int', lab=x.lab)
  return N(T.poly(T.atom('int', p, isint=True)), 'int', lab=x.lab)


def shape_of(st, v):
  it = listv(st, v)
  if it is not None:
    if all(num(x) is not None for x in it):
      return tuple(dim(num(x)) for x in it)
    return None
  p = num(v)
  return (dim(p),) if p is not None else None


def filled(val):
  def h(I, st, name, args, kw, node):
    dt = argget(args, kw, 2 if name.endswith('full') else 1, 'dtype')
    v = val if val is not None else argget(args, kw, 1, 'fill_value')
    if v is None or name.rsplit('.', 1)[1] == 'empty':
      v = N(T.fresh('uninit', lab=frozenset(['uninit'])), 'float', lab=frozenset(['uninit']))
    sh = shape_of(st, argget(args, kw, 0, 'shape'))
    r = fresh_arr(st, v, sh, dtype=dt.name.rsplit('.', 1)[-1] if isinstance(dt, X) else 'float64')
    return [(st, r)]
  return h


for _n in both('zeros'):
  S[_n] = filled(C(0.0))
for _n in both('ones'):
  S[_n] = filled(C(1.0))
for _n in both('full', 'empty'):
  S[_n] = filled(None)


@stub(*both('zeros_like', 'ones_like', 'full_like', 'empty_like'))
def np_like(I, st, name, args, kw, node):
  v = C(0.0) if 'zeros' in name else C(1.0) if 'ones' in name else argget(args, kw, 1, 'fill_value',
                                                                          C(0.0))
  if isarr(st, args[0]):
    return [(st, fresh_arr(st, v, st.cell(args[0].addr).meta.get('shape')))]
  return [(st, fresh_arr(st, v, None))]


@stub(*both('linspace'))
def np_linspace(I, st, name, args, kw, node):
  a, b = num(args[0]), num(args[1])
  nv = argget(args, kw, 2, 'num', C(50))
  n = num(nv)
  ep = kw.get('endpoint', TRUE)
  lab = labs(*args)
  if a is None or b is None or n is None:
    return [(st, opaque(I, st, 'linspace', args, 'ndarray'))]
  e = 1 if ep.val else 0
  if n.const is not None and n.const <= I.arr_limit:
    k = int(n.const)
    den = max(k - e, 1)
    d = {i: mknum(a + (b - a).scale(Fraction(i, den)), lab=lab) for i in range(k)}
    el = N(T.poly(T.atom('linspace', a, b, n, T.poly(T.atom('elem', 'i', isint=True)))), lab=lab)
    return [(st, fresh_arr(st, el, (k,), d, lab=lab))]
  i = T.poly(T.atom('elem', 'linspace', isint=True, rng=T.Iv(Fraction(0))))
  el = N(a + (b - a) * T.div(i, n - T.const(e)), lab=lab)
  return [(st, fresh_arr(st, el, (dim(n),), lab=lab))]


@stub(*both('arange'))
def np_arange(I, st, name, args, kw, node):
  xs = [num(a) for a in args]
  if any(x is None for x in xs):
    return [(st, opaque(I, st, 'arange', args, 'ndarray'))]
  lo, hi, step = (T.ZERO, xs[0], T.ONE) if len(xs) == 1 else (xs[0], xs[1], xs[2] if len(
      xs) > 2 else T.ONE)
  if lo.const is not None and hi.const is not None and step.const is not None:
    n = max(0, math.ceil((hi.const - lo.const) / step.const))
    if n <= 64:
      k = 'int' if all(kind_of(a) == 'int' for a in args) else 'float'
      d = {i: mknum(lo + step.scale(i), k) for i in range(n)}
      return [(st, fresh_arr(st, blend_all(I, list(d.values())) if d else C(0), (n,), d))]
  i = T.poly(T.atom('elem', 'arange', isint=True, rng=T.Iv(Fraction(0))))
  n = T.poly(T.atom('ceil', T.div(hi - lo, step), isint=True))
  return [(st, fresh_arr(st, N(lo + step * i), (n,), lab=labs(*args)))]


# ------------------------------------------------------------------ clipping, extrema, choice
def clip1(I, st, x, lo, hi):
  """min(max(x, lo), hi) with None bounds."""
  none = lambda v: v is None or isinstance(v, C) and v.val is None
  inf = lambda v: isinstance(v, C) and isinstance(v.val, float) and math.isinf(v.val)
  lab = labs(x, *[v for v in (lo, hi) if v is not None])
  if not numeric(x) or num(x) is None:
    return opaque_num(I, st, 'clip', [x])
  p = num(x)
  k = 'int' if all(none(v) or kind_of(v) == 'int' for v in (x, lo, hi)) else 'float'
  for v, f in ((lo, T.tmax), (hi, T.tmin)):
    if none(v) or inf(v):
      continue
    if not numeric(v) or num(v) is None:
      return opaque_num(I, st, 'clip', [x, v])
    p = f([p, num(v)], st.facts)
  return mknum(p, k, lab=lab)


@stub(*both('clip'))
def np_clip(I, st, name, args, kw, node):
  x = args[0]
  lo = argget(args, kw, 1, 'a_min', kw.get('min'))
  hi = argget(args, kw, 2, 'a_max', kw.get('max'))
  lo = lo if lo is not None else NONE
  hi = hi if hi is not None else NONE
  I.emit(st, 'clip', x=x, lo=lo, hi=hi, node=node)
  if isinstance(x, Tup) or islist(st, x):
    a = asarray(I, st, x, node)
    if a is not None:
      x = a
  if isinstance(x, O) and x.typ == 'ndarray' or any(
      isinstance(v, O) and v.typ == 'ndarray' for v in (lo, hi)):
    e = clip1(I, st, as_elem(I, st, x), as_elem(I, st, lo), as_elem(I, st, hi))
    return [(st, fresh_arr(st, e, None, lab=x.lab))]
  if any(isarr(st, v) for v in (x, lo, hi)):
    return [(st, lift(I, st, lambda a, b, c: clip1(I, st, a, b, c), [x, lo, hi], node))]
  return [(st, clip1(I, st, x, lo, hi))]


def extremum(fn):
  def h(I, st, name, args, kw, node):
    def f(x, y):
      if numeric(x) and numeric(y) and num(x) is not None and num(y) is not None:
        return mknum(fn([num(x), num(y)], st.facts), 'float', lab=x.lab | y.lab)
      return None
    if isarr(st, args[0]) or isarr(st, args[1]):
      return [(st, lift(I, st, f, list(args[:2]), node))]
    r = f(args[0], args[1])
    return [(st, r if r is not None else opaque_num(I, st, name, args))]
  return h


for _n in both('maximum', 'fmax'):
  S[_n] = extremum(T.tmax)
for _n in both('minimum', 'fmin'):
  S[_n] = extremum(T.tmin)


@stub(*both('where'))
def np_where(I, st, name, args, kw, node):
  if len(args) == 1:
    return [(st, Tup((opaque(I, st, 'nonzero', args, 'ndarray'),)))]
  c = args[0]
  if not isarr(st, c) and not (isinstance(c, O) and c.typ == 'ndarray') and not isarr(
      st, args[1]) and not isarr(st, args[2]):
    outs = []
    for s1, b in I.truth(c, st, node):
      outs.append((s1, args[1] if b else args[2]))
    return outs
  ea, eb = as_elem(I, st, args[1]), as_elem(I, st, args[2])
  ec = as_elem(I, st, c) if isarr(st, c) and not st.cell(c.addr).d else None
  if ec is not None and numeric(ea) and numeric(eb) and num(ea) is not None and num(eb) is not None \
      and all(not isarr(st, v) or not st.cell(v.addr).d for v in args[1:3]):
    e = N(T.poly(T.atom('ite', I.vkey(ec, st), num(ea), num(eb))), lab=labs(ea, eb, ec))
  else:
    e = I.blend(ea, eb, ())
  sh = None
  for v in args:
    if isarr(st, v):
      sh = sh or st.cell(v.addr).meta.get('shape')
  return [(st, fresh_arr(st, e, sh, lab=labs(*args)))]


def reduction(I, st, name, args, kw, node):
  op = name.rsplit('.', 1)[1]
  v = args[0]
  ax = argget(args, kw, 1, 'axis')
  if ax is not None and not (isinstance(ax, C) and ax.val is None):
    a = asarray(I, st, v, node)
    if a is not None:
      c = st.cell(a.addr)
      sh = c.meta.get('shape')
      if sh is not None and len(sh) == 1:
        ax = None
      elif sh is not None and isinstance(ax, C) and isinstance(ax.val, int):
        k = ax.val % len(sh)
        nsh = tuple(x for i, x in enumerate(sh) if i != k)
        e = as_elem(I, st, a)
        if op in ('sum', 'std', 'var', 'prod') or not numeric(e):
          e = opaque_num(I, st, op, [e])
        return [(st, fresh_arr(st, e, nsh, lab=v.lab))]
    if ax is not None:
      return [(st, opaque(I, st, op, [v], 'ndarray'))]
  it = listv(st, v)
  if isarr(st, v):
    c = st.cell(v.addr)
    sh = c.meta.get('shape')
    e = c.meta.get('elem')
    if sh and len(sh) == 1 and isinstance(sh[0], int) and sh[0] <= 64 and (
        isinstance(e, C) or all(i in c.d for i in range(sh[0]))):
      it = [c.d.get(i, e) for i in range(sh[0])]
  elif numeric(v) and not isinstance(v, O):
    it = [v]
  if it and all(numeric(x) and num(x) is not None for x in it):
    ps = [num(x) for x in it]
    lab = labs(*it) | v.lab
    if op in ('max', 'amax'):
      return [(st, mknum(T.tmax(ps, st.facts), lab=lab))]
    if op in ('min', 'amin'):
      return [(st, mknum(T.tmin(ps, st.facts), lab=lab))]
    if op in ('sum', 'mean'):
      p = T.ZERO
      for x in ps:
        p = p + x
      if op == 'mean':
        p = p.scale(Fraction(1, len(ps)))
      return [(st, mknum(p, lab=lab))]
  rng = None
  if isarr(st, v):
    e = as_elem(I, st, v)
    if numeric(e) and num(e) is not None and op in ('max', 'min', 'mean', 'amax', 'amin'):
      rng = st.facts.iv(num(e))
  if op in ('std', 'var'):
    rng = T.Iv(Fraction(0))
  return [(st, opaque_num(I, st, 'np.' + op, [v], rng=rng))]


for _n in both('max', 'min', 'amax', 'amin', 'sum', 'mean', 'std', 'var', 'prod', 'median',
               'nanmax', 'nanmin', 'nanmean'):
  S[_n] = reduction


@stub(*both('any', 'all'))
def np_anyall(I, st, name, args, kw, node):
  v = args[0]
  it = listv(st, v)
  if isarr(st, v):
    c = st.cell(v.addr)
    sh = c.meta.get('shape')
    if sh and len(sh) == 1 and isinstance(sh[0], int) and len(c.d) >= sh[0] <= 8:
      it = [c.d[i] for i in range(sh[0])]
    elif sh and len(sh) == 2 and all(isinstance(n, int) for n in sh) and sh[0] * sh[1] <= 32 and all(
        (i, j) in c.d for i in range(sh[0]) for j in range(sh[1])):
      it = [c.d[i, j] for i in range(sh[0]) for j in range(sh[1])]
    if sh and 0 in sh:
      it = []
  stop = name.endswith('any')
  if it is not None:
    outs, todo = [], [(st, list(it))]
    while todo:
      s, l = todo.pop()
      if not l:
        outs.append((s, C(not stop)))
        continue
      for s1, b in I.truth(l[0], s, node):
        if b is stop:
          outs.append((s1, C(stop)))
        else:
          todo.append((s1, l[1:]))
    return outs
  e = as_elem(I, st, v)
  if isinstance(e, C) and isinstance(e.val, bool):
    return [(st, C(e.val, lab=v.lab))]
  return [(st, opaque(I, st, name.rsplit('.', 1)[1], [v], 'bool'))]


@stub(*both('argmax', 'argmin'))
def np_argmax(I, st, name, args, kw, node):
  v = args[0]
  n = None
  if isarr(st, v):
    sh = st.cell(v.addr).meta.get('shape')
    if sh and len(sh) == 1 and isinstance(sh[0], int):
      n = sh[0]
  it = listv(st, v)
  n = len(it) if it is not None else n
  if it is None and isarr(st, v) and n is not None and n <= 64:
    c = st.cell(v.addr)
    if all(i in c.d for i in range(n)):
      it = [c.d[i] for i in range(n)]
  if it and all(isinstance(x, C) and isinstance(x.val, (int, float)) for x in it):
    xs = [x.val for x in it]
    return [(st, C(xs.index((max if name.endswith('argmax') else min)(xs)), lab=labs(v, *it)))]
  rng = T.Iv(Fraction(0), Fraction(n - 1) if n is not None else T.INF)
  if I.argmax_bound is not None:
    b = I.argmax_bound(I, st, v)
    if b is not None:
      rng = T.Iv(Fraction(0), Fraction(b - 1))
  return [(st, opaque_num(I, st, name.rsplit('.', 1)[1], list(args[:1]), rng=rng, isint=True))]


@stub(*both('linalg.norm'))
def np_norm(I, st, name, args, kw, node):
  v = args[0]
  it = listv(st, v)
  if isarr(st, v):
    c = st.cell(v.addr)
    sh = c.meta.get('shape')
    if sh and len(sh) == 1 and isinstance(sh[0], int) and len(c.d) >= sh[0]:
      it = [c.d[i] for i in range(sh[0])]
  o = argget(args, kw, 1, 'ord')
  ov = 2 if o is None or isinstance(o, C) and o.val is None else o.val if isinstance(o, C) else 0
  if it and all(numeric(x) and num(x) is not None for x in it) and ov in (1, 2, float('inf')) and (
      argget(args, kw, 2, 'axis') is None or argget(args, kw, 2, 'axis') == NONE):
    p = T.ZERO
    if ov != 2:
      ab = [T.absval(num(x)) for x in it]
      p = T.tmax(ab, st.facts) if ov != 1 else sum(ab, T.ZERO)
      return [(st, mknum(p, lab=labs(*it) | v.lab))]
    for x in it:
      p = p + num(x) * num(x)
    return [(st, mknum(T.power(p, Fraction(1, 2)), lab=labs(*it) | v.lab))]
  ax = argget(args, kw, 2, 'axis')
  cs = columns(st, v)
  if cs and isinstance(ax, C) and ax.val in (1, -1) and (o is None or isinstance(o, C) and o.val in (
      None, 2)) and all(numeric(x) and num(x) is not None for x in cs):
    p = T.ZERO
    for x in cs:
      p = p + num(x) * num(x)
    return [(st, fresh_arr(st, N(T.power(p, Fraction(1, 2)), lab=labs(*cs)),
                           st.cell(v.addr).meta['shape'][:1], lab=v.lab))]
  if isarr(st, v) and isinstance(ax, C) and isinstance(ax.val, int):
    sh = st.cell(v.addr).meta.get('shape')
    e = opaque_num(I, st, 'norm', args + [ax], rng=T.Iv(Fraction(0)))
    if sh is not None and len(sh) == 2:
      k = sh[0] if ax.val in (1, -1) else sh[1]
      return [(st, fresh_arr(st, e, (k,), lab=v.lab))]
  return [(st, opaque_num(I, st, 'norm', args, rng=T.Iv(Fraction(0))))]


def columns(st, v):
  """The generic entries of the columns of a two-dimensional array, or None."""
  if not isarr(st, v):
    return None
  c = st.cell(v.addr)
  sh = c.meta.get('shape')
  if sh is None or len(sh) != 2 or not isinstance(sh[1], int) or sh[1] > 16:
    return None
  if set(c.d) == {('*', j) for j in range(sh[1])}:
    return [c.d[('*', j)] for j in range(sh[1])]
  return None


@stub(*both('dot', 'inner', 'vdot'))
def np_dot(I, st, name, args, kw, node):
  ls = []
  for v in args[:2]:
    it = listv(st, v)
    if isarr(st, v):
      c = st.cell(v.addr)
      sh = c.meta.get('shape')
      if sh and len(sh) == 1 and isinstance(sh[0], int) and len(c.d) >= sh[0]:
        it = [c.d[i] for i in range(sh[0])]
    ls.append(it)
  if all(l is not None for l in ls) and len(ls[0]) == len(ls[1]) and all(
      numeric(x) and num(x) is not None for l in ls for x in l):
    p = T.ZERO
    for x, y in zip(*ls):
      p = p + num(x) * num(y)
    return [(st, mknum(p, lab=labs(*ls[0], *ls[1])))]
  cs = columns(st, args[0])
  if cs is not None and ls[1] is not None and len(cs) == len(ls[1]) and all(
      numeric(x) and num(x) is not None for x in cs + ls[1]):
    p = T.ZERO
    for x, y in zip(cs, ls[1]):
      p = p + num(x) * num(y)
    return [(st, fresh_arr(st, N(p, lab=labs(*cs, *ls[1])), st.cell(args[0].addr).meta['shape'][:1],
                           lab=labs(*args[:2])))]
  return [(st, opaque(I, st, 'dot', args, 'ndarray'))]


@stub(*both('vstack', 'hstack', 'concatenate', 'stack', 'append'))
def np_stack(I, st, name, args, kw, node):
  op = name.rsplit('.', 1)[1]
  v = args[0]
  it = listv(st, v) if op != 'append' else list(args[:2])
  ax = kw.get('axis', args[1] if len(args) > 1 and op != 'append' else C(0))
  lab = v.lab
  if it is None and islist(st, v):
    m = st.cell(v.addr).meta
    e = m.get('elem') if isinstance(m, dict) else None
    a = asarray(I, st, e, node) if e is not None else None
    if a is not None and op in ('vstack', 'stack', 'concatenate'):
      c = st.cell(a.addr)
      sh = c.meta.get('shape')
      n = dim(I.list_len(st.cell(v.addr)))
      if sh is not None and op == 'vstack' and len(sh) == 1 or op == 'stack' and sh is not None:
        d = {('*',) + (k if isinstance(k, tuple) else (k,)): x for k, x in c.d.items()}
        return [(st, fresh_arr(st, c.meta['elem'], (n,) + tuple(sh), d, lab=lab))]
      if sh is not None and len(sh) == 2:
        d = {k: x for k, x in c.d.items() if k[0] == '*'}
        k0 = {}
        for k, x in c.d.items():
          if k[0] != '*':
            q = ('*', k[1])
            k0[q] = I.blend(k0[q], x, ()) if q in k0 else x
        d.update(k0)
        return [(st, fresh_arr(st, c.meta['elem'], (dim(T.poly(n) * sh[0]), sh[1]), d, lab=lab))]
  if it is not None:
    arrs = [asarray(I, st, x, node) for x in it]
    if all(a is not None for a in arrs) and arrs:
      cs = [st.cell(a.addr) for a in arrs]
      shs = [c.meta.get('shape') for c in cs]
      lab = lab | labs(*arrs)
      if all(s is not None for s in shs):
        es = blend_all(I, [c.meta['elem'] for c in cs])
        nd = {len(s) for s in shs}
        if op in ('hstack', 'concatenate', 'append') and nd == {1} and all(
            isinstance(s[0], int) for s in shs):
          d, o = {}, 0
          for c, s in zip(cs, shs):
            for i in range(s[0]) if s[0] <= 400 else sorted(c.d):
              x = c.d.get(i)
              if x is None:
                x = I.reindex(c.meta['elem'], None, T.const(i))
              d[o + i] = x
            o += s[0]
          return [(st, fresh_arr(st, es, (o,), d, lab=lab))]
        if op == 'concatenate' and nd == {1}:
          tot = T.ZERO
          for s in shs:
            tot = tot + s[0]
          return [(st, fresh_arr(st, blend_all(I, [as_elem(I, st, a) for a in arrs]), (dim(tot),),
                                 lab=lab))]
        if op in ('vstack', 'stack') and nd == {1} and isinstance(ax, C) and ax.val in (0, 1, -1):
          tr = op == 'stack' and ax.val in (1, -1)
          d = {}
          n = shs[0][0]
          for j, c in enumerate(cs):
            if tr:
              if c.d:
                for k, x in c.d.items():
                  d[(k, j)] = x
              else:
                d[('*', j)] = c.meta['elem']
            else:
              for k, x in c.d.items():
                d[(j, k)] = x
              if not c.d and isinstance(n, int) and n <= 32:
                for k in range(n):
                  d[(j, k)] = I.reindex(c.meta['elem'], None, T.const(k))
          sh = (n, len(cs)) if tr else (len(cs), n)
          return [(st, fresh_arr(st, es, sh, d, lab=lab))]
        if op in ('vstack', 'concatenate') and nd == {2}:
          tot = T.ZERO
          for s in shs:
            tot = tot + s[0]
          return [(st, fresh_arr(st, blend_all(I, [as_elem(I, st, a) for a in arrs]),
                                 (dim(tot), shs[0][1]), lab=lab))]
      return [(st, fresh_arr(st, blend_all(I, [as_elem(I, st, a) for a in arrs]), None, lab=lab))]
  return [(st, opaque(I, st, op, [v], 'ndarray'))]


@stub(*both('expand_dims'))
def np_expand(I, st, name, args, kw, node):
  v = args[0]
  ax = argget(args, kw, 1, 'axis')
  if numeric(v) and not isinstance(v, O):
    return [(st, fresh_arr(st, v, (1,), {0: v}, lab=v.lab))]
  a = asarray(I, st, v, node)
  if a is not None and isinstance(ax, C):
    c = st.cell(a.addr)
    sh = c.meta.get('shape')
    if sh is not None:
      k = ax.val if ax.val >= 0 else ax.val + len(sh) + 1
      d = {}
      for i, x in c.d.items():
        t = i if isinstance(i, tuple) else (i,)
        d[t[:k] + (0,) + t[k:]] = x
      return [(st, fresh_arr(st, c.meta['elem'], tuple(sh[:k]) + (1,) + tuple(sh[k:]), d,
                             lab=v.lab))]
  return [(st, opaque(I, st, 'expand_dims', args, 'ndarray'))]


@stub(*both('reshape', 'squeeze', 'ravel', 'transpose', 'copy'))
def np_asmethod(I, st, name, args, kw, node):
  a = asarray(I, st, args[0], node)
  if a is None:
    return [(st, opaque(I, st, name.rsplit('.', 1)[1], args, 'ndarray'))]
  return I.stubs['$method'](I, st, a, name.rsplit('.', 1)[1], list(args[1:]), kw, node)


@stub(*both('shape', 'ndim', 'size'))
def np_shape(I, st, name, args, kw, node):
  a = asarray(I, st, args[0], node)
  if a is None:
    return [(st, opaque(I, st, name, args, '?'))]
  return I.getattr(a, name.rsplit('.', 1)[1], st, node)


@stub(*both('square'))
def np_square(I, st, name, args, kw, node):
  return I.binop('*', args[0], args[0], st, node)


for _n in both('abs', 'absolute', 'fabs'):
  S[_n] = lambda I, st, name, args, kw, node: I.call_ext('builtins.abs', args, kw, st, node) \
      if not isarr(st, args[0]) else abs_arr(I, st, args[0], node)


def abs_arr(I, st, v, node):
  return [(st, lift(I, st, lambda x: N(T.absval(num(x)), lab=x.lab)
                    if numeric(x) and num(x) is not None else None, [v], node))]


def cast(kind):
  def h(I, st, name, args, kw, node):
    if not args:
      return [(st, C(0))]
    v = args[0]
    if isarr(st, v):
      return [(st, lift(I, st, lambda x: x if kind == 'float' else intcast(x), [v], node))]
    if numeric(v) and num(v) is not None:
      if kind == 'int':
        return [(st, intcast(v))]
      return [(st, mknum(num(v), 'float', lab=v.lab))]
    a = asarray(I, st, v, node)
    if a is not None:
      return [(st, a)]
    if isinstance(v, O) and v.typ == 'ndarray':
      return [(st, v)]
    if isinstance(v, C) and isinstance(v.val, float):
      return [(st, v)]
    return [(st, opaque_num(I, st, name, args))]
  return h


for _n in both('float32', 'float64', 'float16', 'float_'):
  S[_n] = cast('float')
for _n in both('int32', 'int64', 'int8', 'uint8', 'uint32', 'uint64', 'int16'):
  S[_n] = cast('int')


@stub(*both('bool_'))
def np_bool(I, st, name, args, kw, node):
  return [(s, C(b)) for s, b in I.truth(args[0], st, node)]


@stub(*both('logical_and', 'logical_or', 'logical_not'))
def np_logic(I, st, name, args, kw, node):
  if any(isarr(st, a) or isinstance(a, O) and a.typ == 'ndarray' for a in args):
    return [(st, opaque(I, st, name.rsplit('.', 1)[1], args, 'ndarray'))]
  outs = []
  for s, b in I.truth(args[0], st, node):
    if name.endswith('not'):
      outs.append((s, C(not b)))
    elif b is name.endswith('or'):
      outs.append((s, C(b)))
    else:
      outs += [(s2, C(b2)) for s2, b2 in I.truth(args[1], s, node)]
  return outs


@stub(*both('meshgrid'))
def np_meshgrid(I, st, name, args, kw, node):
  return [(st, R(st.alloc(Cell('list', None, [
      opaque(I, st, 'meshgrid%d' % i, args, 'ndarray') for i in range(len(args))]))))]


@stub(*both('interp'))
def np_interp(I, st, name, args, kw, node):
  return [(st, opaque_num(I, st, 'interp', args))]


@prefix('numpy.', 'jax.numpy.')
def np_other(I, st, name, args, kw, node):
  I.unmodelled.setdefault(name, I.where(node, st))
  return [(st, opaque(I, st, name, list(args) + [v for _, v in sorted(kw.items())], 'ndarray'))]


# ------------------------------------------------------------------ jax.random
def key_atom(I, st, v):
  if isinstance(v, O):
    return v.a
  return T.atom('key?', I.vkey(v, st))


@stub('jax.random.PRNGKey', 'jax.random.key')
def prngkey(I, st, name, args, kw, node):
  s = argget(args, kw, 0, 'seed')
  I.emit(st, 'keyuse', op='PRNGKey', key=None, seed=s, node=node)
  return [(st, O(T.atom('PRNGKey', I.vkey(s, st)), 'key', lab=I.deep_lab(s, st)))]


@stub('jax.random.split')
def jsplit(I, st, name, args, kw, node):
  k = argget(args, kw, 0, 'key')
  n = argget(args, kw, 1, 'num', C(2))
  I.emit(st, 'keyuse', op='split', key=k, node=node)
  a = key_atom(I, st, k)
  lab = I.deep_lab(k, st)
  if isinstance(n, C):
    items = [O(T.atom('split', a, i, n.val), 'key', lab=lab) for i in range(n.val)]
    return [(st, R(st.alloc(Cell('list', None, items))))]
  return [(st, O(T.atom('splitn', a, I.vkey(n, st)), 'key', lab=lab))]


@stub('jax.random.fold_in')
def jfold(I, st, name, args, kw, node):
  k = args[0]
  I.emit(st, 'keyuse', op='fold_in', key=k, node=node)
  return [(st, O(T.atom('fold', key_atom(I, st, k), I.vkey(args[1], st)), 'key',
                 lab=labs(*args)))]


SAMPLERS = ('uniform', 'normal', 'beta', 'choice', 'randint', 'bernoulli', 'gamma', 'exponential',
            'permutation', 'categorical', 'truncated_normal', 'laplace', 'poisson', 'bits',
            'shuffle', 'dirichlet', 'gumbel', 'logistic')


@stub(*['jax.random.' + n for n in SAMPLERS])
def jsample(I, st, name, args, kw, node):
  op = name.rsplit('.', 1)[1]
  k = argget(args, kw, 0, 'key')
  I.emit(st, 'keyuse', op=op, key=k, node=node)
  a = key_atom(I, st, k) if k is not None else T.atom('nokey')
  lab = I.deep_lab(k, st) if k is not None else E0
  rest = list(args[1:]) + [v for n, v in sorted(kw.items()) if n != 'key']
  for v in rest:
    lab = lab | I.deep_lab(v, st)
  ks = tuple(I.vkey(v, st) for v in rest)
  shape = None
  if op in ('uniform', 'normal', 'gumbel', 'laplace'):
    shape = argget(args, kw, 1, 'shape')
  elif op in ('beta', 'randint'):
    shape = argget(args, kw, 3 if op == 'beta' else 1, 'shape')
  elif op == 'choice':
    shape = argget(args, kw, 2, 'shape')
  sh = shape_of(st, shape) if shape is not None and not (
      isinstance(shape, C) and shape.val is None) else ()
  if op == 'choice':
    return choice(I, st, a, args, kw, lab, sh, node)
  lo = hi = None
  if op == 'uniform':
    lo = argget(args, kw, 3, 'minval', C(0.0))
    hi = argget(args, kw, 4, 'maxval', C(1.0))
  elif op == 'randint':
    lo, hi = argget(args, kw, 2, 'minval'), argget(args, kw, 3, 'maxval')
  elif op == 'beta':
    lo, hi = C(0.0), C(1.0)
  def draw(i):
    pl = num(lo) if lo is not None and numeric(lo) else None
    ph = num(hi) if hi is not None and numeric(hi) else None
    rng = T.Iv(Fraction(0)) if op in ('gamma', 'exponential') else None
    if pl is not None and ph is not None and pl.const is not None and ph.const is not None:
      rng = T.Iv(pl.const, ph.const, False, op != 'beta' and pl.const < ph.const)
    p = T.poly(T.atom('draw', op, a, ks, i, isint=op in ('randint',), rng=rng))
    if pl is not None and ph is not None:
      st.assume('>=', p, pl)
      if op == 'beta':
        st.assume('<=', p, ph)
      else:
        # an empty range makes jax return minval
        if st.facts.decide('<', pl, ph) is not False:
          st.assume('<', p, ph)
    elif pl is not None:
      st.assume('>=', p, pl)
    return N(p, 'int' if op == 'randint' else 'float', lab=lab)
  if op == 'permutation':
    return [(st, opaque(I, st, 'permutation', args, 'ndarray'))]
  if sh == ():
    return [(st, draw(0))]
  if sh is not None and len(sh) == 1 and isinstance(sh[0], int) and sh[0] <= 64:
    d = {i: draw(i) for i in range(sh[0])}
    return [(st, fresh_arr(st, draw(T.atom('elem', 'draw', isint=True)), sh, d, lab=lab))]
  return [(st, fresh_arr(st, draw(T.atom('elem', 'draw', isint=True)), sh, lab=lab))]


def choice(I, st, a, args, kw, lab, sh, node):
  pop = argget(args, kw, 1, 'a')
  p = argget(args, kw, 4, 'p')
  arr = asarray(I, st, pop, node) if pop is not None else None
  if isinstance(pop, (C, N)) and numeric(pop):
    q = T.poly(T.atom('draw', 'choice', a, I.vkey(pop, st), isint=True, rng=T.Iv(Fraction(0))))
    st.assume('<', q, num(pop))
    e = N(q, 'int', lab=lab)
  elif arr is not None:
    e = as_elem(I, st, arr)
    xs = [st.cell(arr.addr).d[k] for k in sorted(st.cell(arr.addr).d)
          if isinstance(k, int)] if st.cell(arr.addr).d else []
    shp = st.cell(arr.addr).meta.get('shape')
    if xs and shp and len(shp) == 1 and shp[0] == len(xs):
      e = Un(tuple(x.with_lab(lab) for x in xs), lab=lab) if len(xs) > 1 else xs[0]
      e = O(T.atom('draw', 'choice', a, I.vkey(pop, st),
                   I.vkey(p, st) if p is not None else None), 'choice', lab=lab) if False else e
    e = e.with_lab(lab)
  else:
    e = O(T.atom('draw', 'choice', a, I.vkey(pop, st)), '?', lab=lab)
  if sh == ():
    return [(st, e)]
  return [(st, fresh_arr(st, e, sh, lab=lab))]


@stub('$o.key')
def key_method(I, st, obj, name, args, kw, node):
  return None


# ------------------------------------------------------------------ jax transformations
@stub('jax.vmap', 'jax.value_and_grad', 'jax.grad', 'jax.pmap', 'jax.checkpoint')
def jtransform(I, st, name, args, kw, node):
  return [(st, O(T.atom('transform', name, I.vkey(args[0], st)), 'fn', lab=labs(*args)))]


@stub('jax.tree_map', 'jax.tree_util.tree_map', 'jax.tree.map', 'jax.device_put', 'jax.lax.stop_gradient',
      'jax.block_until_ready')
def jtree(I, st, name, args, kw, node):
  if name in ('jax.device_put', 'jax.lax.stop_gradient', 'jax.block_until_ready'):
    return [(st, args[0])]
  return [(st, opaque(I, st, 'tree_map', args, '?'))]


@prefix('jax.')
def jother(I, st, name, args, kw, node):
  I.unmodelled.setdefault(name, I.where(node, st))
  return [(st, opaque(I, st, name, list(args) + [v for _, v in sorted(kw.items())], '?'))]
