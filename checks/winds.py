"""Wind fields, wind noise and the wind regression (P03, P21-P25)."""
from common import *
from env import reach, own_lab, tainted

WFD = 'env.wind_field.'
FIELDS = {
    'SimpleStaticWindField': 'env/wind_field.py (SimpleStaticWindField)',
    'GenerativeWindField': 'env/generative_wind_field.py (GenerativeWindField)',
    'GridBasedWindField': 'env/grid_based_wind_field.py (GridBasedWindField)',
}
GRIDS = ('GenerativeWindField', 'GridBasedWindField')


def key(name, lab=None):
  L = frozenset([lab]) if lab else E0
  return O(T.atom('key', name, lab=L), 'key', lab=L)


class Field:
  """A wind field; reset=True: already reset."""

  def __init__(self, cls, reset=True, arr=256, lab=None):
    I = self.I = load()
    I.arr_limit = arr
    self.cls = cls
    st = I.start()
    I.sinks = [[]]
    if cls == 'GridBasedWindField':
      st, s = one(I.call(I.lookup('env.generative_wind_field.GenerativeWindFieldSampler'), [], {}, st, None))
      outs = I.call(I.lookup('env.grid_based_wind_field.GridBasedWindField'), [s], {}, st, None)
    elif cls == 'GenerativeWindField':
      outs = I.call(I.lookup('env.generative_wind_field.GenerativeWindField'), [], {}, st, None)
    else:
      outs = I.call(I.lookup(WFD + cls), [], {}, st, None)
    st, self.f = one(outs, cls)
    st.roots = st.roots + (self.f,)
    if reset:
      st, _ = one(I.call_method(self.f, 'reset', [key('field', lab), dt_var('start', frozenset([lab]) if lab else E0)],
                                {}, st, None), 'reset')
    self.st = st
    self.where = FIELDS[cls]

  def place(self, st, p=(1000, 100000), t=(0, 10 ** 7), sfx=''):
    I = self.I
    return [unit(I, st, 'Distance', T.var('qx' + sfx)), unit(I, st, 'Distance', T.var('qy' + sfx)),
            N(T.var('qp' + sfx, p[0], p[1])), TD(T.var('qt' + sfx, t[0], t[1]))]

  def call(self, m, args, st=None):
    self.I.sinks = [[]]
    outs = self.I.call_method(self.f, m, args, {}, (st or self.st).fork(), None)
    self.excs = exceptions(self.I)
    return outs


def clipped(st, p, lo, hi):
  return [T.tmin([T.tmax([p, T.const(lo)], st.facts), T.const(hi)], st.facts),
          T.tmax([T.tmin([p, T.const(hi)], st.facts), T.const(lo)], st.facts)]


def interp_atom(p):
  """The interpolation a wind component is, or None."""
  if p is None or len(p.terms) != 1:
    return None
  (m, c), = p.terms.items()
  if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'fn' and str(m[0][0].args[0]).startswith('interpn.'):
    return m[0][0]
  return None


def cycles(tier):
  """Time windows of the boomerang: hours [a, b) and the expected position as sign*t + offset."""
  out = []
  for k in range(4 if tier == 'quick' else 12):
    out.append((48 * k, 48 * (k + 1), 1 if k % 2 == 0 else -1, -48 * k if k % 2 == 0 else 48 * (k + 1)))
  return out


def expect_row(r, F, st, comp, v, c, x, y, p, t, sg, off, what):
  """One wind component is the interpolation of its own table at the clamped, reflected place."""
  a = interp_atom(v)
  if a is None:
    r.check(None if v is None or lossy_term(v) else False, 'is-interpolation', what, F.where, show(v))
    return
  r.check(a.args[0] == 'interpn.%d' % c, 'component-order', what, F.where, '%s reads column %s' % (comp, a.args[0]))
  row = a.args[2]
  if len(row) != 4:
    r.check(False, 'four-coordinates', what, F.where, str(len(row)))
    return
  for n, got, w in (('x', row[0], clipped(st, x.scale(Fraction(1, 1000)), -500, 500)),
                    ('y', row[1], clipped(st, y.scale(Fraction(1, 1000)), -500, 500)),
                    ('pressure', row[2], clipped(st, p, 5000, 14000)),
                    ('time', row[3], [t.scale(Fraction(sg, 3600)) + T.const(off)])):
    r.check(same(st, got, *w), n + '-clamped' if n != 'time' else 'time-reflected', what, F.where,
            '%s looked up at %s, expected %s' % (n, show(got), show(w[0])))


def p21(r, tier):
  """Queries are clamped in space and pressure and reflected in time; columns agree with single points."""
  for cls in GRIDS:
    for a, b, sg, off in cycles(tier):
      F = Field(cls)
      I = F.I
      st = F.st.fork()
      q = F.place(st, t=(3600 * a, 3600 * b))
      x, y = (readn(I, st, q[i], 'meters') for i in (0, 1))
      p, t = num(q[2]), q[3].p
      st.assume('<', t, T.const(3600 * b))
      st.roots = st.roots + tuple(q)
      what = '%s, %d h to %d h' % (cls, a, b)
      outs = F.call('get_forecast', q, st)
      r.check(True if outs else False, 'lookup-completes', what, F.where, str(F.excs[:2]))
      for s, w in outs:
        for c, comp in enumerate('uv'):
          expect_row(r, F, s, comp, readn(I, s, w, comp + '.mps'), c, x, y, p, t, sg, off, what)
      ps = [N(T.var('col%d' % i, 1000, 100000)) for i in range(3)]
      col = R(st.alloc(Cell('list', None, list(ps))))
      st.roots = st.roots + (col,)
      for s, l in F.call('get_forecast_column', q[:2] + [col, q[3]], st):
        items = s.cell(l.addr).d if isinstance(l, R) else l.items if isinstance(l, Tup) else None
        if items is None or len(items) != 3:
          r.check(None if lossy(l) else False, 'column-length', what, F.where, str(l))
          continue
        for i, w in enumerate(items):
          for c, comp in enumerate('uv'):
            expect_row(r, F, s, comp, readn(I, s, w, comp + '.mps'), c, x, y, num(ps[i]), t, sg, off,
                       what + ', column')
      r.took(I)
  # The grid the values are looked up on.
  for cls in GRIDS:
    F = Field(cls)
    I = F.I
    ev = []
    I.on_event = lambda st, k, d: ev.append((st, d)) if k == 'interpn' else None
    st = F.st.fork()
    F.call('get_forecast', F.place(st, t=(0, 3600)), st)
    for s, d in ev[:1]:
      pts = d['points']
      its = pts.items if isinstance(pts, Tup) else s.cell(pts.addr).d if isinstance(pts, R) else ()
      for n, it, lo, hi, num_ in zip(('x', 'y', 'pressure', 'time'), its, (-500, -500, 5000, 0), (500, 500, 14000, 48),
                                     (21, 21, 10, 9)):
        c = s.cell(it.addr) if isinstance(it, R) else None
        ok = None
        if c is not None and c.meta.get('shape') == (num_,) and 0 in c.d and num_ - 1 in c.d:
          ok = holds(s, '==', num(c.d[0]), lo) and holds(s, '==', num(c.d[num_ - 1]), hi)
        r.check(ok, 'grid-spans-region', '%s, %s axis' % (cls, n), F.where, str(it))
      # Nothing outside the grid can be looked up silently: bounds are checked or clamped.


def p22(r, tier):
  """Winds queried before the first reset are rejected."""
  for cls in GRIDS:
    F = Field(cls, reset=False)
    for m in ('get_forecast', 'get_forecast_column', 'get_ground_truth'):
      st = F.st.fork()
      q = F.place(st)
      if m.endswith('column'):
        q[2] = R(st.alloc(Cell('list', None, [q[2]])))
      st.roots = st.roots + tuple(q)
      outs = F.call(m, q, st)
      what = '%s.%s before reset' % (cls, m)
      r.check(not outs, 'rejected-before-reset', what, F.where, 'the query completes')
      for _, e in F.excs:
        r.check(e.name in ('RuntimeError', 'ValueError'), 'documented-error', what, e.where, e.name)
    r.took(F.I)
  F = Field('SimpleStaticWindField', reset=False)
  st = F.st.fork()
  q = F.place(st)
  st.roots = st.roots + tuple(q)
  outs = F.call('get_ground_truth', q, st)
  what = 'wind noise before reset'
  r.check(not outs, 'rejected-before-reset', what, F.where, 'the query completes')
  for _, e in F.excs:
    r.check(e.name in ('RuntimeError', 'ValueError'), 'documented-error', what, e.where, e.name)
  r.took(F.I)


def p23(r, tier):
  """Queries do not change a wind field, and equal queries give equal answers."""
  for cls in FIELDS:
    F = Field(cls)
    I = F.I
    for m in ('get_forecast', 'get_forecast_column', 'get_ground_truth'):
      st = F.st.fork()
      q = F.place(st)
      if m.endswith('column'):
        q[2] = R(st.alloc(Cell('list', None, [q[2]])))
      st.roots = st.roots + tuple(q)
      pre = st.n
      stores = []
      glob = []
      I.on_store = lambda s, addr, n, v, node: stores.append((addr, n, I.where(node, s))) if addr < pre else None
      before = I.vkey(F.f, st, 8)
      outs = F.call(m, q, st)
      I.on_store = None
      what = '%s.%s' % (cls, m)
      r.check(True if outs else False, 'query-completes', what, F.where, str(F.excs[:2]))
      for s, v in outs:
        same_ = I.vkey(F.f, s, 8) == before
        r.check(same_, 'field-unchanged', what, stores[0][2] if stores else F.where,
                'the query changes the field: %s' % (stores[:2],))
        bad = [l for _, x in reach(I, s, v) for l in own_lab(x) if str(l).startswith('nondet:')]
        r.check(not bad, 'answer-determined', what, F.where, str(bad[:2]))
    r.took(I)


def noise_atoms(p, acc=None):
  """noise4d applications inside a term."""
  acc = {} if acc is None else acc
  seen = set()

  def go(x):
    if isinstance(x, T.Poly):
      for m in x.terms:
        for a, _ in m:
          go(a)
    elif isinstance(x, T.Atom):
      if x in seen:
        return
      seen.add(x)
      if 'noise4d' in str(x.args[:2]):
        acc[x] = 1
      else:
        for y in x.args:
          go(y)
    elif isinstance(x, (tuple, list)):
      for y in x:
        go(y)
  go(p)
  return list(acc)


def p24(r, tier):
  """Ground truth is the forecast at the place plus the noise at the place."""
  for cls in FIELDS:
    F = Field(cls)
    I = F.I
    st = F.st.fork()
    q = F.place(st, t=(0, 3600 * 47))
    st.roots = st.roots + tuple(q)
    nz = []

    def gn(I, st, f, args, kw, node):
      a = dict(zip(('x', 'y', 'pressure', 'elapsed_time'), args[1:]))
      a.update(kw)
      k = tuple(I.vkey(a[n], st, 6) for n in ('x', 'y', 'pressure', 'elapsed_time'))
      comp = [unit(I, st, 'Velocity', T.poly(T.atom('fn', 'noise.' + c, k, rng=T.Iv()))) for c in 'uv']
      nz.append((st.fork(), k))
      return I.call(I.lookup(WFD + 'WindVector'), comp, {}, st, node)
    method_summary(I, WFD + 'SimplexWindNoise', 'get_wind_noise', gn)
    fo = F.call('get_forecast', q, st)
    k = tuple(I.vkey(v, st, 6) for v in q)
    outs = F.call('get_ground_truth', q, st)
    what = cls
    r.check(True if outs else False, 'query-completes', what, F.where, str(F.excs[:2]))
    for s, w in outs:
      for c in 'uv':
        g = readn(I, s, w, c + '.mps')
        a = T.Atom.table.get(('fn', ('noise.' + c, k)))
        cands = []
        for s2, f in fo:
          fv = readn(I, s2, f, c + '.mps')
          if fv is not None and a is not None:
            cands.append(fv + T.poly(a))
        r.check(same(s, g, *cands) if cands else (None if g is None or lossy_term(g) else False),
                'truth-is-forecast-plus-noise', '%s, %s' % (what, c), F.where, show(g))
    r.took(I)


# ------------------------------------------------------------------ the wind regression
WG = 'env/wind_gp.py (WindGP)'
HORIZON = 6 * 3600


class Regression:
  """A wind regression over two forecasts that are uninterpreted functions of the place."""

  def __init__(self, nobs):
    I = self.I = load()
    I.arr_limit = 256
    I.cap = 64
    which = {}
    self.news = []
    I.on_event = lambda st, k, d: self.news.append((st, d)) if k == 'gp.new' else None

    def fo(I, st, f, args, kw, node):
      a = dict(zip(('x', 'y', 'pressure', 'elapsed_time'), args[1:]))
      a.update(kw)
      row = (readn(I, st, a['x'], 'meters'), readn(I, st, a['y'], 'meters'), num(a['pressure']), a['elapsed_time'].p)
      n = which.get(args[0].addr, 'forecast')
      comp = [unit(I, st, 'Velocity', T.poly(T.atom('fn', n + '.' + c, row, rng=T.Iv()))) for c in 'uv']
      return I.call(I.lookup(WFD + 'WindVector'), comp, {}, st, node)
    method_summary(I, WFD + 'SimpleStaticWindField', 'get_forecast', fo)
    st = I.start()
    I.sinks = [[]]
    st, self.old = one(I.call(I.lookup(WFD + 'SimpleStaticWindField'), [], {}, st, None))
    st, self.new = one(I.call(I.lookup(WFD + 'SimpleStaticWindField'), [], {}, st, None))
    which[self.new.addr] = 'forecast2'
    st, self.g = one(I.call(I.lookup('env.wind_gp.WindGP'), [self.old], {}, st, None))
    st.roots = st.roots + (self.g, self.old, self.new)
    self.obs = []
    for i in range(nobs):
      st, self.obs = self.observe(st, i, self.obs)
    self.st = st

  def rows(self, i):
    return tuple(T.var('o%s%d' % (n, i), lo, hi) for n, lo, hi in (
        ('x', -10 ** 7, 10 ** 7), ('y', -10 ** 7, 10 ** 7), ('p', 1000, 100000), ('t', 0, 10 ** 6)))

  def observe(self, st, i, obs, fc='forecast'):
    I = self.I
    row = self.rows(i)
    m = (T.var('mu%d' % i), T.var('mv%d' % i))
    st, wv = one(I.call(I.lookup(WFD + 'WindVector'), [unit(I, st, 'Velocity', p) for p in m], {}, st, None))
    a = [unit(I, st, 'Distance', row[0]), unit(I, st, 'Distance', row[1]), N(row[2]), TD(row[3]), wv]
    st, _ = one(I.call_method(self.g, 'observe', a, {}, st, None), 'observe')
    return st, obs + [(row, tuple(m[j] - T.poly(T.atom('fn', fc + '.' + c, row, rng=T.Iv()))
                                  for j, c in enumerate('uv')))]

  def batch(self, st, k):
    """k queries at one place and time, at different pressures."""
    x, y, t = T.var('qx'), T.var('qy'), T.var('qt', 0, 10 ** 6)
    rows = [(x, y, T.var('qp%d' % i, 1000, 100000), t) for i in range(k)]
    d = {(i, j): N(p) for i, row in enumerate(rows) for j, p in enumerate(row)}
    q = fresh_arr(st, N(T.fresh('query')), (k, 4), d)
    st.roots = st.roots + (q,)
    return rows, q


def gp_atoms(p):
  return [a for m in p.terms for a, e in m if a.op == 'fn' and str(a.args[0]).startswith('gp.')]


def array_entries(k):
  """{(row, column): term} of a keyed two-dimensional array, or None."""
  if isinstance(k, tuple) and k and k[0] == 'arr':
    return {e[0]: e[1] for e in k[1:] if isinstance(e, tuple) and isinstance(e[0], tuple) and len(e) == 2
            and isinstance(e[1], T.Poly)}
  return None


def fitted(st, fk, obs):
  """The measurements a prediction was fitted to: indices, or None when not understood."""
  arrs = [array_entries(k) for k in fk[1:]] if isinstance(fk, tuple) else []
  if len(arrs) != 2 or None in arrs:
    return None
  X, Y = arrs
  if not X or len(X) % 4 or len(Y) * 2 != len(X):
    return None
  out = []
  for i in range(len(X) // 4):
    if any((i, j) not in X for j in range(4)) or any((i, j) not in Y for j in range(2)):
      return None
    hit = [n for n, (row, err) in enumerate(obs) if all(same(st, X[i, j], row[j]) is True for j in range(4)) and all(
        same(st, Y[i, j], err[j]) is True for j in range(2))]
    out.append(hit[0] if hit else 'none: %s -> %s' % (
        ', '.join(show(X[i, j]) for j in range(4)), ', '.join(show(Y[i, j]) for j in range(2))))
  return out


def elements(I, st, v, key):
  outs = I.getitem(v, key, st.fork(), None)
  return outs[0][1] if len(outs) == 1 else None


def check_prediction(r, G, st, v, rows, obs, what, fc='forecast'):
  """means[i] = forecast + regression of the fresh errors; deviations from the same regression."""
  I = G.I
  if not isinstance(v, Tup) or len(v.items) != 2:
    r.check(None if lossy(v) else False, 'prediction-result', what, WG, str(v))
    return
  means, devs = v.items
  t = rows[0][3]
  fresh = []
  for row, _ in obs:
    d = row[3] - t
    inside = [st.facts.decide('<', d, T.const(HORIZON)), st.facts.decide('>', d, T.const(-HORIZON))]
    both = st.facts.decide('<', T.absval(d), T.const(HORIZON))
    fresh.append(True if inside == [True, True] else False if False in inside else both)
  for i, q in enumerate(rows):
    for j, c in enumerate('uv'):
      e = elements(I, st, means, Tup((C(i), C(j))))
      p = num(e) if e is not None and numeric(e) else None
      w = '%s, level %d, %s' % (what, i, c)
      if p is None:
        r.check(None, 'mean-known', w, WG, str(e))
        continue
      base = T.poly(T.atom('fn', fc + '.' + c, q, rng=T.Iv()))
      res = p - base
      at = gp_atoms(res)
      if not at:
        r.check(same(st, res, T.ZERO), 'no-data-means-forecast', w, WG, show(p))
        r.check(False if True in fresh else True if None not in fresh else None, 'fresh-measurements-used', w, WG,
                'fresh measurements are ignored')
        continue
      a = at[0]
      r.check(same(st, res, T.poly(a)), 'prediction-is-forecast-plus-error', w, WG, show(p))
      r.check(a.args[0] == 'gp.mean.%d' % j, 'component-order', w, WG, str(a.args[0]))
      qa = a.args[1]
      r.check(len(qa) == 4 and all(same(st, x, y) is True for x, y in zip(qa, q)), 'queried-place', w, WG, str(qa))
      f = fitted(st, a.args[2], obs)
      r.check(None if f is None else all(isinstance(n, int) for n in f) and len(set(f)) == len(f),
              'fitted-to-measured-errors', w, WG, str(f))
      if f is not None:
        for n, fr in enumerate(fresh):
          ok = (n in f) == fr if fr is not None else fresh_on_path(st, obs[n][0][3] - t, n in f)
          r.check(ok, 'fresh-measurements-used', '%s, measurement %d' % (w, n), WG,
                  'used: %s, within six hours: %s' % (n in f, fr))
    e = elements(I, st, devs, C(i))
    p = num(e) if e is not None and numeric(e) else None
    if p is None:
      r.check(None, 'deviation-known', what, WG, str(e))
      continue
    at = gp_atoms(p)
    if at:
      r.check(same(st, p, T.power(T.poly(at[0]), 2).scale(Fraction(100, 1296))), 'deviation-is-normalised-variance',
              '%s, level %d' % (what, i), WG, show(p))
    else:
      r.check(same(st, p, T.ZERO), 'deviation-without-data', '%s, level %d' % (what, i), WG, show(p))


def fresh_on_path(st, d, used):
  """Whether every measurement age d the path stands for is one for which it is right to be (not) used."""
  if any(lossy_term(k) for k in st.facts.truth):
    return None
  if used:
    v = [holds(st, '<', d, T.const(HORIZON)), holds(st, '>', d, T.const(-HORIZON))]
  else:
    v = [holds(st, '>=', T.absval(d), T.const(HORIZON))]
  return False if False in v else True if None not in v else None


def p25(r, tier):
  """The regression predicts forecast plus fitted error, from measurements of the last six hours."""
  for nobs in (0, 1, 2) if tier == 'quick' else (0, 1, 2, 3):
    G = Regression(nobs)
    I = G.I
    for s, d in G.news[:1]:
      al = d['kw'].get('alpha')
      r.check(num(al) == T.const(Fraction('0.05')) if al is not None and numeric(al) else False, 'measurement-noise',
              'regression', WG, str(al))
    st = G.st.fork()
    what = '%d measurements' % nobs
    rows, q = G.batch(st, 3)
    I.sinks = [[]]
    outs = I.call_method(G.g, 'query_batch', [q], {}, st, None)
    r.check(True if outs and not I.sinks[0] else False, 'query-completes', what, WG, str(exceptions(I)[:2]))
    for s, v in outs:
      check_prediction(r, G, s, v, rows, G.obs, what)
    r.count('regression outcomes', len(outs))
    # single point = batch of one, batch dimension removed
    st = G.st.fork()
    x, y, p, t = T.var('qx'), T.var('qy'), T.var('qp0', 1000, 100000), T.var('qt', 0, 10 ** 6)
    args = [unit(I, st, 'Distance', x), unit(I, st, 'Distance', y), N(p), TD(t)]
    st.roots = st.roots + tuple(args)
    outs = I.call_method(G.g, 'query', args, {}, st, None)
    for s, v in outs:
      ok = isinstance(v, Tup) and len(v.items) == 2
      if not ok:
        r.check(None if lossy(v) else False, 'prediction-result', what + ', single', WG, str(v))
        continue
      m = fresh_arr(s, N(T.fresh('mean')), (1, 2), {(0, j): elements(I, s, v.items[0], C(j)) for j in range(2)})
      dv = fresh_arr(s, N(T.fresh('dev')), (1,), {0: v.items[1]})
      check_prediction(r, G, s, Tup((m, dv)), [(x, y, p, t)], G.obs, what + ', single')
    # reset erases measurements and switches the forecast
    s0, _ = one(I.call_method(G.g, 'reset', [G.new], {}, G.st.fork(), None), 'reset')
    for after in (0, 1):
      st = s0.fork()
      obs = []
      if after:
        st, obs = G.observe(st, 7, obs, 'forecast2')
      rows, q = G.batch(st, 2)
      for s, v in I.call_method(G.g, 'query_batch', [q], {}, st, None):
        check_prediction(r, G, s, v, rows, obs, what + ', reset, %d more' % after, 'forecast2')
    # columns only: queries at different places are rejected, not answered with the wrong forecast
    st = G.st.fork()
    for j, n in ((0, 'x'), (1, 'y'), (3, 'time')):
      st = G.st.fork()
      rows, q = G.batch(st, 2)
      v = T.fresh('other', rng=T.Iv(Fraction(0), Fraction(10 ** 6)))
      st.mut(q.addr).d[(1, j)] = N(v)
      st.assume('!=', v, rows[0][j])
      st.assume('>=', v, rows[0][j] + T.const(1))
      outs = I.call_method(G.g, 'query_batch', [q], {}, st, None)
      r2 = [list(x) for x in rows]
      r2[1][j] = v
      for s, w in outs:
        check_prediction(r, G, s, w, [tuple(x) for x in r2], G.obs, '%s, queries that differ in %s' % (what, n))
      r.count('mixed batches rejected', not outs)
    r.took(I)


# ------------------------------------------------------------------ randomness
class Draws:
  """Follows, along every path, which random keys have been drawn from and which have been split."""

  def __init__(self, I):
    self.I = I
    self.bad = []
    self.n = 0
    self.prev = I.on_event
    I.on_event = self.event

  def event(self, st, kind, d):
    if self.prev is not None:
      self.prev(st, kind, d)
    if kind != 'keyuse' or d.get('key') is None or d['op'] in ('PRNGKey', 'fold_in'):
      return
    I = self.I
    k = I.vkey(d['key'], st)
    used = dict(st.mon or ())
    what = 'split' if d['op'] == 'split' else 'draw'
    fn = I.where(d['node'], st).split(' ')[0].rsplit(':', 1)[0].replace('balloon_learning_environment/', '')
    w = I.where(d['node'], st)
    self.n += 1
    old = used.get(k)
    if old is not None:
      self.bad.append((old, (what, fn, d['op']), w, str(k)))
    used[k] = (what, fn, d['op'])
    st.mon = frozenset(used.items())


QUANTITIES = (
    ('x.meters', 'position'), ('y.meters', 'position'), ('pressure', 'pressure'), ('date_time', 'date'),
    ('upwelling_infrared', 'infrared'))


def report_draws(r, D, what):
  seen = set()
  for old, new, w, k in D.bad:
    if old[0] == 'split' and new[0] == 'split':
      rule = 'key-split-once'
    elif 'split' in (old[0], new[0]):
      rule = 'no-draw-from-split-key'
    else:
      rule = 'no-key-drawn-twice'
    c = ', '.join(sorted('%s: %s' % (x[1], x[2]) for x in (old, new)))
    if (rule, c) not in seen:
      seen.add((rule, c))
      r.check(False, rule, c, w, 'key %s (%s)' % (k[:120], what))
  r.check(True if D.n else None, 'keys-followed', what, '', 'no random draw seen')
  r.count('random draws and splits', D.n)


def p03(r, tier):
  """Independent random quantities come from independent keys, all derived from the seed."""
  import env as envmod
  E = envmod.Env(seed='seed:new')
  I = E.I
  D = Draws(I)
  frontier = [('BalloonEnv', E.st)]
  st = E.st.fork()
  st.mon = {}
  ops = [('reset', {'seed': E.seed('seed:b')}), ('reset', {}), ('reset', {})] + ([('reset', {})] if tier != 'quick' else [])
  live = [st]
  for i, (op, kw) in enumerate(ops):
    nxt = []
    for s in live[:2]:
      for s2, _ in E.call(op, [], kw, s):
        nxt.append(s2)
        bs = E.bs(s2)
        for path, q in QUANTITIES:
          v = read(I, s2, bs, path.split('.')[0])
          lab = E0
          for _, x in reach(I, s2, v):
            lab = lab | own_lab(x)
          r.check('seed:b' in lab or (None if lossy(v) else False), 'depends-on-seed', 'reset %d, %s' % (i, q),
                  'env/balloon_arena.py (BalloonArena.reset)', '%s does not depend on the seed' % q)
    live = nxt
  report_draws(r, D, 'environment resets')
  r.took(I)
  for cls in FIELDS:
    F = Field(cls, reset=False)
    D = Draws(F.I)
    st = F.st.fork()
    st.mon = frozenset()
    outs = F.call('reset', [key('field', 'seed:b'), dt_var('start', frozenset(['seed:b']))], st)
    for s, _ in outs:
      gens = {}
      for path, x in reach(F.I, s, F.f):
        if isinstance(x, O) and x.typ == 'simplex':
          gens.setdefault(F.I.vkey(x, s), []).append(path)
          r.check('seed:b' in x.lab, 'depends-on-seed', '%s, noise generator %s' % (cls, path), FIELDS[cls],
                  'the noise does not depend on the seed')
      r.check(all(len(v) == 1 for v in gens.values()) if gens else None, 'independent-noise', cls, FIELDS[cls],
              'noise harmonics share a generator: %s' % [v for v in gens.values() if len(v) > 1][:2])
      r.count('noise generators', len(gens))
      s1 = s.fork()
      q = F.place(s1)
      s1.roots = s1.roots + tuple(q)
      for m in ('get_ground_truth',) + (('get_forecast',) if cls in GRIDS else ()):
        for s2, w in F.call(m, q, s1)[:4]:
          for c in 'uv':
            v = read(F.I, s2, w, c)
            lab = v.lab
            for _, x in reach(F.I, s2, v):
              lab = lab | own_lab(x)
            r.check('seed:b' in lab, 'depends-on-seed', '%s, %s, %s' % (cls, m, c), FIELDS[cls],
                    'the wind does not depend on the seed')
    report_draws(r, D, '%s.reset' % cls)
    r.took(F.I)
