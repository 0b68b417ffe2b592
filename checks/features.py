"""The observation: layout, ranges, decoding, sources (P15, P16, P18, P23)."""
import itertools
import math

from common import *
from pyabs import witness as W

FE = 'env.features.'
NLEV = 181
SIZE = 1099
PMIN, PMAX = 5000, 14000


def gp(nm, lo=None, hi=None):
  i = T.poly(T.atom('elem', 'lvl', isint=True))
  return N(T.poly(T.atom('fn', 'gp.' + nm, (i,), rng=T.Iv(
      -T.INF if lo is None else Fraction(lo), T.INF if hi is None else Fraction(hi)))))


def gp_at(nm, i, lo=None, hi=None):
  """The value the model of query_batch has at level i."""
  e = T.atom('elem', 'lvl', isint=True)
  return T.subst(num(gp(nm, lo, hi)), {e: T.poly(T.atom('at', e, T.const(i), isint=True))})


class Obs:
  """get_features of one balloon observation, with the regression and the range summarised."""

  def __init__(self, reach=(1, 0), paused=False, excess=False, day=None, far=None, arr=256, **over):
    I = self.I = load()
    I.arr_limit = arr
    I.unroll = 2000
    self.queries = []
    self.reach = reach
    self.paused, self.excess = paused, excess
    cls = I.lookup(BAL + 'BalloonState')
    for n, v in (('navigation_is_paused', paused), ('excess_energy', excess)):
      prop_summary(I, BAL + 'BalloonState', n, lambda I, st, f, a, k, nd, v=v: [(st, C(v))])
    self.rise, self.set = T.var('sunrise'), T.var('sunset')

    def rs(I, st, f, args, kw, node):
      t = args[1] if len(args) > 1 else kw.get('time')
      if isinstance(t, DT):
        for p in (self.rise, self.set):
          st.assume('>=', p, t.p)
          st.assume('<=', p, t.p + T.const(86400))
      if day is not None:
        st.assume('<' if day else '>=', self.set, self.rise)
        st.assume('>=', self.set - self.rise if not day else self.rise - self.set, T.const(3600))
      return [(st, Tup((DT(self.rise), DT(self.set))))]
    fn_summary(I, SOLAR + 'get_next_sunrise_sunset', rs)
    fn_summary(I, 'env.balloon.power_table.lookup', sum_number('power_table', 0, 350))

    def qb(I, st, f, args, kw, node):
      self.queries.append((st.fork(), (list(args[1:]) + list(kw.values()))[0]))
      m = fresh_arr(st, gp('u'), (NLEV, 2), {('*', 0): gp('u'), ('*', 1): gp('v')})
      d = fresh_arr(st, gp('dev', 0, 1), (NLEV,))
      return [(st, Tup((m, d)))]
    method_summary(I, 'env.wind_gp.WindGP', 'query_batch', qb)
    self.observed = []

    def ob(I, st, f, args, kw, node):
      self.observed.append((st.fork(), list(args[1:]) + list(kw.values())))
      return [(st, NONE)]
    method_summary(I, 'env.wind_gp.WindGP', 'observe', ob)

    def pr(I, st, f, args, kw, node):
      return I.call(I.lookup('env.balloon.pressure_range_builder.AccessiblePressureRange'),
                    [C(float(reach[0])), C(float(reach[1]))], {}, st, node)
    fn_summary(I, 'env.balloon.pressure_range_builder.get_pressure_range', pr)
    st = I.start()
    st, self.b, self.bs = balloon(I, st, **over)
    st, wv = wind_vector(I, st)
    st, atmo = atmosphere(I, st)
    st, wf = one(I.call(I.lookup('env.wind_field.SimpleStaticWindField'), [], {}, st, None))
    st, self.fc = one(I.call(I.lookup(FE + 'PerciatelliFeatureConstructor'), [wf, atmo], {}, st, None))
    st, obs = one(I.call(I.lookup('env.simulator_data.SimulatorObservation'), [self.bs, wv], {}, st, None))
    st.roots = st.roots + (wv, atmo, wf, self.fc, obs)
    if far is not None:
      x, y = readn(I, st, self.bs, 'x.meters'), readn(I, st, self.bs, 'y.meters')
      d2 = x * x + y * y
      st.assume('>=' if far else '<', T.power(d2, Fraction(1, 2)), T.const(1 if far else 1e-9))
    st, _ = one(I.call_method(self.fc, 'observe', [obs], {}, st, None))
    self.st0 = st
    I.sinks = [[]]
    self.outs = I.call_method(self.fc, 'get_features', [], {}, st.fork(), None)
    self.excs = exceptions(I)


def prop_summary(I, cls, name, h):
  m = I.getattr_static(I.lookup(cls), name, I.base)
  if isinstance(m, Prop):
    m = m.fget
  if not isinstance(m, Fn):
    raise AnalysisError('not a property: %s.%s' % (cls, name))
  I.summaries[m.fi.short] = h


def at(I, st, v, i):
  """Element i of a vector."""
  outs = I.getitem(v, C(i), st.fork(), None)
  return outs[0][1] if len(outs) == 1 else None


WF = 'env/features.py (PerciatelliFeatureConstructor.get_features)'

VARIANTS = [
    dict(day=True, far=True, pressure=(7990, 8010), reach=(5999, 7001)),
    dict(day=False, far=True, pressure=(5000, 5020), reach=(0, 20000), paused=True),
    dict(day=True, far=False, pressure=(13980, 14000), reach=(0, 20000), excess=True),
    dict(day=None, far=True, pressure=(1000, 4990), reach=(9000, 20000)),
    dict(day=False, far=False, pressure=(14010, 20000), reach=(1, 0), paused=True, excess=True),
    dict(day=True, far=True, pressure=(9480, 9520), reach=(0, 20000)),
]


def level_of(v):
  lo, hi = v['pressure']
  mid = (lo + hi) / 2
  return min(max(int(round((min(max(mid, PMIN), PMAX) - PMIN) / 50)), 0), NLEV - 1)


def observations(tier):
  cmds = ('UP', 'STAY', 'DOWN')
  for i, v in enumerate(VARIANTS):
    for c in (cmds if tier != 'quick' else (cmds[i % 3],)):
      yield v, c


def build(v, c):
  I0 = load()
  over = dict(v)
  cmd = commands(I0)[c]
  return Obs(last_command=cmd, **over)


def vname(v, c):
  return 'pressure %s, reachable %s, %s, %s, last command %s, paused %s, excess %s' % (
      v['pressure'], v['reach'], {True: 'day', False: 'night', None: 'any time'}[v['day']],
      'away from the station' if v['far'] else 'at the station', c, v.get('paused', False),
      v.get('excess', False))


def p15(r, tier):
  """Every observation has the declared shape and dtype and lies within the declared bounds."""
  for v, c in observations(tier):
    O1 = build(v, c)
    I = O1.I
    what = vname(v, c)
    if not O1.outs:
      r.fail('observation-exists', what, WF, str([(str(e), e.where) for _, e in O1.excs][:3]))
      continue
    sp = I.getattr(O1.fc, 'observation_space', O1.st0.fork(), None)
    s0, box = one(sp, 'observation_space')
    low, high = read(I, s0, box, 'low'), read(I, s0, box, 'high')
    for st, vec in O1.outs:
      if not (isinstance(vec, R) and st.cell(vec.addr).kind == 'arr'):
        r.undecided('shape', what, WF, str(vec))
        continue
      m = st.cell(vec.addr).meta
      ls = s0.cell(low.addr).meta if isinstance(low, R) else {}
      sh = m.get('shape')
      r.check(None if sh is None or ls.get('shape') is None else sh == ls.get('shape') == (SIZE,), 'shape', what, WF,
              'observation %s, space %s' % (sh, ls.get('shape')))
      r.check(None if m.get('dtype') in (None, '?') else m.get('dtype') == 'float32', 'dtype', what, WF,
              'dtype %s' % m.get('dtype'))
      for i in range(SIZE):
        x = at(I, st, vec, i)
        lo, hi = at(I, s0, low, i), at(I, s0, high, i)
        x = num(x) if x is not None else None
        if x is None or lo is None or hi is None or not isinstance(lo, C) or not isinstance(hi, C):
          r.undecided('within-bounds', 'feature %s (%s)' % (group(i), what), WF, str(x))
          continue
        for op, b in (('>=', lo.val), ('<=', hi.val)):
          if b in (T.INF, -T.INF):
            continue
          ver = holds(st, op, x, T.const(b))
          r.check(ver, 'within-bounds', 'feature %s %s %s (%s)' % (group(i), op, b, what), WF, show(x))
    r.took(I)


def group(i):
  if i < 16:
    return str(i)
  return 'wind ' + ('uncertainty', 'bearing', 'magnitude')[(i - 16) % 3]


def trig(x, want):
  """Whether x is sin/cos of the heading (want) to the station at the origin."""
  t = x.terms
  if len(t) == 1:
    (m, c), = t.items()
    if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('sin', 'cos'):
      a = m[0][0]
      if a.op != want:
        return False
      q = a.args[0].terms
      if len(q) == 1:
        (m2, c2), = q.items()
        if c2 == 1 and len(m2) == 1 and m2[0][0].op == 'atan2':
          p1, p2 = m2[0][0].args
          kx = T.div(p1, T.var('x').scale(-1)).const
          ky = T.div(p2, T.var('y').scale(-1)).const
          return kx is not None and ky is not None and kx == ky and kx > 0
  d = T.power(T.var('x') * T.var('x') + T.var('y') * T.var('y'), Fraction(1, 2))
  n = T.var('x') if want == 'sin' else T.var('y')
  if T.close(x, T.div(n.scale(-1), d)):
    return True
  return None


def levels_in(x, acc=None):
  """The wind levels a term depends on."""
  acc = set() if acc is None else acc
  if isinstance(x, T.Poly):
    for m in x.terms:
      for a, _ in m:
        levels_in(a, acc)
  elif isinstance(x, T.Atom):
    if x.op == 'fn' and str(x.args[0]).startswith('gp.'):
      q = x.args[1][0]
      for m in q.terms:
        for a, _ in m:
          if a.op == 'at' and isinstance(a.args[1], T.Poly) and a.args[1].const is not None:
            acc.add(int(a.args[1].const))
          else:
            acc.add(None)
    else:
      levels_in(x.args, acc)
  elif isinstance(x, tuple):
    for y in x:
      levels_in(y, acc)
  return acc


def find(x, op, acc=None):
  acc = [] if acc is None else acc
  if isinstance(x, T.Poly):
    for m in x.terms:
      for a, _ in m:
        find(a, op, acc)
  elif isinstance(x, T.Atom):
    if x.op == op:
      acc.append(x)
    else:
      find(x.args, op, acc)
  elif isinstance(x, tuple):
    for y in x:
      find(y, op, acc)
  return acc


def bearing(st, x, l, far):
  """The verdict on a bearing feature; where its form is not recognised, its value at sample winds and places."""
  if not far and x.const is None and levels_in(x) == {l}:
    return False   # at the station no wind leads away from it or to it
  ok = bearing_ok(x, l, far)
  if not far or ok is False:
    return ok
  (ua,), (va,) = [list(gp_at(n, l).terms)[0][0][:1] for n in 'uv']
  for i, (px, py, wu, wv) in enumerate(((3000.0, 4000.0, 5.0, -1.0), (-70000.0, 20000.0, -3.0, 4.0), (500.0, -90000.0, 0.5, 12.0),
                                        (-40.0, -9.0, 20.0, 21.0), (4000.0, 300.0, 0.0, 0.0))):
    val = W.Valuation(i, st.facts)
    val.val.update({list(T.var('x').terms)[0][0][0]: px, list(T.var('y').terms)[0][0][0]: py, ua: wu, va: wv})
    try:
      got = val.poly(x)
    except (W.NoValue, ValueError, OverflowError, ZeroDivisionError, TypeError):
      continue
    c = -(px * wu + py * wv) / math.hypot(px, py) / math.hypot(wu, wv) if wu or wv else -1   # no wind leads to the station
    if not val.ok() and abs(got - math.acos(max(-1, min(1, c))) / math.pi) > 0.05:
      return False
  return ok


def bearing_ok(x, l, far):
  """The bearing feature is the angle between the wind and the direction of the station, over pi."""
  lv = levels_in(x)
  if None in lv or lossy_term(x):
    return None
  if not far and x.const is not None and x.const == 0:
    return True
  if lv != {l}:
    return False
  ac = find(x, 'acos')
  if len(ac) != 1:
    return None
  p = ac[0].args[0]
  u, v = gp_at('u', l), gp_at('v', l)
  e = (T.var('x') * u + T.var('y') * v).scale(-1)
  # strip the clip, then the positive normalisation
  while len(p.terms) == 1:
    (m, c), = p.terms.items()
    if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('min', 'max'):
      ps = [q for q in m[0][0].args[0] if q.const is None]
      if len(ps) == 1:
        p = ps[0]
        continue
    break
  q = T.div(e, p)
  k = T.div(p, e)
  f = T.Facts()
  for z in (k, q):
    if z.terms and f.decide('>', z, T.const(0)) is True:
      return scaled(x, ac[0])
    if z.terms and f.decide('<', z, T.const(0)) is True:
      return False
  # compare monomial by monomial: each carries x*u or y*v with a negative coefficient
  want = {('x', 'u'), ('y', 'v')}
  got = set()
  for m, c in p.terms.items():
    names = set()
    for a, ex in m:
      if ex == 1 and a.op == 'var' and a.args[0] in ('x', 'y'):
        names.add(a.args[0])
      if ex == 1 and T.poly(a) == u:
        names.add('u')
      if ex == 1 and T.poly(a) == v:
        names.add('v')
    pair = tuple(sorted(names, key=lambda n: n in 'uv'))
    if len(pair) != 2:
      return None
    if pair not in want or c > 0:
      return False
    got.add(pair)
  return scaled(x, ac[0]) if got == want else False


def scaled(x, ac):
  """pi maps to 1."""
  f = T.Facts()
  iv = f.iv(x)
  return True if iv.lo >= 0 and abs(float(iv.hi) - 1) < 1e-6 else None


def eq(st, p, q):
  if p is None or q is None:
    return None
  return same(st, p, q)


def clip01(st, p):
  return T.tmin([T.const(1), T.tmax([T.const(0), p], st.facts)], st.facts)


def p16(r, tier):
  """Each feature encodes its documented quantity, and the named view decodes it back."""
  for v, c in observations(tier):
    O1 = build(v, c)
    I = O1.I
    what = vname(v, c)
    b = level_of(v)
    for st, vec in O1.outs:
      g = lambda f: readn(I, st, O1.bs, f)
      X = lambda i: num(at(I, st, vec, i)) if at(I, st, vec, i) is not None else None
      chk = lambda ver, i, d='': r.check(ver, 'encodes', 'feature %s (%s)' % (group(i), what), WF,
                                         'value %s %s' % (show(X(i)) if X(i) is not None else None, d))
      p = g('pressure')
      chk(eq(st, X(0), clip01(st, (p - T.const(PMIN)).scale(Fraction(1, PMAX - PMIN)))), 0)
      chk(eq(st, X(1), g('battery_soc')), 1)
      el = find(X(2), 'fn')
      el = [a for a in el if a.args[0] == 'solar.elevation']
      chk(None if len(el) != 1 else eq(st, X(2), clip01(st, (T.poly(el[0]) + T.const(90)).scale(
          Fraction(1, 180)))), 2)
      t = g('date_time')
      D = T.const(86400)
      pi = T.const(math.pi)
      for i, fn in ((3, 'sin'), (4, 'cos')):
        a = X(i)
        at_ = find(a, fn) if a is not None else []
        other = find(a, 'cos' if fn == 'sin' else 'sin') if a is not None else []
        if len(at_) == 1 and T.close(a, T.poly(at_[0])):
          arg = at_[0].args[0]
          dayp = pi * T.div(t - (O1.rise - D), O1.set - (O1.rise - D))
          nightp = pi + pi * T.div(t - (O1.set - D), O1.rise - (O1.set - D))
          okd, okn = T.close(arg, dayp, 1e-6), T.close(arg, nightp, 1e-6)
          isday = st.facts.decide('<', O1.set, O1.rise)
          if isday is True:
            ver = okd or (None if not okn else False)
          elif isday is False:
            ver = okn or (None if not okd else False)
          else:
            ver = None
        else:
          ver = False if other and not at_ else None
        chk(ver, i)
      d = T.power(T.var('x') * T.var('x') + T.var('y') * T.var('y'), Fraction(1, 2))
      for i, fn in ((5, 'sin'), (6, 'cos')):
        chk(None if X(i) is None else trig(X(i), fn), i)
      chk(eq(st, X(7), T.div(d, d + T.const(250000))), 7)
      for i, n in ((8, 'UP'), (9, 'STAY'), (10, 'DOWN')):
        chk(eq(st, X(i), T.const(1 if n == c else 0)), i)
      pz, ex = v.get('paused', False), v.get('excess', False)
      chk(eq(st, X(11), T.const(1 if pz else 0)), 11)
      chk(eq(st, X(12), T.const(0 if pz else 1)), 12)
      chk(eq(st, X(13), T.const(1 if ex else 0)), 13)
      pt = [a for a in find(X(14), 'fn') if a.args[0] == 'power_table'] if X(14) is not None else []
      chk(None if len(pt) != 1 else eq(st, X(14), clip01(st, (T.poly(pt[0]) - T.const(100)).scale(
          Fraction(1, 200)))), 14)
      if len(pt) == 1:
        ks = pt[0].args[1]
        ok = len(ks) == 2 and isinstance(ks[0], T.Poly) and T.close(ks[0], g('pressure_ratio')) and T.close(
            ks[1], g('battery_soc'))
        r.check(True if ok else None if lossy_term(pt[0]) else False, 'power-lookup-arguments', what, WF, str(ks))
      chk(eq(st, X(15), g('pressure_ratio')), 15)
      # wind column
      for slot in range(2 * NLEV - 1):
        l = slot - (NLEV - 1 - b)
        i0 = 16 + 3 * slot
        pr = PMIN + 50 * l
        if 0 <= l < NLEV and v['reach'][0] <= pr <= v['reach'][1]:
          u, w = gp_at('u', l), gp_at('v', l)
          mag = T.power(u * u + w * w, Fraction(1, 2))
          r.check(eq(st, X(i0), gp_at('dev', l, 0, 1)), 'wind-layout', 'uncertainty (%s)' % what, WF,
                  'slot %d: %s' % (slot, show(X(i0))))
          r.check(None if X(i0 + 1) is None else bearing(st, X(i0 + 1), l, v['far']), 'wind-layout',
                  'bearing (%s)' % what, WF, 'slot %d: %s' % (slot, show(X(i0 + 1))))
          r.check(eq(st, X(i0 + 2), T.div(mag, mag + T.const(30))), 'wind-layout', 'magnitude (%s)' % what, WF,
                  'slot %d: %s' % (slot, show(X(i0 + 2))))
        else:
          for k, e in enumerate((0, 1, 1)):
            r.check(eq(st, X(i0 + k), T.const(e)), 'unreachable-level', '%s (%s)' % (group(i0 + k), what), WF,
                    'slot %d: %s' % (slot, show(X(i0 + k))))
      decode(r, I, st, O1, vec, v, c, b, what, X)
    for s, q in O1.queries:
      query(r, I, s, q, O1, what)
    r.took(I)


def query(r, I, s, q, O1, what):
  """The regression is asked about the balloon's own column."""
  if not (isinstance(q, R) and s.cell(q.addr).kind == 'arr'):
    r.undecided('query-columns', what, WF, str(q))
    return
  cell = s.cell(q.addr)
  for j, f in ((0, 'x.meters'), (1, 'y.meters'), (3, 'time_elapsed')):
    x = cell.d.get(('*', j))
    r.check(None if x is None else eq(s, num(x), readn(I, s, O1.bs, f)), 'query-columns', 'column %d' % j, WF, str(x))
  for i in range(NLEV):
    x = cell.d.get((i, 2))
    r.check(None if x is None else eq(s, num(x), T.const(PMIN + 50 * i)), 'query-columns',
            'column 2 is the pressure of the level', WF, 'level %d: %s' % (i, x))


DW = 'env/features.py (NamedPerciatelliFeatures)'


def decode(r, I, st, O1, vec, v, c, b, what, X):
  s, nm = one(I.call(I.lookup(FE + 'NamedPerciatelliFeatures'), [vec], {}, st.fork(), None), 'decode')
  lo, hi = v['pressure']
  if lo >= PMIN and hi <= PMAX:
    r.check(eq(s, readn(I, s, nm, 'balloon_pressure'), readn(I, s, O1.bs, 'pressure')), 'decodes', 'pressure', DW,
            str(read(I, s, nm, 'balloon_pressure')))
  for a, i in (('battery_charge', 1), ('solar_elevation', 2), ('sin_normalized_solar_cycle', 3),
               ('cos_normalized_solar_cycle', 4), ('sin_heading_to_station', 5), ('cos_heading_to_station', 6),
               ('distance_to_station', 7), ('has_excess_energy', 13), ('descent_cost', 14),
               ('internal_pressure_ratio', 15)):
    r.check(eq(s, readn(I, s, nm, a), X(i)) if I.getattr(nm, a, s.fork(), None) else False, 'decodes', a, DW, str(read(I, s, nm, a)))
  pz = v.get('paused', False)
  r.check(eq(s, readn(I, s, nm, 'navigation_paused'), T.const(1 if pz else 0)), 'decodes', 'navigation_paused', DW)
  r.check(eq(s, readn(I, s, nm, 'navigation_enabled'), T.const(0 if pz else 1)), 'decodes', 'navigation_enabled', DW)
  for lc in [x for _, x in I.getattr(nm, 'last_command', s.fork(), None)] or [C(None)]:
    r.check(lc.name == c if isinstance(lc, En) else False if isinstance(lc, C) else None, 'decodes', 'last_command', DW,
            str(lc))
  s, ctr = one(I.call_method(nm, 'wind_column_center', [], {}, s, None), 'centre')
  r.check(ctr.val == NLEV - 1 if isinstance(ctr, C) else None, 'decodes', 'wind_column_center', DW, str(ctr))
  for slot in (0, NLEV - 1 - b, NLEV - 1 - b + 21, NLEV - 1, 2 * NLEV - 2):
    if not 0 <= slot < 2 * NLEV - 1:
      continue
    for a, k in (('uncertainty', 0), ('bearing', 1), ('magnitude', 2)):
      outs = I.call_method(nm, a, [C(slot)], {}, s.fork(), None)
      for s2, x in outs:
        r.check(eq(s2, num(x), X(16 + 3 * slot + k)), 'decodes', a, DW, 'level %d: %s' % (slot, x))
      if not outs:
        r.fail('decodes', a, DW, 'level %d is rejected' % slot)
    l = slot - (NLEV - 1 - b)
    if not (0 <= l < NLEV and v['reach'][0] <= PMIN + 50 * l <= v['reach'][1]):
      for s2, x in I.call_method(nm, 'level_is_valid', [C(slot)], {}, s.fork(), None):
        tv = {t for _, t in I.truth(x, s2, None)}
        r.check(tv == {False}, 'decodes', 'level_is_valid of an unreachable level', DW, str(x))
  for bad in (-1, 2 * NLEV - 1):
    I.sinks = [[]]
    outs = I.call_method(nm, 'wind_at', [C(bad)], {}, s.fork(), None)
    r.check(not outs, 'decodes', 'wind_at(%d) is rejected' % bad, DW)
