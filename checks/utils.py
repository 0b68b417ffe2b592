"""Units, solar geometry, the standard atmosphere and other utilities (P26-P32)."""
from common import *
import report  # pylint: disable=unused-import

U = 'utils.units.'
UF = 'utils/units.py'
BASE = {'Distance': 'm', 'Velocity': 'mps', 'Energy': 'watt_hours', 'Power': 'watts'}
# The documented ways to make and read each quantity: name -> base units per unit.
SCALES = {
    'Distance': {'m': 1, 'meters': 1, 'km': 1000, 'kilometers': 1000, 'feet': Fraction('0.3048')},
    'Velocity': {'mps': 1, 'meters_per_second': 1, 'kmph': Fraction(1000, 3600),
                 'kilometers_per_hour': Fraction(1000, 3600)},
    'Energy': {'watt_hours': 1}, 'Power': {'watts': 1}}
# Dimension algebra: (left, operator, right) -> (kind of the result, its value in base units).
ALGEBRA = {
    ('Distance', '/', 'float'): ('Distance', lambda a, b: T.div(a, b)),
    ('Distance', '/', 'timedelta'): ('Velocity', lambda a, b: T.div(a, b)),
    ('Distance', '/', 'Distance'): ('float', lambda a, b: T.div(a, b)),
    ('Velocity', '/', 'float'): ('Velocity', lambda a, b: T.div(a, b)),
    ('Energy', '/', 'Energy'): ('float', lambda a, b: T.div(a, b)),
    ('Distance', '*', 'float'): ('Distance', lambda a, b: a * b),
    ('float', '*', 'Distance'): ('Distance', lambda a, b: a * b),
    ('Energy', '*', 'float'): ('Energy', lambda a, b: a * b),
    ('float', '*', 'Energy'): ('Energy', lambda a, b: a * b),
    ('Velocity', '*', 'timedelta'): ('Distance', lambda a, b: a * b),
    ('timedelta', '*', 'Velocity'): ('Distance', lambda a, b: a * b),
    ('Power', '*', 'timedelta'): ('Energy', lambda a, b: (a * b).scale(Fraction(1, 3600))),
    ('timedelta', '*', 'Power'): ('Energy', lambda a, b: (a * b).scale(Fraction(1, 3600))),
}
for _k in BASE:
  ALGEBRA[_k, '+', _k] = (_k, lambda a, b: a + b)
  ALGEBRA[_k, '-', _k] = (_k, lambda a, b: a - b)
# The order comparisons the quantities define.
ORDER = {'Distance': ('<', '<=', '>', '>='), 'Energy': ('>', '>=', '<', '<='), 'Power': ('>', '<'), 'Velocity': ()}
BINOPS = ('+', '-', '*', '/')
CMPOPS = ('<', '<=', '>', '>=', '==', '!=')
KINDS = tuple(BASE) + ('float', 'timedelta', 'text')


def outcomes(I, f):
  """(normal outcomes, raised exceptions) of an analysed action."""
  I.sinks.append([])
  try:
    outs = f()
    return outs, list(I.sinks[-1])
  finally:
    I.sinks.pop()


def operand(I, st, kind, name, rng=(None, None)):
  """(state, value, its term in base units)."""
  lo = -T.INF if rng[0] is None else rng[0]
  hi = T.INF if rng[1] is None else rng[1]
  if kind == 'text':
    return st, C('text'), None
  p = T.var(name, lo, hi)
  if kind == 'float':
    return st, N(p), p
  if kind == 'timedelta':
    return st, TD(p), p
  v = unit(I, st, kind, p)
  st.roots = st.roots + (v,)
  return st, v, p


def as_kind(I, st, v):
  """(kind, term in base units) of a result."""
  if isinstance(v, (N,)) or isinstance(v, C) and num(v) is not None:
    return 'float', num(v)
  if isinstance(v, TD):
    return 'timedelta', v.p
  c = I.self_class(v, st)
  if c is not None and c.name in BASE:
    return c.name, readn(I, st, v, BASE[c.name])
  return str(v), None


def p26(r, tier):
  """Quantities convert exactly and combine only as their dimensions allow."""
  I = load(False, False)
  nz = (1, 10**6)
  for cls, units in SCALES.items():
    for n, k in units.items():
      st = I.start()
      x = T.var('x')
      outs, exc = outcomes(I, lambda: I.call(I.lookup(U + cls), [], {n: N(x)}, st.fork(), None))
      what = '%s(%s=x)' % (cls, n)
      if not outs or exc:
        r.fail('constructs', what, UF, str(exc[:1]))
        continue
      for s, v in outs:
        for m, k2 in units.items():
          got = readn(I, s, v, m)
          ok = got is not None and T.close(got, x.scale(Fraction(k) / Fraction(k2)), 1e-9)
          r.check(True if ok else None if lossy_term(got) or got is None else False,
                  'conversion', '%s.%s' % (what, m), UF, show(got))
    outs, exc = outcomes(I, lambda: I.call(I.lookup(U + cls), [N(T.var('x'))], {}, I.start(), None))
    r.check(not outs, 'bare-number-rejected', cls, UF, 'a number without a unit is accepted')
  for a in KINDS:
    for b in KINDS:
      if a not in BASE and b not in BASE:
        continue
      for op in BINOPS:
        binary(I, r, a, op, b, nz)
      for op in CMPOPS:
        comparison(I, r, a, op, b)
  helpers(I, r)
  r.took(I)


def binary(I, r, a, op, b, rng):
  st = I.start()
  st, va, pa = operand(I, st, a, 'a', rng)
  st, vb, pb = operand(I, st, b, 'b', rng)
  what = '%s %s %s' % (a, op, b)
  outs, exc = outcomes(I, lambda: I.binop(op, va, vb, st, None))
  want = ALGEBRA.get((a, op, b))
  if want is None:
    bad = [as_kind(I, s, v)[0] for s, v in outs]
    v = not outs and bool(exc)
    if outs and any(lossy(v_) for _, v_ in outs):
      v = None
    return r.check(v, 'meaningless-operation-raises', what, UF, 'evaluates to %s' % bad)
  if not outs or exc:
    return r.fail('operation-defined', what, UF, 'raises %s' % exc[:1])
  for s, v in outs:
    k, p = as_kind(I, s, v)
    if k != want[0]:
      r.check(None if lossy(v) else False, 'operation-kind', what, UF, 'a %s, not a %s' % (k, want[0]))
      continue
    r.ok('operation-kind', what)
    r.check(same(s, p, want[1](pa, pb)), 'operation-value', what, UF, show(p))
    for q, old, kd in ((va, pa, a), (vb, pb, b)):
      if kd in BASE:
        r.check(same(s, readn(I, s, q, BASE[kd]), old), 'operands-unchanged', what, UF)


def comparison(I, r, a, op, b):
  st = I.start()
  st, va, pa = operand(I, st, a, 'a')
  st, vb, pb = operand(I, st, b, 'b')
  what = '%s %s %s' % (a, op, b)
  eq = op in ('==', '!=')
  if a == b and not eq and op not in ORDER[a]:
    return
  if a != b and eq and a not in BASE:
    return      # the left operand's own comparison, not the quantity's
  if a == b and eq:
    # Equal quantities compare equal, clearly different ones do not.
    for d, exp in ((0, True), (Fraction(1, 1000), False), (Fraction(-1, 1000), False)):
      st2 = st.fork()
      st2, vc, _ = operand(I, st2, a, 'c')
      vd = unit(I, st2, a, T.var('c') + T.const(d)) if d else unit(I, st2, a, T.var('c'))
      st2.roots = st2.roots + (vd,)
      verdicts(I, r, op, vc, vd, st2, exp == (op == '=='), '%s with difference %s' % (what, float(d)))
    return
  if a == b:
    for rel, exp in (('<', op in ('<', '<=')), ('>', op in ('>', '>=')), ('==', op in ('<=', '>='))):
      st2 = st.fork()
      st2.assume(rel, pa, pb)
      if rel == '==':
        vb2 = va
      else:
        vb2 = vb
      verdicts(I, r, op, va, vb2, st2, exp, '%s when %s' % (what, rel))
    return
  outs, exc = outcomes(I, lambda: I.compare(op, va, vb, st, None))
  v = not outs and bool(exc)
  if outs and any(lossy(x) for _, x in outs):
    v = None
  r.check(v, 'meaningless-comparison-raises', what, UF, str([x for _, x in outs][:2]))


def verdicts(I, r, op, a, b, st, exp, what):
  outs, exc = outcomes(I, lambda: I.compare(op, a, b, st, None))
  if not outs or exc:
    r.fail('comparison-defined', what, UF, str(exc[:1]))
  for s, v in outs:
    for s2, t in I.truth(v, s, None):
      r.check(t == exp if isinstance(t, bool) else None, 'comparison-value', what, UF, str(t))


def helpers(I, r):
  """Functions on quantities and UTC times."""
  st = I.start()
  st, d, p = operand(I, st, 'Distance', 'd')
  for s, v in I.call(I.lookup(U + 'distance_to_degrees'), [d], {}, st.fork(), None):
    r.check(same(s, num(v), p.scale(Fraction(1, 111000))), 'degrees', '111 km per degree', UF, str(v))
  st, e, q = operand(I, st, 'Distance', 'e')
  for s, v in I.call(I.lookup(U + 'relative_distance'), [d, e], {}, st.fork(), None):
    k, g = as_kind(I, s, v)
    r.check(k == 'Distance', 'distance-kind', 'relative_distance', UF, k)
    r.check(same(s, g, T.power(p * p + q * q, Fraction(1, 2))), 'distance-norm', 'relative_distance', UF, show(g))
  for s, v in I.call(I.lookup(U + 'timedelta_to_hours'), [TD(T.var('t'))], {}, st.fork(), None):
    r.check(same(s, num(v), T.var('t').scale(Fraction(1, 3600))), 'hours', 'timedelta_to_hours', UF)
  for s, v in I.call(I.lookup(U + 'datetime_from_timestamp'), [N(T.var('t'))], {}, st.fork(), None):
    ok = isinstance(v, DT) and bool(v.tz)
    r.check(ok, 'aware-time', 'datetime_from_timestamp', UF, str(v))
    if ok:
      r.check(same(s, v.p, T.var('t')), 'timestamp', 'datetime_from_timestamp', UF, show(v.p))
  fields = [C(2020), C(2), C(29), C(23), C(59), C(58), C(7)]
  exp = T.const(1583020798)
  for what, kw in (('by default', {}), ('with tzinfo=None', {'tzinfo': NONE}),
                   ('with tzinfo=utc', {'tzinfo': X('datetime.timezone.utc')})):
    outs, exc = outcomes(I, lambda: I.call(I.lookup(U + 'datetime'), fields, kw, st.fork(), None))
    if not outs or exc:
      r.fail('datetime-defined', what, UF, str(exc[:1]))
    for s, v in outs:
      if not isinstance(v, DT):
        r.check(None if lossy(v) else False, 'datetime-utc', what, UF, str(v))
        continue
      r.check(bool(v.tz), 'datetime-utc', what, UF, 'a naive time')
      r.check(same(s, v.p, exp), 'datetime-value', what, UF, show(v.p))


# ------------------------------------------------------------------ the sun
SF = 'env/balloon/solar.py'
HORIZON = Fraction('-4.242')


class Domain:
  """Collects the calls of partial functions and whether their arguments stay in the domain.

  An inverse sine or cosine is in its domain whatever the rounding if its argument is clipped, is
  a product of factors within [-1, 1], or stays strictly inside.
  """

  def __init__(self, I):
    self.I, self.seen = I, {}
    I.on_event = self.event

  def event(self, st, kind, d):
    if kind != 'math' or d['fn'] not in ('asin', 'acos', 'sqrt', 'log'):
      return
    p = d['arg']
    v = None
    if p is not None:
      i = st.facts.iv(p)
      if d['fn'] == 'sqrt':
        v = True if i.lo >= 0 else None
      elif d['fn'] == 'log':
        v = True if i.lo > 0 else None
      elif i.lo > -1 and i.hi < 1:
        v = True
      elif len(p.terms) == 1:
        (m, c), = p.terms.items()
        ivs = [st.facts.atom_iv(a) for a, e in m if e > 0]
        v = True if len(ivs) == len(m) and abs(c) <= 1 and all(
            j.lo >= -1 and j.hi <= 1 for j in ivs) else None
      if v is None and not lossy_term(p):
        v = False
    key = (d['fn'], self.I.where(d['node'], st))
    old = self.seen.get(key, True)
    self.seen[key] = False if v is False or old is False else None if v is None or old is None else True

  def report(self, r, rule):
    for (fn, w), v in sorted(self.seen.items(), key=str):
      r.check(v, rule, '%s(%s)' % (short(w), fn), w, 'the argument can leave the domain')


def short(w):
  """file (function) of an analysed place, without the line."""
  w = str(w).replace('balloon_learning_environment/', '')
  return w.split(':')[0] + (' ' + w[w.index('('):] if '(' in w else '')


def within(r, st, p, lo, hi, rule, what, where):
  i = st.facts.iv(p) if p is not None else None
  if p is not None and (lo is None or i.lo >= lo) and (hi is None or i.hi <= hi):
    return r.check(True, rule, what, where)
  a = holds(st, '>=', p, lo) if lo is not None else True
  b = holds(st, '<=', p, hi) if hi is not None else True
  v = False if a is False or b is False else None if a is None or b is None else True
  return r.check(v, rule, what, where, '%s in %s' % (show(p), i))


def p27(r, tier):
  """The sun's elevation, attenuation, shadow and the power from the panels."""
  I = load(False, False)
  dom = Domain(I)
  st = I.start()
  ll = mk_latlng(st, T.var('lat', -T.PI / 2, T.PI / 2), T.var('lng', -T.PI, T.PI))
  t = DT(T.var('t'), True)
  for s, y in I.getattr(t, 'year', st, None):
    st = s
    st.assume('>=', num(y), T.const(1950))
    st.assume('<=', num(y), T.const(2100))
  mt, T.MAXTERMS = T.MAXTERMS, 12     # long sums of calendar terms stay folded
  try:
    outs, exc = outcomes(I, lambda: I.call(I.lookup(SOLAR + 'solar_calculator'), [ll, t], {}, st.fork(), None))
  finally:
    T.MAXTERMS = mt
  r.check(bool(outs) and not exc, 'calculator-defined', 'valid place and aware time', SF, str(exc[:1]))
  for s, v in outs:
    if not isinstance(v, Tup) or len(v.items) != 3:
      r.fail('calculator-result', 'three values', SF, str(v)[:200])
      continue
    el, az, fl = (num(x) for x in v.items)
    within(r, s, el, -90, 90, 'elevation-range', 'solar_calculator', SF)
    within(r, s, az, 0, 360, 'azimuth-range', 'solar_calculator', SF)
    within(r, s, fl, 1300, 1430, 'flux-range', 'solar_calculator', SF)
    r.check(not mentions_var(fl, ('lat', 'lng')), 'flux-depends-on-time-only', 'solar_calculator', SF)
  dom.report(r, 'inverse-in-domain')
  I.on_event = None
  outs, exc = outcomes(I, lambda: I.call(I.lookup(SOLAR + 'solar_calculator'), [ll, DT(T.var('t'), False)],
                                         {}, st.fork(), None))
  r.check(not outs and bool(exc), 'naive-time-rejected', 'solar_calculator', SF)
  e = Fraction(1, 100)
  for lat, lng in ((T.PI / 2 + e, 0), (-T.PI / 2 - e, 0), (0, T.PI + e), (0, -T.PI - e)):
    bad = mk_latlng(st, T.const(lat), T.const(lng))
    outs, exc = outcomes(I, lambda: I.call(I.lookup(SOLAR + 'solar_calculator'), [bad, t], {}, st.fork(), None))
    r.check(not outs and bool(exc), 'invalid-place-rejected', 'solar_calculator', SF)
  attenuation(I, r)
  shadow_power(I, r)
  r.took(I)


def mentions_var(p, names):
  return any(n in T.show(p, 60) for n in names) if p is not None else False


def attenuation(I, r):
  fn = I.lookup(SOLAR + 'solar_atmospheric_attenuation')
  for what, el, p, ok in (('elevation above 90', (90.001, 180), (0, 101325), False),
                          ('elevation below -90', (-180, -90.001), (0, 101325), False),
                          ('pressure above 101325', (-90, 90), (101325.001, 10**6), False),
                          ('negative pressure', (-90, 90), (-10**6, -0.001), False),
                          ('below the horizon', (-90, HORIZON - Fraction(1, 10**6)), (0, 101325), 0),
                          ('above the horizon', (HORIZON, 90), (0, 101325), 1)):
    dom = Domain(I)
    st = I.start()
    pe, pp = T.var('el ' + what, *(frac(x) for x in el)), T.var('p ' + what, *(frac(x) for x in p))
    outs, exc = outcomes(I, lambda: I.call(fn, [N(pe), N(pp)], {}, st, None))
    I.on_event = None
    if ok is False:
      r.check(not outs and bool(exc), 'out-of-range-rejected', what, SF)
      continue
    r.check(bool(outs) and not exc, 'in-range-accepted', what, SF, str(exc[:1]))
    dom.report(r, 'inverse-in-domain')
    for s, v in outs:
      if not ok:
        r.check(same(s, num(v), T.ZERO), 'dark-below-horizon', what, SF, str(v))
      else:
        within(r, s, num(v), 0, 1, 'attenuation-range', what, SF)
        r.check(holds(s, '>', num(v), 0), 'light-above-horizon', what, SF)


def frac(x):
  return Fraction(str(x)) if isinstance(x, float) else Fraction(x)


def shadow_power(I, r):
  fn = I.lookup(SOLAR + 'balloon_shadow')
  st = I.start()
  dom = Domain(I)
  outs, exc = outcomes(I, lambda: I.call(fn, [N(T.var('el', -90, 90)), N(T.var('h', 0, 20))], {}, st.fork(), None))
  dom.report(r, 'inverse-in-domain')
  I.on_event = None
  r.check(bool(outs) and not exc, 'in-range-accepted', 'balloon_shadow', SF, str(exc[:1]))
  for s, v in outs:
    r.check(same(s, num(v), T.const(0.4392), T.ONE), 'shadow-factor', 'balloon_shadow', SF, str(v))
  for el, h, want in ((90, 3, 0.4392), (0, 3, 1), (-4, 3, 1)):
    for s, v in I.call(fn, [N(T.const(el)), N(T.const(h))], {}, st.fork(), None):
      r.check(same(s, num(v), T.const(want)), 'shadow-only-when-high', 'elevation %d' % el, SF, str(v))
  fn = I.lookup(SOLAR + 'solar_power')
  for el, p, ok in (((HORIZON, 90), (0, 101325), 1), ((-90, HORIZON - Fraction(1, 10**6)), (0, 101325), 0),
                    ((90.001, 180), (0, 101325), False), ((0, 90), (-10, -0.001), False)):
    st = I.start()
    outs, exc = outcomes(I, lambda: I.call(fn, [N(T.var('el%s' % (el,), *(frac(x) for x in el))),
                                                N(T.var('p%s' % (p,), *(frac(x) for x in p)))], {}, st, None))
    if ok is False:
      r.check(not outs and bool(exc), 'out-of-range-rejected', 'solar_power', SF)
      continue
    for s, v in outs:
      k, w = as_kind(I, s, v)
      r.check(k == 'Power', 'power-kind', 'solar_power', SF, k)
      if not ok:
        r.check(same(s, w, T.ZERO), 'no-power-below-horizon', 'solar_power', SF, show(w))
      else:
        within(r, s, w, 0, 1260, 'power-range', 'solar_power', SF)


def sun_elevation(I, st, ll, t):
  st, v = one(I.call(I.lookup(SOLAR + 'solar_calculator'), [ll, t], {}, st, None), 'solar_calculator')
  return num(v.items[0])


def sun_event_contract(noon, day=86400):
  """The next solar noon (midnight): in the near half day or the far one, depending on the afternoon."""
  def h(I, st, f, args, kw, node):
    t = args[1] if len(args) > 1 else kw['time']
    ll = args[0] if args else kw['latlng']
    if not isinstance(t, DT):
      return None
    out = []
    for s, a in I.fork_atom(T.atom('afternoon', I.vkey(ll, st), t.p), st):
      far = a == noon
      x = T.poly(T.atom('fn', 'sun.noon' if noon else 'sun.midnight', I.vkey(ll, st), t.p))
      s.assume('>=', x - t.p, T.const(day // 2 if far else 0))
      s.assume('<=', x - t.p, T.const(day if far else day // 2))
      out.append((s, Tup((DT(x, True), opaque_num(I, s, 'solar.elevation', [ll, DT(x)])))))
    return out
  return h


def sum_afternoon(I, st, f, args, kw, node):
  t = args[1] if len(args) > 1 else kw['time']
  ll = args[0] if args else kw['latlng']
  return [(s, C(a)) for s, a in I.fork_atom(T.atom('afternoon', I.vkey(ll, st), t.p), st)]


def p28(r, tier):
  """The sun's events: solar noon, midnight, sunrise, sunset and the steps to sunrise."""
  deltas = (None, 60, 600) if tier == 'thorough' else (None,)
  for d in deltas:
    sun_events(r, d)


def sun_start(I):
  st = I.start()
  ll, t = latlng_var(st, 'place'), DT(T.var('t'), True)
  st.roots = st.roots + (ll, t)
  return st, ll, t


def sun_load():
  I = load(True, False)
  I.summaries.pop(I.lookup(SOLAR + 'get_next_sunrise_sunset').fi.short, None)
  I.cap = 64
  return I


def sun_events(r, delta):
  I = sun_load()
  st, ll, t = sun_start(I)
  tag = '' if delta is None else ' (resolution %d s)' % delta
  kw = {} if delta is None else {'time_delta': TD(T.const(delta))}
  # The afternoon: the elevation falls.
  outs, exc = outcomes(I, lambda: I.call(I.lookup(SOLAR + 'is_solar_afternoon'), [ll, t], {}, st.fork(), None))
  r.check(bool(outs) and not exc, 'defined', 'is_solar_afternoon', SF, str(exc[:1]))
  vals = set()
  for s, v in outs:
    for s2, b in I.truth(v, s, None):
      e0, e1 = sun_elevation(I, s2, ll, t), sun_elevation(I, s2, ll, DT(t.p + T.ONE, True))
      vals.add(b)
      r.check(holds(s2, '<' if b else '>=', e1, e0), 'afternoon-is-falling-sun', str(b), SF)
  r.check(vals == {True, False}, 'afternoon-decides', 'both answers', SF)
  # Noon and midnight, in the half day the afternoon tells.
  for noon, fn in ((True, 'get_next_solar_noon'), (False, 'get_next_solar_midnight')):
    J = sun_load()
    sj, llj, tj = sun_start(J)
    fn_summary(J, SOLAR + 'is_solar_afternoon', sum_afternoon)
    at = T.atom('afternoon', J.vkey(llj, sj), tj.p)
    outs, exc = outcomes(J, lambda: J.call(J.lookup(SOLAR + fn), [llj, tj], dict(kw), sj.fork(), None))
    what = fn + tag
    r.check(bool(outs) and not exc, 'defined', what, SF, str(exc[:1]))
    for s, v in outs:
      if not (isinstance(v, Tup) and len(v.items) == 2 and isinstance(v.items[0], DT)):
        r.check(None if lossy(v) else False, 'time-and-elevation', what, SF, str(v)[:200])
        continue
      x = v.items[0].p
      for s2, a in J.fork_atom(at, s):
        far = a == noon
        within(r, s2, x - tj.p, 43200 if far else 0, 86400 if far else 43200, 'event-in-its-half-day',
               '%s, afternoon %s' % (what, a), SF)
      r.check(same(s, num(v.items[1]), sun_elevation(J, s, llj, v.items[0])), 'elevation-at-event', what, SF)
    r.took(J)
  fn_summary(I, SOLAR + 'is_solar_afternoon', sum_afternoon)
  fn_summary(I, SOLAR + 'get_next_solar_noon', sun_event_contract(True))
  fn_summary(I, SOLAR + 'get_next_solar_midnight', sun_event_contract(False))
  outs, exc = outcomes(I, lambda: I.call(I.lookup(SOLAR + 'get_next_sunrise_sunset'), [ll, t], dict(kw),
                                         st.fork(), None))
  what = 'get_next_sunrise_sunset' + tag
  r.check(bool(outs), 'defined', what, SF)
  for s, v in outs:
    if not (isinstance(v, Tup) and len(v.items) == 2 and all(isinstance(x, DT) for x in v.items)):
      r.check(None if lossy(v) else False, 'two-times', what, SF, str(v)[:200])
      continue
    for c in sorted(search_targets(s)):
      r.check(c == HORIZON, 'searches-the-horizon', 'target elevation %s' % float(c), SF,
              'sunrise and sunset are where the sun is at %s degrees' % float(HORIZON))
    for n, x in zip(('sunrise', 'sunset'), v.items):
      d = x.p - t.p
      ok = s.facts.iv(d).lo >= 0
      r.check(True if ok else proved_below(s, d, 0), 'not-in-the-past', '%s of %s' % (n, what), SF,
              '%s in %s' % (show(d)[:200], s.facts.iv(d)))
      r.check(bool(x.tz), 'aware-time', '%s of %s' % (n, what), SF)
  # Latitudes at which the sun may never rise or set are refused; all others are accepted.
  for lat in (61, -61, 80):
    bad = mk_latlng(st, T.const(T.PI * lat / 180), T.ZERO)
    outs, exc = outcomes(I, lambda: I.call(I.lookup(SOLAR + 'get_next_sunrise_sunset'), [bad, t], dict(kw),
                                           st.fork(), None))
    r.check(not outs and bool(exc), 'polar-latitude-refused', 'latitude %d' % lat, SF)
  steps(I, r, st, ll, t, delta, kw, tag)
  r.took(I)


def search_targets(st):
  """Elevations whose distance |elevation - target| the path compared."""
  res = set()
  for p in st.facts.b:
    for m in p.terms:
      for a, _ in m:
        if a.op == 'abs' and 'solar.elevation' in repr(a.args[0].terms):
          k, rest = a.args[0].split()
          if len(rest.terms) == 1 and abs(next(iter(rest.terms.values()))) == 1:
            res.add(-k / next(iter(rest.terms.values())))
  return res


def proved_below(st, p, lo):
  """False only if the term is certainly below on a reachable path; None otherwise."""
  i = st.facts.iv(p)
  return False if i.hi < lo or (i.lo < lo and i.lo != -T.INF and not i.lopen) else None


def steps(I, r, st, ll, t, delta, kw, tag):
  """Zero while the sun is up, else the time to the next sunrise in steps, rounded up."""
  st = st.fork()
  fn_summary(I, SOLAR + 'get_next_sunrise_sunset', sum_sunrise_sunset)
  el = sun_elevation(I, st, ll, t)
  outs, exc = outcomes(I, lambda: I.call(I.lookup(SOLAR + 'calculate_steps_to_sunrise'), [ll, t], dict(kw),
                                         st.fork(), None))
  what = 'calculate_steps_to_sunrise' + tag
  r.check(bool(outs) and not exc, 'defined', what, SF, str(exc[:1]))
  d = delta or 180
  for s, v in outs:
    up = s.facts.decide('>=', el, T.const(HORIZON))
    if up is None:
      r.fail('steps-zero-iff-sun-up', what, SF, 'not decided by the elevation')
      continue
    p = num(v)
    if up:
      r.check(same(s, p, T.ZERO), 'steps-zero-iff-sun-up', what, SF, str(v))
      continue
    _, w = one(sum_sunrise_sunset(I, s, None, [ll, t], {}, None))
    q = (w.items[0].p - t.p).scale(Fraction(1, d))
    r.check(None if p is None else holds(s, '>=', p, 0), 'steps-nonnegative', what, SF, show(p))
    r.check(same(s, p, T.poly(T.atom('ceil', q, isint=True))), 'steps-rounded-up', what, SF, show(p))


# ------------------------------------------------------------------ the standard atmosphere
AF = 'env/balloon/standard_atmosphere.py'
LOW_M, HIGH_M = -610, 85000


def atm_scene(prepare=None):
  I = load(False, False)
  if prepare is not None:
    prepare(I)
  st = I.start()
  outs = I.call(I.lookup(ATM + 'Atmosphere'), [O(T.atom('key', 'atmosphere'), 'key')], {}, st, None)
  return I, [(s, a) for s, a in outs]


def p29(r, tier):
  """The atmosphere, for every sampled lapse rate: consistent, continuous, decreasing, invertible."""
  I, scenes = atm_scene()
  r.check(bool(scenes), 'defined', 'Atmosphere(key)', AF)
  for st, A in scenes:
    st.roots = st.roots + (A,)
    atmosphere_scene(I, r, st, A)
    # reset for another episode
    for s, _ in I.call_method(A, 'reset', [O(T.atom('key', 'atmosphere of another episode'), 'key')], {}, st.fork(), None):
      atmosphere_scene(I, r, s, A)
  r.took(I)


def atmosphere_scene(I, r, st, A):
  h = T.var('height', LOW_M, HIGH_M, False, True)
  at_h = lambda p, s: outcomes(I, lambda: I.call_method(A, 'at_height', [unit(I, s, 'Distance', p)], {}, s, None))
  outs, exc = at_h(h, st.fork())
  r.check(bool(outs) and not exc, 'every-height-accepted', 'at_height', AF, str(exc[:1]))
  pieces = []
  for s, v in outs:
    H, p, t, d = (readn(I, s, v, f) for f in ('height.meters', 'pressure', 'temperature', 'density'))
    i = s.facts.iv(h)
    name = 'heights %s' % i
    r.check(same(s, H, h), 'height-kept', name, AF, show(H))
    within(r, s, t, 150, 320, 'temperature-range', name, AF)
    r.check(None if p is None else positive(s, p), 'pressure-positive', name, AF)
    c = None if None in (p, t, d) or d is T.ZERO else T.div(p, d * t).const
    r.check(None if c is None and (p is None or d is None or lossy_term(d)) else
            c is not None and abs(float(c) - 287.06) < 0.2, 'ideal-gas', name, AF, 'p/(density*T) = %s' % c)
    pieces.append((i, s, p, t))
    # Pressure back to height.
    o2, e2 = outcomes(I, lambda: I.call_method(A, 'at_pressure', [N(p)], {}, s.fork(), None))
    r.check(bool(o2) and not e2, 'every-pressure-accepted', name, AF, str(e2[:1]))
    for s2, v2 in o2:
      for f, x in (('height.meters', h), ('pressure', p), ('temperature', t), ('density', d)):
        r.check(same(s2, readn(I, s2, v2, f), x), 'inverse', '%s at %s' % (f, name), AF,
                show(readn(I, s2, v2, f))[:200])
    # Within a layer the pressure falls.
    if h_atom(h) is not None and p is not None:
      s3 = s.fork()
      x = T.var('lower %s' % i, i.lo, i.hi, False, True)
      y = x + T.var('climb %s' % i, 0, i.hi - i.lo, True, False)
      px, py = (T.subst(p, {h_atom(h): z}) for z in (x, y))
      dec = s3.facts.decide('>', px, py)
      r.check(True if dec is True else False if dec is False else None, 'pressure-falls', name, AF)
  pieces.sort(key=lambda q: q[0].lo)
  edges = [q[0].lo for q in pieces] + [pieces[-1][0].hi] if pieces else []
  cover = bool(pieces) and edges[0] == LOW_M and edges[-1] == HIGH_M and all(
      a[0].hi == b[0].lo for a, b in zip(pieces, pieces[1:]))
  r.check(cover, 'layers-cover', 'all heights', AF, str([float(e) for e in edges]))
  for a, b in zip(pieces, pieces[1:]):
    H = T.const(a[0].hi)
    for n, k in (('pressure', 2), ('temperature', 3)):
      if a[k] is None or b[k] is None:
        r.undecided('continuous', n, AF)
        continue
      u, w = (T.subst(z[k], {h_atom(h): H}) for z in (a, b))
      r.check(same(st, u, w), 'continuous', '%s at %s m' % (n, float(a[0].hi)), AF,
              '%s vs %s' % (show(u)[:150], show(w)[:150]))
  for lo, hi, what in ((-10**5, LOW_M - Fraction(1, 100), 'below the lowest'), (HIGH_M, 10**6, 'above the highest')):
    o, e = at_h(T.var('height ' + what, lo, hi), st.fork())
    r.check(not o and bool(e), 'out-of-range-rejected', 'height ' + what, AF)
  for lo, hi, what in ((Fraction('108870.83'), 10**6, 'above the greatest'), (0, Fraction(1, 10**5), 'below the least')):
    o, e = outcomes(I, lambda: I.call_method(A, 'at_pressure', [N(T.var('pressure ' + what, lo, hi))], {},
                                             st.fork(), None))
    r.check(not o and bool(e), 'out-of-range-rejected', 'pressure ' + what, AF)


def positive(s, p):
  i = s.facts.iv(p)
  return True if i.lo > 0 or (i.lo == 0 and i.lopen) else holds(s, '>', p, 0)


def h_atom(p):
  (m, _), = p.terms.items()
  return m[0][0]
