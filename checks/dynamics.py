"""Vertical motion, heat, altitude-control tables, initialisation, pressure range, geometry, transforms (P30-P36)."""
from common import *
from utils import outcomes, within, Domain
import physics

BF = 'env/balloon/balloon.py'
CONST = 'utils.constants.'


def constant(I, name):
  return num(I.lookup(CONST + name))


def ordered_heights(I):
  """The contract of the atmosphere (P29): a higher pressure is at a lower height."""
  seen = []
  I.atm_ids = {}

  def h(I, st, f, args, kw, node):
    outs = sum_at_pressure(I, st, f, args, kw, node)
    if outs is None:
      return None
    p = num(args[1] if len(args) > 1 else kw.get('pressure'))
    for s, v in outs:
      x = readn(I, s, v, 'height.meters')
      for q, y in seen:
        for a, b, u, w in ((p, q, x, y), (q, p, y, x)):
          if s.facts.decide('<', a, b) is True:
            s.assume('>', u, w)
      seen.append((p, x))
    return outs
  I.summaries[ATM + 'Atmosphere.at_pressure'] = h
  return seen


class Dyn(physics.Strides):
  pass


def p30(r, tier):
  """Vertical motion, temperatures, gas and ballonet air in one stride."""
  gas(r)
  for sd in (10, 60) if tier == 'thorough' else (10,):
    vertical(r, sd)


def vertical(r, sd):
  hold = {}
  base = physics.load

  def mine():
    I = base()
    hold['seen'] = ordered_heights(I)
    return I
  physics.load = mine
  try:
    S = Dyn(seconds=sd, stride=sd)
  finally:
    physics.load = base
  I, st0 = S.I, S.st0
  physics.need(r, S)
  g0 = lambda f: S.getn(st0, f)
  M, R_, He, G = (constant(I, n) for n in ('DRY_AIR_MOLAR_MASS', 'UNIVERSAL_GAS_CONSTANT', 'HE_MOLAR_MASS', 'GRAVITY'))
  p, t, V = g0('pressure'), g0('ambient_temperature'), g0('envelope_volume')
  rho = T.div(p * M, R_ * t)
  mass = He * g0('mols_lift_gas') + M * g0('mols_air') + g0('envelope_mass') + g0('payload_mass')
  lift = rho * V
  bs = read(I, st0, S.b, 'state')
  w = physics.where(I)
  drag = g0('envelope_cod') * T.power(V, Fraction(2, 3))
  net = lift - mass
  rate, ambient = before(S, bs)
  for n, st in S.each():
    what = 'after command %s' % n
    g = lambda f: S.getn(st, f)
    dp = None if g('pressure') is None else g('pressure') - p
    up = st.facts.decide('>=', lift, mass)
    cases = [(st, up)]
    if up is None:
      cases = []
      for op, v in (('>=', True), ('<', False)):
        s = st.fork()
        s.assume(op, lift, mass)
        cases.append((s, v))
    for s, b in cases:
      r.check(holds(s, '<=' if b else '>=', dp, 0), 'rises-iff-lighter', what, w, show(dp)[:300])
      # The steady ascent rate, over the local slope of height against pressure.
      sq = T.div((net if b else -net).scale(2) * G, rho * drag)
      speeds = [T.power(x, Fraction(1, 2)) for x in (sq, T.absval(sq))]
      h = {}
      for q, x in hold['seen']:
        for k in (0, 1, -1):
          if T.close(q, p + T.const(k)):
            h[k] = x
      k = 1 if b else -1
      if 0 in h and k in h and dp is not None:
        r.check(same(s, dp, *[T.div(x.scale(sd), h[k] - h[0]) for x in speeds]), 'steady-ascent-rate', what, w, show(dp)[:300])
    want = g0('internal_temperature') + rate.scale(sd)
    r.check(same(st, g('internal_temperature'), want), 'heat-integrated', what, w, show(g('internal_temperature'))[:300])
    r.check(same(st, g('ambient_temperature'), ambient), 'ambient-from-atmosphere', what,
            w, show(g('ambient_temperature'))[:200])
    flow = g('acs_mass_flow')
    air = g0('mols_air') + T.div(flow, M).scale(sd) if flow is not None else None
    r.check(same(st, g('mols_air'), air, T.tmax([air, T.ZERO], st.facts)) if air is not None else None,
            'air-follows-mass-flow', what, w, show(g('mols_air'))[:200])
    if n == 'UP':
      hole, sp = g0('acs_valve_hole_diameter.meters'), g0('superpressure')
      dens = T.div((sp + p) * M, R_ * g0('internal_temperature'))
      want = T.power(sp.scale(2) * dens, Fraction(1, 2)) * hole * hole.scale(T.PI / 4 * Fraction('-0.62'))
      r.check(same(st, flow, want), 'vent-flow', what, w, show(flow)[:200])
    for f in ('envelope_volume_base', 'envelope_volume_dv_pressure', 'envelope_mass', 'envelope_max_superpressure',
              'envelope_cod', 'payload_mass', 'mols_lift_gas', 'upwelling_infrared', 'nighttime_power_load.watts',
              'daytime_power_load.watts', 'acs_valve_hole_diameter.meters', 'battery_capacity.watt_hours'):
      r.check(same(st, g(f), g0(f)), 'vehicle-constants-kept', f + ' ' + what, w, show(g(f))[:200])


def before(S, bs):
  """The rate of heating and the ambient temperature where the balloon is before the stride."""
  I, st = S.I, S.st0.fork()
  st, ll = one(I.getattr(bs, 'latlng', st, None), 'latlng')
  st, sol = one(I.call(I.lookup(SOLAR + 'solar_calculator'), [ll, read(I, st, bs, 'date_time')], {}, st, None))
  args = [read(I, st, bs, f) for f in ('envelope_volume', 'envelope_mass', 'internal_temperature',
                                       'ambient_temperature', 'pressure')]
  args += [sol.items[0], sol.items[2], read(I, st, bs, 'upwelling_infrared')]
  st, rate = one(I.call(I.lookup('env.balloon.thermal.d_balloon_temperature_dt'), args, {}, st, None))
  st, a = one(I.call_method(S.atmo, 'at_pressure', [read(I, st, bs, 'pressure')], {}, st, None))
  return num(rate), readn(I, st, a, 'temperature')


def gas(r):
  """The volume and superpressure solve the gas law and the envelope model."""
  I = load()
  st = I.start()
  n1, n2, t, p = (T.var('lift gas', 1, 20000), T.var('air', 0, 20000), T.var('temperature', 100, 400),
                  T.var('pressure', 1000, 20000))
  V0, k = T.var('base volume', 500, 5000), T.var('dv dp', Fraction(1, 1000), 1)
  R_ = constant(I, 'UNIVERSAL_GAS_CONSTANT')
  outs, exc = outcomes(I, lambda: I.call(I.lookup(BAL + 'calculate_superpressure_and_volume'),
                                         [N(x) for x in (n1, n2, t, p, V0, k)], {}, st, None))
  r.check(bool(outs) and not exc, 'defined', 'calculate_superpressure_and_volume', BF, str(exc[:1]))
  nrt = (n1 + n2) * R_ * t
  U = T.div(nrt, p)
  w = BF + ' (calculate_superpressure_and_volume)'
  for s, v in outs:
    if not isinstance(v, Tup) or len(v.items) != 2:
      r.check(None if lossy(v) else False, 'volume-and-superpressure', 'result', w, str(v)[:200])
      continue
    V, sp = (num(x) for x in v.items)
    full = s.facts.decide('>', U, V0)
    for f in (full,) if full is not None else (True, False):
      s2 = s.fork()
      if full is None:
        s2.assume('>' if f else '<=', U, V0)
      what = 'fully inflated' if f else 'slack'
      if V is None or sp is None:
        r.undecided('gas-law', what, w)
        continue
      if not f:
        r.check(same(s2, V, U), 'gas-law', what, w, show(V)[:200])
        r.check(same(s2, sp, T.ZERO), 'slack-has-no-superpressure', what, w, show(sp)[:200])
      else:
        r.check(same(s2, (sp + p) * V, nrt), 'gas-law', what, w, show(sp)[:200])
        r.check(same(s2, V * V, V * (V0 - k * p) + k * p * U), 'envelope-stretch', what, w, show(V)[:200])
        # With these two equations and a positive volume, superpressure > 0 and volume > base volume follow
        # from the balloon being fully inflated: a superpressure of zero or less would mean volume <= base
        # volume and inner pressure <= p, so (sp + p) V <= p V0 < p U.
        r.check(holds(s2, '>', V, 0), 'volume-positive', what, w, show(V)[:300])
  r.took(I)


# ------------------------------------------------------------------ heat
TH = 'env.balloon.thermal.'
THF = 'env/balloon/thermal.py'


def call1(I, st, dotted, *args, **kw):
  """(state, value) of a call with one outcome that does not raise; None otherwise."""
  outs, exc = outcomes(I, lambda: I.call(I.lookup(dotted), [N(a) if isinstance(a, T.Poly) else a for a in args],
                                         kw, st.fork(), None))
  return outs[0] if len(outs) == 1 and not exc else None


def callp(I, st, dotted, *args):
  o = call1(I, st, dotted, *args)
  return num(o[1]) if o else None


def p31(r, tier):
  """The balloon's heat balance."""
  I = load(False)
  st = I.start()
  x = T.var('temperature', 1, 1000)
  y = T.var('flux', Fraction(1, 100), 5000)
  f = callp(I, st, TH + 'black_body_temperature_to_flux', x)
  g = callp(I, st, TH + 'black_body_flux_to_temperature', y)
  r.check(same(st, f, T.power(x, 4).scale(Fraction('0.000000056704'))), 'stefan-boltzmann', 'flux', THF, show(f))
  r.check(None if g is None else same(st, T.power(g, 4).scale(Fraction('0.000000056704')), y), 'stefan-boltzmann',
          'temperature', THF, show(g))
  a = callp(I, st, TH + 'absorptivity_ir', x)
  b = callp(I, st, TH + 'absorptivity_ir', x + T.var('warmer', 0, 100, True))
  r.check(same(st, a, (x - T.const(210)).scale(Fraction('0.000232')) + T.const(Fraction('0.04587'))),
          'absorptivity-linear', 'absorptivity_ir', THF, show(a))
  r.check(holds(st, '>', b, a) if a is not None else None, 'absorptivity-grows', 'absorptivity_ir', THF)
  # The total absorptivity is a fraction, or an error.
  A, R_ = T.var('absorptivity', -1, 2), T.var('reflectivity', 0, Fraction(9, 10))
  outs, exc = outcomes(I, lambda: I.call(I.lookup(TH + 'total_absorptivity'), [N(A), N(R_)], {}, st.fork(), None))
  want = A + T.div(A * (T.ONE - A - R_), T.ONE - R_)
  w = THF + ' (total_absorptivity)'
  r.check(bool(outs), 'defined', 'total_absorptivity', w)
  r.check(bool(exc), 'out-of-range-rejected', 'total_absorptivity', w)
  for s, v in outs:
    r.check(same(s, num(v), want), 'absorptivity-series', 'total_absorptivity', w, show(num(v)))
    within(r, s, num(v), 0, 1, 'absorptivity-fraction', 'total_absorptivity', w)
  convection(I, r)
  balance(r)
  r.took(I)


def convection(I, r):
  st = I.start()
  rad, tb, ta = T.var('radius', 1, 50), T.var('balloon temperature', 100, 400), T.var('air temperature', 150, 320)
  p = T.var('pressure', 1000, 20000)
  w = THF + ' (convective_heat_air_factor)'
  for op, d in (('<', 'warmer air'), ('>', 'colder air'), ('==', 'equal temperatures')):
    s = st.fork()
    if op == '==':
      args = (rad, ta, ta, p)
    else:
      s.assume(op, tb, ta)
      args = (rad, tb, ta, p)
    o = call1(I, s, TH + 'convective_heat_air_factor', *args)
    if o is None:
      r.undecided('convection-sign', d, w)
      continue
    s, q = o[0], num(o[1])
    if op == '==':
      r.check(same(s, q, T.ZERO), 'convection-sign', d, w, show(q)[:300])
      continue
    k = T.exact_div(q, ta - tb) if q is not None else None     # heat per degree
    r.check(holds(s, '>', k, 0) if k is not None else holds(s, '>' if op == '<' else '<', q, 0), 'convection-sign', d,
            w, show(k or q)[:300])


def attenuation_contract(I, st, f, args, kw, node):
  """In [0, 1], zero when the sun is down (P27)."""
  a = list(args) + list(kw.values())
  if st.facts.decide('<', num(a[0]), T.const(Fraction('-4.242'))) is True:
    return [(st, C(0.0))]
  return [(st, opaque_num(I, st, 'solar.attenuation', a, rng=T.Iv(Fraction(0), Fraction(1))))]


def balance(r):
  for dark in (True, False):
    I = load(False)
    fn_summary(I, SOLAR + 'solar_atmospheric_attenuation', attenuation_contract)
    fn_summary(I, TH + 'convective_heat_air_factor', sum_number('thermal.convection'))
    st = I.start()
    V, m = T.var('volume', 100, 5000), T.var('mass', 1, 500)
    tb, ta, p = T.var('balloon temperature', 100, 400), T.var('air temperature', 150, 320), T.var('pressure', 1000, 20000)
    el = T.var('elevation' + str(dark), *((-90, -5) if dark else (-4, 90)))
    fl, er = T.var('solar flux', 0, 1500), T.var('earth flux', 50, 500)
    what = 'sun down' if dark else 'sun up'
    w = THF + ' (d_balloon_temperature_dt)'
    o = call1(I, st, TH + 'd_balloon_temperature_dt', V, m, tb, ta, p, el, fl, er)
    if o is None:
      r.fail('heating-defined', what, w, 'no single result in the documented ranges')
      continue
    r.ok('heating-defined', what)
    s, q = o[0], num(o[1])
    rad = T.power(V.scale(3 / (4 * T.PI)), Fraction(1, 3))
    area = (rad * rad).scale(4 * T.PI)
    tot = lambda a: callp(I, s, TH + 'total_absorptivity', a, T.const(Fraction('0.0291')))
    ir = lambda t: callp(I, s, TH + 'absorptivity_ir', t)
    att = callp(I, s, SOLAR + 'solar_atmospheric_attenuation', el, p)
    conv = callp(I, s, TH + 'convective_heat_air_factor', rad, tb, ta, p)
    et = callp(I, s, TH + 'black_body_flux_to_temperature', er)
    parts = (tot(T.const(Fraction('0.01435'))), tot(ir(et)) if et is not None and ir(et) is not None else None,
             tot(ir(tb)) if ir(tb) is not None else None, att, conv)
    if q is None or any(x is None for x in parts):
      r.undecided('heat-balance', what, w)
      continue
    sun = fl * att.scale(Fraction('0.25')) * parts[0]
    earth = er.scale(Fraction('0.4605')) * parts[1]
    emit = callp(I, s, TH + 'black_body_temperature_to_flux', tb) * parts[2]
    want = T.div(area * (sun + earth + conv - emit), m.scale(1500))
    r.check(same(s, q, want), 'heat-balance', what, w, show(q)[:300])
    q2 = T.subst(q, {atom_of(fl): fl + T.var('more sun', 0, 100)})
    if dark:
      r.check(same(s, q2, q), 'no-solar-heat-without-sun', what, w)
    else:
      r.check(holds(s, '>=', q2, q), 'sun-heats', what, w)
    r.check(same(s, T.subst(q, {atom_of(m): m.scale(2)}).scale(2), q), 'heavier-heats-slower', what, w)
    r.took(I)


def atom_of(p):
  (m, _), = p.terms.items()
  return m[0][0]


# ------------------------------------------------------------------ tables
PT = 'env/balloon/power_table.py'
ACS = 'env/balloon/acs.py'


def p32(r, tier):
  """The power table and the altitude control system's tables."""
  I = load()
  fn = I.lookup('env.balloon.power_table.lookup')
  ratios = [Fraction(x) for x in ('0.99', '1.08', '1.11', '1.14', '1.17', '1.2', '1.23', '1.26', '5')]
  full = []
  for lo, hi in zip(ratios, ratios[1:]):
    pr = T.var('ratio from %s' % float(lo), lo, hi, False, hi < 5)
    last = None
    for k in range(10):
      st = I.start()
      soc = T.var('charge from %d/10' % k, Fraction(k, 10), Fraction(k + 1, 10), False, k < 9)
      what = 'ratio from %s, charge from %s' % (float(lo), k / 10)
      outs, exc = outcomes(I, lambda: I.call(fn, [N(pr), N(soc)], {}, st.fork(), None))
      r.check(bool(outs) and not exc, 'every-ratio-accepted', what, PT, str(exc[:1]))
      ivs = []
      for s, v in outs:
        p = num(v)
        within(r, s, p, 0, 350, 'power-range', what, PT)
        if k < 3:
          r.check(holds(s, '==', p, 0), 'no-power-at-low-charge', what, PT, show(p))
        ivs.append(s.facts.iv(p) if p is not None and not lossy_term(p) else None)
      if None in ivs or not ivs:
        last = None
        continue
      i = (min(x.lo for x in ivs), max(x.hi for x in ivs))
      if last:
        r.check(i[0] >= last[1], 'more-charge-more-power', what, PT, 'from %s to %s W' % (float(last[1]), float(i[0])))
      last = i
    full.append((lo, last))
  for (a, i), (b, j) in zip(full, full[1:]):
    r.check(i[1] <= j[0] if i and j else None, 'power-grows-with-ratio-at-full-charge', 'ratio from %s' % float(b), PT)
  st = I.start()
  soc = T.var('charge', 0, 1)
  for lo, hi in ((0, Fraction('0.989')), (Fraction('5.001'), 100)):
    outs, exc = outcomes(I, lambda: I.call(fn, [N(T.var('bad ratio %s' % float(lo), lo, hi)), N(soc)], {}, st.fork(), None))
    r.check(not outs and bool(exc), 'ratio-out-of-range-rejected', 'from %s' % float(lo), PT)
  fan(I, r, st)
  r.took(I)


def fan(I, r, st):
  x = T.var('pressure ratio', 1, 3)
  for s, v in I.call(I.lookup('env.balloon.acs.get_most_efficient_power'), [N(x)], {}, st.fork(), None):
    p = readn(I, s, v, 'watts')
    w = ACS + ' (get_most_efficient_power)'
    within(r, s, p, 100, 400, 'fan-power-range', 'get_most_efficient_power', w)
    if p is None:
      continue
    at = lambda q: s.facts.iv(T.subst(p, {atom_of(x): T.const(q)}))
    for q, want in ((1, 100), (Fraction('1.05'), 100), (Fraction('1.2'), 300), (Fraction('1.25'), 400), (2, 400)):
      i = at(q)
      r.check(None if lossy_term(p) else abs(i.lo - want) < 1e-6 and abs(i.hi - want) < 1e-6, 'fan-power-table',
              'ratio %s' % float(q), w, str(i))
    steps = [at(1 + Fraction(k, 40)) for k in range(40)]
    if not lossy_term(p):
      for k, (a, b) in enumerate(zip(steps, steps[1:])):
        r.check(b.lo >= a.hi - Fraction(1, 10**9), 'fan-power-grows', 'from ratio %s' % (1 + k / 40), w)
  pw = unit(I, st, 'Power', T.var('fan power', 100, 400))
  for s, v in I.call(I.lookup('env.balloon.acs.get_fan_efficiency'), [N(x), pw], {}, st.fork(), None):
    within(r, s, num(v), 0, Fraction(4, 10), 'efficiency-range', 'get_fan_efficiency', ACS)
  e = T.var('efficiency', 0, 1)
  for s, v in I.call(I.lookup('env.balloon.acs.get_mass_flow'), [pw, N(e)], {}, st.fork(), None):
    r.check(same(s, num(v), e * T.var('fan power', 100, 400).scale(Fraction(1, 3600))), 'mass-flow', 'get_mass_flow', ACS,
            show(num(v)))


# ------------------------------------------------------------------ initialisation
SI = 'env.balloon.stable_init.'
SIF = 'env/balloon/stable_init.py'
STABLE = ('ambient_temperature', 'internal_temperature', 'mols_air', 'envelope_volume', 'superpressure')
DRIFT = ('x.meters', 'y.meters', 'pressure', 'mols_lift_gas', 'battery_charge.watt_hours', 'battery_capacity.watt_hours',
         'upwelling_infrared', 'time_elapsed', 'date_time', 'envelope_volume_base', 'envelope_volume_dv_pressure',
         'envelope_mass', 'envelope_max_superpressure', 'envelope_cod', 'payload_mass', 'acs_power.watts', 'acs_mass_flow',
         'solar_charging.watts', 'power_load.watts', 'nighttime_power_load.watts', 'daytime_power_load.watts')


def p33(r, tier):
  """A cold-started balloon floats."""
  I = load()
  I.atm_ids = {}
  I.cap = 24
  calls = []

  def rate(I, st, f, args, kw, node):
    a = list(args) + list(kw.values())
    x = opaque_num(I, st, 'thermal.dT', a)
    calls.append([num(v) for v in a] + [num(x)])
    return [(st, x)]
  fn_summary(I, TH + 'd_balloon_temperature_dt', rate)

  def volume(I, st, f, args, kw, node):
    a = list(args) + list(kw.values())
    v = opaque_num(I, st, 'gas.volume', a, rng=T.Iv(Fraction(0), T.INF, True))
    return [(st, Tup((v, opaque_num(I, st, 'gas.superpressure', a, rng=T.Iv(Fraction(0))))))]
  fn_summary(I, BAL + 'calculate_superpressure_and_volume', volume)
  st = I.start()
  st, b, bs = balloon(I, st)
  st, atmo = atmosphere(I, st)
  st.roots = st.roots + (atmo,)
  g0 = lambda f: readn(I, st, bs, f)
  M, R_, He = (constant(I, n) for n in ('DRY_AIR_MOLAR_MASS', 'UNIVERSAL_GAS_CONSTANT', 'HE_MOLAR_MASS'))
  w = SIF + ' (cold_start_to_stable_params)'
  s1, ll = one(I.getattr(bs, 'latlng', st.fork(), None), 'latlng')
  s1, sol = one(I.call(I.lookup(SOLAR + 'solar_calculator'), [ll, read(I, s1, bs, 'date_time')], {}, s1, None))
  s1, a = one(I.call_method(atmo, 'at_pressure', [read(I, s1, bs, 'pressure')], {}, s1, None))
  amb = readn(I, s1, a, 'temperature')
  outs, exc = outcomes(I, lambda: I.call(I.lookup(SI + 'cold_start_to_stable_params'), [bs, atmo], {}, st.fork(), None))
  r.check(bool(outs) and not exc, 'defined', 'cold_start_to_stable_params', w, str(exc[:1]))
  r.check(bool(calls) or None, 'defined', 'heat equation used', w)
  want = (g0('envelope_volume_base'), g0('envelope_mass'), None, amb, g0('pressure'), num(sol.items[0]),
          num(sol.items[2]), g0('upwelling_infrared'))
  names = ('volume', 'mass', None, 'air temperature', 'pressure', 'elevation', 'solar flux', 'earth flux')
  for c in calls:
    for n, x, y in zip(names, c, want):
      if n:
        r.check(same(st, x, y), 'heat-equation-inputs', n, w, show(x))
  mass = g0('envelope_mass') + g0('payload_mass') + He * g0('mols_lift_gas')
  free = T.div(T.div(g0('pressure') * M * g0('envelope_volume_base'), R_ * amb) - mass, M)
  for s, _ in outs:
    g = lambda f: readn(I, s, bs, f)
    r.check(same(s, g('ambient_temperature'), amb), 'ambient-from-atmosphere', 'cold start', w, show(g('ambient_temperature')))
    air = g('mols_air')
    r.check(holds(s, '>=', air, 0), 'air-nonnegative', 'cold start', w, show(air))
    r.check(same(s, air, T.tmax([free, T.ZERO], s.facts)) if s.facts.decide('>=', free, T.ZERO) is None else
            same(s, air, free if s.facts.decide('>=', free, T.ZERO) else T.ZERO), 'floats-at-its-pressure', 'cold start', w,
            show(air))
    args = [read(I, s, bs, f) for f in ('mols_lift_gas', 'mols_air', 'internal_temperature', 'pressure',
                                        'envelope_volume_base', 'envelope_volume_dv_pressure')]
    if any(x is None or num(x) is None for x in args):
      r.undecided('gas-state-consistent', 'cold start', w)
    else:
      _, v = one(volume(I, s.fork(), None, args, {}, None))
      for f, x in zip(('envelope_volume', 'superpressure'), v.items):
        r.check(same(s, g(f), num(x)), 'gas-state-consistent', f, w, show(g(f))[:300])
    for f in DRIFT:
      r.check(same(s, g(f), g0(f)), 'nothing-else-changes', f, w, show(g(f))[:200])
    for f in ('status', 'last_command', 'power_safety_layer_enabled'):
      r.check(str(read(I, s, bs, f)) == str(read(I, st, bs, f)), 'nothing-else-changes', f, w)
  converged(I, r, calls)
  r.took(I)


def converged(I, r, calls):
  """From two rates around the first estimate the next one is the Newton step towards a rate of zero."""
  if len(calls) < 4:
    return
  a, b = calls[:2]
  if None in (a[2], b[2]) or a[2].const is None or b[2].const is None or a[2].const == b[2].const:
    return
  mid = (a[2] + b[2]).scale(Fraction(1, 2))
  for c, d in zip(calls[2::2], calls[3::2]):
    if c[2] is None or d[2] is None:
      continue
    nxt = (c[2] + d[2]).scale(Fraction(1, 2))
    if nxt is mid:
      continue
    x = nxt - mid
    y = b[-1] - a[-1]
    z = T._cancel(x, y) or x * y
    want = (a[-1] + b[-1]).scale(Fraction(-1, 2)) * (b[2] - a[2])
    r.check(same(I.start(), z, want), 'equilibrium-temperature-step', 'towards a rate of zero', SIF, show(nxt)[:300])
    return


# ------------------------------------------------------------------ the accessible pressures
PR = 'env.balloon.pressure_range_builder.'
PRF = 'env/balloon/pressure_range_builder.py'


SAFE = Fraction(250)
PMAX, TEMP = Fraction(11400), Fraction(210)


def flat_atmosphere(I):
  """A concrete atmosphere: isothermal, the altitude floor at 11,400 Pa."""
  def at_pressure(I, st, f, args, kw, node):
    p = args[1] if len(args) > 1 else kw['pressure']
    return I.call(I.lookup(ATM + 'AtmosphericValues'), [unit(I, st, 'Distance', T.const(15240)), N(T.const(TEMP)), p,
                                                        N(T.ONE)], {}, st, None)

  def at_height(I, st, f, args, kw, node):
    h = args[1] if len(args) > 1 else kw['height']
    p = T.const(PMAX) if T.close(unit_val(I, st, h, 'meters') or T.ZERO, T.const(15240), 1e-6) else T.var('?pressure')
    return I.call(I.lookup(ATM + 'AtmosphericValues'), [h, N(T.const(TEMP)), N(p), N(T.ONE)], {}, st, None)
  I.summaries[ATM + 'Atmosphere.at_pressure'] = at_pressure
  I.summaries[ATM + 'Atmosphere.at_height'] = at_height


def p34(r, tier):
  """Both ends of the accessible pressure range have a safe superpressure."""
  runs = (0, 1, 2, 3, 6) if tier == 'thorough' else (0, 1, 2)
  for a in runs:
    for b in runs:
      for ka in ('low', 'high') if a else ('-',):
        for kb in ('low', 'high') if b else ('-',):
          profile(r, a, ka, b, kb)
  profile(r, 100, 'low', 0, '-')
  profile(r, 100, 'high', 0, '-')


def profile(r, a, ka, b, kb):
  """A superpressure profile: `a` unsafe levels at the low-pressure end, `b` at the other, safe between."""
  I = load()
  I.atm_ids = {}
  I.cap = 64
  lim = T.var('envelope limit', 1000, 5000)
  table, sps = {}, {}

  def stable(I, st, f, args, kw, node):
    v = list(args) + list(kw.values())
    p = num(v[0])
    i = st.facts.iv(p)
    table.setdefault(p, [num(x) for x in v[1:6]] + [num(v[8])] if len(v) == 10 else None)
    at = None if i.lo == -T.INF else nearest(float(i.lo))
    kind = None if at is None else ka if at < a else kb if at >= n - b else 'safe'
    sp = opaque_num(I, st, 'superpressure.' + str(kind), v[:1])
    x = sps[at] = num(sp)
    if kind == 'low':
      st.assume('<', x, T.const(SAFE))
    elif kind == 'high':
      st.assume('>', x, lim - T.const(SAFE))
    elif kind == 'safe':
      st.assume('>=', x, T.const(SAFE))
      st.assume('<=', x, lim - T.const(SAFE))
    st.roots = st.roots + (sp,)
    g = lambda n: opaque_num(I, st, 'stable.' + n, v[:1])
    return I.call(I.lookup(SI + 'StableParams'), [g('ambient'), g('internal'), g('air'), g('volume'), sp], {}, st, None)
  fn_summary(I, SI + 'calculate_stable_params_for_pressure', stable)
  flat_atmosphere(I)
  st = I.start()
  st, _, bs = balloon(I, st, default=('mols_lift_gas',), envelope_max_superpressure=N(lim))
  st, atmo = atmosphere(I, st)
  st.roots = st.roots + (atmo,)
  g0 = lambda f: readn(I, st, bs, f)
  M, R_, He = (constant(I, n) for n in ('DRY_AIR_MOLAR_MASS', 'UNIVERSAL_GAS_CONSTANT', 'HE_MOLAR_MASS'))
  empty = g0('envelope_mass') + g0('payload_mass') + He * g0('mols_lift_gas')
  pmin = T.div(empty * R_, M * g0('envelope_volume_base')).scale(TEMP).const
  # The levels the column search visits: 20 from 1,000 Pa to the floor, above the empty balloon's float pressure.
  levels = [Fraction(1000) + (PMAX - 1000) * i / 19 for i in range(20)]
  inside = [pmin] + [x for x in levels if x > pmin]
  n = len(inside)

  def nearest(p):
    i = min(range(n), key=lambda k: abs(float(inside[k]) - p))
    return i if abs(float(inside[i]) - p) < 1 else None
  tag = '%s below, %s above' % ('%d %s' % (a, ka) if a else 'safe', '%d %s' % (b, kb) if b else 'safe')
  w = PRF + ' (get_pressure_range)'
  outs, exc = outcomes(I, lambda: I.call(I.lookup(PR + 'get_pressure_range'), [bs, atmo], {}, st.fork(), None))
  r.took(I)
  if a + b >= n:
    r.check(not outs and bool(exc), 'no-safe-pressure-is-an-error', tag, w, 'a range is returned')
    return
  exp = [g0(f) for f in ('envelope_volume_base', 'envelope_volume_dv_pressure', 'envelope_mass', 'payload_mass',
                         'mols_lift_gas', 'upwelling_infrared')]
  for p, v in table.items():
    r.check(None if v is None else all(x is not None and T.close(x, y) for x, y in zip(v, exp)),
            'this-balloon-is-examined', show(p), w)
  if not outs or exc:
    r.fail('range-found', tag, w, str(exc[:1])[:300])
  for s, v in outs:
    for f, m, k, first, nxt in (('min_pressure', a, ka, a - 1, a), ('max_pressure', b, kb, n - b, n - b - 1)):
      got = readn(I, s, v, f)
      if not m:
        want = T.const(inside[0] if f == 'min_pressure' else inside[-1])
        r.check(near(s, got, want), 'safe-extreme-is-the-end', '%s: %s' % (f, tag), w, show(got)[:200])
        continue
      x, y = sps.get(first), sps.get(nxt)
      if x is None or y is None or got is None:
        r.undecided('end-at-the-safety-threshold', '%s: %s' % (f, tag), w)
        continue
      thr = T.const(SAFE) if k == 'low' else lim - T.const(SAFE)
      p1, p2 = inside[first], inside[nxt]
      # (end - p1) (y - x) = (threshold - x) (p2 - p1), without the division
      d = got - T.const(p1)
      d = T._cancel(d, y - x) or d * (y - x)
      r.check(same(s, d, (thr - x).scale(p2 - p1)), 'end-at-the-safety-threshold', '%s: %s' % (f, tag), w, show(got)[:300])


def near(st, p, q):
  """Equality of numbers up to rounding."""
  i = st.facts.iv(p) if p is not None else None
  if i is not None and i.lo == i.hi and q.const is not None:
    return abs(float(i.lo - q.const)) < 1e-3
  return same(st, p, q)


# ------------------------------------------------------------------ geometry
SG = 'utils.spherical_geometry.'
SGF = 'utils/spherical_geometry.py'


def p35(r, tier):
  """A balloon's place on the globe."""
  I = load(False, False)
  st = I.start()
  lat, lng = T.var('lat', -T.PI / 2, T.PI / 2), T.var('lng', -T.PI, T.PI)
  ll = mk_latlng(st, lat, lng)
  w = SGF + ' (calculate_latlng_from_offset)'
  f = I.lookup(SG + 'calculate_latlng_from_offset')
  big = 25 * 10**6
  X, Y = T.var('x', -big, big), T.var('y', -big, big)
  dom = Domain(I)
  for what, x, y in (('any offset', X, Y), ('no offset', T.ZERO, T.ZERO), ('north or south', T.ZERO, Y),
                     ('east or west', X, T.ZERO)):
    st2 = st.fork()
    if what == 'any offset':
      st2.assume('>', x * x + y * y, T.ZERO)
    outs, exc = outcomes(I, lambda: I.call(f, [ll, unit(I, st2, 'Distance', x), unit(I, st2, 'Distance', y)], {}, st2, None))
    r.check(bool(outs) and not exc, 'defined', what, w, str(exc[:1]))
    for s, v in outs:
      la, ln = latlng_of(s, v)
      if la is None:
        r.undecided('a-place', what, w)
        continue
      within(r, s, la, -T.PI / 2, T.PI / 2, 'latitude-range', what, w)
      within(r, s, ln, -T.PI, T.PI, 'longitude-range', what, w)
      if what == 'no offset':
        r.check(same(s, mf(I, 'sin', la), mf(I, 'sin', lat)), 'no-offset-same-place', 'latitude', w, show(la))
        r.check(same(s, ln, lng), 'no-offset-same-place', 'longitude', w, show(ln))
        continue
      if what == 'north or south':
        continue
      a, h = T.power(x * x + y * y, Fraction(1, 2)).scale(Fraction(1, 6371000)), mf(I, 'atan2', x, y)
      sin, cos = (lambda q: mf(I, 'sin', q)), (lambda q: mf(I, 'cos', q))
      sl = cos(a) * sin(lat) + sin(a) * cos(lat) * cos(h)
      r.check(same(s, mf(I, 'sin', la), sl, T.tmin([T.ONE, T.tmax([-T.ONE, sl], s.facts)], s.facts)), 'great-circle',
              'latitude, ' + what, w, show(la))
      dl = mf(I, 'atan2', sin(a) * cos(lat) * sin(h), cos(a) - sin(lat) * sl)
      r.check(same(s, cos(ln), cos(lng + dl)), 'great-circle', 'longitude, ' + what, w, show(ln))
  I.on_event = None
  dom.report(r, 'inverse-in-domain')
  # The balloon's place is its offset from the centre.
  J, I = I, load()
  f = I.lookup(SG + 'calculate_latlng_from_offset')
  st, _, bs = balloon(I, I.start())
  s, v = one(I.getattr(bs, 'latlng', st.fork(), None), 'latlng')
  _, c = one(I.getattr(bs, 'center_latlng', s, None), 'centre')
  s2, v2 = one(I.call(f, [c, read(I, s, bs, 'x'), read(I, s, bs, 'y')], {}, s.fork(), None))
  for n, p, q in zip(('latitude', 'longitude'), latlng_of(s, v), latlng_of(s2, v2)):
    r.check(same(s, p, q), 'balloon-is-at-its-offset', n, BF + ' (latlng)', show(p))
  copies(I, r)
  r.took(I)
  r.took(J)


def mf(I, name, *ps):
  """The term of a mathematical function."""
  old, I.on_event = I.on_event, None
  try:
    return num(I.call(X('math.' + name), [N(p) for p in ps], {}, I.start(), None)[0][1])
  finally:
    I.on_event = old


def latlng_of(st, v):
  if not (isinstance(v, R) and st.cell(v.addr).kind == 'latlng'):
    return None, None
  d = st.cell(v.addr).d
  return num(d['lat']), num(d['lng'])


def copies(I, r):
  """Copying and pickling a place gives the same place."""
  st = I.start()
  ll = mk_latlng(st, T.var('lat', -T.PI / 2, T.PI / 2), T.var('lng', -T.PI, T.PI))
  regs = [a for a, _ in getattr(I, 'reducers', []) if a and 'LatLng' in str(a[0])]
  r.check(bool(regs), 'places-can-be-copied', 'a reducer is registered', SGF)
  for a in regs:
    for s, v in I.call(a[1], [ll], {}, st.fork(), None):
      if not (isinstance(v, Tup) and len(v.items) >= 2):
        r.undecided('places-can-be-copied', 'reducer', SGF)
        continue
      args = v.items[1].items if isinstance(v.items[1], Tup) else None
      outs = I.call(v.items[0], list(args), {}, s, None) if args is not None else []
      r.check(bool(outs), 'places-can-be-copied', 'rebuilt', SGF)
      for s2, v2 in outs:
        for n, p, q in zip(('latitude', 'longitude'), latlng_of(s2, v2), (T.var('lat'), T.var('lng'))):
          r.check(same(s2, p, q), 'copies-are-equal', n, SGF, show(p))


# ------------------------------------------------------------------ transforms
TR = 'utils.transforms.'
TRF = 'utils/transforms.py'


def p36(r, tier):
  """Rescalings invert each other and reject what has no meaning."""
  I = load(False, False)
  st = I.start()
  x = T.var('x')
  lo = T.var('low', -10**6, 10**6)
  wd = T.var('width', 0, 10**6, True)
  hi = lo + wd
  call = lambda f, *a: outcomes(I, lambda: I.call(I.lookup(TR + f), [N(v) for v in a], {}, st.fork(), None))

  def values(f, *a):
    outs, exc = call(f, *a)
    r.check(bool(outs) and not exc, 'defined', f, TRF, str(exc[:1]))
    return [(s, num(v)) for s, v in outs]
  for s, p in values('linear_rescale_with_extrapolation', x, lo, hi):
    r.check(same(s, p, T.div(x - lo, wd)), 'linear', 'linear_rescale_with_extrapolation', TRF, show(p))
    if p is not None:
      for s2, q in values('undo_linear_rescale_with_extrapolation', p, lo, hi):
        r.check(same(s2, q, x), 'inverse', 'linear rescaling', TRF, show(q))
  for s, p in values('undo_linear_rescale_with_extrapolation', x, lo, hi):
    r.check(same(s, p, lo + x * wd), 'linear', 'undo_linear_rescale_with_extrapolation', TRF, show(p))
  for a, b, want, what in ((lo - T.var('below', 0, 10**6, True), None, T.ZERO, 'below the interval'),
                           (hi + T.var('above', 0, 10**6, True), None, T.ONE, 'above the interval'),
                           (lo, None, T.ZERO, 'low end'), (hi, None, T.ONE, 'high end')):
    for s, p in values('linear_rescale_with_saturation', a, lo, hi):
      r.check(same(s, p, want), 'saturates', what, TRF, show(p))
  for k in (Fraction(1, 4), Fraction(1, 2), Fraction(7, 8)):
    for s, p in values('linear_rescale_with_saturation', lo + wd.scale(k), lo, hi):
      r.check(same(s, p, T.const(k)), 'linear-inside', 'at %s of the interval' % float(k), TRF, show(p))
  for s, p in values('linear_rescale_with_saturation', x, lo, hi):
    within(r, s, p, 0, 1, 'saturates', 'unit interval', TRF)
  for f in ('linear_rescale_with_extrapolation', 'undo_linear_rescale_with_extrapolation', 'linear_rescale_with_saturation'):
    for b, what in ((lo, 'empty'), (lo - wd, 'reversed')):
      outs, exc = call(f, x, lo, b)
      r.check(not outs and bool(exc), 'bad-interval-rejected', '%s: %s' % (f, what), TRF)
  squash(I, r, st, call, values)
  arrays(I, r, st)
  r.took(I)


def squash(I, r, st, call, values):
  y, c, more = T.var('y', 0), T.var('scale', 0, 10**6, True), T.var('more', 0, T.INF, True)
  for s, p in values('squash_to_unit_interval', y, c):
    within(r, s, p, 0, 1, 'squashed-into-unit-interval', 'squash', TRF)
    r.check(same(s, p, T.div(y, y + c)), 'squash-value', 'squash', TRF, show(p))
    for s2, q in values('undo_squash_to_unit_interval', p, c) if p is not None else ():
      r.check(same(s2, q, y), 'inverse', 'squash', TRF, show(q))
  u = T.var('u', 0, 1, False, True)
  for s, p in values('undo_squash_to_unit_interval', u, c):
    r.check(same(s, p, T.div(u * c, T.ONE - u)), 'unsquash-value', 'undo_squash', TRF, show(p))
  bad = ((T.var('negative', -T.INF, 0, True, True), c, 'negative value', ('squash', 'undo_squash')),
         (T.ONE, c, 'one', ('undo_squash',)), (T.var('more than one', 1, T.INF, True), c, 'above one', ('undo_squash',)),
         (T.const(Fraction(1, 2)), T.ZERO, 'zero scale', ('squash', 'undo_squash')),
         (T.const(Fraction(1, 2)), T.var('negative scale', -T.INF, 0, True, True), 'negative scale', ('squash', 'undo_squash')))
  for v, k, what, fs in bad:
    for f in fs:
      outs, exc = call(f + '_to_unit_interval', v, k)
      r.check(not outs and bool(exc), 'meaningless-input-rejected', '%s: %s' % (f, what), TRF)


def arrays(I, r, st):
  """Arrays are transformed element by element."""
  xs = [T.var('x%d' % i, 0, 100) for i in range(3)]
  arr = lambda s, v: arr_of(s, v)
  for f, a, want in (('linear_rescale_with_extrapolation', (T.const(2), T.const(10)), lambda x: (x - T.const(2)).scale(
      Fraction(1, 8))), ('squash_to_unit_interval', (T.const(30),), lambda x: T.div(x, x + T.const(30)))):
    s0 = st.fork()
    outs, exc = outcomes(I, lambda: I.call(I.lookup(TR + f), [arr(s0, xs)] + [N(v) for v in a], {}, s0, None))
    r.check(bool(outs) and not exc, 'defined', f + ' of an array', TRF, str(exc[:1]))
    for s, v in outs:
      its = [o[0][1] for o in (I.getitem(v, C(i), s.fork(), None) for i in range(3)) if len(o) == 1]
      if len(its) != 3:
        r.undecided('elementwise', f, TRF)
        continue
      for x, y in zip(xs, its):
        r.check(same(s, num(y), want(x)), 'elementwise', f, TRF, str(y)[:200])
  for k in range(3):
    s0 = st.fork()
    ys = list(xs)
    ys[k] = T.var('negative', -T.INF, 0, True, True)
    outs, exc = outcomes(I, lambda: I.call(I.lookup(TR + 'squash_to_unit_interval'), [arr(s0, ys), N(T.const(30))], {},
                                           s0, None))
    r.check(not outs and bool(exc), 'meaningless-input-rejected', 'squash: array with a negative value', TRF)


def arr_of(st, ps):
  items = {i: N(p) for i, p in enumerate(ps)}
  return fresh_arr(st, N(T.var('elem of array')), (len(ps),), items)
