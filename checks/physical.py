"""The sun's place and strength (P64), the episode's random conditions (P65), physical constants and tables (P66)."""
import math
import random

from common import *
from env import epoch
from pyabs import witness as W
from utils import outcomes, as_kind, SF

rad, deg = math.radians, math.degrees


# ------------------------------------------------------------------ the NOAA solar calculator, over numbers
def noaa(ts):
  """(declination, equation of time in minutes, flux) at a Unix time: the published formulas, from the Julian date."""
  c = (ts / 86400.0 + 2440587.5 - 2451545.0) / 36525.0
  lon = 280.46646 + c * (36000.76983 + c * 0.0003032)
  ano = 357.52911 + c * (35999.05029 - 0.0001537 * c)
  ecc = 0.016708634 - c * (0.000042037 + 0.0000001267 * c)
  m, l = rad(ano), rad(lon)
  centre = (math.sin(m) * (1.914602 - c * (0.004817 + 0.000014 * c)) + math.sin(2 * m) * (0.019993 - 0.000101 * c)
            + math.sin(3 * m) * 0.000289)
  node = rad(125.04 - 1934.136 * c)
  app = rad(lon + centre - 0.00569 - 0.00478 * math.sin(node))
  obl = 23 + (26 + (21.448 - c * (46.815 + c * (0.00059 - c * 0.001813))) / 60) / 60 + 0.00256 * math.cos(node)
  dec = math.asin(math.sin(rad(obl)) * math.sin(app))
  y = math.tan(rad(obl) / 2) ** 2
  eot = 4 * deg(y * math.sin(2 * l) - 2 * ecc * math.sin(m) + 4 * ecc * y * math.sin(m) * math.cos(2 * l)
                - y * y / 2 * math.sin(4 * l) - 1.25 * ecc * ecc * math.sin(2 * m))
  flux = 1366.0 * (1 + 0.5 * (((1 + ecc) / (1 - ecc)) ** 2 - 1) * math.cos(m))
  return dec, eot, flux


def sun(lat, lng, ts):
  """(true elevation, refracted elevation, azimuth, flux), in degrees and W/m^2; lat and lng in radians."""
  dec, eot, flux = noaa(ts)
  tst = (ts % 86400) / 60.0 + eot + 4 * deg(lng)
  h = rad((tst % 1440.0) / 4.0 - 180.0)
  x = math.cos(dec) * math.sin(h)                                  # west
  n = math.cos(lat) * math.sin(dec) - math.sin(lat) * math.cos(dec) * math.cos(h)
  z = math.sin(lat) * math.sin(dec) + math.cos(lat) * math.cos(dec) * math.cos(h)
  u = deg(math.atan2(z, math.hypot(x, n)))
  az = deg(math.atan2(-x, n)) % 360.0
  if u > 85:
    ref = 0.0
  elif u > 5:
    t = math.tan(rad(u))
    ref = 58.1 / t - 0.07 / t ** 3 + 0.000086 / t ** 5
  elif u > -0.575:
    ref = 1735 + u * (-518.2 + u * (103.4 + u * (-12.79 + u * 0.711)))
  else:
    ref = -20.772 / math.tan(rad(u))
  return u, u + ref / 3600, az, flux


def places(n, seed):
  """Places and times with the sun at every kind of elevation and bearing, in every season from 1952 to 2099."""
  rnd = random.Random(seed)
  days = [(y, m, d) for y in (1952, 1999, 2000, 2011, 2012, 2099) for m, d in (
      (1, 1), (1, 31), (2, 28), (3, 1), (4, 30), (6, 21), (7, 4), (9, 23), (10, 31), (11, 5), (12, 31))] + [(2000, 2, 29), (2012, 2, 29)]
  els = [-88, -60, -30, -10, -4.3, -3, -1, -0.6, -0.55, -0.2, 0.3, 2, 4.9, 5.1, 12, 30, 45, 60, 80, 84.9, 85.1, 87, 89]
  while n > 0:
    y, m, d = rnd.choice(days)
    ts = int(W.datetime.datetime(y, m, d, tzinfo=W.datetime.timezone.utc).timestamp()) + rnd.randrange(86400)
    u = els[n % len(els)]
    dec, eot, _ = noaa(ts)
    lng0 = rad(180.0 - ((ts % 86400) / 240.0 + eot / 4))
    a, b = rad(90 - u), rnd.uniform(-math.pi, math.pi)
    lat = math.asin(max(-1.0, min(1.0, math.sin(dec) * math.cos(a) + math.cos(dec) * math.sin(a) * math.cos(b))))
    lng = lng0 + math.atan2(math.sin(b) * math.sin(a) * math.cos(dec), math.cos(a) - math.sin(dec) * math.sin(lat))
    lng = math.remainder(lng, 2 * math.pi)
    if abs(lat) > 1.5:
      continue
    yield lat, lng, ts
    n -= 1


def at_points(r, outs, pts, rules, what, w, tol):
  """Compares the terms of every path with the oracle where the path's facts hold; every point lies on a path."""
  bad, missed, done = {k: [] for k in rules}, 0, {k: 0 for k in rules}
  for env, want in pts:
    hit = False
    for s, ps in outs:
      v = W.Valuation(7, s.facts)
      v.val.update(env)
      try:
        if v.ok():
          continue
        hit = True
        for k, p, x in zip(rules, ps, want):
          if p is None:
            continue
          y = v.poly(p)
          done[k] += 1
          if abs(tol[k][1](y - x)) > tol[k][0]:
            bad[k].append((y, x, {str(a): z for a, z in env.items()}))
      except (W.NoValue, ValueError, OverflowError, ZeroDivisionError):
        continue
    missed += not hit
  for k in rules:
    if bad[k]:
      r.fail(k, what, w, 'computed %r, expected %r at %s (%d of %d)' % (bad[k][0] + (len(bad[k]), done[k])))
    elif done[k] < len(pts):
      r.undecided(k, what, w, 'compared at %d of %d points' % (done[k], len(pts)))
    else:
      r.ok(k, '%s at %d points' % (what, done[k]))
    r.count('points compared', done[k])


PLAIN = lambda d: d
ROUND = lambda d: math.remainder(d, 360.0)


def p64(r, tier):
  """The sun is where the NOAA calculator puts it, whatever the zone the time is given in; panels and attenuation follow it."""
  w = SF + ' (solar_calculator)'
  n = 2400 if tier == 'thorough' else 460
  for zone in (False, True):
    I = load(False, False)
    st = I.start()
    lat, lng, t = T.var('lat', -T.PI / 2, T.PI / 2), T.var('lng', -T.PI, T.PI), T.var('t', isint=True)
    off = T.var('zone', -43200, 50400)
    ll = mk_latlng(st, lat, lng)
    time = DT(t, off if zone else True)
    for s, y in I.getattr(time, 'year', st, None):
      st = s
      st.assume('>=', num(y), T.const(1950))
      st.assume('<=', num(y), T.const(2100))
    mt, T.MAXTERMS = T.MAXTERMS, 12
    try:
      outs, exc = outcomes(I, lambda: I.call(I.lookup(SOLAR + 'solar_calculator'), [ll, time], {}, st.fork(), None))
    finally:
      T.MAXTERMS = mt
    what = 'a time in any zone' if zone else 'a time in UTC'
    got = [(s, [num(x) for x in v.items]) for s, v in outs if isinstance(v, Tup) and len(v.items) == 3]
    if not got or len(got) != len(outs):
      r.undecided('sun-defined', what, w)
      continue
    pts = []
    for i, (a, b, ts) in enumerate(places(n, 5)):
      u, el, az, fl = sun(a, b, ts)
      if any(abs(u - x) < 1e-5 for x in (85, 5, -0.575)):
        continue
      env = {aof(lat): a, aof(lng): b, aof(t): float(ts)}
      if zone:
        env[aof(off)] = float((-43200, 50400, 32400, -18000, 3600)[i % 5])
      pts.append((env, (el, az if abs(math.cos(a)) > .1 and 1 < abs(u - 90) < 179 else None, fl)))
    rules = ('elevation-as-noaa', 'azimuth-as-noaa', 'flux-as-noaa')
    full = [(e, x) for e, x in pts if x[1] is not None]
    tol = {rules[0]: (1e-7, PLAIN), rules[1]: (1e-4, ROUND), rules[2]: (1e-6, PLAIN)}
    at_points(r, got, full, rules, what, w, tol)
    r.took(I)
  panels(r, tier)


def aof(p):
  (m, _), = p.terms.items()
  return m[0][0]


def attenuation(el, p):
  if el < -4.242:
    return 0.0
  s = 614.0 * math.sin(rad(el))
  m = 0.34764 * (p / 101325.0) * (math.sqrt(1229.0 + s * s) - s)
  return (math.exp(-0.65 * m) + math.exp(-0.95 * m)) / 2


def shade(el, h):
  return 0.4392 if el >= deg(math.atan2(math.sqrt(h * (10.41603 + h)), 8.69275)) else 1.0


def power(el, p):
  return 210 * attenuation(el, p) * (4 * math.cos(rad(el - 35)) * shade(el, 3.3) + 2 * math.cos(rad(el - 65)) * shade(el, 2.7))


def panels(r, tier):
  rnd = random.Random(3)
  els = [-90, -40, -4.25, -4.2, -3, 0, 5, 20, 30, 33, 34, 35, 36, 37, 38, 39, 40, 50, 65, 89, 90]
  edge = [deg(math.atan2(math.sqrt(h * (10.41603 + h)), 8.69275)) for h in (3.3, 2.7)]
  for x in edge:
    els += [x - 1e-3, x + 1e-3]
  for fn, rule, f in (('solar_atmospheric_attenuation', 'attenuation-as-documented', attenuation),
                      ('balloon_shadow', 'shadow-as-documented', shade), ('solar_power', 'panel-power-as-documented', power)):
    I = load(False, False)
    st = I.start()
    el = T.var('el', -90, 90)
    q = T.var('q', 0, 20) if 'shadow' in fn else T.var('q', 0, 101325)
    outs, exc = outcomes(I, lambda: I.call(I.lookup(SOLAR + fn), [N(el), N(q)], {}, st, None))
    got = []
    for s, v in outs:
      p = num(v) if numeric(v) else as_kind(I, s, v)[1]
      got.append((s, [p]))
    if any(isinstance(v, C) and v.val is None for _, v in outs):
      r.fail(rule, fn, SF, 'returns None')
      continue
    if any(x[1][0] is None for x in got) or not got:
      r.undecided(rule, fn, SF)
      continue
    pts = []
    for x in els:
      for _ in range(4):
        y = rnd.choice([0.5, 2.7, 3.3, 8.0, 15.0]) if 'shadow' in fn else rnd.choice([0.0, 5000.0, 9000.0, 14000.0, 60000.0, 101325.0])
        pts.append(({aof(el): float(x), aof(q): y}, (f(x, y),)))
    at_points(r, got, pts, (rule,), fn, SF + ' (%s)' % fn, {rule: (1e-6, PLAIN)})
    r.took(I)


# ------------------------------------------------------------------ random conditions
SMP = 'utils.sampling.'
SMF = 'utils/sampling.py'


class Draws:
  """Remembers the distribution behind every draw."""

  def __init__(self, I):
    self.I, self.of = I, {}
    for n in ('uniform', 'randint', 'choice', 'beta'):
      I.stubs['jax.random.' + n] = self.wrap(n, I.stubs['jax.random.' + n])
    self.tfp()

  def wrap(self, n, h):
    def f(I, st, name, args, kw, node):
      outs = h(I, st, name, args, kw, node)
      d = dict(zip({'uniform': ('key', 'shape', 'dtype', 'minval', 'maxval'), 'randint': ('key', 'shape', 'minval', 'maxval'),
                    'choice': ('key', 'a', 'shape', 'replace', 'p'), 'beta': ('key', 'a', 'b', 'shape')}[n], args))
      d.update(kw)
      if n == 'choice' and not is_plain(d.get('p')):
        return outs
      par = {'uniform': lambda: (d.get('minval', C(0.0)), d.get('maxval', C(1.0))), 'randint': lambda: (d['minval'], d['maxval']),
             'choice': lambda: (C(0), d['a']), 'beta': lambda: (d['a'], d['b'])}[n]()
      par = tuple(num(x) if numeric(x) else None for x in par)
      for s, v in outs:
        for a in draws_in(num(v) if numeric(v) else None):
          self.of.setdefault(a, ('integer' if n in ('choice', 'randint') else n, par, I.vkey(d['key'], s)))
      return outs
    return f

  def tfp(self):
    """Distributions as functions of their base draw."""
    I, S = self.I, self.I.stubs
    me = self
    D, B = 'tensorflow_probability.substrates.jax.distributions.', 'tensorflow_probability.substrates.jax.bijectors.'

    def base(n, fields):
      def h(I, st, name, args, kw, node):
        d = dict(zip(fields, args))
        d.update(kw)
        par = tuple(num(d[f]) for f in fields)
        return [(st, O(T.atom('dist', n, par), 'dist'))]
      S[D + n] = h
    for n in ('LogitNormal', 'LogNormal', 'Normal'):
      base(n, ('loc', 'scale'))
    base('Uniform', ('low', 'high'))

    def transformed(I, st, name, args, kw, node):
      d = dict(zip(('distribution', 'bijector'), args))
      d.update(kw)
      return [(st, O(T.atom('dist', 'transformed', (d['distribution'].a, d['bijector'].a)), 'dist'))]
    S[D + 'TransformedDistribution'] = transformed

    def bij(n, field):
      def h(I, st, name, args, kw, node):
        return [(st, O(T.atom('bij', n, num(args[0] if args else kw[field])), 'bij'))]
      S[B + n] = h
    bij('Shift', 'shift')
    bij('Scale', 'scale')
    bij('Power', 'power')

    def chain(I, st, name, args, kw, node):
      v = args[0] if args else kw['bijectors']
      return [(st, O(T.atom('bij', 'Chain', tuple(x.a for x in I.iterate(v, st, node)[0][1])), 'bij'))]
    S[B + 'Chain'] = chain

    def apply(b, x):
      k, q = b.args
      if k == 'Chain':
        for y in reversed(q):
          x = apply(y, x)
        return x
      return x + q if k == 'Shift' else x * q if k == 'Scale' else T.power(x, q.const)

    def draw(dist, key, st):
      k, par = dist.args
      if k == 'transformed':
        return apply(par[1], draw(par[0], key, st))
      a = T.atom('draw', k, key, par, rng={'LogitNormal': T.Iv(Fraction(0), Fraction(1)), 'LogNormal': T.Iv(Fraction(0), T.INF, True)}.get(k))
      me.of[a] = (k, par, key)
      return T.poly(a)

    def method(I, st, ob, name, args, kw, node):
      if name != 'sample':
        return None
      key = kw.get('seed', args[1] if len(args) > 1 else None)
      I.emit(st, 'keyuse', op='tfp.sample', key=key, node=node)
      return [(st, N(draw(ob.a, I.vkey(key, st), st), 'float'))]
    S['$o.dist'] = method


def is_plain(v):
  return v is None or isinstance(v, C) and v.val is None


def draws_in(p):
  """The draws a term is a function of."""
  out = set()
  def go(x):
    if isinstance(x, T.Poly):
      for m in x.terms:
        for a, _ in m:
          go(a)
    elif isinstance(x, T.Atom):
      if x.op == 'draw':
        out.add(x)
        return
      for y in x.args:
        go(y)
    elif isinstance(x, (tuple, list)):
      for y in x:
        go(y)
  go(p)
  return out


def spread(dr, st, p):
  """(kind, lowest, highest, key) when the term is an increasing or decreasing linear function of one uniform draw."""
  ds = draws_in(p) if p is not None else ()
  if len(ds) != 1:
    return None
  (a,) = ds
  info = dr.of.get(a)
  if info is None or info[0] not in ('uniform', 'integer') or None in info[1]:
    return None
  f = lambda x: T.subst(p, {a: x})
  lo, hi = info[1]
  ends = f(lo), f(hi)
  mid = (ends[0] + ends[1]).scale(Fraction(1, 2))
  if same(st, f((lo + hi).scale(Fraction(1, 2))), mid) is not True or same(
      st, f((lo.scale(3) + hi).scale(Fraction(1, 4))), ends[0].scale(Fraction(3, 4)) + ends[1].scale(Fraction(1, 4))) is not True:
    return None
  return info[0], ends[0], ends[1], info[2]


def otherwise_spread(dr, st, p, lo, hi):
  """False when a function of one uniform draw is clearly not uniform over [lo, hi]."""
  (a,) = draws_in(p)
  info = dr.of.get(a)
  if info is None or info[0] != 'uniform' or any(x is None or x.const is None for x in info[1] + (lo, hi)) or lossy_term(p):
    return None
  (b, c), n, vs = [float(x.const) for x in info[1]], 400, []
  for i in range(n):
    v = W.Valuation(7, st.facts)
    v.val[a] = b + (c - b) * (i + .5) / n
    try:
      vs.append(v.poly(p))
    except (W.NoValue, ValueError, OverflowError, ZeroDivisionError):
      return None
    if any(x.op == 'var' for x in v.leafs):
      return None
  low, high = sorted(float(x.const) for x in (lo, hi))
  if any(abs(x - (low + (high - low) * (i + .5) / n)) > .1 * (high - low) for i, x in enumerate(sorted(vs))):
    return False
  return None


def uniform_over(r, dr, st, p, lo, hi, rule, what, w, kind=None):
  x = spread(dr, st, p)
  if x is None:
    r.check(None if p is None or len(draws_in(p)) != 1 else False if all(
        a in dr.of and dr.of[a][0] not in ('uniform', 'integer') for a in draws_in(p)) else otherwise_spread(dr, st, p, lo, hi),
            rule, what, w, show(p))
    return None
  k, a, b, key = x
  want = [(lo, hi)] + ([(hi, lo)] if kind is None else [])
  vs = [both(same(st, a, l), same(st, b, h)) for l, h in want]
  v = True if True in vs else False if all(q is False for q in vs) else None
  if kind and k != kind:
    v = False
  r.check(v, rule, what, w, 'from %s to %s' % (show(a), show(b)))
  return key


def both(a, b):
  return False if a is False or b is False else True if a is True and b is True else None


def p65(r, tier):
  """Each random condition of an episode has the documented distribution."""
  def fresh():
    I = load()
    return I, Draws(I), I.start()
  key = O(T.atom('key', 'k'), 'key')
  # places
  I, dr, st = fresh()
  outs, exc = outcomes(I, lambda: I.call(I.lookup(SMP + 'sample_location'), [key], {}, st, None))
  r.check(bool(outs) and not exc, 'sampling-defined', 'sample_location', SMF, str(exc[:1]))
  for s, v in outs:
    ks = []
    for n, lim in (('lat', 10), ('lng', 175)):
      c = s.cell(v.addr) if isinstance(v, R) else None
      p = num(c.d[n]) if c is not None and n in c.d else None
      lim = T.const(lim).scale(T.PI / 180)
      ks.append(uniform_over(r, dr, s, p, -lim, lim, 'place-as-documented', n, SMF + ' (sample_location)'))
    if None not in ks:
      r.check(ks[0] != ks[1], 'place-as-documented', 'latitude and longitude are independent', SMF + ' (sample_location)')
  r.took(I)
  # times
  for what, rng in (('by default', None), ('in a given range', (T.var('b', 0, 10 ** 9, isint=True), T.var('span', 100, 10 ** 8, isint=True)))):
    I, dr, st = fresh()
    args = [key] if rng is None else [key, DT(rng[0], True), DT(rng[0] + rng[1], True)]
    lo, hi = (T.const(epoch(2011, 1, 1)), T.const(epoch(2014, 12, 31))) if rng is None else (rng[0], rng[0] + rng[1])
    outs, exc = outcomes(I, lambda: I.call(I.lookup(SMP + 'sample_time'), args, {}, st, None))
    r.check(bool(outs) and not exc, 'sampling-defined', 'sample_time ' + what, SMF, str(exc[:1]))
    for s, v in outs:
      if not isinstance(v, DT):
        r.fail('time-as-documented', what, SMF, str(v)[:200])
        continue
      r.check(bool(v.tz), 'time-as-documented', 'aware ' + what, SMF)
      uniform_over(r, dr, s, v.p, lo, hi, 'time-as-documented', what, SMF + ' (sample_time)', 'integer')
    r.took(I)
  # pressures
  for what in ('without an atmosphere', 'in an atmosphere'):
    I, dr, st = fresh()
    args, hi = [key], T.const(11400)
    if what.startswith('in'):
      st, at = atmosphere(I, st)
      st.roots = st.roots + (at,)
      args.append(at)
      st, v = one(I.call_method(at, 'at_height', [unit(I, st, 'Distance', T.const(15240))], {}, st, None))
      hi = readn(I, st, v, 'pressure')
      r.check(True, 'sampling-defined', 'the pressure of the altitude floor', SMF)
    outs, exc = outcomes(I, lambda: I.call(I.lookup(SMP + 'sample_pressure'), args, {}, st, None))
    r.check(bool(outs) and not exc, 'sampling-defined', 'sample_pressure ' + what, SMF, str(exc[:1]))
    for s, v in outs:
      uniform_over(r, dr, s, num(v), T.const(6500), hi, 'pressure-as-documented', what, SMF + ' (sample_pressure)')
    r.took(I)
  infrared(r, fresh, key)
  start(r)
  air(r)


ALPHA, BETA = 1.2, 2.0


def infrared(r, fresh, key):
  w = SMF + ' (sample_upwelling_infrared)'
  for typ in (None, 'logit_normal', 'inverse_lognormal', 'normal'):
    I, dr, st = fresh()
    outs, exc = outcomes(I, lambda: I.call(I.lookup(SMP + 'sample_upwelling_infrared'), [key] + ([C(typ)] if typ else []), {}, st, None))
    if typ == 'normal':
      r.check(not outs and any('ValueError' in str(x) for x in exc), 'unknown-distribution-rejected', typ, w, str(exc[:1]))
      continue
    what = typ or 'by default'
    r.check(bool(outs), 'sampling-defined', what, w, str(exc[:1]))
    for s, v in outs:
      p = num(v)
      ds = list(draws_in(p)) if p is not None else []
      if len(ds) != 1 or ds[0] not in dr.of:
        r.undecided('infrared-as-documented', what, w, show(p))
        continue
      k, par, _ = dr.of[ds[0]]
      x = T.poly(ds[0])
      r.check(holds(s, '>=', p, 225), 'infrared-floor', what, w, show(p))
      if typ == 'inverse_lognormal':
        v = k == 'LogNormal' and par == (T.ZERO, T.ONE)
        want = T.const(Fraction('300.9568')) - T.power(x, Fraction('0.68')).scale(35)
      else:
        v = k == 'LogitNormal' and par[0] == T.const(2)
        want = x.scale(315)
      r.check(both(v, same(s, p, want)), 'infrared-as-documented', what, w, '%s%s: %s' % (k, par, show(p)))
      if k == 'LogitNormal' and None not in (par[0].const, par[1].const):
        q = 225.0 / 315
        z = (math.log(q / (1 - q)) - float(par[0].const)) / float(par[1].const)
        low = 0.5 * math.erfc(-z / math.sqrt(2))
        r.check(abs(low - 0.055) < 0.01, 'rejected-share-as-documented', 'logit_normal: %.3f' % low, w,
                'a share of %.3f of the draws is below 225, documented 0.055' % low)
    # a rejected draw is drawn again with another key
    ks = [dr.of[a][2] for a in dr.of]
    r.check(len(ks) > 1 and len(set(ks)) == len(ks), 'redrawn-with-another-key', what, w)
    r.took(I)


def start(r):
  """Where the balloon starts."""
  from env import Env
  w = 'env/balloon_arena.py (_initialize_balloon)'
  E = Env()
  I = E.I
  dr = Draws(I)
  for what, kw in (('reset()', {}), ('reset(seed)', {'seed': E.seed('seed:b')})):
    for st, _ in E.call('reset', [], kw):
      bs = E.bs(st)
      x, y = readn(I, st, bs, 'x.meters'), readn(I, st, bs, 'y.meters')
      ds = draws_in(x) | draws_in(y) if x is not None and y is not None else ()
      beta = [a for a in ds if dr.of.get(a, ('',))[0] == 'beta']
      ang = [a for a in ds if dr.of.get(a, ('',))[0] == 'uniform']
      if len(ds) != 2 or len(beta) != 1 or len(ang) != 1:
        r.undecided('start-as-documented', what, w, '%s, %s' % (show(x), show(y)))
        continue
      u = T.poly(beta[0]).scale(200000)
      a, b = dr.of[ang[0]][1]
      t = T.poly(ang[0])
      sn, cs = T.poly(T.atom('sin', t)), T.poly(T.atom('cos', t))
      r.check(both(same(st, b - a, T.const(2 * T.PI)), both(same(st, x, u * sn, u * cs), same(st, y, u * cs, u * sn))),
              'start-as-documented', 'direction, ' + what, w, '%s, %s' % (show(x), show(y)))
      r.check(dr.of[ang[0]][2] != dr.of[beta[0]][2], 'start-as-documented', 'distance and direction are independent', w)
      v = dr.of[beta[0]][1]
      r.check(None if None in v else v[0].const is not None and float(v[0].const) == ALPHA and float(v[1].const) == BETA,
              'start-as-documented', 'distribution of the distance, ' + what, w, str(v))
  r.took(I)


def air(r):
  """The air lies between the two documented extremes: temperature differences within each layer."""
  from utils import atm_scene
  w = 'env/balloon/standard_atmosphere.py (Atmosphere)'
  heights = [-610, 17000, 21000, 32000, 47000, 51000, 71000, 85000]
  low = [Fraction(x) for x in ('-0.007', '0.006', '0.001', '0.0028', '0', '-0.0028', '-0.002')]
  high = [Fraction(x) for x in ('-0.0058', '0.005', '0.001', '0.0028', '0', '-0.0028', '-0.002')]
  dr = []
  I, scenes = atm_scene(lambda I: dr.append(Draws(I)))
  for st, A in scenes:
    used = set()

    def temp(h):
      s, v = one(I.call_method(A, 'at_height', [unit(I, st, 'Distance', T.const(h))], {}, st.fork(), None), 'at_height')
      return readn(I, s, v, 'temperature'), readn(I, s, v, 'pressure')
    t0, p0 = temp(heights[0])
    r.check(same(st, t0, T.const(300)), 'air-as-documented', 'temperature at the bottom', w, show(t0))
    r.check(same(st, p0, T.const(Fraction('108870.8213'))), 'air-as-documented', 'pressure at the bottom', w, show(p0))
    for i in range(7):
      a, b = heights[i], heights[i + 1] - 1
      p = (temp(b)[0] - temp(a)[0]).scale(Fraction(1, b - a))
      what = 'lapse rate from %d m' % a
      if low[i] == high[i]:
        r.check(same(st, p, T.const(low[i])), 'air-as-documented', what, w, show(p))
      else:
        uniform_over(r, dr[0], st, p, T.const(low[i]), T.const(high[i]), 'air-as-documented', what, w)
        used |= draws_in(p)
    r.check(len(used) == 1, 'air-as-documented', 'one draw for the whole atmosphere', w)
  r.took(I)


# ------------------------------------------------------------------ constants and tables
CONSTANTS = (('GRAVITY', 9.80665, 1e-6), ('UNIVERSAL_GAS_CONSTANT', 8.3144621, 1e-5), ('DRY_AIR_MOLAR_MASS', 0.0289649, 1e-4),
             ('HE_MOLAR_MASS', 0.004002602, 1e-5), ('NUM_SECONDS_PER_HOUR', 3600, 0), ('NUM_SECONDS_PER_DAY', 86400, 0),
             ('DRY_AIR_SPECIFIC_GAS_CONSTANT', 287.053, 1e-4), ('PERCIATELLI_PRESSURE_RANGE_MIN', 5000, 0),
             ('PERCIATELLI_PRESSURE_RANGE_MAX', 14000, 0))
VEHICLE = (('envelope_volume_base', 1804), ('envelope_volume_dv_pressure', 0.0199), ('envelope_mass', 68.5),
           ('envelope_max_superpressure', 2380), ('envelope_cod', 0.25), ('payload_mass', 92.5), ('nighttime_power_load.watts', 183.7),
           ('daytime_power_load.watts', 120.4), ('acs_valve_hole_diameter.meters', 0.04), ('battery_capacity.watt_hours', 3058.56),
           ('mols_lift_gas', 6830.0), ('battery_charge.watt_hours', 2905.6), ('upwelling_infrared', 250.0), ('pressure', 6000.0),
           ('ambient_temperature', 206.0), ('internal_temperature', 206.0), ('mols_air', 0), ('superpressure', 0), ('time_elapsed', 0),
           ('x.meters', 0), ('y.meters', 0), ('acs_power.watts', 0), ('acs_mass_flow', 0), ('solar_charging.watts', 0), ('power_load.watts', 0))
LOADS = (   # from this pressure ratio on: charges where the power changes, and the powers
    ('0.99', ('0.3', '0.4', '0.5'), (0, 150, 175, 200)), ('1.08', ('0.3', '0.4', '0.7'), (0, 200, 200, 225)),
    ('1.11', ('0.3', '0.4', '0.6'), (0, 225, 225, 250)), ('1.14', ('0.3', '0.4', '0.5'), (0, 200, 225, 250)),
    ('1.17', ('0.3', '0.4', '0.5'), (0, 225, 250, 275)), ('1.2', ('0.4', '0.5'), (0, 275, 300)),
    ('1.23', ('0.5', '0.6'), (0, 300, 325)), ('1.26', ('0.5', '0.6'), (0, 325, 350)))
EFFICIENCY = ((.4, .4, .3, .2, .2, 0, 0, 0, 0, 0, 0, 0, 0), (.4, .3, .3, .3, .25, .23, .2, .15, .12, .1, 0, 0, 0),
              (0, .3, .25, .25, .25, .2, .2, .2, .2, .15, .13, .12, .11), (0, .23, .23, .23, .23, .23, .2, .2, .2, .18, .16, .15, .13))


def p66(r, tier):
  """Physical constants, the vehicle's parameters, the power tables and the properties of air are the documented ones."""
  I = load()
  st = I.start()
  for n, want, tol in CONSTANTS:
    v = I.lookup('utils.constants.' + n)
    p = num(v) if numeric(v) else None
    r.check(None if p is None or p.const is None else abs(float(p.const) - want) <= tol * want, 'physical-constants', n, 'utils/constants.py', show(p))
  v = I.lookup('utils.constants.AGENT_TIME_STEP')
  r.check(same(st, v.p, T.const(180)) if isinstance(v, TD) else None, 'physical-constants', 'AGENT_TIME_STEP', 'utils/constants.py')
  ll = latlng_var(st)
  bw = 'env/balloon/balloon.py (BalloonState)'
  outs, exc = outcomes(I, lambda: I.call(I.lookup(BAL + 'BalloonState'), [], {'center_latlng': ll, 'date_time': dt_var()}, st.fork(), None))
  r.check(bool(outs) and not exc, 'vehicle-defined', 'BalloonState(center_latlng, date_time)', bw, str(exc[:1]))
  for s, bs in outs:
    for f, want in VEHICLE:
      p = readn(I, s, bs, f)
      r.check(same(s, p, T.const(Fraction(str(want)))), 'vehicle-parameters', f, bw, show(p))
    v = read(I, s, bs, 'last_command')
    r.check(v.name == 'STAY' if isinstance(v, En) else None, 'vehicle-parameters', 'last_command', bw, str(v))
    v = read(I, s, bs, 'status')
    r.check(v.name == 'OK' if isinstance(v, En) else None, 'vehicle-parameters', 'status', bw, str(v))
    v = read(I, s, bs, 'power_safety_layer_enabled')
    r.check(v.val is True if isinstance(v, C) else None, 'vehicle-parameters', 'power_safety_layer_enabled', bw, str(v))
  # loads
  fn = I.lookup('env.balloon.power_table.lookup')
  tops = [Fraction(x[0]) for x in LOADS[1:]] + [Fraction(5)]
  e = Fraction(1, 10**4)
  for (a, cs, ps), b in zip(LOADS, tops):
    a = Fraction(a)
    cs = [Fraction(0)] + [Fraction(c) for c in cs] + [Fraction(1)]
    for i, want in enumerate(ps):
      st = I.start()
      what = 'ratio %s to %s, charge %s to %s' % tuple(float(q) for q in (a, b, cs[i], cs[i + 1]))
      x, c = T.var('ratio ' + what, a + e, b - e), T.var('charge ' + what, cs[i] + (e if i else 0), cs[i + 1] - e)
      outs, exc = outcomes(I, lambda: I.call(fn, [N(x), N(c)], {}, st, None))
      r.check(bool(outs) and not exc, 'power-table', what, 'env/balloon/power_table.py', str(exc[:1]))
      for s, v in outs:
        r.check(same(s, num(v), T.const(want)), 'power-table', what, 'env/balloon/power_table.py', show(num(v)))
  efficiency(r)
  convection(r)
  r.took(I)


def efficiency(r):
  w = 'env/balloon/acs.py (get_fan_efficiency)'
  I = load()

  def grid(I, st, v):
    d = st.cell(v.addr).d if isinstance(v, R) else {}
    ks = sorted(k for k in d if isinstance(k, int))
    out = [num(d[k]) if numeric(d[k]) else None for k in ks]
    if ks != list(range(len(ks))) or len(ks) < 2 or any(p is None or p.const is None for p in out):
      return None
    return [float(p.const) for p in out]

  def call(I, st, f, args, kw, node):
    c = st.cell(f.addr)
    xs, ys, zs = (grid(I, st, c.d[k]) for k in 'xyz')
    q = [num(a) if numeric(a) else None for a in args[:2]]
    if None in (xs, ys, zs) or None in q or any(p.const is None for p in q) or len(zs) != len(xs) * len(ys):
      return base(I, st, f, args, kw, node)
    x, y = (min(max(float(p.const), g[0]), g[-1]) for p, g in zip(q, (xs, ys)))
    i = max(k for k in range(len(xs) - 1) if xs[k] <= x + 1e-12)
    j = max(k for k in range(len(ys) - 1) if ys[k] <= y + 1e-12)
    a, b = (x - xs[i]) / (xs[i + 1] - xs[i]), (y - ys[j]) / (ys[j + 1] - ys[j])
    z = lambda m, n: zs[n * len(xs) + m]
    v = (1 - b) * ((1 - a) * z(i, j) + a * z(i + 1, j)) + b * ((1 - a) * z(i, j + 1) + a * z(i + 1, j + 1))
    return [(st, N(T.const(Fraction(repr(round(v, 12))))))]
  base = I.stubs['$callcell.interp2d']
  I.stubs['$callcell.interp2d'] = call
  table = [list(x) for x in EFFICIENCY]
  for j, pw in enumerate((100, 200, 300, 400)):
    for i in range(13):
      pr = 1.05 + 0.025 * i
      for dx, dy in ((0, 0), (.5, 0), (0, .5)):
        if i + dx > 12 or j + dy > 3:
          continue
        want = table[j][i] if not dx and not dy else (table[j][i] + table[j][i + 1]) / 2 if dx else (table[j][i] + table[j + 1][i]) / 2
        st = I.start()
        x = T.const(Fraction(str(round(pr + dx * .025, 6))))
        y = unit(I, st, 'Power', T.const(Fraction(str(pw + dy * 100))))
        what = 'ratio %.4f, %d W' % (pr + dx * .025, pw + dy * 100)
        for s, v in I.call(I.lookup('env.balloon.acs.get_fan_efficiency'), [N(x), y], {}, st, None):
          p = num(v) if numeric(v) else None
          r.check(None if p is None or p.const is None else abs(float(p.const) - want) < 1e-6, 'fan-efficiency', what, w, show(p))
  r.took(I)


def convection(r):
  """Heat carried by the air around a sphere, from the properties of air."""
  def oracle(rad_, tb, ta, p):
    mu = 1.458e-6 * ta ** 1.5 / (ta + 110.4)                 # Sutherland
    k = 0.0241 * (ta / 273.15) ** 0.9
    pr = 0.804 - 3.25e-4 * ta
    rho = p * 0.028964922481160 / (8.3144621 * ta)
    gr = 9.80665 * rho ** 2 * (2 * rad_) ** 3 / (ta * mu ** 2) * abs(ta - tb)
    ra = pr * gr
    nu = 2 + 0.457 * ra ** 0.25 + (1 + 2.69e-8 * ra) ** (1 / 12)
    return nu * k / (2 * rad_) * (ta - tb)
  I = load()
  st = I.start()
  xs = [T.var('radius', 1, 50), T.var('balloon temperature', 100, 400), T.var('air temperature', 150, 320), T.var('pressure', 1000, 20000)]
  w = 'env/balloon/thermal.py (convective_heat_air_factor)'
  outs, exc = outcomes(I, lambda: I.call(I.lookup('env.balloon.thermal.convective_heat_air_factor'), [N(x) for x in xs], {}, st, None))
  got = [(s, [num(v) if numeric(v) else None]) for s, v in outs]
  if not got or any(x[1][0] is None for x in got):
    return r.undecided('heat-carried-by-air', 'convective_heat_air_factor', w)
  rnd = random.Random(11)
  pts = []
  for _ in range(60):
    q = [rnd.uniform(2, 12), rnd.uniform(180, 280), rnd.uniform(190, 240), rnd.uniform(4000, 15000)]
    pts.append((dict(zip((aof(x) for x in xs), q)), (oracle(*q),)))
  at_points(r, got, pts, ('heat-carried-by-air',), 'convective_heat_air_factor', w, {'heat-carried-by-air': (1e-6, PLAIN)})
  r.took(I)
