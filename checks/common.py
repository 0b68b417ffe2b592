"""Builders of symbolic inputs and summaries shared by the checks."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from fractions import Fraction  # pylint: disable=wrong-import-position

from pyabs import driver, terms as T, witness as W  # pylint: disable=wrong-import-position
from pyabs.program import AnalysisError  # pylint: disable=wrong-import-position
from pyabs.stubs import fresh_arr, opaque, opaque_num, numeric  # pylint: disable=wrong-import-position
from pyabs.stubs_np import listv  # pylint: disable=wrong-import-position
from pyabs.stubs_lib import mk_latlng  # pylint: disable=wrong-import-position
from pyabs.values import *  # pylint: disable=wildcard-import,wrong-import-position
from pyabs.values import E0, Cell  # pylint: disable=wrong-import-position

REPO = os.environ.get('VERIF_REPO', '/repo')

UNIT_KW = {'Distance': 'm', 'Velocity': 'mps', 'Energy': 'watt_hours', 'Power': 'watts'}
SOLAR = 'env.balloon.solar.'
BAL = 'env.balloon.balloon.'


class Refused(AnalysisError):
  """A call the property needs fails on every path."""


def one(outs, what='call'):
  if not outs:
    raise Refused(what)
  if len(outs) != 1:
    raise AnalysisError('%s: %d outcomes' % (what, len(outs)))
  return outs[0]


def unit(I, st, kind, p, lab=E0):
  """A unit value (Distance, Velocity, Energy, Power) of p base units."""
  v = p if isinstance(p, V) else N(p, lab=lab) if isinstance(p, T.Poly) else C(p, lab=lab)
  st, r = one(I.call(I.lookup('utils.units.' + kind), [], {UNIT_KW[kind]: v}, st, None), kind)
  return r


def unit_val(I, st, v, attr):
  """The value of a unit property, as a term."""
  outs = I.getattr(v, attr, st, None)
  st, r = one(outs, attr)
  return num(r)


def enum(I, cls, name):
  ci = I.lookup(cls).ci
  if ci.enum_values is None or name not in ci.enum_values:
    raise AnalysisError('enumeration member not found: %s.%s' % (cls, name))
  return En(ci, name)


ACC = 'env.balloon.control.AltitudeControlCommand'


def commands(I):
  ci = I.lookup(ACC).ci
  return {n: En(ci, n) for n in ci.enum_values}


# ------------------------------------------------------------------ summaries
def sum_solar_calculator(I, st, f, args, kw, node):
  """Elevation in [-90, 90] degrees, azimuth, flux >= 0: functions of place and time."""
  vals = list(args) + [kw[k] for k in ('latlng', 'time') if k in kw]
  el = opaque_num(I, st, 'solar.elevation', vals, rng=T.Iv(Fraction(-90), Fraction(90)))
  az = opaque_num(I, st, 'solar.azimuth', vals)
  fl = opaque_num(I, st, 'solar.flux', vals, rng=T.Iv(Fraction(0)))
  return [(st, Tup((el, az, fl)))]


def sum_sunrise_sunset(I, st, f, args, kw, node):
  """The next sunrise and sunset: functions of place and time."""
  vals = list(args[:2]) + [v for k, v in kw.items() if k in ('latlng', 'time')]
  lab = E0
  for v in vals:
    lab = lab | I.deep_lab(v, st)
  k = tuple(I.vkey(v, st) for v in vals)
  t = args[1] if len(args) > 1 else kw.get('time')
  res = []
  for n in ('sunrise', 'sunset'):
    p = T.poly(T.atom('fn', 'solar.' + n, k))
    if isinstance(t, DT):
      st.assume('>=', p, t.p)
    res.append(DT(p, lab=lab))
  return [(st, Tup(tuple(res)))]


def sum_solar_power(I, st, f, args, kw, node):
  """A power >= 0: a function of elevation and pressure."""
  p = opaque_num(I, st, 'solar.power', list(args) + list(kw.values()), rng=T.Iv(Fraction(0)))
  return [(st, unit(I, st, 'Power', p))]


def solar_summaries(I, power=True):
  for n, h in (('solar_calculator', sum_solar_calculator),
               ('get_next_sunrise_sunset', sum_sunrise_sunset)):
    I.lookup(SOLAR + n)
    I.summaries[SOLAR + n] = h
  if power:
    I.lookup(SOLAR + 'solar_power')
    I.summaries[SOLAR + 'solar_power'] = sum_solar_power


ATM = 'env.balloon.standard_atmosphere.'


def atm_values(I, st, obj, p, h):
  t = opaque_num(I, st, 'atm.temperature', [obj, N(p)], rng=T.Iv(Fraction(150), Fraction(320)))
  d = opaque_num(I, st, 'atm.density', [obj, N(p)], rng=T.Iv(Fraction(0), T.INF, True))
  ht = unit(I, st, 'Distance', h)
  return I.call(I.lookup(ATM + 'AtmosphericValues'), [ht, t, N(p), d], {}, st, None)


def atm_key(I, st, obj):
  """The identity of an atmosphere: its contents."""
  k = I.vkey(obj, st)
  ids = getattr(I, 'atm_ids', None)    # a scenario may number its atmospheres instead of spelling them out
  if ids is not None:
    k = ids.setdefault(k, len(ids))
  return O(T.atom('atm', k), 'obj', lab=I.deep_lab(obj, st))


def sum_at_pressure(I, st, f, args, kw, node):
  obj = args[0]
  p = args[1] if len(args) > 1 else kw.get('pressure')
  if p is None or not numeric(p) or num(p) is None:
    return None
  lab = p.lab | I.deep_lab(obj, st)
  h = opaque_num(I, st, 'atm.height', [atm_key(I, st, obj), p], rng=T.Iv(Fraction(-610), Fraction(71000)))
  I.emit(st, 'atm.at_pressure', p=p, height=h, node=node)
  return atm_values(I, st, atm_key(I, st, obj), num(p), num(h))


def sum_at_height(I, st, f, args, kw, node):
  obj = args[0]
  h = args[1] if len(args) > 1 else kw.get('height')
  hp = unit_val(I, st, h, 'meters')
  p = opaque_num(I, st, 'atm.pressure', [atm_key(I, st, obj), N(hp)],
                 rng=T.Iv(Fraction(0), Fraction(108871), True))
  return atm_values(I, st, atm_key(I, st, obj), num(p), hp)


def atm_summaries(I):
  for n, h in (('at_pressure', sum_at_pressure), ('at_height', sum_at_height)):
    I.getattr_static(I.lookup(ATM + 'Atmosphere'), n, I.base)
    I.summaries[ATM + 'Atmosphere.' + n] = h


# ------------------------------------------------------------------ symbolic states
def load(solar=True, atm=True):
  T.Atom.table.clear()  # a scenario's symbols carry its own ranges
  I = driver.load(REPO)
  if atm:
    atm_summaries(I)
  if solar:
    solar_summaries(I)
  return I


def latlng_var(st, name='centre', lab=E0):
  return mk_latlng(st, T.var(name + '.lat', -1.4, 1.4), T.var(name + '.lng', -3.14, 3.14), lab)


def dt_var(name='t', lab=E0):
  return DT(T.var(name, lab=lab), lab=lab)


UNIT_FIELDS = {'x': 'Distance', 'y': 'Distance', 'acs_power': 'Power', 'solar_charging': 'Power',
               'power_load': 'Power', 'battery_charge': 'Energy', 'battery_capacity': 'Energy',
               'nighttime_power_load': 'Power', 'daytime_power_load': 'Power',
               'acs_valve_hole_diameter': 'Distance'}


def balloon_state(I, st, labels=None, default=(), **over):
  """A BalloonState with symbolic (documented-range) fields.

  over: field -> V or (lo, hi); default: fields left at their defaults.
  """
  F = {'time_elapsed': 'td', 'pressure': (1000, 20000), 'ambient_temperature': (150, 320),
       'mols_lift_gas': (1, 20000), 'mols_air': (0, 20000), 'internal_temperature': (100, 400),
       'envelope_volume': (1, 5000), 'superpressure': (0, 2380), 'acs_power': (0, 400),
       'acs_mass_flow': (-1, 1), 'solar_charging': (0, 2000), 'power_load': (0, 1000),
       'battery_charge': 'charge', 'x': (None, None), 'y': (None, None), 'upwelling_infrared':
       (100, 400)}
  kw = {}
  lab = lambda f: frozenset([labels + f]) if labels else E0
  for f, r in F.items():
    if f in default:
      continue
    if f in over:
      r = over.pop(f)
    if isinstance(r, V):
      kw[f] = r
      continue
    if r == 'td':
      kw[f] = TD(T.var('time_elapsed', 0, lab=lab(f)), lab=lab(f))
      continue
    if r == 'charge':
      r = (0, 3058)
    lo = -T.INF if r[0] is None else r[0]
    hi = T.INF if r[1] is None else r[1]
    p = T.var(f, lo, hi, lab=lab(f))
    kw[f] = unit(I, st, UNIT_FIELDS[f], p, lab(f)) if f in UNIT_FIELDS else N(p, lab=lab(f))
  kw['center_latlng'] = over.pop('center_latlng', None) or latlng_var(st)
  kw['date_time'] = over.pop('date_time', None) or dt_var('date_time', lab('date_time'))
  kw.update({k: v for k, v in over.items() if v is not None})
  outs = I.call(I.lookup(BAL + 'BalloonState'), [], kw, st, None)
  return one(outs, 'BalloonState')


def balloon(I, st, **kw):
  """(state, Balloon value, BalloonState value)."""
  st, bs = balloon_state(I, st, **kw)
  st, b = one(I.call(I.lookup(BAL + 'Balloon'), [bs], {}, st, None), 'Balloon')
  st.roots = st.roots + (b, bs)
  return st, b, bs


def wind_vector(I, st, u=None, v=None, lab=E0):
  st, r = one(I.call(I.lookup('env.wind_field.WindVector'), [
      unit(I, st, 'Velocity', T.var(u or 'wind.u', lab=lab), lab),
      unit(I, st, 'Velocity', T.var(v or 'wind.v', lab=lab), lab)], {}, st, None), 'WindVector')
  return st, r


def atmosphere(I, st):
  k = O(T.atom('key', 'atmosphere'), 'key')
  outs = I.call(I.lookup('env.balloon.standard_atmosphere.Atmosphere'), [k], {}, st, None)
  return one(outs[:1], 'Atmosphere')


def field(I, st, ob, name):
  """Outcomes of reading an attribute."""
  return I.getattr(ob, name, st, None)


# ------------------------------------------------------------------ physics summaries
def sum_number(name, lo=None, hi=None):
  """A function of its arguments with a documented range."""
  rng = T.Iv(Fraction(lo) if lo is not None else -T.INF, Fraction(hi) if hi is not None else T.INF)
  def h(I, st, f, args, kw, node):
    return [(st, opaque_num(I, st, name, list(args) + [v for _, v in sorted(kw.items())],
                            rng=rng))]
  return h


SAFETY = {'envelope': 'env.balloon.envelope_safety.EnvelopeSafetyLayer',
          'altitude': 'env.balloon.altitude_safety.AltitudeSafetyLayer',
          'power': 'env.balloon.power_safety.PowerSafetyLayer'}


def method_summary(I, cls, name, h):
  """Summarises a public method, wherever in the class hierarchy it is defined."""
  m = I.getattr_static(I.lookup(cls), name, I.base)
  if isinstance(m, SM):
    m = m.fn
  if not isinstance(m, Fn):
    raise AnalysisError('not a method: %s.%s' % (cls, name))
  I.summaries[m.fi.short] = h


def layers_any(I, record=None):
  """Each safety layer may return any command (its contract is checked separately)."""
  cmds = commands(I)
  for k, c in SAFETY.items():
    def h(I, st, f, args, kw, node, k=k):
      I.emit(st, 'layer', layer=k, args=args, kw=kw, node=node)
      if record is not None:
        return record(I, st, k, args, kw)
      outs = []
      for n in cmds:
        outs.append((st.fork(), cmds[n]))
      return outs
    method_summary(I, c, 'get_action', h)


def fn_summary(I, dotted, h):
  f = I.lookup(dotted)
  if not isinstance(f, Fn):
    raise AnalysisError('not a function: ' + dotted)
  I.summaries[f.fi.short] = h


def thermal_summaries(I):
  fn_summary(I, 'env.balloon.thermal.d_balloon_temperature_dt', sum_number('thermal.dT'))


# ------------------------------------------------------------------ verdicts
OPAQUE_OPS = ('ext', 'call', 'meth', 'getitem')


def lossy_term(x, seen=None):
  """Whether a term contains a part the analysis could not follow."""
  if isinstance(x, T.Poly):
    return any(lossy_term(a, seen) for m in x.terms for a, _ in m)
  if isinstance(x, T.Atom):
    if any(str(l).startswith('imp:') for l in x.lab):
      return True
    if x.op in OPAQUE_OPS or x.op == 'phi':
      return True
    if x.op == 'var' and str(x.args[0]).startswith(('?', 'phi', 'elem#')):
      return True
    return lossy_term(x.args)
  if isinstance(x, (tuple, list, frozenset)):
    return any(lossy_term(y) for y in x)
  return False


def lossy(v):
  if v is None:
    return True
  if isinstance(v, V):
    if any(str(l).startswith('imp:') for l in v.lab):
      return True
    if isinstance(v, Un):
      return True
    if isinstance(v, O):
      return v.typ == '?' or lossy_term(v.a)
    p = num(v)
    return lossy_term(p) if p is not None else False
  return lossy_term(v)


def holds(st, op, p, q):
  """True, False or None (cannot follow) for p op q in every state the path stands for."""
  if p is None or q is None:
    return None
  if not isinstance(p, T.Poly):
    p = T.const(p)
  if not isinstance(q, T.Poly):
    q = T.const(q)
  r = st.facts.decide(op, p, q)
  if r is True:
    return True
  if op == '==' and T.close(p, q):
    return True
  if lossy_term(p) or lossy_term(q):
    return None
  if r is False:
    return False
  # Neither proved nor refuted symbolically: interpret the terms under valuations of the path.
  try:
    tried, bad, _ = W.confirm(st.facts, op, p, q)
  except W.Exhausted:
    return None
  if bad >= 2 or bad and tried < 20:
    return False
  if tried >= 20 and not bad:
    return True if op == '==' else None
  return False if not tried else None


def consistent(st):
  """Whether there is a valuation under which the path is taken."""
  try:
    return bool(W.confirm(st.facts, '==', T.ZERO, T.ZERO)[0])
  except W.Exhausted:
    return False


def same(st, p, *qs):
  """Whether a term equals one of the expected ones on this path."""
  if p is None:
    return None
  if any(q is not None and T.close(p, q, 1e-6) for q in qs):
    return True
  vs = []
  for q in qs:
    v = holds(st, '==', p, q) if q is not None else None
    if v is True:
      return True
    vs.append(v)
  return False if all(v is False for v in vs) else None


def read(I, st, ob, path):
  """The term or value at an attribute path; None if it has several alternatives."""
  v = ob
  for n in path.split('.'):
    outs = I.getattr(v, n, st.fork(), None)
    if len(outs) != 1:
      return None
    st, v = outs[0]
  return v


def readn(I, st, ob, path):
  v = read(I, st, ob, path)
  if isinstance(v, (TD, DT)):
    return v.p
  return None if v is None else num(v)


def describe(I, st):
  return '; '.join(str(x) for x in list(st.trace)[-6:])


def exceptions(I):
  return list(I.sinks[-1])


def show(p):
  return T.show(p) if isinstance(p, T.Poly) else str(p)
