"""The environment: reward, termination, determinism, episode isolation, wind use (P01, P02, P17-P20)."""
import math

from common import *
from features import prop_summary

ENV = 'env.balloon_env.'
LN2S = (Fraction('0.69314718056'), Fraction(math.log(2)))
WR = 'env/balloon_env.py (perciatelli_reward_function)'


# ------------------------------------------------------------------ reward
def reward_state(I, st, excess, cmd, **over):
  prop_summary(I, BAL + 'BalloonState', 'excess_energy', lambda I, st, f, a, k, nd: [(st, C(excess))])
  st, bs = balloon_state(I, st, last_command=cmd, **over)
  st, wf = one(I.call(I.lookup('env.wind_field.SimpleStaticWindField'), [], {}, st, None))
  st, atmo = atmosphere(I, st)
  st, ss = one(I.call(I.lookup('env.simulator_data.SimulatorState'), [bs, wf, atmo], {}, st, None))
  st.roots = st.roots + (ss, bs)
  return st, ss, bs


def p17(r, tier):
  """Reward formula and range."""
  params = [dict(), dict(station_keeping_radius_km=30.0, reward_dropoff=0.25, reward_halflife=50.0)]
  for kw in params:
    R_ = T.const(Fraction(str(kw.get('station_keeping_radius_km', 50.0))) * 1000)
    drop = Fraction(str(kw.get('reward_dropoff', 0.4)))
    half = Fraction(str(kw.get('reward_halflife', 100.0)))
    for excess in (False, True):
      for cname in ('UP', 'STAY', 'DOWN'):
        I = load()
        st = I.start()
        st, ss, bs = reward_state(I, st, excess, commands(I)[cname], acs_power=(0, 500))
        I.sinks = [[]]
        outs = I.call(I.lookup(ENV + 'perciatelli_reward_function'), [ss],
                      {k: C(v) for k, v in kw.items()}, st.fork(), None)
        what = 'command %s, excess energy %s, %s' % (cname, excess, 'defaults' if not kw else 'other parameters')
        if not outs:
          r.fail('reward-exists', what, WR, str(exceptions(I)[:2]))
        x, y = readn(I, st, bs, 'x.meters'), readn(I, st, bs, 'y.meters')
        pw = readn(I, st, bs, 'acs_power.watts')
        d = T.power(x * x + y * y, Fraction(1, 2))
        for s, v in outs:
          p = num(v)
          r.check(holds(s, '>=', p, 0), 'reward-nonnegative', what, WR, show(p))
          r.check(holds(s, '<=', p, 1), 'reward-at-most-1', what, WR, show(p))
          inside = s.facts.decide('<=', d, R_)
          if inside is None:
            r.check(None if lossy_term(p) else False, 'reward-depends-on-radius', what, WR,
                    'one formula %s on both sides of the radius' % show(p))
            continue
          base = T.const(1) if inside else None
          mult = T.const(1)
          if cname == 'DOWN' and not excess:
            s01 = (pw - T.const(100)).scale(Fraction(1, 200))
            cl = [s01, T.tmin([T.tmax([s01, T.const(0)], s.facts), T.const(1)], s.facts),
                  T.tmax([T.tmin([s01, T.const(1)], s.facts), T.const(0)], s.facts)]
            mults = [T.const(Fraction('0.95')) - c.scale(Fraction('0.3')) for c in cl[1:]]
          else:
            mults = [mult]
          if base is None:
            dd = (d - R_).scale(Fraction(1, 1000))
            bases = [T.poly(T.atom('exp', dd.scale(-k / half))).scale(drop) for k in LN2S]
          else:
            bases = [base]
          want = [b * m for b in bases for m in mults]
          ok = same(s, p, *want)
          r.check(ok, 'reward-formula', '%s, %s' % (what, 'inside' if inside else 'outside'), WR,
                  '%s, expected %s' % (show(p), show(want[0])))
        r.took(I)
        r.count('reward outcomes', len(outs))





# ------------------------------------------------------------------ whole environment
STABLE = 'env.balloon.stable_init.'


def reach(I, st, v):
  """Every value reachable from v: (path, value)."""
  seen, todo = set(), [('', v)]
  while todo:
    path, x = todo.pop()
    if isinstance(x, R):
      if x.addr in seen or not st.has(x.addr):
        yield path, x
        continue
      seen.add(x.addr)
      yield path, x
      c = st.cell(x.addr)
      it = c.d.items() if isinstance(c.d, dict) else enumerate(c.d)
      for k, y in it:
        if isinstance(y, V):
          todo.append(('%s.%s' % (path, k) if isinstance(k, str) else '%s[%s]' % (path, k), y))
      if isinstance(c.meta, dict):
        for k, y in c.meta.items():
          if isinstance(y, V):
            todo.append(('%s<%s>' % (path, k), y))
      continue
    yield path, x
    kids = (x.items if isinstance(x, Tup) else x.alts if isinstance(x, Un) else
            [x.self_] if isinstance(x, BM) else list(x.args) + [w for _, w in x.kw] if isinstance(x, Pa)
            and not isinstance(x.kw, dict) else [x.elem] if isinstance(x, Gen) and isinstance(x.elem, V) else [])
    for y in kids:
      if isinstance(y, V):
        todo.append((path, y))


def own_lab(v):
  l = v.lab
  if isinstance(v, (N, TD, DT)):
    l = l | v.p.lab
  elif isinstance(v, O):
    l = l | v.a.lab
  return l


def tainted(I, st, v, prefix):
  """Paths below v that carry a label with the prefix."""
  out = []
  for path, x in reach(I, st, v):
    for l in own_lab(x):
      if str(l).startswith(prefix):
        out.append((path, str(l)))
  return sorted(set(out))


def sum_cold_start(I, st, f, args, kw, node):
  """Sets the five thermodynamic fields to functions of the balloon state and the atmosphere."""
  vals = list(args) + [kw[k] for k in ('balloon_state', 'atmosphere') if k in kw]
  bs, atmo = vals[0], vals[1]
  lab = E0
  for v in (bs, atmo):
    for _, x in reach(I, st, v):
      lab = lab | own_lab(x)
  for n, lo, hi in (('ambient_temperature', 150, 320), ('internal_temperature', 100, 400), ('mols_air', 0, 20000),
                    ('envelope_volume', 1, 5000), ('superpressure', -5000, 5000)):
    v = N(T.fresh('stable.' + n, lab=lab, rng=T.Iv(Fraction(lo), Fraction(hi))), lab=lab)
    st, = [s for s in I.setattr(bs, n, v, st, node)]
  return [(st, NONE)]


def env_summaries(I, calls):
  """Feature construction is summarised: its contracts are decided by P15, P16 and P21."""
  fn_summary(I, STABLE + 'cold_start_to_stable_params', sum_cold_start)
  thermal_summaries(I)
  FC = 'env.features.PerciatelliFeatureConstructor'

  def ob(I, st, f, args, kw, node):
    o = (list(args[1:]) + list(kw.values()))[0]
    calls.append(('observe', st.fork(), args[0], o))
    hist = I.getattr(args[0], '_abs_history', st, None) if has(I, st, args[0], '_abs_history') else None
    old = hist[0][1] if hist else Tup(())
    st, = I.setattr(args[0], '_abs_history', Tup(tuple(old.items)[-3:] + (snapshot(I, st, o),)), st, node)
    return [(st, NONE)]

  def gf(I, st, f, args, kw, node):
    calls.append(('features', st.fork(), args[0], None))
    lab = E0
    for _, x in reach(I, st, args[0]):
      lab = lab | own_lab(x)
    return [(st, fresh_arr(st, N(T.fresh('feature', lab=lab), lab=lab), (1099,), dtype='float32', lab=lab))]
  method_summary(I, FC, 'observe', ob)
  method_summary(I, FC, 'get_features', gf)


def has(I, st, ob, name):
  return isinstance(ob, R) and st.has(ob.addr) and name in st.cell(ob.addr).d


def snapshot(I, st, o):
  lab = E0
  for _, x in reach(I, st, o):
    lab = lab | own_lab(x)
  return C('seen', lab=lab)


DYN = {'x': (None, None), 'y': (None, None), 'pressure': (1000, 20000), 'ambient_temperature': (150, 320),
       'mols_air': (0, 20000), 'internal_temperature': (100, 400), 'envelope_volume': (1, 5000),
       'superpressure': (-5000, 5000), 'acs_power': (0, 400), 'acs_mass_flow': (-1, 1),
       'solar_charging': (0, 2000), 'power_load': (0, 1000), 'battery_charge': (0, 3058)}


def sum_simulate(status, calls):
  """A step of the balloon: its contract is decided by P04-P09."""
  def h(I, st, f, args, kw, node):
    b = args[0]
    names = ('wind_vector', 'atmosphere', 'action', 'time_delta', 'stride')
    a = dict(zip(names, args[1:]))
    a.update(kw)
    calls.append(('simulate', st.fork(), b, a))
    bs = read(I, st, b, 'state')
    lab = E0
    for v in [bs] + list(a.values()):
      for _, x in reach(I, st, v):
        lab = lab | own_lab(x)
    for n, (lo, hi) in DYN.items():
      p = T.fresh(n + '@', lab=lab, rng=T.Iv(-T.INF if lo is None else Fraction(lo), T.INF if hi is None else Fraction(hi)))
      v = unit(I, st, UNIT_FIELDS[n], p, lab) if n in UNIT_FIELDS else N(p, lab=lab)
      st, = I.setattr(bs, n, v, st, node)
    d = a.get('time_delta')
    for n in ('date_time', 'time_elapsed'):
      old = read(I, st, bs, n)
      if d is not None and isinstance(d, TD) and isinstance(old, (DT, TD)):
        new = type(old)(old.p + d.p, lab=lab)
        st, = I.setattr(bs, n, new, st, node)
    st, = I.setattr(bs, 'last_command', a['action'], st, node)
    st, = I.setattr(bs, 'status', enum(I, BAL + 'BalloonStatus', status).with_lab(lab), st, node)
    return [(st, NONE)]
  return h


class Env:
  """An environment over a wind field whose queries are uninterpreted functions of their arguments."""

  def __init__(self, status='OK', seed='seed:new', field=None, kw=None, gt=True):
    I = self.I = load()
    I.cap = 16
    self.calls = []
    env_summaries(I, self.calls)
    method_summary(I, BAL + 'Balloon', 'simulate_step', sum_simulate(status, self.calls))
    if gt:
      for n in ('get_ground_truth', 'get_forecast', 'get_forecast_column'):
        self.field_method(n)
    st = I.start()
    I.sinks = [[]]
    self.status = status
    sd = NONE if seed is None else self.seed(seed)
    k = {'seed': sd, 'wind_field_factory': I.lookup(field or 'env.wind_field.SimpleStaticWindField')}
    k.update(kw(I, st) if kw else {})
    outs = I.call(I.lookup(ENV + 'BalloonEnv'), [], k, st, None)
    self.excs = exceptions(I)
    self.st, self.env = one(outs, 'BalloonEnv(...)')
    self.st.roots = self.st.roots + (self.env,)

  def seed(self, l):
    if isinstance(l, int):
      return C(l)
    L = frozenset([l])
    return N(T.var(l, isint=True, lo=0, lab=L), 'int', lab=L)

  def field_method(self, n):
    def h(I, st, f, args, kw, node):
      pn = ('x', 'y', 'pressure', 'elapsed_time')
      a = dict(zip(pn, args[1:]))
      a.update(kw)
      self.calls.append((n, st.fork(), args[0], a))
      lab = E0
      for v in [args[0]] + list(a.values()):
        for _, x in reach(I, st, v):
          lab = lab | own_lab(x)
      if n == 'get_forecast_column':
        return None
      key = tuple(I.vkey(a.get(x, NONE), st, 6) for x in pn)
      comp = []
      for c in 'uv':
        comp.append(unit(I, st, 'Velocity', T.poly(T.atom('fn', n + '.' + c, key, rng=T.Iv(), lab=lab)), lab))
      return I.call(I.lookup('env.wind_field.WindVector'), comp, {}, st, node)
    method_summary(self.I, 'env.wind_field.SimpleStaticWindField', n, h) if n != 'get_ground_truth' else \
        method_summary(self.I, 'env.wind_field.WindField', n, h)

  def call(self, name, args=(), kw=None, st=None):
    I = self.I
    I.sinks = [[]]
    outs = I.call_method(self.env, name, list(args), kw or {}, (st or self.st).fork(), None)
    self.excs = exceptions(I)
    return outs

  def bs(self, st):
    a = read(self.I, st, self.env, 'arena')
    s, v = one(self.I.call_method(a, 'get_balloon_state', [], {}, st, None), 'get_balloon_state')
    return v


WS = 'env/balloon_env.py (BalloonEnv.step), env/balloon_arena.py (BalloonArena.step)'
KEYS = ('x', 'y', 'pressure', 'time_elapsed')


def place(I, st, bs):
  return tuple(I.vkey(read(I, st, bs, k), st, 6) for k in KEYS)


def gt_wind(I, st, bs):
  """The ground truth at the balloon, as the model of the field names it."""
  key = place(I, st, bs)
  return [T.Atom.table.get(('fn', ('get_ground_truth.' + c, key))) for c in 'uv']


def is_gt(I, st, wv, bs, old=None):
  """Whether a wind is the truth where the balloon is; old: the names of the truth where it was before it moved."""
  want = gt_wind(I, st, bs)
  got = [readn(I, st, wv, c + '.mps') for c in 'uv']
  if any(g is None for g in got):
    return None
  if old and None not in old and old != want and all(T.poly(w) == g for g, w in zip(got, old)):
    return False
  if None in want:
    return None if any(lossy_term(g) for g in got) else False
  v = all(same(st, g, T.poly(w)) is True for g, w in zip(got, want))
  return v or (None if any(lossy_term(g) for g in got) else False)


def p18(r, tier):
  """The wind a balloon flies in and measures is the ground truth where it is."""
  for status in ('OK', 'OUT_OF_POWER'):
    E = Env(status=status)
    I = E.I
    for op, args, kw in [('step', [C(a)], {}) for a in range(3)] + [('reset', [], {}), ('reset', [], {'seed': C(7)})]:
      E.calls.clear()
      outs = E.call(op, args, kw)
      what = '%s(%s)' % (op, ', '.join(str(a.val) for a in args + list(kw.values())))
      if not outs:
        r.fail('completes', what, WS, str(E.excs[:2]))
        continue
      n = {}
      old = gt_wind(I, E.st, E.bs(E.st))
      for kind, st, ob, a in E.calls:
        n[kind] = n.get(kind, 0) + 1
        try:
          bs = E.bs(st)
        except AnalysisError:
          bs = None
        if kind == 'simulate':
          b = read(I, st, ob, 'state')
          r.check(is_gt(I, st, a.get('wind_vector'), b), 'flies-in-true-wind', what, WS,
                  'the wind passed to the simulation is not the ground truth at the balloon')
        elif kind == 'observe':
          o = read(I, st, a, 'balloon_observation')
          w = read(I, st, a, 'wind_at_balloon')
          moved = bs is not None and place(I, st, bs) != place(I, E.st, E.bs(E.st))
          r.check(is_gt(I, st, w, bs, old if moved else None) if bs is not None else None, 'measures-true-wind', what, WS,
                  'the measured wind is not the ground truth at the balloon')
          v = None
          if bs is not None and o is not None:
            v = I.vkey(o, st, 6) == I.vkey(bs, st, 6)
          r.check(v, 'observes-own-state', what, WS, 'the observed balloon state is not the current one')
        elif kind == 'get_ground_truth' and bs is not None:
          key = tuple(I.vkey(a.get(x, NONE), st, 6) for x in ('x', 'y', 'pressure', 'elapsed_time'))
          v = key == place(I, st, bs)
          r.check(v or (None if any(lossy(x) for x in a.values()) else False), 'queries-own-place', what, WS,
                  'ground truth queried at %s' % (a,))
      if op == 'step':
        r.check(n.get('simulate', 0) >= 1, 'step-simulates', what, WS, 'no balloon simulation')
      r.check(n.get('observe', 0) >= 1, 'step-observes', what, WS, 'no measurement reaches the features')
      r.count('abstract outcomes', len(outs))
    r.took(I)
  # Feature construction sees forecasts and measurements only.
  for c in ('env.features.PerciatelliFeatureConstructor',):
    hidden(r, c)


def hidden(r, cls):
  """A feature constructor never asks the wind field for the ground truth."""
  I = load()
  hits, fc_calls = [], [0]

  def gt(I, st, f, args, kw, node):
    hits.append(I.where(node, st))
    return None

  def fcq(I, st, f, args, kw, node):
    fc_calls[0] += 1
    return None
  method_summary(I, 'env.wind_field.WindField', 'get_ground_truth', gt)
  method_summary(I, 'env.wind_field.SimpleStaticWindField', 'get_forecast', fcq)
  fn_summary(I, 'env.balloon.power_table.lookup', sum_number('power_table', 0, 350))

  def pr(I, st, f, args, kw, node):
    return I.call(I.lookup('env.balloon.pressure_range_builder.AccessiblePressureRange'),
                  [C(1.0), C(0.0)], {}, st, node)
  fn_summary(I, 'env.balloon.pressure_range_builder.get_pressure_range', pr)
  st = I.start()
  st, b, bs = balloon(I, st, pressure=(7990, 8010))
  st, wv = wind_vector(I, st)
  st, atmo = atmosphere(I, st)
  st, wf = one(I.call(I.lookup('env.wind_field.SimpleStaticWindField'), [], {}, st, None))
  st, fc = one(I.call(I.lookup(cls), [wf, atmo], {}, st, None))
  st, obs = one(I.call(I.lookup('env.simulator_data.SimulatorObservation'), [bs, wv], {}, st, None))
  st.roots = st.roots + (wv, atmo, wf, fc, obs)
  I.sinks = [[]]
  outs = [s for s, _ in I.call_method(fc, 'observe', [obs], {}, st, None)]
  n = 0
  for s in outs[:4]:
    n += len(I.call_method(fc, 'get_features', [], {}, s, None))
  what = cls.split('.')[-1]
  r.check(not hits, 'features-never-query-truth', what, ', '.join(hits[:3]), 'ground truth is queried')
  r.check(True if n else None, 'features-complete', what, '', str(exceptions(I)[:2]))
  r.count('forecast queries', fc_calls[0])
  r.took(I)


FLAGS = {'out_of_power': 'OUT_OF_POWER', 'envelope_burst': 'BURST', 'zeropressure': 'ZEROPRESSURE'}
MEAN = {0: 'DOWN', 1: 'STAY', 2: 'UP'}


def truthy(v):
  if isinstance(v, C):
    return bool(v.val)
  return None


def item(I, st, v, k):
  outs = I.getitem(v, C(k), st.fork(), None)
  return outs[0][1] if len(outs) == 1 else None


def p19(r, tier):
  """A step is one command for three minutes; its result tells exactly what happened."""
  for status in ('OK', 'OUT_OF_POWER', 'BURST', 'ZEROPRESSURE'):
    E = Env(status=status)
    I = E.I
    rewards = []

    def rf(I, st, f, args, kw, node):
      ss = (list(args) + list(kw.values()))[0]
      rewards.append((st.fork(), ss))
      b = read(I, st, ss, 'balloon_state')
      return [(st, N(T.poly(T.atom('fn', 'reward', (I.vkey(b, st, 6),), rng=T.Iv()))))]
    fn_summary(I, ENV + 'perciatelli_reward_function', rf)
    for a in range(3):
      E.calls.clear()
      rewards.clear()
      outs = E.call('step', [C(a)])
      what = 'action %d, balloon ends %s' % (a, status)
      if not outs:
        r.fail('step-completes', what, WS, str(E.excs[:2]))
      sims = [c for c in E.calls if c[0] == 'simulate']
      r.check(True if sims else False, 'step-simulates', what, WS, 'no simulation')
      for _, st, b, kw in sims:
        c = kw.get('action')
        r.check(c.name == MEAN[a] if isinstance(c, En) else None, 'action-meaning', what, WS, str(c))
      for st, v in outs:
        if not isinstance(v, Tup) or len(v.items) != 4:
          r.check(None if lossy(v) else False, 'step-result', what, WS, str(v))
          continue
        ob, rw, term, info = v.items
        bs = E.bs(st)
        t0, t1 = readn(I, E.st, E.bs(E.st), 'time_elapsed'), readn(I, st, bs, 'time_elapsed')
        r.check(holds(st, '==', t1 - t0, 180) if t1 is not None else None, 'three-minutes', what, WS,
                '%s to %s' % (show(t0), show(t1)))
        anyf = False
        for k, s in FLAGS.items():
          f = truthy(item(I, st, info, k))
          anyf = anyf or status == s
          r.check(None if f is None else f == (status == s), 'flag-matches-status', '%s, flag %s' % (what, k), WS,
                  'flag is %s' % f)
        t = truthy(term)
        r.check(None if t is None else t == (status != 'OK'), 'terminal-iff-failed', what, WS, 'terminal is %s' % t)
        te = item(I, st, info, 'time_elapsed')
        e = readn(I, st, bs, 'time_elapsed')
        r.check(same(st, te.p, e) if isinstance(te, TD) and e is not None else None, 'elapsed-reported', what, WS, str(te))
        want = T.Atom.table.get(('fn', ('reward', (I.vkey(bs, st, 6),))))
        p = num(rw)
        v2 = None if p is None else same(st, p, T.poly(want)) if want is not None else (
            None if lossy_term(p) else False)
        r.check(v2, 'reward-of-new-state', what, WS, show(p))
        feats = [s for k, s, _, _ in E.calls if k == 'features']
        r.check(True if feats else False, 'observation-is-features', what, WS, 'no features are computed')
        seq = [k for k, _, _, _ in E.calls if k in ('simulate', 'observe', 'features')]
        ok = 'observe' in seq and seq.index('simulate') < seq.index('observe') if 'simulate' in seq else None
        r.check(ok, 'observes-after-simulating', what, WS, ' '.join(seq[:6]))
        r.count('step outcomes')
    for bad in (-1, 3, 17):
      outs = E.call('step', [C(bad)])
      r.check(not outs and bool(E.excs), 'invalid-action-rejected', 'action %d' % bad, WS, 'the step completes')
    r.took(I)
  E = Env()
  I = E.I
  s, sp = one(I.getattr(E.env, 'action_space', E.st.fork(), None), 'action_space')
  n = readn(I, s, sp, 'n')
  r.check(None if n is None else holds(s, '==', n, 3), 'three-actions', 'action space', WS, show(n))


# ------------------------------------------------------------------ start conditions
WI = 'env/balloon_arena.py (BalloonArena.reset)'


def p20(r, tier):
  """Every episode starts with a healthy balloon within the documented region."""
  E = Env()
  I = E.I
  for what, kw in (('reset()', {}), ('reset(seed)', {'seed': E.seed('seed:b')})):
    outs = E.call('reset', [], kw)
    if not outs:
      r.fail('reset-completes', what, WI, str(E.excs[:2]))
    for st, _ in outs:
      bs = E.bs(st)
      g = lambda f: readn(I, st, bs, f)
      x, y = g('x.meters'), g('y.meters')
      d2 = x * x + y * y if x is not None and y is not None else None
      ok = None
      if d2 is not None:
        ok = polar(st, x, y, 200000, None)
        if ok is None:
          ok = holds(st, '<=', d2, Fraction(200000) ** 2)
      r.check(ok, 'starts-within-200km', what, WI, '%s, %s' % (show(x), show(y)))
      s = read(I, st, bs, 'status')
      r.check(s.name == 'OK' if isinstance(s, En) else None, 'starts-healthy', what, WI, str(s))
      r.check(holds(st, '==', g('time_elapsed'), 0), 'clock-starts-at-zero', what, WI, show(g('time_elapsed')))
      p = g('pressure')
      r.check(holds(st, '>=', p, 6500), 'pressure-not-too-low', what, WI, show(p))
      hgt = floor_pressure(I, st, E)
      r.check(holds(st, '<=', p, hgt) if hgt is not None else None, 'starts-above-floor', what, WI,
              '%s vs %s' % (show(p), show(hgt)))
      ll = read(I, st, bs, 'center_latlng')
      lat = readn(I, st, ll, 'lat') if ll is not None else None
      c = st.cell(ll.addr) if isinstance(ll, R) else None
      if c is not None and 'lat' in c.d:
        lat = num(c.d['lat'])
        lim = Fraction(math.radians(10)) + Fraction(1, 10 ** 9)
        r.check(holds(st, '<=', lat, lim), 'tropics', what, WI, show(lat))
        r.check(holds(st, '>=', lat, -lim), 'tropics', what, WI, show(lat))
      up = g('upwelling_infrared')
      r.check(holds(st, '>=', up, 225), 'infrared-floor', what, WI, show(up))
      t = g('date_time')
      lo, hi = epoch(2011, 1, 1), epoch(2014, 12, 31)
      r.check(holds(st, '>=', t, lo), 'date-in-range', what, WI, show(t))
      r.check(holds(st, '<=', t, hi), 'date-in-range', what, WI, show(t))
      ch = g('battery_charge.watt_hours')
      cap = g('battery_capacity.watt_hours')
      r.check(holds(st, '>', ch, 0), 'starts-charged', what, WI, show(ch))
      r.check(holds(st, '<=', ch, cap), 'starts-charged', what, WI, show(ch))
  r.took(I)


def epoch(y, m, d):
  import datetime
  return Fraction(int((datetime.datetime(y, m, d) - datetime.datetime(1970, 1, 1)).total_seconds()))


def polar(st, x, y, lim, dflt):
  """x = r cos t, y = r sin t with 0 <= r <= lim."""
  at = lambda p: [a for m in p.terms for a, _ in m]
  cs = [a for a in at(x) if a.op in ('cos', 'sin')]
  sn = [a for a in at(y) if a.op in ('cos', 'sin')]
  if len(cs) == 1 and len(sn) == 1 and {cs[0].op, sn[0].op} == {'cos', 'sin'} and cs[0].args == sn[0].args:
    rx, ry = T.div(x, T.poly(cs[0])), T.div(y, T.poly(sn[0]))
    if same(st, rx, ry) is True:
      return holds(st, '<=', rx, lim)
  return dflt


def floor_pressure(I, st, E):
  """The pressure at the altitude floor in the episode's atmosphere."""
  s, ss = one(I.call_method(E.env, 'get_simulator_state', [], {}, st.fork(), None), 'get_simulator_state')
  atmo = read(I, s, ss, 'atmosphere')
  h = I.lookup('env.balloon.altitude_safety.MIN_ALTITUDE')
  outs = I.call_method(atmo, 'at_height', [h], {}, s, None)
  if len(outs) != 1:
    return None
  return readn(I, outs[0][0], outs[0][1], 'pressure')


# ------------------------------------------------------------------ determinism and isolation
FIELDS = ('env.wind_field.SimpleStaticWindField',)


def clean(r, E, st, v, prefix, rule, what, where_):
  I = E.I
  bad = tainted(I, st, v, prefix)
  ctrl = [str(l) for l in getattr(st, 'ctrl', ()) or () if str(l).startswith(prefix)]
  imp = [p for p, l in tainted(I, st, v, 'imp:')]
  r.check(not bad and not ctrl, rule, what, where_, 'depends on %s' % (bad[:3] or ctrl[:3]))


def p01(r, tier):
  """With a seed, nothing in the environment depends on a source of nondeterminism."""
  E = Env(seed='seed:new')
  I = E.I
  clean(r, E, E.st, E.env, 'nondet:', 'environment-determined-by-seed', 'BalloonEnv(seed)', WI)
  frontier = [('BalloonEnv(seed)', E.st)]
  for depth in range(2 if tier == 'quick' else 3):
    nxt = []
    for what, st in frontier:
      for op, args, kw in ([('step', [C(a)], {}) for a in range(3)] + [
          ('reset', [], {}), ('reset', [], {'seed': E.seed('seed:b')}), ('reset', [], {'seed': E.seed(0)}),
          ('reset', [], {'seed': E.seed('seed:b'), 'return_info': TRUE})]):
        w = '%s; %s(%s)' % (what, op, ', '.join([str(a.val) for a in args] + sorted(kw)))
        outs = E.call(op, args, kw, st)
        if not outs:
          r.fail('operation-completes', w, WS, str(E.excs[:2]))
        for s, v in outs:
          clean(r, E, s, v, 'nondet:', 'result-determined-by-seed', w, WS)
          clean(r, E, s, E.env, 'nondet:', 'environment-determined-by-seed', w, WS)
        nxt += [(w, s) for s, _ in outs[:1]]
    frontier = nxt if tier != 'quick' else nxt[:4]
  r.took(I)
  # zero is a seed like any other
  E = Env(seed=0)
  clean(r, E, E.st, E.env, 'nondet:', 'environment-determined-by-seed', 'BalloonEnv(seed 0)', WI)
  for op, args in (('step', [C(0)]), ('reset', [])):
    outs = E.call(op, args)
    r.check(bool(outs), 'operation-completes', 'BalloonEnv(seed 0); %s' % op, WI, str(E.excs[:2]))
    for s, v in outs:
      clean(r, E, s, v, 'nondet:', 'result-determined-by-seed', 'BalloonEnv(seed 0); %s' % op, WS)
      clean(r, E, s, E.env, 'nondet:', 'environment-determined-by-seed', 'BalloonEnv(seed 0); %s' % op, WS)
  r.took(E.I)
  # the arena by itself
  arena_seeds(r)
  # The parts summarised above.
  parts(r)


def arena_seeds(r):
  for kind in ('int', 'zero', 'key'):
    I = load()
    calls = []
    env_summaries(I, calls)
    st = I.start()
    L = frozenset(['seed:a'])
    sd = {'int': N(T.var('seed', isint=True, lo=0, lab=L), 'int', lab=L),
          'zero': C(0), 'key': O(T.atom('key', 'seed:a', lab=L), 'key', lab=L)}[kind]
    st, wf = one(I.call(I.lookup('env.wind_field.SimpleStaticWindField'), [], {}, st, None))
    I.sinks = [[]]
    outs = I.call(I.lookup('env.balloon_arena.BalloonArena'), [
        I.lookup('env.features.PerciatelliFeatureConstructor'), wf], {'seed': sd}, st, None)
    r.check(True if outs else False, 'operation-completes', 'BalloonArena(seed: %s)' % kind, WI, str(exceptions(I)[:2]))
    for s, a in outs:
      bad = tainted(I, s, a, 'nondet:')
      r.check(not bad, 'environment-determined-by-seed', 'BalloonArena(seed: %s)' % kind, WI, str(bad[:3]))
      s.roots = s.roots + (a,)
      for s2, v in I.call_method(a, 'reset', [sd], {}, s.fork(), None):
        bad = tainted(I, s2, v, 'nondet:') + tainted(I, s2, a, 'nondet:')
        r.check(not bad, 'environment-determined-by-seed', 'BalloonArena.reset(%s)' % kind, WI, str(bad[:3]))


def parts(r):
  """Functions summarised at the environment level are deterministic too."""
  import physics
  S = physics.Strides()
  for n, st in S.each():
    bad = tainted(S.I, st, S.b, 'nondet:')
    r.check(not bad, 'simulation-deterministic', 'command %s' % n, physics.where(S.I), str(bad[:3]))
  r.took(S.I)
  import features
  v, c = next(iter(features.observations('quick')))
  O1 = features.build(v, c)
  for st, vec in O1.outs:
    bad = tainted(O1.I, st, vec, 'nondet:') + tainted(O1.I, st, O1.fc, 'nondet:')
    r.check(not bad, 'features-deterministic', features.vname(v, c), features.WF, str(bad[:3]))
  r.took(O1.I)
  # wind regression
  I = load()
  st = I.start()
  st, b, bs = balloon(I, st)
  st, wf = one(I.call(I.lookup('env.wind_field.SimpleStaticWindField'), [], {}, st, None))
  st, g = one(I.call(I.lookup('env.wind_gp.WindGP'), [wf], {}, st, None))
  st, wv = wind_vector(I, st)
  st.roots = st.roots + (bs, g, wv)
  x, y, p, t = (read(I, st, bs, k) for k in KEYS)
  outs = I.call_method(g, 'observe', [x, y, p, t, wv], {}, st, None)
  for s, _ in outs:
    for s2, v in I.call_method(g, 'query', [x, y, p, t], {}, s, None):
      bad = tainted(I, s2, v, 'nondet:') + tainted(I, s2, g, 'nondet:')
      r.check(not bad, 'regression-deterministic', 'WindGP', 'env/wind_gp.py', str(bad[:3]))
  r.took(I)
  # wind fields
  import winds
  for cls in winds.FIELDS:
    F = winds.Field(cls, lab='seed:a')
    st = F.st.fork()
    q = F.place(st)
    st.roots = st.roots + tuple(q)
    bad = tainted(F.I, st, F.f, 'nondet:')
    r.check(not bad, 'wind-determined-by-seed', '%s.reset' % cls, F.where, str(bad[:3]))
    for m in ('get_forecast', 'get_ground_truth'):
      for s, w in F.call(m, q, st)[:8]:
        bad = tainted(F.I, s, w, 'nondet:')
        r.check(not bad, 'wind-determined-by-seed', '%s.%s' % (cls, m), F.where, str(bad[:3]))
    r.took(F.I)
  # the start-up solver and the samplers
  I = load()
  I.cap = 4
  thermal_summaries(I)
  st = I.start()
  st, b, bs = balloon(I, st)
  st, atmo = atmosphere(I, st)
  st.roots = st.roots + (bs, atmo)
  for s, _ in I.call(I.lookup(STABLE + 'cold_start_to_stable_params'), [bs, atmo], {}, st, None):
    bad = tainted(I, s, bs, 'nondet:')
    r.check(not bad, 'start-deterministic', 'cold start', 'env/balloon/stable_init.py', str(bad[:3]))
  r.took(I)


def p02(r, tier):
  """A seeded reset forgets everything that happened before."""
  for status in ('OK', 'OUT_OF_POWER'):
    E = Env(seed='old:seed', status=status)
    I = E.I
    st = E.st
    # Fly a little: actions and everything they lead to are marked old as well.
    hist = [('BalloonEnv(old)', st)]
    for a in ((0, 2) if tier == 'quick' else (0, 1, 2)):
      outs = E.call('step', [C(a, lab=frozenset(['old:action']))], {}, st)
      hist += [('steps', s) for s, _ in outs[:2]]
      if outs:
        st = outs[0][0]
    for h, s0 in hist:
      for kw in ({'seed': E.seed('seed:new')}, {'seed': E.seed('seed:new'), 'return_info': TRUE}, {'seed': E.seed(0)}):
        what = '%s; reset(%s%s)' % (h, 'seed 0' if isinstance(kw['seed'], C) else 'new seed',
                                    ', return_info' if len(kw) > 1 else '')
        E.calls.clear()
        outs = E.call('reset', [], kw, s0)
        if not outs:
          r.fail('operation-completes', what, WI, str(E.excs[:2]))
        for s, v in outs:
          clean(r, E, s, v, 'old:', 'first-observation-forgets', what, WI)
          arena = read(I, s, E.env, 'arena')
          clean(r, E, s, arena, 'old:', 'simulator-forgets', what, WI)
          for a in range(3):
            for s2, v2 in E.call('step', [C(a)], {}, s)[:4]:
              clean(r, E, s2, v2, 'old:', 'step-result-forgets', what + '; step(%d)' % a, WS)
    r.took(I)
  # Wind fields: the new wind has nothing of the old one.
  import winds
  for cls in winds.FIELDS:
    F = winds.Field(cls, lab='old:field')
    I = F.I
    st = F.st.fork()
    q = F.place(st)
    st.roots = st.roots + tuple(q)
    for m in ('get_ground_truth',):
      st = (F.call(m, q, st) or [(st, None)])[0][0]
    N_ = frozenset(['new:field'])
    for s, _ in F.call('reset', [winds.key('field2', 'new:field'), dt_var('start2', N_)], st):
      bad = tainted(I, s, F.f, 'old:')
      r.check(not bad, 'wind-forgets', '%s.reset' % cls, F.where, str(bad[:3]))
      for m in ('get_forecast', 'get_ground_truth'):
        for s2, w in F.call(m, q, s)[:8]:
          bad = tainted(I, s2, w, 'old:')
          r.check(not bad, 'wind-forgets', '%s.%s' % (cls, m), F.where, str(bad[:3]))
    r.took(I)
