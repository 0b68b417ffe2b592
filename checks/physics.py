"""Balloon dynamics: one simulation stride from an arbitrary state (P04-P09)."""
from common import *

STATUS = BAL + 'BalloonStatus'


class Strides:
  """Abstract outcomes of simulate_step for every command from an arbitrary flying balloon."""

  def __init__(self, seconds=10, cap=48, stride=None, event=None, **over):
    I = self.I = load()
    I.cap = cap
    thermal_summaries(I)
    st = I.start()
    lab = over.pop('labels', None)
    st, self.b, self.bs = balloon(I, st, labels=lab, **over)
    st, wv = wind_vector(I, st, lab=frozenset(['wind']) if lab else E0)
    st, atmo = atmosphere(I, st)
    self.atmo = atmo
    st.roots = st.roots + (wv, atmo)
    self.st0 = st
    if event is not None:
      I.on_event = event(I, [self.b])
    self.cmds = commands(I)
    self.outs = {}
    self.excs = {}
    for n, c in self.cmds.items():
      # The layers' contracts are decided by P10-P14: the effective command is any of the three.
      layers_any(I, lambda I, st, k, a, kw, c=c: [(st, c)])
      I.sinks = [[]]
      kw = {} if stride is None else {'stride': TD(T.const(stride))}
      self.outs[n] = [s for s, _ in I.call_method(
          self.b, 'simulate_step', [wv, atmo, c, TD(T.const(seconds))], kw, st.fork(), None)]
      self.excs[n] = exceptions(I)

  def get(self, st, path):
    s = read(self.I, st, self.b, 'state')
    return read(self.I, st, s, path)

  def getn(self, st, path):
    s = read(self.I, st, self.b, 'state')
    return readn(self.I, st, s, path)

  def each(self):
    for n in self.outs:
      for i, s in enumerate(self.outs[n]):
        yield n, s


def where(I, fn='Balloon.simulate_step'):
  return 'env/balloon/balloon.py (%s)' % fn


def need(r, S):
  for n, o in S.outs.items():
    if not o:
      r.fail('reachable', 'simulate_step(%s) never completes' % n, where(S.I),
             str(S.excs[n][:2]))
  r.count('abstract outcomes', sum(len(o) for o in S.outs.values()))
  r.took(S.I)


def p04(r, tier):
  """Battery charge in [0, capacity]; state of charge in [0, 1]; ballonet air >= 0; energy balance."""
  for sd in STRIDES:
    p04_stride(r, Strides(seconds=sd, stride=sd), sd)


def elevation(S):
  """The sun's elevation at the balloon before the step."""
  I, st = S.I, S.st0.fork()
  bs = read(I, st, S.b, 'state')
  ll = one(I.getattr(bs, 'latlng', st, None), 'latlng')
  st, v = one(I.call(I.lookup(SOLAR + 'solar_calculator'), [ll[1], read(I, ll[0], bs, 'date_time')], {},
                     ll[0], None), 'solar_calculator')
  return num(v.items[0])


def p04_stride(r, S, sd):
  need(r, S)
  el = elevation(S)
  day_el = T.const(Fraction('-4.242'))   # the sun counts as up from here
  for n, st in S.each():
    g = lambda f: S.getn(st, f)
    ch, cap = g('battery_charge.watt_hours'), g('battery_capacity.watt_hours')
    r.check(holds(st, '>=', ch, 0), 'charge-nonnegative', 'after command %s' % n, where(S.I), show(ch))
    r.check(holds(st, '<=', ch, cap), 'charge-within-capacity', 'after command %s' % n, where(S.I),
            '%s vs %s' % (show(ch), show(cap)))
    soc = g('battery_soc')
    r.check(holds(st, '>=', soc, 0), 'soc-nonnegative', 'after command %s' % n, where(S.I), show(soc))
    r.check(holds(st, '<=', soc, 1), 'soc-at-most-1', 'after command %s' % n, where(S.I), show(soc))
    air = g('mols_air')
    r.check(holds(st, '>=', air, 0), 'air-nonnegative', 'after command %s' % n, where(S.I), show(air))
    cap0 = S.getn(S.st0, 'battery_capacity.watt_hours')
    r.check(holds(st, '==', cap, cap0), 'capacity-constant', 'after command %s' % n, where(S.I), show(cap))
    c0 = S.getn(S.st0, 'battery_charge.watt_hours')
    raw = c0 + (g('solar_charging.watts') - g('power_load.watts')).scale(Fraction(sd, 3600)) if all(
        x is not None for x in (c0, g('solar_charging.watts'), g('power_load.watts'))) else None
    bal = None
    if raw is not None and ch is not None:
      # charge' is raw, clipped: equal to raw, or to a bound that raw does not lie inside of.
      bal = holds(st, '==', ch, raw)
      if bal is not True:
        lo = holds(st, '==', ch, 0) is True and st.facts.decide('<=', raw, T.const(0)) is True
        hi = holds(st, '==', ch, cap0) is True and st.facts.decide('>=', raw, cap0) is True
        cl = T.tmin([T.tmax([raw, T.const(0)], st.facts), cap0], st.facts)
        cl2 = T.tmax([T.tmin([raw, cap0], st.facts), T.const(0)], st.facts)
        if lo or hi or holds(st, '==', ch, cl) is True or holds(st, '==', ch, cl2) is True:
          bal = True
    r.check(bal, 'energy-balance', 'after command %s' % n, where(S.I),
            'charge %s, expected clip(%s, 0, capacity)' % (show(ch), show(raw)))
    sc, ld = g('solar_charging.watts'), g('power_load.watts')
    r.check(holds(st, '>=', sc, 0), 'solar-nonnegative', 'after command %s' % n, where(S.I), show(sc))
    ap = g('acs_power.watts')
    base = [S.getn(S.st0, f + '.watts') for f in ('daytime_power_load', 'nighttime_power_load')]
    v = None
    if ld is not None and ap is not None:
      day = st.facts.decide('>', el, day_el)
      if day is not None:
        base = base[:1] if day else base[1:]
        if not day:
          r.check(holds(st, '==', sc, 0), 'no-solar-at-night', 'after command %s' % n, where(S.I), show(sc))
      v = any(holds(st, '==', ld, b + ap) is True for b in base)
      if not v and (lossy_term(ld) or lossy_term(ap)):
        v = None
    r.check(v, 'load-includes-acs', 'after command %s' % n, where(S.I),
            'load %s, ACS %s' % (show(ld), show(ap)))


def expected_status(st, sp, mx, ch):
  """Which statuses the failure conditions allow, decided from the path's facts."""
  d = st.facts.decide
  z = T.const(0)
  out = d('<=', ch, z)
  burst = d('>', sp, mx)
  zero = d('<=', sp, z)
  ok = set()
  if out is not False:
    ok.add('OUT_OF_POWER')
  if out is not True:
    if burst is not False:
      ok.add('BURST')
    if zero is not False:
      ok.add('ZEROPRESSURE')
    if burst is not True and zero is not True:
      ok.add('OK')
  return ok


def p05(r, tier):
  """Status after a stride is exactly the failure condition that holds."""
  S = Strides()
  need(r, S)
  seen = {}
  for n, st in S.each():
    v = S.get(st, 'status')
    sp, mx = S.getn(st, 'superpressure'), S.getn(st, 'envelope_max_superpressure')
    ch = S.getn(st, 'battery_charge.watt_hours')
    if not isinstance(v, En) or sp is None or ch is None:
      r.undecided('status-matches-condition', 'after command %s' % n, where(S.I), str(v))
      continue
    seen[v.name] = seen.get(v.name, 0) + 1
    a = expected_status(st, sp, mx, ch)
    if v.name in a and len(a) == 1:
      verdict = True
    elif lossy_term(sp) or lossy_term(ch):
      verdict = None
    else:
      verdict = False
    r.check(verdict, 'status-matches-condition', 'command %s, status %s, conditions allow %s' % (
        n, v.name, '/'.join(sorted(a))), where(S.I), 'superpressure %s, charge %s' % (show(sp), show(ch)))
  for k in I_statuses(S.I):
    if k not in seen:
      r.fail('status-reachable', k, where(S.I), 'no stride ends with this status')
    else:
      r.ok('status-reachable', k)


def I_statuses(I):
  return list(I.lookup(STATUS).ci.enum_values)


def p08(r, tier):
  """Lateral displacement is wind times time, whatever the command and the balloon's state."""
  for sd in STRIDES:
    S = Strides(seconds=sd, stride=sd)
    need(r, S)
    for n, st in S.each():
      for ax, w in (('x', 'wind.u'), ('y', 'wind.v')):
        p, p0 = S.getn(st, ax + '.meters'), S.getn(S.st0, ax + '.meters')
        v = None
        if p is not None:
          v = same(st, p, p0 + T.var(w).scale(sd))
        r.check(v, 'displacement', '%s after command %s' % (ax, n), where(S.I), show(p))
  for secs, sd in multis(tier):
    multi(r, Strides(seconds=secs, cap=8, stride=sd), secs, 'p08', sd)


STRIDES = (10, 25, 180)   # strides analysed for a single-stride step


def multis(tier):
  return ((20, 10), (40, 20)) if tier == 'quick' else ((20, 10), (40, 20), (30, 10))


def multi(r, S, secs, what, stride=10):
  """Several strides: time and place advance together, and fully unless the balloon fails."""
  need(r, S)
  for n, st in S.each():
    t0, t1 = S.getn(S.st0, 'date_time'), S.getn(st, 'date_time')
    e0, e1 = S.getn(S.st0, 'time_elapsed'), S.getn(st, 'time_elapsed')
    el = None if t1 is None else t1 - t0
    if what == 'p08':
      for ax, w in (('x', 'wind.u'), ('y', 'wind.v')):
        p, p0 = S.getn(st, ax + '.meters'), S.getn(S.st0, ax + '.meters')
        v = None
        if p is not None and el is not None:
          v = same(st, p - p0, T.var(w) * el)
        r.check(v, 'displacement-%ds' % secs, '%s after command %s' % (ax, n), where(S.I), show(p))
    else:
      status = S.get(st, 'status')
      v = None
      if el is not None and e1 is not None:
        v = same(st, el, e1 - e0)
      r.check(v, 'clock-and-elapsed-agree-%ds' % secs, 'after command %s' % n, where(S.I),
              '%s vs %s' % (show(t1), show(e1)))
      if isinstance(status, En) and el is not None:
        if status.name == 'OK':
          v = holds(st, '==', el, secs)
        else:
          v = el.const is not None and el.const % stride == 0 and 0 < el.const <= secs
          if not v and lossy_term(el):
            v = None
        r.check(v, 'clock-advance-%ds' % secs, 'status %s after command %s' % (status.name, n),
                where(S.I), show(el))
      elif el is not None:
        # any of several statuses: the whole step was simulated, or it is not known here which
        v = True if el.const == secs else None
        r.check(v, 'clock-advance-%ds' % secs, 'after command %s' % n, where(S.I), show(el))


def p07(r, tier):
  """Date and elapsed time advance by exactly the time simulated."""
  for sd in STRIDES:
    S = Strides(seconds=sd, stride=sd)
    need(r, S)
    for n, st in S.each():
      for f in ('date_time', 'time_elapsed'):
        p, p0 = S.getn(st, f), S.getn(S.st0, f)
        v = None if p is None else holds(st, '==', p - p0, sd)
        r.check(v, 'clock-advance', '%s after command %s' % (f, n), where(S.I), show(p))
  for secs, sd in multis(tier):
    multi(r, Strides(seconds=secs, cap=8, stride=sd), secs, 'p07', sd)
  # Time steps that are not a multiple of the stride are rejected.
  S = Strides(seconds=15)
  for n in S.outs:
    if S.outs[n]:
      r.fail('partial-stride-rejected', 'command %s' % n, where(S.I),
             'a 15 s step with a 10 s stride completes')
    else:
      r.ok('partial-stride-rejected', n)


def p09(r, tier):
  """Each command's effect on the altitude control system and the ballonet."""
  S = Strides(superpressure=(0, 2380))
  need(r, S)
  for n, st in S.each():
    pw, fl = S.getn(st, 'acs_power.watts'), S.getn(st, 'acs_mass_flow')
    air, air0 = S.getn(st, 'mols_air'), S.getn(S.st0, 'mols_air')
    ld = lambda rule, op, p, q: r.check(holds(st, op, p, q), rule, 'command %s' % n, where(S.I), show(p))
    if n == 'UP':
      ld('up-uses-no-power', '==', pw, 0)
      ld('up-never-pumps-air-in', '<=', fl, 0)
      ld('up-never-adds-air', '<=', air, air0)
    elif n == 'DOWN':
      ld('down-uses-power', '>', pw, 0)
      ld('down-never-vents', '>=', fl, 0)
      ld('down-never-removes-air', '>=', air, air0)
    else:
      ld('stay-uses-no-power', '==', pw, 0)
      ld('stay-moves-no-air', '==', fl, 0)
      ld('stay-keeps-air', '==', air, air0)
    lg, lg0 = S.getn(st, 'mols_lift_gas'), S.getn(S.st0, 'mols_lift_gas')
    ld('lift-gas-constant', '==', lg, lg0)
    v = None
    if fl is not None and air is not None:
      M = Fraction('0.028964922481160')
      raw = air0 + fl.scale(Fraction(10) / M)
      v = same(st, air, raw, T.tmax([raw, T.const(0)], st.facts))
    r.check(v, 'air-follows-flow', 'command %s' % n, where(S.I), '%s vs flow %s' % (show(air), show(fl)))
    for f in ('daytime_power_load', 'nighttime_power_load'):
      w, w0 = S.getn(st, f + '.watts'), S.getn(S.st0, f + '.watts')
      r.check(same(st, w, w0) if w is not None else None, 'base-load-not-changed-by-commands', '%s, command %s' % (f, n), where(S.I), show(w))
  # Commands pass through unless a layer changes them: last_command is the commanded one.
  for n, st in S.each():
    lc = S.get(st, 'last_command')
    v = isinstance(lc, En) and lc.name == n
    r.check(v if isinstance(lc, En) else None, 'last-command-recorded', 'command %s' % n, where(S.I), str(lc))


def p06(r, tier):
  """No balloon flies on after a terminal event."""
  I = load()
  thermal_summaries(I)
  layers_any(I)
  for status in I_statuses(I):
    if status == 'OK':
      continue
    st = I.start()
    st, b, bs = balloon(I, st, status=enum(I, STATUS, status))
    st, wv = wind_vector(I, st)
    st, atmo = atmosphere(I, st)
    before = I.vkey(bs, st, 6)
    for n, c in commands(I).items():
      I.sinks = [[]]
      outs = I.call_method(b, 'simulate_step', [wv, atmo, c, TD(T.const(10))], {}, st.fork(), None)
      r.check(not outs, 'terminal-step-rejected', 'status %s, command %s' % (status, n), where(I),
              'simulate_step completes on a terminated balloon')
      for s, e in exceptions(I):
        sb = read(I, s, b, 'state')
        r.check(I.vkey(sb, s, 6) == before, 'terminal-state-unchanged',
                'status %s, command %s' % (status, n), e.where,
                'the state is changed before the step is rejected')
  r.took(I)
  # The loop stops at the first terminal event: no stride starts from a failed balloon.
  hits = [0]

  def ev(I, b):
    def h(st, kind, data):
      if kind != 'atm.at_pressure' or b[0] is None:
        return
      v = read(I, st, b[0], 'state.status')
      if isinstance(v, En):
        hits[0] += 1
        r.check(v.name == 'OK', 'no-stride-after-failure', 'status %s' % v.name,
                I.where(data.get('node'), st), 'the dynamics go on after a terminal event')
      else:
        r.undecided('no-stride-after-failure', 'status', I.where(data.get('node'), st), str(v))
    return h
  S = Strides(seconds=20 if tier == 'quick' else 30, cap=8, event=ev)
  need(r, S)
  if not hits[0]:
    raise AnalysisError('the dynamics no longer consult the atmosphere')
