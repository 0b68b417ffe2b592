"""Safety layers: product of each layer's reachable states with its specification (P10-P14)."""
import itertools

from common import *

MAXPAIRS = 400


class Product:
  """Explores (layer state, specification state) pairs over every region and command."""

  def __init__(self, r, I, name, call, regions, spec, init):
    self.r, self.I, self.name, self.call, self.regions, self.spec = r, I, name, call, regions, spec
    self.k = 0
    self.init = init

  def run(self, st0, ob, loose=()):
    r, I = self.r, self.I
    seen, work = set(), []

    def push(st, sp, hist):
      k = (I.vkey(ob, st, 6), sp)
      if k not in seen:
        seen.add(k)
        work.append((st, sp, hist))
    push(st0, self.init, ())
    v = read(I, st0, ob, 'navigation_is_paused')
    r.check(v.val is False if isinstance(v, C) else None, 'starts-unpaused', self.name, '', str(v))
    cmds = commands(I)
    while work:
      st, sp, hist = work.pop(0)
      if len(seen) > MAXPAIRS:
        r.undecided('state-space', self.name, '', 'more than %d state pairs' % MAXPAIRS)
        break
      for reg, mk in self.regions:
        for n, c in cmds.items():
          self.k += 1
          s = st.fork()
          arg = mk(I, s, '%s#%d' % (reg, self.k))
          if arg is None:
            continue
          sp2, allowed = self.spec(sp, reg, n)
          I.sinks = [[]]
          outs = self.call(I, s, ob, c, arg)
          h = hist + ((reg, n),)
          txt = ' -> '.join('%s/%s' % x for x in h[-4:])
          for _, e in exceptions(I):
            r.fail('never-raises', '%s: region %s, command %s' % (self.name, reg, n), e.where, txt + ': ' + str(e))
          for s2, v in outs:
            what = '%s: state %s, region %s, command %s' % (self.name, sp, reg, n)
            if isinstance(v, En):
              r.check(v.name == allowed, 'effective-command', what, '',
                      'returns %s, the documented command is %s (history %s)' % (v.name, allowed, txt))
            else:
              r.undecided('effective-command', what, '', str(v))
            pz = read(I, s2, ob, 'navigation_is_paused')
            pz = truth1(I, s2, pz)
            r.check(None if pz is None else pz == (sp2 != self.init), 'paused-flag', what, '',
                    'navigation_is_paused is %s in specification state %s (history %s)' % (pz, sp2, txt))
            s2.stack = ()
            push(s2, sp2, h)
    r.count('product states', len(seen))
    r.count('layer calls analysed', self.k)


def truth1(I, st, v):
  if v is None:
    return None
  outs = I.truth(v, st.fork(), None)
  vals = {b for _, b in outs}
  return vals.pop() if len(vals) == 1 else None


def restrict(level, n):
  if level == 'UP':
    return 'UP'
  if level == 'NODOWN' and n == 'DOWN':
    return 'STAY'
  return n


# ---------------------------------------------------------------- envelope
def env_spec(sp, reg, n):
  if reg in ('low-critical', 'high-critical'):
    return ('LOW' if reg[0] == 'l' else 'HIGH'), 'UP'
  if reg == 'low':
    return 'LOW', restrict('NODOWN', n)
  if reg == 'high':
    return 'HIGH', restrict('NODOWN', n)
  if reg == 'low-hysteresis':
    return ('LOW', restrict('NODOWN', n)) if sp == 'LOW' else ('NOM', n)
  if reg == 'high-hysteresis':
    return ('HIGH', restrict('NODOWN', n)) if sp == 'HIGH' else ('NOM', n)
  return 'NOM', n


def between(lo, hi):
  """A number in [lo, hi)."""
  def mk(I, st, name):
    v = T.var(name)
    if lo is not None and not st.assume('>=', v, lo):
      return None
    if hi is not None and not st.assume('<', v, hi):
      return None
    return N(v)
  return mk


def p10(r, tier):
  """Envelope safety layer against its specification, for every superpressure history."""
  for mx in (T.const(2380), T.var('max_superpressure', 700, 100000)):
    I = load()
    st = I.start()
    c = T.const
    mxv = mknum(mx, 'float')
    outs = I.call(I.lookup(SAFETY['envelope']), [mxv], {}, st, None)
    st, ob = one(outs, 'EnvelopeSafetyLayer')
    st.roots = st.roots + (ob,)
    regs = [('low-critical', between(None, c(150))), ('low', between(c(150), c(250))),
            ('low-hysteresis', between(c(250), c(300))), ('nominal', between(c(300), mx - c(300))),
            ('high-hysteresis', between(mx - c(300), mx - c(250))),
            ('high', between(mx - c(250), mx - c(150))), ('high-critical', between(mx - c(150), None))]
    call = lambda I, s, ob, cmd, arg: I.call_method(ob, 'get_action', [cmd, arg], {}, s, None)
    Product(r, I, 'envelope layer (limit %s Pa)' % show(mx), call, regs, env_spec, 'NOM').run(st, ob)
    r.took(I)


# ---------------------------------------------------------------- altitude
def alt_spec(sp, reg, n):
  if reg == 'very-low':
    return 'LOW', 'UP'
  if reg == 'low':
    return 'LOW', restrict('NODOWN', n)
  if reg == 'hysteresis':
    return ('LOW', restrict('NODOWN', n)) if sp == 'LOW' else ('NOM', n)
  return 'NOM', n


def p11(r, tier):
  """Altitude safety layer against its specification, for every altitude history."""
  I = load(atm=False)
  cur = {}

  def at_pressure(I, st, f, args, kw, node):
    p = args[1] if len(args) > 1 else kw.get('pressure')
    if p is None or num(p) is None or num(p) != cur['p']:
      r.fail('altitude-of-given-pressure', 'get_action', I.where(node, st),
             'the atmosphere is queried at %s, not at the balloon\'s pressure' % (p,))
    else:
      r.ok('altitude-of-given-pressure', 'get_action')
    ht = unit(I, st, 'Distance', cur['h'])
    return I.call(I.lookup(ATM + 'AtmosphericValues'), [ht, N(T.var('T', 150, 320)), p, N(T.var('rho', 0, 2))],
                  {}, st, None)
  method_summary(I, ATM + 'Atmosphere', 'at_pressure', at_pressure)
  st = I.start()
  st, atmo = atmosphere(I, st)
  st, ob = one(I.call(I.lookup(SAFETY['altitude']), [], {}, st, None), 'AltitudeSafetyLayer')
  st.roots = st.roots + (ob, atmo)
  ft = lambda x: T.const(Fraction(x) * Fraction('0.3048'))
  regs = [('very-low', between(None, ft(50000))), ('low', between(ft(50000), ft(50500))),
          ('hysteresis', between(ft(50500), ft(51000))), ('nominal', between(ft(51000), None))]

  def call(I, s, ob, cmd, arg):
    cur['h'] = num(arg)
    cur['p'] = T.var('p:' + str(arg), 1000, 20000)
    return I.call_method(ob, 'get_action', [cmd, atmo, N(cur['p'])], {}, s, None)
  Product(r, I, 'altitude layer', call, regs, alt_spec, 'NOM').run(st, ob)
  r.took(I)


# ---------------------------------------------------------------- power
DAY = 86400
HYST = 1800


def p12(r, tier):
  """Power safety layer against its specification over call histories."""
  I = load()
  st = I.start()
  ll = latlng_var(st)
  t0 = T.var('t0')
  st, ob = one(I.call(I.lookup(SAFETY['power']), [ll, DT(t0)], {}, st, None), 'PowerSafetyLayer')
  st.roots = st.roots + (ob,)
  rise, sset = None, None
  k = (I.vkey(ll, st), I.vkey(DT(t0), st))
  rise = T.poly(T.atom('fn', 'solar.sunrise', k))
  sset = T.poly(T.atom('fn', 'solar.sunset', k))
  cap = T.const(3000)
  capv = unit(I, st, 'Energy', cap)
  cmds = commands(I)
  depth = 2 if tier == 'quick' else 3
  n_calls = [0]

  def step(st, paused, hist, d, base):
    for kr, ks in itertools.product((0, 1, 2), repeat=2):
      rk, sk = base[0] + kr, base[1] + ks
      t = T.var('t%d.%d' % (d, n_calls[0]))
      rr, ss = rise + T.const(HYST + rk * DAY), sset + T.const(sk * DAY)
      s0 = st.fork()
      ok = s0.assume('>=', t, t0)
      ok = ok and s0.assume('<=', t, rr) and s0.assume('<=', t, ss)
      if kr:
        ok = ok and s0.assume('>', t, rr - T.const(DAY))
      if ks:
        ok = ok and s0.assume('>', t, ss - T.const(DAY))
      if not ok:
        continue
      for day in (True, False):
        s1 = s0.fork()
        if not s1.assume('<' if day else '>=', ss, rr):
          continue
        ch = T.var('charge%d.%d' % (d, n_calls[0]), 0, 3000)
        load_ = T.var('load%d.%d' % (d, n_calls[0]), 1, 1000)
        if day:
          cond = (ch, T.const(150))
        else:
          cond = (ch - load_ * (rr - t).scale(Fraction(1, 3600)), T.const(75))
        for below in (True, False):
          s2 = s1.fork()
          if not s2.assume('<' if below else '>=', *cond):
            continue
          p2 = (paused and below) if day else (paused or below)
          for n, c in cmds.items():
            n_calls[0] += 1
            s3 = s2.fork()
            I.sinks = [[]]
            outs = I.call_method(ob, 'get_action', [
                c, DT(t), unit(I, s3, 'Power', load_), unit(I, s3, 'Energy', ch), capv], {}, s3, None)
            want = restrict('NODOWN', n) if p2 else n
            what = 'power layer: %s, %s, %s reserve, command %s' % (
                'paused' if paused else 'active', 'day' if day else 'night', 'low' if below else 'enough', n)
            h = hist + [what]
            for _, e in exceptions(I):
              r.fail('never-raises', what, e.where, str(e))
            if not outs and not exceptions(I):
              r.undecided('effective-command', what, '', 'no outcome')
            for s4, v in outs:
              if isinstance(v, En):
                r.check(v.name == want, 'effective-command', what, '',
                        'returns %s, the documented command is %s (after %s)' % (v.name, want, hist[-2:]))
              else:
                r.undecided('effective-command', what, '', str(v))
              pz = truth1(I, s4, read(I, s4, ob, 'navigation_is_paused'))
              r.check(None if pz is None else pz == p2, 'paused-flag', what, '', 'navigation_is_paused is %s' % pz)
            # go on from one representative per specification state
            if d + 1 < depth and len(outs) == 1 and n == 'DOWN':
              key = (p2, kr, ks, day)
              if key not in done.setdefault(d, set()):
                done[d].add(key)
                s5 = outs[0][0]
                s5.stack = ()
                step(s5, p2, h, d + 1, (rk, sk))
  done = {}
  v = truth1(I, st, read(I, st, ob, 'navigation_is_paused'))
  r.check(None if v is None else not v, 'starts-unpaused', 'power layer', '', str(v))
  step(st, False, [], 0, (0, 0))
  r.count('layer calls analysed', n_calls[0])
  r.took(I)


# ---------------------------------------------------------------- composition
def effective(I, st, b):
  """The command that took effect, read off the altitude control system."""
  pw = readn(I, st, b, 'state.acs_power.watts')
  fl = readn(I, st, b, 'state.acs_mass_flow')
  if pw is None or fl is None:
    return None
  d = st.facts.decide
  z = T.const(0)
  if d('>', pw, z) is True:
    return 'DOWN'
  if d('==', pw, z) is True:
    if d('<', fl, z) is True:
      return 'UP'
    if d('==', fl, z) is True:
      return 'STAY'
  return None


MODES = ('pass', 'NODOWN', 'UP')


def p13(r, tier):
  """Every layer gets the true state and its restriction reaches the dynamics."""
  for enabled in (True, False):
    I = load()
    I.cap = 6
    thermal_summaries(I)
    st = I.start()
    st, b, bs = balloon(I, st, superpressure=(1, 2380), power_safety_layer_enabled=C(enabled))
    st, wv = wind_vector(I, st)
    st, atmo = atmosphere(I, st)
    st.roots = st.roots + (wv, atmo)
    cmds = commands(I)
    mode = {}
    used = {}

    def rec(I, st, k, args, kw, st0=st):
      used[k] = used.get(k, 0) + 1
      got = list(args[1:]) + list(kw.values())
      c = got[0] if got else None
      if not isinstance(c, En):
        c = next((x for x in got if isinstance(x, En)), None)
      nums = {'envelope': ['superpressure'], 'altitude': ['pressure'],
              'power': ['battery_charge.watt_hours', 'battery_capacity.watt_hours',
                        'nighttime_power_load.watts', 'date_time']}[k]
      have = []
      for x in got:
        if isinstance(x, R) and st.cell(x.addr).kind == 'obj':
          for a in ('watt_hours', 'watts'):
            if st.cell(x.addr).cls is not None and a == {'Energy': 'watt_hours', 'Power': 'watts'}.get(
                st.cell(x.addr).cls.name):
              have.append(unit_val(I, st, x, a))
        elif isinstance(x, (TD, DT)):
          have.append(x.p)
        elif num(x) is not None and not isinstance(x, En):
          have.append(num(x))
      for f in nums:
        w = readn(I, st0, bs, f)
        r.check(any(w == h for h in have), 'layer-sees-state', '%s layer, %s' % (k, f),
                'env/balloon/balloon.py (Balloon.simulate_step)',
                'the layer is called with %s' % [show(h) for h in have])
      if not isinstance(c, En):
        r.undecided('layer-command', k, '', str(c))
        return [(st, cmds['STAY'])]
      return [(st, cmds[restrict(mode[k], c.name)])]
    layers_any(I, rec)
    for mp, me, ma in itertools.product(MODES[:2], MODES, MODES):
      mode.update(power=mp, envelope=me, altitude=ma)
      for n, c in cmds.items():
        used.clear()
        I.sinks = [[]]
        outs = I.call_method(b, 'simulate_step', [wv, atmo, c, TD(T.const(10))], {}, st.fork(), None)
        modes = [me, ma] + ([mp] if enabled else [])
        want = n
        for m in ('UP', 'NODOWN'):
          if m in modes:
            want = restrict(m, n)
            break
        what = 'power layer %s: power %s, envelope %s, altitude %s, command %s' % (
            'on' if enabled else 'off', mp, me, ma, n)
        for k in ('envelope', 'altitude') + (('power',) if enabled else ()):
          r.check(used.get(k, 0) > 0, 'layer-consulted', '%s layer (%s)' % (k, 'on' if enabled else 'off'),
                  'env/balloon/balloon.py (Balloon.simulate_step)', what)
        if not outs:
          r.fail('completes', what, 'env/balloon/balloon.py', str(exceptions(I)[:2]))
        for s, _ in outs:
          e = effective(I, s, b)
          r.check(None if e is None else e == want, 'effective-command', what,
                  'env/balloon/balloon.py (Balloon.simulate_step)', 'took effect: %s, expected: %s' % (e, want))
    r.took(I)


def p14(r, tier):
  """navigation_is_paused of the balloon is the disjunction of the layers' restrictions."""
  I = load(atm=False)
  cur = {}
  rise, sset = T.var('sunrise'), T.var('sunset')
  fn_summary(I, SOLAR + 'get_next_sunrise_sunset',
             lambda I, st, f, args, kw, node: [(st, Tup((DT(rise), DT(sset))))])

  def at_pressure(I, st, f, args, kw, node):
    ht = unit(I, st, 'Distance', cur['h'])
    return I.call(I.lookup(ATM + 'AtmosphericValues'), [
        ht, N(T.var('T', 150, 320)), N(T.var('pp', 1000, 20000)), N(T.var('rho', 0, 2))], {}, st, None)
  method_summary(I, ATM + 'Atmosphere', 'at_pressure', at_pressure)
  st = I.start()
  st, b, bs = balloon(I, st)
  st, atmo = atmosphere(I, st)
  cmds = commands(I)
  for low_sp, low_alt, low_pow in itertools.product((0, 1, 2), (0, 1, 2), (False, True)):
    s = st.fork()
    sp = T.const((1000, 200, 100)[low_sp])
    cur['h'] = T.const((16000, 15300, 15000)[low_alt])
    s, _ = one(I.call_method(read(I, s, bs, 'envelope_safety_layer'), 'get_action', [cmds['DOWN'], N(sp)], {}, s, None))
    s, _ = one(I.call_method(read(I, s, bs, 'altitude_safety_layer'), 'get_action',
                             [cmds['DOWN'], atmo, N(T.var('pp', 1000, 20000))], {}, s, None))
    if low_pow:
      t = T.var('tn')
      lay = read(I, s, bs, 'power_safety_layer')
      s.assume('<=', t, rise)
      s.assume('<=', t, sset)
      s.assume('>=', sset, rise + T.const(7200))
      outs = I.call_method(lay, 'get_action', [
          cmds['DOWN'], DT(t), unit(I, s, 'Power', T.const(183)), unit(I, s, 'Energy', T.const(0)),
          unit(I, s, 'Energy', T.const(3000))], {}, s, None)
      outs = [o for o in outs if isinstance(o[1], En)]
      if len(outs) != 1 or outs[0][1].name != 'STAY':
        r.undecided('paused-flag', 'power layer did not pause', '', str(outs))
        continue
      s = outs[0][0]
    pz = truth1(I, s, read(I, s, bs, 'navigation_is_paused'))
    want = bool(low_sp or low_alt or low_pow)
    r.check(None if pz is None else pz == want, 'paused-flag',
            'superpressure %s, altitude %s, power %s' % (('nominal', 'low', 'critical')[low_sp],
                                                         ('nominal', 'low', 'very low')[low_alt],
                                                         'low' if low_pow else 'nominal'),
            'env/balloon/balloon.py (BalloonState.navigation_is_paused)', 'reports %s' % pz)
  r.took(I)
