"""Saving and restoring the simulator (P58); rendering and the gym interface (P59)."""
from common import *
from env import ENV, FLAGS, Env, KEYS, env_summaries, item, own_lab, place, reach, tainted, truthy
from world import World

WA = 'env/balloon_arena.py (BalloonArena)'
WE = 'env/balloon_env.py (BalloonEnv)'
WM = 'env/rendering/matplotlib_renderer.py (MatplotlibRenderer)'


# ------------------------------------------------------------------ P58
def new_state(E, st):
  """An arbitrary simulator state: any balloon, wind field and atmosphere."""
  I = E.I
  st, bs = balloon_state(I, st, default=('acs_mass_flow',))
  st, wf = one(I.call(I.lookup('env.wind_field.SimpleStaticWindField'), [], {}, st, None))
  st, at = one(I.call(I.lookup('env.balloon.standard_atmosphere.Atmosphere'), [O(T.atom('key', 'another'), 'key')], {}, st, None))
  st, ss = one(I.call(I.lookup('env.simulator_data.SimulatorState'), [bs, wf, at], {}, st, None))
  st.roots = st.roots + (bs, wf, at, ss)
  return st, ss, bs, wf, at


def parts(I, st, ss):
  return [read(I, st, ss, n) for n in ('balloon_state', 'wind_field', 'atmosphere')]


def content(I, st, v):
  return I.vkey(v, st, 8)


def same_object(I, st, a, b):
  if a is None or b is None:
    return None
  return True if a == b else None if lossy(a) else a == b


def equal_state(I, st, a, b):
  """Same object, or an equal copy."""
  if a is None:
    return None
  if a == b or content(I, st, a) == content(I, st, b):
    return True
  return None if any(lossy(x) for _, x in reach(I, st, a)) else False


def p58(r, tier):
  """Setting the simulator's state puts the simulator there; getting it changes nothing."""
  for past in (0, 1, 2) if tier != 'quick' else (0, 1):
    E = Env(seed='old:seed')
    I = E.I
    st = E.st
    for _ in range(past):
      st = E.call('step', [C(0, lab=frozenset(['old:action']))], {}, st)[0][0]
    arena = read(I, st, E.env, 'arena')
    h = '%d steps' % past
    # getting
    before = content(I, st, E.env)
    got = I.call_method(arena, 'get_simulator_state', [], {}, st.fork(), None)
    r.check(bool(got), 'state-can-be-taken', h, WA)
    for s, ss in got:
      r.check(content(I, s, E.env) == before, 'taking-changes-nothing', h, WA)
      b, w, a = parts(I, s, ss)
      s2, cur = one(I.call_method(arena, 'get_balloon_state', [], {}, s.fork(), None))
      r.check(equal_state(I, s2, b, cur), 'state-is-complete', '%s, balloon' % h, WA)
      field = [x for _, x in reach(I, s, arena) if isinstance(x, R) and s.has(x.addr) and getattr(s.cell(x.addr).meta, 'name', '') == 'SimpleStaticWindField']
      if past == 0:
        s3, again = one(I.call_method(arena, 'get_simulator_state', [], {}, s.fork(), None))
        r.check(parts(I, s3, again) == [b, w, a], 'taken-twice-is-the-same', h, WA)
      # the very winds and atmosphere the next step will use
      E.calls.clear()
      nxt = E.call('step', [C(0)], {}, s)
      r.check(bool(nxt), 'step-completes', h, WA, str(E.excs[:1]))
      for k, s4, ob, kw in E.calls:
        if k == 'simulate':
          r.check(same_object(I, s4, kw.get('atmosphere'), a), 'state-is-complete', '%s, atmosphere' % h, WA)
        elif k == 'get_ground_truth':
          r.check(same_object(I, s4, ob, w), 'state-is-complete', '%s, wind field' % h, WA)
      if past == 0:
        for s4, _ in nxt[:2]:
          now = content(I, s4, b)
          r.check(now == content(I, s, b), 'saved-state-is-a-snapshot', 'the balloon of a state taken before a step', WA,
                  'stepping the simulator changes the saved state')
    # setting
    s0, ss, bs, wf, at = new_state(E, st.fork())
    b0 = content(I, s0, bs)
    I.sinks = [[]]
    outs = I.call_method(arena, 'set_simulator_state', [ss], {}, s0.fork(), None)
    r.check(bool(outs), 'state-can-be-set', h, WA, str(exceptions(I)[:1]))
    for s, _ in outs:
      restored(r, E, s, arena, bs, wf, at, b0, h)
    # a state that shares some of its parts with the simulator, and an equal state once more
    if got:
      s1 = s0.fork()
      s1.roots = s1.roots + (got[0][1],)
      now = parts(I, *one(I.call_method(arena, 'get_simulator_state', [], {}, s1.fork(), None)))
      mine = [bs, wf, at]
      for pick in ((1, 0, 1), (1, 1, 0), (0, 1, 1), (0, 0, 1), (0, 1, 0), (1, 0, 0)):
        b, w, a = [m if k else o for k, m, o in zip(pick, mine, now)]
        s2, mixed = one(I.call(I.lookup('env.simulator_data.SimulatorState'), [b, w, a], {}, s1.fork(), None))
        s2.roots = s2.roots + (mixed, b, w, a)
        what = '%s, a state with %s of its own' % (h, ' and '.join(n for k, n in zip(pick, ('balloon', 'winds', 'atmosphere')) if k))
        want = content(I, s2, b)
        for s, _ in I.call_method(arena, 'set_simulator_state', [mixed], {}, s2, None):
          s3, again = one(I.call_method(arena, 'get_simulator_state', [], {}, s.fork(), None))
          gb, gw, ga = parts(I, s3, again)
          r.check(True if content(I, s3, gb) == want else None if lossy(gb) else False, 'set-then-get', what + ': balloon', WA)
          r.check(same_object(I, s3, gw, w), 'set-then-get', what + ': wind field', WA)
          r.check(same_object(I, s3, ga, a), 'set-then-get', what + ': atmosphere', WA)
          E.calls.clear()
          E.call('step', [C(0)], {}, s)
          for k, s4, ob, kw in E.calls:
            if k == 'simulate':
              r.check(same_object(I, s4, kw.get('atmosphere'), a), 'flies-in-the-restored-atmosphere', what, WA)
            elif k == 'get_ground_truth':
              r.check(same_object(I, s4, ob, w), 'flies-in-the-restored-wind', what, WA)
    I.sinks = [[]]
    for s, _ in I.call_method(arena, 'set_balloon_state', [bs], {}, s0.fork(), None):
      s1, cur = one(I.call_method(arena, 'get_balloon_state', [], {}, s.fork(), None))
      r.check(content(I, s1, cur) == b0, 'balloon-restored', h + ', set_balloon_state', WA)
      w0, a0 = parts(I, *one(I.call_method(arena, 'get_simulator_state', [], {}, st.fork(), None)))[1:]
      w1, a1 = parts(I, *one(I.call_method(arena, 'get_simulator_state', [], {}, s.fork(), None)))[1:]
      r.check(same_object(I, s, w1, w0), 'only-the-balloon-is-set', h + ', wind field', WA)
      r.check(same_object(I, s, a1, a0), 'only-the-balloon-is-set', h + ', atmosphere', WA)
    # a state survives being set back: the simulator is where it was
    if got:
      s, ss = got[0]
      s = s.fork()
      s.roots = s.roots + (ss,)
      k0 = content(I, s, arena)
      for s2, _ in I.call_method(arena, 'set_simulator_state', [ss], {}, s, None):
        r.check(content(I, s2, arena) == k0, 'setting-back-changes-nothing', h, WA)
    r.took(I)
  # Everything about a balloon is in its state.
  import physics
  S = physics.Strides()
  allowed = {'state'}
  for n, st in S.each():
    c = st.cell(S.b.addr)
    names = {k for k in c.d if isinstance(k, str)}
    r.check(names <= allowed, 'balloon-is-its-state', 'after command %s' % n, 'env/balloon/balloon.py (Balloon)',
            'also keeps %s' % sorted(names - allowed))
  r.took(S.I)


def restored(r, E, s, arena, bs, wf, at, b0, h):
  I = E.I
  s1, cur = one(I.call_method(arena, 'get_balloon_state', [], {}, s.fork(), None))
  r.check(True if content(I, s1, cur) == b0 else None if lossy(cur) else False, 'balloon-restored', h, WA)
  s2, got = one(I.call_method(arena, 'get_simulator_state', [], {}, s.fork(), None))
  b, w, a = parts(I, s2, got)
  r.check(True if content(I, s2, b) == b0 else None if lossy(b) else False, 'set-then-get', h + ', balloon', WA)
  r.check(same_object(I, s2, w, wf), 'set-then-get', h + ', wind field', WA)
  r.check(same_object(I, s2, a, at), 'set-then-get', h + ', atmosphere', WA)
  for act in range(3):
    E.calls.clear()
    outs = E.call('step', [C(act)], {}, s)
    what = '%s, step(%d)' % (h, act)
    r.check(bool(outs), 'step-completes', what, WA, str(E.excs[:1]))
    flown = False
    for k, st, ob, kw in E.calls:
      if k == 'simulate' and not flown:
        flown = True
        fb = read(I, st, ob, 'state')
        c = content(I, st, fb)
        r.check(True if c == b0 else None if lossy(fb) else False, 'flies-the-restored-balloon', what, WA)
        r.check(same_object(I, st, kw.get('atmosphere'), at), 'flies-in-the-restored-atmosphere', what, WA)
      elif k == 'get_ground_truth':
        r.check(same_object(I, st, ob, wf), 'flies-in-the-restored-wind', what, WA)
    for s3, v in outs:
      cur = E.bs(s3)
      bad = tainted(I, s3, cur, 'old:')
      r.check(not bad, 'next-balloon-depends-on-the-restored-state-only', what, WA, str(bad[:3]))
      if isinstance(v, Tup) and len(v.items) == 4:
        bad = tainted(I, s3, v.items[0], 'old:')
        r.check(not bad, 'next-observation-depends-on-the-restored-state-only', 'set_simulator_state', WA, str(bad[:3]))


# ------------------------------------------------------------------ P59
class Drawn:
  """An environment with a renderer that records its calls."""

  def __init__(self, **kw):
    self.trace = None
    self.shown = []
    E = self

    def setup(I, st):
      I.stubs = dict(I.stubs)
      E.trace = st.alloc(Cell('list', None, []))
      st.roots = st.roots + (R(E.trace),)
      I.stubs['$o.renderer'] = E.called
      old = I.stubs['$attr']

      def attr(I, st, ob, name, node):
        if isinstance(ob, O) and ob.typ == 'renderer' and name == 'render_modes':
          return [(st, O(T.atom('renderer.modes'), 'modes'))]
        return old(I, st, ob, name, node)
      I.stubs['$attr'] = attr
      return {'renderer': O(T.atom('renderer'), 'renderer')}
    self.E = Env(kw=setup, **kw)

  def called(self, I, st, ob, name, args, kw, node):
    names = {'render': ['mode', 'summary_writer', 'iteration'], 'step': ['state']}.get(name, [])
    vals = list(args) + [kw[n] for n in names[len(args):] if n in kw]
    st = st.fork()
    if name == 'step' and vals:
      self.shown.append((st.fork(), vals[0]))
    st.mut(self.trace).d.append(Tup((C(name),) + (tuple(vals) if name == 'render' else ())))
    if name == 'render':
      return [(st, O(T.atom('frame', I.vkey(vals[0], st) if vals else None), 'frame'))]
    return [(st, NONE)]

  def events(self, st):
    return [(x.items[0].val,) + tuple(x.items[1:]) for x in st.cell(self.trace).d]


def p59(r, tier):
  """Rendering shows every state once; the gym interface says what the environment is."""
  D = Drawn(seed='seed:a')
  E, I = D.E, D.E.I

  def after_reset(st, n0, what):
    ev = D.events(st)[n0:]
    names = [e[0] for e in ev]
    r.check(names == ['reset', 'step'], 'reset-starts-a-new-trajectory', what, WE, ' '.join(names))

  def shows(what, elapsed):
    for st, ss in D.shown:
      try:
        bs = E.bs(st)
      except AnalysisError:
        bs = None
      b = read(I, st, ss, 'balloon_state')
      r.check(equal_state(I, st, b, bs) if bs is not None else None, 'shows-the-current-state', what, WE)
      t = readn(I, st, b, 'time_elapsed') if b is not None else None
      r.check(same(st, t, elapsed) if t is not None else None, 'shows-the-current-state', what + ', time', WE, show(t))
    D.shown.clear()
  D.shown.clear()
  after_reset(E.st, 0, 'BalloonEnv(renderer)')
  s, md = one(I.getattr(E.env, 'metadata', E.st.fork(), None))
  outs = I.getitem(md, C('render.modes'), s, None)
  for s, v in outs:
    r.check(isinstance(v, O) and v.typ == 'modes' or (None if lossy(v) else False), 'announces-the-modes-of-its-renderer', 'metadata', WE, str(v))
  r.check(bool(outs), 'announces-the-modes-of-its-renderer', 'metadata', WE, 'no render modes')
  n0 = len(D.events(E.st))
  for op, args, kw in [('step', [C(a)], {}) for a in range(3)] + [
      ('reset', [], {}), ('reset', [], {'seed': C(3)}), ('reset', [], {'seed': C(3), 'return_info': TRUE})]:
    what = '%s(%s)' % (op, ', '.join([str(a.val) for a in args] + sorted(kw)))
    t0 = readn(I, E.st, E.bs(E.st), 'time_elapsed')
    outs = E.call(op, args, kw)
    r.check(bool(outs), 'completes', what, WE, str(E.excs[:1]))
    shows(what, T.ZERO if op == 'reset' else t0 + T.const(180))
    for s, v in outs:
      if op == 'reset':
        after_reset(s, n0, what)
        if kw.get('return_info'):
          r.check(isinstance(v, Tup) and len(v.items) == 2 or (None if lossy(v) else False), 'information-on-request', what, WE, str(v))
        else:
          r.check(not isinstance(v, Tup), 'information-on-request', what, WE, str(v))
      else:
        ev = D.events(s)[n0:]
        r.check([e[0] for e in ev] == ['step'], 'every-step-is-shown-once', what, WE, ' '.join(e[0] for e in ev))
  for s0, _ in E.call('step', [C(1)]):
    for s, v in E.call('reset', [], {'seed': C(3), 'return_info': TRUE}, s0):
      if not (isinstance(v, Tup) and len(v.items) == 2):
        continue
      what, info = 'reset after a step', v.items[1]
      t, now = item(I, s, info, 'time_elapsed'), readn(I, s, E.bs(s), 'time_elapsed')
      r.check(same(s, t.p, now) if isinstance(t, TD) and now is not None else None, 'information-of-the-new-episode', what, WE,
              'elapsed %s, now %s' % (t, show(now)))
      status = read(I, s, E.bs(s), 'status')
      for k, name in FLAGS.items():
        f = truthy(item(I, s, info, k))
        r.check(f == (status.name == name) if f is not None and isinstance(status, En) else None, 'information-of-the-new-episode',
                '%s, %s' % (what, k), WE, '%s, the balloon is %s' % (f, status))
  D.shown.clear()
  # rendering
  for mode in (None, 'human', 'rgb_array', 'ansi', 'tensorboard', 'nonsense'):
    for form in ('positional', 'keyword') if mode else ('default',):
      a, k = ([C(mode)], {}) if form == 'positional' else ([], {'mode': C(mode)} if mode else {})
      what = 'render(%s)' % (mode or '')
      outs = E.call('render', a, k)
      r.check(bool(outs), 'completes', what, WE, str(E.excs[:1]))
      for s, v in outs:
        ev = D.events(s)[n0:]
        r.check(len(ev) == 1 and ev[0][0] == 'render', 'rendered-by-the-renderer', what, WE, str([e[0] for e in ev]))
        if len(ev) == 1 and len(ev[0]) > 1:
          m = ev[0][1]
          r.check(m.val == (mode or 'human') if isinstance(m, C) else None, 'mode-passed-on', what, WE, str(m))
        r.check(isinstance(v, O) and v.typ == 'frame' or (None if lossy(v) else False), 'frame-returned', what, WE, str(v))
        r.check(content(I, s, E.bs(s)) == content(I, E.st, E.bs(E.st)), 'rendering-changes-nothing', what, WE)
  r.took(I)
  plain(r)
  renderer(r, tier)


def plain(r):
  E = Env()
  I = E.I
  for a in ([], [C('rgb_array')], [C('nonsense')]):
    outs = E.call('render', a)
    r.check(bool(outs), 'completes', 'render without a renderer', WE, str(E.excs[:1]))
    for s, v in outs:
      r.check(v == NONE, 'nothing-without-a-renderer', 'render', WE, str(v))
  st = E.st
  s, v = one(I.getattr(E.env, 'reward_range', st.fork(), None))
  ok = None
  if isinstance(v, Tup) and len(v.items) == 2:
    ok = same(s, num(v.items[0]), T.ZERO) is True and same(s, num(v.items[1]), T.const(1)) is True
  r.check(ok, 'reward-range', 'reward_range', WE, str(v))
  s, v = one(I.getattr(E.env, 'action_space', st.fork(), None))
  n = readn(I, s, v, 'n')
  r.check(None if n is None else holds(s, '==', n, 3), 'three-actions', 'action_space', WE, show(n))
  for a in range(3):
    r.check(bool(E.call('step', [C(a)])), 'every-action-of-the-space-is-accepted', 'action %d' % a, WE, str(E.excs[:1]))
  s, v = one(I.getattr(E.env, 'unwrapped', st.fork(), None))
  r.check(v == E.env or (None if lossy(v) else False), 'unwrapped-is-the-environment', 'unwrapped', WE, str(v))
  before = content(I, st, E.env)
  for what, m, a in (('close', 'close', []), ('with', '__enter__', []), ('leaving with', '__exit__', [NONE] * 3),
                     ('leaving with on an error', '__exit__', [X('builtins.ValueError'), O(T.atom('error'), 'exc'), O(T.atom('trace'), 'tb')])):
    outs = E.call(m, a)
    r.check(bool(outs), 'completes', what, WE, str(E.excs[:1]))
    for s, v in outs:
      if m == '__enter__':
        r.check(v == E.env or (None if lossy(v) else False), 'with-gives-the-environment', what, WE, str(v))
      if m == '__exit__':
        t = False if v == NONE else truthy(v)
        r.check(None if t is None else not t, 'errors-leave-the-with-block', what, WE, str(v))
      r.check(content(I, s, E.env) == before, 'closing-changes-nothing', what, WE)
  s, v = one(I.getattr(E.env, 'observation_space', st.fork(), None))
  fc = read(I, st, E.env, 'arena.feature_constructor')
  s2, w = one(I.getattr(fc, 'observation_space', st.fork(), None))
  r.check(content(I, s, v) == content(I, s2, w), 'observation-space-of-the-features', 'observation_space', WE)
  outs = E.call('get_simulator_state', [])
  arena = read(I, st, E.env, 'arena')
  for s, v in outs:
    s2, w = one(I.call_method(arena, 'get_simulator_state', [], {}, s.fork(), None))
    r.check(parts(I, s, v) == parts(I, s2, w), 'state-of-the-arena', 'get_simulator_state', WE)
  r.check(bool(outs), 'completes', 'get_simulator_state', WE)
  r.took(I)


class Canvas:
  """Matplotlib, reduced to what is drawn: line and point data on axes, and frames."""

  def __init__(self, I):
    self.I, self.lines, self.written = I, [], []
    I.stubs = dict(I.stubs)
    for typ, h in (('mpl.figure', self.figure), ('mpl.axes', self.axes), ('mpl.canvas', self.opaque), ('writer', self.writer)):
      I.stubs['$o.' + typ] = h
    I.stubs['matplotlib.pyplot.figure'] = lambda I, st, n, a, k, nd: [(st, O(T.atom('figure'), 'mpl.figure'))]
    for n in ('mpl_toolkits.axes_grid1.inset_locator.inset_axes',):
      I.stubs[n] = self.new_axes
    old = I.stubs['$attr']

    def attr(I, st, ob, name, node):
      if isinstance(ob, O) and ob.typ == 'mpl.figure' and name == 'canvas':
        return [(st, O(T.atom('canvas'), 'mpl.canvas'))]
      return old(I, st, ob, name, node)
    I.stubs['$attr'] = attr
    self.n = 0

  def new_axes(self, *a):
    self.n += 1
    return [(a[1], O(T.atom('axes', self.n), 'mpl.axes'))]

  def figure(self, I, st, ob, name, args, kw, node):
    if name.startswith(('add_subplot', 'add_axes', 'gca')):
      return self.new_axes(I, st)
    return [(st, O(T.atom('mpl', name, self.n), 'mpl'))]

  def opaque(self, I, st, ob, name, args, kw, node):
    return [(st, O(T.atom('pixels'), 'mpl'))]

  def axes(self, I, st, ob, name, args, kw, node):
    if name in ('plot', 'plot3D', 'plot_date', 'scatter', 'scatter3D'):
      self.lines.append((name, st.fork(), list(args)))
    return [(st, O(T.atom('mpl', name, self.n), 'mpl'))]

  def writer(self, I, st, ob, name, args, kw, node):
    self.written.append((name, list(args), kw))
    return [(st, NONE)]


def series(I, st, v):
  """The elements of a sequence, or None."""
  if isinstance(v, Tup):
    return list(v.items)
  if not isinstance(v, R) or not st.has(v.addr):
    return None
  c = st.cell(v.addr)
  if c.kind == 'list' and c.meta is None:
    return list(c.d)
  if c.kind != 'arr' or not c.meta.get('shape') or len(c.meta['shape']) != 1:
    return None
  n = c.meta['shape'][0]
  n = n if isinstance(n, int) else None if not isinstance(n, T.Poly) or n.split()[1].terms else int(n.split()[0])
  if n is None:
    return None
  out = []
  for k in range(n):
    o = I.getitem(v, C(k), st.fork(), None)
    if len(o) != 1:
      return None
    out.append(o[0][1])
  return out


def agrees(I, st, vals, want):
  """Whether a series consists of exactly the expected values."""
  if vals is None:
    return None
  if len(vals) != len(want):
    return False
  res = []
  for a, w in zip(vals, want):
    p = a.p if isinstance(a, DT) else num(a) if not isinstance(a, R) else None
    res.append(None if p is None else same(st, p, w))
  return False if False in res else None if None in res else True


def renderer(r, tier):
  """What the Matplotlib renderer draws and returns."""
  I = load()
  mpl = Canvas(I)
  st = I.start()
  I.sinks = [[]]
  outs = I.call(I.lookup('env.rendering.matplotlib_renderer.MatplotlibRenderer'), [], {}, st, None)
  r.check(bool(outs), 'completes', 'MatplotlibRenderer()', WM, str(exceptions(I)[:2]))
  if not outs:
    return
  st, m = outs[0]
  st.roots = st.roots + (m,)
  st, at = atmosphere(I, st)
  states = []
  for k in range(3):
    st, bs = balloon_state(
        I, st, x=unit(I, st, 'Distance', T.var('x%d' % k)), y=unit(I, st, 'Distance', T.var('y%d' % k)),
        pressure=N(T.var('p%d' % k, Fraction(6000), Fraction(14000)), 'float'), date_time=dt_var('t%d' % k),
        battery_charge=unit(I, st, 'Energy', T.var('c%d' % k, Fraction(0), Fraction(3000))))
    st, wf = one(I.call(I.lookup('env.wind_field.SimpleStaticWindField'), [], {}, st, None))
    st, ss = one(I.call(I.lookup('env.simulator_data.SimulatorState'), [bs, wf, at], {}, st, None))
    s2, h = one(I.call_method(at, 'at_pressure', [read(I, st, bs, 'pressure')], {}, st.fork(), None))
    st.roots = st.roots + (ss, h)
    states.append((ss, readn(I, st, bs, 'x.kilometers'), readn(I, st, bs, 'y.kilometers'), readn(I, s2, h, 'height.kilometers'),
                   readn(I, st, bs, 'battery_soc').scale(100), T.var('t%d' % k)))
  modes = one(I.getattr(m, 'render_modes', st.fork(), None))
  known = [x.val for x in series(I, *modes) or () if isinstance(x, C)]
  r.check(set(known) >= {'human', 'rgb_array'} if known else None, 'documented-modes', 'render_modes', WM, str(known))

  def feed(s, ks):
    for k in ks:
      I.sinks = [[]]
      outs = I.call_method(m, 'step', [states[k][0]], {}, s, None)
      r.check(bool(outs), 'completes', 'step', WM, str(exceptions(I)[:2]))
      s, _ = one(outs, 'step')
    return s

  def drawn(s, ks, what, mode='rgb_array', **kw):
    mpl.lines.clear()
    mpl.written.clear()
    I.sinks = [[]]
    outs = I.call_method(m, 'render', [C(mode)], kw, s.fork(), None)
    r.check(bool(outs), 'completes', what, WM, str(exceptions(I)[:2]))
    paths, power = [], []
    for name, s1, args in mpl.lines:
      v = [series(I, s1, a) for a in args]
      if len(v) >= 3 and name in ('plot', 'plot3D'):
        paths.append(all_of(agrees(I, s1, v[j], [states[k][1 + j] for k in ks]) for j in range(3)))
      if len(v) >= 2 and name in ('plot', 'plot_date'):
        power.append(all_of(agrees(I, s1, v[j], [states[k][5 - j] for k in ks]) for j in range(2)))
    if outs:
      r.check(True if True in paths else None if None in paths or not mpl.lines else False, 'draws-the-whole-flight', what, WM, str(mpl.lines)[:200])
      r.check(True if True in power else None if None in power or not mpl.lines else False, 'draws-the-charge', what, WM, str(mpl.lines)[:200])
    return outs
  two = feed(st.fork(), (0, 1))
  drawn(feed(st.fork(), (0,)), (0,), 'after one step')
  drawn(two, (0, 1), 'after two steps')
  drawn(feed(two.fork(), (2,)), (0, 1, 2), 'after three steps')
  again, _ = one(I.call_method(m, 'reset', [], {}, two.fork(), None))
  drawn(feed(again, (2,)), (2,), 'after two steps, a reset and a step')
  w = O(T.atom('writer', 'w'), 'writer')
  for mode in known + ['nonsense', 'ansi']:
    for kw in ({}, {'summary_writer': w}, {'iteration': C(3)}, {'summary_writer': w, 'iteration': C(3)}, {'summary_writer': w, 'iteration': C(0)}):
      what = 'render(%s%s)' % (mode, ''.join(', ' + k + (' 0' if v == C(0) else '') for k, v in sorted(kw.items())))
      if mode not in known:
        I.sinks = [[]]
        outs = I.call_method(m, 'render', [C(mode)], kw, two.fork(), None)
        r.check(not outs and any('ValueError' in str(e) for e in exceptions(I)), 'unknown-mode-rejected', what, WM, str(exceptions(I)[:1]))
        continue
      outs = drawn(two, (0, 1), what, mode, **kw)
      for s, v in outs:
        r.check((v != NONE) == (mode == 'rgb_array'), 'frame-returned-in-array-mode', what, WM, str(v))
      n = sum(1 for x in mpl.written if x[0] == 'image')
      want = mode == 'tensorboard' and len(kw) == 2
      r.check(n >= 1 if want else n == 0, 'written-only-on-request', what, WM, '%d images are written' % n)
      if want and n:
        a = [x for x in mpl.written if x[0] == 'image'][0]
        it = a[1][2] if len(a[1]) > 2 else a[2].get('step')
        r.check(None if it is None else it == kw['iteration'], 'written-at-its-iteration', what, WM, str(it))
  r.took(I)


def all_of(vs):
  vs = list(vs)
  return False if False in vs else None if None in vs else True
