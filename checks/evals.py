"""Evaluation: flights, suites, shards and results (P45-P47)."""
import re

from common import *
from modelfs import FS
from world import World
from agents import is_obj
from runs import T, eqn, frames, is_mode, num, periodic, raises, show_events

EV = 'eval.eval_lib.'
EW = 'eval/eval_lib.py (eval_agent)'
RESULT = ('seed', 'cumulative_reward', 'time_within_radius', 'out_of_power', 'envelope_burst', 'zeropressure',
          'final_timestep')
FLAGS_ = ('out_of_power', 'envelope_burst', 'zeropressure')


class Flights(World):
  """A world whose balloon moves at every step; its state is one object, as in the simulator."""

  def __init__(self, I, st, **kw):
    super().__init__(I, st, **kw)
    st2, self.state = balloon_state(I, st)
    self.st = st2
    self.st.roots = self.st.roots + (self.state,)
    self.info['radius'] = unit(I, self.st, 'Distance', T.var('radius', 0))
    self.st.roots = self.st.roots + (self.info['radius'],)
    old = I.stubs['$attr']

    def attr(I, st, ob, name, node):
      if isinstance(ob, O) and ob.typ == 'simulator-state' and name == 'balloon_state':
        return [(st, self.state)]
      return old(I, st, ob, name, node)
    I.stubs['$attr'] = attr
    self.partial_info = False

  def pos(self, n):
    return T.var('x.%d' % n), T.var('y.%d' % n)

  def values(self, n):
    return {'pressure': T.var('pressure.%d' % n, 1000, 20000), 'superpressure': T.var('superpressure.%d' % n, 0, 3000),
            'time_elapsed': T.var('elapsed.%d' % n, 0), 'battery_charge': T.var('charge.%d' % n, 0, 3058)}

  def call(self, I, st, ob, name, args, kw, node):
    outs = super().call(I, st, ob, name, args, kw, node)
    if ob.typ == 'world' and name in ('step', 'reset'):
      res = []
      for s, v in outs:
        n = self.count(s, 'world.step') + self.count(s, 'world.reset') - 1
        x, y = self.pos(n)
        w = self.values(n)
        for f, val in (('x', unit(I, s, 'Distance', x)), ('y', unit(I, s, 'Distance', y)), ('pressure', N(w['pressure'])),
                       ('superpressure', N(w['superpressure'])), ('time_elapsed', TD(w['time_elapsed'])),
                       ('battery_charge', unit(I, s, 'Energy', w['battery_charge']))):
          s, = I.setattr(self.state, f, val, s, node)
        if name == 'reset':
          res.append((s, v))
          continue
        s, d = one(I.call(I.lookup('utils.units.relative_distance'), [
            unit(I, s, 'Distance', x), unit(I, s, 'Distance', y)], {}, s, None), 'distance')
        d = unit_val(I, s, d, 'meters')
        for inside in (True, False):
          s2 = s.fork()
          s2.assume('<=' if inside else '>', d, T.var('radius', 0))
          self.log(s2, 'world.inside', C(inside))
          res.append((s2, v))
      return res
    return outs

  def extra(self, I, st, what, vals, n):
    if what == 'world.get_simulator_state':
      return [(st, O(T.atom('simulator-state'), 'simulator-state'))]
    return [(st, NONE)]

  def infos(self, st, n):
    d = {}
    for f in FLAGS_:
      d[f] = O(T.atom('info.' + f, n), 'bool')
    return R(st.alloc(Cell('dict', None, {} if self.partial_info else {C(k): v for k, v in d.items()})))



def suite(I, st, seeds, length):
  l = R(st.alloc(Cell('list', None, list(seeds))))
  st, v = one(I.call(I.lookup('eval.suites.EvaluationSuite'), [l, C(length)], {}, st, None), 'EvaluationSuite')
  st.roots = st.roots + (v,)
  return st, v


class Spec:
  """The specification of an evaluation, run over one trace."""

  def __init__(self, r, I, w, what, seeds, length, flight):
    self.r, self.I, self.w, self.what, self.seeds, self.length, self.flight = r, I, w, what, seeds, length, flight

  def check(self, ok, rule, msg=''):
    self.r.check(ok, rule, self.what, EW, msg)

  def run(self, s, results):
    ev = self.w.events(s)
    names = [e[0] for e in ev]
    first = names.index('world.reset') if 'world.reset' in names else len(names)
    modes = [(i, e[1]) for i, e in enumerate(ev) if e[0] == 'actor.set_mode']
    early = [v for i, v in modes if i < first]
    self.check(bool(early) and all(is_mode(v, 'EVAL') for v in early[-1:] + [v for i, v in modes if i > first]),
               'agent-in-evaluation-mode', str(modes))
    rs = listv(s, results)
    if rs is None:
      return self.check(None, 'results-known')
    self.check(len(rs) == len(self.seeds), 'one-result-per-seed', '%d results' % len(rs))
    flights = self.flights(ev)
    self.check(len(flights) == len(self.seeds), 'one-flight-per-seed', '%d flights' % len(flights))
    for res, fl, seed in zip(rs, flights, self.seeds):
      self.result(s, res, fl, seed)

  def flights(self, ev):
    out, cur, phase, seeded, ans, calls, res = [], None, 'between', None, None, 0, None
    for i, e in enumerate(ev):
      k = e[0]
      if k in ('world.reset', 'world.step'):
        calls += 1
      if k == 'world.seed':
        self.check(phase == 'between', 'seeded-before-reset', show_events(ev[:i + 1]))
        seeded = e[1]
      elif k == 'world.reset':
        self.check(phase == 'between' and seeded is not None, 'seeded-before-reset', show_events(ev[:i + 1]))
        cur = {'seed': seeded, 'steps': [], 'inside': []}
        seeded = None
        out.append(cur)
        phase, obs = 'reset', O(T.atom('seen', calls - 1), 'observation')
      elif k == 'actor.begin_episode':
        self.check(phase == 'reset' and is_obj(e[1], obs), 'agent-sees-first-observation', show_events(ev[:i + 1]))
        phase = 'ready'
      elif k == 'actor.answer':
        ans = e[1]
      elif k == 'world.step':
        self.check(phase in ('ready',) and is_obj(e[1], ans), 'every-action-is-the-last-answer', 'phase %s, %s, answer %s' % (
            phase, e[1:], ans))
      elif k == 'world.result':
        res = e[1:]
        cur['steps'].append((calls - 1, res))
        phase = 'over' if res[2].val or len(cur['steps']) >= self.length else 'moved'
        told = False
      elif k == 'world.inside':
        cur['inside'].append(e[1].val)
      elif k == 'actor.step':
        self.check(phase in ('moved', 'over') and not told and is_obj(e[1], res[1]) and is_obj(e[2], res[0]),
                   'agent-sees-each-outcome', 'phase %s, got %s' % (phase, e[1:]))
        told = True
        phase = 'ready' if phase == 'moved' else phase
      elif k == 'actor.end_episode':
        self.check(phase == 'over', 'flight-ends-when-over', 'phase %s' % phase)
        t = e[2] if len(e) > 2 else C(True)
        self.check(phase == 'over' and is_obj(e[1], res[1]) and isinstance(t, C) and t.val == res[2].val, 'end-reported', str(e[1:]))
        phase = 'between'
    self.check(phase == 'between', 'every-flight-ended', phase)
    for n, at in frames(ev):
      self.check(periodic(at, n, 2), 'rendered-every-period', 'after steps %s of %d' % (at, n))
    return out

  def result(self, s, res, fl, seed):
    I = self.I
    n = len(fl['steps'])
    v = {f: I.getattr(res, f, s.fork(), None)[0][1] for f in RESULT}
    self.check(is_obj(fl['seed'], seed), 'flown-on-its-seed', '%s, expected %s' % (fl['seed'], seed))
    self.check(is_obj(v['seed'], seed), 'result-names-its-seed', '%s, expected %s' % (v['seed'], seed))
    total = sum((num(o[1]) for _, o in fl['steps']), T.poly(0))
    self.check(eqn(s, v['cumulative_reward'], total), 'reward-is-the-sum-of-rewards', '%s, expected %s' % (
        v['cumulative_reward'], show(total)))
    self.check(eqn(s, v['final_timestep'], T.poly(n)), 'steps-counted', '%s, flew %d' % (v['final_timestep'], n))
    inside = sum(1 for x in fl['inside'] if x)
    twr = v['time_within_radius']
    ok = eqn(s, twr, T.poly(Fraction(inside, n))) if n else None
    if ok is False and not consistent(s):
      ok = None
    self.check(ok, 'time-within-radius', '%s, inside for %d of %d' % (twr, inside, n))
    done = fl['steps'][-1][1][2].val if n else False
    for f in FLAGS_:
      want = O(T.atom('info.' + f, fl['steps'][-1][0]), 'bool') if done and not self.w.partial_info else C(False)
      self.check(truth_same(s, v[f], want), 'failure-flags', '%s is %s, expected %s' % (f, v[f], want))
    self.path(s, res, fl)

  def path(self, s, res, fl):
    I = self.I
    p = listv(s, I.getattr(res, 'flight_path', s.fork(), None)[0][1])
    if p is None:
      return self.check(None, 'flight-path')
    if not self.flight:
      return self.check(not p, 'no-flight-path-wanted', str(len(p)))
    self.check(len(p) == len(fl['steps']), 'flight-path-length', '%d points, flew %d' % (len(p), len(fl['steps'])))
    for q, (c, _) in zip(p, fl['steps']):
      w = self.w.values(c)
      x, y = self.w.pos(c)
      w.update(x=x, y=y)
      got = {f: I.getattr(q, f, s.fork(), None)[0][1] for f in (
          'x', 'y', 'pressure', 'superpressure', 'time_elapsed', 'battery_soc')}
      cap = unit_val(I, s, I.getattr(self.w.state, 'battery_capacity', s.fork(), None)[0][1], 'watt_hours')
      for f, want in w.items():
        if f in 'xy':
          g = unit_val(I, s, got[f], 'meters')
        elif f == 'battery_charge':
          g, want = num(got['battery_soc']), T.div(want, cap)
        elif f == 'time_elapsed':
          g = got[f].p if isinstance(got[f], TD) else None
        else:
          g = num(got[f])
        self.check(same(s, g, want) if g is not None else None, 'flight-path-point', '%s is %s, expected %s' % (
            f, show(g) if g is not None else got.get(f), show(want)))


def truth_same(s, v, w):
  if isinstance(v, C) and isinstance(w, C):
    return bool(v.val) == bool(w.val)
  return is_obj(v, w)


def p45(r, tier):
  """Evaluating an agent on a suite."""
  cases = [(1, 3, True, False), (2, 2, True, False), (3, 1, False, False), (1, 2, True, True), (0, 2, True, False)]
  if tier != 'quick':
    cases += [(1, 4, True, False), (2, 3, False, False)]
  for nseeds, length, flight, partial in cases:
    I = load()
    I.cap = 4096
    st = I.start()
    w = Flights(I, st)
    w.partial_info = partial
    st = w.st
    seeds = [C(x) for x in (17, 3, 99)][:nseeds]
    st, su = suite(I, st, seeds, length)
    what = '%d seeds, up to %d steps%s' % (nseeds, length, ', no failure flags' if partial else '')
    I.sinks = [[]]
    outs = I.call(I.lookup(EV + 'eval_agent'), [w.agent, w.env, su],
                  {'calculate_flight_path': C(flight), 'render_period': C(2)}, st.fork(), None)
    r.check(not exceptions(I) and bool(outs), 'evaluation-completes', what, EW, str(exceptions(I)[:2]))
    for s, v in outs:
      Spec(r, I, w, what, seeds, length, flight).run(s, v)
    r.count('outcomes of an evaluation', len(outs))
    r.took(I)


# ------------------------------------------------------------------ P46
SU = 'eval/suites.py'
ST_ = ('hardest', 'hard', 'mid', 'easy', 'easiest')
SIZES = {'big_eval': 10000, 'medium_eval': 1000, 'small_eval': 100, 'tiny_eval': 10, 'micro_eval': 1}


def set_flags(I, st, mod, **kw):
  """The command line flags of a program, as given."""
  env = I.prog.mods['balloon_learning_environment.' + mod].env
  st.mut(env).d['FLAGS'] = O(T.atom('flags'), 'flagvalues')
  old = I.stubs['$attr']

  def attr(I, st, ob, name, node):
    if isinstance(ob, O) and ob.typ == 'flagvalues':
      if name not in kw:
        raise AnalysisError('the flag %s is not modelled' % name)
      return [(st, kw[name])]
    return old(I, st, ob, name, node)
  I.stubs = dict(I.stubs)
  I.stubs['$attr'] = attr


def flag_defs(I, mod):
  """The flags a program defines: name -> (kind, default, keywords); None where a value is not constant."""
  import ast
  m = I.prog.mods['balloon_learning_environment.' + mod]

  def val(e):
    try:
      return ast.literal_eval(e)
    except ValueError:
      pass
    try:
      v = I.lookup(mod + '.' + ast.unparse(e))
      return v.val if isinstance(v, C) else ...
    except AnalysisError:
      return ...
  out = {}
  for n in ast.walk(m.tree):
    if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)):
      f = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id
      if f.startswith('DEFINE_'):
        a = dict(zip(('name', 'default', 'third'), n.args))
        a.update({k.arg: k.value for k in n.keywords})
        name = val(a['name']) if 'name' in a else None
        out[name] = (f[len('DEFINE_'):], val(a['default']) if 'default' in a else ..., {k: val(v) for k, v in a.items()})
  return out


def flag_rules(r, mod, want, rule, where):
  I = load()
  defs = flag_defs(I, mod)
  for n, (kind, default) in want.items():
    if n not in defs:
      r.check(False, rule, n, where, 'no such flag: %s' % sorted(map(str, defs)))
      continue
    k, d, _ = defs[n]
    r.check(k == kind, rule, n + ', kind', where, k)
    r.check(None if d is ... else d == default, rule, n + ', default', where, repr(d))
  r.took(I)
  return defs


def get_suite(I, st, name):
  I.sinks = [[]]
  outs = I.call(I.lookup('eval.suites.get_eval_suite'), [C(name)], {}, st, None)
  if len(outs) != 1:
    raise AnalysisError('%s: %d outcomes, %s' % (name, len(outs), exceptions(I)[:1]))
  st, v = outs[0]
  l = I.getattr(v, 'seeds', st, None)[0][1]
  n = I.getattr(v, 'max_episode_length', st, None)[0][1]
  return st, v, l, n


def ints(st, l):
  v = listv(st, l)
  if v is None or not all(isinstance(x, C) for x in v):
    raise AnalysisError('the seeds are not known')
  return [x.val for x in v]


def p46(r, tier):
  """Suites and shards."""
  I = load()
  st = I.start()
  (_, names), = I.call(I.lookup('eval.suites.available_suites'), [], {}, st.fork(), None)
  names = [x.val for x in listv(st, names) or listv(_, names)]
  r.check(set(SIZES) | {s + '_strata' for s in ST_} | {'all_strata'} <= set(names), 'suites-available', 'suites', SU, str(names))
  seeds = {}
  for n in names:
    s, v, l, m = get_suite(I, st.fork(), n)
    seeds[n] = ints(s, l)
  for n in names:
    s, v, l, m = get_suite(I, st.fork(), n)
    r.check(len(set(seeds[n])) == len(seeds[n]) and bool(seeds[n]), 'no-seed-twice', n, SU)
    r.check(all(isinstance(x, int) and 0 <= x < 2 ** 32 for x in seeds[n]), 'seeds-valid', n, SU)
    r.check(is_obj(m, C(960)), 'flights-of-two-days', n, SU, str(m))
    if n in SIZES:
      r.check(seeds[n] == list(range(SIZES[n])), 'suite-seeds', n, SU, '%d seeds' % len(seeds[n]))
    # the caller owns what it gets
    (s, _), = I.call_method(l, 'append', [C(-7)], {}, s.fork(), None)
    for s in I.setattr(v, 'max_episode_length', C(1), s, None):
      s2, v2, l2, m2 = get_suite(I, s.fork(), n)
      r.check(ints(s2, l2) == seeds[n] and is_obj(m2, C(960)), 'suite-is-a-copy', n, SU, 'changing a suite changes the next one')
      for o in names if n in ('hard_strata', 'all_strata') else ():
        s3, v3, l3, m3 = get_suite(I, s.fork(), o)
        r.check(ints(s3, l3) == seeds[o], 'suite-is-a-copy', '%s after %s' % (o, n), SU)
  parts = [seeds.get(s + '_strata', []) for s in ST_]
  r.check(seeds.get('all_strata') == sum(parts, []), 'all-strata-is-their-union', 'all_strata', SU)
  for i, a in enumerate(parts):
    for b, sb in zip(parts[i + 1:], ST_[i + 1:]):
      r.check(not set(a) & set(b), 'strata-disjoint', '%s and %s' % (ST_[i], sb), SU, str(sorted(set(a) & set(b))[:5]))
  for n in ('nosuch', '', 'BIG_EVAL', 'hardest'):
    I.sinks = [[]]
    outs = I.call(I.lookup('eval.suites.get_eval_suite'), [C(n)], {}, st.fork(), None)
    r.check(not outs and raises(I, 'ValueError'), 'unknown-suite-rejected', repr(n), SU, str(exceptions(I)[:1]))
  r.took(I)
  shards(r, tier)


class Program_:
  """eval.py under a set of flags, with the evaluation itself as a model."""

  BASE = dict(agent='walker', suite='tiny_eval', wind_field='simple', agent_gin_file=None, gin_bindings=(),
              output_dir='/out', num_shards=1, shard_idx=0, pretty_json=False, checkpoint_dir=None, checkpoint_idx=None,
              name_override=None, renderer=None, render_period=10)

  def __init__(self, **kw):
    I = self.I = load()
    st = I.start()
    self.w = w = World(I, st)
    d = dict(self.BASE, **kw)
    conv = {}
    for k, v in d.items():
      conv[k] = R(st.alloc(Cell('list', None, [C(x) for x in v]))) if isinstance(v, tuple) else C(v)
      if isinstance(v, tuple):
        st.roots = st.roots + (conv[k],)
    self.flags = conv
    set_flags(I, st, 'eval.eval', **conv)
    self.fs = FS(I, st, {}, ('/',))
    self.order = []
    self.flown = []
    self.dumped = []
    event = getattr(I, 'on_event', None)

    def on_event(st, kind, d):
      if kind == 'dumped':
        self.dumped.append(d)
      if event:
        event(st, kind, d)
    I.on_event = on_event
    for f, n in (('bind_gin_variables', 'bind'), ('get_wind_field_factory', 'factory'), ('create_agent', 'create')):
      fn_summary(I, 'utils.run_helpers.' + f, self.helper(n))
    I.stubs['gym.make'] = self.make
    fn_summary(I, EV + 'eval_agent', self.evaluate)
    I.sinks = [[]]
    argv = R(st.alloc(Cell('list', None, [C('eval')])))
    self.outs = I.call(I.lookup('eval.eval.main'), [argv], {}, st, None)

  def helper(self, n):
    def h(I, st, f, args, kw, node):
      self.order.append((n, args, kw))
      if n == 'factory':
        return [(st, O(T.atom('factory'), 'factory'))]
      if n == 'create':
        return [(st, self.w.agent)]
      return [(st, NONE)]
    return h

  def make(self, I, st, name, args, kw, node):
    self.order.append(('make', args, kw))
    return [(st, self.w.env)]

  def evaluate(self, I, st, f, args, kw, node):
    d = dict(zip(('agent', 'env', 'eval_suite'), args))
    d.update(kw)
    self.order.append(('evaluate', args, kw))
    l = I.getattr(d['eval_suite'], 'seeds', st, None)[0][1]
    self.flown.append((ints(st, l), I.getattr(d['eval_suite'], 'max_episode_length', st, None)[0][1], d))
    res = R(st.alloc(Cell('list', None, [O(T.atom('result', x.val), 'result') for x in listv(st, l)])))
    return [(st, res)]


def shards(r, tier):
  where = 'eval/eval.py (main)'
  defs = flag_rules(r, 'eval.eval', {'num_shards': ('integer', 1), 'shard_idx': ('integer', 0)}, 'undivided-unless-asked', 'eval/eval.py')
  for n, low in (('num_shards', 1), ('shard_idx', 0)):
    k = defs[n][2] if n in defs else {}
    lo, hi = k.get('lower_bound'), k.get('upper_bound')
    r.check(None if lo is ... else lo is None or lo <= low, 'every-shard-can-be-asked-for', n + ', lower bound', 'eval/eval.py', str(lo))
    r.check(None if hi is ... else hi is None or hi >= 10000, 'every-shard-can-be-asked-for', n + ', upper bound', 'eval/eval.py', str(hi))
  fam = [('tiny_eval', n) for n in (1, 2, 3, 4, 7, 10, 13)] + [('micro_eval', 2), ('small_eval', 7)]
  if tier != 'quick':
    fam += [('tiny_eval', n) for n in range(1, 31)] + [('small_eval', n) for n in (3, 30, 99, 101)] + [('medium_eval', 11)]
  for name, n in fam:
    got, files = [], set()
    want = list(range(SIZES[name]))
    what = '%s in %d shards' % (name, n)
    for k in range(n):
      p = Program_(suite=name, num_shards=n, shard_idx=k)
      r.check(len(p.outs) == 1 and len(p.flown) == 1, 'evaluates-once', what, where, str(exceptions(p.I)[:2]))
      for seeds, length, d in p.flown:
        got += seeds
        r.check(is_obj(length, C(960)), 'flight-length-kept', what, where, str(length))
      for s, _ in p.outs:
        new = p.fs.listing(s)
        r.check(len(new) == 1, 'one-result-file-per-shard', what, where, str(new))
        for f in new:
          r.check(f not in files, 'shards-keep-apart', what, where, f)
          files.add(f)
          c = p.fs.get(s, f)
          l = listv(s, c[0][1]) if len(c) == 1 and c[0][0] == 'json.dump' else None
          r.check(l is not None and [x.a.args[0] for x in l] == p.flown[0][0], 'results-written', what, where, str(c)[:200])
      r.took(p.I)
    r.check(sorted(got) == want, 'every-seed-in-exactly-one-shard', what, where, '%d seeds flown, %d distinct, of %d' % (
        len(got), len(set(got)), len(want)))


# ------------------------------------------------------------------ P47
def wiring(r):
  where = 'eval/eval.py (main)'
  cases = [('defaults', {}), ('checkpoint', dict(checkpoint_dir='/ckpt', checkpoint_idx=0)),
           ('checkpoint 12', dict(checkpoint_dir='/ckpt', checkpoint_idx=12)), ('directory only', dict(checkpoint_dir='/ckpt')),
           ('number only', dict(checkpoint_idx=3)),
           ('renamed', dict(name_override='best', checkpoint_dir='/ckpt', checkpoint_idx=4)),
           ('shard', dict(num_shards=3, shard_idx=2, pretty_json=True)),
           ('gin', dict(agent_gin_file='/a.gin', gin_bindings=('A.x=1', 'B.y=2'), render_period=7))]
  for what, kw in cases:
    p = Program_(**kw)
    I, w = p.I, p.w
    r.check(len(p.outs) == 1 and not exceptions(I), 'program-completes', what, where, str(exceptions(I)[:2]))
    f = dict(Program_.BASE, **kw)
    names = [x[0] for x in p.order]
    r.check(sorted(names) == ['bind', 'create', 'evaluate', 'factory', 'make'], 'each-part-once', what, where, str(names))
    r.check(names.index('bind') < min(names.index('create'), names.index('make'), names.index('factory')),
            'configuration-before-construction', what, where, str(names))
    d = {n: (a, k) for n, a, k in p.order}
    flat = lambda n: list(d[n][0]) + list(d[n][1].values())
    r.check([v for v in flat('bind')] and is_obj(flat('bind')[0], C(f['agent'])) and is_obj(flat('bind')[1], C(f['agent_gin_file']))
            and is_obj(flat('bind')[2], p.flags['gin_bindings']), 'configuration-forwarded', what, where, str(flat('bind')))
    r.check(is_obj(flat('factory')[0], C(f['wind_field'])), 'wind-field-forwarded', what, where, str(flat('factory')))
    r.check(is_obj(d['make'][1].get('wind_field_factory', NONE), O(T.atom('factory'), 'factory')), 'wind-field-forwarded',
            what, where, str(d['make']))
    c = flat('create')
    r.check(is_obj(c[0], C(f['agent'])) and is_obj(c[1], O(T.atom('size', T.atom('world.actions')), 'size')) and is_obj(
        c[2], O(T.atom('size', T.atom('world.observations')), 'size')), 'agent-fits-environment', what, where, str(c))
    for _, _, e in p.flown:
      r.check(is_obj(e['agent'], w.agent) and is_obj(e['env'], w.env), 'evaluates-this-agent-here', what, where, str(e))
      r.check(is_obj(e.get('render_period', C(10)), C(f['render_period'])), 'render-period-forwarded', what, where, str(e))
    for s, _ in p.outs:
      loads = [e[1:] for e in w.events(s) if e[0] == 'actor.load_checkpoint']
      if f['checkpoint_dir'] is not None and f['checkpoint_idx'] is not None:
        r.check(len(loads) == 1 and is_obj(loads[0][0], C(f['checkpoint_dir'])) and is_obj(loads[0][1], C(f['checkpoint_idx'])),
                'evaluates-the-checkpoint', what, where, str(loads))
      else:
        r.check(not loads, 'evaluates-the-checkpoint', what, where, str(loads))
      name = f['name_override'] or f['agent'] + ('_%d' % f['checkpoint_idx'] if f['checkpoint_idx'] is not None else '')
      if f['num_shards'] > 1:
        name += '_%d' % f['shard_idx']
      want = '/out/%s/%s.json' % (f['suite'], name)
      enc = [k['kw'].get('cls') or (None if 'default' in k['kw'] else False) for k in p.dumped]
      good = [None if e is None else e is not False and getattr(getattr(e, 'ci', e), 'name', None) == 'EvalResultEncoder' for e in enc]
      r.check(all(good) if None not in good else None, 'results-are-encodable', what, where, str(enc))
      r.check(p.fs.listing(s) == [want], 'result-file', what, where, '%s, expected %s' % (p.fs.listing(s), want))
    r.took(I)


def encoder(r):
  """What the JSON encoder makes of results."""
  where = 'eval/eval_lib.py (EvalResultEncoder)'
  I = load()
  st = I.start()
  st, bs = balloon_state(I, st)
  E = 'eval.eval_lib.'
  st, p = one(I.call(I.getattr(I.lookup(E + 'SimpleBalloonState'), 'from_balloon_state', st, None)[0][1], [bs], {}, st, None), 'point')
  st.roots = st.roots + (p, bs)
  enc = one(I.call(I.lookup(E + 'EvalResultEncoder'), [], {}, st, None), 'encoder')
  st, enc = enc
  st.roots = st.roots + (enc,)

  def g(f, attr=None):
    v = I.getattr(bs, f, st.fork(), None)[0][1]
    return unit_val(I, st.fork(), v, attr) if attr else num(v)
  td = I.getattr(bs, 'time_elapsed', st.fork(), None)[0][1]
  want = {'x': g('x', 'kilometers'), 'y': g('y', 'kilometers'), 'pressure': g('pressure'), 'superpressure': g('superpressure'),
          'elapsed_seconds': td.p, 'power': g('battery_soc')}
  I.sinks = [[]]
  outs = I.call_method(enc, 'default', [p], {}, st.fork(), None)
  r.check(bool(outs) and not exceptions(I), 'encodes', 'flight path point', where, str(exceptions(I)[:1]))
  for s, v in outs:
    d = {k.val: x for k, x in s.cell(v.addr).d.items()}
    r.check(set(d) == set(want), 'point-fields', 'flight path point', where, str(sorted(d)))
    for k in want:
      r.check(same(s, num(d[k]), want[k]) if k in d and num(d[k]) is not None else None, 'point-values', k, where, '%s, expected %s' % (
          d.get(k), show(want[k])))
  vals = {f: O(T.atom('field', f), '?') for f in RESULT + ('flight_path',)}
  (s, res), = I.call(I.lookup(E + 'EvaluationResult'), [], vals, st.fork(), None)
  for s2, v in I.call_method(enc, 'default', [res], {}, s, None):
    d = {k.val if isinstance(k, C) else k: x for k, x in s2.cell(v.addr).d.items()}
    r.check({k for k, x in d.items() if k in vals and is_obj(x, vals[k])} == set(vals) == set(d), 'result-fields', 'EvaluationResult',
            where, str(d))
  for sh, fits in (((1,), True), ((), True), ((1, 1), True), ((2,), False), ((2, 3), False)):
    x = T.var('the element', -9, 9)
    a = fresh_arr(st, N(x), sh)
    st.roots = st.roots + (a,)
    I.sinks = [[]]
    outs = I.call_method(enc, 'default', [a], {}, st.fork(), None)
    what = 'array of shape %s' % (sh,)
    if fits:
      r.check(bool(outs) and not exceptions(I), 'encodes', what, where, str(exceptions(I)[:1]))
      for s, v in outs:
        r.check(same(s, num(v), x) if numeric(v) and num(v) is not None else None, 'lone-element-kept', what, where, str(v))
    else:
      r.check(not any(numeric(v) for _, v in outs), 'no-element-lost', what, where, 'encoded as %s' % [v for _, v in outs])
  r.took(I)


def combining(r):
  where = 'eval/combine_eval_shards.py (main)'

  def point(st, seed, n):
    path = R(st.alloc(Cell('list', None, [O(T.atom('point', seed, i), 'point') for i in range(n)])))
    d = {C('seed'): C(seed), C('cumulative_reward'): O(T.atom('reward', seed), 'float'), C('flight_path'): path}
    v = R(st.alloc(Cell('dict', None, d)))
    st.roots = st.roots + (v,)
    return v
  layouts = [('one shard', {'a': {0: (4, 2, 9)}}), ('three shards', {'a': {0: (0, 1), 1: (2, 3), 2: (4,)}}),
             ('out of order', {'a': {0: (30, 7), 1: (5,), 2: (), 3: (1, 100)}}),
             ('eleven shards', {'a': {i: (20 - i,) for i in range(11)}}),
             ('related names', {'a': {0: (1,), 1: (0,)}, 'a_b': {0: (5,), 1: (6,)}, 'ca': {0: (8,)}}),
             ('special names', {'a.b+c': {0: (1,), 1: (0,)}, 'axbbc': {0: (5,)}}),
             ('several models', {'a': {0: (1,), 1: (0,)}, 'b': {0: (3,), 1: (2,)}})]
  for what, models in layouts:
    for keep in (False, True):
      for subset in [list(models)] + ([list(models)[:1]] if len(models) > 1 else []):
        combine(r, where, '%s, %s' % (what, 'with flight paths' if keep else 'without'), models, subset, keep, point)
  combine(r, where, 'a checkpoint of the same agent', {'a': {0: (1,), 1: (0,)}}, ['a'], True, point, {'a_10': (50, 51)})


def combine(r, where, what, models, subset, keep, point, whole=None):
  I = load()
  st = I.start()
  set_flags(I, st, 'eval.combine_eval_shards', path=C('/p'), models=R(st.alloc(Cell('list', None, [C(m) for m in subset]))),
            pretty_json=C(False), flight_paths=C(keep))
  files = {}

  def put(name, seeds):
    l = R(st.alloc(Cell('list', None, [point(st, x, 2) for x in seeds])))
    st.roots = st.roots + (l,)
    files['/p/%s.json' % name] = (('json.dump', l),)
  for m, sh in models.items():
    for k, seeds in sh.items():
      put('%s_%d' % (m, k), seeds)
  for name, seeds in (whole or {}).items():
    put(name, seeds)
  files['/p/notes_0.json'] = (('text', C('unrelated')),)
  fs = FS(I, st, files, ('/', '/p'))
  before = fs.listing(st)
  I.sinks = [[]]
  argv = R(st.alloc(Cell('list', None, [C('combine')])))
  outs = I.call(I.lookup('eval.combine_eval_shards.main'), [argv], {}, st, None)
  r.check(len(outs) == 1 and not exceptions(I), 'combining-completes', what, where, str(exceptions(I)[:2]))
  for s, _ in outs:
    new = set(fs.listing(s)) - set(before)
    r.check(new == {'/p/%s.json' % m for m in subset}, 'one-file-per-model', what, where, str(sorted(new)))
    r.check(set(before) <= set(fs.listing(s)), 'shards-kept', what, where, str(sorted(set(before) - set(fs.listing(s)))))
    for m in subset:
      c = fs.get(s, '/p/%s.json' % m)
      l = listv(s, c[0][1]) if len(c) == 1 and c[0][0] == 'json.dump' else None
      if l is None:
        r.check(False, 'combined-file', what, where, str(c)[:200])
        continue
      ds = [{k.val: v for k, v in s.cell(x.addr).d.items()} for x in l]
      got = [d['seed'].val for d in ds]
      want = sorted(x for sh in models[m].values() for x in sh)
      r.check(sorted(got) == want, 'merges-exactly-its-shards', what, where, '%s: seeds %s, expected %s' % (m, got, want))
      r.check(got == sorted(got), 'sorted-by-seed', what, where, str(got))
      for d in ds:
        x = d['seed'].val
        r.check(is_obj(d.get('cumulative_reward'), O(T.atom('reward', x), 'float')), 'results-unchanged', what, where, str(d))
        fp = listv(s, d['flight_path'])
        r.check(fp is not None and [q.a.args for q in fp] == ([(x, 0), (x, 1)] if keep else []), 'flight-paths-as-asked', what, where,
                str(fp))
  r.took(I)


def p47(r, tier):
  """From flags to result files, and their combination."""
  wiring(r)
  encoder(r)
  combining(r)
