"""Experiment machinery: checkpoints, the training loop, metrics (P42-P44)."""
import re

from common import *
from env import reach
from modelfs import FS
from world import STATS, World
from agents import AG, DQ, Learner, construct, is_obj, vector, NF

DU = AG + 'dopamine_utils.'
DW = 'agents/dopamine_utils.py'
FOREIGN = ('/run/notes.txt', '/run/checkpoint_7.pkl', '/run/checkpoint_00900.pkl.bak', '/run/checkpoint_00901_backup.pkl',
           '/run/checkpoint_latest.pkl', '/run/xcheckpoint_00902.pkl', '/run/checkpoint_00903.txt',
           '/run/replay_00904.pkl', '/run/checkpoint_9e3.pkl', '/run/$store$_add_count_ckpt.00905.gz')


def own(i):
  return '/run/checkpoint_%05d.pkl' % i


def setup(files=(), dirs=('/', '/run'), foreign=()):
  I = load()
  st = I.start()
  d = {own(i): (('pickle.dump', O(T.atom('bundle', i), 'bundle')),) for i in files}
  d.update({f: (('text', C('foreign')),) for f in foreign})
  fs = FS(I, st, d, dirs)
  return I, st, fs


def run(I, st, fn, args, kw=None):
  I.sinks = [[]]
  return I.call(I.lookup(fn), list(args), kw or {}, st.fork(), None)


def callback(I, name, result, log):
  """A function passed in by the caller."""
  def h(I, st, n, args, kw, node):
    log.append(args)
    return [(st, result)]
  I.stubs['caller.' + name] = h
  return X('caller.' + name)


def p42(r, tier):
  """Checkpoints: round trip, latest, garbage collection, agents."""
  nums = (0, 1, 42, 99999, 100000, 1234567)
  for i in nums:
    for d in ('/run', '/run/checkpoints/a'):
      I, st, fs = setup(foreign=FOREIGN)
      log, un = [], []
      b = O(T.atom('bundle', i), 'bundle')
      what = 'iteration %d' % i
      visible = []

      def ev(st, kind, data):
        if kind == 'dumped':
          visible.append((data['path'], st.fork()))
      I.on_event = ev
      before = set(fs.listing(st))
      outs = run(I, st, DU + 'save_checkpoint', [C(d), C(i), callback(I, 'bundle', b, log)])
      r.check(len(outs) == 1 and not exceptions(I), 'saved', what, DW, str(exceptions(I)[:2]))
      for path, s in visible:
        late = run(I, s, DU + 'get_latest_checkpoint', [C(d)])
        r.check(not any(is_obj(v, C(i)) for _, v in late), 'visible-only-when-complete', 'dopamine_utils.save_checkpoint', DW,
                'the checkpoint is found under its final name before it is written completely')
      I.on_event = None
      for s, _ in outs:
        r.check(len(set(fs.listing(s)) - before) == 1 and before <= set(fs.listing(s)), 'one-file-per-checkpoint', what, DW,
                str(sorted(set(fs.listing(s)) ^ before)))
        r.check(len(log) == 1 and is_obj(log[0][0], C(d)) and is_obj(log[0][1], C(i)), 'bundle-requested', what, DW, str(log))
        for ok in (True, False):
          un.clear()
          back = run(I, s, DU + 'load_checkpoint', [C(d), C(i), callback(I, 'unbundle', C(ok), un)])
          r.check(len(back) == 1 and not exceptions(I), 'loads', what, DW, str(exceptions(I)[:2]))
          r.check(len(un) == 1 and is_obj(un[0][0], C(d)) and is_obj(un[0][1], C(i)) and is_obj(un[0][2], b), 'round-trip',
                  what, DW, 'restored %s' % un[:1])
        for j in (i + 1, i + 100000):
          un.clear()
          back = run(I, s, DU + 'load_checkpoint', [C(d), C(j), callback(I, 'unbundle', C(True), un)])
          r.check(len(back) == 1 and not un, 'absent-checkpoint-not-restored', 'iteration %d, asked for %d' % (i, j), DW, str(un))
        late = run(I, s, DU + 'get_latest_checkpoint', [C(d)])
        for _, v in late:
          r.check(is_obj(v, C(i)), 'latest', what, DW, str(v))
      r.took(I)
    I, st, fs = setup(foreign=FOREIGN)
    before = fs.listing(st)
    for s, _ in run(I, st, DU + 'save_checkpoint', [C('/run'), C(i), callback(I, 'bundle', NONE, [])]):
      r.check(fs.listing(s) == before, 'nothing-to-save-writes-nothing', 'iteration %d' % i, DW, str(fs.listing(s)))
  # the latest checkpoint
  for files in ((), (0,), (3, 12, 7), (9, 10, 99999, 100000), (250000, 99999), (5, 100, 20)):
    I, st, fs = setup(files, foreign=FOREIGN)
    late = run(I, st, DU + 'get_latest_checkpoint', [C('/run')])
    r.check(True if late and not exceptions(I) else False, 'latest-defined', str(files), DW, str(exceptions(I)[:2]))
    for _, v in late:
      r.check(is_obj(v, C(max(files) if files else -1)), 'latest', 'checkpoints %s' % (files,), DW, str(v))
    for _, v in run(I, st, DU + 'get_latest_checkpoint', [C('/elsewhere')]):
      r.check(is_obj(v, C(-1)), 'latest', 'no directory', DW, str(v))
    r.took(I)
  # garbage collection
  for files, n, dur in (((0, 1, 2, 3, 4, 5), 5, 2), ((1, 49, 50, 51, 100), 100, 50), ((99998, 99999, 100000, 100001), 100001, 2),
                        ((), 3, 1), ((0, 1), 1, 50), ((3, 4), 4, 0), ((1, 2, 3), 60, 50)):
    I, st, fs = setup(files, foreign=FOREIGN)
    for default in ((False, True) if dur == 50 else (False,)):
      outs = run(I, st, DU + 'clean_up_old_checkpoints', [C('/run'), C(n)], {} if default else {'checkpoint_duration': C(dur)})
      what = 'checkpoints %s at %d, duration %d' % (files, n, dur)
      r.check(True if outs and not exceptions(I) else False, 'cleans-up', what, DW, str(exceptions(I)[:2]))
      for s, _ in outs:
        left = set(fs.listing(s))
        r.check(set(FOREIGN) <= left, 'other-files-kept', what, DW, 'removed %s' % sorted(set(FOREIGN) - left))
        want = {own(i) for i in files if i >= n - dur}
        r.check(left - set(FOREIGN) == want, 'exactly-stale-checkpoints-removed', what, DW,
                'left %s, expected %s' % (sorted(left - set(FOREIGN)), sorted(want)))
    r.took(I)
  agent_checkpoints(r)


def agent_checkpoints(r):
  for cls in DQ:
    for dur in (None, 2):
      L = Learner(cls, 'agents.exploration.Exploration', checkpoint_duration=C(dur))
      I = L.I
      st = L.st.fork()
      fs = FS(I, st, {own(i): (('pickle.dump', O(T.atom('bundle', 'old', i), 'bundle')),) for i in (3, 4, 5, 6)},
              ('/', '/run'))
      what = '%s, checkpoint duration %s' % (cls, dur)
      L.log.clear()
      I.sinks = [[]]
      outs = I.call_method(L.a, 'save_checkpoint', [C('/run'), C(7)], {}, st.fork(), None)
      r.check(len(outs) == 1, 'agent-saves', what, L.where, str(exceptions(I)[:2]))
      want = {own(i) for i in (3, 4, 5, 6, 7) if dur is None or i >= 7 - dur}
      for s, _ in outs:
        e = [x for x in L.log if x[0] == 'bundle_and_checkpoint']
        r.check(len(e) == 1, 'agent-bundles-once', what, L.where, str(len(e)))
        r.check(set(fs.listing(s)) == want, 'agent-garbage-collection', what, L.where, '%s, expected %s' % (
            fs.listing(s), sorted(want)))
        L.log.clear()
        for s2, v in I.call_method(L.a, 'reload_latest_checkpoint', [C('/run')], {}, s.fork(), None):
          r.check(is_obj(v, C(7)), 'agent-reloads-latest', what, L.where, str(v))
        e = [x for x in L.log if x[0] == 'unbundle']
        flat = [v for x in e[:1] for v in x[1]['args'] + list(x[1]['kw'].values())]
        r.check(any(is_obj(v, C(7)) is True for v in flat) and any(isinstance(v, O) and v.a.op == 'bundle' for v in flat),
                'agent-restores-own-bundle', what, L.where, str(flat))
        L.log.clear()
        for s2, v in I.call_method(L.a, 'load_checkpoint', [C('/run'), C(6)], {}, s.fork(), None):
          e = [x for x in L.log if x[0] == 'unbundle']
          flat = [v for x in e[:1] for v in x[1]['args']]
          r.check(any(is_obj(v, C(6)) is True for v in flat), 'agent-loads-requested', what, L.where, str(flat))
      for d in ('/run/empty', '/nowhere'):
        s = st.fork()
        s.mut(fs.addr).meta = {'dirs': frozenset(('/', '/run', '/run/empty'))}
        L.log.clear()
        I.sinks = [[]]
        for s2, v in I.call_method(L.a, 'reload_latest_checkpoint', [C(d)], {}, s, None):
          r.check(is_obj(v, C(-1)), 'agent-without-checkpoint', what, L.where, str(v))
          r.check(not [x for x in L.log if x[0] == 'unbundle'], 'agent-without-checkpoint', what, L.where)
        r.check(not exceptions(I), 'agent-without-checkpoint', what, L.where, str(exceptions(I)[:2]))

      def broken(I, st, name, args, kw, node):
        return I.throw(st, 'ValueError', node)
      I.stubs[L.base + '.unbundle'] = broken
      I.sinks = [[]]
      outs = I.call_method(L.a, 'reload_latest_checkpoint', [C('/run')], {}, st.fork(), None)
      r.check(len(outs) == 1 and not exceptions(I), 'agent-unusable-checkpoint', what, L.where, str(exceptions(I)[:2]))
      for s2, v in outs:
        r.check(is_obj(v, C(-1)), 'agent-unusable-checkpoint', what, L.where, str(v))
      r.took(I)
  # agents without checkpoints start from scratch
  for cls, args in (('agent.RandomAgent', ()), ('random_walk_agent.RandomWalkAgent', ()),
                    ('station_seeker_agent.StationSeekerAgent', ()), ('mlp_agent.MLPAgent', ())):
    I = load()
    st, a = construct(I, AG + cls, [C(3), Tup((C(NF),))])
    st = st.fork()
    FS(I, st, {own(3): ()}, ('/', '/run'))
    I.sinks = [[]]
    for s, v in I.call_method(a, 'reload_latest_checkpoint', [C('/run')], {}, st, None):
      r.check(is_obj(v, C(-1)), 'stateless-agent-starts-over', cls, 'agents/agent.py (Agent)', str(v))
    r.took(I)


# ------------------------------------------------------------------ P43
TL = 'train_lib.'
TW = 'train_lib.py (run_training_loop)'
PHASES = ('collector.pre_training', 'collector.begin_episode', 'collector.step', 'collector.end_episode',
          'collector.end_training')


def show_events(ev):
  return ' '.join(e[0] for e in ev)[-300:]


def frames(ev):
  """For each episode its number of steps and the steps after which it was rendered."""
  out = []
  for e in ev:
    if e[0] == 'world.reset':
      out.append([0, []])
    elif e[0] == 'world.result':
      out[-1][0] += 1
    elif e[0] == 'world.render' and out:
      out[-1][1].append(out[-1][0])
  return out


def periodic(at, n, period):
  """Rendered after every so many steps, from whichever of the first ones."""
  return all(b - a == period for a, b in zip(at, at[1:])) and (not at or at[0] <= period) and (at[-1] if at else 0) > n - period


class Loop:
  """The specification automaton of training, run over one trace."""

  def __init__(self, r, what, cfg):
    self.r, self.what, self.cfg = r, what, cfg

  def check(self, ok, rule, msg=''):
    self.r.check(ok, rule, self.what, TW, msg)

  def run(self, ev):
    c = self.cfg
    start = max(c['latest'] + 1, 0)
    episodes = max(c['iterations'] - start, 0) * c['per']
    names = [e[0] for e in ev]
    self.check(names.count('world.reset') == episodes, 'episodes-per-iteration', '%d episodes, expected %d' % (
        names.count('world.reset'), episodes))
    self.check(names.count('actor.reload_latest_checkpoint') == 1, 'resumes-from-latest-checkpoint')
    dirs = [e[1] for e in ev if e[0] in ('actor.reload_latest_checkpoint', 'actor.save_checkpoint')]
    self.check(all(is_obj(d, dirs[0]) for d in dirs), 'one-checkpoint-directory', str(dirs))
    first = names.index('world.reset') if episodes else len(names)
    self.check('actor.reload_latest_checkpoint' in names[:first], 'resumes-from-latest-checkpoint', 'reloaded late')
    modes = [(i, e[1]) for i, e in enumerate(ev) if e[0] == 'actor.set_mode']
    early = [v for i, v in modes if i < first]
    self.check(bool(early) and all(is_mode(v, 'TRAIN') for v in early[-1:] + [v for i, v in modes if i >= first]),
               'agent-in-training-mode', str(modes))
    w = [e[1] for e in ev if e[0] == 'actor.set_summary_writer']
    self.check(len(w) >= 1 and is_obj(w[-1], c['writer']), 'agent-gets-summary-writer', str(w))
    for k in range(c['collectors']):
      self.collector(k, ev, start, episodes)
    self.saves(ev, start)
    self.play(ev)

  def collector(self, k, ev, start, episodes):
    mine = [e for e in ev if e[0].startswith('collector.') and e[1].val == k]
    new = [e for e in mine if e[0] == 'collector.new']
    self.check(len(new) == 1 and is_obj(new[0][2], self.cfg['base']) and is_obj(new[0][3], self.cfg['actions'])
               and is_obj(new[0][4], C(start * self.cfg['per'])), 'collector-created', str(new))
    seq = [PHASES.index(e[0]) for e in mine if e[0] in PHASES]
    text = ''.join(map(str, seq))
    self.check(re.fullmatch(r'0(12*3)*4', text) is not None and text.count('1') == episodes, 'collector-lifecycle', text)

  def saves(self, ev, start):
    done, saved = 0, []
    for e in ev:
      if e[0] == 'actor.end_episode':
        done += 1
      if e[0] == 'actor.save_checkpoint':
        saved.append((e[2], done))
    want = [(C(i), (i - start + 1) * self.cfg['per']) for i in range(start, self.cfg['iterations'])]
    self.check(len(saved) == len(want) and all(is_obj(a, x) and b == y for (a, b), (x, y) in zip(saved, want)),
               'one-checkpoint-per-iteration', 'saved %s' % (saved,))

  def play(self, ev):
    """Every episode: act on the last answer, answer the last observation and reward, stop when over."""
    ans = res = obs = sent = None
    n = calls = 0
    phase = 'between'
    stats = {}
    for i, e in enumerate(ev):
      k = e[0]
      if k in ('world.reset', 'world.step'):
        calls += 1
      if k == 'world.reset':
        self.check(phase == 'between', 'environment-reset-between-episodes', show_events(ev[:i + 1]))
        phase, n, res = 'reset', 0, None
        obs = O(T.atom('seen', calls - 1), 'observation')
      elif k == 'actor.begin_episode':
        self.check(phase == 'reset' and is_obj(e[1], obs), 'agent-sees-first-observation', show_events(ev[:i + 1]))
        phase = 'ready'
      elif k == 'actor.answer':
        ans = e[1]
      elif k == 'world.step':
        self.check(phase == 'ready' and is_obj(e[1], ans), 'every-action-is-the-last-answer',
                   'phase %s, action %s, answer %s' % (phase, e[1:], ans))
        phase = 'stepping'
      elif k == 'world.result':
        res = e[1:]
        n, sent = n + 1, ans
        phase = 'over' if res[2].val or n >= self.cfg['max'] else 'moved'
      elif k == 'actor.step':
        if phase == 'over':
          self.check(False, 'last-reward-delivered-once', 'the agent is stepped after the last step of the episode')
          continue
        self.check(phase == 'moved' and is_obj(e[1], res[1]) and is_obj(e[2], res[0]), 'agent-sees-each-outcome-once',
                   'phase %s, got %s' % (phase, e[1:]))
        phase = 'ready'
      elif k == 'actor.end_episode':
        self.check(phase == 'over', 'episode-ends-when-over', 'phase %s after %d steps' % (phase, n))
        self.check(phase == 'over' and is_obj(e[1], res[1]), 'last-reward-delivered-once', str(e[1:]))
        t = e[2] if len(e) > 2 else C(True)
        self.check(phase == 'over' and isinstance(t, C) and t.val == res[2].val, 'terminal-reported', str(t))
        phase = 'between'
      elif k == 'collector.begin_episode':
        stats[e[1].val] = []
        self.check(phase in ('between', 'reset', 'ready'), 'collector-episode-boundaries', phase)
      elif k == 'collector.step':
        seen = stats.setdefault(e[1].val, [])
        seen.append(n)
        self.check(self.stat(e, n - 1, sent, res) and seen == list(range(1, n + 1)), 'statistics-of-each-step-once',
                   'step %d: %s' % (n - 1, e[2:]))
      elif k == 'collector.end_episode':
        self.check(self.stat(e, n, sent, res) and stats.get(e[1].val) == list(range(1, n + 1)), 'final-statistics',
                   '%s, steps %s of %d, sent %s' % (e[2:], stats.get(e[1].val), n, sent))
    self.check(phase == 'between', 'every-episode-ended', phase)
    for n, at in frames(ev):
      self.check(periodic(at, n, self.cfg['render']), 'rendered-every-period', 'after steps %s of %d' % (at, n))

  def stat(self, e, n, sent, res):
    return res is not None and is_obj(e[2], C(n)) and is_obj(e[3], sent) and is_obj(e[4], res[1]) and (
        isinstance(e[5], C) and e[5].val == res[2].val)


def is_mode(v, name):
  if isinstance(v, C):
    return isinstance(v.val, str) and v.val == name.lower()
  return name in str(v)


def p43(r, tier):
  """The training loop."""
  cases = [dict(latest=l, iterations=n, per=per, max=m, collectors=k, render=10 if m < 3 else 2)
           for l, n, per, m, k in ((-1, 1, 1, 4, 1), (-1, 2, 2, 2, 2), (0, 3, 1, 2, 1), (4, 5, 2, 1, 1), (2, 3, 1, 3, 0),
                                   (4, 3, 1, 2, 1), (-5, 1, 1, 1, 1))]
  if tier != 'quick':
    cases += [dict(latest=l, iterations=l + 3, per=p, max=m, collectors=2, render=1)
              for l in (-1, 7) for p, m in ((1, 6), (3, 1), (2, 3))]
  for c in cases:
    I = load()
    st = I.start()
    writers = {k: 'w%d' % k for k in range(1, c['collectors'])}
    w = World(I, st, c['latest'], writers)
    cons = R(st.alloc(Cell('list', None, [w.collector(k) for k in range(c['collectors'])])))
    c.update(base=C('/exp'), writer=O(T.atom('writer', 'w1'), 'writer') if writers else NONE,
             actions=O(T.atom('size', T.atom('world.actions')), 'size'))
    what = 'latest %(latest)d, %(iterations)d iterations of %(per)d episodes of %(max)d steps' % c
    I.cap = 4096
    I.sinks = [[]]
    outs = I.call(I.lookup(TL + 'run_training_loop'),
                  [c['base'], w.env, w.agent, C(c['iterations']), C(c['max']), cons],
                  {'render_period': C(c['render']), 'episodes_per_iteration': C(c['per'])}, st.fork(), None)
    r.check(not exceptions(I), 'training-completes', what, TW, str(exceptions(I)[:2]))
    eps = max(c['iterations'] - max(c['latest'] + 1, 0), 0) * c['per']
    r.check(len(outs) == (c['max'] + 1) ** eps, 'every-outcome-explored', what, TW, '%d outcomes' % len(outs))
    for s, _ in outs:
      Loop(r, what, c).run(w.events(s))
      for e in w.events(s):
        if e[0] in ('collector.step', 'collector.end_episode'):
          r.check(all(is_obj(I.getattr(e[6], f, s.fork(), None)[0][1], v) for f, v in zip(STATS, e[2:6])),
                  'statistics-not-changed-later', what, TW, 'step %s' % (e[2],))
    r.took(I)


# ------------------------------------------------------------------ P44
MC = 'metrics.'
KINDS = {'console': 'console_collector.ConsoleCollector', 'pickle': 'pickle_collector.PickleCollector',
         'tensorboard': 'tensorboard_collector.TensorboardCollector'}


class Reports:
  """What collectors report: log messages, files and summaries, in order."""

  def __init__(self, I, st):
    self.I = I
    self.fs = FS(I, st, {}, ('/', '/exp'))
    self.out = st.alloc(Cell('list', None, []))
    st.roots = st.roots + (R(self.out),)
    S = I.stubs
    for n in ('info', 'warning', 'debug', 'error', 'log'):
      S['absl.logging.' + n] = S['logging.' + n] = self.message
    S['flax.metrics.tensorboard.SummaryWriter'] = self.summary
    S['$o.tbwriter'] = self.scalar

  def add(self, st, *vals):
    st.mut(self.out).d.append(Tup(vals))

  def events(self, st):
    return [x.items for x in st.cell(self.out).d]

  def message(self, I, st, name, args, kw, node):
    st = st.fork()
    self.add(st, C('log'), freeze(I, st, args[0]) if args else NONE)
    return [(st, NONE)]

  def summary(self, I, st, name, args, kw, node):
    d = args[0] if args else kw.get('log_dir', NONE)
    return [(st, O(T.atom('tbwriter', str(path_of(d))), 'tbwriter'))]

  def scalar(self, I, st, ob, name, args, kw, node):
    st = st.fork()
    d = dict(zip(('tag', 'value', 'step'), args))
    d.update(kw)
    self.add(st, C(name), C(ob.a.args[0]), *[d.get(k, NONE) for k in ('tag', 'value', 'step') if name == 'scalar'])
    return [(st, NONE)]


def path_of(v):
  from pyabs.stubs_lib import path_text
  return path_text(v)


def freeze(I, st, v):
  """Arrays in a formatted text are replaced by their present contents."""
  if not isinstance(v, St):
    return v
  parts = []
  for p in v.parts:
    if isinstance(p, tuple) and isinstance(p[0], R):
      parts.append((elements(I, st, p[0]),) + tuple(p[1:]))
    else:
      parts.append(p)
  return St(tuple(parts))


def elements(I, st, ref):
  c = st.cell(ref.addr)
  if c.kind == 'list':
    return Tup(tuple(c.d))
  if c.kind != 'arr':
    return ref
  n = c.meta['shape'][0]
  out = []
  for k in range(int(n if not isinstance(n, T.Poly) else n.const)):
    (st, x), = I.getitem(ref, C(k), st, None)
    out.append(x)
  return Tup(tuple(out))


def labelled(v, word):
  """The value that follows a label in a formatted text."""
  vals, text = [], ''
  for p in v.parts if isinstance(v, St) else [str(v.val)]:
    if isinstance(p, str):
      text += p.lower()
    else:
      text += '\0%d\0' % len(vals)
      vals.append(p[0])
  m = re.search(word + r'[^\w\0-]*(?:\0(\d+)\0|(-?\d+(?:\.\d+)?))', text)
  if not m:
    return None
  return vals[int(m.group(1))] if m.group(1) else C(float(m.group(2)))


def raises(I, *names):
  e = exceptions(I)
  return bool(e) and all(x.name in names for _, x in e)


def num(v):
  if isinstance(v, N):
    return v.p
  if isinstance(v, C) and isinstance(v.val, (int, float)):
    return T.poly(v.val)
  return None


def eqn(st, v, want):
  p = num(v) if v is not None else None
  return None if p is None and (v is None or lossy(v)) else p is not None and same(st, p, want)


def stats(I, st, step, action, reward, terminal):
  (st, s), = I.call(I.lookup(MC + 'statistics_instance.StatisticsInstance'), [],
                    {'step': C(step), 'action': C(action), 'reward': reward, 'terminal': C(terminal)}, st, None)
  st.roots = st.roots + (s,)
  return st, s


def drive(I, st, c, episodes, after=None):
  """Episodes of arbitrary rewards; yields the final states and the statistics given."""
  given = []
  (st, _), = I.call_method(c, 'pre_training', [], {}, st, None)
  n = 0
  for acts in episodes:
    (st, _), = I.call_method(c, 'begin_episode', [], {}, st, None)
    ep = []
    for i, a in enumerate(acts):
      n += 1
      last = i == len(acts) - 1
      w = T.var('reward%d' % n)
      st, s = stats(I, st, i, a, N(w, 'float'), last)
      ep.append((i, a, w, last, s))
      outs = I.call_method(c, 'end_episode' if last else 'step', [s], {}, st, None)
      if not outs:
        raise Refused('a collector call: %s' % exceptions(I)[:1])
      if len(outs) != 1:
        raise AnalysisError('%d outcomes of a collector call: %s' % (len(outs), exceptions(I)[:1]))
      st = outs[0][0]
    given.append(ep)
  (st, _), = I.call_method(c, 'end_training', [], {}, st, None)
  return st, given


EPISODES = ((0, 2, 2, 1), (1,), (2, 0))


def p44(r, tier):
  """Metrics."""
  for start in (0, 150):
    for fine, freq in ((False, 1), (True, 1), (True, 2)):
      console(r, start, fine, freq)
      tensorboard(r, start, fine, freq)
    pickled(r, start)
  rejected(r)
  chosen(r)
  once(r)


def make(kind, start, base=C('/exp'), **kw):
  I = load()
  st = I.start()
  rep = Reports(I, st)
  st, c = construct(I, MC + KINDS[kind], [base, C(3), C(start)], {k: C(v) for k, v in kw.items()}, st)
  I.sinks = [[]]
  return I, st, rep, c


def console(r, start, fine, freq):
  where = 'metrics/console_collector.py'
  for base, save in ((C('/exp'), True), (C('/exp'), False), (NONE, True)):
    I, st, rep, c = make('console', start, base, fine_grained_logging=fine, fine_grained_frequency=freq, save_to_file=save)
    what = 'console from episode %d, fine %s every %d, %s' % (start, fine, freq, 'file' if save and base != NONE else 'no file')
    st, given = drive(I, st, c, EPISODES)
    r.check(not exceptions(I), 'completes', what, where, str(exceptions(I)[:2]))
    logs = [e[1] for e in rep.events(st) if e[0].val == 'log']
    files = rep.fs.listing(st)
    if save and base != NONE:
      r.check(len(files) == 1 and files[0].startswith('/exp/') and 'console' in files[0], 'one-log-file', what, where, str(files))
      lines = [freeze(I, st, x) for _, x in rep.fs.get(st, files[0])] if files else []
      opened = [m for o, p, m in rep.fs.log if o == 'open']
      r.check(len(opened) == 1 and len(lines) == len(logs) and all(same_text(a, b) for a, b in zip(lines, logs)),
              'file-repeats-the-log', what, where, '%d lines, %d messages' % (len(lines), len(logs)))
      ops = [x[0] for x in rep.fs.log if x[0] in ('file.write', 'file.close', 'file.flush', 'file.__exit__')]
      r.check(bool(ops) and ops[-1] != 'file.write', 'file-complete-after-training', what, where, 'written and never closed')
    else:
      r.check(not files, 'one-log-file', what, where, str(files))
    eps = [x for x in logs if labelled(x, 'distribution')]
    steps = [x for x in logs if not any(x is y for y in eps)]
    r.check(len(eps) == len(given), 'one-report-per-episode', what, where, str(len(eps)))
    for k, (x, ep) in enumerate(zip(eps, given)):
      total = sum((e[2] for e in ep), T.poly(0))
      for word, want, rule in (('episode ', T.poly(start + k), 'episode-number'), ('reward', total, 'episode-reward'),
                               ('length', T.poly(ep[-1][0]), 'episode-length')):
        got = labelled(x, word)
        r.check(eqn(st, got, want), rule, what, where, 'reported %s, expected %s' % (got, show(want)))
      d = labelled(x, 'distribution')
      counts = [sum(1 for e in ep if e[1] == a) for a in range(3)]
      ok = isinstance(d, Tup) and len(d.items) == 3 and all(
          eqn(st, v, T.poly(Fraction(n, len(ep)))) for v, n in zip(d.items, counts))
      r.check(ok, 'action-distribution', what, where, 'reported %s for counts %s' % (d, counts))
    want = [e for ep in given for e in ep[:-1] if fine and e[0] % freq == 0]
    r.check(len(steps) == len(want), 'steps-reported', what, where, '%d, expected %d' % (len(steps), len(want)))
    for x, e in zip(steps, want):
      ok = [eqn(st, labelled(x, w), T.poly(v)) for w, v in (('step', e[0]), ('action', e[1]), ('reward', e[2]))]
      r.check(all(ok), 'step-report', what, where, str(x))
    r.took(I)


def same_text(a, b):
  if isinstance(a, C) or isinstance(b, C):
    return a == b
  return [p if isinstance(p, str) else p[1:] for p in a.parts] == [p if isinstance(p, str) else p[1:] for p in b.parts] and all(
      p == q or str(p) == str(q) or isinstance(p[0], R) for p, q in zip(a.parts, b.parts))


def tensorboard(r, start, fine, freq):
  where = 'metrics/tensorboard_collector.py'
  I, st, rep, c = make('tensorboard', start, fine_grained_logging=fine, fine_grained_frequency=freq)
  what = 'tensorboard from episode %d, fine %s every %d' % (start, fine, freq)
  (_, w), = I.getattr(c, 'summary_writer', st.fork(), None)
  (_, has), = I.call_method(c, 'has_summary_writer', [], {}, st.fork(), None)
  r.check(isinstance(w, O) and w.typ == 'tbwriter' and is_obj(has, C(True)), 'has-summary-writer', what, where, str((w, has)))
  r.check(isinstance(w, O) and str(w.a.args[0]).startswith('/exp/') and 'tensorboard' in str(w.a.args[0]), 'own-directory',
          what, where, str(w))
  st, given = drive(I, st, c, EPISODES)
  r.check(not exceptions(I), 'completes', what, where, str(exceptions(I)[:2]))
  ev = rep.events(st)
  sc = [e[2:] for e in ev if e[0].val == 'scalar']
  r.check(bool(ev) and ev[-1][0].val == 'flush', 'flushed', what, where, str(ev[-1:]))

  def of(tag):
    return [e[1:] for e in sc if e[0].val == tag]
  for tag, f in (('Train/EpisodeReward', lambda ep: sum((e[2] for e in ep), T.poly(0))),
                 ('Train/EpisodeLength', lambda ep: T.poly(ep[-1][0]))):
    got = of(tag)
    r.check(len(got) == len(given), 'one-report-per-episode', what, where, '%s: %d' % (tag, len(got)))
    for k, (g, ep) in enumerate(zip(got, given)):
      r.check(eqn(st, g[0], f(ep)), 'episode-reward' if 'Reward' in tag else 'episode-length', what, where, str(g))
      r.check(eqn(st, g[1], T.poly(start + k)), 'episode-number', what, where, str(g))
  got = of('Train/FineGrainedReward')
  flat = [(i, e) for i, e in enumerate(e for ep in given for e in ep)]
  want = [(i, e) for i, e in flat if fine and (i % freq == 0 or e[3])]
  r.check(len(got) == len(want), 'steps-reported', what, where, '%d, expected %d' % (len(got), len(want)))
  for g, (i, e) in zip(got, want):
    r.check(eqn(st, g[0], e[2]) and eqn(st, g[1], T.poly(i)), 'step-report', what, where, '%s, expected step %d' % (g, i))
  r.took(I)


def pickled(r, start):
  where = 'metrics/pickle_collector.py'
  I, st, rep, c = make('pickle', start)
  what = 'pickle from episode %d' % start
  st, given = drive(I, st, c, EPISODES)
  r.check(not exceptions(I), 'completes', what, where, str(exceptions(I)[:2]))
  files = rep.fs.listing(st)
  r.check(len(files) == len(given) and all(f.startswith('/exp/') and '/pickle/' in f for f in files), 'one-file-per-episode',
          what, where, str(files))
  for k, ep in enumerate(given):
    f = [f for f in files if re.search(r'(?<!\d)%d\.pkl$' % (start + k), f)]
    r.check(len(f) == 1, 'file-names-episode', what, where, str(files))
    content_ = rep.fs.get(st, f[0]) if f else ()
    ok = len(content_) == 1 and content_[0][0] == 'pickle.dump'
    v = listv(st, content_[0][1]) if ok else None
    ok = v is not None and len(v) == len(ep)
    for x, e in zip(v or (), ep):
      for name, want in zip(('step', 'action', 'reward'), (T.poly(e[0]), T.poly(e[1]), e[2])):
        ok = ok and eqn(st, I.getattr(x, name, st.fork(), None)[0][1], want)
      ok = ok and is_obj(I.getattr(x, 'terminal', st.fork(), None)[0][1], C(e[3]))
    r.check(ok, 'file-holds-the-episode', what, where, str(v)[:200])
  r.took(I)


def rejected(r):
  for kind in ('pickle', 'tensorboard'):
    I = load()
    st = I.start()
    Reports(I, st)
    I.sinks = [[]]
    outs = I.call(I.lookup(MC + KINDS[kind]), [NONE, C(3), C(0)], {}, st, None)
    r.check(not outs and raises(I, 'ValueError'), 'needs-a-directory', kind, 'metrics',
            '%s %s' % (outs, exceptions(I)[:1]))
  where = 'metrics/console_collector.py'
  for m in ('step',):
    for a in (-1, 3, -3, 100):
      I, st, rep, c = make('console', 0)
      (st, _), = I.call_method(c, 'pre_training', [], {}, st, None)
      (st, _), = I.call_method(c, 'begin_episode', [], {}, st, None)
      st, s = stats(I, st, 0, a, N(T.var('reward'), 'float'), False)
      I.sinks = [[]]
      outs = I.call_method(c, m, [s], {}, st, None)
      r.check(not outs and raises(I, 'ValueError'), 'invalid-action-rejected', 'action %d' % a, where,
              '%s %s' % (outs, exceptions(I)[:1]))


def chosen(r):
  """Which collectors are created, in which order, and whose summary writer is used."""
  where = 'train_lib.py (get_collector_data)'
  for names in ((), ('console',), ('pickle', 'console', 'tensorboard'), ('nosuch', 'pickle'), None):
    I = load()
    st = I.start()
    arg = NONE if names is None else R(st.alloc(Cell('list', None, [C(n) for n in names])))
    I.sinks = [[]]
    outs = I.call(I.lookup(TL + 'get_collector_data'), [arg], {}, st, None)
    r.check(len(outs) == 1 and not exceptions(I), 'collectors-chosen', str(names), where, str(exceptions(I)[:1]))
    for s, v in outs:
      got = [x.ci.name if hasattr(x, 'ci') else str(x) for x in listv(s, v) or ()]
      r.check(got == [KINDS[n].split('.')[1] for n in names or () if n in KINDS], 'collectors-chosen', str(names), where, str(got))
    r.took(I)
  where = 'metrics/collector_dispatcher.py'
  for writers, want in (((), None), ((0,), 0), ((1, 2), 1), ((2,), 2)):
    I = load()
    st = I.start()
    w = World(I, st, writers={k: 'w%d' % k for k in writers})
    cons = R(st.alloc(Cell('list', None, [w.collector(k) for k in range(3)])))
    st, d = construct(I, MC + 'collector_dispatcher.CollectorDispatcher', [C('/exp'), C(3), cons, C(4)], {}, st)
    (s, v), = I.call_method(d, 'get_summary_writer', [], {}, st, None)
    r.check(is_obj(v, NONE if want is None else O(T.atom('writer', 'w%d' % want), 'writer')), 'first-summary-writer',
            'writers of collectors %s' % (writers,), where, str(v))
    r.took(I)


def once(r):
  """The reward reported for an episode is the reward the environment gave in it."""
  for kind in ('console', 'tensorboard', 'pickle'):
    I = load()
    st = I.start()
    rep = Reports(I, st)
    w = World(I, st)
    cons = R(st.alloc(Cell('list', None, [I.lookup(MC + KINDS[kind])])))
    I.cap = 512
    st, d = construct(I, MC + 'collector_dispatcher.CollectorDispatcher', [C('/exp'), C(3), cons, C(0)], {}, st)
    (st, _), = I.call_method(d, 'pre_training', [], {}, st, None)
    w.answers = C(1)
    I.sinks = [[]]
    outs = I.call(I.lookup(TL + '_run_one_episode'), [w.env, w.agent, d, C(3), C(10)], {}, st, None)
    ok = bool(outs)
    for s, _ in outs:
      got = T.poly(0)
      given = sum((num(e[2]) for e in w.events(s) if e[0] == 'world.result'), T.poly(0))
      if kind == 'console':
        got = num(labelled([e[1] for e in rep.events(s) if e[0].val == 'log'][-1], 'reward'))
      elif kind == 'tensorboard':
        got = num([e for e in rep.events(s) if e[0].val == 'scalar' and e[2].val == 'Train/EpisodeReward'][-1][3])
      else:
        f, = rep.fs.listing(s)
        for x in listv(s, rep.fs.get(s, f)[0][1]):
          got = got + num(I.getattr(x, 'reward', s.fork(), None)[0][1])
      ok = ok and same(s, got, given)
    r.check(ok, 'reported-reward-is-the-reward-received', kind, 'train_lib.py (_run_one_episode)',
            'the last reward of an episode is counted twice')
    r.took(I)
