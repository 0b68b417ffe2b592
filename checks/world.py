"""Model collaborators: an environment, an agent and collectors that record every call."""
from common import *

NAMES = {'world.reset': [], 'world.step': ['action'], 'world.seed': ['seed'], 'world.render': ['mode'],
         'actor.begin_episode': ['observation'], 'actor.step': ['reward', 'observation'],
         'actor.end_episode': ['reward', 'terminal'], 'actor.set_mode': ['mode'],
         'actor.save_checkpoint': ['checkpoint_dir', 'iteration_number'],
         'actor.load_checkpoint': ['checkpoint_dir', 'iteration_number'],
         'actor.reload_latest_checkpoint': ['checkpoint_dir'],
         'actor.set_summary_writer': ['summary_writer']}
STATS = ('step', 'action', 'reward', 'terminal')


class World:
  """Every call of a collaborator is appended to a trace that is part of the analysed state."""

  def __init__(self, I, st, latest=-1, writers=(), terminal=None):
    self.I = I
    I.stubs = dict(I.stubs)
    self.trace = st.alloc(Cell('list', None, []))
    st.roots = st.roots + (R(self.trace),)
    self.latest = latest
    self.writers = dict(writers)
    self.terminal = terminal
    self.env = O(T.atom('world'), 'world')
    self.agent = O(T.atom('actor'), 'actor')
    for typ in ('world', 'actor', 'collector'):
      I.stubs['$o.' + typ] = self.call
    I.stubs['$attr'] = self.attr(I.stubs['$attr'])
    self.info = {}
    self.answers = None

  def attr(self, old):
    def h(I, st, ob, name, node):
      if isinstance(ob, O) and ob.typ == 'world':
        if name == 'action_space':
          return [(st, O(T.atom('world.actions'), 'world-space'))]
        if name == 'observation_space':
          return [(st, O(T.atom('world.observations'), 'world-space'))]
        if name in self.info:
          return [(st, self.info[name])]
      if isinstance(ob, O) and ob.typ == 'world-space' and name in ('n', 'shape'):
        return [(st, O(T.atom('size', ob.a), 'size'))]
      if isinstance(ob, O) and ob.typ == 'collector' and name == 'summary_writer':
        return [(st, self.writer(ob))]
      return old(I, st, ob, name, node)
    return h

  def writer(self, ob):
    w = self.writers.get(ob.a.args[0])
    return NONE if w is None else O(T.atom('writer', w), 'writer')

  def events(self, st):
    return [(x.items[0].val,) + tuple(x.items[1:]) for x in st.cell(self.trace).d]

  def log(self, st, what, *vals):
    st.mut(self.trace).d.append(Tup((C(what),) + vals))

  def collector(self, k):
    """A constructor of collectors."""
    def h(I, st, name, args, kw, node):
      d = dict(zip(('base_dir', 'num_actions', 'current_episode'), args))
      d.update(kw)
      st = st.fork()
      self.log(st, 'collector.new', C(k), *[d.get(n, NONE) for n in ('base_dir', 'num_actions', 'current_episode')])
      return [(st, O(T.atom('collector', k), 'collector'))]
    self.I.stubs['caller.collector%d' % k] = h
    return X('caller.collector%d' % k)

  def count(self, st, what):
    return sum(1 for e in self.events(st) if e[0] == what)

  def call(self, I, st, ob, name, args, kw, node):
    what = '%s.%s' % (ob.typ, name)
    st = st.fork()
    names = NAMES.get(what)
    if what == 'collector.has_summary_writer':
      return [(st, C(self.writer(ob) != NONE))]
    if what in ('collector.step', 'collector.end_episode'):
      s = args[0] if args else kw['statistics']
      vals = [C(ob.a.args[0])]
      for f in STATS:
        (st, v), = I.getattr(s, f, st, node)
        vals.append(v)
      self.log(st, what, *vals, s)
      return [(st, NONE)]
    if ob.typ == 'collector':
      self.log(st, what, C(ob.a.args[0]), *args)
      return [(st, NONE)]
    vals = list(args)
    for n in (names or [])[len(vals):]:
      if n in kw:
        vals.append(kw[n])
    n = self.count(st, 'world.step') + self.count(st, 'world.reset')
    self.log(st, what, *vals)
    if what == 'world.reset':
      return [(st, self.obs(n))]
    if what == 'world.step':
      res = []
      for t in self.terminals(n):
        s = st.fork()
        self.log(s, 'world.result', self.obs(n), self.reward(n), C(t))
        res.append((s, Tup((self.obs(n), self.reward(n), C(t), self.infos(s, n)))))
      return res
    if what in ('actor.begin_episode', 'actor.step'):
      a = self.answers or O(T.atom('act', n), 'num')
      self.log(st, 'actor.answer', a)
      return [(st, a)]
    if what == 'actor.reload_latest_checkpoint':
      return [(st, C(self.latest))]
    if what == 'actor.get_name':
      return [(st, C('actor'))]
    return self.extra(I, st, what, vals, n)

  def extra(self, I, st, what, vals, n):
    return [(st, NONE)]

  def terminals(self, n):
    return (True, False) if self.terminal is None else (self.terminal(n),)

  def obs(self, n):
    return O(T.atom('seen', n), 'observation')

  def reward(self, n):
    return N(T.var('reward%d' % n), 'float')

  def infos(self, st, n):
    return R(st.alloc(Cell('dict', None, {})))
