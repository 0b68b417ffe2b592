"""Agents: controllers, exploration, learned agents, registry (P37-P41)."""
import math

from common import *
from env import reach, own_lab
from winds import Draws, report_draws

AG = 'agents.'
RW = 'agents/random_walk_agent.py (RandomWalkAgent)'
NF = 1099


def vector(st, name='obs', over=None, default=None):
  """A feature vector."""
  e = default or N(T.fresh('feature.' + name), lab=frozenset(['in:' + name]))
  v = fresh_arr(st, e, (NF,), over or {}, dtype='float32', lab=e.lab)
  st.roots = st.roots + (v,)
  return v


def construct(I, dotted, args=(), kw=None, st=None):
  st = st or I.start()
  I.sinks = [[]]
  outs = I.call(I.lookup(dotted), list(args), kw or {}, st, None)
  if not outs:
    raise Refused('%s: %s' % (dotted, exceptions(I)[:2]))
  st, a = one(outs, dotted)
  st.roots = st.roots + (a,)
  return st, a


def seed_value(name='seed'):
  L = frozenset(['seed:' + name])
  return N(T.var(name, lo=0, isint=True, lab=L), 'int', lab=L)


def action_of(v):
  """The number an action is, or None."""
  if isinstance(v, En):
    return {'DOWN': 0, 'STAY': 1, 'UP': 2}.get(v.name)
  if isinstance(v, C) and isinstance(v.val, int):
    return v.val
  return None


def atoms(p, out=None):
  out = set() if out is None else out
  todo = [p]
  while todo:
    x = todo.pop()
    if isinstance(x, T.Poly):
      todo.extend(a for m in x.terms for a, _ in m)
    elif isinstance(x, T.Atom):
      if x not in out:
        out.add(x)
        todo.extend(x.args)
    elif isinstance(x, (tuple, list, frozenset)):
      todo.extend(x)
  return out


def draws_in(p, dist=None):
  return [a for a in atoms(p) if a.op == 'draw' and (dist is None or a.args[0] == dist)]


def drawn_attr(I, st, ob):
  """The numeric attribute of an object that was sampled: (name, term)."""
  hits = []
  for k, v in st.cell(ob.addr).d.items():
    if isinstance(v, (N,)) and draws_in(v.p):
      hits.append((k, v.p))
  return hits[0] if len(hits) == 1 else None


def coefficient(p, atom):
  """c with p == c * atom, or None."""
  out = T.ZERO
  for m, c in p.terms.items():
    rest = tuple((a, e) for a, e in m if a is not atom)
    if len(rest) + 1 != len(m) or (atom, 1) not in m or atom in atoms(T.mk({rest: c})):
      return None
    out = out + T.mk({rest: c})
  return out


# ------------------------------------------------------------------ random walk
def walk_rule(r, st, v, p, tgt, what):
  n = action_of(v)
  if n is None:
    r.check(None if lossy(v) else False, 'action-valid', what, RW, str(v))
    return
  r.check(n in (0, 1, 2), 'action-valid', what, RW, str(v))
  hi, lo = p - T.const(100), p + T.const(100)
  if n == 2:
    r.check(holds(st, '>', hi, tgt), 'up-when-below-target', what, RW, 'up although pressure %s, target %s' % (show(p), show(tgt)))
  elif n == 0:
    r.check(holds(st, '<', lo, tgt), 'down-when-above-target', what, RW,
            'down although pressure %s, target %s' % (show(p), show(tgt)))
  else:
    a, b = holds(st, '<=', hi, tgt), holds(st, '>=', lo, tgt)
    r.check(a if a is not True else b, 'stay-near-target', what, RW,
            'stay although pressure %s, target %s' % (show(p), show(tgt)))


def p37(r, tier):
  """The random walk agent follows its randomly walking target pressure."""
  I = load()
  D = Draws(I)
  st, a = construct(I, AG + 'random_walk_agent.RandomWalkAgent', [C(3), Tup((C(NF),))], {'seed': seed_value()})
  st.mon = frozenset()
  live, n = [st], 0
  seq = ['begin_episode', 'step', 'step', 'begin_episode', 'step']
  if tier != 'quick':
    seq += ['step', 'step', 'begin_episode', 'step']
  elapsed = None
  for i, m in enumerate(seq):
    nxt = []
    for s in live:
      s = s.fork()
      f0 = T.var('pressure.%d' % i, -1, 2)
      vec = vector(s, 'obs%d' % i, {0: N(f0)})
      p = f0.scale(9000) + T.const(5000)
      old = drawn_attr(I, s, a)
      args = [vec] if m == 'begin_episode' else [N(T.var('rew%d' % i), lab=frozenset(['in:reward'])), vec]
      I.sinks = [[]]
      outs = I.call_method(a, m, args, {}, s, None)
      what = 'call %d, %s' % (i, m)
      r.check(True if outs and not exceptions(I) else False, 'completes', what, RW, str(exceptions(I)[:2]))
      for s2, v in outs:
        t = drawn_attr(I, s2, a)
        if t is None:
          r.check(None, 'target-known', what, RW)
          continue
        t = t[1]
        walk_rule(r, s2, v, p, t, what)
        for l in I.deep_lab(v, s2):
          r.check(l != 'in:reward', 'reward-ignored', what, RW, 'the action depends on the reward')
        if m == 'begin_episode':
          u = draws_in(t, 'uniform')
          fresh = len(u) == 1 and T.close(t, T.poly(u[0])) and (old is None or not any(x is u[0] for x in draws_in(old[1])))
          r.check(fresh or (None if lossy_term(t) else False), 'new-target-each-episode', what, RW, show(t))
          r.check(holds(s2, '>=', t, 6500), 'target-in-range', what, RW, show(t))
          r.check(holds(s2, '<=', t, 11400), 'target-in-range', what, RW, show(t))
        elif old is not None:
          d = t - old[1]
          g = [x for x in draws_in(d, 'normal')]
          ok = len(g) == 1 and not any(x is g[0] for x in draws_in(old[1]))
          sc = coefficient(d, g[0]) if ok else None
          r.check((ok and sc is not None and holds(s2, '>', sc, 0)) or (None if lossy_term(d) else False),
                  'target-walks-by-centred-noise', what, RW, show(d))
          k = i - max(x for x in range(i) if seq[x] == 'begin_episode')
          if ok and sc is not None:
            r.check(same(s2, sc, T.const(Fraction('29.988') * k), T.const(Fraction('29.988'))), 'walk-scale', what, RW, show(sc))
        for l in (t.lab if hasattr(t, 'lab') else E0):
          r.check(str(l).startswith('seed:'), 'target-from-seed-only', what, RW, str(l))
        nxt.append(s2)
        n += 1
    live = nxt[:3]
  report_draws(r, D, 'random walk agent')
  r.count('agent calls analysed', n)
  r.took(I)


# ------------------------------------------------------------------ station seeker
SS = 'agents/station_seeker_agent.py (StationSeekerAgent)'
SSA = AG + 'station_seeker_agent.StationSeekerAgent'
NLEV = (NF - 16) // 3
MID = NLEV // 2


def wind_slots(levels, **kw):
  """Feature entries of a column in which only some levels are valid."""
  over = {}
  for l in range(NLEV):
    if l not in levels:
      over[16 + 3 * l], over[17 + 3 * l], over[18 + 3 * l] = C(0.0), C(1.0), C(1.0)
    else:
      for j, (n, lo, hi) in enumerate((('u', 0, 1), ('b', 0, 1), ('m', 0, 1))):
        p = T.var('%s%d' % (n, l), lo, hi, hi_open=n == 'm')
        over[16 + 3 * l + j] = N(p)
  return over


def ex(p):
  return T.poly(T.atom('exp', p))


def score_terms(st, l):
  """The documented score of a level."""
  u, b, m, d = (T.var(n, 0, 1, hi_open=n in ('f7', 'm%d' % l)) for n in ('u%d' % l, 'b%d' % l, 'm%d' % l, 'f7'))
  one_ = T.const(1)
  dist = T.div(d.scale(250), one_ - d)
  mag = T.div(m.scale(30), one_ - m)
  out = []
  co = (dist - T.const(250)).scale(Fraction(1, 250))
  for c in (T.tmin([T.tmax([co, T.const(0)], st.facts), one_], st.facts),
            T.tmax([T.tmin([co, one_], st.facts), T.const(0)], st.facts)):
    cb = T.const(Fraction('0.6')) + c.scale(Fraction('-0.15'))
    alpha = ex(dist.scale(Fraction(-1, 35)))
    for pi in (Fraction(math.pi), ):
      w = (one_ - alpha) * ex((cb * b).scale(-pi)) + alpha * ex(mag.scale(Fraction('-0.07')))
      out.append((T.const(Fraction('1.01')) - u) * w + u.scale(Fraction(1, 2)) + T.const(
          Fraction('0.05') * Fraction(math.exp(-0.001 * abs(l - MID)))))
  return out


def p38(r, tier):
  """The station seeker navigates to the best-scoring valid level."""
  # the score of one level
  for l in (MID, 0, MID + 7, NLEV - 1) if tier == 'quick' else (MID, 0, 1, 59, MID - 1, MID + 7, 300, NLEV - 1):
    I = load()
    st, a = construct(I, SSA, [C(3), Tup((C(NF),))])
    over = wind_slots({l})
    over[7] = N(T.var('f7', 0, 1, hi_open=True))
    vec = vector(st, over=over)
    st, nm = one(I.call(I.lookup('env.features.NamedPerciatelliFeatures'), [vec], {}, st, None), 'features')
    st.roots = st.roots + (nm,)
    I.sinks = [[]]
    what = 'level %d from the balloon' % (l - MID)
    outs = I.call_method(a, 'altitude_score', [nm, C(l)], {}, st.fork(), None)
    r.check(True if outs and not exceptions(I) else False, 'score-defined', what, SS, str(exceptions(I)[:2]))
    for s, v in outs:
      p = num(v)
      r.check(same(s, p, *score_terms(s, l)) if p is not None else None, 'score-formula', what, SS, '%s, expected %s' % (
          show(p), show(score_terms(s, l)[0])))
    r.took(I)
  # the choice among levels
  cases = [(MID,), (0,), (NLEV - 1,), (MID - 3, MID + 3), (MID - 1, MID, MID + 1), (5, 300)]
  if tier != 'quick':
    cases += [(0, 90, MID, 270), (MID, MID + 1, MID + 2, MID + 3), (1, 2, 3, MID)]
  for valid in cases:
    for m in ('begin_episode', 'step') if tier != 'quick' or len(valid) == 3 else ('step',):
      I = load()
      seen = []

      def score(I, st, f, args, kw, node):
        l = (list(args[2:]) + list(kw.values()))[0]
        if not isinstance(l, C):
          return None
        seen.append(l.val)
        I.emit(st, 'scored', level=l.val, node=node)
        return [(st, N(T.var('score.%d' % l.val, 0, Fraction('1.06'), lo_open=True)))]
      method_summary(I, SSA, 'altitude_score', score)
      st, a = construct(I, SSA, [C(3), Tup((C(NF),))])
      vec = vector(st, over=wind_slots(set(valid)))
      I.sinks = [[]]
      args = [vec] if m == 'begin_episode' else [N(T.var('reward'), lab=frozenset(['in:reward'])), vec]
      outs = I.call_method(a, m, args, {}, st.fork(), None)
      what = '%s, valid levels %s' % (m, ', '.join(str(x - MID) for x in valid))
      r.check(True if outs and not exceptions(I) else False, 'completes', what, SS, str(exceptions(I)[:2]))
      r.check(set(seen) <= set(valid), 'only-valid-levels', what, SS, 'scored: %s' % sorted(set(seen) - set(valid))[:5])
      for s, v in outs:
        n = action_of(v)
        if n is None:
          r.check(None if lossy(v) else False, 'action-valid', what, SS, str(v))
          continue
        r.check(n in (0, 1, 2), 'action-valid', what, SS, str(n))
        r.check('in:reward' not in I.deep_lab(v, s), 'reward-ignored', what, SS, 'the action depends on the reward')
        good = {2: [x for x in valid if x < MID], 0: [x for x in valid if x > MID], 1: [x for x in valid if x == MID]}[n]
        S = lambda x: T.var('score.%d' % x, 0, Fraction('1.06'), lo_open=True)
        ok = any(all(s.facts.decide('>=', S(g), S(x)) is True for x in valid) for g in good)
        if not ok and good and not lossy(v):
          # refuted when a level on another side is strictly best on this path
          bad = any(all(s.facts.decide('>', S(x), S(g)) is True for g in good) for x in valid if x not in good)
          r.check(False if bad else None, 'goes-to-best-level', what, SS, describe(I, s))
        else:
          r.check(ok, 'goes-to-best-level', what, SS, 'action %d although the best level is elsewhere; %s' % (n, describe(I, s)))
      r.took(I)


# ------------------------------------------------------------------ exploration
MP = 'agents/marco_polo_exploration.py (MarcoPoloExploration)'


def p39(r, tier):
  """Interleaved exploration: who acts, when."""
  steps = 250 if tier == 'quick' else 970
  RA = AG + 'agent.RandomAgent'
  for prob in ('1', 'p'):
    I = load()
    D = Draws(I)
    asked = []
    for m in ('begin_episode', 'step'):
      def h(I, st, f, args, kw, node, m=m):
        asked.append((m, list(args[1:]) + list(kw.values())))
        return [(st, O(T.atom('explorer', len(asked)), 'action', lab=frozenset(['explorer'])))]
      method_summary(I, RA, m, h)
    pv = C(1.0) if prob == '1' else N(T.var('p', 0, 1, lo_open=True, hi_open=True))
    st, e = construct(I, AG + 'marco_polo_exploration.MarcoPoloExploration', [C(3), Tup((C(NF),))],
                      {'exploratory_episode_probability': pv, 'exploratory_agent_constructor': I.lookup(RA),
                       'seed': seed_value()})
    st.mon = frozenset()
    live = [(st, None)]
    for ep in range(2):
      nxt, news = [], set()
      for s, _ in live:
        obs = vector(s, 'first%d' % ep)
        act = O(T.atom('agent.action', ep, 0), 'action', lab=frozenset(['rl']))
        asked.clear()
        I.sinks = [[]]
        before = uniform_draws()
        outs = I.call_method(e, 'begin_episode', [obs, act], {}, s.fork(), None)
        news = (uniform_draws() - before) or news
        what = 'probability %s, episode %d' % (prob, ep)
        r.check(True if outs and not exceptions(I) else False, 'completes', what, MP, str(exceptions(I)[:2]))
        for s2, v in outs:
          r.check(kept(v, act), 'starts-with-agent-action', what, MP, str(v))
        r.check([x[0] for x in asked] == ['begin_episode'] * len(asked) and bool(asked) and all(
            x[1] and x[1][0] is obs for x in asked), 'explorer-episode-started', what, MP, str([x[0] for x in asked]))
        for s2, _ in outs:
          nxt.append((s2, {'draw': news}))
      live = nxt
      kinds = set()
      for k in range(1, (steps if prob == '1' else 90) if ep == 0 else 85):
        nxt = []
        for s, seen in live:
          obs, rew = vector(s.fork(), 'obs'), N(T.var('rew'))
          act = O(T.atom('agent.action', ep, k), 'action', lab=frozenset(['rl']))
          asked.clear()
          I.sinks = [[]]
          outs = I.call_method(e, 'step', [rew, obs, act], {}, s, None)
          explore = k % 120 >= 80
          what = 'probability %s, episode %d' % (prob, ep)
          if not outs:
            r.check(False, 'completes', what + ', step %d' % k, MP, str(exceptions(I)[:2]))
          n = len(asked)
          for s2, v in outs:
            mine = kept(v, act)
            d = dict(seen)
            if explore:
              got = False if mine else True if isinstance(v, O) and v.a.op == 'explorer' else None
              if prob == '1':
                r.check(got, 'explorer-acts-in-exploration-phase', what, MP, 'step %d: the action is not the explorer\'s' % k)
              elif got is None:
                r.check(None, 'explorer-acts-in-exploration-phase', what, MP, str(v))
              else:
                if 'on' in d:
                  r.check(d['on'] == got, 'episode-kind-constant', what, MP, 'step %d' % k)
                else:
                  kinds.add(got)
                  x = decided_draw(s2, d['draw'])
                  r.check(None if x is None else x == got, 'exploratory-with-probability', what, MP,
                          'explores: %s, draw at most the probability: %s' % (got, x))
                d['on'] = got
            else:
              r.check(mine, 'agent-acts-in-its-phase', what, MP, 'step %d: the agent\'s action is replaced' % k)
              r.check(n == 0, 'explorer-asked-only-when-exploring', what, MP, 'step %d' % k)
            nxt.append((s2, d))
          if explore and n:
            r.check(all(x[0] == 'step' and len(x[1]) == 2 and x[1][0] is rew and x[1][1] is obs for x in asked),
                    'explorer-sees-transition', what, MP, str(asked[:1]))
        live = nxt[:4]
        if not live:
          break
      if prob != '1':
        r.check(len(kinds) == 2, 'both-kinds-possible', 'episode %d' % ep, MP, str(kinds))
      live = live[:2]
    for s, _ in live[:1]:
      for a in (x for x in atoms_of_attrs(I, s, e) if x.op == 'draw'):
        r.check(all(str(l).startswith('seed:') for l in a.lab), 'seeded', 'probability ' + prob, MP, str(a.lab))
    report_draws(r, D, 'exploration')
    r.took(I)
  # the base class never changes an action
  I = load()
  st, e = construct(I, AG + 'exploration.Exploration', [C(3), Tup((C(NF),))])
  for m, args in (('begin_episode', [vector(st)]), ('step', [N(T.var('rew')), vector(st)])):
    act = O(T.atom('agent.action', 0, 0), 'action')
    for s, v in I.call_method(e, m, args + [act], {}, st.fork(), None):
      r.check(kept(v, act), 'base-keeps-action', m, 'agents/exploration.py (Exploration)', str(v))
  r.took(I)


def kept(v, act):
  """Whether a value is the given action."""
  if isinstance(v, O) and v.a is act.a:
    return True
  return None if lossy(v) else False


def atoms_of_attrs(I, st, ob):
  out = set()
  for _, x in reach(I, st, ob):
    if isinstance(x, (N, TD, DT)):
      atoms(x.p, out)
  return out


def uniform_draws():
  return {a for a in T.Atom.table.values() if a.op == 'draw' and a.args[0] == 'uniform'}


def decided_draw(st, draws):
  """Whether the path assumes draw <= p for the draw of the episode."""
  p = T.var('p', 0, 1, lo_open=True, hi_open=True)
  got = [st.facts.decide('<=', T.poly(a), p) for a in draws]
  return got[0] if len(got) == 1 else None


# ------------------------------------------------------------------ learned agents
DQ = {'DQNAgent': ('dqn_agent', 'dopamine.jax.agents.dqn.dqn_agent.JaxDQNAgent'),
      'QuantileAgent': ('quantile_agent', 'dopamine.jax.agents.quantile.quantile_agent.JaxQuantileAgent')}


class Learner:
  """A wrapper around a model of the learner it derives from.

  The model: an action is chosen at every step and kept in `action`; the next step (or the end of the episode)
  records `action` with the reward, unless the agent is in evaluation mode.
  """

  def __init__(self, cls, wrapper='agents.marco_polo_exploration.MarcoPoloExploration', **over):
    self.cls = cls
    mod, base = DQ[cls]
    self.where = 'agents/%s.py (%s)' % (mod, cls)
    self.base = base
    I = self.I = load()
    I.stubs = dict(I.stubs)
    self.log = []
    self.n = 0
    for m in ('__init__', 'begin_episode', 'step', 'end_episode', 'bundle_and_checkpoint', 'unbundle', '_train_step'):
      I.stubs[base + '.' + m] = self.model(m)
    self.asked = []
    if wrapper:
      for m in ('begin_episode', 'step'):
        method_summary(I, wrapper, m, self.wrapped(m))
      W_ = 'agents.marco_polo_exploration.MarcoPoloExploration'
      if wrapper == W_:
        method_summary(I, W_, '__init__', lambda I, st, f, a, k, nd: [(st, NONE)])
    kw = {'network': O(T.atom('network'), 'network'), 'checkpoint_duration': NONE, 'seed': seed_value()}
    if cls == 'QuantileAgent':
      kw.update(exploration_wrapper_constructor=I.lookup(wrapper), reload_perciatelli=C(False))
    kw.update(over)
    self.kw = kw
    self.st, self.a = construct(I, AG + mod + '.' + cls, [C(3), Tup((C(NF),))], kw)

  def model(self, m):
    def h(I, st, name, args, kw, node):
      ob, rest = args[0], list(args[1:])
      names = {'begin_episode': ['observation'], 'step': ['reward', 'observation'],
               'end_episode': ['reward', 'terminal']}.get(m, [])
      d = dict(zip(names, rest))
      d.update(kw)
      old = st.cell(ob.addr).d
      ev = old.get('eval_mode')
      self.log.append((m, d if names else {'args': rest, 'kw': kw}, old.get('action'), ev))
      if m == '__init__':
        if 'eval_mode' not in kw:
          st, = I.setattr(ob, 'eval_mode', C(False), st, node)
        return [(st, NONE)]
      if m in ('begin_episode', 'step'):
        self.n += 1
        act = O(T.atom('learner.action', self.n), 'action')
        st, = I.setattr(ob, 'action', act, st, node)
        return [(st, act)]
      if m == 'bundle_and_checkpoint':
        return [(st, O(T.atom('bundle', self.n), 'bundle'))]
      if m == 'unbundle':
        return [(st.fork(), C(True)), (st, C(False))]
      return [(st, NONE)]
    return h

  def wrapped(self, m):
    def h(I, st, f, args, kw, node):
      names = {'begin_episode': ['observation', 'action'], 'step': ['reward', 'observation', 'action']}[m]
      d = dict(zip(names, args[1:]))
      d.update(kw)
      self.n += 1
      act = O(T.atom('explorer.action', self.n), 'action')
      self.asked.append((m, d, act))
      return [(st, act)]
    return h

  def call(self, st, m, args, kw=None):
    self.log.clear()
    self.asked.clear()
    self.I.sinks = [[]]
    return self.I.call_method(self.a, m, list(args), kw or {}, st.fork(), None)


def is_obj(v, w):
  """Whether two values are the same object or term."""
  if v is w:
    return True
  if isinstance(v, O) and isinstance(w, O):
    return v.a is w.a or (None if lossy(v) else False)
  if isinstance(v, R) and isinstance(w, R):
    return v.addr == w.addr
  if isinstance(v, C) and isinstance(w, C):
    return v.val == w.val and type(v.val) is type(w.val)
  if isinstance(v, N) and isinstance(w, N):
    return T.close(v.p, w.p)
  return None if v is None or lossy(v) else False


def p40(r, tier):
  """Learned agents return, record and replace actions consistently; modes; ends of episodes."""
  for cls in DQ:
    for wrapper in (('agents.marco_polo_exploration.MarcoPoloExploration', 'agents.exploration.Exploration')
                    if cls == 'QuantileAgent' else ('agents.exploration.Exploration',)):
      for mode in ('TRAIN', 'EVAL', 'train', 'eval', None):
        L = Learner(cls, wrapper)
        I, st, W_ = L.I, L.st, L.where
        mv = NONE if mode is None else C(mode) if mode.islower() else enum(I, AG + 'agent.AgentMode', mode)
        what = '%s, %s' % (cls, 'initial mode' if mode is None else 'mode %s' % mode)
        if mode is not None:
          outs = L.call(st, 'set_mode', [mv])
          r.check(True if len(outs) == 1 else False, 'mode-accepted', what, W_, str(exceptions(I)[:2]))
          if len(outs) != 1:
            continue
          st = outs[0][0]
        training = mode is None or mode.lower() == 'train'
        sent = None
        live = [st]
        for i, m in enumerate(('begin_episode', 'step', 'step', 'end', 'begin_episode', 'step', 'end_default')):
          nxt = []
          for s in live[:1]:
            obs, rew, term = vector(s, 'obs%d' % i), N(T.var('reward%d' % i)), C(i % 2 == 0)
            w = '%s, call %d (%s)' % (what, i, m)
            if m.startswith('end'):
              outs = L.call(s, 'end_episode', [rew] + ([term] if m == 'end' else []))
              e = [x for x in L.log if x[0] == 'end_episode']
              r.check(len(e) == 1 and is_obj(e[0][1].get('reward'), rew) is True, 'final-reward-forwarded', w, W_, str(e))
              if e:
                r.check(is_obj(e[0][1].get('terminal', C(True)), term if m == 'end' else C(True)), 'terminal-forwarded',
                        w, W_, str(e[0][1].get('terminal')))
            else:
              outs = L.call(s, m, [obs] if m == 'begin_episode' else [rew, obs])
              e = [x for x in L.log if x[0] in ('begin_episode', 'step')]
              r.check(len(e) == 1 and e[0][0] == m, 'learner-driven-once', w, W_, str([x[0] for x in e]))
              if len(e) == 1:
                r.check(is_obj(e[0][1].get('observation'), obs), 'observation-forwarded', w, W_)
                if m == 'step':
                  r.check(is_obj(e[0][1].get('reward'), rew), 'reward-forwarded', w, W_)
            r.check(True if len(outs) == 1 else False, 'completes', w, W_, str(exceptions(I)[:2]))
            for x in L.log:
              if x[0] in ('step', 'end_episode'):
                r.check(is_obj(x[2], sent), 'records-the-action-sent', w, W_,
                        'the learner records %s, the environment was sent %s' % (x[2], sent))
              if x[3] is not None:
                r.check(x[3].val == (not training) if isinstance(x[3], C) else None, 'mode-followed', w, W_, str(x[3]))
            for s2, v in outs:
              if not m.startswith('end'):
                sent = v
                if cls == 'QuantileAgent' and training:
                  last = L.asked[-1] if L.asked else None
                  r.check(last is not None and last[0] == m and is_obj(v, last[2]) is True, 'exploration-decides', w, W_, str(v))
                  if last:
                    r.check(isinstance(last[1].get('action'), O) and last[1]['action'].a.op == 'learner.action' and
                            is_obj(last[1].get('observation'), obs) is True, 'exploration-sees-agent-action', w, W_, str(last[1]))
                else:
                  r.check(isinstance(v, O) and v.a.op == 'learner.action' or (None if lossy(v) else False),
                          'learner-decides', w, W_, str(v))
                  r.check(not L.asked, 'no-exploration-in-evaluation', w, W_, 'the exploration wrapper was consulted')
              nxt.append(s2)
          live = nxt
        r.took(I)
      L = Learner(cls, wrapper)
      outs = L.call(L.st, 'set_mode', [C('testing')])
      r.check(not outs, 'unknown-mode-rejected', cls, L.where, 'accepted')
  p40_init(r)
  p40_frozen(r)


def p40_init(r):
  """The learner is built for the environment's actions and observations, from the seed."""
  for cls in DQ:
    L = Learner(cls, 'agents.exploration.Exploration')
    e = [x for x in L.log if x[0] == '__init__']
    r.check(len(e) == 1, 'learner-initialised-once', cls, L.where, str(len(e)))
    if len(e) != 1:
      continue
    args, kw = e[0][1]['args'], e[0][1]['kw']
    n = kw.get('num_actions', args[0] if args else None)
    sh = kw.get('observation_shape', args[1] if len(args) > 1 else None)
    r.check(is_obj(n, C(3)), 'learner-actions', cls, L.where, str(n))
    r.check(isinstance(sh, Tup) and len(sh.items) == 1 and is_obj(sh.items[0], C(NF)) or (None if sh is None or lossy(sh) else False),
            'learner-observations', cls, L.where, str(sh))
    r.check(is_obj(kw.get('seed'), L.kw['seed']), 'seed-forwarded', cls, L.where, str(kw.get('seed')))
    ss = kw.get('stack_size')
    r.check(is_obj(ss, C(1)), 'no-frame-stacking', cls, L.where, str(ss))
    r.took(L.I)


PW = 'agents/perciatelli44.py (Perciatelli44)'


def p40_frozen(r):
  """The frozen agent and the uniform agent act within the action set; the frozen one greedily on Q-values."""
  P44 = AG + 'perciatelli44.Perciatelli44'

  def setup():
    I = load()
    I.stubs = dict(I.stubs)
    runs = []
    fn_summary(I, 'models.models.load_perciatelli44', lambda I, st, f, a, k, nd: [(st, O(T.atom('weights'), 'bytes'))])
    I.on_event = lambda st, kind, d: runs.append((st.fork(), d)) if kind == 'opaquecall' else None
    return I, runs
  I, runs = setup()
  st, a = construct(I, P44, [C(3), Tup((C(NF),))])
  vec = vector(st)
  res = []
  for m, args in (('begin_episode', [vec]), ('step', [N(T.var('rew'), lab=frozenset(['in:reward'])), vec])):
    runs.clear()
    outs = I.call_method(a, m, args, {}, st.fork(), None)
    r.check(True if outs else False, 'completes', 'Perciatelli44, ' + m, PW)
    for s, v in outs:
      k = [x for x in runs if getattr(x[1]['fn'], 'name', '') == 'run']
      r.check(len(k) == 1 or None, 'network-run-once', 'Perciatelli44, ' + m, PW, str(len(k)))
      r.check('in:obs' in I.deep_lab(v, s), 'acts-on-observation', 'Perciatelli44, ' + m, PW, str(v)[:200])
      r.check('in:reward' not in I.deep_lab(v, s), 'reward-ignored', 'Perciatelli44, ' + m, PW, str(v)[:200])
      p = num(v)
      am = [x for x in atoms(p) if x.op == 'fn' and x.args[0] in ('argmax', 'argmin')] if p is not None else []
      good = len(am) == 1 and T.close(p, T.poly(am[0]))
      r.check(am[0].args[0] == 'argmax' if good else None, 'greedy', 'Perciatelli44, ' + m, PW, str(v)[:200])
      if good:
        names = {str(t).strip("'") for t in strings(am[0])}
        names = {t for t in names if t.endswith(':0')} - {'observation:0'}
        r.check(names == {'q_values:0'} if names else None, 'greedy-on-q-values', 'Perciatelli44, ' + m, PW, str(sorted(names))[:200])
      res.append(v)
  if len(res) == 2:
    r.check(is_obj(*res) if not isinstance(res[0], N) else T.close(res[0].p, res[1].p), 'same-policy-every-step', 'Perciatelli44', PW)
  for n, sh in ((C(2), Tup((C(NF),))), (C(4), Tup((C(NF),))), (C(3), Tup((C(1098),))), (C(3), Tup((C(NF), C(1))))):
    outs = I.call(I.lookup(P44), [n, sh], {}, I.start(), None)
    r.check(not outs, 'wrong-sizes-rejected', 'Perciatelli44(%s, %s)' % (n, sh), PW, 'accepted')
  r.took(I)
  I = load()
  st, a = construct(I, AG + 'agent.RandomAgent', [C(3), Tup((C(NF),))])
  vec = vector(st)
  for m, args in (('begin_episode', [vec]), ('step', [N(T.var('rew')), vec])):
    for s, v in I.call_method(a, m, args, {}, st.fork(), None):
      p = num(v)
      w = 'agents/agent.py (RandomAgent)'
      r.check(holds(s, '>=', p, 0), 'action-valid', 'RandomAgent, ' + m, w, str(v))
      r.check(holds(s, '<=', p, 2), 'action-valid', 'RandomAgent, ' + m, w, str(v))
  r.took(I)


def strings(x):
  if isinstance(x, str):
    yield x
  elif isinstance(x, T.Poly):
    for m in x.terms:
      for a, _ in m:
        yield from strings(a)
  elif isinstance(x, T.Atom):
    yield from strings(x.args)
  elif isinstance(x, (tuple, list, frozenset)):
    for y in x:
      yield from strings(y)


# ------------------------------------------------------------------ learning
ML = 'agents/mlp_agent.py (MLPAgent)'


class Mlp:
  """The MLP agent over uninterpreted Q-values q(parameters, observation)."""

  def __init__(self):
    I = self.I = load()
    I.stubs = dict(I.stubs)
    self.losses, self.updates = [], []

    def vg(I, st, name, args, kw, node):
      theta = O(T.atom('theta'), 'params')
      outs = I.call(args[0], [theta], {}, st.fork(), None)
      self.losses.append([(s, v) for s, v in outs])
      return [(st, O(T.atom('gradfn', len(self.losses)), '?'))]

    def apply(I, st, name, args, kw, node):
      vals = [v for v in args if not (isinstance(v, R) and st.cell(v.addr).kind == 'obj')] + list(kw.values())
      return [(st, self.q(st, *vals))]

    def upd(I, st, name, args, kw, node):
      self.updates.append(args)
      return [(st, O(T.atom('updated', tuple(I.vkey(x, st) for x in args)), 'params', lab=I.deep_lab(args[-1], st)))]
    for n in ('jax.value_and_grad', 'jax.grad'):
      I.stubs[n] = vg
    I.stubs['flax.linen.Module.apply'] = apply
    I.stubs['optax.apply_updates'] = upd
    self.st, self.a = construct(I, AG + 'mlp_agent.MLPAgent', [C(3), Tup((C(NF),))], {'seed': seed_value()})

  def q(self, st, params, obs):
    lab = self.I.deep_lab(obs, st) | params.lab
    return O(T.atom('q', params.a, self.I.vkey(obs, st)), '?', lab=lab)

  def call(self, st, m, args):
    self.losses.clear()
    self.updates.clear()
    self.I.sinks = [[]]
    return self.I.call_method(self.a, m, args, {}, st.fork(), None)


def qsel(I, st, qv, act):
  outs = I.getitem(qv, act, st.fork(), None)
  return num(outs[0][1]) if len(outs) == 1 else None


def p41(r, tier):
  """Learning happens only in training mode, from the right transition, at the documented cadence."""
  # modes that change between two calls: a transition begun in one mode may end in the other
  mixed = [('begin_episode', 'train'), ('step', 'eval'), ('step', 'eval'), ('step', 'train'), ('step', 'train'),
           ('end_episode', 'eval'), ('begin_episode', 'eval'), ('step', 'train'), ('step', 'eval')]
  plain = [(m, None) for m in ('begin_episode', 'step', 'step', 'end_episode', 'begin_episode', 'step')]
  for mode in (None, 'train', 'eval', 'changing'):
    M = Mlp()
    I, st = M.I, M.st
    what = 'MLPAgent, ' + ('initial mode' if mode is None else mode + ' mode')
    if mode in ('train', 'eval'):
      st, _ = one(I.call_method(M.a, 'set_mode', [C(mode)], {}, st, None), 'set_mode')
    last = None
    pol = None
    for i, (m, now) in enumerate(mixed if mode == 'changing' else plain):
      if now:
        st, _ = one(I.call_method(M.a, 'set_mode', [C(now)], {}, st, None), 'set_mode')
      obs, rew = vector(st, 'o%d' % i), N(T.var('r%d' % i))
      w = '%s, call %d (%s)' % (what, i, m)
      outs = M.call(st, m, [obs] if m == 'begin_episode' else [rew, C(False)] if m == 'end_episode' else [rew, obs])
      r.check(True if len(outs) == 1 else False, 'completes', w, ML, str(exceptions(I)[:2]))
      if len(outs) != 1:
        break
      st, act = outs[0]
      if m == 'end_episode':
        r.check(not M.losses, 'learns-from-transitions-only', w, ML)
        continue
      am = [x for x in atoms(num(act)) if x.op == 'fn' and x.args[0] == 'argmax'] if num(act) is not None else []
      top = [x for x in am if T.close(num(act), T.poly(x))]
      if len(top) != 1:
        r.check(None, 'greedy', w, ML, str(act)[:200])
        continue
      qs = [x for x in T_atoms_shallow(top[0]) if x.op == 'q']
      r.check(len(qs) == 1 and qs[0].args[1] == I.vkey(obs, st) or (None if not qs else False), 'acts-on-observation', w, ML,
              str(act)[:200])
      newpol = qs[0].args[0] if qs else None
      if pol is not None and newpol is not None:
        trained = pol[1]
        if trained:
          r.check(newpol.op == 'updated', 'uses-learned-parameters', w, ML, str(newpol)[:200])
          r.check(newpol is not pol[0], 'parameters-change', w, ML)
        else:
          r.check(newpol is pol[0], 'parameters-fixed', w, ML, 'the parameters changed without a training step')
      want = m == 'step' and (now or mode) != 'eval'
      n = len(M.losses)
      r.check(n == (1 if want else 0), 'learns-only-in-training', w, ML, '%d updates' % n)
      r.check(len(M.updates) == n, 'update-applied', w, ML, '%d gradients, %d applied' % (n, len(M.updates)))
      if want and n == 1 and last is not None:
        theta = O(T.atom('theta'), 'params')
        A = qsel(I, st, M.q(st, theta, last[0]), last[1])
        B = qsel(I, st, M.q(st, theta, obs), act)
        e = A - num(rew) - B.scale(Fraction(0.9)) if A is not None and B is not None else None
        for s2, v in M.losses[0]:
          p = num(v)
          r.check(same(s2, *values_of(p, e * e)) if e is not None and p is not None else None, 'sarsa-loss', w, ML, show(p)[:300])
        if M.updates:
          r.check(any(isinstance(x, O) and newpol is x.a for x in M.updates[0]) or None, 'updates-own-parameters', w, ML)
      pol = (newpol, want) if newpol is not None else None
      last = (obs, act)
    r.took(I)
  p41_cadence(r, tier)


def values_of(*ps):
  """The terms with each action value of the uninterpreted network as a number of its own."""
  qs = {a for p in ps for a in atoms(p) if a.op == 'getitem' and any(isinstance(x, T.Atom) and x.op == 'q' for x in T_atoms_shallow(a))}
  new = {a: T.var('q%d' % i) for i, a in enumerate(sorted(qs, key=str))}
  return [T.subst(p, new) for p in ps]


def T_atoms_shallow(a):
  """The atoms directly below an atom."""
  out = []
  todo = list(a.args)
  while todo:
    x = todo.pop()
    if isinstance(x, T.Atom):
      out.append(x)
    elif isinstance(x, T.Poly):
      todo.extend(b for m in x.terms for b, _ in m)
    elif isinstance(x, (tuple, list)):
      todo.extend(x)
  return out


def p41_cadence(r, tier):
  """The training step of the wrapped learners."""
  for cls in DQ:
    for writer in (False, True):
      L = Learner(cls, 'agents.exploration.Exploration')
      I = L.I
      calls = []
      mod = L.base.rsplit('.', 1)[0]
      names = {'DQNAgent': 3, 'QuantileAgent': 4}

      def train(I, st, name, args, kw, node):
        calls.append(args)
        I.emit(st, 'learn', node=node)
        st.mon = dict(st.mon, train=st.mon['train'] + 1)
        return [(st, Tup(tuple(O(T.atom('trained', name, i, len(calls)), 'params') for i in range(names[cls]))))]

      def mark(k):
        def h(I, st, name, args, kw, node):
          st.mon = dict(st.mon, **{k: st.mon[k] + 1})
          return [(st, NONE)]
        return h
      I.stubs[mod + '.train'] = train
      I.stubs[L.base + '._sync_weights'] = mark('sync')
      I.stubs[L.base + '._sample_from_replay_buffer'] = mark('sample')
      I.stubs['$o.writer'] = lambda I, st, obj, name, args, kw, node: mark('write' if name == 'scalar' else 'flush')(
          I, st, name, args, kw, node)
      I.stubs['$o.replay'] = lambda I, st, obj, name, args, kw, node: [(st, NONE)]
      st = L.st.fork()
      st.mon = {k: 0 for k in ('train', 'sync', 'sample', 'write', 'flush')}
      n = T.var('training_steps', 0, isint=True)
      vals = {'training_steps': N(n, 'int'), 'update_period': C(4), 'target_update_period': C(100),
              'min_replay_history': C(500), 'summary_writing_frequency': C(50),
              'summary_writer': O(T.atom('writer'), 'writer') if writer else NONE,
              '_replay': O(T.atom('replay'), 'replay'), 'online_params': O(T.atom('online0'), 'params'),
              'optimizer_state': O(T.atom('opt0'), 'params'), 'target_network_params': O(T.atom('target0'), 'params'),
              'network_def': O(T.atom('net'), 'net'), 'optimizer': O(T.atom('optimizer'), 'optimizer'),
              '_replay_scheme': C('uniform'), '_kappa': C(1.0), '_num_atoms': C(51), 'cumulative_gamma': C(0.9),
              '_loss_type': C('huber'), 'replay_elements': O(T.atom('batch'), 'batch')}
      for k, v in vals.items():
        st, = I.setattr(L.a, k, v, st, None)
      st.roots = st.roots + (L.a, vals['training_steps'])
      added = N(T.var('add_count', 0, isint=True), 'int')
      st.roots = st.roots + (added,)
      I.stubs['$attr'] = attr_of_replay(I.stubs['$attr'], added)
      outs = []
      for op, b in (('>', 500), ('<=', 500)):
        s1 = st.fork()
        s1.assume(op, num(added), T.const(b))
        outs += I.call_method(L.a, '_train_step', [], {}, s1, None)
      what = '%s, %s summary writer' % (cls, 'with' if writer else 'without')
      r.check(True if outs else False, 'completes', what, L.where, str(exceptions(I)[:2]))
      for s, _ in outs:
        full = s.facts.decide('>', num(added), T.const(500))
        k4, k100, k50 = (mod_zero(s, n, k) for k in (4, 100, 50))
        m = s.mon
        new = readn(I, s, L.a, 'training_steps')
        r.check(same(s, new, n + T.const(1)), 'steps-counted', what, L.where, show(new))
        if full is None:
          r.check(None, 'replay-gate', what, L.where, describe(I, s))
          continue
        due = (full is True and k4) if full is False or k4 is not None else None
        r.check(None if due is None else m['train'] == (1 if due else 0), 'update-cadence', what, L.where,
                'trained %d times; replay large enough: %s, step multiple of the period: %s' % (m['train'], full, k4))
        r.check(m['sample'] == m['train'], 'fresh-batch', what, L.where, str(m))
        sync = (full is True and k100) if full is False or k100 is not None else None
        r.check(None if sync is None else m['sync'] == (1 if sync else 0), 'target-cadence', what, L.where, str(m))
        if not writer:
          r.check(m['write'] == 0, 'no-writer-no-summary', what, L.where)
        elif m['write']:
          r.check(k50 if k50 is not None else None, 'summary-cadence', what, L.where, describe(I, s))
        on = read(I, s, L.a, 'online_params')
        r.check(isinstance(on, O) and (on.a.op == 'trained') == bool(m['train']) or (None if lossy(on) else False),
                'parameters-replaced', what, L.where, str(on))
      r.check(sorted({s.mon['train'] for s, _ in outs}) == [0, 1], 'learns-eventually', what, L.where, '')
      # every step of small periods, also such as do not divide each other
      for up, tp in ((1, 3), (2, 4), (3, 5)) + (((4, 6), (5, 3)) if tier != 'quick' else ()):
        for k in range(up * tp + 1):
          for size in (499, 500, 501):
            if size != 501 and k not in (0, up, tp):
              continue
            s1 = st.fork()
            for nm, v in (('training_steps', k), ('update_period', up), ('target_update_period', tp), ('summary_writing_frequency', 2)):
              s1, = I.setattr(L.a, nm, C(v), s1, None)
            s1.assume('==', num(added), T.const(size))
            w = '%s: step %d, periods %d and %d, memory of %d' % (what, k, up, tp, size)
            res = I.call_method(L.a, '_train_step', [], {}, s1, None)
            if len(res) != 1:
              r.check(None if res else False, 'completes', w, L.where, str(exceptions(I)[:2]))
              continue
            s, _ = res[0]
            on = size > 500
            r.check(s.mon['train'] == int(on and k % up == 0), 'update-cadence', w, L.where, str(s.mon))
            r.check(s.mon['sync'] == int(on and k % tp == 0), 'target-cadence', w, L.where, str(s.mon))
            r.check(s.mon['sample'] == s.mon['train'], 'fresh-batch', w, L.where, str(s.mon))
            if writer:
              r.check((s.mon['write'] > 0) == (on and k % up == 0 and k > 0 and k % 2 == 0), 'summary-cadence', w, L.where, str(s.mon))
            r.check(same(s, readn(I, s, L.a, 'training_steps'), T.const(k + 1)), 'steps-counted', w, L.where)
      for args in calls[:4]:
        got = [v.a.op if isinstance(v, O) else None for v in args]
        r.check('online0' in got and 'target0' in got and 'opt0' in got and got.index('online0') < got.index('target0'),
                'trains-online-against-target', what, L.where, str(got))
      r.took(I)


def mod_zero(st, n, k):
  for p in (T.poly(T.atom('mod', n, T.const(k))),):
    v = st.facts.decide('==', p, T.const(0))
    if v is not None:
      return v
  return None


def attr_of_replay(old, added):
  def h(I, st, ob, name, node):
    if isinstance(ob, O) and ob.typ == 'replay' and name == 'add_count':
      return [(st, added)]
    return old(I, st, ob, name, node)
  return h
