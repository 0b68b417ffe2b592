"""Starting from published weights (P67)."""
import os
import re

from agents import AG, Learner, is_obj
from common import *
from learning import Layers

QA = 'agents/quantile_agent.py (QuantileAgent)'
PW = 'agents/perciatelli44.py'


class Graph:
  """A TensorFlow session whose graph is the one parsed from given bytes; every variable's value is a symbol."""

  def __init__(self, I, names):
    self.names = names
    self.ran = []
    I.stubs = S = dict(I.stubs)
    old = S['$attr']

    def attr(I, st, ob, name, node):
      if isinstance(ob, O) and ob.typ == 'tf.session' and name == 'graph':
        return [(st, O(T.atom('graph of', ob.a), 'tf.graph', lab=ob.lab))]
      if isinstance(ob, O) and ob.typ == 'tf.graphdef' and name == 'node':
        return [(st, Tup(tuple(O(T.atom('node', n), 'tf.node') for n in self.names)))]
      if isinstance(ob, O) and ob.typ in ('tf.node', 'tf.op') and name == 'name':
        return [(st, C(ob.a.args[0]))]
      return old(I, st, ob, name, node) if old else None
    S['$attr'] = attr
    S['$o.tf.session'] = self.session
    S['$o.tf.graph'] = self.graph

  def tensor(self, t):
    n = t.val if isinstance(t, C) and isinstance(t.val, str) else None
    if n is None:
      return None
    n, _, k = n.partition(':')
    return n if n in self.names and k == '0' else False

  def graph(self, I, st, ob, name, args, kw, node):
    if name == 'as_graph_def':
      return [(st, O(T.atom('def', ob.a), 'tf.graphdef'))]
    if name == 'get_operations':
      return [(st, Tup(tuple(O(T.atom('node', n), 'tf.op') for n in self.names)))]
    if name == 'get_tensor_by_name':
      n = self.tensor((list(args) + list(kw.values()))[0])
      if n is False:
        return I.throw(st, 'KeyError', node)
      if n:
        return [(st, O(T.atom('tensor', n), 'tf.tensor'))]
    return None

  def value(self, n):
    self.ran.append(n)
    return O(T.atom('value', n), 'weights')

  def session(self, I, st, ob, name, args, kw, node):
    if name == 'run' and args:
      x = args[0]
      items = x.items if isinstance(x, Tup) else listv(st, x) if isinstance(x, R) and st.cell(x.addr).kind in ('list',) else None
      out = []
      for t in [x] if items is None else items:
        n = t.a.args[0] if isinstance(t, O) and t.typ == 'tf.tensor' else self.tensor(t)
        if n is False:
          return I.throw(st, 'KeyError', node)
        if not n:
          return None
        if 'weights' not in n and 'biases' not in n:   # computed from the observation, which is not fed
          return I.throw(st, 'ValueError', node)
        out.append(self.value(n))
      if items is None:
        return [(st, out[0])]
      return [(st, Tup(tuple(out)))]
    if name == 'close':
      return [(st, NONE)]
    return None


def tree(I):
  """jax.tree_map over nested dictionaries, and frozen dictionaries."""
  S = I.stubs

  def tmap(I, st, name, args, kw, node):
    f, x = args[0], args[1]
    if len(args) > 2 or not isinstance(x, R) or st.cell(x.addr).kind != 'dict':
      return None
    pairs = list(st.cell(x.addr).d.items())
    outs = [(st, {})]
    for k, v in pairs:
      nxt = []
      for s, d in outs:
        if isinstance(v, R) and s.has(v.addr) and s.cell(v.addr).kind == 'dict':
          rs = tmap(I, s, name, [f, v], {}, node)
        else:
          rs = I.call(f, [v], {}, s, node)
        nxt += [(s2, {**d, k: w}) for s2, w in rs]
      outs = nxt
    return [(s, R(s.alloc(Cell('dict', None, d)))) for s, d in outs]
  for n in ('jax.tree_map', 'jax.tree_util.tree_map', 'jax.tree.map'):
    S[n] = tmap
  for n in ('flax.core.FrozenDict', 'flax.core.frozen_dict.FrozenDict', 'flax.core.freeze', 'flax.core.frozen_dict.freeze'):
    S[n] = lambda I, st, name, args, kw, node: [(st, args[0])]
  for n in ('jax.numpy.asarray', 'jax.numpy.array', 'numpy.asarray', 'numpy.array'):
    old = S.get(n)

    def conv(I, st, name, args, kw, node, old=old):
      if args and isinstance(args[0], O) and args[0].typ == 'weights' and len(args) == 1 and not kw:
        return [(st, args[0])]
      return old(I, st, name, args, kw, node) if old else None
    S[n] = conv


def plain(I, st, v):
  """A nested dictionary as a Python one."""
  if isinstance(v, R) and st.has(v.addr) and st.cell(v.addr).kind == 'dict':
    return {getattr(k, 'val', str(k)): plain(I, st, w) for k, w in st.cell(v.addr).d.items()}
  return v


def config(name):
  """The bindings of a configuration file, as text."""
  p = os.path.join(REPO, 'balloon_learning_environment', 'agents', 'configs', name)
  with open(p, encoding='utf-8') as f:
    return dict(m.groups() for m in re.finditer(r'^([\w./]+)\s*=\s*(.+?)\s*$', f.read(), re.M))


def layer(i):
  return 'Online/fully_connected%s' % ('_%d' % i if i else '')


def nodes(n, around):
  out = ['observation', 'Online/flatten/Reshape']
  for i in range(n):
    for w in ('weights', 'biases'):
      v = '%s/%s' % (layer(i), w)
      out += [v] + ([v + '/read', v + '/Initializer/random_uniform'][:1] if around else [])
    out += [layer(i) + '/MatMul', layer(i) + '/BiasAdd', layer(i) + '/Relu']
    if around:
      out += ['%s/%s' % (layer(i).replace('Online', 'Target'), w) for w in ('weights', 'biases', 'weights/read')]
  return tuple(out + ['q_values', 'sleepwalk_action'])


def p67(r, tier):
  """An agent asked to start from the published network does; one not asked starts fresh."""
  starts(r)
  mapping(r)
  session(r)
  layers(r)


def starts(r):
  for asked in (True, False):
    pub = O(T.atom('published'), 'params')
    n = []

    def loader(I, st, f, args, kw, node):
      n.append(1)
      return [(st, pub)]
    over = {'reload_perciatelli': C(asked)}
    L = Asked(loader, over)
    st, what = L.st, 'reload_perciatelli=%s' % asked
    for f in ('online_params', 'target_network_params'):
      v = st.cell(L.a.addr).d.get(f)
      want = pub if asked else L.fresh[f]
      r.check(is_obj(v, want), 'published-weights-when-asked' if asked else 'fresh-weights-otherwise', '%s, %s' % (what, f), QA, str(v))
    r.check(bool(n) == asked, 'published-weights-when-asked', '%s, loads' % what, QA, '%d loads' % len(n))
    r.took(L.I)


class Asked(Learner):
  """A learner whose initialisation sets fresh parameters."""

  def __init__(self, loader, over):
    self.fresh = {f: O(T.atom('fresh', f), 'params') for f in ('online_params', 'target_network_params')}
    self.loader = loader
    super().__init__('QuantileAgent', 'agents.exploration.Exploration', **over)

  def model(self, m):
    h = super().model(m)
    if m != '__init__':
      return h
    method_summary(self.I, 'agents.quantile_agent.QuantileAgent', 'load_perciatelli_weights', self.loader)

    def init(I, st, name, args, kw, node):
      out = []
      for s, v in h(I, st, name, args, kw, node):
        for f, w in self.fresh.items():
          s, = I.setattr(args[0], f, w, s, node)
        out.append((s, v))
      return out
    return init


def mapping(r):
  where = 'agents/quantile_agent.py (QuantileAgent.load_perciatelli_weights)'
  for n, around in ((8, True), (8, False)):
    I = load()
    g = Graph(I, nodes(n, around))
    tree(I)
    fn_summary(I, 'agents.perciatelli44.load_perciatelli_session', lambda I, st, f, a, k, nd: [(st, O(T.atom('session'), 'tf.session'))])
    st = I.start()
    I.sinks = [[]]
    cls = I.lookup(AG + 'quantile_agent.QuantileAgent')
    fs = I.getattr(cls, 'load_perciatelli_weights', st, None)
    outs = [o for s, f in fs for o in I.call(f, [], {}, s, None)]
    what = '%d layers%s' % (n, ', other tensors around' if around else '')
    ex = exceptions(I)
    r.check(bool(outs) and not ex, 'weights-load', what, where, str(ex[:1]))
    for s, v in outs:
      d = plain(I, s, v)
      p = d.get('params') if isinstance(d, dict) else None
      r.check(set(d) == {'params'} if isinstance(d, dict) else None, 'parameter-tree', what, where, str(d)[:200])
      if not isinstance(p, dict):
        r.check(None if p is None or lossy(v) else False, 'parameter-tree', what, where, str(p)[:200])
        continue
      r.check(set(p) == {'Dense_%d' % i for i in range(8)}, 'every-layer-present', what, where, str(sorted(p)))
      for i in range(8):
        q = p.get('Dense_%d' % i)
        r.check(isinstance(q, dict) and set(q) == {'kernel', 'bias'}, 'layer-has-kernel-and-bias', '%s, layer %d' % (what, i), where, str(q)[:200])
        if isinstance(q, dict):
          for k, w in (('kernel', 'weights'), ('bias', 'biases')):
            x = q.get(k)
            want = '%s/%s' % (layer(i), w)
            ok = x.a is T.atom('value', want) if isinstance(x, O) and x.typ == 'weights' else None
            r.check(ok, 'layer-takes-its-own-tensor', '%s, layer %d, %s' % (what, i, k), where, str(x)[:200])
    r.took(I)


def session(r):
  """The session holds the published graph, under its own names."""
  where = PW + ' (load_perciatelli_session)'
  I = load()
  I.stubs = S = dict(I.stubs)
  log = []
  blob = O(T.atom('published bytes'), 'bytes')
  fn_summary(I, 'models.models.load_perciatelli44', lambda I, st, f, a, k, nd: (log.append(('load', a, k)), [(st, blob)])[1])
  S['tensorflow.compat.v1.Session'] = lambda I, st, n, a, k, nd: (log.append(('session', a, k)), [(st, O(T.atom('session'), 'tf.session'))])[1]
  S['tensorflow.compat.v1.GraphDef'] = lambda I, st, n, a, k, nd: [(st, O(T.atom('def'), 'tf.def'))]

  def parse(I, st, ob, name, args, kw, node):
    log.append((name, args, kw))
    return [(st, C(0))]
  S['$o.tf.def'] = parse
  S['tensorflow.compat.v1.import_graph_def'] = lambda I, st, n, a, k, nd: (log.append(('import', a, k)), [(st, NONE)])[1]
  for n in ('tensorflow.import_graph_def', 'tensorflow.graph_util.import_graph_def'):
    S[n] = S['tensorflow.compat.v1.import_graph_def']
  I.sinks = [[]]
  outs = I.call(I.lookup(AG + 'perciatelli44.load_perciatelli_session'), [], {}, I.start(), None)
  r.check(bool(outs) and not exceptions(I), 'session-loads', 'load_perciatelli_session()', where, str(exceptions(I)[:1]))
  seq = [x[0] for x in log]
  par = [x for x in log if x[0] in ('ParseFromString', 'MergeFromString')]
  imp = [x for x in log if x[0] == 'import']
  ok = len(par) == 1 and is_obj(par[0][1][0] if par[0][1] else None, blob)
  r.check(ok, 'graph-is-the-published-one', 'the bytes parsed', where, str(par)[:200])
  ok = len(imp) == 1 and seq.index('import') > max([seq.index(p[0]) for p in par] or [99])
  r.check(ok, 'graph-imported-after-parsing', 'the graph imported', where, str(seq))
  if len(imp) == 1:
    a, k = imp[0][1:]
    d = a[0] if a else k.get('graph_def')
    r.check(isinstance(d, O) and d.typ == 'tf.def', 'graph-is-the-published-one', 'the graph imported', where, str(d))
    nm = a[3] if len(a) > 3 else k.get('name', NONE)
    r.check(nm.val in (None, '') if isinstance(nm, C) else None, 'tensors-keep-their-names', 'prefix', where, str(nm))
  for s, v in outs:
    r.check(isinstance(v, O) and v.typ == 'tf.session', 'session-returned', 'load_perciatelli_session()', where, str(v))
  r.took(I)


def layers(r):
  """The network the fine-tuning configuration asks for has the layers of the published one."""
  where = 'agents/configs/finetune_perciatelli.gin'
  c = config('finetune_perciatelli.gin')
  get = lambda suffix: [v for k, v in c.items() if k.endswith(suffix)]
  for k, want in (('QuantileNetwork.num_layers', '8'), ('QuantileNetwork.hidden_units', '600'), ('JaxQuantileAgent.num_atoms', '51'),
                  ('QuantileAgent.reload_perciatelli', 'True')):
    r.check(get(k) == [want], 'configuration-fits-the-published-network', k, where, str(get(k)))
  c2 = config('quantile.gin')
  for k, want in (('QuantileAgent.reload_perciatelli', 'False'),):
    got = [v for q, v in c2.items() if q.endswith(k)]
    r.check(got == [want], 'configuration-fits-the-published-network', 'quantile.gin ' + k, 'agents/configs/quantile.gin', str(got))
  L = Layers((3,))
  L.network('QuantileNetwork', num_actions=3, num_layers=8, hidden_units=4, num_atoms=2)
  r.check(len(L.made) == 8, 'network-has-the-published-layers', '8 layers asked', 'agents/networks.py (QuantileNetwork)', '%d layers' % len(L.made))
  r.check(L.made == [4] * 7 + [6], 'network-has-the-published-layers', 'widths, in order', 'agents/networks.py (QuantileNetwork)', str(L.made))
  r.took(L.I)
