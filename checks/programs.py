"""Programs, configurations, models, shared state and registration (P48-P52)."""
import ast
import copy
import glob
import os
import re

from common import *
from modelfs import FS
from world import World
from agents import is_obj
from evals import flag_rules, set_flags
from runs import T, raises
from pyabs.program import PKG

REG = 'agents/agent_registry.py'
RH = 'utils/run_helpers.py'
AGENTS = {'random': ('agents.agent.RandomAgent', None), 'mlp': ('agents.mlp_agent.MLPAgent', 'mlp.gin'),
          'dqn': ('agents.dqn_agent.DQNAgent', 'dqn.gin'), 'perciatelli44': ('agents.perciatelli44.Perciatelli44', None),
          'quantile': ('agents.quantile_agent.QuantileAgent', 'quantile.gin'),
          'finetune_perciatelli': ('agents.quantile_agent.QuantileAgent', 'finetune_perciatelli.gin'),
          'station_seeker': ('agents.station_seeker_agent.StationSeekerAgent', None),
          'random_walk': ('agents.random_walk_agent.RandomWalkAgent', None)}
BOGUS = ('nosuch', '', 'DQN', 'random ')


def text(v):
  return v.val if isinstance(v, C) and isinstance(v.val, str) else None


def registry(r):
  I = load()
  st = I.start()
  for n, (cls, gin) in AGENTS.items():
    I.sinks = [[]]
    outs = I.call(I.lookup('agents.agent_registry.agent_constructor'), [C(n)], {}, st.fork(), None)
    r.check(len(outs) == 1 and is_obj(outs[0][1], I.lookup(cls)), 'name-means-agent', n, REG, str([v for _, v in outs]))
    for given in (None, '/mine.gin'):
      outs = I.call(I.lookup('utils.run_helpers.get_agent_gin_file'), [C(n), C(given)], {}, st.fork(), None)
      if given is None:
        t = text(outs[0][1]) if len(outs) == 1 else None
        ok = len(outs) == 1 and (is_obj(outs[0][1], NONE) if gin is None else t is not None and t.endswith('/' + gin))
        r.check(ok, 'default-configuration', n, REG, str([v for _, v in outs]))
        if t is not None:
          r.check(os.path.isfile(os.path.join(I.prog.root, t)), 'configuration-shipped', n, REG, t)
      else:
        r.check(len(outs) == 1 and is_obj(outs[0][1], C(given)), 'given-configuration-wins', n, RH, str([v for _, v in outs]))
    mro = {c.qual for c in I.lookup(cls).info.mro()} if hasattr(I.lookup(cls), 'info') else None
    if mro is None:
      mro = {c.qual for c in I.lookup(cls).ci.mro()} if hasattr(I.lookup(cls), 'ci') else None
    if mro is not None:
      r.check(PKG + '.agents.agent.Agent' in mro, 'is-an-agent', n, REG, str(sorted(mro)))
  for n in BOGUS:
    for f, args in (('agents.agent_registry.agent_constructor', [C(n)]), ('agents.agent_registry.get_default_gin_config', [C(n)]),
                    ('utils.run_helpers.create_agent', [C(n), C(3), C(7)])):
      I.sinks = [[]]
      outs = I.call(I.lookup(f), args, {}, st.fork(), None)
      r.check(not outs and raises(I, 'ValueError'), 'unknown-agent-rejected', '%s %r' % (f.rsplit('.')[-1], n), REG, str(exceptions(I)[:1]))
  # whatever else is registered is rejected by name or is an agent; creation forwards the sizes
  for n, (cls, _) in AGENTS.items():
    seen = []

    def made(I, st, f, args, kw, node):
      seen.append((args, kw))
      return [(st, NONE)]
    J = load()
    s = J.start()
    method_summary(J, cls, '__init__', made) if J.getattr(J.lookup(cls), '__init__', s, None) else None
    outs = J.call(J.lookup('utils.run_helpers.create_agent'), [C(n), C(3), Tup((C(1099),))], {}, s, None)
    flat = [list(a) + list(k.values()) for a, k in seen]
    r.check(len(outs) == 1 and all(any(is_obj(x, C(3)) for x in f) and any(isinstance(x, Tup) and x.items[0] == C(1099) for x in f)
                                   for f in flat) if flat else None, 'agent-fits-environment', n, RH, str(flat)[:200])
  for n, cls in (('simple', 'env.wind_field.SimpleStaticWindField'), ('generative', 'env.generative_wind_field.generative_wind_field_factory')):
    outs = I.call(I.lookup('utils.run_helpers.get_wind_field_factory'), [C(n)], {}, st.fork(), None)
    r.check(len(outs) == 1 and is_obj(outs[0][1], I.lookup(cls)), 'name-means-wind-field', n, RH, str([v for _, v in outs]))
  for n in BOGUS:
    I.sinks = [[]]
    outs = I.call(I.lookup('utils.run_helpers.get_wind_field_factory'), [C(n)], {}, st.fork(), None)
    r.check(not outs and raises(I, 'ValueError'), 'unknown-wind-field-rejected', repr(n), RH, str(exceptions(I)[:1]))
  # collectors
  names = {'console': 'metrics.console_collector.ConsoleCollector', 'pickle': 'metrics.pickle_collector.PickleCollector',
           'tensorboard': 'metrics.tensorboard_collector.TensorboardCollector'}
  for sel in (('console',), ('pickle', 'console'), ('tensorboard',), ('console', 'pickle', 'tensorboard'), (), None):
    s = st.fork()
    arg = NONE if sel is None else R(s.alloc(Cell('list', None, [C(x) for x in sel])))
    outs = I.call(I.lookup('train_lib.get_collector_data'), [arg], {}, s, None)
    got = listv(outs[0][0], outs[0][1]) if len(outs) == 1 else None
    want = [I.lookup(names[x]) for x in sel or ()]
    r.check(got is not None and len(got) == len(want) and all(is_obj(a, b) for a, b in zip(got, want)), 'collectors-as-asked',
            str(sel), 'train_lib.py (get_collector_data)', str(got))
  r.took(I)


def binding(r):
  """What is passed to the configuration parser."""
  for what, agent, own, extra, binds in (('default', 'mlp', None, (), ()), ('no default', 'random', None, (), ('A.b = 1',)),
                                         ('own file', 'dqn', '/own.gin', (), ('A.b = 1', 'C.d = 2')),
                                         ('more files', 'quantile', None, ('/x.gin', '/y.gin'), ()),
                                         ('only more files', 'station_seeker', None, ('/x.gin',), ())):
    I = load()
    st = I.start()
    I.stubs = dict(I.stubs)
    calls, paths = [], []

    def parse(I, st, name, args, kw, node):
      d = dict(zip(('config_files', 'bindings', 'finalize_config', 'skip_unknown'), args))
      d.update(kw)
      calls.append({k: ([x for x in listv(st, v)] if isinstance(v, R) else v.items if isinstance(v, Tup) else v) for k, v in d.items()})
      return [(st, NONE)]

    def search(I, st, name, args, kw, node):
      if calls:
        paths.append('late')
      paths.append(args[0])
      return [(st, NONE)]
    I.stubs['gin.parse_config_files_and_bindings'] = parse
    I.stubs['gin.add_config_file_search_path'] = search
    mk = lambda xs: R(st.alloc(Cell('list', None, [C(x) for x in xs])))
    b = mk(binds)
    outs = I.call(I.lookup('utils.run_helpers.bind_gin_variables'), [C(agent)], {
        'agent_gin_file': C(own), 'gin_bindings': b, 'additional_gin_files': mk(extra)}, st, None)
    r.check(len(outs) == 1 and len(calls) == 1, 'configured-once', what, RH, str(calls))
    for c in calls:
      files = [text(x) for x in c.get('config_files', ())]
      gin = own or (AGENTS[agent][1] and 'balloon_learning_environment/agents/configs/' + AGENTS[agent][1])
      r.check(files == ([gin] if gin else []) + list(extra), 'configuration-files', what, RH, str(files))
      r.check([text(x) for x in c.get('bindings', ())] == list(binds), 'bindings-forwarded', what, RH, str(c.get('bindings')))
      r.check(is_obj(c.get('skip_unknown', C(False)), C(False)), 'unknown-parameters-rejected', what, RH, str(c.get('skip_unknown')))
    r.check(len(paths) >= 1 and 'late' not in paths, 'configuration-found', what, RH, str(paths))
    r.took(I)


def training(r):
  """train.py from flags to the training loop."""
  where = 'train.py (main)'
  base = dict(agent='walker', env_name='BalloonLearningEnvironment-v0', num_iterations=200, max_episode_length=960, base_dir='/out',
              run_number=1, wind_field='simple', agent_gin_file=None, collectors=('console',), gin_bindings=(), renderer=None,
              render_period=10, episodes_per_iteration=50)
  for what, kw in (('defaults', {}), ('numbers', dict(num_iterations=3, max_episode_length=17, render_period=4, episodes_per_iteration=5,
                                                      run_number=12)),
                   ('names', dict(agent='other', env_name='Other-v1', wind_field='generative', base_dir='/a/b', agent_gin_file='/g.gin',
                                  gin_bindings=('A.b=1',), collectors=('pickle', 'console')))):
    f = dict(base, **kw)
    I = load()
    st = I.start()
    w = World(I, st)
    conv = {}
    for k, v in f.items():
      conv[k] = R(st.alloc(Cell('list', None, [C(x) for x in v]))) if isinstance(v, tuple) else C(v)
      st.roots = st.roots + ((conv[k],) if isinstance(v, tuple) else ())
    set_flags(I, st, 'train', **conv)
    order = []

    def helper(n):
      def h(I, st, fn, args, kw, node):
        order.append((n, args, kw, st))
        return [(st, {'factory': O(T.atom('factory'), 'factory'), 'create': w.agent, 'collect': O(T.atom('collectors'), '?')}.get(n, NONE))]
      return h
    for fn, n in (('utils.run_helpers.bind_gin_variables', 'bind'), ('utils.run_helpers.get_wind_field_factory', 'factory'),
                  ('utils.run_helpers.create_agent', 'create'), ('train_lib.run_training_loop', 'run'),
                  ('train_lib.get_collector_data', 'collect')):
      fn_summary(I, fn, helper(n))

    def make(I, st, name, args, kw, node):
      order.append(('make', args, kw, st))
      return [(st, w.env)]
    I.stubs['gym.make'] = make
    I.sinks = [[]]
    outs = I.call(I.lookup('train.main'), [R(st.alloc(Cell('list', None, [C('train')])))], {}, st, None)
    r.check(bool(outs) and not exceptions(I), 'program-completes', what, where, str(exceptions(I)[:2]))
    names = [o[0] for o in order]
    r.check(sorted(names) == ['bind', 'collect', 'create', 'factory', 'make', 'run'], 'each-part-once', what, where, str(names))
    if 'run' not in names or 'bind' not in names:
      continue
    r.check(all(names.index('bind') < i for i, n in enumerate(names) if n in ('factory', 'make', 'create', 'run')),
            'configuration-before-construction', what, where, str(names))
    d = {n: (list(a), k) for n, a, k, _ in order}
    flat = lambda n: d[n][0] + list(d[n][1].values())
    r.check(is_obj(flat('bind')[0], C(f['agent'])) and is_obj(flat('bind')[1], C(f['agent_gin_file'])) and is_obj(
        flat('bind')[2], conv['gin_bindings']), 'configuration-forwarded', what, where, str(flat('bind')))
    r.check(is_obj(flat('collect')[0], conv['collectors']), 'collectors-forwarded', what, where, str(flat('collect')))
    r.check(is_obj(flat('factory')[0], C(f['wind_field'])), 'wind-field-forwarded', what, where, str(flat('factory')))
    r.check(is_obj(flat('make')[0], C(f['env_name'])) and is_obj(d['make'][1].get('wind_field_factory', NONE), O(
        T.atom('factory'), 'factory')) and is_obj(d['make'][1].get('renderer', NONE), NONE), 'environment-as-asked', what, where,
            str(d['make']))
    c = flat('create')
    r.check(is_obj(c[0], C(f['agent'])) and is_obj(c[1], O(T.atom('size', T.atom('world.actions')), 'size')) and is_obj(
        c[2], O(T.atom('size', T.atom('world.observations')), 'size')), 'agent-fits-environment', what, where, str(c))
    a = dict(zip(('base_dir', 'env', 'agent', 'num_iterations', 'max_episode_length', 'collector_constructors'), d['run'][0]))
    a.update(d['run'][1])
    r.check(text(a.get('base_dir')) == '%s/%s/%d' % (f['base_dir'], f['agent'], f['run_number']), 'run-directory', what, where,
            str(a.get('base_dir')))
    for k, want in (('env', w.env), ('agent', w.agent), ('num_iterations', C(f['num_iterations'])),
                    ('max_episode_length', C(f['max_episode_length'])), ('collector_constructors', O(T.atom('collectors'), '?')),
                    ('render_period', C(f['render_period'])), ('episodes_per_iteration', C(f['episodes_per_iteration']))):
      r.check(k in a and is_obj(a[k], want), 'training-as-asked', '%s, %s' % (what, k), where, str(a.get(k)))
    r.took(I)


def p48(r, tier):
  """Registry, configuration and the training program."""
  registry(r)
  binding(r)
  training(r)
  flag_rules(r, 'train', {
      'agent': ('string', 'dqn'), 'env_name': ('string', 'BalloonLearningEnvironment-v0'), 'num_iterations': ('integer', 200),
      'max_episode_length': ('integer', 960), 'wind_field': ('string', 'generative'), 'collectors': ('multi_string', ['console']),
      'gin_bindings': ('multi_string', []), 'agent_gin_file': ('string', None), 'renderer': ('string', None),
      'episodes_per_iteration': ('integer', 50)}, 'documented-defaults', 'train.py')


# ------------------------------------------------------------------ P49
SITE = '/opt/venv/lib/python3.12/site-packages'


def site():
  c = [SITE] if os.path.isdir(SITE) else sorted(glob.glob('/opt/venv/lib/python3*/site-packages'))
  return c[0] if c else None


CANON = {'numpy': 'np', 'datetime': 'dt', 'jax.numpy': 'jnp', 'flax.linen': 'nn', 'typing': ''}
CANON.update({m: m for m in ('gin', 'abc', 'enum', 'dataclasses', 'collections', 'functools', 'jax', 'random')})


def normalise(tree):
  """A copy of a module in which libraries, however they are imported, have the names this analysis knows them by."""
  tree = copy.deepcopy(tree)
  names = {}               # alias -> expression text
  extra = []
  taken = {n.id for n in ast.walk(tree) if isinstance(n, ast.Name)} | {n.arg for n in ast.walk(tree) if isinstance(n, ast.arg)}

  def canon(full):
    if full in CANON:
      return CANON[full]
    return full.rsplit('.', 1)[-1] if full.startswith(PKG + '.') else None
  for n in tree.body:
    if isinstance(n, ast.Import):
      for a in n.names:
        c = canon(a.name)
        if c and (a.asname or a.name) != c and c not in taken:
          names[a.asname or a.name] = c
          a.asname = c
    elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
      for a in n.names:
        now = a.asname or a.name
        c = canon(n.module + '.' + a.name) if (n.module + '.' + a.name) in CANON or a.name.islower() and n.module.startswith(PKG) else None
        if c:
          if now != c and c not in taken:
            names[now] = c
            a.asname = c
        elif n.module in CANON:
          c = CANON[n.module]
          text = (c + '.' if c else '') + a.name
          if text != now:
            names[now] = text
            extra.append(ast.parse('import %s as %s' % (n.module, c) if c else 'from typing import ' + a.name).body[0])

  class Rename(ast.NodeTransformer):
    def visit_Name(self, n):
      if n.id in names:
        new = ast.parse(names[n.id], mode='eval').body
        for x in ast.walk(new):
          ast.copy_location(x, n)
        if isinstance(new, (ast.Name, ast.Attribute)):
          new.ctx = n.ctx
        return new
      return n
  if names:
    tree = Rename().visit(tree)
    i = next((i for i, n in enumerate(tree.body) if isinstance(n, (ast.Import, ast.ImportFrom)) and getattr(n, 'module', '') != '__future__'), 0)
    tree.body[i:i] = extra
    ast.fix_missing_locations(tree)
  return tree


class Sources:
  """Modules of the package and of the libraries its configurations name, as syntax trees."""

  def __init__(self, root):
    self.root = root
    self.trees = {}

  def find(self, mod):
    if mod in self.trees:
      return self.trees[mod]
    rel = mod.replace('.', '/')
    res = None
    for base in (self.root, site()):
      for p in (rel + '.py', rel + '/__init__.py'):
        if base and os.path.isfile(os.path.join(base, p)):
          with open(os.path.join(base, p), encoding='utf-8') as f:
            res = normalise(ast.parse(f.read()))
          break
      if res is not None:
        break
    self.trees[mod] = res
    return res

  def imports(self, mod):
    t = self.find(mod)
    names = {}
    for n in ast.walk(t) if t is not None else ():
      if isinstance(n, ast.Import):
        for a in n.names:
          names[a.asname or a.name.split('.')[0]] = a.name
      elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
        for a in n.names:
          names[a.asname or a.name] = n.module + '.' + a.name
    return names

  def closure(self, mods):
    seen, todo = set(), list(mods)
    while todo:
      m = todo.pop()
      if m in seen or not m.startswith((PKG, 'dopamine')) or self.find(m) is None:
        continue
      seen.add(m)
      for x in self.imports(m).values():
        todo += [x, x.rsplit('.', 1)[0]]
    return seen


def deco_name(d):
  return ast.unparse(d.func if isinstance(d, ast.Call) else d)


class Configurables:

  def __init__(self, src, mods):
    self.src = src
    self.all = {}                      # full selector -> (module, node, allow, deny)
    for m in sorted(mods):
      for n in src.find(m).body:
        if not isinstance(n, (ast.ClassDef, ast.FunctionDef)):
          continue
        for d in n.decorator_list:
          if deco_name(d) not in ('gin.configurable', 'gin.register'):
            continue
          name, module, allow, deny = n.name, m, None, ()
          if isinstance(d, ast.Call):
            for i, a in enumerate(d.args):
              if i == 0 and isinstance(a, ast.Constant):
                name = a.value
            for k in d.keywords:
              v = ast.literal_eval(k.value) if not isinstance(k.value, ast.Name) else None
              if k.arg == 'module':
                module = v
              elif k.arg in ('allowlist', 'whitelist'):
                allow = v
              elif k.arg in ('denylist', 'blacklist'):
                deny = v or ()
          if '.' in name:
            module, name = name.rsplit('.', 1)
          self.all[module + '.' + name if module else name] = (m, n, allow, deny)

  def match(self, sel):
    return [k for k in self.all if k == sel or k.endswith('.' + sel)]

  def params(self, key):
    """(names, required, takes any keyword) of a configurable."""
    m, n, allow, deny = self.all[key]
    names, req, star = self.signature(m, n)
    return {x for x in names if (allow is None or x in allow) and x not in deny}, req, star

  def signature(self, m, n, depth=0):
    if isinstance(n, ast.FunctionDef):
      a = n.args
      ps = a.posonlyargs + a.args + a.kwonlyargs
      defaults = dict(zip([x.arg for x in (a.posonlyargs + a.args)[::-1]], a.defaults[::-1]))
      defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
      return ({x.arg for x in ps} - {'self'}, {k for k, d in defaults.items() if ast.unparse(d) == 'gin.REQUIRED'},
              a.kwarg is not None)
    for b in n.body:
      if isinstance(b, ast.FunctionDef) and b.name == '__init__':
        return self.signature(m, b)
    names, req, star = set(), set(), False
    imp = self.src.imports(m)
    for base in n.bases:
      q = ast.unparse(base)
      head, _, tail = q.partition('.')
      full = imp.get(head, m + '.' + head) + ('.' + tail if tail else '')
      bm, bn = full.rsplit('.', 1)
      t = self.src.find(bm) if bm.startswith((PKG, 'dopamine')) else None
      for c in t.body if t is not None else ():
        if isinstance(c, ast.ClassDef) and c.name == bn and depth < 8:
          a, b, s = self.signature(bm, c, depth + 1)
          names, req, star = names | a, req | b, star or s
      if t is None and bn == 'Module':        # a flax module: its annotated fields are its parameters
        for b in n.body:
          if isinstance(b, ast.AnnAssign):
            names.add(b.target.id)
            if b.value is not None and ast.unparse(b.value) == 'gin.REQUIRED':
              req.add(b.target.id)
    return names, req, star


def p49(r, tier):
  """Every binding of a shipped configuration resolves to one configurable and one of its parameters."""
  root = REPO
  src = Sources(root)
  files = sorted(glob.glob(os.path.join(root, PKG, '**', '*.gin'), recursive=True))
  own = []
  for d, _, fs in os.walk(os.path.join(root, PKG)):
    for f in fs:
      if f.endswith('.py') and not f.endswith('_test.py'):
        m = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, '.')
        own.append(m[:-len('.__init__')] if m.endswith('.__init__') else m)
  entry = [PKG + '.train', PKG + '.eval.eval']
  r.check(bool(files), 'configurations-found', 'package', 'agents/configs')
  bound = {}
  for path in files:
    rel = os.path.relpath(path, os.path.join(root, PKG))
    with open(path, encoding='utf-8') as f:
      lines = [l.split('#')[0].strip() for l in f]
    imports = [l.split()[1] for l in lines if l.startswith('import ')]
    for m in imports:
      have = src.find(m) is not None
      r.check(have if m.startswith(PKG) or site() else None, 'imports-exist', '%s: %s' % (rel, m), rel)
    conf = Configurables(src, src.closure(entry + imports))
    r.count('configurables', len(conf.all))
    here = bound.setdefault(os.path.basename(path), {})
    for l in lines:
      if not l or l.startswith(('import ', 'include ')):
        continue
      m = re.match(r'^([\w./]+)\.(\w+)\s*=\s*(.+)$', l)
      if not m:
        r.check(None, 'binding-understood', '%s: %s' % (rel, l), rel)
        continue
      sel, par, val = m.groups()
      keys = conf.match(sel)
      r.check(len(keys) == 1, 'binds-one-configurable', '%s: %s.%s' % (rel, sel, par), rel, str(keys))
      for k in keys[:1]:
        names, req, star = conf.params(k)
        r.check(par in names or star, 'binds-an-existing-parameter', '%s: %s.%s' % (rel, sel, par), rel,
                '%s takes %s' % (k, sorted(names)))
        r.check((k, par) not in here, 'bound-once', '%s: %s.%s' % (rel, sel, par), rel)
        here[(k, par)] = val
      for ref in re.findall(r'@([\w.]+)', val):
        ks = conf.match(ref)
        r.check(len(ks) == 1, 'refers-to-one-configurable', '%s: @%s' % (rel, ref), rel, str(ks))
        # what is injected is constructed with its required parameters bound here
        for k in ks[:1]:
          names, req, star = conf.params(k)
          for p in sorted(req):
            r.check(any(k2 == k and p2 == p for k2, p2 in here) or any(
                re.match(r'^[\w./]*\b%s\.%s\s*=' % (re.escape(k.rsplit('.', 1)[1]), p), x) for x in lines),
                    'required-parameters-bound', '%s: %s.%s' % (rel, k.rsplit('.', 1)[1], p), rel)
    for k in sorted({k for k, _ in here}):
      for p in sorted(conf.params(k)[1]):
        r.check((k, p) in here, 'required-parameters-bound', '%s: %s.%s' % (rel, k.rsplit('.', 1)[1], p), rel)
  # the agents' own required parameters
  for n, (cls, gin) in AGENTS.items():
    if gin is None or gin not in bound:
      continue
    conf = Configurables(src, src.closure(entry))
    k = PKG + '.' + cls
    if k not in conf.all:
      r.check(None, 'agent-configurable', n, REG)
      continue
    for p in sorted(conf.params(k)[1]):
      r.check((k, p) in bound[gin], 'required-parameters-bound', '%s: %s' % (gin, p), 'agents/configs/' + gin)
  get = lambda g: {p: v for (k, p), v in bound.get(g, {}).items() if k.endswith('.QuantileAgent')}
  for g, want in (('quantile.gin', 'False'), ('finetune_perciatelli.gin', 'True')):
    r.check(get(g).get('reload_perciatelli') == want, 'starts-from-the-right-network', g, 'agents/configs/' + g, str(get(g)))


# ------------------------------------------------------------------ P50
class Weights(FS):
  """Files, plus resources of the installed package."""

  def __init__(self, I, st, files, packaged):
    super().__init__(I, st, files, ('/', '/w') + tuple({os.path.dirname(f) for f in files}))
    self.packaged = dict(packaged)
    for n in ('open_binary', 'read_binary'):
      I.stubs['importlib.resources.' + n] = self.resource

  def resource(self, I, st, name, args, kw, node):
    pk, nm = text(args[0]), text(args[1])
    if pk is None or nm is None:
      raise AnalysisError('a resource name is not known')
    if (pk, nm) not in self.packaged:
      return I.throw(st, 'FileNotFoundError', node)
    v = self.packaged[(pk, nm)]
    if name.endswith('read_binary'):
      return [(st, v)]
    p = '/resource/' + nm
    self.put(st, p, ('text', v))
    return [(st, R(st.alloc(Cell('file', None, {'path': C(p), 'mode': C('rb'), 'open': C(True)}))))]


def p50(r, tier):
  """Where model weights come from."""
  where = 'models/models.py'
  for fn, nm in (('load_offlineskies22', 'offlineskies22_decoder.msgpack'), ('load_perciatelli44', 'perciatelli44.pb')):
    rel = 'balloon_learning_environment/models/' + nm
    others = {'offlineskies22_decoder.msgpack', 'perciatelli44.pb'} - {nm}
    blob = lambda k: O(T.atom('weights', k), 'bytes')
    for given in (None, '/w/mine', '/w/missing', ''):
      for pkg in (True, False):
        for src in (True, False):
          I = load()
          st = I.start()
          files = {'/w/mine': (('text', blob('given')),)}
          pk = {}
          for o in others:
            files['balloon_learning_environment/models/' + o] = (('text', blob('other')),)
            pk[('balloon_learning_environment.models', o)] = blob('other')
          if src:
            files[rel] = (('text', blob('source')),)
          if pkg:
            pk[('balloon_learning_environment.models', nm)] = blob('package')
          fs = Weights(I, st, files, pk)
          before = sorted(files)
          I.sinks = [[]]
          outs = I.call(I.lookup('models.models.' + fn), [] if given is None else [C(given)], {}, st, None)
          what = '%s, path %s, %sinstalled, %sin the source tree' % (fn, given if given is None or given else 'empty', '' if pkg else 'not ', '' if src else 'not ')
          want = 'given' if given == '/w/mine' else None if given is not None else 'package' if pkg else 'source' if src else None
          if want is None:
            exc = 'ValueError' if given else 'RuntimeError' if given is None else None
            r.check(not outs and (raises(I, exc) if exc else bool(exceptions(I))), 'missing-weights-are-an-error', what, where, '%s %s' % (
                [v for _, v in outs], [e.name for _, e in exceptions(I)]))
          else:
            r.check(len(outs) == 1 and is_obj(outs[0][1], blob(want)) and not exceptions(I), 'weights-from-the-right-place', what, where,
                    '%s %s' % ([v for _, v in outs], [e.name for _, e in exceptions(I)]))
          for s, _ in outs:
            r.check([f for f in fs.listing(s) if not f.startswith('/resource')] == before, 'loading-writes-nothing', what, where)
          r.took(I)


# ------------------------------------------------------------------ P51
MUTATORS = {'append', 'extend', 'insert', 'pop', 'popitem', 'remove', 'clear', 'update', 'setdefault', 'add', 'discard', 'sort',
            'reverse', 'fill', 'put', 'resize', '__setitem__', '__delitem__', 'appendleft', 'popleft', 'setflags', 'itemset'}
FROZEN_CALLS = {'dt.timedelta', 'datetime.timedelta', 'dt.datetime', 'units.datetime', 'frozenset', 'tuple', 'range', 'float', 'int',
                'str', 'bool', 'bytes', 'complex'}


class Scope:
  """Names of one module: what they are bound to at its top level."""

  def __init__(self, I, name, mod):
    self.name, self.tree = name, normalise(mod.tree)
    self.top = {}
    for n in ast.walk(self.tree):
      n.parent = None
    for n in ast.walk(self.tree):
      for c in ast.iter_child_nodes(n):
        c.parent = n
    def visit(body):
      for b in body:
        if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
          self.top[b.name] = b
        elif isinstance(b, (ast.Import, ast.ImportFrom)):
          for a in b.names:
            self.top[a.asname or a.name.split('.')[0]] = b
        elif isinstance(b, (ast.Assign, ast.AnnAssign)):
          for t in b.targets if isinstance(b, ast.Assign) else [b.target]:
            if isinstance(t, ast.Name):
              self.top[t.id] = b
        elif isinstance(b, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
          for f in ('body', 'orelse', 'finalbody'):
            visit(getattr(b, f, []))
          for h in getattr(b, 'handlers', []):
            visit(h.body)
    visit(self.tree.body)


class Sharing:

  def __init__(self, r, I):
    self.r, self.I = r, I
    self.mods = {n: Scope(I, n, m) for n, m in I.prog.mods.items()}
    self.classes = {}
    for n, s in self.mods.items():
      for b in s.top.values():
        if isinstance(b, ast.ClassDef):
          self.classes[n + '.' + b.name] = (s, b)

  def resolve(self, s, e):
    """The definition an expression names: (scope, node) of a class, function or assignment of the package, or a string."""
    parts = ast.unparse(e).split('.')
    if not all(re.match(r'^\w+$', p) for p in parts):
      return None
    b = s.top.get(parts[0])
    if b is None:
      return '.'.join(parts)
    if isinstance(b, (ast.Import, ast.ImportFrom)):
      for a in b.names:
        if (a.asname or a.name.split('.')[0]) == parts[0]:
          full = (b.module + '.' if isinstance(b, ast.ImportFrom) else '') + (a.name if a.asname or isinstance(b, ast.ImportFrom) else parts[0])
          full = '.'.join([full] + parts[1:])
          return self.lookup(full)
    if len(parts) == 1:
      return s, b
    if isinstance(b, ast.ClassDef):
      return ('member', s, b, parts[1:])
    return s, b

  def lookup(self, full):
    parts = full.split('.')
    for i in range(len(parts), 0, -1):
      m = '.'.join(parts[:i])
      if m in self.mods:
        rest = parts[i:]
        if not rest:
          return 'module ' + m
        b = self.mods[m].top.get(rest[0])
        if b is None:
          return full
        if isinstance(b, (ast.Import, ast.ImportFrom)):
          return self.resolve(self.mods[m], ast.parse('.'.join(rest), mode='eval').body)
        if len(rest) > 1 and isinstance(b, ast.ClassDef):
          return ('member', self.mods[m], b, rest[1:])
        return self.mods[m], b
    return full

  def decorators(self, c):
    return [deco_name(d) for d in c.decorator_list]

  def is_enum(self, c):
    return any('Enum' in ast.unparse(b) or 'Flag' in ast.unparse(b) for b in c.bases)

  def is_dataclass(self, c):
    return any(d.rsplit('.', 1)[-1] == 'dataclass' for d in self.decorators(c))

  def dc_option(self, c, k):
    for d in c.decorator_list:
      if isinstance(d, ast.Call) and deco_name(d).rsplit('.', 1)[-1] == 'dataclass':
        for kw in d.keywords:
          if kw.arg == k and isinstance(kw.value, ast.Constant):
            return kw.value.value
    return None

  def unhashable(self, s, c):
    """Do instances of the class have no hash?"""
    own = {b.name for b in c.body if isinstance(b, ast.FunctionDef)} | {
        t.id for b in c.body if isinstance(b, ast.Assign) for t in b.targets if isinstance(t, ast.Name)}
    if '__hash__' in own:
      return any(isinstance(b, ast.Assign) and ast.unparse(b) == '__hash__ = None' for b in c.body)
    if self.is_dataclass(c):
      return self.dc_option(c, 'eq') is not False and not self.dc_option(c, 'frozen') and not self.dc_option(c, 'unsafe_hash')
    return '__eq__' in own

  def mutable_class(self, s, c):
    """Can an instance change after construction? A reason, or None."""
    if self.is_enum(c):
      return None
    if self.is_dataclass(c):
      return None if self.dc_option(c, 'frozen') else 'its fields can be assigned'
    for f in c.body:
      if isinstance(f, ast.FunctionDef) and f.args.args and f.name not in ('__init__', '__new__', '__setstate__'):
        me = f.args.args[0].arg
        for n in ast.walk(f):
          if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == me:
            return '%s assigns %s' % (f.name, ast.unparse(n))
          if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(
              n.func.value, ast.Attribute) and isinstance(n.func.value.value, ast.Name) and n.func.value.value.id == me:
            return '%s changes %s' % (f.name, ast.unparse(n.func.value))
    for b in c.bases:
      d = self.resolve(s, b)
      if isinstance(d, tuple) and len(d) == 2 and isinstance(d[1], ast.ClassDef):
        m = self.mutable_class(*d)
        if m:
          return m
    return None

  def mutable(self, s, e, depth=0):
    """Why the value of a default expression could be changed by its users: a reason, None (immutable), or '?'."""
    if isinstance(e, (ast.Constant, ast.Lambda, ast.JoinedStr, ast.Compare)):
      return None
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
      return 'a new %s is shared' % type(e).__name__.lower()
    if isinstance(e, ast.Tuple):
      return next((m for m in (self.mutable(s, x, depth) for x in e.elts) if m), None)
    if isinstance(e, (ast.UnaryOp,)):
      return self.mutable(s, e.operand, depth)
    if isinstance(e, (ast.BinOp,)):
      return self.mutable(s, e.left, depth) or self.mutable(s, e.right, depth)
    if isinstance(e, ast.IfExp):
      return self.mutable(s, e.body, depth) or self.mutable(s, e.orelse, depth)
    if isinstance(e, (ast.Name, ast.Attribute)):
      d = self.resolve(s, e)
      if isinstance(d, tuple) and len(d) == 2:
        if isinstance(d[1], (ast.ClassDef, ast.FunctionDef)):
          return None
        if isinstance(d[1], (ast.Assign, ast.AnnAssign)) and d[1].value is not None and depth < 4:
          return self.mutable(d[0], d[1].value, depth + 1)
      if isinstance(d, tuple) and d[0] == 'member':
        return None if self.is_enum(d[2]) else '?'
      return None
    if isinstance(e, ast.Call):
      n = ast.unparse(e.func)
      if n in ('list', 'dict', 'set', 'bytearray', 'collections.defaultdict', 'collections.deque', 'collections.OrderedDict',
               'defaultdict', 'deque', 'OrderedDict'):
        return 'a new %s is shared' % n
      if n.startswith(('np.array', 'np.zeros', 'np.ones', 'np.empty', 'np.full', 'np.random', 'numpy.', 'random.', 'np.arange', 'np.linspace')):
        return 'an array or generator is shared'
      if n in FROZEN_CALLS:
        return None
      d = self.resolve(s, e.func)
      if isinstance(d, tuple) and len(d) == 2 and isinstance(d[1], ast.ClassDef):
        m = self.mutable_class(*d)
        return 'an instance of %s is shared and %s' % (d[1].name, m) if m else None
      return '?'
    return '?'


def calls_to_field(e):
  return isinstance(e, ast.Call) and ast.unparse(e.func).rsplit('.', 1)[-1] == 'field'


def p51(r, tier):
  """Defaults, class attributes and module variables share no mutable state."""
  I = load()
  sh = Sharing(r, I)
  for n, s in sorted(sh.mods.items()):
    rel = n.replace(PKG + '.', '')
    # (a) defaults of functions
    for f in ast.walk(s.tree):
      if isinstance(f, (ast.FunctionDef, ast.Lambda)):
        a = f.args
        for p, d in list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
          m = sh.mutable(s, d)
          r.check(None if m == '?' else m is None, 'defaults-immutable', '%s.%s(%s=)' % (rel, getattr(f, 'name', 'lambda'), p.arg), rel,
                  '%s: %s' % (ast.unparse(d), m))
    # (b) dataclass fields
    for c in ast.walk(s.tree):
      if not isinstance(c, ast.ClassDef):
        continue
      dc = sh.is_dataclass(c) or any('nn.Module' == ast.unparse(b) for b in c.bases)
      for b in c.body:
        if dc and isinstance(b, ast.AnnAssign) and b.value is not None:
          e = b.value
          if calls_to_field(e):
            e = next((k.value for k in e.keywords if k.arg == 'default'), None)
          if e is None:
            r.ok('fields-not-shared', '%s.%s.%s' % (rel, c.name, b.target.id))
            continue
          m = sh.mutable(s, e)
          bad = None
          if isinstance(e, ast.Call):
            d = sh.resolve(s, e.func)
            if isinstance(d, tuple) and len(d) == 2 and isinstance(d[1], ast.ClassDef) and sh.unhashable(*d):
              bad = 'a field default without a hash is rejected when the class is created (Python 3.11 and later)'
          r.check(False if bad else None if m == '?' else m is None, 'fields-not-shared', '%s.%s.%s' % (rel, c.name, b.target.id), rel,
                  '%s: %s' % (ast.unparse(e), bad or m))
    # (c) nothing at module or class level is changed by functions
    for f in ast.walk(s.tree):
      if not isinstance(f, (ast.FunctionDef, ast.Lambda)):
        continue
      name = '%s.%s' % (rel, getattr(f, 'name', 'lambda'))
      bad = changes(sh, s, f)
      r.check(not bad, 'functions-change-no-shared-state', name, rel, '; '.join(bad))
    r.count('modules')
  r.took(I)


def locals_of(f):
  names = set()
  a = f.args
  for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
    names.add(p.arg)
  glob_ = set()
  for n in ast.walk(f):
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
      names.add(n.id)
    elif isinstance(n, ast.Global):
      glob_ |= set(n.names)
    elif isinstance(n, (ast.Import, ast.ImportFrom)):
      names |= {x.asname or x.name.split('.')[0] for x in n.names}
    elif isinstance(n, ast.FunctionDef) and n is not f:
      names.add(n.name)
    elif isinstance(n, ast.ExceptHandler) and n.name:
      names.add(n.name)
  return names - glob_, glob_


def base_of(e):
  while isinstance(e, (ast.Attribute, ast.Subscript)):
    e = e.value
  return e


def changes(sh, s, f):
  """Ways a function changes module- or class-level objects."""
  bad = []
  loc, glob_ = locals_of(f)
  p = f.parent
  while p is not None:
    if isinstance(p, (ast.FunctionDef, ast.Lambda)):
      loc = loc | locals_of(p)[0]
    p = p.parent
  cls = f.parent if isinstance(f.parent, ast.ClassDef) else None
  me = f.args.args[0].arg if cls is not None and f.args.args else None
  classmeth = cls is not None and any(deco_name(d) == 'classmethod' for d in getattr(f, 'decorator_list', []))
  attrs, assigned = class_attrs(sh, s, cls) if cls is not None else (set(), set())

  def shared(e):
    """Is the object e names reachable from a module or a class?"""
    b = base_of(e)
    if isinstance(b, ast.Name) and b.id in glob_:
      return True
    if isinstance(b, ast.Name) and b.id not in loc:
      d = s.top.get(b.id)
      if d is None:
        return False
      if isinstance(d, (ast.Import, ast.ImportFrom)):
        t = sh.resolve(s, b)
        return not isinstance(t, str) or t.startswith('module ')
      return True
    if isinstance(b, ast.Call) and ast.unparse(b.func) == 'type':
      return True
    if isinstance(b, ast.Name) and b.id == me:
      chain = []
      while isinstance(e, (ast.Attribute, ast.Subscript)):
        if isinstance(e, ast.Attribute):
          chain.append(e.attr)
        e = e.value
      if chain and chain[-1] == '__class__':
        return True
      return classmeth or bool(chain) and chain[-1] in attrs and chain[-1] not in assigned
    return False
  for n in ast.walk(f):
    if isinstance(n, ast.Global):
      st = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
      bad += ['assigns the global %s' % x for x in n.names if x in st]
    elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and shared(n.value):
      bad.append('assigns %s' % ast.unparse(n))
    elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
      b = n.value
      if isinstance(b, ast.Name) and b.id == me and not classmeth:
        continue
      if shared(b):
        bad.append('assigns %s' % ast.unparse(n))
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and shared(n.func.value):
      b = base_of(n.func.value)
      if isinstance(n.func.value, ast.Name) and isinstance(s.top.get(b.id) if isinstance(b, ast.Name) else None, (ast.Import, ast.ImportFrom)):
        continue                # a function of a module
      bad.append('calls %s' % ast.unparse(n.func))
    elif isinstance(n, ast.Call) and ast.unparse(n.func) == 'setattr' and n.args and shared(n.args[0]) and not (
        isinstance(n.args[0], ast.Name) and n.args[0].id == me):
      bad.append('sets an attribute of %s' % ast.unparse(n.args[0]))
  return bad


def class_attrs(sh, s, c, seen=()):
  """(mutable class attributes, attributes assigned per instance) over the bases of a class in the package."""
  attrs, assigned = set(), set()
  dc = sh.is_dataclass(c) or any('nn.Module' == ast.unparse(b) for b in c.bases)
  for b in c.body:
    if isinstance(b, ast.Assign):
      attrs |= {t.id for t in b.targets if isinstance(t, ast.Name)}
    elif isinstance(b, ast.AnnAssign) and b.value is not None and isinstance(b.target, ast.Name):
      (assigned if dc else attrs).add(b.target.id)
    elif isinstance(b, ast.FunctionDef) and b.name == '__init__' and b.args.args:
      me = b.args.args[0].arg
      assigned |= {n.attr for n in ast.walk(b) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(
          n.value, ast.Name) and n.value.id == me}
  for b in c.bases:
    d = sh.resolve(s, b)
    if isinstance(d, tuple) and len(d) == 2 and isinstance(d[1], ast.ClassDef) and d[1] not in seen:
      a, g = class_attrs(sh, d[0], d[1], seen + (c,))
      attrs, assigned = attrs | a, assigned | g
  return attrs, assigned


# ------------------------------------------------------------------ P52
def p52(r, tier):
  """The environment is registered once, under its documented name."""
  where = 'env/gym.py (register_env)'
  NAME = 'BalloonLearningEnvironment-v0'
  for already in (False, True):
    for times in (1, 2, 3):
      for namespace in (False, True):
        I = load()
        st = I.start()
        I.stubs = dict(I.stubs)
        specs = R(st.alloc(Cell('dict', None, {C(NAME): C('spec')} if already else {C('CartPole-v1'): C('spec')})))
        st.roots = st.roots + (specs,)
        calls = []

        def register(I, st, name, args, kw, node):
          d = dict(zip(('id', 'entry_point'), args))
          d.update(kw)
          calls.append(d)
          if 'id' in d:
            st.mut(specs.addr).d[d['id']] = C('spec')
          return [(st, NONE)]
        old = I.stubs['$attr']

        def attr(I, st, ob, name, node):
          if isinstance(ob, O) and ob.typ == 'gym-registry' and name == 'env_specs':
            return [(st, specs)]
          return old(I, st, ob, name, node)
        I.stubs['$attr'] = attr
        I.stubs['gym.envs.registration.register'] = I.stubs['gym.register'] = register
        I.stubs['gym.envs.registration.registry'] = O(T.atom('registry'), 'gym-registry')
        I.stubs['$hasattr:gym.envs.registration.namespace'] = C(namespace)
        spaces = []

        def space(I, st, name, args, kw, node):
          spaces.append(args[0] if args else kw.get('ns', kw.get('namespace', NONE)))
          return [(st, O(T.atom('namespace'), 'namespace'))]
        I.stubs['gym.envs.registration.namespace'] = space
        I.sinks = [[]]
        states = [st]
        for _ in range(times):
          states = [s2 for s in states for s2, _ in I.call(I.lookup('env.gym.register_env'), [], {}, s, None)]
        what = '%s, %d calls%s' % ('already registered' if already else 'not yet registered', times, ', old gym' if namespace else '')
        r.check(len(states) >= 1 and not exceptions(I), 'registration-completes', what, where, str(exceptions(I)[:1]))
        r.check(len(calls) == (0 if already else 1), 'registered-once', what, where, '%d registrations' % len(calls))
        for ns in spaces:
          r.check(is_obj(ns, NONE), 'documented-name', what, where, 'registered in the namespace %s' % ns)
        for d in calls:
          r.check(is_obj(d.get('id', NONE), C(NAME)), 'documented-name', what, where, str(d))
          ep = text(d.get('entry_point', NONE)) or ':'
          m, _, c = ep.partition(':')
          mod = I.prog.mods.get(m)
          r.check(mod is not None and any(isinstance(n, ast.ClassDef) and n.name == c for n in mod.tree.body) and ep == (
              PKG + '.env.balloon_env:BalloonEnv'), 'entry-point-exists', what, where, ep)
        r.took(I)
  # importing the package registers it
  I = load()
  tree = I.prog.mods[PKG].tree
  names = {}
  for b in tree.body:
    if isinstance(b, ast.ImportFrom):
      for a in b.names:
        names[a.asname or a.name] = b.module + '.' + a.name
  called = [ast.unparse(b.value.func) for b in tree.body if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call)]
  full = [names.get(c.split('.')[0], c.split('.')[0]) + ('.' + c.split('.', 1)[1] if '.' in c else '') for c in called]
  r.check(PKG + '.env.gym.register_env' in full, 'importing-registers', 'package', '__init__.py', str(full))
  # gym.make constructs it without arguments
  c = I.prog.mods[PKG + '.env.balloon_env'].tree
  for n in c.body:
    if isinstance(n, ast.ClassDef) and n.name == 'BalloonEnv':
      for f in n.body:
        if isinstance(f, ast.FunctionDef) and f.name == '__init__':
          a = f.args
          r.check(len(a.args) - 1 <= len(a.defaults) and all(d is not None for d in a.kw_defaults), 'constructible-without-arguments',
                  'BalloonEnv', 'env/balloon_env.py')
  r.took(I)
