"""Networks (P60), training data and schedules of the wind generator (P61), winds as fields (P62)."""
import itertools

from common import *
from tensors import Tensors, is_none
from runs import raises

NW = 'agents/networks.py'


class Layers:
  """A network applied to an arbitrary observation; each dense layer is an arbitrary function of its whole input."""

  def __init__(self, shape):
    I = self.I = load()
    self.X = X_ = Tensors(I)
    self.made = []
    S = I.stubs
    S['$prefix'] = list(S['$prefix'])

    def dense(I, st, name, args, kw, node):
      f = args[0] if args else kw['features']
      self.made.append(X_.dim(f))
      return [(st, O(T.atom('dense', len(self.made) - 1, X_.dim(f)), 'layer'))]

    def apply(I, st, ob, args, kw, node):
      k, d = ob.a.args
      x = args[0] if args else kw['inputs']
      s, els = X_.of(x)
      if not s:
        raise AnalysisError('a layer is applied to a scalar')
      lead = s[:-1]
      # the layer acts on the last axis
      out = X_.build(lead + (d,), lambda i: T.poly(T.atom('out', k, i[-1], tuple(X_.at(x, *(i[:-1] + (j,))) for j in range(s[-1])))))
      return [(st, out)]

    def named(n, fields):
      def h(I, st, name, args, kw, node):
        d = dict(zip(fields, args))
        d.update(kw)
        return [(st, Tup(tuple(d.get(f, NONE) for f in fields)))]
      for p in ('dopamine.discrete_domains.atari_lib.', 'dopamine.jax.networks.', 'dopamine.discrete_domains.legacy_networks.'):
        S[p + n] = h
    named('DQNNetworkType', ('q_values',))
    named('RainbowNetworkType', ('q_values', 'logits', 'probabilities'))
    S['flax.linen.Dense'] = dense
    S['$call.layer'] = apply
    self.x = X_.var('seen', shape)

  def network(self, cls, **kw):
    I = self.I
    st = I.start()
    self.made.clear()
    I.sinks = [[]]
    kw = {k: C(v) for k, v in kw.items()}
    st, net = one(I.call(I.lookup('agents.networks.' + cls), [], kw, st, None), cls)
    return I.call_method(net, '__call__', [self.x], {}, st, None)


def lone(p):
  """The atom a term consists of."""
  if len(p.terms) == 1:
    (m, c), = p.terms.items()
    if c == 1 and len(m) == 1 and m[0][1] == 1:
      return m[0][0]
  return None


def chain(L, out):
  """The layers an output went through, outermost first, as (layer, width) with the last input; None when it is not a chain."""
  X_ = L.X
  seq = []
  els = tuple(out)
  while True:
    atoms = [lone(e) for e in els]
    if all(a is not None and a.op == 'relu' for a in atoms):
      seq.append('relu')
      els = tuple(a.args[0] for a in atoms)
      continue
    if all(a is not None and a.op == 'out' for a in atoms) and len({(a.args[0], a.args[2]) for a in atoms}) == 1:
      seq.append((atoms[0].args[0], tuple(a.args[1] for a in atoms)))
      els = atoms[0].args[2]
      continue
    return seq, els


def p60(r, tier):
  """The value networks compute what the agents take them to compute."""
  big = tier != 'quick'
  for shape in ((6,), (2, 3)) + (((3, 2, 1),) if big else ()):
    for layers in (1, 2, 3) + ((5, 8) if big else ()):
      for hid in (2,) + ((5,) if big else ()):
        for acts in (3,) + ((1, 4) if big else ()):
          for dop in (False, True):
            L = Layers(shape)
            what = '%d layers of %d units, observation %s, %d actions%s' % (layers, hid, shape, acts, ', for Dopamine' if dop else '')
            where = NW + ' (MLPNetwork)'
            outs = L.network('MLPNetwork', num_actions=acts, num_layers=layers, hidden_units=hid, is_dopamine=dop)
            r.check(bool(outs) and not exceptions(L.I), 'network-evaluates', what, where, str(exceptions(L.I)[:1]))
            for s, v in outs:
              if dop:
                ok = isinstance(v, Tup) and len(v.items) == 1
                r.check(ok, 'wrapped-for-dopamine', what, where, str(v))
                v = v.items[0] if ok else None
              ok = L.X.is_t(v) and L.X.of(v)[0] == (acts,)
              r.check(ok, 'one-value-per-action', what, where, str(L.X.of(v)[0] if L.X.is_t(v) else v))
              if ok:
                stack(r, L, L.X.of(v)[1], layers, hid, acts, what, where)
            r.took(L.I)
          for atoms in (2,) + ((1, 3) if big else ()):
            quantiles(r, shape, layers, hid, acts, atoms)


def stack(r, L, els, layers, hid, width, what, where):
  seq, seen = chain(L, els)
  dense = [x for x in seq if x != 'relu']
  r.check(len(dense) == layers, 'as-many-layers-as-asked', what, where, '%d layers' % len(dense))
  if not dense:
    return
  # the final layer is linear, each before it is rectified once
  want = [x for k, x in enumerate(dense) for x in ([x] if k == 0 else ['relu', x])]
  r.check(seq == want, 'hidden-layers-rectified-output-linear', what, where, str([x if x == 'relu' else 'layer' for x in seq]))
  r.check(sorted(dense[0][1]) == list(range(width)), 'outputs-used-once', what, where, str(dense[0][1]))
  for k, ix in dense[1:]:
    r.check(sorted(ix) == list(range(hid)), 'hidden-layers-have-the-width-asked', what, where, str(ix))
  r.check(len({k for k, _ in dense}) == len(dense), 'layers-have-their-own-weights', what, where, str(dense))
  want = {e: 0 for e in L.X.of(L.x)[1]}
  got = list(seen)
  r.check(set(got) == set(want) and len(got) == len(want), 'sees-the-whole-observation', what, where, ', '.join(map(show, got))[:200])


def quantiles(r, shape, layers, hid, acts, atoms):
  L = Layers(shape)
  what = '%d layers of %d units, observation %s, %d actions of %d quantiles' % (layers, hid, shape, acts, atoms)
  where = NW + ' (QuantileNetwork)'
  outs = L.network('QuantileNetwork', num_actions=acts, num_layers=layers, hidden_units=hid, num_atoms=atoms)
  r.check(bool(outs) and not exceptions(L.I), 'network-evaluates', what, where, str(exceptions(L.I)[:1]))
  X_ = L.X
  for s, v in outs:
    ok = isinstance(v, Tup) and len(v.items) == 3 and all(X_.is_t(x) for x in v.items)
    r.check(ok, 'quantiles-returned', what, where, str(v))
    if not ok:
      continue
    q, lg, pr = v.items
    ok = X_.of(q)[0] == (acts,) and X_.of(lg)[0] == (acts, atoms) == X_.of(pr)[0]
    r.check(ok, 'one-distribution-per-action', what, where, str([X_.of(x)[0] for x in v.items]))
    if not ok:
      continue
    stack(r, L, X_.of(lg)[1], layers, hid, acts * atoms, what, where)
    for a in range(acts):
      row = [X_.at(lg, a, j) for j in range(atoms)]
      mean = T.ZERO
      for x in row:
        mean = mean + x * T.const(Fraction(1, atoms))
      r.check(same(s, X_.at(q, a), mean), 'value-is-the-mean-of-its-quantiles', '%s, action %d' % (what, a), where, show(X_.at(q, a)))
      for j in range(atoms):
        want = T.poly(T.atom('softmax', row[j], tuple(row)))
        r.check(X_.at(pr, a, j) == want, 'probabilities-over-the-quantiles', '%s, action %d quantile %d' % (what, a, j), where,
                show(X_.at(pr, a, j)))
  r.took(L.I)


# ------------------------------------------------------------------ P61
RS = 'generative/dataset_wind_field_reservoir.py (DatasetWindFieldReservoir)'


class Data:
  """A reservoir over data whose every entry is arbitrary; draws of indices are recorded."""

  def __init__(self, fields=None, files=None):
    from modelfs import FS
    I = self.I = load()
    I.unroll = 300
    X_ = self.X = Tensors(I)
    self.st = I.start()
    self.draws, self.taken, self.opened = [], [], []
    if files:
      self.fs = FS(I, self.st, {p: (('pickle.dump', X_.var('file %s ' % p, (2, 3))),) for p in files}, ('/', '/data'))
    S = I.stubs
    for op in ('choice', 'permutation', 'randint', 'uniform', 'shuffle'):
      S['jax.random.' + op] = self.draw(op, S['jax.random.' + op])
    self.get = S['$get.tensor']
    S['$get.tensor'] = self.rows
    for f in ('jax.numpy.take', 'numpy.take'):
      S[f] = self.take
    S['$get.drawn'] = self.part
    S['jax.numpy.arange'] = self.arange(S.get('jax.numpy.arange'))
    self.data = X_.var('field', (fields, 3)) if fields else None

  def arange(self, old):
    def h(I, st, name, args, kw, node):
      if len(args) == 1 and not kw and numeric(args[0]) and num(args[0]).const is not None:
        return [(st, O(T.atom('arange', num(args[0])), 'arange'))]
      if old is None:
        return next(f for p, f in I.stubs['$prefix'] if name.startswith(p))(I, st, name, args, kw, node)
      return old(I, st, name, args, kw, node)
    return h

  NAMES = {'choice': ('key', 'a', 'shape', 'replace', 'p', 'axis'), 'permutation': ('key', 'x', 'axis', 'independent'),
           'randint': ('key', 'shape', 'minval', 'maxval', 'dtype')}

  def draw(self, op, old):
    def h(I, st, name, args, kw, node):
      d = dict(zip(self.NAMES.get(op, ()), args))
      d.update(kw)
      k = d.get('key')
      I.emit(st, 'keyuse', op=op, key=k, node=node)
      if op not in ('choice', 'permutation', 'randint'):
        raise AnalysisError('a batch is drawn with ' + op)
      lo, hi, n, rep = T.ZERO, None, None, False
      if op == 'randint':
        lo, hi, rep = num(d['minval']), num(d['maxval']), True
        n = self.size(st, d['shape'])
      else:
        a = d.get('a' if op == 'choice' else 'x')
        hi = a.a.args[0] if isinstance(a, O) and a.typ == 'arange' else num(a)
        if op == 'choice':
          n = self.size(st, d['shape']) if 'shape' in d else 1
          v = d.get('replace', C(True))
          rep = v.val if isinstance(v, C) else None
          if d.get('p') is not None and not is_none(d['p']):
            rep = None
      rec = dict(key=I.vkey(k, st), lab=I.deep_lab(k, st), lo=lo, hi=hi, n=n, rep=rep)
      self.draws.append(rec)
      return [(st, O(T.atom('drawn', len(self.draws) - 1, None), 'drawn', lab=rec['lab']))]
    return h

  def size(self, st, v):
    d = self.X.dims(st, v)
    n = 1
    for x in d:
      n *= x
    return n

  def part(self, I, st, ob, ix, node):
    """The first so many of a permutation."""
    if isinstance(ix, Sl) and is_none(ix.step) and (is_none(ix.lo) or num(ix.lo) == T.ZERO) and not is_none(ix.hi):
      k = ob.a.args[0]
      self.draws[k]['n'] = self.X.dim(ix.hi)
      return [(st, ob)]
    raise AnalysisError('a part of the drawn indices')

  def rows(self, I, st, ob, ix, node):
    items = list(ix.items) if isinstance(ix, Tup) else [ix]
    if items and isinstance(items[0], O) and items[0].typ == 'drawn':
      full = all(isinstance(x, C) and x.val is Ellipsis or isinstance(x, Sl) and all(is_none(y) for y in (x.lo, x.hi, x.step))
                 for x in items[1:])
      if not full:
        raise AnalysisError('part of the drawn fields')
      return [(st, O(T.atom('batch', ob.a, items[0].a.args[0]), 'batch', lab=items[0].lab))]
    return self.get(I, st, ob, ix, node)

  def take(self, I, st, name, args, kw, node):
    d = dict(zip(('a', 'indices', 'axis'), args))
    d.update(kw)
    if num(d['axis']) != T.ZERO:
      raise AnalysisError('take along another axis')
    return self.rows(I, st, d['a'], d['indices'], node)


def p61(r, tier):
  """Wind fields for training and for evaluation."""
  from winds import Draws, report_draws
  cls = 'generative.dataset_wind_field_reservoir.DatasetWindFieldReservoir'
  where = RS
  sizes = ((12, 3, 4), (12, 1, 11), (5, 4, 1), (10, 10, 1), (9, 0, 2)) + (((40, 7, 33), (201, 10, 64)) if tier != 'quick' else ())
  for n, e, b in sizes:
    D = Data(n)
    I, X_ = D.I, D.X
    K = Draws(I)
    what = '%d fields, %d for evaluation, batches of %d' % (n, e, b)
    st = D.st
    st.mon = frozenset()
    I.sinks = [[]]
    seed = N(T.var('seed', isint=True, lab=frozenset(['seed'])), 'int', lab=frozenset(['seed']))
    st, rv = one(I.call(I.lookup(cls), [], {'data': D.data, 'eval_batch_size': C(e), 'rng_seed': seed}, st, None), 'reservoir')
    st.roots = st.roots + (rv,)

    def evaluation(s, when):
      outs = I.call_method(rv, 'get_eval_batch', [], {}, s, None)
      r.check(bool(outs), 'evaluation-fields-available', '%s, %s' % (what, when), where, str(exceptions(I)[:1]))
      for s1, v in outs:
        got = [tuple(X_.of(v)[1][k * 3:k * 3 + 3]) for k in range(X_.of(v)[0][0])] if X_.is_t(v) else None
        want = [tuple(X_.at(D.data, k, j) for j in range(3)) for k in range(n - e, n)]
        r.check(None if got is None else got == want, 'evaluation-fields-are-the-last', '%s, %s' % (what, when), where,
                '%s fields' % (len(got) if got is not None else v))
    evaluation(st.fork(), 'at first')
    live = [st.fork()]
    held = n - e
    for k in range(3):
      nxt = []
      for s in live:
        m = len(D.draws)
        outs = I.call_method(rv, 'get_batch', [C(b)], {}, s, None)
        if held < b:        # more fields than there are: JAX rejects the draw
          continue
        r.check(bool(outs), 'batch-drawn', '%s, batch %d' % (what, k), where, str(exceptions(I)[:1]))
        for s1, v in outs:
          ok = isinstance(v, O) and v.typ == 'batch'
          r.check(ok or None, 'batch-is-a-draw-from-the-data', '%s, batch %d' % (what, k), where, str(v))
          if not ok:
            continue
          src, j = v.a.args
          d = D.draws[j]
          r.check(d['n'] == b, 'as-many-fields-as-asked', '%s, batch %d' % (what, k), where, str(d['n']))
          r.check(None if d['rep'] is None else not d['rep'], 'no-field-twice-in-a-batch', '%s, batch %d' % (what, k), where)
          rows = X_.tab[src.args[0]]
          lo, hi = d['lo'].const, d['hi'].const
          if lo is None or hi is None:
            r.check(None, 'training-excludes-evaluation', '%s, batch %d' % (what, k), where)
          else:
            got = [tuple(rows[1][i * 3:i * 3 + 3]) for i in range(int(lo), min(int(hi), rows[0][0]))]
            want = [tuple(X_.at(D.data, i, x) for x in range(3)) for i in range(held)]
            r.check(set(got) <= set(want), 'training-excludes-evaluation', '%s, batch %d' % (what, k), where, '%d to %d of %d' % (lo, hi, n))
            r.check(set(want) <= set(got), 'every-training-field-can-be-drawn', '%s, batch %d' % (what, k), where, '%d to %d of %d' % (lo, hi, n))
          r.check('seed' in d['lab'], 'drawn-from-the-seed', '%s, batch %d' % (what, k), where)
          r.check(d['key'] not in [x['key'] for x in D.draws[:m]], 'fresh-batch-every-time', '%s, batch %d' % (what, k), where, str(d['key'])[:100])
          nxt.append(s1)
      live = nxt
    for s in live:
      evaluation(s, 'after training')
    if held >= b:
      report_draws(r, K, what)
    r.took(I)
  names = ['/data/batch%04d.pickle' % i for i in range(200)]
  D = Data(files=names + ['/data/batch0200.pickle', '/data/batch1.pickle', '/data/notes.pickle'])
  I, X_ = D.I, D.X
  I.sinks = [[]]
  outs = I.call(I.lookup(cls), [C('/data')], {'eval_batch_size': C(2)}, D.st, None)
  r.check(bool(outs), 'data-loaded', '200 files', where, str(exceptions(I)[:1]))
  for s, rv in outs:
    outs2 = I.call_method(rv, 'get_batch', [C(2)], {}, s.fork(), None)
    src = [v.a.args[0].args[0] for _, v in outs2 if isinstance(v, O) and v.typ == 'batch']
    r.check(bool(src) or None, 'data-used', '200 files', where)
    want = [T.var('file %s [%d, %d]' % (p, i, j)) for p in names for i in range(2) for j in range(3)]
    for k in src:
      shape, els = X_.tab[k]
      r.check(shape == (400, 3) and list(els) == want, 'every-file-in-order', '200 files', where, '%s' % (shape,))
    bad = [x for x in D.fs.log if x[0] == 'open' and x[2] != 'rb']
    r.check(not bad, 'data-read-only', '200 files', where, str(bad[:1]))
  r.took(I)


# ------------------------------------------------------------------ P62
VW = 'generative/vae.py'
LW = 'generative/learn_wind_field_generator.py'


def total(xs):
  t = T.ZERO
  for x in xs:
    t = t + x
  return t


def ex(p):
  return T.poly(T.atom('exp', p))


def encoder(r, tier):
  for shape, lat, hid, width in (((2, 3), 2, 1, 2), ((4,), 3, 2, 2)) + ((((2, 1, 3), 2, 4, 3),) if tier != 'quick' else ()):
    L = Layers(shape)
    I, X_ = L.I, L.X
    # winds of every sign and size
    n = len(X_.of(L.x)[1])
    L.x = X_.new(shape, [T.var('wind%d' % k, *((0, 10 ** 6) if k % 2 else (-10 ** 6, 0)), **{'lo_open': k % 2 == 1, 'hi_open': k % 2 == 0})
                         for k in range(n)])
    st = I.start()
    I.sinks = [[]]
    what = 'fields of shape %s, %d latents, %d hidden layers' % (shape, lat, hid)
    where = VW + ' (Encoder)'
    st, e = one(I.call(I.lookup('generative.vae.Encoder'), [], {'num_latents': C(lat), 'num_hidden_layers': C(hid),
                                                               'hidden_layer_network_width': C(width)}, st, None), 'Encoder')
    outs = I.call_method(e, '__call__', [L.x], {}, st, None)
    r.check(bool(outs), 'encoder-evaluates', what, where, str(exceptions(I)[:1]))
    for s, v in outs:
      tops = []
      for n in ('mean', 'logvar'):
        t = read(I, s, v, n)
        ok = t is not None and X_.is_t(t) and X_.of(t)[0] == (lat,)
        r.check(ok, 'one-per-latent', '%s, %s' % (what, n), where, str(t))
        if not ok:
          continue
        seq, seen = chain(L, X_.of(t)[1])
        dense = [x for x in seq if x != 'relu']
        r.check(seq == [x for k, x in enumerate(dense) for x in ([x] if k == 0 else ['relu', x])] and len(dense) == hid + 1,
                'linear-output-rectified-layers', '%s, %s' % (what, n), where, str(['relu' if x == 'relu' else 'layer' for x in seq]))
        tops.append(dense[0][0] if dense else None)
        # each wind x reaches the layers once, as x / (50 + |x|)
        left = list(seen)
        for k, x in enumerate(X_.of(L.x)[1]):
          want = T.div(x, T.const(50) + (x if k % 2 else -x))
          hit = [y for y in left if same(s, y, want)]
          if hit:
            left.remove(hit[0])
          r.check(bool(hit), 'sees-the-whole-field-saturated', '%s, %s, wind %d' % (what, n, k), where, ', '.join(map(show, seen))[:200])
        r.check(not left, 'sees-nothing-else', '%s, %s' % (what, n), where, ', '.join(map(show, left))[:200])
      r.check(len(set(tops)) == 2, 'mean-and-variance-apart', what, where, str(tops))
    r.took(I)


def latents(r, tier):
  """What is decoded: the mean plus noise of the encoder's variance; only the mean when asked."""
  for lat in (2, 3):
    for rep in (True, False):
      L = Layers((2,))
      I, X_ = L.I, L.X
      S = I.stubs
      drawn = []
      old = S['jax.random.normal']

      def normal(I, st, name, args, kw, node, drawn=drawn):
        d = dict(zip(('key', 'shape', 'dtype'), args))
        d.update(kw)
        I.emit(st, 'keyuse', op='normal', key=d['key'], node=node)
        shape = tuple(X_.dims(st, d['shape'])) if 'shape' in d else ()
        drawn.append((I.vkey(d['key'], st), shape))
        k = len(drawn) - 1
        if not shape:
          return [(st, N(T.var('noise%d' % k), 'float'))]
        return [(st, X_.var('noise%d' % k, shape))]
      S['jax.random.normal'] = normal
      mean, logvar = X_.var('mean', (lat,)), X_.var('logvar', (lat,))
      enc, dec = [], []
      marker = O(T.atom('generated'), 'field')

      def encode(I, st, f, args, kw, node, enc=enc):
        enc.append(args[1] if len(args) > 1 else kw.get('x'))
        return I.call(I.lookup('generative.vae.EncoderOutput'), [mean, logvar], {}, st, node)

      def decode(I, st, f, args, kw, node, dec=dec):
        dec.append((args[0], args[1] if len(args) > 1 else kw.get('z')))
        return [(st, marker)]
      method_summary(I, 'generative.vae.Encoder', '__call__', encode)
      method_summary(I, 'generative.vae.Decoder', '__call__', decode)
      st = I.start()
      st, fs = one(I.call(I.lookup('generative.vae.FieldShape'), [], {'latlng_slices': C(7), 'time_slices': C(4)}, st, None), 'FieldShape')
      st.roots = st.roots + (fs,)
      I.sinks = [[]]
      what = '%d latents, %s' % (lat, 'drawn' if rep else 'mean only')
      where = VW + ' (WindFieldVAE)'
      st, m = one(I.call(I.lookup('generative.vae.WindFieldVAE'), [], {
          'num_latents': C(lat), 'reparameterize_latents': C(rep), 'field_shape': fs}, st, None), 'WindFieldVAE')
      st.roots = st.roots + (m,)
      st, _ = one(I.call_method(m, 'setup', [], {}, st, None), 'setup')
      key = O(T.atom('key', 'given'), 'key')
      outs = I.call_method(m, '__call__', [L.x, key], {}, st.fork(), None)
      r.check(bool(outs), 'model-evaluates', what, where, str(exceptions(I)[:1]))
      for s, v in outs:
        r.check(enc == [L.x], 'field-is-encoded', what, where, str(enc))
        ok = len(dec) == 1 and X_.is_t(dec[0][1]) and X_.of(dec[0][1])[0] == (lat,)
        r.check(ok, 'latents-are-decoded', what, where, str(dec))
        if not ok:
          continue
        if rep:
          r.check(drawn == [(I.vkey(key, s), (lat,))], 'noise-of-its-own-for-every-latent', what, where, str(drawn))
        for k in range(lat):
          mu, lv, z = X_.at(mean, k), X_.at(logvar, k), X_.at(dec[0][1], k)
          want = mu + (ex(lv * T.const(Fraction(1, 2))) * T.var('noise0[%d]' % k) if rep else T.ZERO)
          alt = mu + (T.power(ex(lv), Fraction(1, 2)) * T.var('noise0[%d]' % k) if rep else T.ZERO)
          r.check(same(s, z, want, alt), 'latents-from-mean-and-variance', '%s, latent %d' % (what, k), where, show(z))
        rec, eo = read(I, s, v, 'reconstruction'), read(I, s, v, 'encoder_output')
        r.check(rec == marker, 'returns-what-was-decoded', what, where, str(rec))
        r.check(eo is not None and (read(I, s, eo, 'mean'), read(I, s, eo, 'logvar')) == (mean, logvar), 'returns-what-was-encoded', what, where, str(eo))
      dec.clear()
      z = X_.var('z', (lat,))
      outs = I.call_method(m, 'generate', [z], {}, st.fork(), None)
      for s, v in outs:
        r.check(v == marker and [x[1] for x in dec] == [z], 'generates-from-the-latents', what, where, str(dec))
        f = read(I, s, dec[0][0], 'field_shape') if dec else None
        r.check(None if f is None else f == fs or I.vkey(f, s) == I.vkey(fs, s), 'generates-fields-of-the-shape-asked', what, where, str(f))
      r.took(I)


def losses(r, tier):
  for shape in ((3,), (2, 2)):
    L = Layers((1,))
    I, X_ = L.I, L.X
    a, b = X_.var('a', shape), X_.var('b', shape)
    ea, eb = X_.of(a)[1], X_.of(b)[1]
    st = I.start()
    for fn, want in (('kl_divergence', T.const(Fraction(-1, 2)) * total([T.ONE + y - x * x - ex(y) for x, y in zip(ea, eb)])),
                     ('mean_square_error', total([(x - y) * (x - y) for x, y in zip(ea, eb)]))):
      I.sinks = [[]]
      outs = I.call(I.lookup('generative.learn_wind_field_generator.' + fn), [a, b], {}, st.fork(), None)
      r.check(bool(outs), 'loss-evaluates', fn, LW, str(exceptions(I)[:1]))
      for s, v in outs:
        v = num(v) if numeric(v) else None
        r.check(None if v is None else same(s, v, want), 'loss-is-as-defined', '%s, shape %s' % (fn, shape), LW, show(v) if v is not None else '')
    r.took(I)


def schedules(r, tier):
  I = load()
  st = I.start()
  v = N(T.var('weight'), 'float')
  for s, x in I.call(I.lookup('generative.learn_wind_field_generator.constant_schedule'), [C(7)], {'value': v}, st.fork(), None):
    r.check(same(s, num(x), num(v)), 'constant-schedule-is-constant', 'epoch 7', LW, str(x))
  start, inc, cap = T.var('start', Fraction(1, 10 ** 6), 10 ** 6), T.var('increment', Fraction(1, 10 ** 6), 10 ** 6), T.var('cap', Fraction(1, 10 ** 6), 10 ** 9)
  for freq in (1, 2, 5) if tier == 'quick' else (1, 2, 3, 5, 10):
    for idx in range(0, 3 * freq + 1):
      I.sinks = [[]]
      s0 = st.fork()
      outs = I.call(I.lookup('generative.learn_wind_field_generator.step_schedule'), [C(idx)], {
          'start_value': N(start, 'float'), 'increment': N(inc, 'float'), 'frequency': C(freq), 'max_val': N(cap, 'float')}, s0, None)
      r.check(bool(outs), 'schedule-evaluates', 'epoch %d, every %d' % (idx, freq), LW, str(exceptions(I)[:1]))
      raw = start * T.power(inc, Fraction(idx // freq))
      for s, x in outs:
        x = num(x) if numeric(x) else None
        if x is None or not consistent(s):
          continue
        what = 'epoch %d, every %d' % (idx, freq)
        r.check(holds(s, '<=', x, cap), 'schedule-never-above-its-limit', what, LW, show(x))
        r.check(same(s, x, raw, cap, T.tmin([raw, cap], s.facts)), 'schedule-steps', what, LW, show(x))
        r.check(holds(s, '<=', x, raw), 'schedule-steps', what, LW, show(x))
  r.took(I)


def p62(r, tier):
  """The generative model of winds: what is encoded, drawn, decoded and minimised."""
  encoder(r, tier)
  latents(r, tier)
  losses(r, tier)
  schedules(r, tier)


# ------------------------------------------------------------------ P63
WF = 'env/wind_field.py'
WU = 'utils/wind.py'
# pressure from (Pa, inclusive), to (exclusive), u, v
LAYERS = ((0, 8000, 10, 0), (8000, 10000, 0, 10), (10000, 12000, -10, 0), (12000, 10 ** 6, 0, -10))


def static_winds(r, tier):
  from winds import Field
  for lo, hi, u, v in LAYERS:
    for top in (False, True):
      F = Field('SimpleStaticWindField', reset=False)
      I, st = F.I, F.st.fork()
      x, y, p, t = F.place(st, p=(0, 10 ** 6), t=(0, 10 ** 9))
      pn = num(p)
      st.assume('>=', pn, T.const(lo))
      st.assume('<', pn, T.const(hi))
      if top:       # the lowest pressure of the layer belongs to it
        st.assume('<=', pn, T.const(lo))
      what = 'at %d Pa' % lo if top else '%d to %d Pa' % (lo, hi)
      st.roots = st.roots + (x, y)
      outs = F.call('get_forecast', [x, y, p, t], st)
      outs = [(s, w) for s, w in outs if consistent(s)]
      r.check(bool(outs), 'static-wind-of-the-layer', what, WF, str(F.excs[:1]))
      for s, w in outs:
        for c, want in (('u', u), ('v', v)):
          g = readn(I, s, w, c + '.mps')
          r.check(None if g is None else same(s, g, T.const(want)), 'static-wind-of-the-layer', '%s, %s' % (what, c), WF, show(g) if g is not None else '')
      r.took(I)
  # columns are the forecasts of their levels
  for n in (0, 1, 2, 3) + ((6,) if tier != 'quick' else ()):
    F = Field('SimpleStaticWindField', reset=False)
    I, st = F.I, F.st.fork()
    x, y, _, t = F.place(st)
    asked = []

    def fc(I, st, f, args, kw, node, asked=asked):
      d = dict(zip(('x', 'y', 'pressure', 'elapsed_time'), args[1:]))
      d.update({k.replace('unused_', ''): v for k, v in kw.items()})
      k = tuple(I.vkey(d[m], st, 6) for m in ('x', 'y', 'pressure', 'elapsed_time'))
      return I.call(I.lookup('env.wind_field.WindVector'), [unit(I, st, 'Velocity', T.poly(T.atom('fn', 'fc.' + c, k, rng=T.Iv()))) for c in 'uv'],
                    {}, st, node)
    method_summary(I, 'env.wind_field.SimpleStaticWindField', 'get_forecast', fc)
    ps = [N(T.var('level%d' % k, 1000, 100000), 'float') for k in range(n)]
    lst = R(st.alloc(Cell('list', None, list(ps))))
    st.roots = st.roots + (x, y, lst)
    outs = F.call('get_forecast_column', [x, y, lst, t], st)
    what = '%d levels' % n
    r.check(bool(outs), 'column-answered', what, WF, str(F.excs[:1]))
    for s, col in outs:
      got = listv(s, col) if isinstance(col, R) else list(col.items) if isinstance(col, Tup) else None
      r.check(None if got is None else len(got) == n, 'one-wind-per-level', what, WF, str(col))
      for k, w in enumerate(got or ()):
        key = tuple(I.vkey(v, s, 6) for v in (x, y, ps[k], t)) if k < n else None
        for c in 'uv':
          g = readn(I, s, w, c + '.mps')
          r.check(None if g is None or key is None else same(s, g, T.poly(T.atom('fn', 'fc.' + c, key, rng=T.Iv()))), 'column-is-its-levels',
                  '%s, level %d, %s' % (what, k, c), WF, show(g) if g is not None else '')
    r.took(I)


def vectors(r):
  I = load()
  st = I.start()
  names = ('a', 'b', 'c', 'd')
  vs = [T.var(n, -1000, 1000) for n in names]

  def vec(st, u, v):
    return one(I.call(I.lookup('env.wind_field.WindVector'), [unit(I, st, 'Velocity', u), unit(I, st, 'Velocity', v)], {}, st, None))
  st, w1 = vec(st, vs[0], vs[1])
  st, w2 = vec(st, vs[2], vs[3])
  st.roots = st.roots + (w1, w2)
  I.sinks = [[]]
  outs = I.call_method(w1, 'add', [w2], {}, st.fork(), None)
  r.check(bool(outs), 'winds-add', 'sum', WF, str(exceptions(I)[:1]))
  for s, w in outs:
    for c, want in (('u', vs[0] + vs[2]), ('v', vs[1] + vs[3])):
      g = readn(I, s, w, c + '.mps')
      r.check(None if g is None else same(s, g, want), 'winds-add', c, WF, show(g) if g is not None else '')
    for w0, old in ((w1, vs[:2]), (w2, vs[2:])):
      for c, want in zip('uv', old):
        r.check(same(s, readn(I, s, w0, c + '.mps'), want), 'adding-changes-no-operand', c, WF)
  for bad, what in ((C(1.0), 'a number'), (NONE, 'None'), (Tup((C(1.0), C(2.0))), 'a tuple')):
    I.sinks = [[]]
    outs = I.call_method(w1, 'add', [bad], {}, st.fork(), None)
    r.check(not outs, 'only-winds-add', what, WF, str(outs[:1]))
  r.took(I)


def speeds(r, tier):
  for shape in ((1, 2, 1, 2, 2), (2, 1, 2, 1, 2)) + (((2, 2, 2, 3, 2),) if tier != 'quick' else ()):
    L = Layers((1,))
    I, X_ = L.I, L.X
    w = X_.var('w', shape)
    st = I.start()
    I.sinks = [[]]
    what = 'field of shape %s' % (shape,)
    speed = lambda i: T.power(X_.at(w, *i, 0) * X_.at(w, *i, 0) + X_.at(w, *i, 1) * X_.at(w, *i, 1), Fraction(1, 2))
    pts = list(itertools.product(*map(range, shape[:4])))
    outs = I.call(I.lookup('utils.wind.wind_field_speeds'), [w], {}, st.fork(), None)
    r.check(bool(outs), 'speeds-computed', what, WU, str(exceptions(I)[:1]))
    for s, v in outs:
      ok = X_.is_t(v) and X_.of(v)[0] == shape[:4]
      r.check(ok, 'one-speed-per-point', what, WU, str(X_.of(v)[0] if X_.is_t(v) else v))
      if ok:
        for i in pts:
          r.check(same(s, X_.at(v, *i), speed(i)), 'speed-is-the-length-of-the-wind', '%s, point %s' % (what, i), WU, show(X_.at(v, *i)))
    outs = I.call(I.lookup('utils.wind.mean_speed_in_wind_field'), [w], {}, st.fork(), None)
    for s, v in outs:
      g = num(v) if numeric(v) else None
      r.check(None if g is None else same(s, g, total([speed(i) for i in pts]) * T.const(Fraction(1, len(pts)))), 'mean-over-all-points', what, WU,
              show(g) if g is not None else str(v))
    r.took(I)


def station_keeping(r):
  """Winds keep station exactly when the origin lies in the hull of the winds."""
  L = Layers((1,))
  I, X_ = L.I, L.X
  S = I.stubs
  col = X_.var('wind', (5, 2))
  hull_rows = (0, 2, 3)
  st = I.start()

  def rows(st, v):
    if X_.is_t(v):
      s, els = X_.of(v)
      return [tuple(els[k * s[1]:(k + 1) * s[1]]) for k in range(s[0])] if len(s) == 2 else None
    xs = listv(st, v) if isinstance(v, R) else list(v.items) if isinstance(v, Tup) else None
    if xs is None or not all(X_.is_t(x) for x in xs):
      return None
    return [tuple(X_.of(x)[1]) for x in xs]
  all_rows = [tuple(X_.at(col, k, c) for c in (0, 1)) for k in range(5)]

  def hull(I, st, name, args, kw, node):
    used.append(1)
    pts = rows(st, args[0])
    if pts != all_rows:
      raise AnalysisError('the hull of other points')
    return [(st, O(T.atom('hull', len(pts)), 'hull'))]

  def attr(I, st, ob, name, node, prev=S['$attr']):
    if isinstance(ob, O) and ob.typ == 'hull':
      if name == 'vertices':
        return [(st, R(st.alloc(Cell('list', None, [C(k) for k in hull_rows]))))]
      if name == 'points':
        return [(st, col)]
      raise AnalysisError('hull.' + name)
    return prev(I, st, ob, name, node)
  S['$attr'] = attr
  tri, asked, used = [], [], []

  def delaunay(I, st, name, args, kw, node):
    used.append(1)
    tri.append(rows(st, args[0]))
    return [(st, O(T.atom('delaunay', len(tri) - 1), 'delaunay'))]

  def method(I, st, ob, name, args, kw, node):
    if name != 'find_simplex':
      raise AnalysisError('Delaunay.' + name)
    v = args[0] if args else kw['xi']
    asked.append((ob, [num(x) for x in listv(st, v)] if isinstance(v, R) and st.cell(v.addr).kind == 'list' else origin(st, v)))
    return [(st, N(found[0], 'int'))]

  def origin(st, v):
    if X_.is_t(v):
      return list(X_.of(v)[1])
    return None

  def zeros(I, st, name, args, kw, node):
    return [(st, X_.new(X_.dims(st, args[0]), [T.ZERO] * 2))]
  S['numpy.zeros'] = zeros
  S['scipy.spatial.ConvexHull'] = hull
  S['scipy.spatial.Delaunay'] = delaunay
  S['$o.delaunay'] = method
  found = []
  hullpts = [all_rows[k] for k in hull_rows]
  for inside in (True, False):
    found[:] = [T.var('simplex', 0, 10, isint=True) if inside else T.const(-1)]
    tri.clear()
    used.clear()
    asked.clear()
    I.sinks = [[]]
    what = 'calm %s the hull' % ('in' if inside else 'outside')
    outs = I.call(I.lookup('utils.wind.is_station_keeping_winds'), [col], {}, st.fork(), None)
    r.check(bool(outs), 'station-keeping-decided', what, WU, str(exceptions(I)[:1]))
    for ob, at in asked:
      pts = tri[ob.a.args[0]]
      r.check(None if pts is None else set(hullpts) <= set(pts) <= set(all_rows), 'hull-of-the-winds', what, WU, str(pts)[:200])
      r.check(None if at is None else at == [T.ZERO, T.ZERO], 'asks-for-calm', what, WU, str(at))
    r.check(True if asked else False if used else None, 'hull-of-the-winds', what, WU)
    if not used:
      continue
    for s, v in outs:
      for s1, b in I.truth(v, s, None):
        r.check(b is inside, 'keeps-station-iff-calm-is-in-the-hull', what, WU)
  r.took(I)


def p63(r, tier):
  """Winds are what their fields and utilities say."""
  static_winds(r, tier)
  vectors(r)
  speeds(r, tier)
  station_keeping(r)
