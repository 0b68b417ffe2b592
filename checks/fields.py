"""Where winds come from: generated fields, noise, static winds and training data (P53-P56)."""
import math

from common import *
from agents import is_obj
from tensors import Tensors
from winds import Field, key
from runs import T, raises

VAE = 'generative/vae.py'
VA = 'generative.vae.'


def field_shape(I, st, **kw):
  return one(I.call(I.lookup(VA + 'FieldShape'), [], kw, st, None), 'FieldShape')


def shape_counts(r):
  """The counts of a field shape, for every shape."""
  I = load()
  st = I.start()
  n, w, p, t = (T.var(k, 1, 10 ** 4, isint=True) for k in ('points', 'width', 'levels', 'times'))
  mx = lambda v: N(v, 'int')
  st, fs = field_shape(I, st, latlng_slices=mx(n), flow_field_width=mx(w), pressure_slices=mx(p), time_slices=mx(t))
  st.roots = st.roots + (fs,)

  def call(m):
    return one(I.call_method(fs, m, [], {}, st.fork(), None), m)
  for m, want in (('direction_grid_shape', (n, n, p, t)), ('grid_shape', (n, n, p, t, T.const(2)))):
    s, v = call(m)
    got = [num(x) for x in v.items] if isinstance(v, Tup) else None
    r.check(got is not None and len(got) == len(want) and all(same(s, a, b) for a, b in zip(got, want)), 'grid-shape', m, VAE, str(v))
  for m, want in (('num_grid_points', n * n * p * t), ('output_length', n * n * p * t * T.const(2)), ('num_flow_fields', p * t),
                  ('num_flow_field_units', w * w * p * t)):
    s, v = call(m)
    r.check(same(s, num(v), want), 'grid-counts', m, VAE, '%s, expected %s' % (v, show(want)))
  r.took(I)


class Decoding:
  """A decoder of a small field shape applied to arbitrary latents; layers and interpolation are arbitrary functions."""

  def __init__(self, n, w, p, t):
    I = self.I = load()
    self.X = X_ = Tensors(I)
    st = I.start()
    self.dims = n, w, p, t
    self.resized = []
    self.layers = []
    S = I.stubs

    def dense(I, st, name, args, kw, node):
      f = args[0] if args else kw['features']
      return [(st, O(T.atom('dense', X_.dim(f)), 'layer'))]

    def apply(I, st, ob, args, kw, node):
      k = len(self.layers)
      self.layers.append((ob.a.args[0], args[0]))
      return [(st, X_.var('layer%d' % k, (ob.a.args[0],)))]

    def resize(I, st, name, args, kw, node):
      d = dict(zip(('image', 'shape', 'method'), args))
      d.update(kw)
      shape = X_.dims(st, d['shape'])
      src = X_.of(d['image'])[0]
      self.resized.append((src, tuple(shape), d['image']))
      if len(src) != 3 or len(shape) != 3:
        raise AnalysisError('resize of %s to %s' % (src, shape))
      if shape[2] == src[2]:        # every field on its own
        return [(st, X_.build(shape, lambda i: T.var('flow[%d](%d,%d)' % (i[2], i[0], i[1]))))]
      return [(st, X_.build(shape, lambda i: T.var('mixed%s' % (i,))))]
    S['flax.linen.Dense'] = dense
    S['$call.layer'] = apply
    for f in ('jax.image.resize',):
      S[f] = resize
    self.z = X_.var('z', (4,))
    st, fs = field_shape(I, st, latlng_slices=C(n), flow_field_width=C(w), pressure_slices=C(p), time_slices=C(t))
    st.roots = st.roots + (fs,)
    I.sinks = [[]]
    st, dec = one(I.call(I.lookup(VA + 'Decoder'), [], {'field_shape': fs, 'num_hidden_layers': C(2)}, st, None), 'Decoder')
    self.outs = I.call_method(dec, '__call__', [self.z], {}, st, None)


def p53(r, tier):
  """Generated winds: incompressible, each level and time from its own flow field."""
  shape_counts(r)
  for dims in ((3, 2, 2, 2), (4, 3, 3, 2)) + (((5, 3, 2, 4), (6, 2, 4, 3)) if tier != 'quick' else ()):
    n, w, p, t = dims
    D = Decoding(*dims)
    I, X_ = D.I, D.X
    what = '%dx%d points, %d levels, %d times' % (n, n, p, t)
    where = VAE + ' (Decoder)'
    r.check(len(D.outs) == 1 and not exceptions(I), 'field-generated', what, where, str(exceptions(I)[:1]))
    for s, v in D.outs:
      ok = X_.is_t(v) and X_.of(v)[0] == (n, n, p, t, 2)
      r.check(ok, 'field-has-the-grid-shape', what, where, str(X_.of(v)[0] if X_.is_t(v) else v))
      if not ok:
        continue
      used = {}
      for k in range(p):
        for l in range(t):
          ids = set()
          for i in range(n):
            for j in range(n):
              for c in (0, 1):
                ids |= {str(a.args[0]).split(']')[0] for a in T._atoms(X_.at(v, i, j, k, l, c))}
          used[(k, l)] = ids
          u = lambda i, j: X_.at(v, i, j, k, l, 0)
          q = lambda i, j: X_.at(v, i, j, k, l, 1)
          for i in range(1, n - 1):
            for j in range(1, n - 1):
              div = (u(i, j + 1) - u(i, j - 1)) + (q(i + 1, j) - q(i - 1, j))
              r.check(div.const == 0, 'incompressible', '%s, point %d,%d level %d time %d' % (what, i, j, k, l), where, show(div))
          for i in range(n):
            for j in range(n):
              r.check(u(i, j).const is None and q(i, j).const is None, 'winds-vary', '%s, point %d,%d level %d time %d' % (
                  what, i, j, k, l), where, '%s %s' % (show(u(i, j)), show(q(i, j))))
      flat = [x for k in sorted(used) for x in used[k]]
      r.check(all(len(x) == 1 for x in used.values()) and len(set(flat)) == p * t, 'own-flow-field', what, where, str(used)[:200])
    r.check(any(d == w * w * p * t for d, _ in D.layers), 'flow-fields-from-the-last-layer', what, where, str([d for d, _ in D.layers]))
    r.took(I)


# ------------------------------------------------------------------ P54
NOISE = 'env/simplex_wind_noise.py'
# weight, x, y, pressure and time scales (km, km, Pa, hours)
TABLE = {'u': ((0.1445, 702.269, 2116.987, 2587.802, 245.0), (0.2766, 1483.570, 752.124, 646.208, 16.39),
               (0.2627, 276.810, 147.040, 587.702, 3.836), (0.2137, 10214.525, 1512.216, 965.629, 41.780),
               (0.1025, 181.286, 420.942, 8500.0, 245.0)),
         'v': ((0.2716, 1974.228, 2028.814, 713.697, 26.435), (0.2684, 699.738, 541.845, 632.116, 9.530),
               (0.2348, 217.750, 196.522, 686.825, 3.546), (0.1186, 47.500, 43.048, 66.553, 8.424),
               (0.1066, 3663.291, 232.023, 7499.741, 225.0))}


class Noise:
  """The wind noise, with each simplex generator an arbitrary function into [-1, 1]."""

  def __init__(self, reset=True):
    I = self.I = load()
    I.stubs = dict(I.stubs)
    st = I.start()
    self.gens, self.asked = [], []

    def gen(I, st, name, args, kw, node):
      seed = args[0] if args else kw.get('seed')
      self.gens.append((seed, I.vkey(seed, st)))
      return [(st, O(T.atom('simplex', len(self.gens) - 1), 'simplex'))]

    def method(I, st, ob, name, args, kw, node):
      if name != 'noise4d':
        raise AnalysisError('simplex noise by ' + name)
      d = dict(zip(('x', 'y', 'z', 'w'), args))
      d.update(kw)
      at = tuple(num(d[k]) for k in 'xyzw')
      a = T.atom('noise4d', ob.a.args[0], at, rng=T.Iv(Fraction(-1), Fraction(1)))
      self.asked.append((ob.a.args[0], at))
      return [(st, N(T.poly(a), 'float'))]
    I.stubs['opensimplex.OpenSimplex'] = gen
    I.stubs['$o.simplex'] = method
    st, self.f = one(I.call(I.lookup('env.wind_field.SimplexWindNoise'), [], {}, st, None), 'SimplexWindNoise')
    st.roots = st.roots + (self.f,)
    I.sinks = [[]]
    if reset:
      st, _ = one(I.call_method(self.f, 'reset_wind_noise', [key('noise'), dt_var('start')], {}, st, None), 'reset_wind_noise')
    self.st = st

  def ask(self, st, args):
    self.I.sinks = [[]]
    return self.I.call_method(self.f, 'get_wind_noise', args, {}, st.fork(), None)


def p54(r, tier):
  """Wind noise is a normalised weighted sum of simplex harmonics over place and time."""
  Z = Noise()
  I = Z.I
  st = Z.st.fork()
  x, y, p, t = T.var('x'), T.var('y'), T.var('p', 1000, 100000), T.var('t', 0, 10 ** 7)
  args = [unit(I, st, 'Distance', x), unit(I, st, 'Distance', y), N(p), TD(t)]
  st.roots = st.roots + tuple(args)
  outs = Z.ask(st, args)
  r.check(bool(outs) and not exceptions(I), 'noise-is-defined', 'everywhere', NOISE, str(exceptions(I)[:1]))
  for s, v in outs:
    for comp in 'uv':
      w = TABLE[comp]
      got = readn(I, s, v, comp + '.meters_per_second')
      if got is None or lossy_term(got):
        r.check(None, 'normalised-weighted-sum', comp, NOISE, show(got))
        continue
      scale = Fraction(math.sqrt(1.02 / 0.0569) / math.sqrt(sum(h[0] ** 2 for h in w)))
      used = sorted((a for a in T._atoms(got) if a.op == 'noise4d'), key=str)
      r.check(len(used) == 5 and len({a.args[0] for a in used}) == 5, 'five-harmonics-of-their-own', comp, NOISE, '%d harmonics' % len(used))
      want, pairs = T.ZERO, []
      left = list(w)
      for a in used:
        h = next((h for h in left if placed(a.args[1], h, (x, y, p, t))), None)
        r.check(h is not None, 'harmonic-of-the-table', '%s, harmonic %d' % (comp, a.args[0]), NOISE, [show(q) for q in a.args[1]].__str__())
        if h is None:
          continue
        left.remove(h)
        want = want + T.poly(a) * T.const(Fraction(h[0]) * scale)
        for q, c, k in zip(a.args[1], (x, y, p, t), range(4)):
          off = offset(q, c)
          lo, hi = s.facts.decide('>=', off, T.const(-1)), s.facts.decide('<=', off, T.const(1))
          iv = s.facts.iv(off)
          tight = len(list(T._atoms(off))) <= 1 and (iv.lo < -1 - 1e-6 or iv.hi > 1 + 1e-6)   # one draw, so every value of the range occurs
          r.check(True if lo and hi else False if tight else None if None in (lo, hi) else False, 'offset-within-one-cell', '%s, harmonic %d, axis %d' % (
              comp, a.args[0], k), NOISE, show(off))
      r.check(T.close(got, want) if not left else False, 'normalised-weighted-sum', comp, NOISE, '%s, expected %s' % (show(got), show(want)))
  seeds = [k for _, k in Z.gens]
  r.check(len(seeds) == 10 and len(set(seeds)) == 10, 'generators-seeded-apart', 'reset', NOISE, '%d generators, %d seeds' % (
      len(seeds), len(set(seeds))))
  # equal queries, equal answers; nothing is remembered
  st2 = outs[0][0].fork()
  Z.asked.clear()
  again = Z.ask(st2, args)
  forked = len(outs) != 1 or len(again) != 1
  r.check(None if forked else all(same(again[0][0], readn(I, again[0][0], again[0][1], c + '.meters_per_second'), readn(
      I, outs[0][0], outs[0][1], c + '.meters_per_second')) for c in 'uv'), 'noise-is-a-function', 'second query', NOISE)
  # a reset replaces everything
  before = len(Z.gens)
  s3, _ = one(I.call_method(Z.f, 'reset_wind_noise', [key('other'), dt_var('start')], {}, st2, None))
  for s, v in Z.ask(s3, args):
    for comp in 'uv':
      got = readn(I, s, v, comp + '.meters_per_second')
      if got is None or lossy_term(got):
        r.check(None, 'reset-replaces-the-noise', comp, NOISE, show(got))
        continue
      used = [a for a in T._atoms(got) if a.op == 'noise4d']
      r.check(bool(used) and all(a.args[0] >= before for a in used), 'reset-replaces-the-noise', comp, NOISE, str([a.args[0] for a in used]))
      r.check(not any('noise' in str(q) and 'other' not in str(q) for a in used for q in a.args[1]), 'reset-replaces-the-offsets', comp, NOISE)
  r.took(I)
  N2 = Noise(reset=False)
  outs = N2.ask(N2.st, args)
  r.check(not outs and raises(N2.I, 'ValueError'), 'rejected-before-reset', 'get_wind_noise', NOISE, str([v for _, v in outs]))
  for n in ('', 'w', 'U', 'uv'):
    N2.I.sinks = [[]]
    o = N2.I.call(N2.I.lookup('env.simplex_wind_noise.NoisyWindComponent'), [C(n)], {}, N2.st.fork(), None)
    r.check(not o and raises(N2.I, 'RuntimeError'), 'unknown-component-rejected', repr(n), NOISE)
  r.took(N2.I)


def coeff(q, c):
  """The coefficient of the variable c in q."""
  k, = c.terms
  return q.terms.get(k, Fraction(0))


def offset(q, c):
  return q - c * T.const(coeff(q, c))


def placed(at, h, place):
  x, y, p, t = place
  want = (1 / (1000 * h[1]), 1 / (1000 * h[2]), 1 / h[3], 1 / (3600 * h[4]))
  for q, c, k in zip(at, place, want):
    if abs(float(coeff(q, c)) - k) > 1e-9 * k or any(coeff(q, o) for o in place if o is not c):
      return False
  return True
