"""Arrays of known shape whose every element is a term, for the analysis of field generation."""
import itertools

from common import *


class Tensors:
  """Installs tensor operations. A tensor is an opaque value; its shape and elements are in a table."""

  def __init__(self, I):
    self.I = I
    I.stubs = S = dict(I.stubs)
    self.tab = {}
    self.old_bin = S['$binop']
    self.old_un = S['$arr.unary']
    self.old_attr = S['$attr']
    S['$binop'] = self.binop
    S['$arr.unary'] = self.unary
    S['$attr'] = self.attr
    S['$o.tensor'] = self.method
    S['$get.tensor'] = self.get
    for p in ('jax.numpy.', 'numpy.'):
      for n in ('roll', 'stack', 'concatenate', 'reshape', 'transpose', 'swapaxes', 'moveaxis', 'flip', 'asarray', 'array', 'negative',
                'subtract', 'add', 'multiply', 'divide', 'expand_dims', 'squeeze', 'ravel', 'mean', 'sum', 'sqrt', 'square', 'hypot',
                'diff', 'pad', 'maximum', 'exp', 'log', 'tanh', 'sin', 'cos', 'sign', 'abs', 'absolute'):
        self.wrap(p + n, n)
    for n in ('relu',):
      for p in ('jax.nn.', 'flax.linen.'):
        self.wrap(p + n, 'relu')
    for p in ('jax.nn.', 'flax.linen.'):
      self.wrap(p + 'tanh', 'tanh')
    for n in ('softmax',):
      for p in ('jax.nn.', 'flax.linen.'):
        self.wrap(p + n, 'softmax')

  def wrap(self, full, n):
    old = self.I.stubs.get(full)

    def h(I, st, name, args, kw, node):
      seq = listv(st, args[0]) if args and isinstance(args[0], R) else args[0].items if args and isinstance(args[0], Tup) else None
      if any(self.is_t(a) for a in list(args) + list(kw.values())) or seq and any(self.is_t(x) for x in seq):
        return self.fn(I, st, n, list(args), dict(kw), node, seq)
      if old is None:
        pre = next((f for p, f in I.stubs['$prefix'] if name.startswith(p)), None)
        if pre is None:
          raise AnalysisError('no model of ' + name)
        return pre(I, st, name, args, kw, node)
      return old(I, st, name, args, kw, node)
    self.I.stubs[full] = h

  # -- values
  def is_t(self, v):
    return isinstance(v, O) and v.typ == 'tensor'

  def new(self, shape, els):
    shape = tuple(shape)
    els = tuple(els)
    n = 1
    for d in shape:
      n *= d
    assert n == len(els), (shape, len(els))
    k = len(self.tab)
    self.tab[k] = (shape, els)
    return O(T.atom('tensor', k), 'tensor')

  def var(self, name, shape):
    return self.new(shape, [T.var('%s%s' % (name, list(i))) for i in itertools.product(*map(range, shape))])

  def of(self, v):
    return self.tab[v.a.args[0]]

  def at(self, v, *ix):
    shape, els = self.of(v)
    k = 0
    for i, d in zip(ix, shape):
      k = k * d + i % d
    return els[k]

  def dim(self, v, what='a size'):
    p = v if isinstance(v, int) else num(v) if numeric(v) else None
    if isinstance(p, int):
      return p
    if p is None or p.const is None or p.const.denominator != 1:
      raise AnalysisError('%s is not known: %s' % (what, v))
    return int(p.const)

  def dims(self, st, v):
    if isinstance(v, Tup):
      return [self.dim(x) for x in v.items]
    if isinstance(v, R):
      return [self.dim(x) for x in listv(st, v)]
    return [self.dim(v)]

  def build(self, shape, f):
    return self.new(shape, [f(i) for i in itertools.product(*map(range, shape))])

  # -- operations
  def ew(self, f, a, b):
    """Elementwise with broadcasting; a and b are tensors or terms."""
    sa, sb = (self.of(x)[0] if self.is_t(x) else () for x in (a, b))
    n = max(len(sa), len(sb))
    pa, pb = (1,) * (n - len(sa)) + sa, (1,) * (n - len(sb)) + sb
    shape = []
    for x, y in zip(pa, pb):
      if x != y and 1 not in (x, y):
        raise AnalysisError('shapes %s and %s' % (sa, sb))
      shape.append(max(x, y))

    def val(v, s, p, i):
      if not self.is_t(v):
        return v
      return self.at(v, *[0 if d == 1 else k for k, d in zip(i, p)][n - len(s):])
    return self.build(shape, lambda i: f(val(a, sa, pa, i), val(b, sb, pb, i)))

  def operand(self, v):
    if self.is_t(v):
      return v
    p = num(v) if numeric(v) else None
    if p is None:
      raise AnalysisError('a tensor is combined with %s' % (v,))
    return p

  OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': T.div,
         '**': lambda a, b: T.power(a, b.const)}

  def binop(self, I, op, a, b, st, node, lab):
    if self.is_t(a) or self.is_t(b):
      if op not in self.OPS:
        raise AnalysisError('tensor operation ' + op)
      return [(st, self.ew(self.OPS[op], self.operand(a), self.operand(b)))]
    return self.old_bin(I, op, a, b, st, node, lab)

  def unary(self, I, st, op, v, node):
    if self.is_t(v) and op == '-':
      s, els = self.of(v)
      return [(st, self.new(s, [-x for x in els]))]
    return self.old_un(I, st, op, v, node)

  def attr(self, I, st, ob, name, node):
    if self.is_t(ob):
      s, els = self.of(ob)
      if name == 'shape':
        return [(st, Tup(tuple(C(d) for d in s)))]
      if name == 'ndim':
        return [(st, C(len(s)))]
      if name == 'size':
        return [(st, C(len(els)))]
      if name == 'T':
        return [(st, self.transpose(ob, range(len(s))[::-1]))]
    return self.old_attr(I, st, ob, name, node)

  def method(self, I, st, ob, name, args, kw, node):
    if name in ('astype', 'copy', 'block_until_ready'):
      return [(st, ob)]
    if name == 'flatten':
      name = 'ravel'
    if name == 'reshape' and len(args) > 1:
      args = [Tup(tuple(args))]
    if name == 'transpose' and len(args) > 1:
      args = [Tup(tuple(args))]
    return self.fn(I, st, name, [ob] + list(args), dict(kw), node, None)

  def transpose(self, v, axes):
    axes = list(axes)
    s, _ = self.of(v)
    inv = {a: k for k, a in enumerate(axes)}
    return self.build([s[a] for a in axes], lambda i: self.at(v, *[i[inv[a]] for a in range(len(s))]))

  def fn(self, I, st, n, args, kw, node, seq):
    arg = lambda i, k, d=None: args[i] if len(args) > i else kw.get(k, d)
    if n in ('add', 'subtract', 'multiply', 'divide'):
      op = {'add': '+', 'subtract': '-', 'multiply': '*', 'divide': '/'}[n]
      return self.binop(I, op, args[0], args[1], st, node, E0)
    if n in ('stack', 'concatenate'):
      ax = self.dim(arg(1, 'axis', C(0)))
      shapes = [self.of(x)[0] for x in seq]
      if n == 'stack':
        if len(set(shapes)) != 1:
          raise AnalysisError('stack of shapes %s' % shapes)
        s = list(shapes[0])
        ax %= len(s) + 1
        return [(st, self.build(s[:ax] + [len(seq)] + s[ax:], lambda i: self.at(seq[i[ax]], *(i[:ax] + i[ax + 1:]))))]
      ax %= len(shapes[0])
      s = list(shapes[0])
      s[ax] = sum(x[ax] for x in shapes)

      def pick(i):
        k = i[ax]
        for v, x in zip(seq, shapes):
          if k < x[ax]:
            return self.at(v, *(i[:ax] + (k,) + i[ax + 1:]))
          k -= x[ax]
      return [(st, self.build(s, pick))]
    if n == 'maximum':
      z = T.ZERO
      a, b = (self.operand(x) for x in args[:2])
      if not self.is_t(a):
        a, b = b, a
      if self.is_t(b) or b != z:
        raise AnalysisError('maximum of tensors')
      return self.fn(I, st, 'relu', [a], {}, node, None)
    v = args[0]
    s, els = self.of(v)
    if n in ('exp', 'log', 'tanh', 'sin', 'cos'):
      return [(st, self.new(s, [T.poly(T.atom(n, e)) for e in els]))]
    if n in ('sign', 'abs', 'absolute'):
      def signed(e):
        k = 1 if holds(st, '>', e, T.ZERO) else -1 if holds(st, '<', e, T.ZERO) else None
        if n == 'sign':
          return T.const(k) if k else T.poly(T.atom('sign', e))
        return e if k == 1 else -e if k == -1 else T.absval(e)
      return [(st, self.new(s, [signed(e) for e in els]))]
    if n in ('asarray', 'array'):
      return [(st, v)]
    if n == 'negative':
      return self.unary(I, st, '-', v, node)
    if n == 'relu':
      return [(st, self.new(s, [T.poly(T.atom('relu', e)) for e in els]))]
    if n == 'softmax':
      ax = self.dim(arg(1, 'axis', C(-1))) % len(s)
      return [(st, self.build(s, lambda i: T.poly(T.atom('softmax', self.at(v, *i), tuple(
          self.at(v, *(i[:ax] + (k,) + i[ax + 1:])) for k in range(s[ax]))))))]
    if n in ('sqrt', 'square'):
      return [(st, self.new(s, [T.power(e, Fraction(1, 2)) if n == 'sqrt' else e * e for e in els]))]
    if n == 'roll':
      sh, ax = self.dim(arg(1, 'shift')), arg(2, 'axis')
      if ax is None:
        k = len(els)
        return [(st, self.new(s, [els[(i - sh) % k] for i in range(k)]))]
      ax = self.dim(ax) % len(s)
      return [(st, self.build(s, lambda i: self.at(v, *(i[:ax] + ((i[ax] - sh) % s[ax],) + i[ax + 1:]))))]
    if n == 'flip':
      ax = arg(1, 'axis')
      axes = set(range(len(s))) if ax is None else {a % len(s) for a in self.dims(st, ax)}
      return [(st, self.build(s, lambda i: self.at(v, *[d - 1 - k if a in axes else k for a, (k, d) in enumerate(zip(i, s))])))]
    if n in ('reshape', 'ravel'):
      d = [-1] if n == 'ravel' else self.dims(st, arg(1, 'shape', kw.get('newshape')))
      if -1 in d:
        k = 1
        for x in d:
          k *= x if x != -1 else 1
        d = [len(els) // k if x == -1 else x for x in d]
      k = 1
      for x in d:
        k *= x
      if k != len(els):
        return I.throw(st, 'ValueError', node)
      return [(st, self.new(d, els))]
    if n == 'transpose':
      ax = arg(1, 'axes')
      return [(st, self.transpose(v, range(len(s))[::-1] if ax is None else [a % len(s) for a in self.dims(st, ax)]))]
    if n == 'swapaxes':
      a, b = self.dim(args[1]) % len(s), self.dim(args[2]) % len(s)
      ax = list(range(len(s)))
      ax[a], ax[b] = b, a
      return [(st, self.transpose(v, ax))]
    if n == 'moveaxis':
      a, b = self.dim(args[1]) % len(s), self.dim(args[2]) % len(s)
      ax = [x for x in range(len(s)) if x != a]
      ax.insert(b, a)
      return [(st, self.transpose(v, ax))]
    if n == 'expand_dims':
      ax = self.dim(arg(1, 'axis')) % (len(s) + 1)
      return [(st, self.new(s[:ax] + (1,) + s[ax:], els))]
    if n == 'squeeze':
      ax = arg(1, 'axis')
      axes = [i for i, d in enumerate(s) if d == 1] if ax is None else [a % len(s) for a in self.dims(st, ax)]
      return [(st, self.new([d for i, d in enumerate(s) if i not in axes], els))]
    if n in ('mean', 'sum'):
      ax = arg(1, 'axis')
      axes = list(range(len(s))) if ax is None or is_none(ax) else [a % len(s) for a in self.dims(st, ax)]
      out = [i for i in range(len(s)) if i not in axes]
      cnt = 1
      for a in axes:
        cnt *= s[a]

      def total(i):
        t = T.ZERO
        full = dict(zip(out, i))
        for j in itertools.product(*[range(s[a]) for a in axes]):
          full.update(zip(axes, j))
          t = t + self.at(v, *[full[a] for a in range(len(s))])
        return t * T.const(Fraction(1, cnt)) if n == 'mean' else t
      r = self.build([s[i] for i in out], total)
      if not out:
        return [(st, N(self.of(r)[1][0], 'float'))]
      return [(st, r)]
    if n == 'diff':
      ax = self.dim(arg(2, 'axis', C(-1))) % len(s)
      d = list(s)
      d[ax] -= 1
      return [(st, self.build(d, lambda i: self.at(v, *(i[:ax] + (i[ax] + 1,) + i[ax + 1:])) - self.at(v, *i)))]
    raise AnalysisError('tensor function ' + n)

  def get(self, I, st, ob, ix, node):
    s, _ = self.of(ob)
    items = list(ix.items) if isinstance(ix, Tup) else [ix]
    if any(isinstance(x, C) and x.val is Ellipsis for x in items):
      k = next(i for i, x in enumerate(items) if isinstance(x, C) and x.val is Ellipsis)
      full = Sl(NONE, NONE, NONE)
      n = len(s) - len([x for x in items if not is_none(x)]) + 1
      items[k:k + 1] = [full] * n
    sel, shape, ax = [], [], 0
    for x in items:
      if is_none(x):
        shape.append(1)
        sel.append(None)
        continue
      if ax >= len(s):
        return I.throw(st, 'IndexError', node)
      if isinstance(x, Sl):
        b = [None if is_none(y) else self.dim(y) for y in (x.lo, x.hi, x.step)]
        rng = list(range(s[ax])[slice(*b)])
        shape.append(len(rng))
        sel.append(rng)
      else:
        i = self.dim(x, 'an index')
        if not -s[ax] <= i < s[ax]:
          return I.throw(st, 'IndexError', node)
        sel.append(i % s[ax])
      ax += 1
    for d in s[ax:]:
      sel.append(list(range(d)))
      shape.append(d)

    def pick(i):
      i = list(i)
      out = []
      for x in sel:
        if x is None:
          i.pop(0)
        elif isinstance(x, list):
          out.append(x[i.pop(0)])
        else:
          out.append(x)
      return self.at(ob, *out)
    r = self.build(shape, pick)
    if not shape:
      return [(st, N(self.of(r)[1][0], 'float'))]
    return [(st, r)]


def is_none(v):
  return isinstance(v, C) and v.val is None
