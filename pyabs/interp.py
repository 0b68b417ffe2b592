"""The abstract interpreter: path-partitioned, joining, interprocedural."""
import ast
import builtins
import datetime
import sys
from fractions import Fraction

from . import terms as T
from .program import PKG, AnalysisError, ClassInfo, FuncInfo
from .values import *  # pylint: disable=wildcard-import
from .values import E0, Cell, State

sys.setrecursionlimit(20000)


class Budget(Exception):
  pass


class Frame:
  __slots__ = ('env', 'fi', 'ctrl', 'node', 'cls')

  def __init__(self, env, fi, ctrl, node, cls=None):
    self.env, self.fi, self.ctrl, self.node, self.cls = env, fi, ctrl, node, cls


class ExcV:
  """An exception in flight."""
  __slots__ = ('name', 'cls', 'args', 'where', 'lab', 'obj')

  def __init__(self, name, cls=None, args=(), where='', lab=E0, obj=None):
    self.name, self.cls, self.args, self.where, self.lab, self.obj = (
        name, cls, args, where, lab, obj)

  def __repr__(self):
    return '%s at %s' % (self.name, self.where)


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//',
          ast.Mod: '%', ast.Pow: '**', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^',
          ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod',
          '**': 'pow', '&': 'and', '|': 'or', '^': 'xor', '<<': 'lshift', '>>': 'rshift',
          '@': 'matmul'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
          ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}

NP_SCALAR = {'T', 'all', 'any', 'argmax', 'argmin', 'astype', 'at', 'clip', 'copy', 'data', 'dtype',
             'flat', 'flatten', 'item', 'itemsize', 'max', 'mean', 'min', 'nbytes', 'ndim', 'ravel',
             'reshape', 'round', 'set', 'shape', 'size', 'squeeze', 'std', 'sum', 'tolist', 'numpy',
             'block_until_ready', 'var', 'sharding'}
ATTRS = {'N': set(dir(float)) | set(dir(int)) | set(dir(bool)) | NP_SCALAR,
         'TD': set(dir(datetime.timedelta)), 'DT': set(dir(datetime.datetime))}


def attr_exists(ob, name):
  if isinstance(ob, C):
    if isinstance(ob.val, (bool, int, float, Fraction)):
      return name in ATTRS['N']
    return not isinstance(ob.val, (str, bytes)) or name in dir(type(ob.val))
  k = type(ob).__name__
  return k not in ATTRS or name in ATTRS[k]


def not_impl(v):
  return isinstance(v, X) and v.name == 'builtins.NotImplemented'


CDUNDER = {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '<=': '__le__', '>': '__gt__',
           '>=': '__ge__'}
SWAP = {'==': '==', '!=': '!=', '<': '>', '<=': '>=', '>': '<', '>=': '<='}


FLAT = (C, N, En, Cl, Mo, X, TD, DT, O, St)


class Interp:

  def __init__(self, prog, stubs):
    self.prog = prog
    self.stubs = stubs            # dotted external name -> handler
    self.summaries = {}           # short qualname -> handler(I, st, fn, args, kw, node)
    self.on_call = {}             # short qualname -> handler(I, st, args(dict), node)
    self.on_event = None          # handler(st, kind, data)
    self.on_store = None          # handler(st, addr, field, value, node)
    self.cap = 48                 # disjuncts before joining
    self.unroll = 40
    self.steps = 0
    self.maxsteps = 3_000_000
    self.sinks = [[]]
    self.unmodelled = {}
    self.visited = set()          # functions analysed
    self.callsites = 0
    self.depth = 0
    self.base = State()
    self.cur = None
    self._mods_loading = []
    self.lossy = set()            # reasons for joins etc.
    self.arr_limit = 64           # arrays up to this length are kept element by element
    self.argmax_bound = None      # handler(I, st, array) -> number of elements, or None

  # ------------------------------------------------------------ utilities
  def where(self, node, st=None):
    fi = st.stack[-1].fi if st is not None and st.stack else None
    path = fi.mod.path if fi else (self.cur_mod.path if self.cur_mod else '?')
    return '%s:%s%s' % (self.prog.rel(path), getattr(node, 'lineno', '?'),
                        ' (' + fi.name + ')' if fi and fi.name != '<module>' else '')

  cur_mod = None

  def imprecise(self, what, st, node, typ='?', lab=E0, key=()):
    w = self.where(node, st)
    self.unmodelled.setdefault(what, w)
    a = T.fresh('?' + what, lab=frozenset()).terms
    (m, _), = a.items()
    return O(m[0][0], typ, lab=lab | {'imp:%s@%s' % (what, w)} | st.ctrl)

  def emit(self, st, kind, **data):
    if self.on_event is not None:
      self.on_event(st, kind, data)

  def raise_(self, st, exc):
    self.sinks[-1].append((st, exc))

  def throw(self, st, name, node, args=(), cls=None, lab=E0, obj=None):
    self.raise_(st, ExcV(name, cls, args, self.where(node, st), lab, obj))
    return []

  # ------------------------------------------------------------ modules
  def load_all(self):
    for name in sorted(self.prog.mods):
      self.load_module(name)
    b = self.base
    b.base = {**b.base, **b.over}
    b.over = {}
    b.stack = ()
    b.trace = ()

  def load_module(self, name):
    m = self.prog.mods[name]
    if m.env is not None:
      return
    st = self.base
    env = st.alloc(Cell('env', None, {'__name__': C(name), '__file__': C(m.path)}, None))
    m.env = env
    saved = st.stack
    savedmod = self.cur_mod
    self.cur_mod = m
    fi = FuncInfo.__new__(FuncInfo)
    fi.node, fi.mod, fi.qual, fi.cls, fi.name = m.tree, m, name, None, '<module>'
    fi.closure, fi.isgen, fi.short = True, False, name
    fi.isprop = False
    st.stack = st.stack + (Frame(env, fi, E0, None),)
    self.sinks.append([])
    outs = self.ex(m.tree.body, st)
    exc = self.sinks.pop()
    self.cur_mod = savedmod
    if not outs:
      raise AnalysisError('module %s raises when loaded: %s' % (name, exc[:1]))
    st2 = outs[0][0]
    if len(outs) > 1:
      # keep the first normal outcome; module initialisation is deterministic
      pass
    if st2 is not st:
      st.over, st.facts, st.n, st.ctrl = st2.over, st2.facts, st2.n, E0
    st.stack = saved

  def modval(self, dotted):
    if dotted in self.prog.mods:
      self.load_module(dotted)
      return Mo(dotted)
    return None

  def start(self):
    """A fresh analysis state over the loaded program."""
    st = State(self.base.base)
    st.n = self.base.n
    st.facts = self.base.facts.copy()
    return st

  def lookup(self, dotted, st=None):
    """Value of a top-level name, e.g. 'env.balloon.balloon.Balloon'."""
    st = st or self.base
    parts = dotted.split('.')
    for i in range(len(parts), 0, -1):
      mod = '.'.join([PKG] + parts[:i])
      if mod in self.prog.mods:
        v = Mo(mod)
        for p in parts[i:]:
          r = self.getattr_static(v, p, st)
          if r is None:
            raise AnalysisError('anchor not found: %s' % dotted)
          v = r
        return v
    raise AnalysisError('anchor not found: %s' % dotted)

  def getattr_static(self, v, name, st):
    if isinstance(v, Mo):
      c = st.cell(self.prog.mods[v.name].env)
      r = c.d.get(name)
      if r is None and (v.name + '.' + name) in self.prog.mods:
        return Mo(v.name + '.' + name)
      return r
    if isinstance(v, Cl):
      if v.ci.enum_values and name in v.ci.enum_values:
        return En(v.ci, name)
      r, _ = self.class_attr(v.ci, name, st)
      if isinstance(r, SM):
        return r.fn
      return r
    return None

  def class_attr(self, ci, name, st):
    for c in ci.mro():
      if c.cell is not None:
        d = st.cell(c.cell).d
        if name in d:
          return d[name], c
    return None, None

  # ------------------------------------------------------------ merging
  def canon(self, st, extra=()):
    seen = {}
    out = []
    over = st.over
    base_n = self.base.n

    def val(v):
      t = type(v)
      if t is R:
        return ('R', ref(v.addr), v.lab)
      if t is Tup:
        return ('T', tuple(val(x) for x in v.items), v.lab)
      if t is BM:
        return ('BM', val(v.fn), val(v.self_))
      if t is Fn:
        return ('Fn', id(v.fi), ref(v.env) if v.env else None)
      if t is XM:
        return ('XM', val(v.obj), v.name)
      if t is Un:
        return ('Un', tuple(val(x) for x in v.alts))
      if t is Pa:
        return ('Pa', val(v.fn), tuple(val(x) for x in v.args),
                tuple((k, val(x)) for k, x in v.kw))
      if t is St:
        return ('St', tuple(val(x[0]) if isinstance(x, tuple) else x for x in v.parts))
      if t is Gen:
        return ('Gen', val(v.elem) if isinstance(v.elem, V) else v.elem, v.n, v.lab)
      return (v.key(), v.lab)

    def ref(a):
      if a not in over:
        return ('b', a)
      r = seen.get(a)
      if r is None:
        seen[a] = r = ('n', a) if a < base_n else ('n', len(seen))
        c = over[a]
        slot = len(out)
        out.append(None)
        if isinstance(c.d, dict):
          body = tuple(sorted(((repr(k), val(v)) for k, v in c.d.items()),
                              key=lambda kv: kv[0])) if c.kind != 'dict' else tuple(
                                  (k if not isinstance(k, V) else val(k), val(v))
                                  for k, v in c.d.items())
        else:
          body = tuple(val(v) for v in c.d)
        m = c.meta
        if c.kind == 'env':
          meta = ref(m) if m else None
        elif isinstance(m, dict):
          meta = tuple(sorted((k, val(v) if isinstance(v, V) else v if not isinstance(v, tuple)
                               else tuple(val(x) if isinstance(x, V) else x for x in v))
                              for k, v in m.items()))
        elif isinstance(m, V):
          meta = val(m)
        else:
          meta = m
        out[slot] = (c.kind, id(c.cls) if isinstance(c.cls, ClassInfo) else c.cls, body, meta)
      return r
    heads = tuple(ref(f.env) for f in st.stack)
    heads += tuple(val(v) for v in st.roots)
    ex = tuple(val(v) if isinstance(v, V) else v for v in extra)
    for a in over:
      if a < base_n:
        ref(a)
    mon = tuple(sorted(st.mon.items())) if isinstance(st.mon, dict) else st.mon
    return (heads, ex, tuple(out), st.ctrl, mon)

  def merge(self, outs, cap=None):
    """Merges equal states in a list of (state, extra)."""
    if len(outs) < 2:
      return outs
    groups = {}
    order = []
    for st, ex in outs:
      k = self.canon(st, (sigkey(ex),) if not isinstance(ex, V) else (ex,))
      g = groups.get(k)
      if g is None:
        groups[k] = [st, ex]
        order.append(k)
      else:
        if g[0].facts is not st.facts:
          g[0] = g[0].fork()
          g[0].facts = g[0].facts.merge(st.facts)
          g[0].fshared = False
        g[0].trace = common(g[0].trace, st.trace)
    res = [tuple(groups[k]) for k in order]
    cap = cap or self.cap
    if len(res) > cap:
      res = self.reduce(res, cap)
    return res

  def reduce(self, outs, cap):
    """Joins states, grouped by signal and monitor, until at most cap remain."""
    groups = {}
    for st, ex in outs:
      sig = ex[0] if isinstance(ex, tuple) else type(ex).__name__
      mon = tuple(sorted(st.mon.items())) if isinstance(st.mon, dict) else st.mon
      groups.setdefault((sig, mon, len(st.stack)), []).append((st, ex))
    res = []
    for k, g in groups.items():
      # join similar states first: those with the fewest differing locations
      while len(g) > max(1, cap // max(1, len(groups))):
        n = len(g)
        paired = []
        for i in range(0, n - 1, 2):
          paired.append(self.join2(g[i], g[i + 1]))
        if n % 2:
          paired.append(g[-1])
        g = paired
      res += g
    self.lossy.add('join')
    return res

  def join2(self, a, b, site='j'):
    (sa, ea), (sb, eb) = a, b
    va = ea[1] if isinstance(ea, tuple) else ea
    vb = eb[1] if isinstance(eb, tuple) else eb
    st, v = self.join(sa, sb, va, vb, site)
    return (st, (ea[0], v) if isinstance(ea, tuple) else v)

  def join(self, sa, sb, va=None, vb=None, site='j', widen=None):
    """Joins two states; numbers that differ become phi terms."""
    j = sa.fork()
    j.own_facts()
    done = {}
    phis = {}
    I = self
    bcopies = {}

    def importb(v):
      t = type(v)
      if t is R:
        if v.addr not in sb.over:
          return v
        if v.addr in sa.over and sa.over[v.addr] is sb.over[v.addr]:
          return v
        n = bcopies.get(v.addr)
        if n is None:
          c = sb.over[v.addr].copy()
          n = bcopies[v.addr] = j.alloc(c)
          if isinstance(c.d, dict):
            c.d = {(importb(k) if isinstance(k, V) else k): importb(x) for k, x in c.d.items()}
          else:
            c.d = [importb(x) for x in c.d]
        return R(n, lab=v.lab)
      if t is Tup:
        return Tup(tuple(importb(x) for x in v.items), lab=v.lab)
      if t is BM:
        return BM(importb(v.fn), importb(v.self_), lab=v.lab)
      if t is XM:
        return XM(importb(v.obj), v.name, lab=v.lab)
      if t is Un:
        return Un(tuple(importb(x) for x in v.alts), lab=v.lab)
      return v

    def phi(pa, pb, path, isint):
      ia, ib = sa.facts.iv(pa), sb.facts.iv(pb)
      h = ia.hull(ib)
      if widen is not None:
        h = widen(ia, h)
      key = (site, path)
      a = T.atom('phi', key, isint=isint)
      phis[a] = (pa, pb, h)
      return T.poly(a)

    def jv(a, b, path):
      if type(a) is R and type(b) is R:
        return jref(a, b, path)
      if a == b:
        visit(a, path)
        return a
      lab = a.lab | b.lab
      if a.key() == b.key():
        visit(a, path)
        return a.with_lab(lab)
      if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup(tuple(jv(x, y, path + (i,)) for i, (x, y) in enumerate(zip(a.items, b.items))),
                   lab=lab)
      if isinstance(a, TD) and isinstance(b, TD):
        return TD(phi(a.p, b.p, path, False), lab=lab)
      if isinstance(a, DT) and isinstance(b, DT):
        return DT(phi(a.p, b.p, path, False), a.tz and b.tz, lab=lab)
      isnum = lambda v: (isinstance(v, N) or (isinstance(v, C) and isinstance(
          v.val, (int, float)) and not isinstance(v.val, bool)))
      if isnum(a) and isnum(b) and num(a) is not None and num(b) is not None:
        k = 'int' if kind_of(a) == kind_of(b) == 'int' else 'float'
        return N(phi(num(a), num(b), path, k == 'int'), k, lab=lab)
      if isinstance(a, O) and isinstance(b, O) and a.typ == b.typ:
        at = T.atom('phi', (site, path), lab=a.a.lab | b.a.lab)
        return O(at, a.typ, lab=lab)
      if isinstance(a, BM) and isinstance(b, BM) and a.fn == b.fn:
        return BM(a.fn, jv(a.self_, b.self_, path + ('self',)), lab=lab)
      alts = []
      for v in (a.alts if isinstance(a, Un) else (a,)):
        if not any(v.key() == w.key() for w in alts):
          alts.append(v)
      for v in (b.alts if isinstance(b, Un) else (b,)):
        v = importb(v)
        if not any(v.key() == w.key() for w in alts):
          alts.append(v)
      nums = [v for v in alts if isnum(v)]
      if len(nums) > 1:
        rest = [v for v in alts if not isnum(v)]
        p = num(nums[0])
        h = sa.facts.iv(p).hull(sb.facts.iv(p))
        for v in nums[1:]:
          h = h.hull(sa.facts.iv(num(v)).hull(sb.facts.iv(num(v))))
        if widen is not None:
          h = widen(T.Iv(), h)
        at = T.atom('phi', (site, path, 'n'))
        phis[at] = (T.poly(at), T.poly(at), h)
        alts = rest + [N(T.poly(at), 'float', lab=lab)]
      if len(alts) > 10:
        return O(T.atom('phi', (site, path, 'x')), '?', lab=lab | {'imp:join'})
      if len(alts) == 1:
        return alts[0]
      return Un(tuple(alts), lab=lab)

    def jref(a, b, path):
      lab = a.lab | b.lab
      if a.addr == b.addr:
        jaddr(a.addr, path)
        return a.with_lab(lab)
      key = (a.addr, b.addr)
      if key in done:
        return R(done[key], lab=lab)
      ca = sa.cell(a.addr)
      cb = sb.cell(b.addr)
      if ca.kind != cb.kind or ca.cls is not cb.cls:
        return Un((a, importb(b)), lab=lab)
      n = j.alloc(Cell(ca.kind, ca.cls))
      done[key] = n
      nc = jcell(ca, cb, path)
      if nc is None:
        del j.over[n]
        done.pop(key)
        return Un((a, importb(b)), lab=lab)
      j.over[n] = nc
      return R(n, lab=lab)

    def visit(v, path):
      # the same value on both sides: what it refers to may still differ
      t = type(v)
      if t is R:
        jaddr(v.addr, path)
      elif t is Tup or t is Un:
        for i, x in enumerate(v.items if t is Tup else v.alts):
          visit(x, path + (i,))
      elif t is BM or t is Sup:
        visit(v.self_, path + ('self',))
      elif t is XM:
        visit(v.obj, path + ('obj',))
      elif t is Fn and v.env:
        jaddr(v.env, path + ('env',))
      elif t is Pa:
        visit(v.fn, path + ('fn',))
        for i, x in enumerate(v.args):
          visit(x, path + ('a', i))

    def visit_cell(c, path):
      if isinstance(c.d, dict):
        for k, x in c.d.items():
          if type(x) not in FLAT and isinstance(x, V):
            visit(x, path + (k if isinstance(k, str) else repr(k),))
          if type(k) is Tup or type(k) is R:
            visit(k, path + ('key', repr(k)))
      else:
        for i, x in enumerate(c.d):
          if type(x) not in FLAT and isinstance(x, V):
            visit(x, path + (i,))
      if isinstance(c.meta, dict):
        for k, x in c.meta.items():
          if isinstance(x, V) and type(x) not in FLAT:
            visit(x, path + ('meta', k))
      elif isinstance(c.meta, V):
        visit(c.meta, path + ('meta',))

    def jaddr(addr, path):
      if addr in done:
        return
      done[addr] = addr
      ca = sa.over.get(addr)
      cb = sb.over.get(addr)
      if ca is cb:
        if ca is not None:
          visit_cell(ca, path)
        return
      ca = ca or sa.base.get(addr)
      cb = cb or sb.base.get(addr)
      if ca is None or cb is None:
        return
      if ca is cb:
        return
      nc = jcell(ca, cb, path + (addr,) if False else path)
      if nc is None:
        nc = ca.copy()
        if nc.kind == 'list':
          nc = I.list_summary(ca, cb, jv, path, j)
        else:
          nc.d = {}
          nc.meta = 'lost'
          I.lossy.add('lost cell')
      j.over[addr] = nc

    def jcell(ca, cb, path):
      if ca.kind == 'env':
        d = {}
        for k in ca.d:
          if k in cb.d:
            d[k] = jv(ca.d[k], cb.d[k], path + (k,))
          else:
            d[k] = Un((ca.d[k], C(Ellipsis)), lab=frozenset({'maybe-unbound'})) if False else ca.d[k]
        for k in cb.d:
          if k not in ca.d:
            d[k] = importb(cb.d[k])
        return Cell('env', None, d, ca.meta)
      if isinstance(ca.d, dict):
        if ca.kind in ('dict', 'set'):
          d = {}
          if set(ca.d) != set(cb.d) or (isinstance(ca.meta, dict) != isinstance(cb.meta, dict)):
            return I.dict_summary(ca, cb, jv, importb, path)
          for k in ca.d:
            d[k] = jv(ca.d[k], cb.d[k], path + (repr(k),))
          return Cell(ca.kind, ca.cls, d, jmeta(ca.meta, cb.meta, path))
        d = {}
        for k in ca.d:
          d[k] = jv(ca.d[k], cb.d[k], path + (k,)) if k in cb.d else ca.d[k]
        for k in cb.d:
          if k not in ca.d:
            d[k] = importb(cb.d[k])
        if ca.kind == 'arr':
          kn = {}
          for k in set(ca.d) | set(cb.d):
            x = ca.d.get(k) or arr_elem(ca)
            y = cb.d.get(k) or arr_elem(cb)
            kn[k] = jv(x, importb(y), path + (k,))
          d = kn
        return Cell(ca.kind, ca.cls, d, jmeta(ca.meta, cb.meta, path))
      if len(ca.d) == len(cb.d) and (ca.meta is None) == (cb.meta is None):
        return Cell(ca.kind, ca.cls,
                    [jv(x, y, path + (i,)) for i, (x, y) in enumerate(zip(ca.d, cb.d))],
                    jmeta(ca.meta, cb.meta, path))
      if ca.kind == 'list':
        return I.list_summary(ca, cb, jv, path, j, importb)
      return None

    def jmeta(a, b, path):
      if a == b:
        return a
      if isinstance(a, dict) and isinstance(b, dict):
        r = {}
        for k in a:
          if k == 'maybe':
            r[k] = a[k] | b.get(k, frozenset())
          elif k in b and isinstance(a[k], V) and isinstance(b[k], V):
            r[k] = jv(a[k], b[k], path + ('meta', k))
          elif k in b and isinstance(a[k], T.Poly) and isinstance(b[k], T.Poly):
            r[k] = a[k] if a[k] is b[k] else phi(a[k], b[k], path + ('meta', k), True)
          elif k in b and a[k] == b[k]:
            r[k] = a[k]
        if 'maybe' in b:
          r['maybe'] = b['maybe'] | r.get('maybe', frozenset())
        return r
      if isinstance(a, V) and isinstance(b, V):
        return jv(a, b, path + ('meta',))
      return a

    for f in sa.stack:
      jaddr(f.env, (f.fi.short,) if f.env else ())
    for v, w in zip(sa.roots, sb.roots):
      jv(v, w, ('root',))
    for addr in set(sa.over) | set(sb.over):
      if addr < I.base.n:
        jaddr(addr, ('g', addr))
    v = None
    if va is not None and vb is not None:
      v = jv(va, vb, ('ret',))
    elif va is not None:
      v = va
    elif vb is not None:
      v = importb(vb)
    f = sa.facts.merge(sb.facts)
    f.drop(phis)
    for a, (pa, pb, h) in phis.items():
      if not h.top():
        f.b[T.poly(a)] = h
    # order relations between the joined numbers and what they are compared with
    self.phi_relations(f, phis, sa, sb)
    j.facts = f
    j.fshared = False
    j.ctrl = sa.ctrl | sb.ctrl
    j.n = max(j.n, sb.n)
    j.trace = common(sa.trace, sb.trace)
    return j, v

  def phi_relations(self, f, phis, sa, sb):
    items = list(phis.items())
    if len(items) > 40:
      return
    cands = set()
    for k in list(sa.facts.b)[:200]:
      if len(k.terms) == 1:
        (m, c), = k.terms.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'var' and '#' not in m[0][0].args[0]:
          cands.add(k)
    # a phi against each named bound: keep difference bounds that hold on both sides
    for a, (pa, pb, _h) in items:
      for q in cands:
        da, db = sa.facts.iv(pa - q, 1), sb.facts.iv(pb - q, 1)
        h = da.hull(db)
        if not h.top() and (h.lo == 0 or h.hi == 0):
          kk, n = T._lead(T.poly(a) - q)
          f.b[n] = h if kk == 1 else h.scale(1 / kk)
    f._c = {}

  def list_summary(self, ca, cb, jv, path, j, importb=lambda v: v):
    """A list of unknown length whose elements are all joined."""
    vals = []
    for c, imp in ((ca, lambda v: v), (cb, importb)):
      if isinstance(c.meta, dict) and 'elem' in c.meta:
        vals.append(imp(c.meta['elem']))
      vals += [imp(v) for v in c.d]
    if not vals:
      return ca.copy()
    e = vals[0]
    for v in vals[1:]:
      e = self.blend(e, v, path)
    la = self.list_len(ca)
    lb = self.list_len(cb)
    ln = la if la is lb else T.poly(T.atom('phi', (path, 'len'), isint=True,
                                           rng=T.Iv(Fraction(0))))
    return Cell('list', ca.cls, [], {'elem': e, 'len': ln})

  def blend(self, a, b, path):
    if a.key() == b.key():
      return a.with_lab(b.lab)
    lab = a.lab | b.lab
    if isinstance(a, N) or isinstance(b, N) or (isinstance(a, C) and isinstance(a.val, (int, float))):
      if num(a) is not None and num(b) is not None:
        h = T.Facts().iv(num(a)).hull(T.Facts().iv(num(b)))
        return N(T.fresh('elem', rng=h), 'float', lab=lab)
    alts = []
    for v in (a.alts if isinstance(a, Un) else (a,)) + (b.alts if isinstance(b, Un) else (b,)):
      if not any(v.key() == w.key() for w in alts):
        alts.append(v)
    return Un(tuple(alts[:12]), lab=lab)

  def dict_summary(self, ca, cb, jv, importb, path):
    d = {}
    for k in ca.d:
      if k in cb.d:
        d[k] = jv(ca.d[k], cb.d[k], path + (repr(k),))
      else:
        d[k] = ca.d[k]
    for k in cb.d:
      if k not in ca.d:
        d[k] = importb(cb.d[k])
    maybe = frozenset(k for k in set(ca.d) ^ set(cb.d))
    for c in (ca, cb):
      if isinstance(c.meta, dict):
        maybe |= c.meta.get('maybe', frozenset())
    return Cell(ca.kind, ca.cls, d, {'maybe': maybe})

  def list_len(self, c):
    if isinstance(c.meta, dict) and 'len' in c.meta:
      return c.meta['len']
    return T.const(len(c.d))

  # ------------------------------------------------------------ statements
  def ex(self, stmts, st):
    """Executes a block: list of (state, signal); signal None = falls through."""
    live = [(st, None)]
    done = []
    for s in stmts:
      nxt = []
      for st1, _ in live:
        for st2, sig in self.stmt(s, st1):
          if sig is None:
            nxt.append((st2, None))
          else:
            done.append((st2, sig))
      if len(nxt) > 1 and (isinstance(s, COMPOUND) or len(nxt) > self.cap or len(nxt) > len(live)):
        nxt = self.merge(nxt)
      live = nxt
      if not live:
        break
    return live + done

  def stmt(self, s, st):
    self.steps += 1
    if self.steps > self.maxsteps:
      raise Budget('step budget exhausted')
    m = getattr(self, 's_' + type(s).__name__, None)
    if m is None:
      self.imprecise('statement ' + type(s).__name__, st, s)
      return [(st, None)]
    return m(s, st)

  def s_Expr(self, s, st):
    if isinstance(s.value, ast.Constant):
      return [(st, None)]
    if isinstance(s.value, ast.Yield):
      out = []
      for st1, v in self.ev(s.value.value, st) if s.value.value else [(st, NONE)]:
        out += self.yield_(s, st1, v)
      return out
    return [(st1, None) for st1, _ in self.ev(s.value, st)]

  def yield_(self, s, st, v):
    env = st.stack[-1].env
    c = st.mut(env)
    ylist = c.d.get('$yield')
    if ylist is None:
      a = st.alloc(Cell('list', None, [v]))
      c.d['$yield'] = R(a)
    else:
      lc = st.mut(ylist.addr)
      if isinstance(lc.meta, dict):
        lc.meta['elem'] = self.blend(lc.meta['elem'], v, ())
      else:
        lc.d.append(v)
    return [(st, None)]

  def s_Pass(self, s, st):
    return [(st, None)]

  def s_Break(self, s, st):
    return [(st, ('break', None))]

  def s_Continue(self, s, st):
    return [(st, ('continue', None))]

  def s_Return(self, s, st):
    if s.value is None:
      return [(st, ('ret', NONE))]
    return [(st1, ('ret', v)) for st1, v in self.ev(s.value, st)]

  def s_Global(self, s, st):
    c = st.mut(st.stack[-1].env)
    for n in s.names:
      c.d['$g:' + n] = C(True)
    return [(st, None)]

  def s_Nonlocal(self, s, st):
    c = st.mut(st.stack[-1].env)
    for n in s.names:
      c.d['$n:' + n] = C(True)
    return [(st, None)]

  def s_Import(self, s, st):
    for al in s.names:
      top = al.name if al.asname else al.name.split('.')[0]
      v = self.modval(top)
      if v is None:
        v = X(top)
      if not al.asname and '.' in al.name:
        self.modval(al.name)
      self.store_name(al.asname or top, v, st, s)
    return [(st, None)]

  def s_ImportFrom(self, s, st):
    for al in s.names:
      if al.name == '*':
        continue
      mod = s.module or ''
      v = self.modval(mod + '.' + al.name)
      if v is None and mod in self.prog.mods:
        self.load_module(mod)
        v = st.cell(self.prog.mods[mod].env).d.get(al.name)
        if v is None:
          return self.throw(st, 'ImportError', s, (C(al.name),))
      if v is None:
        if mod.startswith(PKG):
          return self.throw(st, 'ImportError', s, (C(mod + '.' + al.name),))
        v = X(mod + '.' + al.name)
      self.store_name(al.asname or al.name, v, st, s)
    return [(st, None)]

  def s_FunctionDef(self, s, st):
    cls = st.stack[-1].cls
    fr = st.stack[-1]
    q = (cls.qual if cls else fr.fi.qual) + '.' + s.name
    fi = FuncInfo(s, fr.fi.mod, q, cls)
    outs = []
    defaults = list(s.args.defaults) + [d for d in s.args.kw_defaults if d is not None]
    for st1, dv in self.ev_list(defaults, st):
      env = st1.stack[-1].env
      if cls is not None:
        env = st1.cell(env).meta  # functions do not close over the class scope
      fn = Fn(fi, env, tuple(dv))
      vals = [(st1, fn)]
      for d in reversed(s.decorator_list):
        nv = []
        for st2, f in vals:
          nv += self.decorate(d, f, st2, s)
        vals = nv
      for st2, f in vals:
        self.store_name(s.name, f, st2, s)
        outs.append((st2, None))
    return outs

  s_AsyncFunctionDef = s_FunctionDef

  def decorate(self, d, f, st, s):
    n = dotted(d.func if isinstance(d, ast.Call) else d)
    if n == 'property' or (n or '').endswith('cached_property') or (n or '').endswith(
        'abstractproperty'):
      return [(st, Prop(f, NONE))]
    if n and n.endswith('.setter'):
      cur = st.cell(st.stack[-1].env).d.get(n.split('.')[0])
      if isinstance(cur, Prop):
        return [(st, Prop(cur.fget, f))]
      return [(st, f)]
    if n in ('staticmethod', 'classmethod'):
      return [(st, SM(f, n))]
    if n == 'contextlib.contextmanager' or n == 'contextmanager':
      return [(st, Pa(X('pyabs.contextmanager'), (f,), ()))]
    # decorators of the package itself are applied; external ones keep behaviour
    for st1, dv in self.ev(d.func if isinstance(d, ast.Call) else d, st):
      if isinstance(dv, (Fn, Cl)):
        outs = []
        for st2, dv2 in self.ev(d, st1):
          outs += self.call(dv2, [f], {}, st2, d)
        return outs
      if isinstance(dv, X):
        self.emit(st1, 'decorator', name=dv.name, node=d, target=f, call=d)
        h = self.stubs.get('@' + dv.name)
        if h is not None:
          return h(self, st1, f, d)
      return [(st1, f)]
    return [(st, f)]

  def s_ClassDef(self, s, st):
    fr = st.stack[-1]
    q = (fr.cls.qual if fr.cls else fr.fi.qual) + '.' + s.name
    ci = ClassInfo(s.name, q, fr.fi.mod, s)
    outs = []
    for st1, bases in self.ev_list(s.bases, st):
      for b in bases:
        if isinstance(b, Cl):
          ci.bases.append(b.ci)
          if b.ci.enum_values is not None:
            ci.enum_values = {}
            ci.enum_int = b.ci.enum_int
        elif isinstance(b, X):
          ci.extbases.append(b.name)
      ext = ci.allext()
      if any(e in ('enum.Enum', 'enum.IntEnum', 'enum.Flag', 'enum.IntFlag') for e in ext):
        ci.enum_values = {}
        ci.enum_int = any(e in ('enum.IntEnum', 'enum.IntFlag') for e in ext)
      if any(e in ('typing.NamedTuple',) for e in ext):
        ci.namedtuple = True
      env = st1.alloc(Cell('env', None, {'$cls': C(s.name)}, fr.env if not fr.cls else
                           st1.cell(fr.env).meta))
      st1.stack = st1.stack + (Frame(env, fr.fi, E0, s, ci),)
      res = self.ex(s.body, st1)
      for st2, sig in res[:1]:
        st2.stack = st2.stack[:-1]
        d = dict(st2.cell(env).d)
        d.pop('$cls', None)
        if ci.enum_values is not None:
          for stn in s.body:
            if isinstance(stn, ast.Assign) and isinstance(stn.targets[0], ast.Name):
              n = stn.targets[0].id
              v = d.pop(n, None)
              if isinstance(v, X) and v.name == 'enum.auto':
                v = C(len(ci.enum_values) + 1)
              if isinstance(v, O) and 'enum.auto' in str(v.a):
                v = C(len(ci.enum_values) + 1)
              ci.enum_values[n] = v
        ann = []
        if ci.namedtuple or any('dataclass' in (dotted(
            x.func if isinstance(x, ast.Call) else x) or '') for x in s.decorator_list) or any(
                'flax' in e or e.endswith('nn.Module') for e in ext):
          for b in ci.bases:
            ann += [f for f in b.fields if f[0] not in [a[0] for a in ann]]
          for stn in s.body:
            if isinstance(stn, ast.AnnAssign) and isinstance(stn.target, ast.Name):
              if isinstance(stn.annotation, ast.Subscript) and (
                  dotted(stn.annotation.value) or '').endswith('ClassVar'):
                continue
              nm = stn.target.id
              ann = [a for a in ann if a[0] != nm] + [(nm, d.get(nm) if stn.value else None)]
          ci.fields = ann
          ci.dataclass = not ci.namedtuple
        ci.cell = st2.alloc(Cell('cls', ci, d))
        cv = Cl(ci)
        for dec in reversed(s.decorator_list):
          r = self.decorate(dec, cv, st2, s)
          if r:
            st2, cv = r[0]
        self.store_name(s.name, cv, st2, s)
        outs.append((st2, None))
    return outs

  def s_Assign(self, s, st):
    outs = []
    for st1, v in self.ev(s.value, st):
      if st1.ctrl:
        v = v.with_lab(st1.ctrl)
      cur = [st1]
      for t in s.targets:
        nxt = []
        for st2 in cur:
          nxt += self.assign(t, v, st2, s)
        cur = nxt
      outs += [(x, None) for x in cur]
    return outs

  def s_AnnAssign(self, s, st):
    if s.value is None:
      return [(st, None)]
    outs = []
    for st1, v in self.ev(s.value, st):
      if st1.ctrl:
        v = v.with_lab(st1.ctrl)
      outs += [(x, None) for x in self.assign(s.target, v, st1, s)]
    return outs

  def s_AugAssign(self, s, st):
    op = BINOPS[type(s.op)]
    outs = []
    t = s.target
    if isinstance(t, ast.Name):
      for st1, cur in self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st):
        for st2, v in self.ev(s.value, st1):
          for st3, r in self.augop(op, cur, v, st2, s):
            outs += [(x, None) for x in self.assign(t, r.with_lab(st3.ctrl), st3, s)]
      return outs
    if isinstance(t, ast.Attribute):
      for st1, ob in self.ev(t.value, st):
        for st2, cur in self.getattr(ob, t.attr, st1, t):
          for st3, v in self.ev(s.value, st2):
            for st4, r in self.augop(op, cur, v, st3, s):
              outs += [(x, None) for x in self.setattr(ob, t.attr, r.with_lab(st4.ctrl), st4, s)]
      return outs
    if isinstance(t, ast.Subscript):
      for st1, ob in self.ev(t.value, st):
        for st2, ix in self.ev(t.slice, st1):
          for st3, cur in self.getitem(ob, ix, st2, t):
            for st4, v in self.ev(s.value, st3):
              for st5, r in self.augop(op, cur, v, st4, s):
                outs += [(x, None) for x in self.setitem(ob, ix, r.with_lab(st5.ctrl), st5, s)]
      return outs
    return [(st, None)]

  def augop(self, op, cur, v, st, node):
    """x op= v : in place for arrays and lists."""
    if isinstance(cur, R):
      c = st.cell(cur.addr)
      if c.kind == 'list' and op == '+':
        return [(st1, cur) for st1, _ in self.call_method(cur, 'extend', [v], {}, st, node)]
      if c.kind == 'obj':
        m, _ = self.class_attr(c.cls, '__i' + DUNDER[op] + '__', st) if c.cls else (None, None)
        if m is not None:
          return self.call(BM(m, cur), [v], {}, st, node)
      if c.kind == 'arr':
        outs = []
        for st1, r in self.binop(op, cur, v, st, node):
          if isinstance(r, R) and st1.cell(r.addr).kind == 'arr':
            nc = st1.cell(r.addr).copy()
            nc.meta = dict(nc.meta)
            nc.meta['shape'] = c.meta.get('shape', nc.meta.get('shape'))
            st1.over[cur.addr] = nc
            self.emit(st1, 'arrwrite', addr=cur.addr, index='all', node=node)
          outs.append((st1, cur))
        return outs
    return self.binop(op, cur, v, st, node)

  def assign(self, t, v, st, node):
    if isinstance(t, ast.Name):
      self.store_name(t.id, v, st, node)
      return [st]
    if isinstance(t, ast.Attribute):
      outs = []
      for st1, ob in self.ev(t.value, st):
        outs += self.setattr(ob, t.attr, v, st1, node)
      return outs
    if isinstance(t, ast.Subscript):
      outs = []
      for st1, ob in self.ev(t.value, st):
        for st2, ix in self.ev(t.slice, st1):
          outs += self.setitem(ob, ix, v, st2, node)
      return outs
    if isinstance(t, (ast.Tuple, ast.List)):
      outs = []
      star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
      for st1, items in self.unpack(v, len(t.elts), bool(star), star[0] if star else 0, st, node):
        cur = [st1]
        for e, x in zip(t.elts, items):
          nxt = []
          for st2 in cur:
            nxt += self.assign(e.value if isinstance(e, ast.Starred) else e, x, st2, node)
          cur = nxt
        outs += cur
      return outs
    if isinstance(t, ast.Starred):
      return self.assign(t.value, v, st, node)
    return [st]

  def unpack(self, v, n, star, starpos, st, node):
    outs = []
    for st0, v in self.alts(v, st):
      for st1, it in self.iterate(v, st0, node):
        if isinstance(it, Gen):
          if star:
            items = []
            for i in range(n):
              if i == starpos:
                items.append(it)
              else:
                items.append(self.gen_item(it, i, st1, node))
            outs.append((st1, items))
          else:
            outs.append((st1, [self.gen_item(it, i, st1, node) for i in range(n)]))
          continue
        if star:
          k = len(it) - (n - 1)
          if k < 0:
            self.throw(st1, 'ValueError', node)
            continue
          mid = st1.alloc(Cell('list', None, list(it[starpos:starpos + k])))
          outs.append((st1, list(it[:starpos]) + [R(mid, lab=v.lab)] + list(it[starpos + k:])))
        elif len(it) == n:
          outs.append((st1, list(it)))
        else:
          self.throw(st1, 'ValueError', node)
    return outs

  def gen_item(self, g, i, st, node):
    """The i-th element of a symbolic iterable."""
    if g.tag == 'atoms':
      return O(T.atom('item', g.elem, i), 'elem', lab=g.lab)
    e = g.elem
    if callable(e):
      return e(T.const(i), st)
    return e.with_lab(g.lab) if isinstance(e, V) else e

  def store_name(self, name, v, st, node):
    env = st.stack[-1].env
    c = st.cell(env)
    if '$g:' + name in c.d:
      env = self.prog.mods[st.stack[-1].fi.mod.name].env
      self.emit(st, 'globalstore', name=name, value=v, node=node, mod=st.stack[-1].fi.mod.name)
    elif '$n:' + name in c.d:
      e = c.meta
      while e is not None and name not in st.cell(e).d:
        e = st.cell(e).meta
      env = e or env
    st.mut(env).d[name] = v

  def s_Delete(self, s, st):
    cur = [st]
    for t in s.targets:
      nxt = []
      for st1 in cur:
        if isinstance(t, ast.Name):
          st1.mut(st1.stack[-1].env).d.pop(t.id, None)
          nxt.append(st1)
        elif isinstance(t, ast.Subscript):
          for st2, ob in self.ev(t.value, st1):
            for st3, ix in self.ev(t.slice, st2):
              for st4, _ in self.call_method(ob, '__delitem__', [ix], {}, st3, s):
                nxt.append(st4)
        else:
          nxt.append(st1)
      cur = nxt
    return [(x, None) for x in cur]

  def s_Assert(self, s, st):
    outs = []
    for st1, b in self.cond(s.test, st):
      if b:
        outs.append((st1, None))
      else:
        self.emit(st1, 'assertfail', node=s)
        self.throw(st1, 'AssertionError', s)
    return outs

  def s_If(self, s, st):
    ctrl = st.ctrl
    outs = []
    for st1, b in self.merge_b(self.cond(s.test, st)):
      body = s.body if b else s.orelse
      outs += self.ex(body, st1) if body else [(st1, None)]
    if outs and all(sig is None for _, sig in outs):
      for st1, _ in outs:
        st1.ctrl = ctrl
    return outs

  def merge_b(self, outs):
    if len(outs) <= 2:
      return outs
    res = []
    for b in (True, False):
      res += [(st, b) for st, _ in self.merge([(st, None) for st, x in outs if x is b])]
    return res

  def s_Raise(self, s, st):
    if s.exc is None:
      cur = st.cell(st.stack[-1].env).d.get('$exc')
      if cur is not None:
        self.raise_(st, cur.val)
      else:
        self.throw(st, 'Exception', s)
      return []
    for st1, v in self.ev(s.exc, st):
      name, cls, args, obj = 'Exception', None, (), None
      if isinstance(v, X):
        name = v.name.replace('builtins.', '')
      elif isinstance(v, O) and v.typ.startswith('exc:'):
        name = v.typ[4:]
      elif isinstance(v, Cl):
        cls, name = v.ci, v.ci.name
      elif isinstance(v, R):
        c = st1.cell(v.addr)
        cls, obj = c.cls, v
        name = getattr(cls, 'name', str(cls))
        if c.kind == 'exc':
          name = c.cls
          cls = None
          args = tuple(c.d)
      self.throw(st1, name, s, args, cls, v.lab, obj)
    return []

  def s_Try(self, s, st):
    self.sinks.append([])
    outs = self.ex(s.body, st)
    exc = self.sinks.pop()
    res = []
    for st1, sig in outs:
      if sig is None and s.orelse:
        self.sinks.append([]) if s.finalbody else None
        r = self.ex(s.orelse, st1)
        if s.finalbody:
          exc2 = self.sinks.pop()
          for st2, e in exc2:
            for st3, sg in self.ex(s.finalbody, st2):
              if sg is None:
                self.raise_(st3, e)
              else:
                res.append((st3, sg))
        res += r
      else:
        res.append((st1, sig))
    unhandled = []
    for st1, e in exc:
      depth = len(st.stack)
      st1.stack = st1.stack[:depth]
      handled = False
      for h in s.handlers:
        m = self.exc_match(h.type, e, st1)
        if m:
          handled = True
          c = st1.mut(st1.stack[-1].env)
          if h.name:
            c.d[h.name] = e.obj or O(T.atom('exc', e.name), 'exc:' + e.name, lab=e.lab)
          c.d['$exc'] = C(e) if False else _Holder(e)
          self.sinks.append([]) if s.finalbody else None
          r = self.ex(h.body, st1)
          if s.finalbody:
            for st2, e2 in self.sinks.pop():
              unhandled.append((st2, e2))
          for st2, sig in r:
            st2.mut(st2.stack[-1].env).d.pop('$exc', None)
            res.append((st2, sig))
          break
      if not handled:
        unhandled.append((st1, e))
    if s.finalbody:
      fin = []
      for st1, sig in res:
        for st2, sg in self.ex(s.finalbody, st1):
          fin.append((st2, sg if sg is not None else sig))
      res = fin
      for st1, e in unhandled:
        for st2, sg in self.ex(s.finalbody, st1):
          if sg is None:
            self.raise_(st2, e)
          else:
            res.append((st2, sg))
    else:
      for st1, e in unhandled:
        self.raise_(st1, e)
    return res

  def exc_match(self, typ, e, st):
    if typ is None:
      return True
    if isinstance(typ, ast.Tuple):
      return any(self.exc_match(t, e, st) for t in typ.elts)
    for _, tv in self.ev(typ, st.fork()):
      if isinstance(tv, Tup):
        return any(self.exc_is(e, x) for x in tv.items)
      return self.exc_is(e, tv)
    return False

  def exc_is(self, e, tv):
    if isinstance(tv, Cl):
      return e.cls is not None and tv.ci in e.cls.mro()
    if isinstance(tv, X):
      n = tv.name.replace('builtins.', '')
      names = {e.name}
      if e.cls is not None:
        for c in e.cls.mro():
          names.add(c.name)
          names |= {x.replace('builtins.', '') for x in c.extbases}
      for x in list(names):
        k = getattr(builtins, x, None)
        if isinstance(k, type) and issubclass(k, BaseException):
          names |= {c.__name__ for c in k.__mro__}
        else:
          names |= set(EXC_PARENTS.get(x, ('Exception', 'BaseException')))
      if n in names:
        return True
      return n.split('.')[-1] in names and '.' in n and n in {x for x in names}
    return False

  def s_With(self, s, st):
    return self.with_items(s, list(s.items), st)

  def with_items(self, s, items, st):
    if not items:
      return self.ex(s.body, st)
    it = items[0]
    outs = []
    for st1, cm in self.ev(it.context_expr, st):
      entered = []
      if isinstance(cm, R) and st1.cell(cm.addr).kind == 'obj':
        m, _ = self.class_attr(st1.cell(cm.addr).cls, '__enter__', st1)
        if m is not None:
          entered = self.call(BM(m, cm), [], {}, st1, s)
        else:
          entered = [(st1, cm)]
      elif isinstance(cm, XM) and cm.name == '$cm':
        entered = [(st1, cm.obj)]
      else:
        self.emit(st1, 'enter', cm=cm, node=s)
        entered = [(st1, cm)]
      for st2, v in entered:
        targets = self.assign(it.optional_vars, v, st2, s) if it.optional_vars else [st2]
        for st3 in targets:
          self.sinks.append([])
          res = self.with_items(s, items[1:], st3)
          exc = self.sinks.pop()
          for st4, sig in res:
            for st5 in self.cm_exit(cm, st4, s, None):
              outs.append((st5[0], sig))
          for st4, e in exc:
            st4.stack = st4.stack[:len(st.stack)]
            for st5, suppress in self.cm_exit(cm, st4, s, e):
              if suppress:
                outs.append((st5, None))
              else:
                self.raise_(st5, e)
    return outs

  def cm_exit(self, cm, st, s, e):
    if isinstance(cm, R) and st.cell(cm.addr).kind == 'obj':
      m, _ = self.class_attr(st.cell(cm.addr).cls, '__exit__', st)
      if m is not None:
        outs = []
        for st1, v in self.call(BM(m, cm), [NONE, NONE, NONE], {}, st, s):
          for st2, b in self.truth(v, st1, s):
            outs.append((st2, b and e is not None))
        return outs
    self.emit(st, 'exit', cm=cm, node=s, exc=e)
    if isinstance(cm, O) and cm.typ == 'contextlib.suppress' and e is not None:
      return [(st, True)]
    return [(st, False)]

  def s_Match(self, s, st):
    outs = []
    for st1, subj in self.ev(s.subject, st):
      rest = [st1]
      for case in s.cases:
        nrest = []
        for st2 in rest:
          for st3, ok in self.match_pat(case.pattern, subj, st2, s):
            if ok and case.guard is not None:
              for st4, g in self.cond(case.guard, st3):
                if g:
                  outs += self.ex(case.body, st4)
                else:
                  nrest.append(st4)
            elif ok:
              outs += self.ex(case.body, st3)
            else:
              nrest.append(st3)
        rest = nrest
      outs += [(x, None) for x in rest]
    return outs

  def match_pat(self, p, v, st, node):
    if isinstance(p, ast.MatchValue):
      outs = []
      for st1, w in self.ev(p.value, st):
        outs += self.truths(self.compare('==', v, w, st1, node), node)
      return outs
    if isinstance(p, ast.MatchSingleton):
      return self.truths(self.compare('is', v, C(p.value), st, node), node)
    if isinstance(p, ast.MatchAs):
      if p.pattern is None:
        if p.name:
          self.store_name(p.name, v, st, node)
        return [(st, True)]
      outs = []
      for st1, ok in self.match_pat(p.pattern, v, st, node):
        if ok and p.name:
          self.store_name(p.name, v, st1, node)
        outs.append((st1, ok))
      return outs
    if isinstance(p, ast.MatchOr):
      outs, rest = [], [st]
      for q in p.patterns:
        nrest = []
        for st1 in rest:
          for st2, ok in self.match_pat(q, v, st1, node):
            (outs if ok else nrest).append((st2, True) if ok else st2)
        rest = nrest
      return outs + [(x, False) for x in rest]
    self.imprecise('match pattern', st, node)
    s2 = st.fork()
    return [(st, True), (s2, False)]

  # ------------------------------------------------------------ loops
  def s_For(self, s, st):
    outs = []
    ctrl = st.ctrl
    for st1, itv in self.ev(s.iter, st):
      for st2, itv in self.alts(itv, st1):
        for st3, it in self.iterate(itv, st2, s):
          if isinstance(it, Gen):
            outs += self.loop_gen(s, it, st3)
          elif len(it) > self.unroll and self.want_summary(s, it):
            outs += self.loop_gen(s, self.list_gen(it, st3), st3)
          else:
            outs += self.loop_list(s, it, st3)
    if outs and all(sig is None for _, sig in outs):
      for st1, _ in outs:
        st1.ctrl = ctrl
    return outs

  def want_summary(self, s, it):
    return len(it) > 400

  def list_gen(self, it, st):
    e = it[0]
    for v in it[1:]:
      e = self.blend(e, v, ())
    return Gen(e, T.const(len(it)), 'list', '')

  def loop_list(self, s, items, st):
    live = [st]
    outs = []
    for v in items:
      nxt = []
      for st1 in live:
        for st2 in self.assign(s.target, v.with_lab(st1.ctrl), st1, s):
          for st3, sig in self.ex(s.body, st2):
            if sig is None or sig[0] == 'continue':
              nxt.append(st3)
            elif sig[0] == 'break':
              outs.append((st3, None))
            else:
              outs.append((st3, sig))
      live = [x for x, _ in self.merge([(x, None) for x in nxt], self.loopcap)]
      if not live:
        break
    for st1 in live:
      if s.orelse:
        outs += self.ex(s.orelse, st1)
      else:
        outs.append((st1, None))
    if len(outs) > 1:
      outs = self.merge(outs)
    return outs

  loopcap = None

  def loop_gen(self, s, g, st):
    """A for loop over a symbolic iterable: inductive summary."""
    def body(h, iv):
      e = g.elem
      if callable(e):
        v = e(iv, h)
      else:
        v = self.refresh(e, iv, g, h)
      outs = []
      for st2 in self.assign(s.target, v.with_lab(h.ctrl | g.lab), h, s):
        outs += self.ex(s.body, st2)
      return outs
    outs = self.summarise(s, st, body, g.n)
    res = []
    for st1, sig in outs:
      if sig == ('exit',):
        if s.orelse:
          res += self.ex(s.orelse, st1)
        else:
          res.append((st1, None))
      else:
        res.append((st1, sig))
    return self.merge(res) if len(res) > 1 else res

  def refresh(self, e, iv, g, h):
    """The element for the current iteration: a function of the iteration counter."""
    return self.reindex(e, ('it', g.site or id(g) if False else g.site), iv)

  def reindex(self, e, tag, iv):
    """Specialises a generic element to index iv (a term, or a tuple of them)."""
    if isinstance(e, N):
      es = T.elem_atoms(e.p)
      if not es:
        return e
      m = {a: T.poly(T.atom('at', a, iv, isint=a.isint, rng=a.rng)) for a in es}
      return N(T.subst(e.p, m), e.kind, lab=e.lab)
    if isinstance(e, O):
      es = T.elem_atoms(e.a)
      if es:
        p = T.subst(T.poly(e.a), {a: T.poly(T.atom('at', a, iv, isint=a.isint, rng=a.rng))
                                  for a in es})
        a = O_atom(p)
        if a is not None:
          return O(a, e.typ, lab=e.lab)
      return O(T.atom('at', e.a, iv), e.typ, lab=e.lab)
    if isinstance(e, Tup):
      return Tup(tuple(self.reindex(x, tag, iv) for x in e.items), lab=e.lab)
    return e

  def s_While(self, s, st):
    # unroll while the condition is decided
    live = [st]
    outs = []
    ctrl = st.ctrl
    rounds = 0
    while live and rounds < self.unroll:
      rounds += 1
      decided, undec = [], []
      for st1 in live:
        cs = self.cond(s.test, st1.fork())
        bs = {b for _, b in cs}
        if len(bs) <= 1:
          decided.append((st1, cs))
        else:
          undec.append(st1)
      nxt = []
      for st1, cs in decided:
        for st2, b in cs:
          if not b:
            outs += self.ex(s.orelse, st2) if s.orelse else [(st2, None)]
          else:
            for st3, sig in self.ex(s.body, st2):
              if sig is None or sig[0] == 'continue':
                nxt.append(st3)
              elif sig[0] == 'break':
                outs.append((st3, None))
              else:
                outs.append((st3, sig))
      for st1 in undec:
        outs += self.while_sym(s, st1)
      live = [x for x, _ in self.merge([(x, None) for x in nxt], self.loopcap)]
      if rounds >= 6 and isinstance(s.test, ast.Constant):
        break   # while True: no decided end
    for st1 in live:
      outs += self.while_sym(s, st1)
    if outs and all(sig is None for _, sig in outs):
      for st1, _ in outs:
        st1.ctrl = ctrl
    return self.merge(outs) if len(outs) > 1 else outs

  def while_sym(self, s, st):
    def body(h, iv):
      outs = []
      for st1, b in self.cond(s.test, h):
        if b:
          outs += self.ex(s.body, st1)
        else:
          outs.append((st1, ('exit',)))
      return outs
    res = []
    for st1, sig in self.summarise(s, st, body, None):
      if sig == ('exit',):
        if s.orelse:
          res += self.ex(s.orelse, st1)
        else:
          res.append((st1, None))
      else:
        res.append((st1, sig))
    return res

  def summarise(self, s, st, body, n):
    """Least fixpoint (with widening) of a loop; n = trip count term or None.

    Returns (state, ('exit',)) for normal ends, (state, None) for breaks.
    """
    site = ('L', self.where(s, st), len(st.stack))
    ctr = T.atom('iter', site, isint=True, rng=T.Iv(Fraction(0)))
    iv = T.poly(ctr)
    groups = {}   # monitor key -> head state

    def monkey(x):
      return tuple(sorted(x.mon.items())) if isinstance(x.mon, dict) else x.mon

    zero = st.fork()
    head = {monkey(st): st}
    induct = None
    brk = []
    rounds = 0
    final = None
    while True:
      rounds += 1
      self.sinks.append([])
      outs = []
      for k, h in list(head.items()):
        h1 = h.fork()
        h1.own_facts()
        if rounds > 1 and n is not None:
          if not h1.facts.assume('<', iv, n):
            continue
        elif n is not None and not h1.facts.assume('>', n, T.ZERO):
          continue
        outs += body(h1, iv if rounds > 1 else T.ZERO)
      exc = self.sinks.pop()
      nxt = {}
      brk, exits = [], []
      for st1, sig in outs:
        if sig is None or sig[0] == 'continue':
          nxt.setdefault(monkey(st1), []).append(st1)
        elif sig[0] == 'break':
          brk.append((st1, None))
        elif sig == ('exit',):
          exits.append((st1, ('exit',)))
        else:
          brk.append((st1, sig))
      # fold the back edges into the heads
      changed = False
      new = dict(head)
      if rounds == 1:
        # discover induction variables: same constant increment on every path
        induct = self.find_induction(st, [x for l in nxt.values() for x in l])
      for k, l in nxt.items():
        for b in l:
          b = self.shift_induction(b, induct, iv, rounds)
          if k not in new:
            new[k] = self.prep_head(b, induct, iv, st, rounds)
            changed = True
          else:
            h = new[k]
            if rounds == 1 or k not in head:
              h = self.prep_head(h, induct, iv, st, rounds) if h is st else h
            j = self.join_head(h, b, site, rounds, induct)
            if self.head_key(j) != self.head_key(head.get(k)):
              changed = True
            new[k] = j
      head = new
      if not changed:
        break
      if rounds > 12:
        self.lossy.add('loop widening gave up at ' + self.where(s, st))
        for k in head:
          self.havoc_phis(head[k], site)
        if rounds > 16:
          break
    for st1, e in exc:
      self.raise_(st1, e)
    res = list(brk)
    if n is not None:
      for k, h in head.items():
        h1 = h.fork()
        h1.own_facts()
        if rounds > 1:
          # at exit the counter equals the trip count
          self.replace_atom(h1, ctr, n)
          h1.own_facts()
        res.append((h1, ('exit',)))
      if rounds > 1 or True:
        pass
    else:
      res += exits
    return res

  def find_induction(self, st, backs):
    """Locations (path) whose value grows by the same constant on every back edge."""
    if not backs:
      return {}
    res = {}
    frames = [f.env for f in st.stack]
    def locs(x):
      for f in frames:
        c0 = st.cell(f)
        for name, v in c0.d.items():
          yield ('env', f, name), v
      for addr, c in st.over.items():
        if c.kind == 'obj':
          for name, v in c.d.items():
            yield ('obj', addr, name), v
    for loc, v in locs(st):
      if isinstance(v, C) and isinstance(v.val, bool):
        continue
      p0 = v.p if isinstance(v, (TD, DT)) else (num(v) if isinstance(v, (C, N)) else None)
      if p0 is None:
        continue
      inc = None
      ok = True
      for b in backs:
        if not b.has(loc[1]):
          ok = False
          break
        w = b.cell(loc[1]).d.get(loc[2])
        if type(w) is not type(v) and not (isinstance(w, (C, N)) and isinstance(v, (C, N))):
          ok = False
          break
        pw = w.p if isinstance(w, (TD, DT)) else (num(w) if isinstance(w, (C, N)) else None)
        if pw is None:
          ok = False
          break
        d = pw - p0
        if inc is None:
          inc = d
        if d is not inc:
          ok = False
          break
      if ok and inc is not None and inc.terms and (inc.const is not None or self.loop_inv(inc)):
        res[loc] = (p0, inc, v)
    return res

  def loop_inv(self, p):
    return not any(a.op in ('phi', 'iter', 'at') for m in p.terms for a, _ in m)

  def prep_head(self, h, induct, iv, st, rounds):
    """Writes init + inc*i into the induction locations of a head state."""
    h = h.fork()
    for loc, (p0, inc, v) in (induct or {}).items():
      if not h.has(loc[1]):
        continue
      p = p0 + inc * iv
      self.put(h, loc, p, v)
    return h

  def put(self, h, loc, p, v):
    c = h.mut(loc[1])
    if isinstance(v, TD):
      c.d[loc[2]] = TD(p, lab=v.lab)
    elif isinstance(v, DT):
      c.d[loc[2]] = DT(p, v.tz, lab=v.lab)
    else:
      c.d[loc[2]] = N(p, kind_of(v), lab=v.lab)

  def shift_induction(self, b, induct, iv, rounds):
    """In a back-edge state, an induction value init+inc*(i+1) is renamed to init+inc*i."""
    if not induct:
      return b
    b = b.fork()
    bad = []
    for loc, (p0, inc, v) in list(induct.items()):
      if not b.has(loc[1]):
        bad.append(loc)
        continue
      w = b.cell(loc[1]).d.get(loc[2])
      pw = w.p if isinstance(w, (TD, DT)) else (num(w) if isinstance(w, (C, N)) else None)
      want = p0 + inc if rounds == 1 else p0 + inc * iv + inc
      if pw is want:
        self.put(b, loc, p0 + inc * iv, w if isinstance(w, (TD, DT, N)) else v)
      else:
        bad.append(loc)
    for loc in bad:
      induct.pop(loc, None)
    return b

  def join_head(self, h, b, site, rounds, induct):
    def widen(old, hull):
      if rounds < 4:
        return hull
      lo, lp = hull.lo, hull.lopen
      hi, hp = hull.hi, hull.hopen
      if hull.lo < old.lo:
        lo, lp = next(((x, False) for x in (1, 0, -1) if Fraction(x) <= hull.lo and rounds < 7),
                      (-T.INF, False))
        lo = Fraction(lo) if lo != -T.INF else lo
      if hull.hi > old.hi:
        hi, hp = next(((x, False) for x in (0, 1) if Fraction(x) >= hull.hi and rounds < 7),
                      (T.INF, False))
        hi = Fraction(hi) if hi != T.INF else hi
      return T.Iv(lo, hi, lp, hp)
    j, _ = self.join(h, b, None, None, site, widen)
    return j

  def head_key(self, st):
    if st is None:
      return None
    phi = tuple(sorted((str(k), repr(v)) for k, v in st.facts.b.items()
                       if any(a.op == 'phi' for m in k.terms for a, _ in m)))
    return (self.canon(st), phi)

  def havoc_phis(self, st, site):
    f = st.own_facts()
    f.b = {k: v for k, v in f.b.items()
           if not any(a.op == 'phi' and a.args[0][0] == site for m in k.terms for a, _ in m)}
    f._c = {}

  def replace_atom(self, st, a, p):
    """Substitutes a term for an atom everywhere in a state."""
    mp = {a: p}
    memo = {}

    def val(v):
      t = type(v)
      if t is N:
        q = T.subst(v.p, mp)
        return v if q is v.p else mknum(q, v.kind, lab=v.lab)
      if t is TD:
        q = T.subst(v.p, mp)
        return v if q is v.p else TD(q, lab=v.lab)
      if t is DT:
        q = T.subst(v.p, mp)
        return v if q is v.p else DT(q, v.tz, lab=v.lab)
      if t is Tup:
        items = tuple(val(x) for x in v.items)
        return v if all(x is y for x, y in zip(items, v.items)) else Tup(items, lab=v.lab)
      if t is Un:
        return Un(tuple(val(x) for x in v.alts), lab=v.lab)
      if t is O and T.mentions(v.a, a):
        q = T._subst_atom(v.a, mp)
        at = O_atom(q)
        return O(at, v.typ, lab=v.lab) if at is not None else v
      return v
    for addr in list(st.over):
      c = st.over[addr]
      if isinstance(c.d, dict):
        nd = {k: val(v) for k, v in c.d.items()}
        if any(nd[k] is not c.d[k] for k in nd):
          st.over[addr] = Cell(c.kind, c.cls, nd, c.meta)
      else:
        nd = [val(v) for v in c.d]
        if any(x is not y for x, y in zip(nd, c.d)):
          st.over[addr] = Cell(c.kind, c.cls, nd, c.meta)
    f = st.own_facts()
    nb = {}
    for k, v in f.b.items():
      q = T.subst(k, mp)
      if q is k:
        nb[k] = v
        continue
      c0, rest = q.split()
      if rest.terms:
        kk, nq = T._lead(rest)
        iv2 = v.shift(-c0).scale(1 / kk)
        nb[nq] = iv2.meet(nb[nq]) if nq in nb else iv2
    f.b = nb
    f._c = {}

  # ------------------------------------------------------------ iteration
  def iterate(self, v, st, node):
    """list of (state, [items] | Gen)."""
    if isinstance(v, Tup):
      return [(st, [x.with_lab(v.lab) for x in v.items])]
    if isinstance(v, Gen):
      return [(st, v)]
    if isinstance(v, C):
      if isinstance(v.val, (str, bytes, tuple, list, range)):
        return [(st, [C(x) for x in v.val])]
      return self.throw(st, 'TypeError', node)
    if isinstance(v, Cl) and v.ci.enum_values is not None:
      return [(st, [En(v.ci, n) for n in v.ci.enum_values])]
    if isinstance(v, R):
      c = st.cell(v.addr)
      if c.kind in ('list',):
        if isinstance(c.meta, dict) and 'elem' in c.meta:
          return [(st, Gen(c.meta['elem'], c.meta['len'], 'list', ('l', v.addr), lab=v.lab))]
        return [(st, [x.with_lab(v.lab) for x in c.d])]
      if c.kind in ('dict', 'set'):
        if isinstance(c.meta, dict) and 'key' in c.meta:
          return [(st, Gen(c.meta['key'], T.poly(T.atom('len', ('d', v.addr), isint=True)),
                           'dict', ('d', v.addr), lab=v.lab))]
        if isinstance(c.meta, dict) and c.meta.get('maybe'):
          # each possible presence is a separate path
          outs = [(st, [])]
          for k in c.d:
            nxt = []
            for s1, l in outs:
              if k in c.meta['maybe']:
                nxt.append((s1.fork(), list(l)))
              nxt.append((s1, l + [k]))
            outs = nxt
          return outs
        return [(st, list(c.d))]
      if c.kind == 'arr':
        return self.stubs['$arr.iter'](self, st, v, node)
      if c.kind == 'obj':
        if c.cls.namedtuple:
          return [(st, [c.d[f] for f, _ in c.cls.fields])]
        m, _ = self.class_attr(c.cls, '__iter__', st)
        if m is not None:
          outs = []
          for st1, r in self.call(BM(m, v), [], {}, st, node):
            outs += self.iterate(r, st1, node)
          return outs
        m, _ = self.class_attr(c.cls, '__len__', st)
        g, _ = self.class_attr(c.cls, '__getitem__', st)
        if m is not None and g is not None:
          outs = []
          for st1, n in self.call(BM(m, v), [], {}, st, node):
            if isinstance(n, C) and n.val <= 64:
              cur = [(st1, [])]
              for i in range(n.val):
                cur = [(s3, l + [x]) for s2, l in cur
                       for s3, x in self.call(BM(g, v), [C(i)], {}, s2, node)]
              outs += cur
            else:
              x = self.imprecise('iteration', st1, node)
              outs.append((st1, Gen(x, num(n), 'obj', ('o', v.addr))))
          return outs
    if isinstance(v, O):
      ln = T.poly(T.atom('len', v.a, isint=True, rng=T.Iv(Fraction(0))))
      el = O(T.atom('elem', v.a), 'elem' if v.typ != 'ndarray' else 'ndarray', lab=v.lab)
      return [(st, Gen(el, ln, 'opaque', ('a', v.a.id), lab=v.lab))]
    if isinstance(v, N):
      return self.throw(st, 'TypeError', node)
    x = self.imprecise('iteration over ' + type(v).__name__, st, node, lab=v.lab)
    return [(st, Gen(x, T.poly(T.atom('len', x.a, isint=True, rng=T.Iv(Fraction(0)))), 'opaque',
                     ('a', x.a.id), lab=x.lab))]

  def alts(self, v, st):
    if isinstance(v, Un):
      outs = []
      for i, a in enumerate(v.alts):
        s1 = st if i == len(v.alts) - 1 else st.fork()
        outs.append((s1, a.with_lab(v.lab)))
      return outs
    return [(st, v)]

  # ------------------------------------------------------------ expressions
  def ev(self, e, st):
    m = getattr(self, 'e_' + type(e).__name__, None)
    if m is None:
      return [(st, self.imprecise('expression ' + type(e).__name__, st, e))]
    return m(e, st)

  def ev_list(self, es, st):
    outs = [(st, [])]
    for e in es:
      nxt = []
      for st1, vs in outs:
        if isinstance(e, ast.Starred):
          for st2, v in self.ev(e.value, st1):
            for st3, v in self.alts(v, st2):
              for st4, it in self.iterate(v, st3, e):
                if isinstance(it, Gen):
                  nxt.append((st4, vs + [Gen(it.elem, it.n, 'star', it.site, lab=it.lab)]))
                else:
                  nxt.append((st4, vs + list(it)))
        else:
          for st2, v in self.ev(e, st1):
            nxt.append((st2, vs + [v]))
      outs = nxt
    return outs

  def e_Constant(self, e, st):
    return [(st, C(e.value))]

  def e_Name(self, e, st):
    v, env = self.find_name(e.id, st)
    if v is None:
      b = X('builtins.' + e.id)
      if e.id in ('True', 'False', 'None'):
        return [(st, C({'True': True, 'False': False, 'None': None}[e.id]))]
      if e.id == 'NotImplemented':
        return [(st, X('builtins.NotImplemented'))]
      if hasattr(builtins, e.id):
        return [(st, b)]
      return self.throw(st, 'UnboundLocalError' if st.stack[-1].fi.name != '<module>'
                        else 'NameError', e, (C(e.id),))
    if isinstance(v, Un):
      outs = []
      for st1, a in self.alts(v, st):
        if st1.has(env) and e.id in st1.cell(env).d:
          st1.mut(env).d[e.id] = a
        outs.append((st1, a))
      return outs
    return [(st, v)]

  def find_name(self, name, st):
    env = st.stack[-1].env
    c = st.cell(env)
    if '$g:' + name in c.d:
      env = st.stack[-1].fi.mod.env
    while env is not None:
      c = st.cell(env)
      v = c.d.get(name)
      if v is not None:
        return v, env
      env = c.meta
    return None, None

  def e_Attribute(self, e, st):
    outs = []
    for st1, ob in self.ev(e.value, st):
      outs += self.getattr(ob, e.attr, st1, e)
    return outs

  def e_Tuple(self, e, st):
    outs = []
    for st1, vs in self.ev_list(e.elts, st):
      if any(isinstance(v, Gen) and v.tag == 'star' for v in vs):
        outs.append((st1, self.imprecise('star in tuple', st1, e)))
      else:
        outs.append((st1, Tup(tuple(vs))))
    return outs

  def e_List(self, e, st):
    outs = []
    for st1, vs in self.ev_list(e.elts, st):
      gens = [v for v in vs if isinstance(v, Gen) and v.tag == 'star']
      if gens:
        el = None
        ln = T.ZERO
        for v in vs:
          x = v.elem if isinstance(v, Gen) else v
          ln = ln + (v.n if isinstance(v, Gen) else 1)
          el = x if el is None else self.blend(el, x, ())
        outs.append((st1, R(st1.alloc(Cell('list', None, [], {'elem': el, 'len': ln})))))
      else:
        outs.append((st1, R(st1.alloc(Cell('list', None, vs)))))
    return outs

  def e_Set(self, e, st):
    outs = []
    for st1, vs in self.ev_list(e.elts, st):
      outs.append((st1, R(st1.alloc(Cell('set', None, {v: TRUE for v in vs})))))
    return outs

  def e_Dict(self, e, st):
    outs = [(st, {}, None)]
    for k, v in zip(e.keys, e.values):
      nxt = []
      for st1, d, meta in outs:
        if k is None:
          for st2, vv in self.ev(v, st1):
            if isinstance(vv, R) and st2.cell(vv.addr).kind == 'dict':
              nxt.append((st2, {**d, **st2.cell(vv.addr).d}, meta or st2.cell(vv.addr).meta))
            else:
              x = self.imprecise('dict unpacking', st2, e)
              nxt.append((st2, d, {'key': x, 'val': x}))
        else:
          for st2, kv in self.ev(k, st1):
            for st3, vv in self.ev(v, st2):
              nxt.append((st3, {**d, kv: vv}, meta))
      outs = nxt
    return [(st1, R(st1.alloc(Cell('dict', None, d, meta)))) for st1, d, meta in outs]

  def e_JoinedStr(self, e, st):
    outs = [(st, [])]
    for p in e.values:
      nxt = []
      for st1, parts in outs:
        if isinstance(p, ast.Constant):
          nxt.append((st1, parts + [p.value]))
        else:
          for st2, v in self.ev(p.value, st1):
            spec = ''
            if p.format_spec is not None:
              spec = ''.join(x.value if isinstance(x, ast.Constant) else '{}'
                             for x in p.format_spec.values)
            nxt.append((st2, parts + [(v, spec, p.conversion)]))
      outs = nxt
    return [(st1, mkstr(parts)) for st1, parts in outs]

  def e_FormattedValue(self, e, st):
    return self.ev(e.value, st)

  def e_Lambda(self, e, st):
    fr = st.stack[-1]
    fi = FuncInfo(e, fr.fi.mod, fr.fi.qual + '.<lambda>', None)
    outs = []
    defaults = list(e.args.defaults) + [d for d in e.args.kw_defaults if d is not None]
    for st1, dv in self.ev_list(defaults, st):
      env = fr.env
      if fr.cls is not None:
        env = st1.cell(env).meta
      outs.append((st1, Fn(fi, env, tuple(dv))))
    return outs

  def e_IfExp(self, e, st):
    outs = []
    ctrl = st.ctrl
    for st1, b in self.cond(e.test, st):
      for st2, v in self.ev(e.body if b else e.orelse, st1):
        v = v.with_lab(st2.ctrl)
        st2.ctrl = ctrl
        outs.append((st2, v))
    return outs

  def e_BoolOp(self, e, st):
    outs = []
    isand = isinstance(e.op, ast.And)
    ctrl = st.ctrl
    live = [st]
    for i, x in enumerate(e.values):
      nxt = []
      for st1 in live:
        for st2, v in self.ev(x, st1):
          if i == len(e.values) - 1:
            v = v.with_lab(st2.ctrl)
            st2.ctrl = ctrl
            outs.append((st2, v))
          else:
            for st3, b in self.truth(v, st2, x):
              if b != isand:
                # the operand's own value is the result
                r = v if not _boolish(v) else C(b)
                r = r.with_lab(st3.ctrl | v.lab)
                st3.ctrl = ctrl
                outs.append((st3, r))
              else:
                nxt.append(st3)
      live = nxt
    return outs

  def e_UnaryOp(self, e, st):
    outs = []
    for st1, v in self.ev(e.operand, st):
      if isinstance(e.op, ast.Not):
        c0 = st1.ctrl
        for st2, b in self.truth(v, st1, e):
          r = C(not b, lab=v.lab | st2.ctrl)
          st2.ctrl = c0
          outs.append((st2, r))
      elif isinstance(e.op, ast.USub):
        outs += self.neg(v, st1, e)
      elif isinstance(e.op, ast.UAdd):
        outs.append((st1, v))
      else:
        if isinstance(v, C) and isinstance(v.val, int):
          outs.append((st1, C(~v.val)))
        elif isinstance(v, (O, R)):
          outs += self.stubs['$arr.unary'](self, st1, '~', v, e)
        else:
          outs.append((st1, self.imprecise('~', st1, e, lab=v.lab)))
    return outs

  def neg(self, v, st, e):
    if isinstance(v, (C, N, En)):
      p = num(v)
      if p is not None:
        return [(st, mknum(-p, kind_of(v), lab=v.lab))]
      if isinstance(v, C) and isinstance(v.val, float):
        return [(st, C(-v.val, lab=v.lab))]
    if isinstance(v, TD):
      return [(st, TD(-v.p, lab=v.lab))]
    if isinstance(v, R):
      c = st.cell(v.addr)
      if c.kind == 'obj':
        m, _ = self.class_attr(c.cls, '__neg__', st)
        if m is not None:
          return self.call(BM(m, v), [], {}, st, e)
      if c.kind == 'arr':
        return self.stubs['$arr.unary'](self, st, '-', v, e)
    if isinstance(v, O):
      return self.stubs['$arr.unary'](self, st, '-', v, e)
    if isinstance(v, Un):
      outs = []
      for st1, a in self.alts(v, st):
        outs += self.neg(a, st1, e)
      return outs
    return self.throw(st, 'TypeError', e)

  def e_BinOp(self, e, st):
    outs = []
    op = BINOPS[type(e.op)]
    for st1, a in self.ev(e.left, st):
      for st2, b in self.ev(e.right, st1):
        outs += self.binop(op, a, b, st2, e)
    return outs

  def binop(self, op, a, b, st, node):
    if isinstance(a, Un) or isinstance(b, Un):
      outs = []
      for st1, x in self.alts(a, st):
        for st2, y in self.alts(b, st1):
          outs += self.binop(op, x, y, st2, node)
      return outs
    lab = a.lab | b.lab
    if op == '/' and any(isinstance(x, O) and x.typ == 'path' for x in (a, b)):
      return self.call_ext('pathlib.PurePath', [a, b], {}, st, node)
    h = self.stubs['$binop'](self, op, a, b, st, node, lab)
    if h is not None:
      return h
    # user-defined operators
    for x, y, pre in ((a, b, '__'), (b, a, '__r')):
      if isinstance(x, R):
        c = st.cell(x.addr)
        if c.kind == 'obj':
          m, _ = self.class_attr(c.cls, pre + DUNDER[op] + '__', st)
          if m is not None:
            outs = []
            for st1, r in self.call(BM(m, x), [y], {}, st.fork() if pre == '__' else st, node):
              if isinstance(r, X) and r.name == 'builtins.NotImplemented':
                continue
              outs.append((st1, r))
            if outs or pre == '__r':
              return outs
            # raised, or NotImplemented
            m2 = None
            if isinstance(y, R) and st.cell(y.addr).kind == 'obj':
              m2, _ = self.class_attr(st.cell(y.addr).cls, '__r' + DUNDER[op] + '__', st)
            if m2 is None:
              return []
    if all(self.closed_kind(x, st) for x in (a, b)):
      return self.throw(st, 'TypeError', node, (C(op),))
    if isinstance(a, (O, N)) or isinstance(b, (O, N)):
      return [(st, O(T.atom('op' + op, self.vkey(a, st), self.vkey(b, st)), '?', lab=lab))]
    return self.throw(st, 'TypeError', node, (C(op),))

  def closed_kind(self, v, st):
    """Whether every operator of a value's class is known."""
    if isinstance(v, (C, N, TD, DT)):
      return True
    if isinstance(v, R) and st.cell(v.addr).kind == 'obj':
      c = st.cell(v.addr).cls
      return isinstance(c, ClassInfo) and all(
          e.split('.')[-1] in ('object', 'NamedTuple', 'ABC', 'Generic', 'Protocol') for e in c.allext())
    return False

  def vkey(self, v, st, depth=4):
    """A hashable structural key of a value, usable as an atom argument."""
    if isinstance(v, N):
      return v.p
    if isinstance(v, O):
      return v.a
    if isinstance(v, C):
      p = num(v)
      if p is not None and not isinstance(v.val, bool):
        return p
      return ('c', repr(v.val))
    if isinstance(v, En):
      return ('en', v.cls.name, v.name)
    if isinstance(v, (TD, DT)):
      return (type(v).__name__, v.p)
    if isinstance(v, Tup):
      return ('t',) + tuple(self.vkey(x, st, depth) for x in v.items)
    if isinstance(v, St):
      return ('s',) + tuple(x if isinstance(x, str) else (self.vkey(x[0], st, depth), x[1])
                            for x in v.parts)
    if isinstance(v, R):
      if depth == 0 or not st.has(v.addr):
        return ('ref', v.addr)
      c = st.cell(v.addr)
      if c.kind == 'arr':
        r = ['arr', self.vkey(c.meta['elem'], st, depth - 1)]
        for k in sorted(c.d, key=repr):
          r.append((k, self.vkey(c.d[k], st, depth - 1)))
        return tuple(r)
      if isinstance(c.d, dict):
        items = tuple((self.vkey(k, st, depth - 1) if isinstance(k, V) else k,
                       self.vkey(x, st, depth - 1)) for k, x in sorted(
                           c.d.items(), key=lambda kv: repr(kv[0])))
      else:
        items = tuple(self.vkey(x, st, depth - 1) for x in c.d)
      cn = c.cls.qual if isinstance(c.cls, ClassInfo) else str(c.cls)
      meta = ()
      if isinstance(c.meta, dict):
        meta = tuple((k, self.vkey(x, st, depth - 1) if isinstance(x, V) else x if isinstance(
            x, (T.Poly, T.Atom, str, int)) else repr(x)) for k, x in sorted(c.meta.items()))
      return (c.kind, cn, items, meta)
    if isinstance(v, Gen):
      return ('gen', self.vkey(v.elem, st, depth) if isinstance(v.elem, V) else repr(v.site), v.n)
    if isinstance(v, Fn):
      return ('fn', v.fi.short, getattr(v.fi.node, 'lineno', 0))
    if isinstance(v, BM):
      return ('bm', self.vkey(v.fn, st, depth), self.vkey(v.self_, st, 1))
    if isinstance(v, Cl):
      return ('cl', v.ci.qual)
    if isinstance(v, X):
      return ('x', v.name)
    if isinstance(v, XM):
      return ('xm', self.vkey(v.obj, st, depth), v.name)
    if isinstance(v, Sl):
      return ('sl',) + tuple(self.vkey(x, st, depth) for x in (v.lo, v.hi, v.step))
    if isinstance(v, Un):
      return ('un',) + tuple(self.vkey(x, st, depth) for x in v.alts)
    return (type(v).__name__, repr(v))

  def deep_lab(self, v, st, depth=5):
    """All labels reachable from a value."""
    l = v.lab
    if isinstance(v, N):
      l = l | v.p.lab
    elif isinstance(v, O):
      l = l | v.a.lab
    elif isinstance(v, (TD, DT)):
      l = l | v.p.lab
    elif isinstance(v, Tup):
      for x in v.items:
        l = l | self.deep_lab(x, st, depth)
    elif isinstance(v, Un):
      for x in v.alts:
        l = l | self.deep_lab(x, st, depth)
    elif isinstance(v, St):
      for x in v.parts:
        if isinstance(x, tuple):
          l = l | self.deep_lab(x[0], st, depth)
    elif isinstance(v, R) and depth > 0 and st.has(v.addr):
      c = st.cell(v.addr)
      for x in (c.d.values() if isinstance(c.d, dict) else c.d):
        l = l | self.deep_lab(x, st, depth - 1)
      if isinstance(c.meta, dict):
        for x in c.meta.values():
          if isinstance(x, V):
            l = l | self.deep_lab(x, st, depth - 1)
    elif isinstance(v, BM):
      l = l | self.deep_lab(v.self_, st, depth - 1)
    elif isinstance(v, Gen) and isinstance(v.elem, V):
      l = l | self.deep_lab(v.elem, st, depth - 1)
    return l

  # ------------------------------------------------------------ comparison and truth
  def e_Compare(self, e, st):
    outs = []
    c0 = st.ctrl
    def rec(st1, left, i, lab):
      op = CMPOPS[type(e.ops[i])]
      res = []
      for st2, right in self.ev(e.comparators[i], st1):
        for st3, v in self.compare(op, left, right, st2, e):
          if i == len(e.ops) - 1:
            res.append((st3, v.with_lab(lab)))
          else:
            for st4, b in self.truth(v, st3, e):
              if not b:
                res.append((st4, C(False, lab=lab | v.lab)))
              else:
                res += rec(st4, right, i + 1, lab | v.lab)
      return res
    for st1, left in self.ev(e.left, st):
      for st2, v in rec(st1, left, 0, E0):
        st2.ctrl = c0
        outs.append((st2, v))
    return outs

  def cond(self, e, st):
    """Evaluates a condition: list of (state, bool); labels go to the control context."""
    if isinstance(e, ast.BoolOp):
      outs = []
      live = [st]
      isand = isinstance(e.op, ast.And)
      for x in e.values:
        nxt = []
        for st1 in live:
          for st2, b in self.cond(x, st1):
            if b != isand:
              outs.append((st2, b))
            else:
              nxt.append(st2)
        live = nxt
      return outs + [(x, isand) for x in live]
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
      return [(s1, not b) for s1, b in self.cond(e.operand, st)]
    outs = []
    for st1, v in self.ev(e, st):
      for st2, b in self.truth(v, st1, e):
        outs.append((st2, b))
    if len(outs) > 1:
      for st1, b in outs:
        st1.trace = st1.trace + ((self.where(e, st1), b),)
        if len(st1.trace) > 60:
          st1.trace = st1.trace[-60:]
    return outs

  def truths(self, outs, node):
    res = []
    for st, v in outs:
      res += self.truth(v, st, node)
    return res

  def truth(self, v, st, node):
    """list of (state, bool); the label of v joins the control context."""
    lab = v.lab
    def done(s, b):
      if lab - s.ctrl:
        s.ctrl = s.ctrl | lab
      return (s, b)
    if isinstance(v, C):
      return [done(st, bool(v.val))]
    if isinstance(v, En):
      if v.cls.enum_int:
        return [done(st, bool(v.cls.enum_values[v.name].val))]
      return [done(st, True)]
    if isinstance(v, N):
      outs = []
      for s1, b in self.fork_cmp('!=', v.p, T.ZERO, st):
        outs.append(done(s1, b))
      return outs
    if isinstance(v, Un):
      outs = []
      for s1, a in self.alts(v, st):
        outs += self.truth(a, s1, node)
      return outs
    if isinstance(v, (Fn, BM, Cl, Mo, XM, Pa)):
      return [done(st, True)]
    if isinstance(v, O) and v.typ == 'bool' and v.a.op.startswith('cmp') and len(v.a.args) == 2 and all(
        isinstance(x, T.Poly) for x in v.a.args) and v.a.op[3:] in ('<', '<=', '>', '>=', '==', '!='):
      return [done(*x) for x in self.fork_cmp(v.a.op[3:], v.a.args[0], v.a.args[1], st)]
    if isinstance(v, Tup):
      return [done(st, bool(v.items))]
    if isinstance(v, St):
      return [done(st, True)] if any(isinstance(x, str) and x for x in v.parts) else \
          self.fork_atom(T.atom('truth', self.vkey(v, st)), st, lab)
    if isinstance(v, TD):
      return [done(*x) for x in self.fork_cmp('!=', v.p, T.ZERO, st)]
    if isinstance(v, DT):
      return [done(st, True)]
    if isinstance(v, R):
      c = st.cell(v.addr)
      if c.kind in ('list', 'dict', 'set'):
        if isinstance(c.meta, dict) and ('len' in c.meta):
          return [done(*x) for x in self.fork_cmp('!=', c.meta['len'], T.ZERO, st)]
        if isinstance(c.meta, dict) and 'key' in c.meta and not c.d:
          return self.fork_atom(T.atom('truth', self.vkey(v, st)), st, lab)
        return [done(st, bool(c.d))]
      if c.kind == 'obj':
        if c.cls.namedtuple:
          return [done(st, True)]
        for n in ('__bool__', '__len__'):
          m, _ = self.class_attr(c.cls, n, st)
          if m is not None:
            outs = []
            for s1, r in self.call(BM(m, v), [], {}, st, node):
              outs += [done(*x) for x in self.truth(r, s1, node)]
            return outs
      if c.kind == 'arr':
        return self.stubs['$arr.truth'](self, st, v, node)
      return [done(st, True)]
    if isinstance(v, O):
      if v.typ in ('module', 'logger', 'fn', 'obj', 'regex', 'match!', 'rematch', 'path'):
        return [done(st, True)]
      return self.fork_atom(v.a, st, lab)
    if isinstance(v, X):
      return [done(st, True)]
    if isinstance(v, Gen):
      return [done(*x) for x in self.fork_cmp('!=', v.n, T.ZERO, st)]
    return [done(st, True)]

  def fork_atom(self, a, st, lab=E0):
    known = st.facts.truth.get(a)
    if known is not None:
      if lab - st.ctrl:
        st.ctrl = st.ctrl | lab
      return [(st, known)]
    s2 = st.fork()
    st.own_facts().truth[a] = True
    s2.own_facts().truth[a] = False
    l = lab | a.lab
    if l - st.ctrl:
      st.ctrl = st.ctrl | l
      s2.ctrl = s2.ctrl | l
    return [(st, True), (s2, False)]

  def fork_cmp(self, op, p, q, st):
    lab = p.lab | q.lab
    r = st.facts.decide(op, p, q)
    if r is not None:
      if lab - st.ctrl:
        st.ctrl = st.ctrl | lab
      return [(st, r)]
    s2 = st.fork()
    outs = []
    neg = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[op]
    if st.assume(op, p, q):
      outs.append((st, True))
    if s2.assume(neg, p, q):
      outs.append((s2, False))
    if lab:
      for s, _ in outs:
        s.ctrl = s.ctrl | lab
    return outs

  def cmpnum(self, op, p, q, st, lab):
    c0 = st.ctrl
    outs = []
    for s1, b in self.fork_cmp(op, p, q, st):
      s1.ctrl = c0
      outs.append((s1, C(b, lab=lab | p.lab | q.lab)))
    return outs

  def compare(self, op, a, b, st, node):
    if isinstance(a, Un) or isinstance(b, Un):
      outs = []
      for st1, x in self.alts(a, st):
        for st2, y in self.alts(b, st1):
          outs += self.compare(op, x, y, st2, node)
      return outs
    lab = a.lab | b.lab
    if op in ('is', 'is not'):
      r = self.same(a, b, st)
      if r is None:
        at = T.atom('is', *sorted((self.vkey(a, st), self.vkey(b, st)), key=repr))
        c0 = st.ctrl
        res = [(s1, C(x == (op == 'is'), lab=lab | at.lab)) for s1, x in self.fork_atom(at, st)]
        for s1, _ in res:
          s1.ctrl = c0
        return res
      return [(st, C(r == (op == 'is'), lab=lab))]
    if op in ('in', 'not in'):
      c0 = st.ctrl
      outs = []
      for s1, v in self.contains(b, a, st, node):
        for s2, x in self.truth(v, s1, node):
          l = lab | v.lab | (s2.ctrl - c0)
          s2.ctrl = c0
          outs.append((s2, C(x == (op == 'in'), lab=l)))
      return outs
    h = self.stubs['$compare'](self, op, a, b, st, node, lab)
    if h is not None:
      return h
    if op in ('==', '!='):
      # user equality
      for x, y in ((a, b), (b, a)):
        if isinstance(x, R) and st.cell(x.addr).kind == 'obj':
          c = st.cell(x.addr)
          m, owner = self.class_attr(c.cls, CDUNDER[op], st)
          if m is not None:
            res = self.call(BM(m, x), [y], {}, st, node)
            if any(not_impl(v) for _, v in res):
              res = [(s, C(op == '!=', lab=lab) if not_impl(v) else v) for s, v in res] if (
                  x is b or not isinstance(b, R)) else [q for q in res if not not_impl(q[1])]
              if not res:
                continue
            return res
          if op == '!=':
            m, _ = self.class_attr(c.cls, '__eq__', st)
            if m is not None:
              outs = []
              for s1, r in self.call(BM(m, x), [y], {}, st, node):
                if not_impl(r):
                  outs.append((s1, C(True, lab=lab)))
                  continue
                for s2, t in self.truth(r, s1, node):
                  outs.append((s2, C(not t, lab=lab | r.lab)))
              return outs
          if (c.cls.dataclass or c.cls.namedtuple) and c.cls.dc_eq and isinstance(y, R):
            d = st.cell(y.addr)
            if d.kind == 'obj' and d.cls is c.cls:
              live = [st]
              outs = []
              for f, dv in c.cls.fields:
                if isinstance(dv, DF) and isinstance(dv.compare, C) and dv.compare.val is False:
                  continue
                nxt = []
                for s1 in live:
                  for s2, r in self.compare('==', c.d.get(f, NONE), d.d.get(f, NONE), s1, node):
                    for s3, t in self.truth(r, s2, node):
                      if t:
                        nxt.append(s3)
                      else:
                        outs.append((s3, C(op == '!=', lab=lab)))
                live = nxt
              return outs + [(s1, C(op == '==', lab=lab)) for s1 in live]
            return [(st, C(op == '!=', lab=lab))]
      r = self.structeq(a, b, st)
      if r is not None:
        return [(st, C(r == (op == '=='), lab=lab))]
      at = T.atom('eq', *sorted((self.vkey(a, st), self.vkey(b, st)), key=repr))
      c0 = st.ctrl
      res = [(s1, C(x == (op == '=='), lab=lab | at.lab)) for s1, x in self.fork_atom(at, st)]
      for s1, _ in res:
        s1.ctrl = c0
      return res
    for x, y, o in ((a, b, op), (b, a, SWAP[op])):
      if isinstance(x, R) and st.cell(x.addr).kind == 'obj':
        m, _ = self.class_attr(st.cell(x.addr).cls, CDUNDER[o], st)
        if m is not None:
          res = self.call(BM(m, x), [y], {}, st, node)
          if any(not_impl(v) for _, v in res):
            res = [q for q in res if not not_impl(q[1])]
            if not res:
              continue
          return res
    if all(self.closed_kind(x, st) for x in (a, b)):
      return self.throw(st, 'TypeError', node)
    if isinstance(a, (C, N, En, TD, DT, Tup)) and isinstance(b, (C, N, En, TD, DT, Tup)):
      if not (isinstance(a, Tup) and isinstance(b, Tup)):
        return self.throw(st, 'TypeError', node)
    if isinstance(a, C) and a.val is None or isinstance(b, C) and b.val is None:
      return self.throw(st, 'TypeError', node)
    at = T.atom('cmp' + op, self.vkey(a, st), self.vkey(b, st))
    c0 = st.ctrl
    res = [(s1, C(x, lab=lab | at.lab)) for s1, x in self.fork_atom(at, st)]
    for s1, _ in res:
      s1.ctrl = c0
    return res

  def same(self, a, b, st):
    """Identity, or None if unknown."""
    for x, y in ((a, b), (b, a)):
      if isinstance(x, C) and (x.val is None or x.val is Ellipsis or isinstance(x.val, bool)):
        if isinstance(y, C):
          return x.val is y.val
        if isinstance(y, O) and y.typ in ('?', 'elem', 'arg'):
          return None
        return False
    if isinstance(a, R) and isinstance(b, R):
      return a.addr == b.addr
    if isinstance(a, (En, Cl, X, Mo)) or isinstance(b, (En, Cl, X, Mo)):
      if isinstance(a, O) or isinstance(b, O):
        return None
      return a.key() == b.key()
    if type(a) is not type(b) and not isinstance(a, O) and not isinstance(b, O):
      return False
    if isinstance(a, O) and isinstance(b, O) and a.a is b.a:
      return True
    return None

  def structeq(self, a, b, st):
    if isinstance(a, (En,)) or isinstance(b, (En,)):
      if isinstance(a, O) or isinstance(b, O):
        return None
      return a.key() == b.key()
    if isinstance(a, C) and isinstance(b, C):
      return a.val == b.val
    if isinstance(a, (Cl, X, Mo, Fn)) and isinstance(b, (Cl, X, Mo, Fn)):
      return a.key() == b.key()
    if isinstance(a, C) and a.val is None or isinstance(b, C) and b.val is None:
      o = b if isinstance(a, C) and a.val is None else a
      return None if isinstance(o, O) and o.typ in ('?', 'elem', 'arg') else False
    if isinstance(a, R) and isinstance(b, R):
      if a.addr == b.addr:
        return True
      ca, cb = st.cell(a.addr), st.cell(b.addr)
      if ca.kind == cb.kind == 'obj' or ca.kind != cb.kind:
        return False
      if ca.kind == 'list' and ca.meta is None and cb.meta is None:
        if len(ca.d) != len(cb.d):
          return False
        rs = [self.structeq(x, y, st) for x, y in zip(ca.d, cb.d)]
        if all(r is True for r in rs):
          return True
        if any(r is False for r in rs):
          return False
      return None
    if isinstance(a, Tup) and isinstance(b, Tup):
      if len(a.items) != len(b.items):
        return False
      rs = [self.structeq(x, y, st) for x, y in zip(a.items, b.items)]
      if all(r is True for r in rs):
        return True
      if any(r is False for r in rs):
        return False
      return None
    if isinstance(a, O) and isinstance(b, O) and a.a is b.a:
      return True
    if isinstance(a, St) and isinstance(b, St) and a.key() == b.key():
      return True
    kinds = (C, N, Tup, R, TD, DT, En, Fn, Cl)
    if isinstance(a, kinds) and isinstance(b, kinds) and type(a) is not type(b) and not (
        isinstance(a, (C, N)) and isinstance(b, (C, N))):
      return False
    return None

  def contains(self, cont, x, st, node):
    if isinstance(cont, C) and isinstance(x, C):
      try:
        return [(st, C(x.val in cont.val))]
      except TypeError:
        return self.throw(st, 'TypeError', node)
    if isinstance(cont, R):
      c = st.cell(cont.addr)
      if c.kind in ('dict', 'set'):
        if isinstance(c.meta, dict) and ('key' in c.meta or x in c.meta.get('maybe', ())):
          at = T.atom('in', self.vkey(x, st), ('d', cont.addr, len(c.d)))
          if x in c.d and not (x in c.meta.get('maybe', ())):
            return [(st, TRUE)]
          return [(s1, C(b)) for s1, b in self.fork_atom(at, st)]
        if x in c.d:
          return [(st, TRUE)]
        if isinstance(x, (C, En, Cl, X)) and all(isinstance(k, (C, En, Cl, X)) for k in c.d):
          return [(st, FALSE)]
      if c.kind == 'obj':
        m, _ = self.class_attr(c.cls, '__contains__', st)
        if m is not None:
          return self.call(BM(m, cont), [x], {}, st, node)
    outs = []
    for s1, it in self.iterate(cont, st, node):
      if isinstance(it, Gen):
        at = T.atom('in', self.vkey(x, s1), self.vkey(cont, s1))
        outs += [(s2, C(b, lab=cont.lab)) for s2, b in self.fork_atom(at, s1)]
        continue
      live = [s1]
      for y in it:
        nxt = []
        for s2 in live:
          for s3, r in self.compare('==', x, y, s2, node):
            for s4, b in self.truth(r, s3, node):
              if b:
                outs.append((s4, TRUE))
              else:
                nxt.append(s4)
        live = nxt
      outs += [(s2, FALSE) for s2 in live]
    return outs

  # ------------------------------------------------------------ subscripts
  def e_Slice(self, e, st):
    outs = []
    parts = [e.lower, e.upper, e.step]
    def rec(st1, i, acc):
      if i == 3:
        outs.append((st1, Sl(*acc)))
        return
      if parts[i] is None:
        rec(st1, i + 1, acc + [NONE])
        return
      for st2, v in self.ev(parts[i], st1):
        rec(st2, i + 1, acc + [v])
    rec(st, 0, [])
    return outs

  def e_Subscript(self, e, st):
    outs = []
    for st1, ob in self.ev(e.value, st):
      if isinstance(ob, X) and ob.name.startswith('typing'):
        outs.append((st1, ob))
        continue
      for st2, ix in self.ev(e.slice, st1):
        outs += self.getitem(ob, ix, st2, e)
    return outs

  def getitem(self, ob, ix, st, node):
    if isinstance(ob, Un) or isinstance(ix, Un):
      outs = []
      for st1, a in self.alts(ob, st):
        for st2, b in self.alts(ix, st1):
          outs += self.getitem(a, b, st2, node)
      return outs
    lab = ob.lab | ix.lab
    if isinstance(ob, Cl):
      if ob.ci.enum_values is not None and isinstance(ix, C):
        if ix.val in ob.ci.enum_values:
          return [(st, En(ob.ci, ix.val))]
        return self.throw(st, 'KeyError', node)
      return [(st, ob)]
    if isinstance(ob, Tup) or (isinstance(ob, R) and st.cell(ob.addr).kind == 'list'):
      c = st.cell(ob.addr) if isinstance(ob, R) else None
      items = list(ob.items) if c is None else c.d
      summary = c is not None and isinstance(c.meta, dict) and 'elem' in c.meta
      if isinstance(ix, En) and ix.cls.enum_int:
        ix = ix.cls.enum_values[ix.name]
      if summary:
        if isinstance(ix, Sl):
          ln = T.poly(T.atom('slicelen', self.vkey(ob, st), self.vkey(ix, st), isint=True,
                             rng=T.Iv(Fraction(0))))
          return [(st, R(st.alloc(Cell('list', None, [], {'elem': c.meta['elem'], 'len': ln})),
                         lab=lab))]
        p = num(ix)
        return [(st, self.reindex(c.meta['elem'], None, p if p is not None else
                                  T.ZERO).with_lab(lab))]
      if isinstance(ix, C) and isinstance(ix.val, int):
        if -len(items) <= ix.val < len(items):
          return [(st, items[ix.val].with_lab(lab))]
        return self.throw(st, 'IndexError', node)
      if isinstance(ix, Sl):
        bounds = [x.val if isinstance(x, C) else Ellipsis for x in (ix.lo, ix.hi, ix.step)]
        if Ellipsis not in bounds:
          sub = items[slice(*bounds)]
          if c is None:
            return [(st, Tup(tuple(sub), lab=lab))]
          return [(st, R(st.alloc(Cell('list', None, list(sub))), lab=lab))]
        if not items:
          return [(st, Tup((), lab=lab) if c is None else R(st.alloc(Cell('list', None, [])), lab=lab))]
        el = items[0]
        for v in items[1:]:
          el = self.blend(el, v, ())
        ln = T.poly(T.atom('slicelen', self.vkey(ob, st), self.vkey(ix, st), isint=True,
                           rng=T.Iv(Fraction(0), Fraction(len(items)))))
        bl = [num(x) if isinstance(x, (C, N)) and not (isinstance(x, C) and x.val is None) else None
              for x in (ix.lo, ix.hi)]
        return [(st, R(st.alloc(Cell('list', None, [], {'elem': el, 'len': ln})), lab=lab))]
      p = num(ix)
      if p is not None and items and len(items) <= 12:
        # one path for each possible index
        outs = []
        rest = st
        for i in range(len(items)):
          s1 = rest.fork()
          if s1.assume('==', p, T.const(i)):
            s1.ctrl = s1.ctrl | ix.lab if False else s1.ctrl
            outs.append((s1, items[i].with_lab(lab)))
        for i in range(1, len(items) + 1):
          s1 = rest.fork()
          if s1.facts.iv(p).lo < 0 and s1.assume('==', p, T.const(-i)):
            outs.append((s1, items[-i].with_lab(lab)))
        hi = st.fork()
        if hi.assume('>=', p, T.const(len(items))):
          self.throw(hi, 'IndexError', node)
        return outs
      if items:
        el = items[0]
        for v in items[1:]:
          el = self.blend(el, v, ())
        if isinstance(el, N):
          el = self.reindex(el, None, p) if p is not None else el
        return [(st, el.with_lab(lab))]
      return self.throw(st, 'IndexError', node)
    if isinstance(ob, R):
      c = st.cell(ob.addr)
      if c.kind == 'dict':
        if isinstance(ix, R) or True:
          v = c.d.get(ix)
          if v is None and isinstance(ix, V):
            for k in c.d:
              if k.key() == ix.key():
                v = c.d[k]
                break
          maybe = c.meta.get('maybe', ()) if isinstance(c.meta, dict) else ()
          if v is not None:
            if ix in maybe:
              s2 = st.fork()
              self.throw(s2, 'KeyError', node, (ix,))
            return [(st, v.with_lab(lab))]
          if isinstance(c.meta, dict) and 'val' in c.meta:
            return [(st, c.meta['val'].with_lab(lab))]
          if c.cls == 'defaultdict':
            outs = []
            for s1, dv in self.call(c.meta['factory'], [], {}, st, node):
              s1.mut(ob.addr).d[ix] = dv
              outs.append((s1, dv))
            return outs
          const = (C, En, Cl, X)
          if isinstance(ix, const) and all(isinstance(k, const) for k in c.d):
            return self.throw(st, 'KeyError', node, (ix,))
          outs = []
          for k, v in c.d.items():
            for s1, r in self.compare('==', ix, k, st.fork(), node):
              for s2, b in self.truth(r, s1, node):
                if b:
                  outs.append((s2, v.with_lab(lab)))
          return outs
      if c.kind == 'arr':
        return self.stubs['$arr.get'](self, st, ob, ix, node)
      if c.kind == 'obj':
        m, _ = self.class_attr(c.cls, '__getitem__', st)
        if m is not None:
          return self.call(BM(m, ob), [ix], {}, st, node)
        if c.cls.namedtuple and isinstance(ix, C):
          return [(st, c.d[c.cls.fields[ix.val][0]])]
    if isinstance(ob, C) and isinstance(ix, (C, Sl)):
      try:
        k = ix.val if isinstance(ix, C) else slice(*[x.val for x in (ix.lo, ix.hi, ix.step)])
        return [(st, C(ob.val[k], lab=lab))]
      except AttributeError:
        pass
      except (TypeError, IndexError, KeyError) as ex:
        return self.throw(st, type(ex).__name__, node)
    if isinstance(ob, Gen):
      if isinstance(ix, C) and isinstance(ix.val, int):
        return [(st, self.gen_item(ob, ix.val, st, node))]
    if isinstance(ob, (O, N)):
      if isinstance(ob, O) and '$get.' + ob.typ in self.stubs:
        return self.stubs['$get.' + ob.typ](self, st, ob, ix, node)
      if isinstance(ob, O) and ob.typ in ('ndarray', 'key', '?', 'elem'):
        return self.stubs['$arr.get'](self, st, ob, ix, node)
      a = ob.a if isinstance(ob, O) else self.vkey(ob, st)
      return [(st, O(T.atom('getitem', a, self.vkey(ix, st)), 'elem', lab=lab))]
    if isinstance(ob, (St, C)):
      return [(st, O(T.atom('getitem', self.vkey(ob, st), self.vkey(ix, st)), 'str', lab=lab))]
    return [(st, self.imprecise('subscript of ' + type(ob).__name__, st, node, lab=lab))]

  def setitem(self, ob, ix, v, st, node):
    outs = []
    for st1, ob1 in self.alts(ob, st):
      for st2, ix1 in self.alts(ix, st1):
        outs += self._setitem(ob1, ix1, v, st2, node)
    return outs

  def _setitem(self, ob, ix, v, st, node):
    if isinstance(ob, R):
      c = st.cell(ob.addr)
      if self.on_store is not None:
        self.on_store(st, ob.addr, ix, v, node)
      if c.kind == 'dict':
        c = st.mut(ob.addr)
        if isinstance(ix, (C, En, Cl, X, Tup, O, R)) or not c.d:
          c.d[ix] = v
          if isinstance(c.meta, dict) and ix in c.meta.get('maybe', ()):
            c.meta['maybe'] = c.meta['maybe'] - {ix}
        else:
          c.d[ix] = v
        return [st]
      if c.kind == 'list':
        c = st.mut(ob.addr)
        if isinstance(c.meta, dict) and 'elem' in c.meta:
          c.meta['elem'] = self.blend(c.meta['elem'], v, ())
          return [st]
        if isinstance(ix, C) and isinstance(ix.val, int):
          if -len(c.d) <= ix.val < len(c.d):
            c.d[ix.val] = v
            return [st]
          self.throw(st, 'IndexError', node)
          return []
        c.d[:] = [self.blend(x, v, ()) for x in c.d]
        return [st]
      if c.kind == 'arr':
        return self.stubs['$arr.set'](self, st, ob, ix, v, node)
      if c.kind == 'obj':
        m, _ = self.class_attr(c.cls, '__setitem__', st)
        if m is not None:
          return [s1 for s1, _ in self.call(BM(m, ob), [ix, v], {}, st, node)]
    if isinstance(ob, (C, Tup, N)):
      self.throw(st, 'TypeError', node)
      return []
    if isinstance(ob, O):
      self.emit(st, 'opaquestore', obj=ob, index=ix, value=v, node=node)
    return [st]

  # ------------------------------------------------------------ attributes
  def getattr(self, ob, name, st, node, default=None):
    if isinstance(ob, Un):
      outs = []
      for st1, a in self.alts(ob, st):
        outs += self.getattr(a, name, st1, node, default)
      return outs
    if isinstance(ob, R):
      c = st.cell(ob.addr)
      if c.kind == 'obj':
        v = c.d.get(name)
        if name == '__class__':
          return [(st, Cl(c.cls))]
        if name == '__dict__':
          return [(st, R(st.alloc(Cell('dict', None, {C(k): x for k, x in c.d.items()}))))]
        cv = None
        if v is None or isinstance(v, Un):
          cv, owner = self.class_attr(c.cls, name, st) if v is None else (None, None)
        if v is not None:
          if isinstance(v, Un):
            outs = []
            for st1, a in self.alts(v, st):
              st1.mut(ob.addr).d[name] = a
              outs.append((st1, a.with_lab(ob.lab)))
            return outs
          return [(st, v.with_lab(ob.lab) if ob.lab else v)]
        if cv is not None:
          if isinstance(cv, Prop):
            return self.call(BM(cv.fget, ob), [], {}, st, node)
          if isinstance(cv, SM):
            return [(st, cv.fn if cv.kind == 'staticmethod' else BM(cv.fn, Cl(c.cls)))]
          if isinstance(cv, (Fn, Pa)) or (isinstance(cv, X) and False):
            if isinstance(cv, Pa):
              return [(st, Pa(cv.fn, cv.args + (ob,), cv.kw))]
            return [(st, BM(cv, ob))]
          if isinstance(cv, DF):
            cv = cv.default
          return [(st, cv)]
        if c.cls.namedtuple and name in ('_replace', '_asdict', '_fields'):
          return [(st, XM(ob, name))]
        m, _ = self.class_attr(c.cls, '__getattr__', st)
        if m is not None:
          return self.call(BM(m, ob), [C(name)], {}, st, node)
        ext = c.cls.allext()
        ext = [e for e in ext if e not in ('builtins.object', 'abc.ABC', 'typing.NamedTuple')]
        if default is not None:
          return [(st, default)]
        if ext:
          h = self.stubs.get('$ext.getattr')
          return h(self, st, ob, name, ext, node)
        return self.throw(st, 'AttributeError', node, (C(name),))
      h = self.stubs.get('$machine.getattr') if c.kind == 'machine' else None
      if h is not None:
        return h(self, st, ob, name, node)
      if c.kind == 'arr':
        return self.stubs['$arr.attr'](self, st, ob, name, node)
      h = self.stubs.get('$cell.getattr')
      r = h(self, st, ob, name, node) if h is not None else None
      if r is not None:
        return [(st, r)]
      if c.kind == 'exc' and name == 'args':
        return [(st, Tup(tuple(c.d)))]
      return [(st, XM(ob, name))]
    if isinstance(ob, Mo):
      c = st.cell(self.prog.mods[ob.name].env)
      v = c.d.get(name)
      if v is None and (ob.name + '.' + name) in self.prog.mods:
        v = Mo(ob.name + '.' + name)
      if v is None:
        if default is not None:
          return [(st, default)]
        return self.throw(st, 'AttributeError', node, (C(name),))
      return [(st, v)]
    if isinstance(ob, X):
      h = self.stubs.get(ob.name + '.' + name)
      if isinstance(h, V):
        return [(st, h)]
      return [(st, X(ob.name + '.' + name))]
    if isinstance(ob, Cl):
      ci = ob.ci
      if ci.enum_values is not None:
        if name in ci.enum_values:
          return [(st, En(ci, name))]
        if name == '__members__':
          return [(st, R(st.alloc(Cell('dict', None, {C(n): En(ci, n) for n in ci.enum_values}))))]
      if name in ('__name__', '__qualname__'):
        return [(st, C(ci.name))]
      v, owner = self.class_attr(ci, name, st)
      if v is not None:
        if isinstance(v, SM):
          return [(st, v.fn if v.kind == 'staticmethod' else BM(v.fn, ob))]
        if isinstance(v, DF):
          v = v.default
        return [(st, v)]
      ext = [e for e in ci.allext() if e not in ('builtins.object', 'abc.ABC')]
      if default is not None and not ext:
        return [(st, default)]
      if ext:
        return [(st, X(ext[0] + '.' + name))]
      return self.throw(st, 'AttributeError', node, (C(name),))
    if isinstance(ob, En):
      if name == 'name':
        return [(st, C(ob.name))]
      if name == 'value':
        return [(st, ob.cls.enum_values[ob.name])]
      v, _ = self.class_attr(ob.cls, name, st)
      if isinstance(v, Prop):
        return self.call(BM(v.fget, ob), [], {}, st, node)
      if isinstance(v, Fn):
        return [(st, BM(v, ob))]
      if name in ob.cls.enum_values:
        return [(st, En(ob.cls, name))]
      if v is not None:
        return [(st, v)]
      return self.throw(st, 'AttributeError', node, (C(name),))
    if isinstance(ob, Sup):
      mro = self.self_class(ob.self_, st).mro()
      i = mro.index(ob.ci) if ob.ci in mro else -1
      for c in mro[i + 1:]:
        d = st.cell(c.cell).d
        if name in d:
          v = d[name]
          if isinstance(v, Prop):
            return self.call(BM(v.fget, ob.self_), [], {}, st, node)
          if isinstance(v, SM):
            return [(st, v.fn if v.kind == 'staticmethod' else BM(v.fn, ob.self_))]
          if isinstance(v, Fn):
            return [(st, BM(v, ob.self_))]
          return [(st, v)]
      ext = [e for c in mro[i + 1:] + [ob.ci] for e in c.extbases]
      return [(st, XM(ob, name))]
    if isinstance(ob, C) and ob.val is None:
      if default is not None:
        return [(st, default)]
      return self.throw(st, 'AttributeError', node, (C(name),))
    if isinstance(ob, (TD, DT, C, N, O, Tup, St, Gen)):
      h = self.stubs['$attr'](self, st, ob, name, node)
      if h is not None:
        return h
      if not attr_exists(ob, name):
        if default is not None:
          return [(st, default)]
        return self.throw(st, 'AttributeError', node, (C(name),))
      return [(st, XM(ob, name))]
    if isinstance(ob, (Fn, BM)):
      f = ob.fn if isinstance(ob, BM) else ob
      if name in ('__name__', '__qualname__') and isinstance(f, Fn):
        return [(st, C(f.fi.name))]
      if name == '__self__' and isinstance(ob, BM):
        return [(st, ob.self_)]
      if name == '__func__' and isinstance(ob, BM):
        return [(st, ob.fn)]
      if default is not None:
        return [(st, default)]
    return [(st, XM(ob, name))]

  def self_class(self, v, st):
    if isinstance(v, R):
      return st.cell(v.addr).cls
    if isinstance(v, Cl):
      return v.ci
    return None

  def setattr(self, ob, name, v, st, node):
    if isinstance(ob, Un):
      outs = []
      for st1, a in self.alts(ob, st):
        outs += self.setattr(a, name, v, st1, node)
      return outs
    if isinstance(ob, R):
      c = st.cell(ob.addr)
      if c.kind == 'obj':
        cv, _ = self.class_attr(c.cls, name, st)
        if isinstance(cv, Prop):
          if isinstance(cv.fset, (Fn,)):
            return [s1 for s1, _ in self.call(BM(cv.fset, ob), [v], {}, st, node)]
          self.throw(st, 'AttributeError', node, (C(name),))
          return []
        if c.cls.namedtuple or c.cls.frozen:
          self.throw(st, 'AttributeError', node, (C(name),))
          return []
      if self.on_store is not None:
        self.on_store(st, ob.addr, name, v, node)
      if c.kind in ('obj',):
        st.mut(ob.addr).d[name] = v
      elif c.kind == 'machine' and name == 'state':
        st.mut(ob.addr).d['state'] = v
      return [st]
    if isinstance(ob, Cl):
      if self.on_store is not None:
        self.on_store(st, ob.ci.cell, name, v, node)
      st.mut(ob.ci.cell).d[name] = v
      self.emit(st, 'classstore', cls=ob.ci, name=name, value=v, node=node)
      return [st]
    if isinstance(ob, Mo):
      st.mut(self.prog.mods[ob.name].env).d[name] = v
      self.emit(st, 'globalstore', name=name, value=v, node=node, mod=ob.name)
      return [st]
    if isinstance(ob, C):
      self.throw(st, 'AttributeError', node, (C(name),))
      return []
    self.emit(st, 'opaquestore', obj=ob, index=C(name), value=v, node=node)
    return [st]

  # ------------------------------------------------------------ comprehensions
  def comp(self, e, st, kind):
    """Evaluates a comprehension into a list/set/dict cell."""
    env = st.alloc(Cell('env', None, {}, st.stack[-1].env))
    fr = st.stack[-1]
    st.stack = st.stack + (Frame(env, fr.fi, st.ctrl, e, None),)
    results = [(st, [], None)]  # state, items, generic info

    def rec(st1, gi):
      """yields list of (state, [items] , summary or None)"""
      if gi == len(e.generators):
        if kind == 'dict':
          out = []
          for s1, k in self.ev(e.key, st1):
            for s2, v in self.ev(e.value, s1):
              out.append((s2, [(k, v)], None))
          return out
        return [(s1, [v], None) for s1, v in self.ev(e.elt, st1)]
      g = e.generators[gi]
      out = []
      for s1, itv in self.ev(g.iter, st1):
        for s2, itv in self.alts(itv, s1):
          for s3, it in self.iterate(itv, s2, e):
            if isinstance(it, Gen) or len(it) > 600:
              if not isinstance(it, Gen):
                it = self.list_gen(it, s3)
              iv = T.poly(T.atom('iter', ('C', self.where(e, s3), gi), isint=True,
                                 rng=T.Iv(Fraction(0))))
              s3 = s3.fork()
              el = it.elem(iv, s3) if callable(it.elem) else self.reindex(it.elem, None, iv)
              if it.n is not None:
                s3.assume('<', iv, it.n)
              for s4 in self.assign(g.target, el.with_lab(it.lab), s3, e):
                live = [s4]
                for c in g.ifs:
                  live = [x for y in live for x, b in self.cond(c, y) if b]
                for s5 in live:
                  for s6, items, sm in rec(s5, gi + 1):
                    n = it.n if not g.ifs else T.poly(T.atom(
                        'complen', ('C', self.where(e, s3)), it.n if it.n is not None else 0,
                        isint=True, rng=T.Iv(Fraction(0))))
                    x = items[0] if items else (sm[0] if sm else None)
                    if sm is not None:
                      x = sm[0]
                      n = n * sm[1]
                    out.append((s6, [], (x, n, iv)))
            else:
              live = [(s3, [], None)]
              for v in it:
                nxt = []
                for s4, items, sm in live:
                  for s5 in self.assign(g.target, v, s4, e):
                    conds = [(s5, True)]
                    for c in g.ifs:
                      conds = [(y, b and b2) for x, b in conds
                               for y, b2 in (self.cond(c, x) if b else [(x, False)])]
                    for s6, b in conds:
                      if not b:
                        nxt.append((s6, items, sm))
                      else:
                        for s7, its, sm2 in rec(s6, gi + 1):
                          nxt.append((s7, items + its, sm2 or sm))
                if len(nxt) > self.cap:
                  mm = self.merge([(x, Tup(tuple(flat(i)))) for x, i, _ in nxt])
                  nxt = [(x, unflat(v2.items, kind), None) if isinstance(v2, Tup) else
                         (x, [], None) for x, v2 in mm]
                live = nxt
              out += live
      return out
    outs = []
    for s1, items, sm in rec(st, 0):
      s1.stack = s1.stack[:-1]
      if sm is not None:
        x, n, iv = sm
        if kind == 'dict':
          if x is None:
            x = (self.imprecise('dict comp', s1, e), self.imprecise('dict comp', s1, e))
          outs.append((s1, R(s1.alloc(Cell('dict', None, {}, {'key': x[0], 'val': x[1]})))))
        else:
          outs.append((s1, R(s1.alloc(Cell('list', None, [], {'elem': x, 'len': n})))))
      elif kind == 'dict':
        outs.append((s1, R(s1.alloc(Cell('dict', None, dict(items))))))
      elif kind == 'set':
        outs.append((s1, R(s1.alloc(Cell('set', None, {x: TRUE for x in items})))))
      else:
        outs.append((s1, R(s1.alloc(Cell('list', None, items)))))
    return outs

  def e_ListComp(self, e, st):
    return self.comp(e, st, 'list')

  def e_GeneratorExp(self, e, st):
    return self.comp(e, st, 'list')

  def e_SetComp(self, e, st):
    return self.comp(e, st, 'set')

  def e_DictComp(self, e, st):
    return self.comp(e, st, 'dict')

  def e_NamedExpr(self, e, st):
    outs = []
    for st1, v in self.ev(e.value, st):
      self.store_name(e.target.id, v, st1, e)
      outs.append((st1, v))
    return outs

  def e_Starred(self, e, st):
    return self.ev(e.value, st)

  def e_Await(self, e, st):
    return self.ev(e.value, st)

  # ------------------------------------------------------------ calls
  def e_Call(self, e, st):
    outs = []
    # super() needs the lexical class
    if isinstance(e.func, ast.Name) and e.func.id == 'super':
      fr = st.stack[-1]
      fi = fr.fi
      if e.args:
        res = []
        for st1, vs in self.ev_list(e.args, st):
          res.append((st1, Sup(vs[0].ci, vs[1])))
        return res
      first = fi.node.args.args[0].arg
      return [(st, Sup(fi.cls, st.cell(fr.env).d[first]))]
    for st1, f in self.ev(e.func, st):
      for st2, pos in self.ev_list(e.args, st1):
        kws = [(st2, {})]
        for k in e.keywords:
          nxt = []
          for st3, d in kws:
            for st4, v in self.ev(k.value, st3):
              if k.arg is None:
                if isinstance(v, R) and st4.cell(v.addr).kind == 'dict':
                  c = st4.cell(v.addr)
                  nd = dict(d)
                  for kk, vv in c.d.items():
                    if isinstance(kk, C):
                      nd[kk.val] = vv
                  if isinstance(c.meta, dict) and 'key' in c.meta:
                    nd['**'] = v
                  nxt.append((st4, nd))
                elif isinstance(v, C) and v.val is None:
                  self.throw(st4, 'TypeError', e)
                else:
                  nxt.append((st4, {**d, '**': v}))
              else:
                nxt.append((st4, {**d, k.arg: v}))
          kws = nxt
        for st3, kw in kws:
          outs += self.call(f, pos, kw, st3, e)
    return outs

  def call_method(self, ob, name, args, kw, st, node):
    outs = []
    for st1, m in self.getattr(ob, name, st, node):
      outs += self.call(m, args, kw, st1, node)
    return outs

  def call(self, f, args, kw, st, node):
    self.steps += 1
    if self.steps > self.maxsteps:
      raise Budget('step budget exhausted')
    if isinstance(f, Un):
      outs = []
      for st1, a in self.alts(f, st):
        outs += self.call(a, args, kw, st1, node)
      return outs
    if isinstance(f, Fn):
      return self.call_fn(f, args, kw, st, node)
    if isinstance(f, BM):
      return self.call(f.fn, [f.self_] + list(args), kw, st, node)
    if isinstance(f, Cl):
      return self.instantiate(f.ci, args, kw, st, node)
    if isinstance(f, SM):
      return self.call(f.fn, args, kw, st, node)
    if isinstance(f, Pa):
      if isinstance(f.fn, X) and f.fn.name == 'pyabs.contextmanager':
        return self.call_cm(f.args[0], list(f.args[1:]) + list(args), kw, st, node)
      return self.call(f.fn, list(f.args) + list(args), {**dict(f.kw), **kw}, st, node)
    if isinstance(f, X):
      return self.call_ext(f.name, args, kw, st, node)
    if isinstance(f, XM):
      return self.stubs['$method'](self, st, f.obj, f.name, args, kw, node)
    if isinstance(f, R):
      c = st.cell(f.addr)
      if c.kind == 'obj':
        m, _ = self.class_attr(c.cls, '__call__', st)
        if m is not None:
          return self.call(BM(m, f), args, kw, st, node)
        return self.stubs['$extobj.call'](self, st, f, args, kw, node)
      h = self.stubs.get('$callcell.' + c.kind)
      if h is not None:
        return h(self, st, f, args, kw, node)
    if isinstance(f, O):
      h = self.stubs.get('$call.' + f.typ)
      if h is not None:
        return h(self, st, f, args, kw, node)
      self.emit(st, 'opaquecall', fn=f, args=args, kw=kw, node=node)
      lab = f.lab
      for v in list(args) + list(kw.values()):
        lab = lab | self.deep_lab(v, st)
      return [(st, O(T.atom('call', f.a, tuple(self.vkey(v, st) for v in args),
                            tuple((k, self.vkey(v, st)) for k, v in sorted(kw.items()))), '?',
                     lab=lab))]
    if isinstance(f, C):
      return self.throw(st, 'TypeError', node)
    return [(st, self.imprecise('call of ' + type(f).__name__, st, node))]

  def call_ext(self, name, args, kw, st, node):
    self.emit(st, 'extcall', name=name, args=args, kw=kw, node=node)
    h = self.stubs.get(name)
    if h is None:
      # by unqualified suffix patterns
      for pre, fn in self.stubs['$prefix']:
        if name.startswith(pre):
          h = fn
          break
    if h is not None and not isinstance(h, V):
      return h(self, st, name, args, kw, node)
    lab = E0
    for v in list(args) + list(kw.values()):
      lab = lab | self.deep_lab(v, st)
    w = self.where(node, st)
    self.unmodelled.setdefault(name, w)
    return [(st, O(T.atom('ext', name, tuple(self.vkey(v, st) for v in args),
                          tuple((k, self.vkey(v, st)) for k, v in sorted(kw.items()))), '?',
                   lab=lab | {'imp:%s@%s' % (name, w)}))]

  def call_cm(self, f, args, kw, st, node):
    """A generator-based context manager: the body up to the (single) yield."""
    outs = []
    for st1, r in self.call_fn(f, args, kw, st, node):
      v = NONE
      if isinstance(r, R) and st1.cell(r.addr).kind == 'list' and st1.cell(r.addr).d:
        v = st1.cell(r.addr).d[0]
      outs.append((st1, XM(v, '$cm')))
    return outs

  def bind(self, f, args, kw, st, node):
    """Binds arguments: list of (state, dict) (or raises TypeError)."""
    a = f.fi.node.args
    d = {}
    params = [x.arg for x in a.posonlyargs + a.args]
    pos = list(args)
    star = [i for i, v in enumerate(pos) if isinstance(v, Gen) and v.tag == 'star']
    if star:
      i = star[0]
      g = pos[i]
      need = len(params) - i - (len(pos) - i - 1)
      fill = [self.gen_item(g, k, st, node) for k in range(max(need, 0))
              if params[i + k] not in kw]
      pos = pos[:i] + fill + pos[i + 1:]
    if len(pos) > len(params) and a.vararg is None:
      return self.throw(st, 'TypeError', node, (C('arguments of ' + f.fi.name),))
    for n, v in zip(params, pos):
      d[n] = v
    if a.vararg is not None:
      d[a.vararg.arg] = Tup(tuple(pos[len(params):]))
    kwonly = [x.arg for x in a.kwonlyargs]
    extra = {}
    for k, v in kw.items():
      if k == '**':
        continue
      if k in params or k in kwonly:
        if k in d:
          return self.throw(st, 'TypeError', node, (C('duplicate ' + k),))
        d[k] = v
      else:
        extra[k] = v
    if extra and a.kwarg is None:
      return self.throw(st, 'TypeError', node, (C('unexpected ' + ','.join(extra)),))
    if a.kwarg is not None:
      meta = None
      if '**' in kw:
        x = self.imprecise('**kwargs', st, node)
        meta = {'key': x, 'val': x}
      d[a.kwarg.arg] = R(st.alloc(Cell('dict', None, {C(k): v for k, v in extra.items()}, meta)))
    defs = f.dflt
    npos = len(a.defaults)
    for i, p in enumerate(params):
      if p not in d:
        j = i - (len(params) - npos)
        if j >= 0:
          d[p] = defs[j]
        elif '**' in kw:
          d[p] = self.imprecise('**kwargs', st, node)
        else:
          return self.throw(st, 'TypeError', node, (C('missing %s of %s' % (p, f.fi.name)),))
    j = npos
    for p, dv in zip(a.kwonlyargs, a.kw_defaults):
      if dv is not None:
        if p.arg not in d:
          d[p.arg] = defs[j]
        j += 1
      elif p.arg not in d:
        if '**' in kw:
          d[p.arg] = self.imprecise('**kwargs', st, node)
        else:
          return self.throw(st, 'TypeError', node, (C('missing %s of %s' % (p.arg, f.fi.name)),))
    return [(st, d)]

  maxdepth = 40

  def positional(self, f, args, kw):
    """The arguments with keywords that name the next parameters passed by position."""
    a = f.fi.node.args
    if not kw or any(isinstance(x, Gen) for x in args):
      return args, kw
    args, kw = list(args), dict(kw)
    for p in [x.arg for x in a.posonlyargs + a.args][len(args):]:
      if p not in kw:
        break
      args.append(kw.pop(p))
    return args, kw

  def call_fn(self, f, args, kw, st, node):
    fi = f.fi
    self.callsites += 1
    h = self.summaries.get(fi.short)
    if h is not None:
      r = h(self, st, f, *self.positional(f, args, kw), node)
      if r is not None:
        return r
    b = self.bind(f, args, kw, st, node)
    if not b:
      return []
    st, d = b[0]
    self.visited.add(fi.short)
    w = self.on_call.get(fi.short)
    if w is not None:
      w(self, st, d, node)
    if len(st.stack) > self.maxdepth:
      lab = E0
      for v in d.values():
        lab = lab | self.deep_lab(v, st)
      return [(st, self.imprecise('recursion ' + fi.name, st, node, lab=lab))]
    env = st.alloc(Cell('env', None, d, f.env))
    saved_ctrl = st.ctrl
    depth = len(st.stack)
    st.stack = st.stack + (Frame(env, fi, saved_ctrl, node, None),)
    mark = len(self.sinks[-1])
    if isinstance(fi.node, ast.Lambda):
      outs = [(s, ('ret', v)) for s, v in self.ev(fi.node.body, st)]
    else:
      outs = self.ex(fi.node.body, st)
    # exceptions leave the frame
    for s, e in self.sinks[-1][mark:]:
      s.stack = s.stack[:depth]
    res = []
    for s, sig in outs:
      v = sig[1] if sig is not None and sig[0] == 'ret' else NONE
      if fi.isgen:
        y = s.cell(env).d.get('$yield')
        v = y if y is not None else R(s.alloc(Cell('list', None, [])))
      v = v.with_lab(s.ctrl - saved_ctrl) if s.ctrl - saved_ctrl else v
      s.stack = s.stack[:depth]
      s.ctrl = saved_ctrl
      if not fi.closure and not fi.isgen:
        s.over.pop(env, None)
      res.append((s, v))
    if len(res) > 1:
      res = self.merge(res)
    a = self.on_return.get(fi.short)
    if a is not None:
      for s, v in res:
        a(self, s, d, v, node)
    return res

  on_return = {}

  def instantiate(self, ci, args, kw, st, node):
    h = self.summaries.get(ci.qual.replace(PKG + '.', ''))
    if h is not None:
      r = h(self, st, Cl(ci), args, kw, node)
      if r is not None:
        return r
    if ci.enum_values is not None:
      if not args:
        return self.throw(st, 'TypeError', node)
      v = args[0]
      outs = []
      for st0, v in self.alts(v, st):
        if isinstance(v, En) and v.cls is ci:
          outs.append((st0, v))
          continue
        live = [st0]
        c0 = st0.ctrl
        for n, ev in ci.enum_values.items():
          nxt = []
          for s1 in live:
            if ev is None:
              continue
            for s2, r in self.compare('==', v, ev, s1, node):
              for s3, b in self.truth(r, s2, node):
                s3.ctrl = c0
                if b:
                  outs.append((s3, En(ci, n, lab=v.lab)))
                else:
                  nxt.append(s3)
          live = nxt
        for s1 in live:
          self.throw(s1, 'ValueError', node, (C('%s is not a valid %s' % (v, ci.name)),))
      return outs
    if ci.namedtuple:
      names = [f for f, _ in ci.fields]
      d = dict(zip(names, args))
      if any(isinstance(v, Gen) for v in args):
        g = [v for v in args if isinstance(v, Gen)][0]
        d = {n: self.gen_item(g, i, st, node) for i, n in enumerate(names)}
      d.update({k: v for k, v in kw.items() if k in names})
      if any(k not in names for k in kw) or len(args) > len(names):
        return self.throw(st, 'TypeError', node)
      for n, dv in ci.fields:
        if n not in d:
          if dv is None:
            return self.throw(st, 'TypeError', node)
          d[n] = dv
      return [(st, R(st.alloc(Cell('obj', ci, d))))]
    ext = ci.allext()
    if any(e.replace('builtins.', '') in EXC_NAMES for e in ext) and not self.class_attr(
        ci, '__init__', st)[0]:
      return [(st, R(st.alloc(Cell('obj', ci, {'args': Tup(tuple(args))}))))]
    # abstract methods left over
    addr = st.alloc(Cell('obj', ci, {}))
    ob = R(addr)
    if self.on_event is not None:
      self.emit(st, 'new', cls=ci, addr=addr, node=node)
    if ci.dataclass and '__init__' not in st.cell(ci.cell).d:
      return self.dc_init(ci, ob, args, kw, st, node)
    init, owner = self.class_attr(ci, '__init__', st)
    if init is not None:
      return [(s1, ob) for s1, _ in self.call(BM(init, ob), args, kw, st, node)]
    if any(c.dataclass for c in ci.mro()):
      return self.dc_init(ci, ob, args, kw, st, node)
    real = [e for e in ext if e not in ('builtins.object', 'abc.ABC')]
    if not real and (args or kw):
      return self.throw(st, 'TypeError', node, (C(ci.name + ' takes no arguments'),))
    return [(st, ob)]

  def dc_init(self, ci, ob, args, kw, st, node):
    fields = []
    for c in reversed(ci.mro()):
      for f in c.fields:
        fields = [x for x in fields if x[0] != f[0]] + [f] if f[0] not in [
            x[0] for x in fields] else [f if x[0] == f[0] else x for x in fields]
    init = [f for f in fields if not (isinstance(f[1], DF) and isinstance(f[1].init, C)
                                      and f[1].init.val is False)]
    d = {}
    pos = list(args)
    names = [f[0] for f in init]
    if pos and isinstance(pos[-1], Gen) and pos[-1].tag == 'star':
      g = pos.pop()
      k0 = len(pos)
      for i in range(k0, len(names)):
        if names[i] not in kw:
          pos.append(self.gen_item(g, i - k0, st, node))
    if len(pos) > len(init):
      return self.throw(st, 'TypeError', node, (C('arguments of ' + ci.name),))
    for n, v in zip(names, pos):
      d[n] = v
    for k, v in kw.items():
      if k == '**':
        continue
      if k not in names or k in d:
        if k in ('parent', 'name'):
          continue
        return self.throw(st, 'TypeError', node, (C('argument %s of %s' % (k, ci.name)),))
      d[k] = v
    live = [st]
    for n, dv in fields:
      nxt = []
      for s1 in live:
        c = s1.cell(ob.addr).d
        if n in d:
          s1.mut(ob.addr).d[n] = d[n]
          nxt.append(s1)
        elif isinstance(dv, DF):
          if not (isinstance(dv.factory, C) and dv.factory.val is None):
            for s2, v in self.call(dv.factory, [], {}, s1, node):
              s2.mut(ob.addr).d[n] = v
              nxt.append(s2)
          elif isinstance(dv.default, C) and dv.default.val is Ellipsis:
            if n in names:
              self.throw(s1, 'TypeError', node, (C('missing %s of %s' % (n, ci.name)),))
            else:
              nxt.append(s1)
          else:
            s1.mut(ob.addr).d[n] = dv.default
            nxt.append(s1)
        elif dv is not None:
          s1.mut(ob.addr).d[n] = dv
          nxt.append(s1)
        else:
          self.throw(s1, 'TypeError', node, (C('missing %s of %s' % (n, ci.name)),))
      live = nxt
    outs = []
    for s1 in live:
      pi, _ = self.class_attr(ci, '__post_init__', s1)
      if pi is not None:
        outs += [(s2, ob) for s2, _ in self.call(BM(pi, ob), [], {}, s1, node)]
      else:
        outs.append((s1, ob))
    return outs


COMPOUND = (ast.If, ast.For, ast.While, ast.Try, ast.With, ast.Assert)

EXC_PARENTS = {
    'tf.errors.NotFoundError': ('Exception', 'BaseException', 'tensorflow.errors.NotFoundError',
                                'tensorflow.errors.OpError'),
}
EXC_NAMES = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type)
             and issubclass(getattr(builtins, n), BaseException)}


class _Holder(V):
  __slots__ = ('val',)
  F = ()

  def __init__(self, e):
    self.val = e
    self.lab = E0

  def key(self):
    return ('exc', self.val.name)


def arr_elem(c):
  return c.meta['elem']


def O_atom(p):
  if len(p.terms) == 1:
    (m, c), = p.terms.items()
    if c == 1 and len(m) == 1 and m[0][1] == 1:
      return m[0][0]
  return None


def sigkey(ex):
  if ex is None:
    return None
  if isinstance(ex, tuple):
    return tuple(x if not isinstance(x, V) else x for x in ex)
  return ex


def common(a, b):
  n = 0
  for x, y in zip(a, b):
    if x != y:
      break
    n += 1
  return a[:n]


def flat(items):
  out = []
  for x in items:
    if isinstance(x, tuple):
      out.append(Tup(tuple(x)))
    else:
      out.append(x)
  return out


def unflat(items, kind):
  if kind == 'dict':
    return [tuple(x.items) for x in items]
  return list(items)


def _boolish(v):
  return isinstance(v, C) and isinstance(v.val, bool)


def dotted(e):
  if isinstance(e, ast.Name):
    return e.id
  if isinstance(e, ast.Attribute):
    b = dotted(e.value)
    return b + '.' + e.attr if b else None
  return None


def mkstr(parts):
  out = []
  for p in parts:
    if isinstance(p, tuple):
      v, spec, conv = p
      if isinstance(v, C) and conv in (-1, None, 115):
        try:
          p = format(v.val, spec) if not isinstance(v.val, (type(None),)) else str(v.val)
        except (ValueError, TypeError):
          pass
      elif isinstance(v, En) and conv == -1 and not spec:
        p = (v, spec)
      elif isinstance(v, St) and not spec:
        for q in v.parts:
          if out and isinstance(out[-1], str) and isinstance(q, str):
            out[-1] += q
          else:
            out.append(q)
        continue
      else:
        p = (v, spec)
    if isinstance(p, str) and out and isinstance(out[-1], str):
      out[-1] += p
    else:
      out.append(p)
  if not out:
    return C('')
  if len(out) == 1 and isinstance(out[0], str):
    return C(out[0])
  lab = E0
  for p in out:
    if isinstance(p, tuple):
      lab = lab | p[0].lab
  return St(tuple(out), lab=lab)
