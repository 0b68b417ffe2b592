"""Substitutability of overriding methods and effectiveness of guards (P56, P57)."""
import ast
import builtins
import os

from common import *
from pyabs.program import PKG, Program
from programs import Sharing, Sources, deco_name, site
from references import Flat, parents, shadowed

ABSTRACT = ('abc.abstractmethod', 'abstractmethod')


def own(n):
  """The nodes of a function or module, without those of nested functions and classes."""
  todo = list(ast.iter_child_nodes(n))
  while todo:
    x = todo.pop()
    yield x
    if not isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.AsyncFunctionDef)):
      todo.extend(ast.iter_child_nodes(x))


def methods(c):
  return {f.name: f for f in c.body if isinstance(f, ast.FunctionDef)}


def kind(f):
  ds = [deco_name(d) for d in f.decorator_list]
  if any(d in ('property', 'functools.cached_property') or d.endswith(('.setter', '.getter')) for d in ds):
    return 'property'
  return 'static' if 'staticmethod' in ds else 'class' if 'classmethod' in ds else 'method'


class Calls:
  """The calls a method accepts, as a method of an object."""

  def __init__(self, f):
    a = f.args
    ps = a.posonlyargs + a.args
    drop = 0 if kind(f) == 'static' else 1
    self.pos = [x.arg for x in ps][drop:]
    self.required = max(len(ps) - len(a.defaults) - drop, 0)
    self.most = float('inf') if a.vararg else len(self.pos)
    self.kwonly = {x.arg: d is not None for x, d in zip(a.kwonlyargs, a.kw_defaults)}
    self.names = set([x.arg for x in a.args][drop if not a.posonlyargs else 0:]) | set(self.kwonly)
    self.any = a.kwarg is not None

  def refuses(self, base):
    """A call the base accepts and this does not, or None."""
    if self.required > base.required:
      return 'a call with %d arguments' % base.required
    if self.most < base.most:
      return 'a call with %s arguments' % (base.most if base.most != float('inf') else 'any number of')
    for k, d in base.kwonly.items():
      if k not in self.names and not self.any:
        return 'the keyword %s' % k
    need = {k for k, d in self.kwonly.items() if not d}
    for k in need:
      if base.kwonly.get(k, True) or k not in base.kwonly:
        return 'a call without the keyword %s' % k
    return None


def defaults_of(f):
  a = f.args
  ps = a.posonlyargs + a.args
  out = dict(zip([x.arg for x in ps[len(ps) - len(a.defaults):]], a.defaults))
  out.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
  return out


def p56(r, tier):
  """Every override accepts the calls of what it overrides; what is constructed has every abstract method."""
  prog = Program(REPO)
  sh = Sharing(r, Flat(prog))
  src = Sources(REPO)

  def external(full):
    m, _, n = full.rpartition('.')
    t = src.find(m) if m.startswith('dopamine') else None
    return next((c for c in t.body if isinstance(c, ast.ClassDef) and c.name == n), None) if t is not None else None

  def bases(s, c):
    """[(scope or None, class)] of the bases that are known; complete?"""
    out, complete = [], True
    for b in c.bases:
      d = sh.resolve(s, b) if s is not None else None
      if isinstance(d, tuple) and len(d) == 2 and isinstance(d[1], ast.ClassDef):
        out.append(d)
      elif isinstance(d, str) and external(d) is not None:
        out.append((None, external(d)))
      elif ast.unparse(b) not in ('object', 'abc.ABC', 'ABC'):
        complete = False
    return out, complete

  def ancestors(s, c):
    out, complete = [], True
    for s2, b in bases(s, c)[0]:
      o, k = ancestors(s2, b)
      out += [(s2, b)] + o
      complete = complete and k
    return out, complete and bases(s, c)[1]

  for q, (s, c) in sorted(sh.classes.items()):
    rel = s.name.replace(PKG + '.', '')
    up, complete = ancestors(s, c)
    mine = methods(c)
    r.functions |= {'%s.%s.%s' % (rel, c.name, n) for n in mine}
    for n, f in mine.items():
      if n in ('__init__', '__new__', '__post_init__', '__setstate__', '__reduce__', '__init_subclass__', 'setup', '__eq__'):
        continue
      for s2, b in up:
        g = methods(b).get(n)
        if g is None:
          continue
        what = '%s.%s.%s overrides %s' % (rel, c.name, n, b.name)
        if (kind(f) == 'property') != (kind(g) == 'property'):
          r.check(False, 'same-kind', what, '%s:%d' % (rel, f.lineno), 'a %s overrides a %s' % (kind(f), kind(g)))
          continue
        if kind(f) == 'property':
          r.ok('same-kind', what)
          continue
        why = Calls(f).refuses(Calls(g))
        r.check(why is None, 'accepts-every-call-of-the-base', what, '%s:%d' % (rel, f.lineno),
                why and 'it refuses %s, which the base accepts' % why)
        for k, d in defaults_of(g).items():
          e = defaults_of(f).get(k)
          if e is not None and isinstance(d, ast.Constant) and isinstance(e, ast.Constant):
            r.check(d.value == e.value and type(d.value) is type(e.value), 'same-defaults', '%s: %s' % (what, k), '%s:%d' % (rel, f.lineno),
                    'a call without it means %r to the base and %r here' % (d.value, e.value))
        # keywords with which the base itself calls it
        for f2 in methods(b).values():
          me = f2.args.args[0].arg if f2.args.args else None
          for x in ast.walk(f2):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == n and isinstance(
                x.func.value, ast.Name) and x.func.value.id == me:
              for k in x.keywords:
                if k.arg is not None:
                  r.check(k.arg in Calls(f).names or Calls(f).any, 'accepts-the-keywords-of-the-base', '%s: %s' % (what, k.arg),
                          '%s:%d' % (rel, f.lineno))
        break
    # abstract methods
    left, conc = {}, set(mine) | {t.id for x in c.body if isinstance(x, ast.Assign) for t in x.targets if isinstance(t, ast.Name)}
    for n, f in mine.items():
      if any(deco_name(d) in ABSTRACT for d in f.decorator_list):
        left[n] = c.name
    for s2, b in up:
      for n, f in methods(b).items():
        if n not in conc and any(deco_name(d) in ABSTRACT for d in f.decorator_list):
          left.setdefault(n, b.name)
        conc.add(n)
    concrete = not any(deco_name(d) in ABSTRACT for f in mine.values() for d in f.decorator_list)
    sub = any((s, c) in bases(s3, k)[0] for s3, k in sh.classes.values())
    if up and concrete and not sub:
      r.check(not left, 'implements-every-abstract-method', '%s.%s' % (rel, c.name), '%s:%d' % (rel, c.lineno),
              'missing %s' % ', '.join('%s of %s' % x for x in sorted(left.items())))
  # what is constructed by name
  for n, s in sh.mods.items():
    for x in ast.walk(s.tree):
      if isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and not shadowed(x.func):
        d = sh.resolve(s, x.func)
        if isinstance(d, tuple) and len(d) == 2 and isinstance(d[1], ast.ClassDef):
          ab = [f.name for f in methods(d[1]).values() if any(deco_name(z) in ABSTRACT for z in f.decorator_list)]
          r.check(not ab, 'constructs-no-abstract-class', '%s: %s' % (n.replace(PKG + '.', ''), ast.unparse(x.func)),
                  '%s:%d' % (n, x.lineno), 'abstract: %s' % ab)
  r.count('classes', len(sh.classes))


# ------------------------------------------------------------------ P57
class External:
  """Classes of installed libraries, by source."""

  def __init__(self):
    self.cache = {}

  def tree(self, mod):
    if mod not in self.cache:
      t = None
      rel = mod.replace('.', '/')
      for p in (rel + '.py', rel + '/__init__.py'):
        f = os.path.join(site() or '/nonexistent', p)
        if os.path.isfile(f) and os.path.getsize(f) < 400000:
          with open(f, encoding='utf-8', errors='replace') as h:
            try:
              t = ast.parse(h.read())
            except SyntaxError:
              pass
          break
      self.cache[mod] = t
    return self.cache[mod]

  def cls(self, full, depth=0):
    m, _, n = full.rpartition('.')
    t = self.tree(m) if m else None
    if t is None or depth > 3:
      return None
    for c in t.body:
      if isinstance(c, ast.ClassDef) and c.name == n:
        return c
      if isinstance(c, ast.ImportFrom) and any(a.name == '*' or (a.asname or a.name) == n for a in c.names):
        if c.level:
          pk = m if os.path.isdir(os.path.join(site() or '', m.replace('.', '/'))) else m.rpartition('.')[0]
          base = '.'.join(pk.split('.')[:len(pk.split('.')) - c.level + 1])
          mod = base + ('.' + c.module if c.module else '')
        else:
          mod = c.module
        k = self.cls(mod + '.' + n, depth + 1)
        if k is not None:
          return k
    return None


def conditions(n):
  """Expressions of a node whose truth decides something."""
  if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
    yield n.test
  elif isinstance(n, ast.BoolOp):
    for v in n.values:
      yield v
  elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
    yield n.operand
  elif isinstance(n, ast.comprehension):
    for v in n.ifs:
      yield v


def const(sh, s, e, depth=0):
  """The number an expression of constants is, or None."""
  if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
    return float(e.value)
  if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
    v = const(sh, s, e.operand, depth)
    return None if v is None else -v
  if isinstance(e, ast.BinOp):
    a, b = const(sh, s, e.left, depth), const(sh, s, e.right, depth)
    if a is None or b is None:
      return None
    try:
      return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b}[type(e.op)]()
    except (KeyError, ZeroDivisionError):
      return None
  if isinstance(e, (ast.Name, ast.Attribute)) and depth < 4 and not shadowed(e):
    d = sh.resolve(s, e)
    if isinstance(d, tuple) and len(d) == 2 and isinstance(d[1], (ast.Assign, ast.AnnAssign)) and d[1].value is not None:
      ts = d[1].targets if isinstance(d[1], ast.Assign) else [d[1].target]
      if len(ts) == 1 and isinstance(ts[0], ast.Name):
        return const(sh, d[0], d[1].value, depth + 1)
  return None


def bounds(sh, s, e):
  """(subject text, lower, lower open, upper, upper open) pieces of one comparison chain, or None."""
  if not isinstance(e, ast.Compare):
    return None
  out = []
  items = [e.left] + e.comparators
  for a, op, b in zip(items, e.ops, items[1:]):
    ca, cb = const(sh, s, a), const(sh, s, b)
    if (ca is None) == (cb is None) or not isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq)):
      return None
    sub = a if ca is None else b
    if not isinstance(sub, (ast.Name, ast.Attribute, ast.Subscript)):
      return None
    c = cb if ca is None else ca
    lt = isinstance(op, (ast.Lt, ast.LtE))
    if isinstance(op, ast.Eq):
      out.append((ast.unparse(sub), c, False, c, False))
    elif lt == (ca is None):           # sub < c
      out.append((ast.unparse(sub), float('-inf'), True, c, isinstance(op, (ast.Lt, ast.Gt))))
    else:
      out.append((ast.unparse(sub), c, isinstance(op, (ast.Lt, ast.Gt)), float('inf'), True))
  return out


def contradictory(sh, s, e):
  """Can a conjunction of comparisons with constants never hold?"""
  parts = e.values if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And) else [e]
  box = {}
  for p in parts:
    for sub, lo, lop, hi, hop in bounds(sh, s, p) or ():
      l, lo_, h, ho_ = box.get(sub, (float('-inf'), True, float('inf'), True))
      if (lo, lop) > (l, lo_):
        l, lo_ = lo, lop
      if (hi, not hop) < (h, not ho_):
        h, ho_ = hi, hop
      box[sub] = (l, lo_, h, ho_)
  return next(('%s would lie above %s and below %s' % (k, l, h) for k, (l, a, h, b) in box.items()
               if l > h or l == h and (a or b)), None)


def tautological(sh, s, e):
  """Does a disjunction of comparisons with constants, or of inequalities, always hold?"""
  if not (isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or)):
    return None
  ne = {}
  los, his = {}, {}
  for p in e.values:
    if isinstance(p, ast.Compare) and len(p.ops) == 1 and isinstance(p.ops[0], ast.NotEq) and isinstance(p.left, (ast.Name, ast.Attribute)):
      ne.setdefault(ast.unparse(p.left), set()).add(ast.unparse(p.comparators[0]))
    b = bounds(sh, s, p)
    if b is not None and len(b) == 1:
      sub, lo, lop, hi, hop = b[0]
      if hi == float('inf'):
        los[sub] = min(los.get(sub, (float('inf'), True)), (lo, lop))
      elif lo == float('-inf'):
        his[sub] = max(his.get(sub, (float('-inf'), False)), (hi, not hop))
  for k, v in ne.items():
    if len(v) > 1 and all(isinstance(ast.parse(x, mode='eval').body, ast.Constant) for x in v):
      return '%s always differs from one of %s' % (k, sorted(v))
  for k in set(los) & set(his):
    (lo, lop), (hi, hc) = los[k], his[k]
    if lo < hi or lo == hi and (not lop or hc):
      return '%s is always above %s or below %s' % (k, lo, hi)
  return None


def p57(r, tier):
  """Every check the code states takes effect."""
  prog = Program(REPO)
  sh = Sharing(r, Flat(prog))
  ext = External()

  def is_exception(s, e):
    if not isinstance(e, (ast.Name, ast.Attribute)) or shadowed(e):
      return False
    d = sh.resolve(s, e)
    if isinstance(d, str):
      v = getattr(builtins, d, None)
      return isinstance(v, type) and issubclass(v, BaseException)
    return isinstance(d, tuple) and len(d) == 2 and isinstance(d[1], ast.ClassDef) and any(is_exception(d[0], b) for b in d[1].bases)

  def annotated(s, ann):
    """The class an annotation names: (methods, scope) or None."""
    if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
      try:
        ann = ast.parse(ann.value, mode='eval').body
      except SyntaxError:
        return None
    if not isinstance(ann, (ast.Name, ast.Attribute)):
      return None
    d = sh.resolve(s, ann)
    if isinstance(d, tuple) and len(d) == 2 and isinstance(d[1], ast.ClassDef):
      return d[1]
    return ext.cls(d) if isinstance(d, str) and '.' in d else None

  def bound_method(s, fn, e):
    """Is the expression a function or method that is not called?"""
    if isinstance(e, ast.Name):
      if shadowed(e):
        return None
      d = sh.resolve(s, e)
      return 'a function' if isinstance(d, tuple) and len(d) == 2 and isinstance(d[1], ast.FunctionDef) else None
    if not isinstance(e, ast.Attribute):
      return None
    if isinstance(e.value, ast.Name) and fn is not None:
      a = fn.args
      for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == e.value.id and not any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == x.arg for n in ast.walk(fn)):
          c = annotated(s, x.annotation) if x.annotation is not None else None
          if c is None and x is (a.posonlyargs + a.args)[0] and isinstance(fn.parent, ast.ClassDef) and kind(fn) != 'static':
            c = fn.parent
            if any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == e.attr for n in ast.walk(c)):
              return None
          f = methods(c).get(e.attr) if c is not None else None
          return 'a method' if f is not None and kind(f) != 'property' else None
    if not shadowed(e):
      d = sh.resolve(s, e)
      if isinstance(d, tuple) and len(d) == 2 and isinstance(d[1], ast.FunctionDef):
        return 'a function'
      if isinstance(d, tuple) and d[0] == 'member' and len(d[3]) == 1:
        f = methods(d[2]).get(d[3][0])
        return 'a method' if f is not None and kind(f) != 'property' else None
    return None

  for n, s in sorted(sh.mods.items()):
    rel = n.replace(PKG + '.', '')
    at = lambda x: '%s:%d' % (rel, getattr(x, 'lineno', 0))
    for x in ast.walk(s.tree):
      fn = next((p for p in [x] + list(parents(x)) if isinstance(p, ast.FunctionDef)), None)
      name = '%s.%s' % (rel, fn.name) if fn is not None else rel
      if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call):
        r.check(not is_exception(s, x.value.func), 'errors-are-raised', '%s: %s' % (name, ast.unparse(x.value.func)), at(x),
                'the error is constructed and dropped')
      if isinstance(x, ast.Return) and isinstance(x.value, ast.Call) and is_exception(s, x.value.func):
        ok = fn is not None and fn.returns is not None and ('Exception' in ast.unparse(fn.returns) or 'Error' in ast.unparse(fn.returns))
        r.check(ok, 'errors-are-raised', '%s: return %s' % (name, ast.unparse(x.value.func)), at(x), 'the error is returned, not raised')
      if isinstance(x, ast.Raise) and x.exc is not None:
        e = x.exc.func if isinstance(x.exc, ast.Call) else x.exc
        r.check(ast.unparse(e) != 'NotImplemented', 'raises-an-exception', '%s: raise %s' % (name, ast.unparse(e)), at(x),
                'NotImplemented is not an exception')
      if isinstance(x, ast.Assert):
        bad = isinstance(x.test, ast.Tuple) and x.test.elts
        r.check(not bad, 'assertions-are-tested', '%s: %s' % (name, ast.unparse(x.test)[:80]), at(x), 'a tuple is always true')
        if x.msg is not None:
          r.check(not isinstance(x.msg, (ast.Compare, ast.BoolOp)) and not (isinstance(x.msg, ast.UnaryOp) and isinstance(x.msg.op, ast.Not)),
                  'assertions-are-tested', '%s: %s' % (name, ast.unparse(x.msg)[:80]), at(x), 'a condition given as the message is never tested')
      for e in conditions(x):
        what = bound_method(s, fn, e)
        r.check(what is None, 'conditions-are-evaluated', '%s: %s' % (name, ast.unparse(e)[:80]), at(e),
                what and '%s is always true: it is not called' % what)
        if isinstance(e, ast.Tuple) and e.elts:
          r.fail('conditions-are-evaluated', '%s: %s' % (name, ast.unparse(e)[:80]), at(e), 'a tuple is always true')
        w = contradictory(sh, s, e)
        r.check(w is None, 'conditions-are-possible', '%s: %s' % (name, ast.unparse(e)[:80]), at(e), w or '')
        w = tautological(sh, s, e)
        r.check(w is None, 'conditions-are-not-vacuous', '%s: %s' % (name, ast.unparse(e)[:80]), at(e), w or '')
      if isinstance(x, ast.Compare) and any(isinstance(o, (ast.Is, ast.IsNot)) for o in x.ops):
        for a, o, b in zip([x.left] + x.comparators, x.ops, x.comparators):
          bad = isinstance(o, (ast.Is, ast.IsNot)) and any(
              isinstance(y, ast.Constant) and isinstance(y.value, (int, float, str, bytes)) and not isinstance(y.value, bool) or isinstance(
                  y, (ast.List, ast.Dict, ast.Set)) for y in (a, b))
          r.check(not bad, 'compares-values-by-value', '%s: %s' % (name, ast.unparse(x)[:80]), at(x), 'identity of a literal')
      if isinstance(x, ast.ExceptHandler):
        broad = x.type is None or ast.unparse(x.type) in ('Exception', 'BaseException')
        does = any(not isinstance(b, (ast.Pass, ast.Continue)) and not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))
                   for b in x.body)
        r.check(not broad or does, 'errors-are-not-swallowed', '%s: except %s' % (name, ast.unparse(x.type) if x.type else ''), at(x),
                'every error is silently dropped')
      if isinstance(x, ast.Try):
        for b in x.finalbody:
          for y in [b] + list(own(b)):
            if isinstance(y, (ast.Return, ast.Break, ast.Continue)) and not any(isinstance(p, (ast.For, ast.While)) and p in list(
                own(b)) + [b] for p in parents(y)):
              r.fail('errors-are-not-swallowed', '%s: %s in finally' % (name, ast.unparse(y)), at(y), 'the error is dropped')
    r.functions |= {rel + '.' + f.name for f in ast.walk(s.tree) if isinstance(f, ast.FunctionDef)}
  r.count('modules', len(sh.mods))
