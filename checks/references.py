"""Names, imports, attributes and calls within the package resolve (P55)."""
import ast
import builtins
import os
import symtable

from common import *
from pyabs.program import PKG, Program
from programs import Sharing

MODULE_NAMES = {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__path__', '__loader__'}


class Flat:
  """The interface Sharing needs."""

  def __init__(self, prog):
    self.prog = prog


def undefined(r, n, m, rel):
  t = symtable.symtable(m.src, m.path, 'exec')
  top = {s.get_name() for s in t.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}

  def globals_assigned(t):
    for c in t.get_children():
      for s in c.get_symbols():
        if s.is_declared_global() and s.is_assigned():
          top.add(s.get_name())
      globals_assigned(c)
  globals_assigned(t)

  def go(t, path):
    for s in t.get_symbols():
      if s.is_referenced() and (s.is_global() or t.get_type() == 'module'):
        ok = s.get_name() in top or hasattr(builtins, s.get_name()) or s.get_name() in MODULE_NAMES
        r.check(ok, 'names-defined', '%s%s: %s' % (rel, path, s.get_name()), rel, 'the name %s is never defined' % s.get_name())
    for c in t.get_children():
      go(c, path + '.' + c.get_name())
  go(t, '')


def fields_of(sh, s, c):
  """Constructor parameters of a dataclass of the package: ([(name, has default)], complete)."""
  out, complete = [], True
  for b in c.bases:
    d = sh.resolve(s, b)
    if isinstance(d, tuple) and len(d) == 2 and isinstance(d[1], ast.ClassDef):
      if sh.is_dataclass(d[1]):
        o, k = fields_of(sh, *d)
        out, complete = out + o, complete and k
    elif ast.unparse(b) not in ('object', 'abc.ABC'):
      complete = False
  for b in c.body:
    if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name) and 'ClassVar' not in ast.unparse(b.annotation):
      init, default = True, b.value is not None
      if isinstance(b.value, ast.Call) and ast.unparse(b.value.func).rsplit('.', 1)[-1] == 'field':
        ks = {k.arg: k.value for k in b.value.keywords}
        init = not (isinstance(ks.get('init'), ast.Constant) and ks['init'].value is False)
        default = 'default' in ks or 'default_factory' in ks
      out = [x for x in out if x[0] != b.target.id]
      if init:
        out.append((b.target.id, default))
  return out, complete


def params(sh, s, d, drop_self):
  """(positional names, defaults count, keyword-only {name: has default}, *args, **kw) of a definition, or None."""
  if isinstance(d, ast.FunctionDef):
    known = ('jax.jit', 'staticmethod', 'classmethod', 'property', 'gin.configurable', 'abc.abstractmethod', 'nn.compact',
             'functools.wraps', 'functools.lru_cache', 'functools.cache', 'contextlib.contextmanager', 'overload', 'typing.overload',
             'functools.partial')
    for x in d.decorator_list:
      if ast.unparse(x.func if isinstance(x, ast.Call) else x) not in known:
        return None
    gin = any(ast.unparse(x.func if isinstance(x, ast.Call) else x) == 'gin.configurable' for x in d.decorator_list)
    a = d.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if drop_self:
      pos = pos[1:]
    return pos, len(a.defaults), {x.arg: dv is not None for x, dv in zip(a.kwonlyargs, a.kw_defaults)}, a.vararg, a.kwarg, gin
  if isinstance(d, ast.ClassDef):
    gin = any(ast.unparse(x.func if isinstance(x, ast.Call) else x) == 'gin.configurable' for x in d.decorator_list)
    todo = [(s, d)]
    while todo:
      s1, c = todo.pop(0)
      if any(ast.unparse(b) in ('enum.Enum', 'enum.IntEnum', 'NamedTuple', 'Protocol') for b in c.bases) or any(
          isinstance(b, ast.FunctionDef) and b.name == '__new__' for b in c.body) or any(k.arg == 'metaclass' for k in c.keywords):
        return None
      for b in c.body:
        if isinstance(b, ast.FunctionDef) and b.name == '__init__':
          p = params(sh, s1, b, True)
          return p and p[:5] + (gin,)
      if sh.is_dataclass(c):
        fs, complete = fields_of(sh, s1, c)
        if not complete:
          return None
        return [n for n, _ in fs], len([1 for _, df in fs if df]), {}, None, None, gin
      for b in c.bases:
        x = sh.resolve(s1, b)
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], ast.ClassDef):
          todo.append(x)
        elif ast.unparse(b) not in ('object', 'abc.ABC'):
          return None
    return [], 0, {}, None, None, gin
  return None


def call_fits(p, call):
  """Why a call does not fit parameters, or None."""
  pos, ndef, kwonly, var, kwv, gin = p
  if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
    return None
  if len(call.args) > len(pos) and var is None:
    return '%d positional arguments for %d parameters' % (len(call.args), len(pos))
  given = set(pos[:len(call.args)])
  for k in call.keywords:
    if k.arg in given:
      return 'the parameter %s is given twice' % k.arg
    if k.arg not in pos and k.arg not in kwonly and kwv is None:
      return 'there is no parameter %s' % k.arg
    given.add(k.arg)
  if gin:
    return None                        # a configuration may supply the rest
  need = set(pos[:len(pos) - ndef]) | {k for k, d in kwonly.items() if not d}
  if need - given:
    return 'missing %s' % ', '.join(sorted(need - given))
  return None


def class_names(sh, s, c, seen=()):
  """(names instances may have, complete)."""
  names, complete = set(), True
  for b in ast.walk(c):
    if isinstance(b, ast.FunctionDef) and b.name in ('__getattr__', '__getattribute__', '__setattr__'):
      complete = False
  for b in c.body:
    if isinstance(b, (ast.FunctionDef, ast.ClassDef)):
      names.add(b.name)
    for t in b.targets if isinstance(b, ast.Assign) else [b.target] if isinstance(b, ast.AnnAssign) else []:
      names |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
    if isinstance(b, ast.FunctionDef):
      me = b.args.args[0].arg if b.args.args else None
      for n in ast.walk(b):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
          names.add(n.attr)
        if isinstance(n, ast.Call) and ast.unparse(n.func) in ('setattr', 'vars', 'self.__dict__.update', 'super().__setattr__',
                                                               'object.__setattr__'):
          if len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
            names.add(n.args[1].value)
          else:
            complete = False
  for b in c.bases:
    d = sh.resolve(s, b)
    if isinstance(d, tuple) and len(d) == 2 and isinstance(d[1], ast.ClassDef) and d[1] not in seen:
      n, k = class_names(sh, *d, seen + (c,))
      names, complete = names | n, complete and k
    elif ast.unparse(b) not in ('object', 'abc.ABC'):
      complete = False
  return names, complete


def p55(r, tier):
  """Every reference of the package to itself resolves."""
  prog = Program(REPO)
  library(r, prog)
  sh = Sharing(r, Flat(prog))
  for n, m in sorted(prog.mods.items()):
    rel = n.replace(PKG + '.', '')
    s = sh.mods[n]
    undefined(r, n, m, rel)
    for x in ast.walk(s.tree):
      # imports from the package
      if isinstance(x, ast.ImportFrom) and x.module and x.module.startswith(PKG) and not x.level:
        guarded = in_try(x)
        for a in x.names:
          ok = x.module + '.' + a.name in sh.mods or x.module in sh.mods and (a.name == '*' or a.name in sh.mods[x.module].top)
          r.check(ok or guarded, 'imports-resolve', '%s: %s.%s' % (rel, x.module, a.name), rel)
      if isinstance(x, ast.Import):
        for a in x.names:
          if a.name.startswith(PKG):
            r.check(a.name in sh.mods, 'imports-resolve', '%s: %s' % (rel, a.name), rel)
      # attributes of modules and enumerations of the package
      if isinstance(x, ast.Attribute) and isinstance(x.value, (ast.Name, ast.Attribute)) and not shadowed(x):
        d = sh.resolve(s, x)
        if isinstance(d, str) and d.startswith(PKG) and d not in sh.mods:
          mod = next((d[:i] for i in range(len(d), 0, -1) if d[:i] in sh.mods), None)
          rest = d[len(mod) + 1:].split('.')[0] if mod else ''
          if mod and mod != PKG and rest not in MODULE_NAMES:
            r.check(False, 'attributes-exist', '%s: %s' % (rel, ast.unparse(x)), rel, '%s has no %s' % (mod, rest))
        elif isinstance(d, tuple) and d[0] == 'member' and (sh.is_enum(d[2])):
          names, _ = class_names(sh, d[1], d[2])
          ok = d[3][0] in names or d[3][0].startswith('__')
          r.check(ok, 'attributes-exist', '%s: %s' % (rel, ast.unparse(x)), rel, '%s has no %s' % (d[2].name, d[3][0]))
        elif isinstance(d, tuple):
          r.ok('attributes-exist', '%s: %s' % (rel, ast.unparse(x)))
      # calls
      if isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and not shadowed(x.func):
        d = sh.resolve(s, x.func) if isinstance(base(x.func), ast.Name) else None
        if isinstance(d, tuple) and len(d) == 2 and isinstance(d[1], (ast.FunctionDef, ast.ClassDef)):
          p = params(sh, d[0], d[1], False)
          if p is not None:
            why = call_fits(p, x)
            r.check(why is None, 'calls-fit', '%s: %s(...)' % (rel, ast.unparse(x.func)), '%s:%d' % (rel, x.lineno), why or '')
    # what methods use of their object
    for c in ast.walk(s.tree):
      if not isinstance(c, ast.ClassDef):
        continue
      names, complete = class_names(sh, s, c)
      if not complete or any(isinstance(k, ast.ClassDef) for k in parents(c)):
        continue
      subs = {k for q, (s2, k) in sh.classes.items() if any(sh.resolve(s2, b) == (s, c) for b in k.bases)}
      for b in c.body:
        if not isinstance(b, ast.FunctionDef) or not b.args.args or any(ast.unparse(d) in ('staticmethod', 'classmethod') for d in b.decorator_list):
          continue
        me = b.args.args[0].arg
        for x in ast.walk(b):
          if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me:
            ok = x.attr in names or hasattr(object, x.attr) or x.attr in ('__dict__', '__annotations__', '__dataclass_fields__')
            if not ok and subs:
              ok = None  # a mixin: its subclasses may supply it
            r.check(ok, 'methods-use-what-exists', '%s.%s: %s' % (rel, c.name, x.attr), rel, 'no %s.%s' % (c.name, x.attr))
          # calls of own methods
          if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == me:
            f = next((k for k in c.body if isinstance(k, ast.FunctionDef) and k.name == x.func.attr), None)
            if f is not None and not any(ast.unparse(d) in ('property',) for d in f.decorator_list):
              p = params(sh, s, f, not any(ast.unparse(d) == 'staticmethod' for d in f.decorator_list))
              if p is not None:
                why = call_fits(p, x)
                r.check(why is None, 'calls-fit', '%s.%s: self.%s(...)' % (rel, c.name, f.name), '%s:%d' % (rel, x.lineno), why or '')
    r.count('modules')
    r.functions |= {rel + '.' + f.name for f in ast.walk(s.tree) if isinstance(f, ast.FunctionDef)}


def base(e):
  while isinstance(e, ast.Attribute):
    e = e.value
  return e


def parents(x):
  x = getattr(x, 'parent', None)
  while x is not None:
    yield x
    x = getattr(x, 'parent', None)


def in_try(x):
  for p in parents(x):
    if isinstance(p, ast.Try) and any(h.type is not None and ('ModuleNotFoundError' in ast.unparse(h.type) or 'ImportError' in ast.unparse(
        h.type)) for h in p.handlers):
      return True
  return False


def shadowed(e):
  """Is the first name of e a local variable or parameter where it is used?"""
  b = base(e)
  if not isinstance(b, ast.Name):
    return True
  for p in parents(e):
    if isinstance(p, (ast.FunctionDef, ast.Lambda)):
      a = p.args
      if b.id in {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}:
        return True
      if isinstance(p, ast.FunctionDef):
        for n in ast.walk(p):
          if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == b.id:
            return True
          if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not p and n.name == b.id:
            return True
          if isinstance(n, (ast.Import, ast.ImportFrom)) and any((y.asname or y.name.split('.')[0]) == b.id for y in n.names):
            return True
    if isinstance(p, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
      for g in p.generators:
        if any(isinstance(n, ast.Name) and n.id == b.id for n in ast.walk(g.target)):
          return True
    if isinstance(p, ast.ClassDef):
      if any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == b.id for st in p.body for n in ast.walk(st) if not isinstance(
          st, (ast.FunctionDef, ast.ClassDef))):
        return True
  return False


# ------------------------------------------------------------------ names in installed libraries
SITE = ['/opt/venv/lib/python3.12/site-packages', '/usr/lib/python3.12']


class Library:
  """What installed libraries define, from their source; None where that cannot be told."""

  def __init__(self):
    self.memo = {}

  def file(self, dotted):
    """('file' or 'dir', path), 'binary', or None if there is no such module; False if the library is not installed."""
    parts = dotted.split('.')
    for root in SITE:
      if any(os.path.exists(os.path.join(root, parts[0] + x)) for x in ('', '.py')):
        break
    else:
      return False
    p = os.path.join(root, *parts)
    if os.path.isfile(os.path.join(p, '__init__.py')):
      return 'file', os.path.join(p, '__init__.py')
    if os.path.isfile(p + '.py'):
      return 'file', p + '.py'
    if os.path.isdir(p):
      return 'dir', p
    d = os.path.dirname(p)
    if os.path.isdir(d) and any(f.split('.')[0] == parts[-1] and f.endswith('.so') for f in os.listdir(d)):
      return 'binary'
    return None

  def names(self, dotted):
    """(names a module binds, whether these are all)."""
    if dotted in self.memo:
      return self.memo[dotted]
    self.memo[dotted] = (set(), False)
    f = self.file(dotted)
    if not isinstance(f, tuple) or f[0] != 'file':
      return self.memo[dotted]
    try:
      with open(f[1], encoding='utf-8') as fh:
        tree = ast.parse(fh.read())
    except (SyntaxError, UnicodeDecodeError, OSError):
      return self.memo[dotted]
    pkg = dotted if f[1].endswith('__init__.py') else dotted.rpartition('.')[0]
    out, all_ = set(), True
    todo = list(tree.body)
    while todo:
      x = todo.pop()
      if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
        out.add(x.name)
        all_ = all_ and x.name != '__getattr__'
        continue
      if isinstance(x, (ast.Import, ast.ImportFrom)):
        for a in x.names:
          if a.name == '*':
            src = x.module or ''
            if x.level:
              b = pkg.split('.')
              b = b[:len(b) - x.level + 1]
              src = '.'.join(b + ([src] if src else []))
            o, k = self.names(src)
            out |= o
            all_ = all_ and k
          else:
            out.add(a.asname or a.name.split('.')[0])
        continue
      if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
        out.add(x.id)
      if isinstance(x, ast.Name) and x.id in ('globals', 'setattr', 'exec', 'vars', 'locals'):
        all_ = False
      if isinstance(x, ast.Attribute) and x.attr in ('modules', '__dict__', 'LazyLoader', 'attach', 'lazy_load'):
        all_ = False
      todo += list(ast.iter_child_nodes(x))
    if any(isinstance(x, ast.Global) for x in ast.walk(tree)):
      out |= {n for x in ast.walk(tree) if isinstance(x, ast.Global) for n in x.names}
    self.memo[dotted] = (out, all_)
    return self.memo[dotted]

  def has(self, dotted):
    """Whether a dotted name of a library exists, as far as modules go."""
    parts = dotted.split('.')
    f = self.file(parts[0])
    if f is False or f is None:
      return None
    cur = parts[0]
    for n in parts[1:]:
      f = self.file(cur)
      if f in (None, False, 'binary') or f[0] == 'dir':
        return True if self.file(cur + '.' + n) else None
      names, complete = self.names(cur)
      sub = self.file(cur + '.' + n) if f[1].endswith('__init__.py') else None
      if n in names and not sub:
        return True   # a function, class or alias: no further
      if sub:
        cur = cur + '.' + n
        continue
      return False if complete and n not in names and not n.startswith('__') else None
    return True


def library(r, prog):
  """What the package imports from installed libraries exists there."""
  lib = Library()
  for name, m in sorted(prog.mods.items()):
    rel = name.replace(PKG + '.', '').replace('.', '/') + '.py'
    alias = {}
    for x in ast.walk(m.tree):
      for c in ast.iter_child_nodes(x):
        c.parent = x
    for x in ast.walk(m.tree):
      if isinstance(x, ast.ImportFrom) and not x.level and x.module:
        ds = [(x.module + '.' + a.name, a.asname or a.name) for a in x.names if a.name != '*']
      elif isinstance(x, ast.Import):
        ds = [(a.name, a.asname) for a in x.names]
      else:
        continue
      for d, n in ds:
        if d.split('.')[0] == PKG or d.split('.')[0] == '__future__' or in_try(x):
          continue
        ok = lib.has(d) if '.' in d else True if lib.file(d) else None
        if ok is None:
          r.count('library names that cannot be told')
          continue
        if n:
          alias[n] = d
        elif '.' not in d:
          alias[d] = d
        r.check(ok, 'library-names-exist', '%s: %s' % (rel, d), '%s:%d' % (rel, x.lineno), 'the installed library has no %s' % d)
    seen = set()
    for x in ast.walk(m.tree):
      if not isinstance(x, ast.Attribute) or isinstance(getattr(x, 'parent', None), ast.Attribute) or shadowed(x):
        continue
      b = base(x)
      d = ast.unparse(x)
      if not isinstance(b, ast.Name) or b.id not in alias or d in seen or in_try(x):
        continue
      seen.add(d)
      ok = lib.has(alias[b.id] + d[len(b.id):])
      if ok is None:
        r.count('library names that cannot be told')
        continue
      r.check(ok, 'library-names-exist', '%s: %s' % (rel, d), '%s:%d' % (rel, x.lineno), 'the installed library has no %s' % d)
