"""The program under analysis: every non-test module of the package."""
import ast
import hashlib
import os

PKG = 'balloon_learning_environment'


class AnalysisError(Exception):
  """The analysis is broken (an anchor vanished); not a verdict."""


class FuncInfo:
  __slots__ = ('node', 'mod', 'qual', 'cls', 'name', 'closure', 'isgen', 'short', 'isprop')

  def __init__(self, node, mod, qual, cls=None):
    self.node, self.mod, self.qual, self.cls = node, mod, qual, cls
    self.name = getattr(node, 'name', '<lambda>')
    self.closure = any(isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ClassDef))
                       for n in ast.walk(node) if n is not node)
    self.isgen = _isgen(node)
    self.short = qual.replace(PKG + '.', '')
    self.isprop = False

  def __repr__(self):
    return '<fn %s>' % self.short


def _isgen(node):
  if isinstance(node, ast.Lambda):
    return False
  todo = list(node.body)
  while todo:
    n = todo.pop()
    if isinstance(n, (ast.Yield, ast.YieldFrom)):
      return True
    if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
      continue
    todo += list(ast.iter_child_nodes(n))
  return False


class ClassInfo:
  __slots__ = ('name', 'qual', 'mod', 'bases', 'cell', 'enum_values', 'enum_int', 'node',
               'dataclass', 'fields', 'namedtuple', 'extbases', 'dc_eq', 'frozen')

  def __init__(self, name, qual, mod, node):
    self.name, self.qual, self.mod, self.node = name, qual, mod, node
    self.bases, self.extbases = [], []
    self.cell = None          # heap address of the attribute dictionary
    self.enum_values = None   # name -> V, in order
    self.enum_int = False
    self.dataclass = False
    self.fields = []          # [(name, default V or None)]
    self.namedtuple = False
    self.dc_eq = True
    self.frozen = False

  def __repr__(self):
    return '<class %s>' % self.name

  def mro(self):
    out = [self]
    for b in self.bases:
      for c in b.mro():
        if c in out:
          out.remove(c)
        out.append(c)
    return out

  def allext(self):
    r = []
    for c in self.mro():
      r += c.extbases
    return r


class Module:
  def __init__(self, name, path, src):
    self.name, self.path = name, path
    self.src = src
    self.tree = ast.parse(src, path)
    self.env = None
    self.loaded = False


class Program:
  """Parsed sources of the package (tests excluded)."""

  def __init__(self, root):
    self.root = root
    self.mods = {}
    base = os.path.join(root, PKG)
    if not os.path.isdir(base):
      raise AnalysisError('package directory missing: ' + base)
    for d, ds, fs in os.walk(base):
      ds.sort()
      for f in sorted(fs):
        if not f.endswith('.py') or f.endswith('_test.py') or f == 'test_helpers.py':
          continue
        path = os.path.join(d, f)
        rel = os.path.relpath(path, root)[:-3].replace(os.sep, '.')
        pkg = rel.endswith('.__init__')
        if pkg:
          rel = rel[:-len('.__init__')]
        with open(path, encoding='utf-8') as fh:
          src = fh.read()
        try:
          self.mods[rel] = Module(rel, path, src)
        except SyntaxError as e:
          raise AnalysisError('cannot parse %s: %s' % (path, e))

  def rel(self, path):
    return os.path.relpath(path, self.root)

  def digest(self):
    h = hashlib.sha256()
    for n in sorted(self.mods):
      h.update(n.encode() + b'\0' + self.mods[n].src.encode() + b'\0')
    return h.hexdigest()[:16]
