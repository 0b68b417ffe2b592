"""A model of the file system: concrete names, arbitrary contents."""
import fnmatch
import posixpath

from common import *
from pyabs.stubs_py import deepcopy
from pyabs.stubs_lib import path_text

MISSING = {'tensorflow': 'tf.errors.NotFoundError'}


def content(*chunks):
  return Tup(tuple(Tup((C(k), v)) for k, v in chunks))


def chunks(t):
  return tuple((x.items[0].val, x.items[1]) for x in t.items)


def dirof(p):
  return posixpath.dirname(p.rstrip('/'))


class FS:
  """Files of the analysed program. st.cell(addr).d: {path: content}; meta: set of directories.

  Contents are sequences of chunks: ('pickle.dump', value) or ('text', value).
  """

  def __init__(self, I, st, files=(), dirs=()):
    self.I = I
    I.stubs = dict(I.stubs)
    c = Cell('modelfs', None, {}, {'dirs': frozenset(dirs)})
    self.addr = st.alloc(c)
    for p, v in dict(files).items():
      c.d[p] = content(*v)
    ref = R(self.addr)
    st.roots = st.roots + (ref,)
    self.log = []
    S = I.stubs
    S['tensorflow.io.gfile.GFile'] = S['builtins.open'] = S['io.open'] = self.open
    S['tensorflow.io.gfile.Open'] = self.open
    S['$m.file'] = self.file
    for m in ('tensorflow.io.gfile.', 'os.', 'os.path.', 'glob.', 'shutil.'):
      for n, h in (('exists', self.exists), ('isfile', self.exists), ('isdir', self.isdir), ('makedirs', self.makedirs),
                   ('mkdir', self.makedirs), ('remove', self.remove), ('unlink', self.remove),
                   ('listdir', self.listdir), ('glob', self.glob), ('iglob', self.glob), ('rename', self.rename),
                   ('replace', self.rename), ('move', self.rename)):
        S[m + n] = h
    for n in ('pickle.dump', 'json.dump'):
      S[n] = self.dump
    for n in ('pickle.load', 'json.load'):
      S[n] = self.load
    S['pickle.dumps'] = self.dumps
    S['pickle.loads'] = self.loads

  # -- state
  def files(self, st):
    return st.cell(self.addr).d

  def dirs(self, st):
    return st.cell(self.addr).meta['dirs']

  def listing(self, st):
    return sorted(self.files(st))

  def put(self, st, p, *new):
    st.mut(self.addr).d[p] = content(*new)

  def get(self, st, p):
    return chunks(self.files(st)[p]) if p in self.files(st) else ()

  def text(self, v):
    t = path_text(v) if v is not None else None
    if t is None:
      raise AnalysisError('a file name is not known: %s' % (v,))
    return posixpath.normpath(t)

  def missing(self, name):
    return 'FileNotFoundError' if not name.startswith('tensorflow') else 'tf.errors.NotFoundError'

  # -- operations
  def open(self, I, st, name, args, kw, node):
    path = args[0] if args else kw.get('name', kw.get('file'))
    mode = args[1] if len(args) > 1 else kw.get('mode', C('r'))
    if not isinstance(mode, C):
      raise AnalysisError('a file mode is not known')
    p = self.text(path)
    self.log.append(('open', p, mode.val))
    m = mode.val
    if 'w' in m or 'x' in m or 'a' in m:
      if dirof(p) not in self.dirs(st):
        return I.throw(st, self.missing(name), node)
      if 'a' not in m or p not in self.files(st):
        self.put(st, p)
    elif p not in self.files(st):
      return I.throw(st, self.missing(name), node)
    return [(st, R(st.alloc(Cell('file', None, {'path': C(p), 'mode': mode, 'open': C(True)}))))]

  def file(self, I, st, obj, name, args, kw, node):
    c = st.cell(obj.addr)
    p = c.d['path'].val
    self.log.append(('file.' + name, p, args))
    if name == '__enter__':
      return [(st, obj)]
    if name == 'write':
      self.put(st, p, *self.get(st, p), ('text', args[0]))
      return [(st, NONE)]
    if name == 'writelines':
      raise AnalysisError('writelines')
    if name in ('read', 'readline'):
      k = self.get(st, p)
      if len(k) == 1 and k[0][0] == 'text':
        return [(st, k[0][1])]
      return [(st, O(T.atom('content', tuple((a, I.vkey(b, st)) for a, b in k)), 'str'))]
    if name == 'close':
      st.mut(obj.addr).d['open'] = C(False)
    return [(st, NONE)]

  def exists(self, I, st, name, args, kw, node):
    p = self.text(args[0])
    return [(st, C(p in self.files(st) or (not name.endswith('isfile') and p in self.dirs(st))))]

  def isdir(self, I, st, name, args, kw, node):
    return [(st, C(self.text(args[0]) in self.dirs(st)))]

  def makedirs(self, I, st, name, args, kw, node):
    p = self.text(args[0])
    ok = kw.get('exist_ok', args[2] if len(args) > 2 else C(False))
    if p in self.dirs(st) and name.startswith('os.') and not (isinstance(ok, C) and ok.val):
      return I.throw(st, 'FileExistsError', node)
    c = st.mut(self.addr)
    d = set(c.meta['dirs'])
    while p and p not in d:
      d.add(p)
      p = dirof(p) if dirof(p) != p else ''
    c.meta = dict(c.meta, dirs=frozenset(d))
    return [(st, NONE)]

  def remove(self, I, st, name, args, kw, node):
    p = self.text(args[0])
    self.log.append(('remove', p, None))
    if p not in self.files(st):
      return I.throw(st, self.missing(name), node)
    del st.mut(self.addr).d[p]
    return [(st, NONE)]

  def rename(self, I, st, name, args, kw, node):
    a, b = self.text(args[0]), self.text(args[1])
    if a not in self.files(st):
      return I.throw(st, self.missing(name), node)
    c = st.mut(self.addr)
    c.d[b] = c.d.pop(a)
    return [(st, NONE)]

  def names(self, st):
    return sorted(self.files(st)) + sorted(self.dirs(st))

  def listdir(self, I, st, name, args, kw, node):
    p = self.text(args[0])
    if p not in self.dirs(st):
      return I.throw(st, self.missing(name), node)
    l = [C(posixpath.basename(x)) for x in self.names(st) if dirof(x) == p and x != p]
    return [(st, R(st.alloc(Cell('list', None, l))))]

  def glob(self, I, st, name, args, kw, node):
    pat = self.text(args[0])
    l = [C(x) for x in self.names(st) if len(x.split('/')) == len(pat.split('/')) and all(
        fnmatch.fnmatchcase(a, b) for a, b in zip(x.split('/'), pat.split('/')))]
    return [(st, R(st.alloc(Cell('list', None, l))))]

  def dump(self, I, st, name, args, kw, node):
    f = args[1] if len(args) > 1 else kw.get('file', kw.get('fp'))
    if not (isinstance(f, R) and st.cell(f.addr).kind == 'file'):
      raise AnalysisError('dump to something that is not a file')
    p = st.cell(f.addr).d['path'].val
    v = deepcopy(st, args[0], {})
    st.roots = st.roots + ((v,) if isinstance(v, V) else ())
    self.put(st, p, *self.get(st, p), (name, v))
    I.emit(st, 'dumped', name=name, path=p, value=v, kw=kw, node=node)
    return [(st, NONE)]

  def load(self, I, st, name, args, kw, node):
    f = args[0]
    if not (isinstance(f, R) and st.cell(f.addr).kind == 'file'):
      raise AnalysisError('load from something that is not a file')
    k = self.get(st, st.cell(f.addr).d['path'].val)
    if len(k) == 1 and k[0][0].split('.')[0] == name.split('.')[0] and k[0][0].endswith('dump'):
      return [(st, deepcopy(st, k[0][1], {}))]
    return I.throw(st, 'EOFError' if name.startswith('pickle') else 'ValueError', node)

  def dumps(self, I, st, name, args, kw, node):
    return [(st, O(T.atom('pickled', I.vkey(args[0], st)), 'bytes'))]

  def loads(self, I, st, name, args, kw, node):
    raise AnalysisError('pickle.loads')
