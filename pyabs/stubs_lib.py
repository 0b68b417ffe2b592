"""Models of the other third-party libraries the package uses."""
from fractions import Fraction

from . import terms as T
from .stubs import *  # pylint: disable=wildcard-import
from .stubs import S, numeric
from .stubs_np import asarray, listv, blend_all, clip1
from .stubs_py import file_open
from .values import *  # pylint: disable=wildcard-import
from .values import E0, Cell


# ------------------------------------------------------------------ s2sphere
def mk_angle(st, p, lab=E0):
  return R(st.alloc(Cell('angle', None, {'rad': N(p, lab=lab)})), lab=lab)


def mk_latlng(st, lat, lng, lab=E0, norm=False):
  """A point, coordinates in radians."""
  return R(st.alloc(Cell('latlng', None, {'lat': N(lat, lab=lab), 'lng': N(lng, lab=lab)},
                         {'norm': norm})), lab=lab)


@stub('s2sphere.LatLng.from_degrees', 's2sphere.LatLng.from_radians')
def ll_from(I, st, name, args, kw, node):
  lat, lng = argget(args, kw, 0, 'lat'), argget(args, kw, 1, 'lng')
  if not (numeric(lat) and numeric(lng)) or num(lat) is None or num(lng) is None:
    return [(st, I.imprecise('LatLng', st, node, 'latlng?', lab=labs(lat, lng)))]
  k = T.PI / 180 if name.endswith('degrees') else 1
  return [(st, mk_latlng(st, num(lat).scale(k), num(lng).scale(k), labs(lat, lng)))]


@stub('s2sphere.LatLng')
def ll_new(I, st, name, args, kw, node):
  if not args and not kw:
    return [(st, mk_latlng(st, T.ZERO, T.ZERO))]
  xs = []
  for i, n in enumerate(('lat', 'lng')):
    a = argget(args, kw, i, n)
    if isinstance(a, R) and kindof(st, a) == 'angle':
      xs.append(num(st.cell(a.addr).d['rad']))
    elif numeric(a) and num(a) is not None:
      xs.append(num(a))
    else:
      return [(st, I.imprecise('LatLng', st, node, 'latlng?'))]
  return [(st, mk_latlng(st, xs[0], xs[1], labs(*args)))]


HALF_PI = T.const(T.PI / 2)
FULL_PI = T.const(T.PI)


@stub('$m.latlng')
def m_latlng(I, st, obj, name, args, kw, node):
  c = st.cell(obj.addr)
  lat, lng = num(c.d['lat']), num(c.d['lng'])
  lab = obj.lab | c.d['lat'].lab | c.d['lng'].lab
  if name in ('lat', 'lng'):
    return [(st, mk_angle(st, num(c.d[name]), c.d[name].lab | obj.lab))]
  if name == 'normalized':
    I.emit(st, 'latlng.normalized', obj=obj, node=node)
    nlat = T.tmax([-HALF_PI, T.tmin([HALF_PI, lat], st.facts)], st.facts)
    nlng = lng if st.facts.decide('<=', lng, FULL_PI) and st.facts.decide(
        '>=', lng, -FULL_PI) else T.poly(T.atom('drem', lng, rng=T.Iv(-T.PI, T.PI)))
    return [(st, mk_latlng(st, nlat, nlng, lab, True))]
  if name == 'is_valid':
    I.emit(st, 'latlng.is_valid', obj=obj, node=node)
    outs, cur = [], st
    for p, b in ((lat, HALF_PI), (lng, FULL_PI)):
      # inside the closed range, or outside on either side
      nxt = None
      for s1, t1 in I.fork_cmp('<=', p, b, cur):
        if not t1:
          outs.append((s1, C(False, lab=lab)))
          continue
        for s2, t2 in I.fork_cmp('>=', p, -b, s1):
          if t2:
            nxt = s2
          else:
            outs.append((s2, C(False, lab=lab)))
      cur = nxt
      if cur is None:
        break
    if cur is not None:
      outs.append((cur, C(True, lab=lab)))
    return outs
  if name == 'get_distance':
    o = args[0]
    oc = st.cell(o.addr) if kindof(st, o) == 'latlng' else None
    p = T.poly(T.atom('greatcircle', lat, lng, *([num(oc.d['lat']), num(oc.d['lng'])] if oc else
                                                 [I.vkey(o, st)]), rng=T.Iv(Fraction(0), T.PI)))
    return [(st, mk_angle(st, p, lab | I.deep_lab(o, st)))]
  if name in ('__eq__', '__ne__'):
    return I.compare('==' if name == '__eq__' else '!=', obj, args[0], st, node)
  return [(st, opaque(I, st, 'latlng.' + name, [obj] + list(args)))]


@stub('$callcell.latlng')
def call_latlng(I, st, f, args, kw, node):
  return I.throw(st, 'TypeError', node)


def angle_attr(I, st, ob, name):
  p = num(st.cell(ob.addr).d['rad'])
  lab = ob.lab | st.cell(ob.addr).d['rad'].lab
  if name == 'radians':
    return N(p, lab=lab)
  if name == 'degrees':
    return N(p.scale(180 / T.PI), lab=lab)
  return None


# ------------------------------------------------------------------ attributes of library cells
@stub('$cell.getattr')
def cell_getattr(I, st, ob, name, node):
  k = kindof(st, ob)
  if k == 'angle':
    r = angle_attr(I, st, ob, name)
    return r
  if k == 'space':
    d = st.cell(ob.addr).d
    return d.get(name)
  return None


# ------------------------------------------------------------------ scipy.interpolate
@stub('scipy.interpolate.interp1d')
def interp1d(I, st, name, args, kw, node):
  xs, ys = asarray(I, st, args[0], node), asarray(I, st, args[1], node)
  I.emit(st, 'interp1d', x=args[0], y=args[1], kw=kw, node=node)
  d = {'kind': kw.get('kind', C('linear')), 'fill': kw.get('fill_value', NONE),
       'bounds': kw.get('bounds_error', NONE), 'x': xs if xs is not None else args[0],
       'y': ys if ys is not None else args[1]}
  return [(st, R(st.alloc(Cell('interp1d', None, d))))]


def consts(st, a):
  if not isarr(st, a):
    return None
  c = st.cell(a.addr)
  sh = c.meta.get('shape')
  if not sh or len(sh) != 1 or not isinstance(sh[0], int) or len(c.d) < sh[0]:
    return None
  r = []
  for i in range(sh[0]):
    p = num(c.d[i]) if numeric(c.d[i]) else None
    if p is None or p.const is None:
      return None
    r.append(p.const)
  return r


@stub('$callcell.interp1d')
def call_interp1d(I, st, f, args, kw, node):
  c = st.cell(f.addr)
  x = args[0]
  it = listv(st, x)
  v = it[0] if it is not None and len(it) == 1 else x
  xs, ys = consts(st, c.d['x']), consts(st, c.d['y'])
  fill = c.d['fill']
  extrap = isinstance(fill, C) and fill.val == 'extrapolate'
  filled = not extrap and not (isinstance(fill, C) and fill.val is None)
  berr = c.d['bounds']
  I.emit(st, 'interp1d.call', f=f, x=v, extrap=extrap, filled=filled, node=node)
  lab = I.deep_lab(v, st)
  if numeric(v) and num(v) is not None and xs and ys:
    p = num(v)
    raises = not extrap and not filled and not (isinstance(berr, C) and berr.val is False)
    if raises:
      for op, b in (('<', xs[0]), ('>', xs[-1])):
        if st.facts.decide(op, p, T.const(b)) is not False:
          s2 = st.fork()
          s2.assume(op, p, T.const(b))
          I.throw(s2, 'ValueError', node, (C('out of the interpolation range'),))
      st.assume('>=', p, T.const(xs[0]))
      st.assume('<=', p, T.const(xs[-1]))
    a = T.atom('pwl', p, tuple(xs), tuple(ys), extrap)
    if p.const is not None:
      return [(st, N(T.const(pwl_rule(st.facts, a).lo), lab=lab))]
    return [(st, N(T.poly(a), lab=lab))]
  if numeric(v) and num(v) is not None:
    return [(st, opaque_num(I, st, 'interp1d', [v, c.d['x'], c.d['y']]))]
  return [(st, opaque(I, st, 'interp1d', [v, c.d['x'], c.d['y']], 'ndarray'))]


def pwl_rule(facts, a):
  p, xs, ys, extrap = a.args
  i = facts.iv(p)
  pts = []
  def at(x):
    j = 0
    while j < len(xs) - 2 and x > xs[j + 1]:
      j += 1
    if xs[j + 1] == xs[j]:
      return ys[j]
    return ys[j] + (ys[j + 1] - ys[j]) * (x - xs[j]) / (xs[j + 1] - xs[j])
  lo, hi = i.lo, i.hi
  sl = (ys[1] - ys[0]) / (xs[1] - xs[0]) if extrap else 0
  sr = (ys[-1] - ys[-2]) / (xs[-1] - xs[-2]) if extrap else 0
  rlo, rhi = [], []
  for x, y in zip(xs, ys):
    if lo <= x <= hi:
      pts.append(y)
  for x in (lo, hi):
    if x in (T.INF, -T.INF):
      s = -sl if x < 0 else sr
      pts.append(ys[0] if x < 0 else ys[-1])
      if s > 0:
        rhi.append(T.INF)
      elif s < 0:
        rlo.append(-T.INF)
    else:
      x = x if extrap else min(max(x, xs[0]), xs[-1])
      pts.append(at(x))
  return T.Iv(min(pts + rlo), max(pts + rhi))


T.ATOM_RULES['pwl'] = pwl_rule


@stub('scipy.interpolate.interp2d', 'scipy.interpolate.RectBivariateSpline',
      'scipy.interpolate.RegularGridInterpolator')
def interp2d(I, st, name, args, kw, node):
  I.emit(st, 'interp2d', args=args, kw=kw, node=node)
  z = consts(st, asarray(I, st, args[2], node)) if len(args) > 2 and asarray(
      I, st, args[2], node) is not None else None
  return [(st, R(st.alloc(Cell('interp2d', None, {
      'x': args[0], 'y': args[1] if len(args) > 1 else NONE, 'z': args[2] if len(
          args) > 2 else NONE, 'lo': mknum(T.const(min(z))) if z else NONE,
      'hi': mknum(T.const(max(z))) if z else NONE}))))]


@stub('$callcell.interp2d')
def call_interp2d(I, st, f, args, kw, node):
  c = st.cell(f.addr)
  lo, hi = num(c.d['lo']), num(c.d['hi'])
  rng = T.Iv(lo.const, hi.const) if lo is not None and hi is not None else None
  I.emit(st, 'interp2d.call', f=f, args=args, node=node)
  e = opaque_num(I, st, 'interp2d', [c.d['x'], c.d['y'], c.d['z']] + list(args), rng=rng)
  return [(st, fresh_arr(st, e, (1,), {0: e}, lab=e.lab))]


def interp_rows(I, st, xi):
  """The query points of an interpolation, or None."""
  if xi is None:
    return None
  c = st.cell(xi.addr)
  sh = c.meta.get('shape')
  if not sh or not all(isinstance(x, int) for x in sh) or len(sh) > 2:
    return None
  rows = []
  for i in range(sh[0] if len(sh) == 2 else 1):
    row = []
    for j in range(sh[-1]):
      v = c.d.get((i, j), c.d.get(('*', j))) if len(sh) == 2 else c.d.get(j)
      if v is None or not numeric(v) or num(v) is None:
        return None
      p = num(v)
      e = T.elem_atoms(p)
      if e:
        return None
      row.append(p)
    rows.append(row)
  return rows if len(rows) <= I.arr_limit else None


@stub('scipy.interpolate.interpn')
def interpn(I, st, name, args, kw, node):
  I.emit(st, 'interpn', points=args[0], values=args[1], xi=args[2], kw=kw, node=node)
  xi = asarray(I, st, args[2], node)
  rows = interp_rows(I, st, xi)
  if rows is not None:
    # each row is interpolated by itself; the last axis of the values holds u and v
    lab = I.deep_lab(args[0], st) | I.deep_lab(args[1], st) | I.deep_lab(xi, st)
    key = (I.vkey(args[0], st), I.vkey(args[1], st))
    d = {}
    for i, row in enumerate(rows):
      for j in range(2):
        d[(i, j)] = N(T.poly(T.atom('fn', 'interpn.%d' % j, key, tuple(row), rng=T.Iv(), lab=lab)), lab=lab)
    return [(st, fresh_arr(st, blend_all(I, list(d.values())), (len(rows), 2), d, lab=lab))]
  return [(st, opaque(I, st, 'interpn', list(args[:3]), 'ndarray'))]


# ------------------------------------------------------------------ transitions.Machine
@stub('transitions.Machine', 'transitions.core.Machine', 'transitions.extensions.LockedMachine')
def machine_new(I, st, name, args, kw, node):
  names = ('model', 'states', 'initial', 'transitions')
  g = {n: argget(args, kw, i, n) for i, n in enumerate(names)}
  I.emit(st, 'machine', kw=g, node=node)
  trans = []
  items = g['transitions']
  ok = True
  rows = listv(st, items) if items is not None else []
  for t in rows or []:
    if kindof(st, t) == 'dict':
      d = {k.val: v for k, v in st.cell(t.addr).d.items() if isinstance(k, C)}
    else:
      l = listv(st, t)
      if l is None:
        ok = False
        continue
      d = dict(zip(('trigger', 'source', 'dest', 'conditions', 'unless', 'before', 'after'), l))
    if any(k in d and not (isinstance(d[k], C) and d[k].val is None)
           for k in ('conditions', 'unless', 'before', 'after', 'prepare')):
      ok = False
    trans.append((d.get('trigger'), d.get('source'), d.get('dest')))
  if rows is None:
    ok = False
  ini = g['initial']
  sl = listv(st, g['states']) if g['states'] is not None else None
  if sl is None and isinstance(g['states'], Cl) and g['states'].ci.enum_values is not None:
    sl = [En(g['states'].ci, n) for n in g['states'].ci.enum_values]
  if ini is None:
    ini = C('initial')
  if isinstance(ini, C) and isinstance(ini.val, str) and sl:
    for s in sl:
      if isinstance(s, En) and s.name == ini.val:
        ini = s
  return [(st, R(st.alloc(Cell('machine', None, {'state': ini}, {
      'trans': tuple(trans), 'ok': ok, 'states': tuple(sl or ())}))))]


def state_matches(st, src, cur):
  """Does a transition's source match the current state?"""
  if isinstance(src, C) and src.val == '*':
    return True
  l = listv(st, src)
  for s in l if l is not None else [src]:
    if isinstance(s, C) and isinstance(s.val, str) and isinstance(cur, En):
      if s.val == '*' or s.val == cur.name:
        return True
    elif s == cur or isinstance(s, En) and isinstance(cur, En) and s.key() == cur.key():
      return True
  return False


def machine_trigger(I, st, ob, trig, node):
  outs = []
  c = st.cell(ob.addr)
  for st1, cur in I.alts(c.d['state'], st):
    I.emit(st1, 'trigger', machine=ob, trigger=trig, state=cur, node=node)
    if not c.meta['ok'] or not isinstance(cur, (En, C)):
      m = st1.mut(ob.addr)
      m.d['state'] = I.imprecise('machine transition', st1, node)
      outs.append((st1, TRUE))
      continue
    hit = False
    for t, src, dst in c.meta['trans']:
      if not (isinstance(t, C) and t.val == trig) or not state_matches(st1, src, cur):
        continue
      hit = True
      if not (isinstance(dst, C) and (dst.val == '=' or dst.val is None)):
        if isinstance(dst, C) and isinstance(dst.val, str):
          for s in c.meta['states']:
            if isinstance(s, En) and s.name == dst.val:
              dst = s
        st1.mut(ob.addr).d['state'] = dst
      outs.append((st1, TRUE))
      break
    if not hit:
      known = any(isinstance(t, C) and t.val == trig for t, _, _ in c.meta['trans'])
      outs += I.throw(st1, 'MachineError' if known else 'AttributeError', node, (C(trig),))
  return outs


def machine_attr(I, st, ob, name, node):
  c = st.cell(ob.addr)
  if name in c.d:
    return [(st, c.d[name])]
  if name.startswith('is_'):
    return [(st, XM(ob, name))]
  return [(st, XM(ob, name))]


@stub('$m.machine')
def m_machine(I, st, obj, name, args, kw, node):
  if name == 'trigger' and args and isinstance(args[0], C):
    return machine_trigger(I, st, obj, args[0].val, node)
  if name.startswith('to_'):
    c = st.cell(obj.addr)
    for s in c.meta['states']:
      if isinstance(s, En) and 'to_' + s.name == name:
        st.mut(obj.addr).d['state'] = s
        return [(st, TRUE)]
  if name == 'set_state':
    st.mut(obj.addr).d['state'] = args[0]
    return [(st, NONE)]
  if name.startswith('is_'):
    c = st.cell(obj.addr)
    outs = []
    for st1, cur in I.alts(c.d['state'], st):
      outs.append((st1, C(isinstance(cur, En) and 'is_' + cur.name == name)))
    return outs
  return machine_trigger(I, st, obj, name, node)


@stub('$machine.getattr')
def machine_getattr(I, st, ob, name, node):
  return machine_attr(I, st, ob, name, node)


# ------------------------------------------------------------------ gin, absl, gym
def ident(I, st, f, d):
  return [(st, f)]


for _n in ('gin.configurable', 'gin.register', 'jax.jit', 'functools.lru_cache',
           'functools.cache', 'flax.linen.compact', 'functools.wraps', 'abc.abstractmethod',
           'typing.overload', 'tf.function', 'functools.partial'):
  S['@' + _n] = ident
S['gin.REQUIRED'] = O(T.atom('gin.REQUIRED'), 'gin')


@stub('gin.add_config_file_search_path', 'gin.parse_config_files_and_bindings',
      'gin.parse_config_file', 'gin.clear_config', 'gin.bind_parameter')
def gin_call(I, st, name, args, kw, node):
  return [(st, NONE)]


@stub('gin.configurable', 'gin.register', 'gin.external_configurable')
def gin_conf(I, st, name, args, kw, node):
  if args and isinstance(args[0], (Fn, Cl, X)):
    return [(st, args[0])]
  return [(st, X('pyabs.identity'))]


@prefix('absl.logging.', 'logging.')
def log_call(I, st, name, args, kw, node):
  if name == 'logging.getLogger' or name.endswith('.getLogger'):
    return [(st, O(T.atom('logger', I.vkey(args[0], st) if args else None), 'logger'))]
  return [(st, NONE)]


@stub('$o.logger')
def logger_method(I, st, obj, name, args, kw, node):
  return [(st, NONE)]


@prefix('absl.')
def absl_call(I, st, name, args, kw, node):
  if '.DEFINE_' in name:
    return [(st, O(T.atom('flag', I.vkey(args[0], st)), 'flag'))]
  return [(st, NONE)]


@stub('gym.spaces.Box')
def sp_box(I, st, name, args, kw, node):
  d = {k: argget(args, kw, i, k) or NONE for i, k in enumerate(('low', 'high', 'shape', 'dtype'))}
  if d['shape'] == NONE and isarr(st, d['low']):
    sh = st.cell(d['low'].addr).meta.get('shape')
    if sh is not None:
      d['shape'] = Tup(tuple(mknum(T.poly(x), 'int') for x in sh))
  return [(st, R(st.alloc(Cell('space', None, d, {'type': 'Box'}))))]


@stub('gym.spaces.Discrete')
def sp_disc(I, st, name, args, kw, node):
  return [(st, R(st.alloc(Cell('space', None, {'n': argget(args, kw, 0, 'n') or NONE},
                               {'type': 'Discrete'}))))]


@stub('$m.space')
def m_space(I, st, obj, name, args, kw, node):
  c = st.cell(obj.addr)
  if name == 'sample':
    I.emit(st, 'impure', name='space.sample', node=node)
    n = num(c.d['n']) if 'n' in c.d and numeric(c.d['n']) else None
    if n is not None:
      p = T.fresh('sample', lab=frozenset(['nondet:space.sample']), isint=True)
      st.assume('>=', p, T.ZERO)
      st.assume('<', p, n)
      return [(st, N(p, 'int', lab=frozenset(['nondet:space.sample'])))]
  return [(st, opaque(I, st, 'space.' + name, [obj] + list(args)))]


# ------------------------------------------------------------------ files and paths
S['tensorflow.io.gfile.GFile'] = file_open
S['tensorflow.errors.NotFoundError'] = X('tf.errors.NotFoundError')
S['tensorflow.errors.PermissionDeniedError'] = X('tf.errors.PermissionDeniedError')


def fsop(op):
  def h(I, st, name, args, kw, node):
    I.emit(st, 'fs', op=op, path=args[0] if args else NONE, mode=None, node=node, fn=name,
           args=args)
    if op in ('makedirs', 'remove', 'rename'):
      s2 = st.fork()
      I.throw(s2, 'tf.errors.PermissionDeniedError', node)
      return [(st, NONE)]
    if op == 'exists':
      return [(st, opaque(I, st, 'exists', args, 'bool'))]
    if op in ('listdir', 'glob'):
      if op == 'glob':
        I.throw(st.fork(), 'tf.errors.NotFoundError', node)
      a = T.atom('fslist', op, I.vkey(args[0], st) if args else None)
      e = O(T.atom('elem', a), 'str')
      return [(st, Gen(e, T.poly(T.atom('len', a, isint=True, rng=T.Iv(Fraction(0)))), 'list',
                       a))]
    return [(st, opaque(I, st, name, args))]
  return h


for _m in ('tensorflow.io.gfile.', 'os.', 'os.path.', 'glob.', 'shutil.'):
  for _o in ('exists', 'isdir', 'isfile'):
    S[_m + _o] = fsop('exists')
  S[_m + 'makedirs'] = S[_m + 'mkdir'] = S[_m + 'MakeDirs'] = fsop('makedirs')
  S[_m + 'remove'] = S[_m + 'unlink'] = S[_m + 'rmtree'] = fsop('remove')
  S[_m + 'rename'] = S[_m + 'replace'] = S[_m + 'move'] = fsop('rename')
  S[_m + 'listdir'] = fsop('listdir')
  S[_m + 'glob'] = fsop('glob')


@stub('os.path.join')
def os_join(I, st, name, args, kw, node):
  from .interp import mkstr
  parts = []
  for i, a in enumerate(args):
    if i:
      parts.append('/')
    if isinstance(a, C) and isinstance(a.val, str):
      parts.append(a.val)
    elif isinstance(a, St):
      parts += list(a.parts)
    else:
      parts.append((a, '', -1))
  return [(st, mkstr(parts).with_lab(labs(*args)))]


@stub('os.path.basename', 'os.path.dirname', 'os.path.splitext', 'os.path.split',
      'os.path.abspath', 'os.path.expanduser', 'os.path.realpath')
def os_base(I, st, name, args, kw, node):
  v = args[0]
  if isinstance(v, C) and isinstance(v.val, str) and 'abspath' not in name and 'real' not in name:
    import posixpath
    r = getattr(posixpath, name.rsplit('.', 1)[1])(v.val)
    return [(st, C(r) if isinstance(r, str) else Tup(tuple(C(x) for x in r)))]
  if name.endswith('basename') and isinstance(v, St):
    parts = list(v.parts)
    for i in range(len(parts) - 1, -1, -1):
      if isinstance(parts[i], str) and '/' in parts[i]:
        from .interp import mkstr
        return [(st, mkstr([parts[i].rsplit('/', 1)[1]] + parts[i + 1:]))]
  if name.endswith(('splitext', 'split')):
    return [(st, Tup((opaque(I, st, name + '0', args, 'str'),
                      opaque(I, st, name + '1', args, 'str'))))]
  return [(st, opaque(I, st, name, args, 'str'))]


def path_text(v):
  """The text of a known path or string, or None."""
  if isinstance(v, C) and isinstance(v.val, str):
    return v.val
  if isinstance(v, O) and v.typ == 'path' and v.a.op == 'pathc':
    return v.a.args[0]
  return None


def mkpath(s, lab=E0):
  import pathlib
  return O(T.atom('pathc', str(pathlib.PurePosixPath(s))), 'path', lab=lab)


def path_attr(ob, name):
  """An attribute of a known pathlib path, or None."""
  import pathlib
  t = path_text(ob)
  if t is None or name not in ('suffix', 'stem', 'name', 'parent', 'parts', 'suffixes', 'anchor', 'root'):
    return None
  r = getattr(pathlib.PurePosixPath(t), name)
  if isinstance(r, str):
    return C(r, lab=ob.lab)
  if isinstance(r, (tuple, list)):
    return Tup(tuple(C(x) for x in r), lab=ob.lab)
  return mkpath(str(r), ob.lab)


@stub('$o.path')
def path_method(I, st, obj, name, args, kw, node):
  import pathlib
  t = path_text(obj)
  if t is None:
    return None
  if name in ('joinpath', 'with_suffix', 'with_name', 'with_stem', 'relative_to'):
    cs = [path_text(a) for a in args]
    if None not in cs:
      try:
        return [(st, mkpath(str(getattr(pathlib.PurePosixPath(t), name)(*cs)), obj.lab))]
      except ValueError:
        return I.throw(st, 'ValueError', node)
  if name in ('as_posix', '__str__', '__fspath__'):
    return [(st, C(t, lab=obj.lab))]
  if name == 'match' and path_text(args[0]) is not None:
    return [(st, C(pathlib.PurePosixPath(t).match(path_text(args[0]))))]
  for ops, target in ((('exists', 'is_file', 'is_dir'), 'os.path.exists'), (('unlink',), 'os.remove'),
                      (('mkdir',), 'os.makedirs'), (('open',), 'builtins.open')):
    if name in ops:
      return I.call_ext(target, [C(t)] + list(args), {k: v for k, v in kw.items() if k == 'mode'}, st, node)
  if name in ('iterdir', 'glob'):
    if name == 'glob':
      outs = I.call_ext('glob.glob', [C(t + '/' + path_text(args[0]))], {}, st, node)
    else:
      outs = I.call_ext('os.listdir', [C(t)], {}, st, node)
    res = []
    for s1, v in outs:
      if isinstance(v, R) and s1.cell(v.addr).kind == 'list':
        items = [mkpath(x.val if name == 'glob' else t + '/' + x.val) for x in s1.cell(v.addr).d]
        res.append((s1, R(s1.alloc(Cell('list', None, items)))))
      else:
        res.append((s1, v))
    return res
  return None


@stub('os.fspath')
def os_fspath(I, st, name, args, kw, node):
  t = path_text(args[0])
  return [(st, C(t, lab=args[0].lab) if t is not None else opaque(I, st, name, args, 'str'))]


@stub('pathlib.Path', 'pathlib.PurePath', 'pathlib.PurePosixPath')
def pl_path(I, st, name, args, kw, node):
  cs = [path_text(a) for a in args]
  if all(c is not None for c in cs):
    import posixpath
    return [(st, mkpath(posixpath.join(*cs) if cs else '.', labs(*args)))]
  return [(st, opaque(I, st, 'path', args, 'path'))]


@stub('json.dump', 'pickle.dump', 'json.dumps', 'pickle.dumps')
def dump(I, st, name, args, kw, node):
  I.emit(st, 'dump', obj=args[0], file=args[1] if len(args) > 1 else None, kw=kw, node=node,
         name=name)
  return [(st, NONE if name.endswith('dump') else opaque(I, st, name, args, 'str'))]


@stub('json.load', 'pickle.load', 'json.loads', 'pickle.loads',
      'flax.serialization.msgpack_restore')
def load(I, st, name, args, kw, node):
  I.emit(st, 'load', file=args[0], node=node, name=name)
  f = args[0]
  k = I.vkey(st.cell(f.addr).d['path'], st) if kindof(st, f) == 'file' else I.vkey(f, st)
  return [(st, O(T.atom('load', name, k), '?'))]


@prefix('re.', 'glob.')
def re_call(I, st, name, args, kw, node):
  if args and all(isinstance(a, C) and isinstance(a.val, (str, int)) for a in args):
    import re
    f = name.split('.', 1)[1]
    vals = [a.val for a in args]
    try:
      if f in ('match', 'fullmatch', 'search'):
        m = getattr(re, f)(*vals)
        if m is None:
          return [(st, NONE)]
        return [(st, O(T.atom('rematch', (m.group(0),) + m.groups()), 'rematch'))]
      if f in ('escape', 'sub'):
        return [(st, C(getattr(re, f)(*vals)))]
      if f in ('findall', 'split'):
        r = getattr(re, f)(*vals)
        if all(isinstance(x, str) for x in r):
          return [(st, R(st.alloc(Cell('list', None, [C(x) for x in r]))))]
      if f == 'compile':
        return [(st, O(T.atom('rec', vals[0]), 'regex'))]
    except re.error:
      return I.throw(st, 're.error', node)
  if name == 're.compile':
    return [(st, opaque(I, st, 're.compile', args, 'regex'))]
  if name == 're.escape':
    return [(st, opaque(I, st, 're.escape', args, 'str'))]
  return [(st, opaque(I, st, name, args, '?'))]


@stub('$o.regex')
def regex_method(I, st, obj, name, args, kw, node):
  if obj.a.op == 'rec' and name in ('match', 'fullmatch', 'search', 'sub', 'findall', 'split'):
    return re_call(I, st, 're.' + name, [C(obj.a.args[0])] + list(args), kw, node)
  return None


@stub('$o.rematch')
def rematch_method(I, st, obj, name, args, kw, node):
  g = obj.a.args[0]
  c = lambda x: NONE if x is None else C(x)
  if name == 'group' and all(isinstance(a, C) and isinstance(a.val, int) and a.val < len(g) for a in args):
    ix = [a.val for a in args] or [0]
    return [(st, c(g[ix[0]]) if len(ix) == 1 else Tup(tuple(c(g[i]) for i in ix)))]
  if name == 'groups':
    return [(st, Tup(tuple(c(x) for x in g[1:])))]
  return None


# ------------------------------------------------------------------ numeric libraries
@stub('opensimplex.OpenSimplex')
def osimplex(I, st, name, args, kw, node):
  l = labs(*args, *kw.values())
  if not args and not kw:
    l = l | {'nondet:OpenSimplex default seed'}
  I.emit(st, 'opensimplex', args=args, kw=kw, node=node)
  return [(st, opaque(I, st, 'opensimplex', list(args) + list(kw.values()), 'simplex', lab=l))]


@stub('$o.simplex')
def m_simplex(I, st, obj, name, args, kw, node):
  I.emit(st, 'noise', obj=obj, args=args, node=node)
  if name.startswith('noise'):
    return [(st, opaque_num(I, st, 'simplex.' + name, [obj] + list(args),
                            rng=T.Iv(Fraction(-1), Fraction(1))))]
  return None


@prefix('sklearn.')
def sk(I, st, name, args, kw, node):
  if name.endswith('GaussianProcessRegressor'):
    I.emit(st, 'gp.new', kw=kw, args=args, node=node)
    return [(st, R(st.alloc(Cell('gp', None, {'fit': NONE}, {'n': 0}))))]
  return [(st, opaque(I, st, name, list(args) + [v for _, v in sorted(kw.items())], 'kernel'))]


@stub('$m.gp')
def m_gp(I, st, obj, name, args, kw, node):
  I.emit(st, 'gp.' + name, obj=obj, args=args, kw=kw, node=node)
  if name == 'fit':
    st.mut(obj.addr).d['fit'] = Tup(tuple(args))
    return [(st, obj)]
  if name == 'predict':
    f = st.cell(obj.addr).d['fit']
    vals = list(args) + [f]
    xs = asarray(I, st, args[0], node)
    sh = st.cell(xs.addr).meta.get('shape') if xs is not None else None
    n = sh[0] if sh else T.poly(T.atom('len', I.vkey(args[0], st), isint=True))
    dep = I.deep_lab(args[0], st) | I.deep_lab(f, st)
    dev = opaque_num(I, st, 'gp.dev', vals, rng=T.Iv(Fraction(0)))
    mean = opaque_num(I, st, 'gp.mean', vals)
    d, e = {}, {}
    if sh and len(sh) == 2 and isinstance(sh[0], int) and isinstance(sh[1], int) and sh[0] <= 16:
      fk = I.vkey(f, st)
      for i in range(sh[0]):
        row = [arr_get(I, st, xs, Tup((C(i), C(j))), node)[0][1] for j in range(sh[1])]
        k = tuple(I.vkey(v, st) for v in row)
        for j in range(2):
          d[(i, j)] = N(T.poly(T.atom('fn', 'gp.mean.%d' % j, k, fk, rng=T.Iv(), lab=dep)))
        e[i] = N(T.poly(T.atom('fn', 'gp.dev', k, fk, rng=T.Iv(Fraction(0)), lab=dep)))
    m = fresh_arr(st, mean, (n, 2), d, lab=dep)
    if 'return_std' in kw and isinstance(kw['return_std'], C) and kw['return_std'].val or len(
        args) > 1:
      return [(st, Tup((m, fresh_arr(st, dev, (n,), e, lab=dep))))]
    return [(st, m)]
  return None


@prefix('tensorflow_probability.', 'scipy.', 'optax.', 'flax.', 'haiku.', 'acme.', 'dopamine.',
        'rlax.', 'launchpad.', 'matplotlib.', 'mpl_toolkits.', 'tensorflow.', 'dm_env.', 'chex.',
        'gym.', 'importlib.', 'reverb.', 'enum.', 'typing.', 'abc.', 'copyreg.', 'sys.', 'os.',
        'contextlib.', 'warnings.', 'collections.', 's2sphere.', 'inspect.', 'string.')
def lib_call(I, st, name, args, kw, node):
  I.unmodelled.setdefault(name, I.where(node, st))
  lab = E0
  for v in list(args) + list(kw.values()):
    lab = lab | I.deep_lab(v, st)
  return [(st, O(T.atom('ext', name, tuple(I.vkey(v, st) for v in args),
                        tuple((k, I.vkey(v, st)) for k, v in sorted(kw.items()))), 'lib',
                 lab=lab))]


@stub('$o.lib')
def lib_method(I, st, obj, name, args, kw, node):
  if name == 'sample' and ('seed' in kw):
    I.emit(st, 'keyuse', op='tfp.sample', key=kw['seed'], node=node)
    lab = obj.lab | I.deep_lab(kw['seed'], st)
    return [(st, N(T.poly(T.atom('draw', 'tfp', obj.a, I.vkey(kw['seed'], st))), 'float',
                   lab=lab))]
  return None


@stub('copyreg.pickle')
def copyreg_pickle(I, st, name, args, kw, node):
  I.reducers = getattr(I, 'reducers', []) + [(args, node)]
  return [(st, NONE)]


for _n, _v in (('gym.envs.registration.register', NONE),):
  S[_n] = (lambda v: lambda I, st, name, args, kw, node: [(st, v)])(_v)
