"""Models of Python's builtins, datetime, math, dataclasses, functools, collections..."""
import ast
import builtins
from fractions import Fraction
import math

from . import terms as T
from .stubs import *  # pylint: disable=wildcard-import
from .stubs import S, numeric
from .values import *  # pylint: disable=wildcard-import
from .values import E0, Cell


# ------------------------------------------------------------------ attributes of values
@stub('$attr')
def attr(I, st, ob, name, node):
  lab = ob.lab
  if isinstance(ob, TD):
    if name == 'days':
      return [(st, mknum(arith('//', ob.p, T.const(86400), False), 'int', lab=lab))]
    if name == 'seconds':
      return [(st, mknum(T.poly(T.atom('floor', arith('%', ob.p, T.const(86400), False),
                                       isint=True)) if not T.all_int(ob.p) else arith(
                                           '%', ob.p, T.const(86400), True), 'int', lab=lab))]
    if name == 'microseconds':
      return [(st, opaque_num(I, st, 'microseconds', [ob], isint=True))]
    return None
  if isinstance(ob, DT):
    if name in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'):
      hi = {'hour': 23, 'minute': 59, 'second': 59, 'month': 12, 'day': 31,
            'microsecond': 999999, 'year': 9999}[name]
      # the calendar of a time in a zone other than UTC is shifted by the zone's offset
      p = ob.p + ob.tz if isinstance(ob.tz, T.Poly) else ob.p
      return [(st, N(T.poly(T.atom('dt.' + name, p, isint=True,
                                   rng=T.Iv(Fraction(0), Fraction(hi)))), 'int', lab=lab))]
    if name == 'tzinfo':
      return [(st, (O(T.atom('zone', ob.tz), 'obj') if isinstance(ob.tz, T.Poly) else X('datetime.timezone.utc')) if ob.tz else NONE)]
    return None
  if isinstance(ob, O):
    if ob.typ == 'ndarray' and name in ('shape', 'T', 'dtype', 'size', 'ndim'):
      t = {'shape': '?', 'T': 'ndarray', 'dtype': 'dtype', 'size': 'num', 'ndim': 'num'}[name]
      return [(st, O(T.atom('attr', ob.a, name), t, lab=lab))]
    if ob.typ == 'path':
      from .stubs_lib import path_attr
      v = path_attr(ob, name)
      return None if v is None else [(st, v)]
    if ob.typ in ('str', 'key', 'module', 'fn', 'num', 'bool', 'ndarray'):
      return None
    if ob.typ.startswith('exc:'):
      return [(st, O(T.atom('attr', ob.a, name), '?', lab=lab))]
    return None
  return None


@stub('$arr.attr')
def arr_attr(I, st, ob, name, node):
  c = st.cell(ob.addr)
  shape = c.meta.get('shape')
  if name == 'shape':
    if shape is None:
      return [(st, O(T.atom('shape', ob.addr), '?', lab=ob.lab))]
    return [(st, Tup(tuple(C(x) if isinstance(x, int) else N(x, 'int') for x in shape)))]
  if name == 'size' and shape is not None:
    p = T.ONE
    for x in shape:
      p = p * x
    return [(st, mknum(p, 'int'))]
  if name == 'ndim' and shape is not None:
    return [(st, C(len(shape)))]
  if name == 'dtype':
    return [(st, X('numpy.' + str(c.meta.get('dtype'))))]
  if name == 'T':
    return [(st, fresh_arr(st, c.meta['elem'], tuple(reversed(shape)) if shape else None,
                           {tuple(reversed(k)) if isinstance(k, tuple) else k: v
                            for k, v in c.d.items()}, lab=ob.lab))]
  return [(st, XM(ob, name))]


@stub('$ext.getattr')
def ext_getattr(I, st, ob, name, ext, node):
  """An attribute inherited from a base class outside the package."""
  return [(st, XM(ob, name))]


@stub('$extobj.call')
def extobj_call(I, st, f, args, kw, node):
  return [(st, opaque(I, st, 'callobj', [f] + list(args) + list(kw.values()), '?'))]


# ------------------------------------------------------------------ methods
@stub('$method')
def method(I, st, obj, name, args, kw, node):
  k = kindof(st, obj)
  h = I.stubs.get('$m.%s' % k) if k else None
  if h is not None:
    r = h(I, st, obj, name, args, kw, node)
    if r is not None:
      return r
  t = type(obj).__name__
  if isinstance(obj, C):
    t = 'C' + type(obj.val).__name__
  h = I.stubs.get('$v.%s' % t)
  if h is not None:
    r = h(I, st, obj, name, args, kw, node)
    if r is not None:
      return r
  if isinstance(obj, O):
    h = I.stubs.get('$o.%s' % obj.typ)
    if h is not None:
      r = h(I, st, obj, name, args, kw, node)
      if r is not None:
        return r
    if obj.typ.startswith('mod:'):
      return I.call_ext(obj.typ[4:] + '.' + name, args, kw, st, node)
  if isinstance(obj, (N, O)) and name == 'item' and numeric(obj):
    return [(st, obj)]
  if isinstance(obj, Sup):
    return sup_method(I, st, obj, name, args, kw, node)
  if k == 'obj':
    c = st.cell(obj.addr)
    return extobj_method(I, st, obj, c.cls, name, args, kw, node)
  I.emit(st, 'opaquecall', fn=XM(obj, name), args=args, kw=kw, node=node)
  lab = I.deep_lab(obj, st)
  for v in list(args) + list(kw.values()):
    lab = lab | I.deep_lab(v, st)
  what = obj.typ if isinstance(obj, O) else t
  I.unmodelled.setdefault('method %s.%s' % (what, name), I.where(node, st))
  return [(st, O(T.atom('meth', I.vkey(obj, st), name, tuple(I.vkey(v, st) for v in args),
                        tuple((q, I.vkey(v, st)) for q, v in sorted(kw.items()))), '?', lab=lab))]


def sup_method(I, st, obj, name, args, kw, node):
  """super().name(...) that resolves outside the package."""
  ext = [e for c in I.self_class(obj.self_, st).mro() for e in c.extbases]
  I.emit(st, 'supercall', obj=obj.self_, cls=obj.ci, name=name, args=args, kw=kw, node=node)
  if name == '__init__' and not any(e + '.__init__' in I.stubs for e in ext):
    return [(st, NONE)]
  if name in ('__enter__', '__exit__', '__setattr__', '__init_subclass__', '__post_init__'):
    if name == '__setattr__' and isinstance(obj.self_, R) and isinstance(args[0], C):
      st.mut(obj.self_.addr).d[args[0].val] = args[1]
    return [(st, NONE)]
  return extobj_method(I, st, obj.self_, obj.ci, name, args, kw, node)


def extobj_method(I, st, obj, cls, name, args, kw, node):
  """A method inherited from an external class: an unknown function of the object."""
  ext = [e for e in cls.allext() if e not in ('builtins.object', 'abc.ABC')]
  I.emit(st, 'extmethod', obj=obj, cls=cls, ext=ext, name=name, args=args, kw=kw, node=node)
  for e in ext:
    h = I.stubs.get(e + '.' + name)
    if h is not None and not isinstance(h, V):
      return h(I, st, e + '.' + name, [obj] + list(args), kw, node)
  lab = E0
  for v in list(args) + list(kw.values()):
    lab = lab | I.deep_lab(v, st)
  return [(st, O(T.atom('extm', (ext[0] if ext else '?') + '.' + name,
                        tuple(I.vkey(v, st) for v in args)), '?', lab=lab))]


def joined(I, vals):
  e = vals[0]
  for v in vals[1:]:
    e = I.blend(e, v, ())
  return e


@stub('$m.list')
def m_list(I, st, obj, name, args, kw, node):
  c = st.cell(obj.addr)
  summ = isinstance(c.meta, dict) and 'elem' in c.meta
  if name == 'append':
    I.emit(st, 'append', addr=obj.addr, value=args[0], node=node)
    if I.on_store is not None:
      I.on_store(st, obj.addr, 'append', args[0], node)
    c = st.mut(obj.addr)
    v = args[0].with_lab(st.ctrl)
    if summ:
      c.meta['elem'] = I.blend(c.meta['elem'], v, ())
      c.meta['len'] = c.meta['len'] + 1
    else:
      c.d.append(v)
    return [(st, NONE)]
  if name in ('extend', '__iadd__'):
    outs = []
    for st1, it in I.iterate(args[0], st, node):
      if I.on_store is not None:
        I.on_store(st1, obj.addr, 'extend', args[0], node)
      c = st1.mut(obj.addr)
      if isinstance(it, Gen):
        e = it.elem if isinstance(it.elem, V) else I.imprecise('gen', st1, node)
        vals = list(c.d) + ([c.meta['elem']] if summ else []) + [e]
        ln = I.list_len(c) + it.n
        c.d = []
        c.meta = {'elem': joined(I, vals), 'len': ln}
      elif summ:
        for v in it:
          c.meta['elem'] = I.blend(c.meta['elem'], v, ())
        c.meta['len'] = c.meta['len'] + len(it)
      else:
        c.d.extend(x.with_lab(st1.ctrl) for x in it)
      outs.append((st1, NONE))
    return outs
  if name in ('clear', 'sort', 'reverse', 'insert', 'pop', 'remove', '__delitem__') and \
      I.on_store is not None:
    I.on_store(st, obj.addr, name, args[0] if args else NONE, node)
  if name == 'clear':
    c = st.mut(obj.addr)
    c.d, c.meta = [], None
    return [(st, NONE)]
  if name == 'copy':
    return [(st, R(st.alloc(c.copy())))]
  if name in ('sort', 'reverse'):
    if not summ:
      if name == 'reverse':
        st.mut(obj.addr).d.reverse()
      elif all(isinstance(x, C) for x in c.d) and not kw:
        st.mut(obj.addr).d.sort(key=lambda x: x.val)
      elif keyed_order(I, st, list(c.d), kw, node) is not None:
        order = keyed_order(I, st, list(c.d), kw, node)
        st.mut(obj.addr).d[:] = order
      elif len(c.d) > 1:
        e = joined(I, c.d)
        n = len(c.d)
        c = st.mut(obj.addr)
        c.d, c.meta = [], {'elem': e, 'len': T.const(n)}
    return [(st, NONE)]
  if name == 'insert':
    c = st.mut(obj.addr)
    if summ:
      c.meta['elem'] = I.blend(c.meta['elem'], args[1], ())
      c.meta['len'] = c.meta['len'] + 1
    elif isinstance(args[0], C):
      c.d.insert(args[0].val, args[1])
    else:
      c.d.append(args[1])
    return [(st, NONE)]
  if name == 'pop':
    if summ:
      e = c.meta['elem']
      st.mut(obj.addr).meta['len'] = c.meta['len'] - 1
      return [(st, e)]
    if not c.d:
      return I.throw(st, 'IndexError', node)
    i = args[0].val if args and isinstance(args[0], C) else -1
    v = c.d[i]
    st.mut(obj.addr).d.pop(i)
    return [(st, v)]
  if name in ('remove', '__delitem__'):
    c = st.mut(obj.addr)
    if not summ and args and isinstance(args[0], C):
      if name == '__delitem__':
        del c.d[args[0].val]
        return [(st, NONE)]
      for x in c.d:
        if x.key() == args[0].key():
          c.d.remove(x)
          return [(st, NONE)]
    if c.d:
      c.meta = {'elem': joined(I, c.d), 'len': T.poly(T.atom('len', ('rm', obj.addr),
                                                             isint=True))}
      c.d = []
    return [(st, NONE)]
  if name == 'index':
    return [(st, opaque_num(I, st, 'index', [obj] + list(args), isint=True,
                            rng=T.Iv(Fraction(0))))]
  if name == 'count':
    return [(st, opaque_num(I, st, 'count', [obj] + list(args), isint=True,
                            rng=T.Iv(Fraction(0))))]
  if name == '__len__':
    return [(st, mknum(I.list_len(c), 'int'))]
  return None


@stub('$m.dict')
def m_dict(I, st, obj, name, args, kw, node):
  c = st.cell(obj.addr)
  meta = c.meta if isinstance(c.meta, dict) else {}
  summ = 'key' in meta
  maybe = meta.get('maybe', frozenset())
  n = T.const(len(c.d)) if not summ and not maybe else T.poly(T.atom(
      'len', ('d', obj.addr, len(c.d)), isint=True, rng=T.Iv(Fraction(0))))
  if name in ('items', 'keys', 'values'):
    if summ:
      ks, vs = list(c.d) + [meta['key']], list(c.d.values()) + [meta['val']]
      k, v = joined(I, ks), joined(I, vs)
      e = {'items': Tup((k, v)), 'keys': k, 'values': v}[name]
      return [(st, R(st.alloc(Cell('list', None, [], {'elem': e, 'len': n})), lab=obj.lab))]
    outs = [(st, [])]
    for k, v in c.d.items():
      nxt = []
      for s1, l in outs:
        x = {'items': Tup((k, v)), 'keys': k, 'values': v}[name]
        if k in maybe and len(outs) < 64:
          nxt.append((s1.fork(), list(l)))
        nxt.append((s1, l + [x]))
      outs = nxt
    return [(s1, R(s1.alloc(Cell('list', None, l)), lab=obj.lab)) for s1, l in outs]
  if name in ('get', 'pop', 'setdefault', '__getitem__'):
    key = args[0]
    dflt = argget(args, kw, 1, 'default')
    hit = None
    for k in c.d:
      if k.key() == key.key():
        hit = k
        break
    const = (C, En, Cl, X)
    if name == 'pop' and I.on_store is not None:
      I.on_store(st, obj.addr, 'pop', key, node)
    if hit is not None and hit not in maybe:
      v = c.d[hit]
      if name == 'pop':
        st.mut(obj.addr).d.pop(hit)
      return [(st, v.with_lab(obj.lab))]
    if hit is None and not summ and isinstance(key, const) and all(
        isinstance(k, const) for k in c.d):
      if name == 'setdefault':
        if I.on_store is not None:
          I.on_store(st, obj.addr, key, dflt or NONE, node)
        st.mut(obj.addr).d[key] = dflt or NONE
        return [(st, dflt or NONE)]
      if name in ('pop', '__getitem__') and dflt is None:
        return I.throw(st, 'KeyError', node)
      return [(st, dflt or NONE)]
    # unknown whether present
    outs = []
    vals = [v for k, v in c.d.items() if k is hit or not isinstance(key, const)]
    if summ:
      vals.append(meta['val'])
    at = T.atom('in', I.vkey(key, st), ('d', obj.addr, len(c.d)))
    for s1, b in I.fork_atom(at, st):
      if b:
        for i, v in enumerate(vals):
          outs.append((s1 if i == len(vals) - 1 else s1.fork(), v))
      elif name in ('pop', '__getitem__') and dflt is None:
        I.throw(s1, 'KeyError', node)
      else:
        if name == 'setdefault':
          s1.mut(obj.addr).d[key] = dflt or NONE
        outs.append((s1, dflt or NONE))
    return outs
  if name == 'update':
    if I.on_store is not None:
      I.on_store(st, obj.addr, 'update', args[0] if args else NONE, node)
    c = st.mut(obj.addr)
    if args:
      o = args[0]
      if kindof(st, o) == 'dict':
        oc = st.cell(o.addr)
        om = oc.meta.get('maybe', frozenset()) if isinstance(oc.meta, dict) else frozenset()
        cm = c.meta.get('maybe', frozenset()) if isinstance(c.meta, dict) else frozenset()
        new = om - (set(c.d) - cm) | (cm - (set(oc.d) - om))
        for k, v in oc.d.items():
          c.d[k] = joined(I, [c.d[k], v]) if k in om and k in c.d else v
        if new != cm:
          c.meta = {**(c.meta or {}), 'maybe': frozenset(new)}
        if isinstance(oc.meta, dict) and 'key' in oc.meta:
          c.meta = {**(c.meta or {}), **oc.meta}
      else:
        x = I.imprecise('dict.update', st, node)
        c.meta = {'key': x, 'val': x}
    for k, v in kw.items():
      c.d[C(k)] = v
    return [(st, NONE)]
  if name == 'copy':
    return [(st, R(st.alloc(c.copy())))]
  if name == 'clear':
    c = st.mut(obj.addr)
    c.d, c.meta = {}, None
    return [(st, NONE)]
  if name == '__delitem__':
    if args[0] in c.d:
      st.mut(obj.addr).d.pop(args[0])
      return [(st, NONE)]
    return I.throw(st, 'KeyError', node)
  if name == '__len__':
    return [(st, mknum(n, 'int'))]
  if name == '__contains__':
    return I.contains(obj, args[0], st, node)
  return None


@stub('$m.set')
def m_set(I, st, obj, name, args, kw, node):
  c = st.cell(obj.addr)
  if name == 'add':
    st.mut(obj.addr).d[args[0]] = TRUE
    return [(st, NONE)]
  if name in ('discard', 'remove'):
    st.mut(obj.addr).d.pop(args[0], None)
    return [(st, NONE)]
  if name in ('union', 'update', 'difference', 'intersection', 'issubset', 'issuperset'):
    outs = []
    for s1, it in I.iterate(args[0], st, node):
      if isinstance(it, Gen):
        outs.append((s1, opaque(I, s1, 'set.' + name, [obj] + list(args))))
        continue
      keys = {x: TRUE for x in it}
      if name == 'update':
        s1.mut(obj.addr).d.update(keys)
        outs.append((s1, NONE))
      elif name == 'issubset':
        outs.append((s1, C(all(k in keys for k in c.d))))
      elif name == 'issuperset':
        outs.append((s1, C(all(k in c.d for k in keys))))
      else:
        d = {'union': {**c.d, **keys}, 'difference': {k: v for k, v in c.d.items()
                                                     if k not in keys},
             'intersection': {k: v for k, v in c.d.items() if k in keys}}[name]
        outs.append((s1, R(s1.alloc(Cell('set', None, d)))))
    return outs
  return None


@stub('$m.arr')
def m_arr(I, st, obj, name, args, kw, node):
  c = st.cell(obj.addr)
  shape = c.meta.get('shape')
  if name == 'item':
    if not args:
      return [(st, c.d.get(0, c.meta['elem']).with_lab(obj.lab))]
    return I.getitem(obj, args[0], st, node)
  if name in ('astype', 'copy', 'flatten', 'ravel', 'squeeze', 'view', '__array__'):
    n = c.copy()
    n.meta = {k: v for k, v in n.meta.items() if k not in ('view', 'rowof')}
    if name in ('flatten', 'ravel', 'squeeze'):
      if shape is None or len(shape) != 1:
        n.meta['shape'] = None
        n.d = {}
    return [(st, R(st.alloc(n), lab=obj.lab))]
  if name == 'reshape':
    dims = args[0].items if len(args) == 1 and isinstance(args[0], Tup) else args
    n = c.copy()
    n.meta = dict(n.meta)
    sh = tuple(d.val if isinstance(d, C) else num(d) for d in dims)
    known = [d for d in sh if isinstance(d, int) and d >= 0]
    if -1 in [d for d in sh if isinstance(d, int)]:
      tot = T.ONE
      for x in shape or (T.fresh('dim', isint=True),):
        tot = tot * x
      for x in sh:
        if x != -1:
          tot = T.div(tot, T.poly(x))
      q = int(tot.const) if tot.const is not None else tot
      sh = tuple(q if isinstance(d, int) and d == -1 else d for d in sh)
    n.meta['shape'] = sh
    n.meta['view'] = obj.addr
    if n.d:
      if shape and len(shape) == 1 and len(sh) == 2 and sh[1] == 1:
        n.d = {(k, 0): v for k, v in n.d.items()}
      elif sh != shape and regroup(I, st, obj, c, n, shape, sh):
        pass
      elif sh != shape:
        e = n.meta['elem']
        for v in n.d.values():
          e = I.blend(e, v, ())
        n.meta['elem'] = e
        n.d = {}
    return [(st, R(st.alloc(n), lab=obj.lab))]
  if name in ('max', 'min', 'mean', 'sum', 'std', 'argmax', 'argmin', 'any', 'all', 'dot', 'var',
              'prod', 'tolist', 'transpose', 'fill', 'tobytes'):
    if name == 'fill':
      return [(s, NONE) for s in S['$arr.set'](I, st, obj, Sl(NONE, NONE, NONE), args[0], node)]
    if name == 'tolist':
      if shape and len(shape) == 1 and isinstance(shape[0], int) and shape[0] <= 400:
        return [(st, R(st.alloc(Cell('list', None, [arr_at(I, st, obj, C(i))
                                                    for i in range(shape[0])]))))]
      return [(st, opaque(I, st, 'tolist', [obj]))]
    if name == 'transpose':
      return arr_attr(I, st, obj, 'T', node)
    return I.call_ext('numpy.' + name, [obj] + list(args), kw, st, node)
  return None


def strval(v):
  return isinstance(v, C) and isinstance(v.val, (str, bytes))


@stub('$v.Cstr', '$v.Cbytes')
def m_str(I, st, obj, name, args, kw, node):
  if name == 'format':
    return [(st, opaque(I, st, 'str.format', [obj] + list(args) + list(kw.values()), 'str'))]
  if name == 'join':
    outs = []
    for s1, it in I.iterate(args[0], st, node):
      if isinstance(it, Gen) or not all(isinstance(x, C) for x in it):
        outs.append((s1, opaque(I, s1, 'str.join', [obj] + list(args), 'str')))
      else:
        outs.append((s1, C(obj.val.join(x.val for x in it))))
    return outs
  f = getattr(obj.val, name, None)
  if f is None:
    return I.throw(st, 'AttributeError', node)
  if all(isinstance(a, C) or isinstance(a, Tup) and all(isinstance(x, C) for x in a.items)
         for a in args) and not kw:
    try:
      r = f(*[a.val if isinstance(a, C) else tuple(x.val for x in a.items) for a in args])
    except Exception as ex:  # pylint: disable=broad-except
      return I.throw(st, type(ex).__name__, node)
    if isinstance(r, (list, tuple)):
      l = [C(x) for x in r]
      return [(st, R(st.alloc(Cell('list', None, l))) if isinstance(r, list) else Tup(tuple(l)))]
    return [(st, C(r))]
  return [(st, opaque(I, st, 'str.' + name, [obj] + list(args), STRRES.get(name, 'str')))]


STRRES = {'startswith': 'bool', 'endswith': 'bool', 'isdigit': 'bool', 'isdecimal': 'bool',
          'split': '?', 'find': 'num', 'count': 'num', 'rsplit': '?', 'partition': '?',
          'rpartition': '?', 'isalpha': 'bool', 'isnumeric': 'bool', 'index': 'num'}


@stub('$v.St', '$o.str', '$o.path')
def m_symstr(I, st, obj, name, args, kw, node):
  t = STRRES.get(name)
  if t is None:
    t = obj.typ if isinstance(obj, O) else 'str'
  if name in ('startswith', 'endswith') and isinstance(obj, St) and isinstance(args[0], C):
    p = obj.parts[0] if name == 'startswith' else obj.parts[-1]
    if isinstance(p, str) and len(p) >= len(args[0].val):
      return [(st, C(getattr(p, name)(args[0].val), lab=obj.lab))]
  return [(st, opaque(I, st, 'str.' + name, [obj] + list(args), t))]


@stub('$v.Cint', '$v.Cfloat', '$v.Cbool', '$v.N', '$o.num')
def m_num(I, st, obj, name, args, kw, node):
  if name in ('item', 'conjugate', 'astype', '__float__', '__int__', 'copy', 'reshape', 'squeeze'):
    return [(st, obj)]
  if name in ('__add__', '__mul__', '__sub__', '__truediv__', '__radd__', '__rmul__'):
    op = {'add': '+', 'mul': '*', 'sub': '-', 'truediv': '/', 'radd': '+', 'rmul': '*'}[
        name.strip('_')]
    return I.binop(op, obj, args[0], st, node)
  if name in ('is_integer',):
    return [(st, opaque(I, st, name, [obj], 'bool'))]
  if name == 'bit_length':
    return [(st, opaque_num(I, st, name, [obj], isint=True))]
  return None


@stub('$v.TD')
def m_td(I, st, obj, name, args, kw, node):
  if name == 'total_seconds':
    return [(st, mknum(obj.p, 'float', lab=obj.lab))]
  return None


@stub('$v.DT')
def m_dt(I, st, obj, name, args, kw, node):
  if name == 'timestamp':
    return [(st, N(obj.p, 'float', lab=obj.lab))]
  if name in ('astimezone',):
    return [(st, DT(obj.p, True, lab=obj.lab))]
  if name == 'replace':
    if set(kw) == {'tzinfo'} and not args:
      tz = kw['tzinfo']
      return [(st, DT(obj.p, not (isinstance(tz, C) and tz.val is None), lab=obj.lab))]
    a = T.atom('dt.replace', obj.p, tuple(I.vkey(v, st) for v in args),
               tuple((k, I.vkey(v, st)) for k, v in sorted(kw.items())))
    return [(st, DT(T.poly(a), obj.tz, lab=obj.lab | labs(*args, *kw.values())))]
  if name in ('isoformat', 'strftime', '__str__', 'ctime'):
    return [(st, opaque(I, st, 'dt.' + name, [obj] + list(args), 'str'))]
  if name in ('date', 'time', 'timetuple', 'utctimetuple'):
    return [(st, opaque(I, st, 'dt.' + name, [obj] + list(args), '?'))]
  if name in ('toordinal', 'weekday'):
    return [(st, opaque_num(I, st, 'dt.' + name, [obj], isint=True))]
  return None


@stub('$v.Tup')
def m_tup(I, st, obj, name, args, kw, node):
  if name == 'index':
    return [(st, opaque_num(I, st, 'index', [obj] + list(args), isint=True,
                            rng=T.Iv(Fraction(0), Fraction(max(len(obj.items) - 1, 0)))))]
  if name == 'count':
    return [(st, opaque_num(I, st, 'count', [obj] + list(args), isint=True,
                            rng=T.Iv(Fraction(0), Fraction(len(obj.items)))))]
  return None


@stub('$v.R')
def m_nt(I, st, obj, name, args, kw, node):
  c = st.cell(obj.addr)
  if c.kind == 'obj' and c.cls.namedtuple:
    if name == '_replace':
      n = c.copy()
      n.d.update(kw)
      return [(st, R(st.alloc(n), lab=obj.lab))]
    if name == '_asdict':
      return [(st, R(st.alloc(Cell('dict', None, {C(f): c.d[f] for f, _ in c.cls.fields}))))]
  return None


# ------------------------------------------------------------------ builtins
def b(name):
  return stub('builtins.' + name)


def unary_num(I, st, v, node, f):
  """Applies f(term)->term to a numeric value (elementwise on arrays)."""
  def g(x):
    p = num(x) if numeric(x) else None
    if p is None:
      return None
    return f(x, p)
  if isarr(st, v):
    return [(st, lift(I, st, g, [v], node))]
  outs = []
  for s1, x in I.alts(v, st):
    r = g(x)
    if r is not None:
      outs.append((s1, r.with_lab(x.lab)))
    elif isinstance(x, C) and x.val is None:
      I.throw(s1, 'TypeError', node)
    else:
      outs.append((s1, opaque(I, s1, 'num', [x], 'num' if not (isinstance(x, O) and
                                                               x.typ == 'ndarray') else 'ndarray')))
  return outs


def const_or_atom(op, pf, isint=False):
  """A function term: folded on constants."""
  def f(x, p):
    c = p.const
    if c is not None and pf is not None:
      try:
        return mknum(T.const(pf(float(c))), 'int' if isint else 'float', lab=x.lab)
      except (ValueError, OverflowError, ZeroDivisionError):
        pass
    if op == 'log' and len(p.terms) == 1:
      (m, k), = p.terms.items()
      if k == 1 and len(m) == 1 and m[0][0].op == 'exp':
        return N(m[0][0].args[0].scale(m[0][1]), 'float', lab=x.lab)
    return N(T.poly(T.atom(op, p, isint=isint)), 'int' if isint else 'float', lab=x.lab)
  return f


def fold_point(st, v):
  """An integer whose interval is a single value is that value."""
  if isinstance(v, N) and v.kind == 'int' and v.p.const is None:
    iv = st.facts.iv(v.p)
    if iv.lo == iv.hi and iv.lo not in (T.INF, -T.INF) and iv.lo.denominator == 1:
      return C(int(iv.lo), lab=v.lab)
  return v


@b('float')
def b_float(I, st, name, args, kw, node):
  if not args:
    return [(st, C(0.0))]
  v = args[0]
  outs = []
  for s1, x in I.alts(v, st):
    if isinstance(x, C):
      try:
        outs.append((s1, C(float(x.val), lab=x.lab)))
      except (ValueError, TypeError) as ex:
        I.throw(s1, type(ex).__name__, node)
    elif isinstance(x, N):
      outs.append((s1, N(x.p, 'float', lab=x.lab)))
    elif isarr(s1, x):
      c = s1.cell(x.addr)
      outs.append((s1, c.d.get(0, c.meta['elem']).with_lab(x.lab)))
    elif kindof(s1, x) == 'obj':
      m, _ = I.class_attr(s1.cell(x.addr).cls, '__float__', s1)
      if m is not None:
        outs += I.call(BM(m, x), [], {}, s1, node)
      else:
        I.throw(s1, 'TypeError', node)
    elif isinstance(x, O):
      outs.append((s1, N(T.poly(x.a if x.typ != 'bool' else T.atom('boolnum', x.a)), 'float',
                         lab=x.lab)))
    elif isinstance(x, En):
      outs.append((s1, mknum(num(x), 'float', lab=x.lab)) if num(x) is not None else (s1, x))
    elif isinstance(x, (TD, DT, Tup, Cl, Fn)):
      I.throw(s1, 'TypeError', node)
    else:
      outs.append((s1, opaque_num(I, s1, 'float', [x])))
  return outs


@b('int')
def b_int(I, st, name, args, kw, node):
  if not args:
    return [(st, C(0))]
  outs = []
  for s1, x in I.alts(args[0], st):
    if isinstance(x, C):
      try:
        outs.append((s1, C(int(x.val, *[a.val for a in args[1:]]), lab=x.lab)))
      except (ValueError, TypeError, OverflowError) as ex:
        I.throw(s1, type(ex).__name__, node)
    elif isinstance(x, N):
      if x.kind == 'int' or T.all_int(x.p):
        outs.append((s1, fold_point(s1, N(x.p, 'int', lab=x.lab))))
      else:
        c = x.p.const
        outs.append((s1, C(int(c), lab=x.lab) if c is not None else fold_point(
            s1, N(T.poly(T.atom('int', x.p, isint=True)), 'int', lab=x.lab))))
    elif isinstance(x, En):
      outs.append((s1, mknum(num(x), 'int', lab=x.lab)))
    elif isinstance(x, O) and x.typ in ('str', 'St') or isinstance(x, St):
      s2 = s1.fork()
      I.throw(s2, 'ValueError', node)
      outs.append((s1, opaque_num(I, s1, 'int', [x], isint=True)))
    elif isinstance(x, O):
      outs.append((s1, N(T.poly(T.atom('int', T.poly(x.a), isint=True)), 'int', lab=x.lab)))
    elif isarr(s1, x):
      e = s1.cell(x.addr).meta['elem']
      outs.append((s1, opaque_num(I, s1, 'int', [e], isint=True)))
    elif isinstance(x, (TD, DT, Tup, Cl, Fn)):
      I.throw(s1, 'TypeError', node)
    else:
      outs.append((s1, opaque_num(I, s1, 'int', [x], isint=True)))
  return outs


@b('bool')
def b_bool(I, st, name, args, kw, node):
  if not args:
    return [(st, FALSE)]
  c0 = st.ctrl
  outs = []
  for s1, x in I.truth(args[0], st, node):
    l = s1.ctrl - c0
    s1.ctrl = c0
    outs.append((s1, C(x, lab=l | args[0].lab)))
  return outs


@b('str')
def b_str(I, st, name, args, kw, node):
  if not args:
    return [(st, C(''))]
  v = args[0]
  if isinstance(v, C):
    return [(st, C(str(v.val), lab=v.lab))]
  if isinstance(v, St) or isinstance(v, O) and v.typ == 'str':
    return [(st, v)]
  if isinstance(v, O) and v.typ == 'path' and v.a.op == 'pathc':
    return [(st, C(v.a.args[0], lab=v.lab))]
  from .interp import mkstr
  return [(st, mkstr([(v, '', -1)]))]


@b('repr')
def b_repr(I, st, name, args, kw, node):
  return [(st, opaque(I, st, 'repr', args, 'str'))]


@b('abs')
def b_abs(I, st, name, args, kw, node):
  v = args[0]
  if isinstance(v, TD):
    return [(st, TD(T.absval(v.p), lab=v.lab))]
  if kindof(st, v) == 'obj':
    m, _ = I.class_attr(st.cell(v.addr).cls, '__abs__', st)
    if m is not None:
      return I.call(BM(m, v), [], {}, st, node)
  def f(x, p):
    if p.const is not None:
      return mknum(T.const(abs(p.const)), kind_of(x), lab=x.lab)
    i = st.facts.iv(p)
    if i.lo >= 0:
      return N(p, kind_of(x), lab=x.lab)
    if i.hi <= 0:
      return N(-p, kind_of(x), lab=x.lab)
    return N(T.absval(p), kind_of(x), lab=x.lab)
  return unary_num(I, st, v, node, f)


S['numpy.abs'] = S['numpy.absolute'] = S['numpy.fabs'] = S['math.fabs'] = S['builtins.abs']
S['jax.numpy.abs'] = S['builtins.abs']


def minmax(I, st, which, args, kw, node):
  op = 'max' if which == 'max' else 'min'
  key = kw.get('key')
  if len(args) == 1:
    outs = []
    for s0, a in I.alts(args[0], st):
      for s1, it in I.iterate(a, s0, node):
        if isinstance(it, Gen):
          e = it.elem if isinstance(it.elem, V) else None
          d = kw.get('default')
          if d is not None:
            s2 = s1.fork()
            if s2.assume('==', it.n, T.ZERO):
              outs.append((s2, d))
            if not s1.assume('>', it.n, T.ZERO):
              continue
          else:
            s2 = s1.fork()
            if s2.facts.decide('>', it.n, T.ZERO) is not True and s2.assume('==', it.n, T.ZERO):
              I.throw(s2, 'ValueError', node)
          if isinstance(e, N):
            iv = s1.facts.iv(e.p)
            outs.append((s1, N(T.poly(T.atom('fn', op, (I.vkey(a, s1),), rng=iv)), e.kind,
                               lab=e.lab | a.lab)))
          else:
            outs.append((s1, opaque(I, s1, op, [a], 'elem')))
        elif not it:
          if 'default' in kw:
            outs.append((s1, kw['default']))
          else:
            I.throw(s1, 'ValueError', node)
        else:
          outs += minmax_vals(I, s1, op, it, node, key)
    return outs
  return minmax_vals(I, st, op, args, node, key)


def minmax_vals(I, st, op, vals, node, key=None):
  lab = labs(*vals)
  if key is None and all(numeric(v) and num(v) is not None and not isinstance(v, O)
                         for v in vals):
    p = (T.tmax if op == 'max' else T.tmin)([num(v) for v in vals], st.facts)
    k = 'int' if all(kind_of(v) == 'int' for v in vals) else 'float'
    return [(st, mknum(p, k, lab=lab | p.lab))]
  if key is None and all(isinstance(v, TD) for v in vals):
    return [(st, TD((T.tmax if op == 'max' else T.tmin)([v.p for v in vals], st.facts), lab=lab))]
  if key is None and all(isinstance(v, DT) for v in vals):
    return [(st, DT((T.tmax if op == 'max' else T.tmin)([v.p for v in vals], st.facts),
                    vals[0].tz, lab=lab))]
  # by comparison, on each path
  cur = [(st, vals[0])]
  for v in vals[1:]:
    nxt = []
    for s1, best in cur:
      x, y = v, best
      if key is not None:
        pairs = [(s3, kx, ky) for s2, kx in I.call(key, [x], {}, s1, node)
                 for s3, ky in I.call(key, [y], {}, s2, node)]
      else:
        pairs = [(s1, x, y)]
      for s2, kx, ky in pairs:
        c0 = s2.ctrl
        for s3, r in I.compare('>' if op == 'max' else '<', kx, ky, s2, node):
          for s4, t in I.truth(r, s3, node):
            l = s4.ctrl - c0
            s4.ctrl = c0
            nxt.append((s4, (x if t else y).with_lab(l | r.lab)))
    cur = nxt
  return cur


@b('max')
def b_max(I, st, name, args, kw, node):
  return minmax(I, st, 'max', args, kw, node)


@b('min')
def b_min(I, st, name, args, kw, node):
  return minmax(I, st, 'min', args, kw, node)


@b('len')
def b_len(I, st, name, args, kw, node):
  v = args[0]
  if isinstance(v, Un):
    return [x for s1, a in I.alts(v, st) for x in b_len(I, s1, name, [a], kw, node)]
  if isinstance(v, Tup):
    return [(st, C(len(v.items)))]
  if isinstance(v, C):
    try:
      return [(st, C(len(v.val)))]
    except TypeError:
      return I.throw(st, 'TypeError', node)
  if isinstance(v, Gen):
    return [(st, mknum(v.n, 'int'))]
  if isinstance(v, Cl) and v.ci.enum_values is not None:
    return [(st, C(len(v.ci.enum_values)))]
  k = kindof(st, v)
  if k:
    c = st.cell(v.addr)
    if k == 'list':
      return [(st, mknum(I.list_len(c), 'int', lab=v.lab))]
    if k in ('dict', 'set'):
      return m_dict(I, st, v, '__len__', [], {}, node)
    if k == 'arr':
      sh = c.meta.get('shape')
      if sh:
        return [(st, mknum(T.poly(sh[0]), 'int'))]
    if k == 'obj':
      m, _ = I.class_attr(c.cls, '__len__', st)
      if m is not None:
        return I.call(BM(m, v), [], {}, st, node)
      if c.cls.namedtuple:
        return [(st, C(len(c.cls.fields)))]
  a = v.a if isinstance(v, O) else T.atom('val', I.vkey(v, st))
  return [(st, N(T.poly(T.atom('len', a, isint=True, rng=T.Iv(Fraction(0)))), 'int', lab=v.lab))]


@b('range')
def b_range(I, st, name, args, kw, node):
  if all(isinstance(a, C) for a in args):
    try:
      r = range(*[a.val for a in args])
    except (TypeError, ValueError) as ex:
      return I.throw(st, type(ex).__name__, node)
    if len(r) <= 2000:
      return [(st, Tup(tuple(C(i) for i in r), lab=labs(*args)))]
  ps = [num(a) for a in args]
  if any(p is None for p in ps):
    return [(st, Gen(I.imprecise('range', st, node), T.fresh('n', isint=True), 'range', ''))]
  lo, hi, step = (T.ZERO, ps[0], T.ONE) if len(ps) == 1 else (
      ps[0], ps[1], ps[2] if len(ps) > 2 else T.ONE)
  if step.const == 1:
    n = T.tmax([hi - lo, T.ZERO], st.facts)
  else:
    n = T.poly(T.atom('max', tuple([T.ZERO, T.poly(T.atom('ceil', T.div(hi - lo, step),
                                                          isint=True))]), isint=True))
  def elem(iv, s, lo=lo, step=step):
    return mknum(lo + iv * step, 'int')
  return [(st, Gen(elem, n, 'range', ('range', lo, n), lab=labs(*args)))]


@b('enumerate')
def b_enumerate(I, st, name, args, kw, node):
  start = argget(args, kw, 1, 'start', C(0))
  outs = []
  for s0, a in I.alts(args[0], st):
    for s1, it in I.iterate(a, s0, node):
      if isinstance(it, Gen):
        def elem(iv, s, it=it):
          e = it.elem(iv, s) if callable(it.elem) else I.reindex(it.elem, None, iv)
          return Tup((mknum(iv + num(start), 'int'), e))
        outs.append((s1, Gen(elem, it.n, 'enum', it.site, lab=it.lab)))
      else:
        outs.append((s1, Tup(tuple(Tup((C(i + start.val), x)) for i, x in enumerate(it)))))
  return outs


@b('zip')
def b_zip(I, st, name, args, kw, node):
  outs = [(st, [])]
  for a in args:
    nxt = []
    for s1, l in outs:
      for s2, it in I.iterate(a, s1, node):
        nxt.append((s2, l + [it]))
    outs = nxt
  res = []
  for s1, its in outs:
    if any(isinstance(x, Gen) for x in its):
      def elem(iv, s, its=its):
        r = []
        for it in its:
          if isinstance(it, Gen):
            r.append(it.elem(iv, s) if callable(it.elem) else I.reindex(it.elem, None, iv))
          else:
            r.append(joined(I, it))
        return Tup(tuple(r))
      ns = [it.n if isinstance(it, Gen) else T.const(len(it)) for it in its]
      res.append((s1, Gen(elem, T.tmin(ns, s1.facts), 'zip', tuple(
          it.site if isinstance(it, Gen) else 'l' for it in its))))
    else:
      res.append((s1, Tup(tuple(Tup(tuple(x)) for x in zip(*its)))))
  return res


@b('list')
def b_list(I, st, name, args, kw, node):
  if not args:
    return [(st, R(st.alloc(Cell('list', None, []))))]
  outs = []
  for s0, a in I.alts(args[0], st):
    for s1, it in I.iterate(a, s0, node):
      n = it.n.const if isinstance(it, Gen) and it.tag == 'range' else None
      if n is not None and 0 <= n <= 20000 and it.site and it.site[1].const is not None:
        outs.append((s1, R(s1.alloc(Cell('list', None, [it.elem(T.const(i), s1) for i in range(int(n))])), lab=it.lab)))
      elif isinstance(it, Gen):
        iv = T.poly(T.atom('iter', ('list', I.where(node, s1)), isint=True, rng=T.Iv(Fraction(0))))
        e = it.elem(iv, s1) if callable(it.elem) else it.elem
        outs.append((s1, R(s1.alloc(Cell('list', None, [], {'elem': e, 'len': it.n})), lab=it.lab)))
      else:
        outs.append((s1, R(s1.alloc(Cell('list', None, list(it))), lab=a.lab)))
  return outs


@b('tuple')
def b_tuple(I, st, name, args, kw, node):
  if not args:
    return [(st, Tup(()))]
  outs = []
  for s0, a in I.alts(args[0], st):
    for s1, it in I.iterate(a, s0, node):
      outs.append((s1, it if isinstance(it, Gen) else Tup(tuple(it), lab=a.lab)))
  return outs


S['builtins.iter'] = lambda I, st, name, args, kw, node: [(st, args[0])]


@b('set')
def b_set(I, st, name, args, kw, node):
  if not args:
    return [(st, R(st.alloc(Cell('set', None, {}))))]
  outs = []
  for s1, it in I.iterate(args[0], st, node):
    if isinstance(it, Gen):
      e = it.elem if isinstance(it.elem, V) else I.imprecise('set', s1, node)
      outs.append((s1, R(s1.alloc(Cell('set', None, {}, {'key': e, 'val': TRUE})))))
    else:
      outs.append((s1, R(s1.alloc(Cell('set', None, {x: TRUE for x in it})))))
  return outs


S['builtins.frozenset'] = S['builtins.set']


@b('dict')
def b_dict(I, st, name, args, kw, node):
  d, meta = {}, None
  if args:
    v = args[0]
    if kindof(st, v) == 'dict':
      c = st.cell(v.addr)
      d, meta = dict(c.d), c.meta
    else:
      for s1, it in I.iterate(v, st, node)[:1]:
        st = s1
        if isinstance(it, Gen):
          x = I.imprecise('dict()', st, node)
          meta = {'key': x, 'val': x}
        else:
          for p in it:
            k, w = p.items
            d[k] = w
  for k, v in kw.items():
    if k != '**':
      d[C(k)] = v
  return [(st, R(st.alloc(Cell('dict', None, d, meta))))]


S['collections.OrderedDict'] = S['builtins.dict']


def keyed_order(I, st, it, kw, node):
  """The items sorted by concrete keys, or None."""
  f = kw.get('key')
  rev = kw.get('reverse', FALSE)
  if f is None or not isinstance(rev, C) or len(it) > 500:
    return None
  keys = []
  for x in it:
    outs = I.call(f, [x], {}, st.fork(), node)
    k = outs[0][1] if len(outs) == 1 else None
    if isinstance(k, Tup) and all(isinstance(y, C) for y in k.items):
      keys.append(tuple(y.val for y in k.items))
    elif isinstance(k, C):
      keys.append(k.val)
    else:
      return None
  try:
    order = sorted(range(len(it)), key=lambda i: keys[i], reverse=bool(rev.val))
  except TypeError:
    return None
  return [it[i] for i in order]


def in_order(I, st, xs, node):
  """A few numbers sorted by insertion, forking on every comparison that is open."""
  states = [(st, [])]
  for x in xs:
    new = []
    while states:
      s, done = states.pop()
      todo = [(s, len(done))]
      while todo:
        s1, k = todo.pop()
        if k == 0:
          new.append((s1, [x] + done))
          continue
        for s2, less in I.truths(I.compare('<', x, done[k - 1], s1.fork(), node), node):
          if less:
            todo.append((s2, k - 1))
          else:
            new.append((s2, done[:k] + [x] + done[k:]))
    states = new
  return [(s, R(s.alloc(Cell('list', None, ys)))) for s, ys in states]


@b('sorted')
def b_sorted(I, st, name, args, kw, node):
  outs = []
  for s1, it in I.iterate(args[0], st, node):
    if isinstance(it, Gen):
      e = it.elem if isinstance(it.elem, V) else I.imprecise('sorted', s1, node)
      outs.append((s1, R(s1.alloc(Cell('list', None, [], {'elem': e, 'len': it.n})))))
    elif all(isinstance(x, C) for x in it) and 'key' not in kw:
      rev = 'reverse' in kw and getattr(kw['reverse'], 'val', False)
      outs.append((s1, R(s1.alloc(Cell('list', None, sorted(it, key=lambda x: x.val,
                                                            reverse=bool(rev)))))))
    elif not it:
      outs.append((s1, R(s1.alloc(Cell('list', None, [])))))
    elif len(it) < 4 and not kw and all(isinstance(x, (C, N)) and not (isinstance(x, C) and isinstance(x.val, str)) for x in it):
      outs += in_order(I, s1, list(it), node)
    elif keyed_order(I, s1, it, kw, node) is not None:
      outs.append((s1, R(s1.alloc(Cell('list', None, keyed_order(I, s1, it, kw, node))))))
    else:
      outs.append((s1, R(s1.alloc(Cell('list', None, [], {
          'elem': joined(I, it), 'len': T.const(len(it))})))))
  return outs


S['builtins.reversed'] = lambda I, st, name, args, kw, node: [
    (s1, R(s1.alloc(Cell('list', None, list(reversed(it))))) if not isinstance(it, Gen) else it)
    for s1, it in I.iterate(args[0], st, node)]


@b('sum')
def b_sum(I, st, name, args, kw, node):
  outs = []
  start = argget(args, kw, 1, 'start', C(0))
  for s1, it in I.iterate(args[0], st, node):
    if isinstance(it, Gen):
      e = it.elem if isinstance(it.elem, V) else None
      rng = None
      if isinstance(e, (N, C)) and num(e) is not None:
        i = s1.facts.iv(num(e))
        if i.lo >= 0:
          rng = T.Iv(Fraction(0))
      if kindof(s1, e) == 'obj':
        outs.append((s1, e))
      else:
        outs.append((s1, opaque_num(I, s1, 'sum', [args[0]], rng=rng)))
      continue
    cur = [(s1, start)]
    for x in it:
      cur = [z for s2, acc in cur for z in I.binop('+', acc, x, s2, node)]
    outs += cur
  return outs


def anyall(I, st, args, node, want):
  outs = []
  for s1, it in I.iterate(args[0], st, node):
    if isinstance(it, Gen):
      at = T.atom('anyall', want, I.vkey(args[0], s1))
      c0 = s1.ctrl
      for s2, x in I.fork_atom(at, s1, I.deep_lab(args[0], s1)):
        l = s2.ctrl - c0
        s2.ctrl = c0
        outs.append((s2, C(x, lab=l)))
      continue
    live = [s1]
    for x in it:
      nxt = []
      for s2 in live:
        for s3, t in I.truth(x, s2, node):
          if t == want:
            outs.append((s3, C(want)))
          else:
            nxt.append(s3)
      live = nxt
    outs += [(s2, C(not want)) for s2 in live]
  return outs


S['builtins.any'] = lambda I, st, name, args, kw, node: anyall(I, st, args, node, True)
S['builtins.all'] = lambda I, st, name, args, kw, node: anyall(I, st, args, node, False)


@b('round')
def b_round(I, st, name, args, kw, node):
  if len(args) > 1 and not (isinstance(args[1], C) and args[1].val is None):
    if isinstance(args[0], C) and isinstance(args[1], C):
      return [(st, C(round(args[0].val, args[1].val)))]
    return [(st, opaque_num(I, st, 'round', args))]
  v = args[0]
  if isinstance(v, C):
    return [(st, C(round(v.val), lab=v.lab))]
  def f(x, p):
    if T.all_int(p):
      return N(p, 'int', lab=x.lab)
    return N(T.poly(T.atom('round', p, isint=True)), 'int', lab=x.lab)
  return [(s1, fold_point(s1, r)) for s1, r in unary_num(I, st, v, node, f)]


@b('pow')
def b_pow(I, st, name, args, kw, node):
  return I.binop('**', args[0], args[1], st, node)


S['math.pow'] = S['numpy.power'] = S['jax.numpy.power'] = S['builtins.pow']


@b('divmod')
def b_divmod(I, st, name, args, kw, node):
  return [(s2, Tup((q, r))) for s1, q in I.binop('//', args[0], args[1], st, node)
          for s2, r in I.binop('%', args[0], args[1], s1, node)]


def plain(ci, n):
  """A class of the program without external bases is no instance of a concrete external class."""
  return n.startswith(('datetime.', 'numpy.', 'jax.', 's2sphere.')) and all(
      e in ('object', 'abc.ABC', 'enum.Enum') or e.startswith(('typing.', 'abc.')) for e in ci.allext())


def regroup(I, st, obj, c, n, shape, sh):
  """The elements of a small two-dimensional array as a one-dimensional one, or the reverse."""
  if not shape or not all(isinstance(x, int) for x in tuple(shape) + tuple(sh)):
    return False
  tot = 1
  for x in shape:
    tot *= x
  if tot > I.arr_limit or len(shape) > 2 or len(sh) > 2:
    return False
  vals = []
  if len(shape) == 1:
    vals = [arr_at(I, st, obj, C(i)) for i in range(shape[0])]
  else:
    for i in range(shape[0]):
      for j in range(shape[1]):
        v = c.d.get((i, j))
        if v is None:
          v = c.d.get(('*', j))
          if v is None or not numeric(v) or num(v) is None or T.elem_atoms(num(v)):
            return False
        vals.append(v)
  if len(sh) == 1:
    n.d = dict(enumerate(vals))
  else:
    n.d = {divmod(k, sh[1]): v for k, v in enumerate(vals)}
  return True


def is_instance(I, st, v, c):
  """True / False / None."""
  if isinstance(c, Tup):
    rs = [is_instance(I, st, v, x) for x in c.items]
    return True if True in rs else None if None in rs else False
  if isinstance(c, Cl):
    if isinstance(v, R) and st.has(v.addr):
      k = st.cell(v.addr)
      return k.kind == 'obj' and c.ci in k.cls.mro()
    if isinstance(v, En):
      return c.ci in v.cls.mro()
    if isinstance(v, O) and v.typ in ('?', 'elem', 'arg'):
      return None
    return False
  n = c.name.replace('builtins.', '') if isinstance(c, X) else None
  if n is None:
    return None
  if isinstance(v, C):
    if n in ('numpy.integer', 'numpy.floating', 'numpy.ndarray', 'jax.numpy.ndarray',
             'numpy.number'):
      return False
    t = {'int': int, 'float': float, 'str': str, 'bool': bool, 'bytes': bytes, 'object': object,
         'tuple': tuple, 'list': list, 'dict': dict, 'numbers.Number': (int, float),
         'numbers.Integral': int, 'numbers.Real': (int, float),
         'type(None)': type(None)}.get(n)
    if t is not None:
      return isinstance(v.val, t)
    return False
  if isinstance(v, N):
    if n == 'float':
      return v.kind == 'float'
    if n == 'int':
      return v.kind == 'int'
    if n.startswith('numbers.'):
      return True
    if n in ('numpy.integer', 'numpy.floating', 'numpy.number', 'numpy.ndarray',
             'jax.numpy.ndarray'):
      return False
    return False
  if isinstance(v, TD):
    return n in ('datetime.timedelta', 'object')
  if isinstance(v, DT):
    return n in ('datetime.datetime', 'datetime.date', 'object')
  if isinstance(v, Tup):
    return n in ('tuple', 'object') or n.endswith('Sequence') or n.endswith('Iterable')
  if isinstance(v, St):
    return n in ('str', 'object')
  if isinstance(v, Gen):
    return None
  if isinstance(v, En):
    return n == 'int' and v.cls.enum_int or n in ('enum.Enum', 'object')
  if isinstance(v, R) and st.has(v.addr):
    k = st.cell(v.addr)
    if k.kind in ('list', 'dict', 'set'):
      return n == k.kind or n == 'object' or (k.kind == 'list' and (
          n.endswith('Sequence') or n.endswith('Iterable'))) or (k.kind == 'dict' and n.endswith(
              'Mapping'))
    if k.kind == 'arr':
      return n in ('numpy.ndarray', 'jax.numpy.ndarray', 'object', 'jax.Array')
    if k.kind == 'latlng':
      return n == 's2sphere.LatLng'
    if k.kind == 'obj':
      if k.cls.namedtuple and n == 'tuple':
        return True
      return n == 'object' or any(e == c.name or e.split('.')[-1] == n.split('.')[-1]
                                  for e in k.cls.allext()) or (
                                      False if n in ('int', 'float', 'str', 'list', 'dict',
                                                     'tuple', 'bool') or plain(k.cls, n) else None)
    return None
  if isinstance(v, (Fn, BM)):
    return n in ('object',) or 'Callable' in n
  if isinstance(v, O):
    if v.typ == 'tensor':
      return n in ('numpy.ndarray', 'jax.numpy.ndarray', 'jax.Array', 'object')
    m = {'str': 'str', 'num': None, 'ndarray': 'numpy.ndarray', 'key': 'jax.numpy.ndarray',
         'bool': 'bool'}.get(v.typ)
    if m is not None:
      return n == m or n == 'object' or (m == 'jax.numpy.ndarray' and n == 'numpy.ndarray')
    return None
  return None


@b('isinstance')
def b_isinstance(I, st, name, args, kw, node):
  outs = []
  for s1, v in I.alts(args[0], st):
    r = is_instance(I, s1, v, args[1])
    if r is None:
      at = T.atom('isinstance', I.vkey(v, s1), I.vkey(args[1], s1))
      c0 = s1.ctrl
      for s2, x in I.fork_atom(at, s1, v.lab):
        s2.ctrl = c0
        outs.append((s2, C(x, lab=v.lab)))
    else:
      outs.append((s1, C(bool(r), lab=v.lab)))
  return outs


@b('issubclass')
def b_issubclass(I, st, name, args, kw, node):
  if isinstance(args[0], Cl) and isinstance(args[1], Cl):
    return [(st, C(args[1].ci in args[0].ci.mro()))]
  return [(st, opaque(I, st, 'issubclass', args, 'bool'))]


@b('callable')
def b_callable(I, st, name, args, kw, node):
  v = args[0]
  if isinstance(v, (Fn, BM, Cl, Pa, XM, X)):
    return [(st, TRUE)]
  if isinstance(v, (C, N, Tup)):
    return [(st, FALSE)]
  return [(st, opaque(I, st, 'callable', args, 'bool'))]


@b('getattr')
def b_getattr(I, st, name, args, kw, node):
  outs = []
  for s0, a in I.alts(args[0], st):
    for s1, n in I.alts(args[1], s0):
      if isinstance(n, C):
        outs += I.getattr(a, n.val, s1, node, args[2] if len(args) > 2 else None)
      else:
        outs.append((s1, I.imprecise('getattr', s1, node)))
  return outs


@b('hasattr')
def b_hasattr(I, st, name, args, kw, node):
  sent = X('pyabs.missing')
  if not isinstance(args[1], C):
    return [(st, opaque(I, st, 'hasattr', args, 'bool'))]
  I.sinks.append([])
  outs = I.getattr(args[0], args[1].val, st.fork(), node, sent)
  I.sinks.pop()
  if isinstance(args[0], O) and args[0].typ in ('?', 'elem', 'arg'):
    return [(st, opaque(I, st, 'hasattr', args, 'bool'))]
  return [(st, C(any(v is not sent for _, v in outs)))]


@b('setattr')
def b_setattr(I, st, name, args, kw, node):
  outs = []
  for s1, n in I.alts(args[1], st):
    if isinstance(n, C):
      outs += [(s2, NONE) for s2 in I.setattr(args[0], n.val, args[2].with_lab(s1.ctrl), s1, node)]
    else:
      I.emit(s1, 'dynsetattr', obj=args[0], name=n, value=args[2], node=node)
      if kindof(s1, args[0]) == 'obj':
        c = s1.mut(args[0].addr)
        for k in c.d:
          c.d[k] = I.imprecise('setattr', s1, node)
      outs.append((s1, NONE))
  return outs


@b('type')
def b_type(I, st, name, args, kw, node):
  outs = []
  for s1, v in I.alts(args[0], st):
    if kindof(s1, v) == 'obj':
      outs.append((s1, Cl(s1.cell(v.addr).cls)))
    elif isinstance(v, En):
      outs.append((s1, Cl(v.cls)))
    elif isinstance(v, C):
      outs.append((s1, X('builtins.' + type(v.val).__name__)))
    else:
      outs.append((s1, opaque(I, s1, 'type', [v], '?')))
  return outs


@b('print')
def b_print(I, st, name, args, kw, node):
  return [(st, NONE)]


@b('id')
def b_id(I, st, name, args, kw, node):
  return [(st, N(T.fresh('id', lab=frozenset(['nondet:id'])), 'int',
                 lab=frozenset(['nondet:id'])))]


@b('hash')
def b_hash(I, st, name, args, kw, node):
  v = args[0]
  strs = isinstance(v, (St,)) or isinstance(v, C) and isinstance(v.val, (str, bytes)) or isinstance(
      v, O)
  return [(st, opaque_num(I, st, 'hash', args, isint=True,
                          lab=frozenset(['nondet:hash']) if strs else E0))]


@b('object')
def b_object(I, st, name, args, kw, node):
  return [(st, O(T.fresh('object').terms and T.atom('object', T._fresh[0]), 'obj'))]


@b('map')
def b_map(I, st, name, args, kw, node):
  outs = []
  for s1, it in I.iterate(args[1], st, node):
    if isinstance(it, Gen):
      e = it.elem if isinstance(it.elem, V) else it.elem(T.fresh('i', isint=True), s1)
      for s2, v in I.call(args[0], [e], {}, s1, node):
        outs.append((s2, Gen(v, it.n, 'map', it.site, lab=it.lab)))
      continue
    cur = [(s1, [])]
    for x in it:
      cur = [(s3, l + [v]) for s2, l in cur for s3, v in I.call(args[0], [x], {}, s2, node)]
    outs += [(s2, R(s2.alloc(Cell('list', None, l)))) for s2, l in cur]
  return outs


@b('filter')
def b_filter(I, st, name, args, kw, node):
  outs = []
  for s1, it in I.iterate(args[1], st, node):
    if isinstance(it, Gen):
      outs.append((s1, Gen(it.elem, T.poly(T.atom('complen', I.vkey(args[1], s1), isint=True,
                                                  rng=T.Iv(Fraction(0)))), 'filter', it.site)))
      continue
    cur = [(s1, [])]
    for x in it:
      nxt = []
      for s2, l in cur:
        for s3, r in (I.call(args[0], [x], {}, s2, node) if not isinstance(args[0], C)
                      else [(s2, x)]):
          for s4, t in I.truth(r, s3, node):
            nxt.append((s4, l + [x] if t else l))
      cur = nxt
    outs += [(s2, R(s2.alloc(Cell('list', None, l)))) for s2, l in cur]
  return outs


@b('next')
def b_next(I, st, name, args, kw, node):
  outs = []
  for s1, it in I.iterate(args[0], st, node):
    if isinstance(it, Gen):
      outs.append((s1, I.gen_item(it, 0, s1, node)))
      if len(args) > 1:
        outs.append((s1.fork(), args[1]))
    elif it:
      outs.append((s1, it[0]))
    elif len(args) > 1:
      outs.append((s1, args[1]))
    else:
      I.throw(s1, 'StopIteration', node)
  return outs


@b('open')
def b_open(I, st, name, args, kw, node):
  return file_open(I, st, name, args, kw, node)


def file_open(I, st, name, args, kw, node):
  mode = argget(args, kw, 1, 'mode', C('r'))
  I.emit(st, 'fs', op='open', path=args[0] if args else kw.get('name', NONE), mode=mode,
         node=node, fn=name)
  s2 = st.fork()
  m = mode.val if isinstance(mode, C) else ''
  if 'w' in m or 'a' in m:
    I.throw(s2, 'OSError', node)
  else:
    I.throw(s2, 'FileNotFoundError' if name == 'builtins.open' else 'tf.errors.NotFoundError',
            node)
  return [(st, R(st.alloc(Cell('file', None, {'path': args[0] if args else kw.get('name', NONE),
                                              'mode': mode}))))]


@stub('$m.file')
def m_file(I, st, obj, name, args, kw, node):
  I.emit(st, 'fs', op='file.' + name, path=st.cell(obj.addr).d['path'], node=node, args=args,
         file=obj, fn=name, mode=st.cell(obj.addr).d['mode'])
  if name in ('__enter__',):
    return [(st, obj)]
  if name in ('read', 'readline'):
    return [(st, O(T.atom('fileread', I.vkey(st.cell(obj.addr).d['path'], st)), 'str'))]
  return [(st, NONE)]


# exceptions as values
def exc_ctor(n):
  def f(I, st, name, args, kw, node):
    return [(st, R(st.alloc(Cell('exc', n, list(args)))))]
  return f


for _n in dir(builtins):
  _k = getattr(builtins, _n)
  if isinstance(_k, type) and issubclass(_k, BaseException):
    S['builtins.' + _n] = exc_ctor(_n)


# ------------------------------------------------------------------ datetime
def num_arg(v):
  return num(v) if v is not None else T.ZERO


@stub('datetime.timedelta')
def dt_timedelta(I, st, name, args, kw, node):
  names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
  mult = {'days': 86400, 'seconds': 1, 'microseconds': Fraction(1, 10**6),
          'milliseconds': Fraction(1, 1000), 'minutes': 60, 'hours': 3600, 'weeks': 604800}
  p = T.ZERO
  lab = E0
  for i, v in list(enumerate(args)) + list(kw.items()):
    n = names[i] if isinstance(i, int) else i
    if n not in mult:
      return I.throw(st, 'TypeError', node)
    q = num(v) if not isinstance(v, (R, Tup)) else None
    if q is None and isarr(st, v):
      q = num(st.cell(v.addr).meta['elem'])
    if q is None:
      if isinstance(v, C):
        return I.throw(st, 'TypeError', node)
      q = T.poly(T.atom('val', I.vkey(v, st)))
    p = p + q.scale(mult[n])
    lab = lab | v.lab
  return [(st, TD(p, lab=lab))]


@stub('datetime.datetime')
def dt_datetime(I, st, name, args, kw, node):
  import datetime
  tz = kw.get('tzinfo')
  if tz is None and len(args) > 7:
    tz = args[7]
  hastz = tz is not None and not (isinstance(tz, C) and tz.val is None)
  vals = list(args[:7])
  names = ['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond']
  d = dict(zip(names, vals))
  d.update({k: v for k, v in kw.items() if k in names})
  if all(isinstance(v, C) for v in d.values()):
    try:
      x = datetime.datetime(**{k: v.val for k, v in d.items()}, tzinfo=datetime.timezone.utc)
      return [(st, DT(T.const(Fraction(int(x.timestamp()))), hastz))]
    except (ValueError, TypeError) as ex:
      return I.throw(st, type(ex).__name__, node)
  lab = labs(*d.values())
  return [(st, DT(T.poly(T.atom('datetime', tuple((k, I.vkey(v, st)) for k, v in sorted(
      d.items())))), hastz, lab=lab))]


@stub('datetime.datetime.fromtimestamp', 'datetime.datetime.utcfromtimestamp')
def dt_fromts(I, st, name, args, kw, node):
  tz = argget(args, kw, 1, 'tz')
  hastz = tz is not None and not (isinstance(tz, C) and tz.val is None)
  p = num(args[0])
  lab = args[0].lab
  if not hastz and name.endswith('fromtimestamp') and 'utc' not in name:
    lab = lab | {'nondet:localtime'}
  return [(st, DT(p if p is not None else T.poly(T.atom('val', I.vkey(args[0], st))), hastz,
                  lab=lab))]


@stub('datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.datetime.today',
      'datetime.date.today')
def dt_now(I, st, name, args, kw, node):
  l = frozenset(['nondet:' + name])
  return [(st, DT(T.fresh('now', lab=l), bool(args or kw), lab=l))]


@stub('datetime.datetime.strptime', 'datetime.datetime.fromisoformat', 'datetime.datetime.combine')
def dt_parse(I, st, name, args, kw, node):
  lab = labs(*args)
  return [(st, DT(T.poly(T.atom('fn', name, tuple(I.vkey(a, st) for a in args))), False, lab=lab))]


S['datetime.timezone.utc'] = X('datetime.timezone.utc')


# ------------------------------------------------------------------ impure sources
@prefix('time.', 'random.', 'secrets.', 'uuid.', 'numpy.random.', 'os.urandom', 'os.getpid')
def impure(I, st, name, args, kw, node):
  if name in ('time.sleep', 'random.seed', 'numpy.random.seed'):
    I.emit(st, 'impure', name=name, node=node)
    return [(st, NONE)]
  I.emit(st, 'impure', name=name, node=node)
  seeded = name in ('random.Random', 'numpy.random.RandomState', 'numpy.random.default_rng')
  if seeded:
    l = labs(*args, *kw.values())
    if not args and not kw:
      l = l | {'nondet:' + name}
    return [(st, opaque(I, st, name, list(args) + list(kw.values()), 'rng', lab=l))]
  l = frozenset(['nondet:' + name])
  isint = name in ('numpy.random.randint', 'random.randint', 'random.randrange')
  if isint:
    lo = num(args[0]) if len(args) > 1 else T.ZERO
    hi = num(args[1]) if len(args) > 1 else (num(args[0]) if args else None)
    p = T.fresh(name, lab=l, isint=True)
    if lo is not None and hi is not None:
      st.assume('>=', p, lo)
      st.assume('<' if name != 'random.randint' else '<=', p, hi)
    return [(st, N(p, 'int', lab=l))]
  rng = T.Iv(Fraction(0)) if name.startswith('time.') else T.Iv(Fraction(0), Fraction(1)) if (
      name in ('random.random', 'numpy.random.random')) else None
  p = T.fresh(name, lab=l, rng=rng)
  if name in ('random.choice', 'numpy.random.choice'):
    for s1, it in I.iterate(args[0], st, node)[:1]:
      if not isinstance(it, Gen) and it:
        return [(s1, Un(tuple(x.with_lab(l) for x in it), lab=l))]
  return [(st, N(p, 'float', lab=l))]


@stub('$o.rng')
def m_rng(I, st, obj, name, args, kw, node):
  # a stateful generator: the value depends on its seed
  return [(st, N(T.fresh('rng.' + name, lab=obj.lab), 'float', lab=obj.lab))]


# ------------------------------------------------------------------ math
def fdef(op, pf, *names):
  f = const_or_atom(op, pf)
  def h(I, st, name, args, kw, node):
    if I.on_event is not None and args and numeric(args[0]):
      I.emit(st, 'math', fn=op, arg=num(args[0]), node=node)
    return unary_num(I, st, args[0], node, f)
  for n in names:
    S[n] = h


def both(n, np_n=None):
  np_n = np_n or n
  return ('math.' + n, 'numpy.' + np_n, 'jax.numpy.' + np_n)


fdef('sin', math.sin, *both('sin'))
fdef('cos', math.cos, *both('cos'))
fdef('tan', math.tan, *both('tan'))
fdef('asin', math.asin, *both('asin', 'arcsin'))
fdef('acos', math.acos, *both('acos', 'arccos'))
fdef('atan', math.atan, *both('atan', 'arctan'))
fdef('exp', math.exp, *both('exp'))
fdef('log', math.log, *both('log'))
fdef('log10', math.log10, *both('log10'))
fdef('tanh', math.tanh, *both('tanh'))
fdef('sign', lambda x: (x > 0) - (x < 0), 'numpy.sign', 'jax.numpy.sign')


def sqrt_stub(I, st, name, args, kw, node):
  if I.on_event is not None and args and numeric(args[0]):
    I.emit(st, 'math', fn='sqrt', arg=num(args[0]), node=node)
  def f(x, p):
    return mknum(T.power(p, Fraction(1, 2)), 'float', lab=x.lab)
  return unary_num(I, st, args[0], node, f)


for _n in both('sqrt'):
  S[_n] = sqrt_stub


def floorlike(op, pf, isfloat):
  def f(x, p):
    k = 'float' if isfloat else 'int'
    if p.const is not None:
      return mknum(T.const(Fraction(pf(p.const))), k, lab=x.lab)
    if T.all_int(p):
      return N(p, k, lab=x.lab)
    return N(T.poly(T.atom(op, p, isint=True)), k, lab=x.lab)
  return lambda I, st, name, args, kw, node: [
      (s1, fold_point(s1, r)) for s1, r in unary_num(I, st, args[0], node, f)]


S['math.floor'] = floorlike('floor', math.floor, False)
S['math.ceil'] = floorlike('ceil', math.ceil, False)
S['math.trunc'] = floorlike('int', int, False)
S['numpy.floor'] = S['jax.numpy.floor'] = floorlike('floor', math.floor, True)
S['numpy.ceil'] = S['jax.numpy.ceil'] = floorlike('ceil', math.ceil, True)
S['numpy.round'] = S['numpy.rint'] = S['jax.numpy.round'] = floorlike('round', round, True)
S['math.pi'] = S['numpy.pi'] = S['jax.numpy.pi'] = C(math.pi)
S['math.e'] = S['numpy.e'] = C(math.e)
S['math.inf'] = S['numpy.inf'] = S['jax.numpy.inf'] = C(math.inf)
S['math.nan'] = S['numpy.nan'] = S['jax.numpy.nan'] = C(math.nan)
S['math.tau'] = C(math.tau)


def scale_stub(k):
  def f(x, p):
    return mknum(p.scale(k), 'float', lab=x.lab)
  return lambda I, st, name, args, kw, node: unary_num(I, st, args[0], node, f)


for _n in ('math.radians', 'numpy.radians', 'numpy.deg2rad', 'jax.numpy.radians'):
  S[_n] = scale_stub(T.PI / 180)
for _n in ('math.degrees', 'numpy.degrees', 'numpy.rad2deg', 'jax.numpy.degrees'):
  S[_n] = scale_stub(180 / T.PI)


def binary_term(op, pf=None):
  def h(I, st, name, args, kw, node):
    def f(x, y):
      if not (numeric(x) and numeric(y)) or num(x) is None or num(y) is None:
        return None
      px, py = num(x), num(y)
      if px.const is not None and py.const is not None and pf:
        return C(pf(float(px.const), float(py.const)))
      if op == 'atan2' and px.const == 0 and st.facts.iv(py).lo >= 0:
        return mknum(T.ZERO, 'float', lab=x.lab | y.lab)
      return N(T.poly(T.atom(op, px, py)), 'float', lab=x.lab | y.lab)
    if isarr(st, args[0]) or isarr(st, args[1]):
      return [(st, lift(I, st, f, list(args[:2]), node))]
    r = f(args[0], args[1])
    return [(st, r if r is not None else opaque_num(I, st, op, args))]
  return h


S['math.atan2'] = S['numpy.arctan2'] = S['jax.numpy.arctan2'] = binary_term('atan2', math.atan2)
S['math.fmod'] = S['numpy.fmod'] = binary_term('fmod', math.fmod)


@stub('math.hypot', 'numpy.hypot', 'jax.numpy.hypot')
def m_hypot(I, st, name, args, kw, node):
  if all(numeric(a) and num(a) is not None for a in args):
    p = T.ZERO
    for a in args:
      p = p + num(a) * num(a)
    return [(st, N(T.power(p, Fraction(1, 2)), 'float', lab=labs(*args)))]
  return [(st, opaque_num(I, st, 'hypot', args, rng=T.Iv(Fraction(0))))]


@stub('math.isnan', 'numpy.isnan', 'math.isinf', 'numpy.isinf', 'math.isfinite', 'numpy.isfinite')
def m_isnan(I, st, name, args, kw, node):
  v = args[0]
  fin = name.endswith('finite')
  if isinstance(v, C):
    f = getattr(math, name.split('.')[1])
    return [(st, C(f(v.val)))]
  if isinstance(v, N):
    return [(st, C(fin, lab=v.lab))]
  return [(st, opaque(I, st, name, args, 'bool'))]


@stub('math.isclose', 'numpy.isclose', 'numpy.allclose')
def m_isclose(I, st, name, args, kw, node):
  return [(st, opaque(I, st, name, args, 'bool'))]


for _o, _n in (('+', 'add'), ('-', 'sub'), ('*', 'mul'), ('/', 'truediv')):
  S['operator.' + _n] = (lambda o: lambda I, st, name, args, kw, node: I.binop(
      o, args[0], args[1], st, node))(_o)
for _o, _n in (('<', 'lt'), ('<=', 'le'), ('>', 'gt'), ('>=', 'ge'), ('==', 'eq'), ('!=', 'ne')):
  S['operator.' + _n] = (lambda o: lambda I, st, name, args, kw, node: I.compare(
      o, args[0], args[1], st, node))(_o)
S['operator.neg'] = lambda I, st, name, args, kw, node: I.neg(args[0], st, node)
S['operator.pos'] = lambda I, st, name, args, kw, node: [(st, args[0])]


# ------------------------------------------------------------------ dataclasses, functools, enum
@stub('dataclasses.field')
def dc_field(I, st, name, args, kw, node):
  return [(st, DF(kw.get('default', C(Ellipsis)), kw.get('default_factory', NONE),
                  kw.get('init', TRUE), kw.get('compare', TRUE)))]


@stub('@dataclasses.dataclass', '@chex.dataclass', '@flax.struct.dataclass')
def dc_deco(I, st, f, d):
  if isinstance(f, Cl):
    f.ci.dataclass = True
    if isinstance(d, ast.Call):
      for k in d.keywords:
        if k.arg == 'eq' and isinstance(k.value, ast.Constant):
          f.ci.dc_eq = bool(k.value.value)
        if k.arg == 'frozen' and isinstance(k.value, ast.Constant):
          f.ci.frozen = bool(k.value.value)
  return [(st, f)]


@stub('dataclasses.replace')
def dc_replace(I, st, name, args, kw, node):
  c = st.cell(args[0].addr)
  n = c.copy()
  n.d.update(kw)
  return [(st, R(st.alloc(n)))]


@stub('dataclasses.asdict')
def dc_asdict(I, st, name, args, kw, node):
  if kindof(st, args[0]) == 'obj':
    c = st.cell(args[0].addr)
    return [(st, R(st.alloc(Cell('dict', None, {C(k): v for k, v in c.d.items()}))))]
  return [(st, opaque(I, st, 'asdict', args))]


@stub('json.JSONEncoder.default')
def json_default(I, st, name, args, kw, node):
  return I.throw(st, 'TypeError', node)


@stub('dataclasses.is_dataclass')
def dc_is(I, st, name, args, kw, node):
  if kindof(st, args[0]) == 'obj':
    return [(st, C(any(c.dataclass for c in st.cell(args[0].addr).cls.mro())))]
  if isinstance(args[0], (C, N, Tup, En)) or kindof(st, args[0]) in ('arr', 'list', 'dict', 'set'):
    return [(st, FALSE)]
  return [(st, opaque(I, st, 'is_dataclass', args, 'bool'))]


@stub('functools.partial', 'jax.tree_util.Partial')
def ft_partial(I, st, name, args, kw, node):
  f = args[0]
  if isinstance(f, Pa):
    return [(st, Pa(f.fn, f.args + tuple(args[1:]), tuple({**dict(f.kw), **kw}.items())))]
  return [(st, Pa(f, tuple(args[1:]), tuple(kw.items())))]


@stub('functools.lru_cache', 'functools.cache', 'functools.wraps', 'jax.jit', 'jax.named_call')
def ft_ident(I, st, name, args, kw, node):
  if name == 'functools.wraps' or not args or not isinstance(args[0], (Fn, BM, Pa, Cl, O)):
    return [(st, X('pyabs.identity'))]
  return [(st, args[0])]


@stub('pyabs.identity')
def identity(I, st, name, args, kw, node):
  return [(st, args[0])]


@stub('functools.reduce')
def ft_reduce(I, st, name, args, kw, node):
  outs = []
  for s1, it in I.iterate(args[1], st, node):
    if isinstance(it, Gen):
      outs.append((s1, opaque(I, s1, 'reduce', args)))
      continue
    cur = [(s1, args[2])] if len(args) > 2 else [(s1, it[0])]
    for x in (it if len(args) > 2 else it[1:]):
      cur = [z for s2, acc in cur for z in I.call(args[0], [acc, x], {}, s2, node)]
    outs += cur
  return outs


S['enum.auto'] = lambda I, st, name, args, kw, node: [(st, X('enum.auto'))]


@stub('collections.defaultdict')
def c_defaultdict(I, st, name, args, kw, node):
  return [(st, R(st.alloc(Cell('dict', 'defaultdict', {}, {'factory': args[0] if args else NONE}))))]


@stub('collections.deque')
def c_deque(I, st, name, args, kw, node):
  return S['builtins.list'](I, st, name, args[:1], {}, node)


@stub('collections.namedtuple')
def c_namedtuple(I, st, name, args, kw, node):
  return [(st, opaque(I, st, name, args, '?'))]


@stub('bisect.bisect', 'bisect.bisect_left', 'bisect.bisect_right')
def bisect_(I, st, name, args, kw, node):
  """The index, one path per position when the list is known."""
  outs = []
  left = name.endswith('left')
  lo = argget(args, kw, 2, 'lo')
  hi = argget(args, kw, 3, 'hi')
  for s1, it in I.iterate(args[0], st, node):
    ok = not isinstance(it, Gen) and len(it) <= 24 and num(args[1]) is not None and all(
        num(x) is not None for x in it) and all(
            x is None or isinstance(x, C) for x in (lo, hi))
    if not ok:
      outs.append((s1, opaque_num(I, s1, 'bisect', args, isint=True, rng=T.Iv(Fraction(0)))))
      continue
    l = lo.val if lo is not None and lo.val else 0
    h = hi.val if hi is not None and hi.val is not None else len(it)
    p = num(args[1])
    live = s1
    for i in range(l, h):
      q = num(it[i])
      got = False
      for s2, b2 in I.fork_cmp('<=' if left else '<', p, q, live):
        s2.ctrl = st.ctrl
        if b2:
          outs.append((s2, C(i, lab=args[1].lab)))
        else:
          live = s2
          got = True
      if not got:
        live = None
        break
    if live is not None:
      outs.append((live, C(h, lab=args[1].lab)))
  return outs


@stub('copy.copy')
def copy_copy(I, st, name, args, kw, node):
  v = args[0]
  if isinstance(v, R):
    return [(st, R(st.alloc(st.cell(v.addr).copy()), lab=v.lab))]
  return [(st, v)]


def deepcopy(st, v, memo):
  if isinstance(v, R) and st.has(v.addr):
    if v.addr in memo:
      return R(memo[v.addr], lab=v.lab)
    c = st.cell(v.addr).copy()
    n = memo[v.addr] = st.alloc(c)
    if isinstance(c.d, dict):
      c.d = {k: deepcopy(st, x, memo) for k, x in c.d.items()}
    else:
      c.d = [deepcopy(st, x, memo) for x in c.d]
    if isinstance(c.meta, dict):
      c.meta = {k: deepcopy(st, x, memo) if isinstance(x, V) else x for k, x in c.meta.items()}
    return R(n, lab=v.lab)
  if isinstance(v, Tup):
    return Tup(tuple(deepcopy(st, x, memo) for x in v.items), lab=v.lab)
  if isinstance(v, Un):
    return Un(tuple(deepcopy(st, x, memo) for x in v.alts), lab=v.lab)
  return v


@stub('copy.deepcopy')
def copy_deepcopy(I, st, name, args, kw, node):
  return [(st, deepcopy(st, args[0], {}))]


@stub('contextlib.suppress')
def cl_suppress(I, st, name, args, kw, node):
  return [(st, O(T.atom('suppress', tuple(I.vkey(a, st) for a in args)), 'contextlib.suppress'))]


@stub('itertools.count')
def it_count(I, st, name, args, kw, node):
  lo = num(args[0]) if args else T.ZERO
  def elem(iv, s, lo=lo):
    return mknum(lo + iv, 'int')
  return [(st, Gen(elem, T.fresh('inf', isint=True), 'range', 'count'))]


@stub('itertools.chain')
def it_chain(I, st, name, args, kw, node):
  outs = [(st, [])]
  for a in args:
    nxt = []
    for s1, l in outs:
      for s2, it in I.iterate(a, s1, node):
        if isinstance(it, Gen):
          it = [it.elem if isinstance(it.elem, V) else it.elem(T.ZERO, s2)]
        nxt.append((s2, l + list(it)))
    outs = nxt
  return [(s1, R(s1.alloc(Cell('list', None, l)))) for s1, l in outs]


@stub('itertools.product')
def it_product(I, st, name, args, kw, node):
  import itertools
  outs = [(st, [])]
  for a in args:
    outs = [(s2, l + [it]) for s1, l in outs for s2, it in I.iterate(a, s1, node)]
  res = []
  for s1, its in outs:
    if any(isinstance(x, Gen) for x in its):
      e = Tup(tuple((x.elem if isinstance(x.elem, V) else x.elem(T.fresh('i', isint=True), s1))
                    if isinstance(x, Gen) else joined(I, x) for x in its))
      res.append((s1, Gen(e, T.fresh('n', isint=True), 'product', '')))
    else:
      res.append((s1, Tup(tuple(Tup(tuple(x)) for x in itertools.product(*its)))))
  return res
