"""Program model: modules, classes, functions, imports, types of /repo.

Built from the current source on every run with the stdlib parser only; no
module of the repository is imported.
"""
import ast
import hashlib
import json
import os

from .expand import expand

REPO = os.environ.get('TNSA_REPO', '/repo')
PKG = 'tensornetwork'


class AnalysisError(Exception):
  """The analysis is broken (a vanished anchor, an unparsable file)."""


def idle(s):
  """A statement without any effect: a constant on its own or stored under a
  plain local name (also conditionally)."""
  if isinstance(s, ast.Pass):
    return True
  if isinstance(s, ast.Expr):
    return isinstance(s.value, ast.Constant)
  if isinstance(s, (ast.Assign, ast.AnnAssign)):
    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
    return all(isinstance(t, ast.Name) for t in ts) and isinstance(
        s.value, ast.Constant)
  if isinstance(s, ast.If):
    return isinstance(s.test, (ast.Constant, ast.Name)) and all(
        idle(x) for x in s.body + s.orelse)
  return False


class Func:

  def __init__(self, qual, node, mod, cls=None, parent=None):
    self.qual = qual
    self.node = node
    self.mod = mod
    self.cls = cls
    self.parent = parent
    self.name = node.name if hasattr(node, 'name') else '<lambda>'
    decs = [dotted(d if not isinstance(d, ast.Call) else d.func)
            for d in getattr(node, 'decorator_list', [])]
    self.decorators = decs
    self.is_property = 'property' in decs
    self.is_setter = any(d and d.endswith('.setter') for d in decs)
    self.is_static = 'staticmethod' in decs
    self.is_classmethod = 'classmethod' in decs
    self.is_abstract = any(d and d.split('.')[-1] == 'abstractmethod'
                           for d in decs)
    self.is_overload = any(d and d.split('.')[-1] == 'overload' for d in decs)
    a = node.args
    self.posonly = [x.arg for x in a.posonlyargs]
    self.params = self.posonly + [x.arg for x in a.args]
    self.kwonly = [x.arg for x in a.kwonlyargs]
    self.vararg = a.vararg.arg if a.vararg else None
    self.kwarg = a.kwarg.arg if a.kwarg else None
    self.ann = {x.arg: x.annotation
                for x in a.posonlyargs + a.args + a.kwonlyargs}
    self.defaults = {}
    if a.defaults:
      for n, d in zip(self.params[-len(a.defaults):], a.defaults):
        self.defaults[n] = d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
      if d is not None:
        self.defaults[x.arg] = d
    self.body = node.body if isinstance(node.body, list) else None

  @property
  def file(self):
    return self.mod.rel

  @property
  def line(self):
    return self.node.lineno

  def all_params(self):
    return self.params + self.kwonly

  def user_params(self):
    ps = self.all_params()
    if self.cls is not None and not self.is_static and ps:
      return ps[1:]
    return ps

  def docless_body(self):
    b = self.body
    if b and isinstance(b[0], ast.Expr) and isinstance(
        b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
      return b[1:]
    return b

  def only_raises(self):
    """No way out but a raise that is the last statement."""
    b = self.docless_body() or []
    return bool(b) and isinstance(b[-1], ast.Raise) and not any(
        isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom))
        for s in b for n in ast.walk(s))

  def is_stub(self):
    """Body only raises NotImplementedError / pass / returns nothing."""
    b = self.docless_body() or []
    for s in b:
      if isinstance(s, ast.Pass) or idle(s):
        continue
      if isinstance(s, ast.Return) and s.value is None:
        continue
      if isinstance(s, ast.Raise) and s.exc is not None:
        e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        if dotted(e) == 'NotImplementedError':
          continue
      return False
    return True

  def __repr__(self):
    return '<Func %s>' % self.qual


class Class:

  def __init__(self, qual, node, mod):
    self.qual = qual
    self.node = node
    self.mod = mod
    self.name = node.name
    self.methods = {}
    self.setters = {}
    self.attrs = {}
    self.ann = {}
    self._mro = None
    self.init_attr = None

  def __repr__(self):
    return '<Class %s>' % self.qual


class Module:

  def __init__(self, name, path, rel):
    self.name = name
    self.path = path
    self.rel = rel
    self.src = open(path, encoding='utf-8').read()
    try:
      self.tree = ast.parse(self.src, filename=rel)
    except SyntaxError as e:
      raise AnalysisError('cannot parse %s: %s' % (rel, e))
    self.ns = {}  # name -> ('mod',n)|('ext',d)|('func',q)|('cls',q)|('var',expr)
    self.is_pkg = os.path.basename(path) == '__init__.py'

  def digest(self):
    return hashlib.sha256(self.src.encode()).hexdigest()


def dotted(n):
  if isinstance(n, ast.Name):
    return n.id
  if isinstance(n, ast.Attribute):
    b = dotted(n.value)
    return None if b is None else b + '.' + n.attr
  return None


def is_test(rel):
  b = os.path.basename(rel)
  return (b.endswith('_test.py') or b.startswith('test_') or
          b == 'conftest.py' or '/tests/' in '/' + rel or b.startswith('.'))


_API = None


def _api():
  global _API
  if _API is None:
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                     'known_api.json')
    if not os.path.exists(p):
      return frozenset()
    with open(p) as f:
      _API = frozenset(json.load(f))
  return _API


class Program:

  def __init__(self, repo=None, raw=False):
    self.raw = raw
    self.repo = repo or REPO
    self.modules = {}
    self.funcs = {}
    self.classes = {}
    self.simple_class = {}
    self._load()

  # ---- loading -----------------------------------------------------------
  def _load(self):
    root = os.path.join(self.repo, PKG)
    if not os.path.isdir(root):
      raise AnalysisError('no package at ' + root)
    for d, ds, fs in os.walk(root):
      ds[:] = sorted(x for x in ds if x != '__pycache__')
      for f in sorted(fs):
        if not f.endswith('.py'):
          continue
        path = os.path.join(d, f)
        rel = os.path.relpath(path, self.repo)
        if is_test(rel):
          continue
        parts = rel[:-3].split(os.sep)
        if parts[-1] == '__init__':
          parts = parts[:-1]
        name = '.'.join(parts)
        self.modules[name] = Module(name, path, rel)
    if not self.raw:
      expand(self.modules, _api())
    for m in self.modules.values():
      self._collect(m)
    for c in self.classes.values():
      self.simple_class.setdefault(c.name, []).append(c)

  def _collect(self, m):
    self._block(m, m.tree.body, m.ns, m.name, None)

  def _block(self, m, body, ns, prefix, cls):
    for s in body:
      if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
        self._func(m, s, ns, prefix, cls)
      elif isinstance(s, ast.ClassDef):
        q = prefix + '.' + s.name
        c = Class(q, s, m)
        self.classes[q] = c
        ns[s.name] = ('cls', q)
        self._block(m, s.body, c.attrs, q, c)
      elif isinstance(s, ast.Import):
        for a in s.names:
          tgt = a.asname or a.name.split('.')[0]
          full = a.name if a.asname else a.name.split('.')[0]
          ns[tgt] = self._modref(full)
          if not a.asname:
            # `import a.b.c` binds a; keep it
            ns[tgt] = self._modref(full)
      elif isinstance(s, ast.ImportFrom):
        base = s.module or ''
        if s.level:
          p = m.name.split('.')
          if not m.is_pkg:
            p = p[:-1]
          p = p[:len(p) - (s.level - 1)] if s.level > 1 else p
          base = '.'.join(p + ([base] if base else []))
        for a in s.names:
          tgt = a.asname or a.name
          ns[tgt] = ('from', base, a.name)
      elif isinstance(s, ast.Assign):
        for t in s.targets:
          if isinstance(t, ast.Name):
            ns[t.id] = ('var', s.value, m.name)
          elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
              if isinstance(e, ast.Name):
                ns[e.id] = ('var', None, m.name)
      elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
        if cls is not None:
          cls.ann[s.target.id] = s.annotation
        if s.value is not None:
          ns[s.target.id] = ('var', s.value, m.name)
      elif isinstance(s, (ast.If, ast.Try)):
        for sub in (s.body, s.orelse, getattr(s, 'finalbody', [])):
          self._block(m, sub, ns, prefix, cls)
        for h in getattr(s, 'handlers', []):
          self._block(m, h.body, ns, prefix, cls)

  def _func(self, m, s, ns, prefix, cls):
    q = prefix + '.' + s.name
    f = Func(q, s, m, cls)
    if f.is_overload:
      return
    if cls is not None and f.is_setter:
      f.qual = q + '.setter'
      cls.setters[s.name] = f
      self.funcs[f.qual] = f
    else:
      if cls is not None:
        cls.methods[s.name] = f
      self.funcs[q] = f
      ns[s.name] = ('func', q)
    f.node._tnsa_func = f
    self._nested(m, f)

  def _nested(self, m, f):
    """Register nested defs (closures) so that they are counted/resolvable."""

    def visit(body):
      for s in body:
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
          q = f.qual + '.<locals>.' + s.name
          g = Func(q, s, m, None, parent=f)
          s._tnsa_func = g
          self.funcs[q] = g
          self._nested(m, g)
        elif isinstance(s, ast.ClassDef):
          continue
        else:
          for fld in ('body', 'orelse', 'finalbody'):
            sub = getattr(s, fld, None)
            if isinstance(sub, list):
              visit(sub)
          for h in getattr(s, 'handlers', []):
            visit(h.body)

    visit(f.node.body)

  def _modref(self, full):
    if full in self.modules:
      return ('mod', full)
    return ('ext', full)

  # ---- resolution --------------------------------------------------------
  def resolve_entry(self, e, depth=0):
    """Follow ('from', mod, name) chains to a final entry."""
    while e is not None and e[0] == 'from' and depth < 12:
      depth += 1
      _, base, name = e
      if base in self.modules:
        mm = self.modules[base]
        if name in mm.ns and mm.ns[name] != e:
          e = mm.ns[name]
          continue
        if base + '.' + name in self.modules:
          return ('mod', base + '.' + name)
        return ('ext', base + '.' + name)
      if base + '.' + name in self.modules:
        return ('mod', base + '.' + name)
      return ('ext', base + '.' + name)
    return e

  def lookup(self, mod, name):
    e = mod.ns.get(name)
    return self.resolve_entry(e)

  def module_attr(self, modname, name):
    m = self.modules.get(modname)
    if m is not None:
      e = self.resolve_entry(m.ns.get(name))
      if e is not None:
        return e
    if modname + '.' + name in self.modules:
      return ('mod', modname + '.' + name)
    return None

  def resolve_dotted(self, mod, d):
    parts = d.split('.')
    e = self.lookup(mod, parts[0])
    for p in parts[1:]:
      if e is None:
        return None
      if e[0] == 'mod':
        e = self.module_attr(e[1], p)
      elif e[0] == 'ext':
        e = ('ext', e[1] + '.' + p)
      elif e[0] == 'cls':
        c = self.classes[e[1]]
        f = self.find_method(c, p)
        e = ('func', f.qual) if f else None
      else:
        return None
    return e

  def bases(self, c):
    out = []
    for b in c.node.bases:
      d = dotted(b)
      if d is None:
        continue
      e = self.resolve_dotted(c.mod, d)
      if e and e[0] == 'cls':
        out.append(self.classes[e[1]])
    return out

  def mro(self, c):
    if c._mro is None:
      c._mro = [c]  # guards recursion
      seqs = [self.mro(b)[:] for b in self.bases(c)] + [self.bases(c)]
      out = [c]
      while any(seqs):
        seqs = [s for s in seqs if s]
        for s in seqs:
          h = s[0]
          if not any(h in t[1:] for t in seqs):
            break
        else:
          h = seqs[0][0]
        out.append(h)
        seqs = [[x for x in s if x is not h] for s in seqs]
      c._mro = out
    return c._mro

  def find_method(self, c, name):
    for k in self.mro(c):
      if name in k.methods:
        return k.methods[name]
      # class level alias  __rmul__ = __mul__
      e = k.attrs.get(name)
      if e and e[0] == 'var' and isinstance(e[1], ast.Name):
        if e[1].id in k.methods:
          return k.methods[e[1].id]
    return None

  def find_setter(self, c, name):
    for k in self.mro(c):
      if name in k.setters:
        return k.setters[name]
    return None

  def subclasses(self, c):
    return [k for k in self.classes.values() if c in self.mro(k) and k is not c]

  def is_subclass(self, a, b):
    return b in self.mro(a)

  def cls(self, name):
    """Class by simple name or qualified suffix (vanished -> AnalysisError)."""
    if name in self.classes:
      return self.classes[name]
    c = self.simple_class.get(name.split('.')[-1], [])
    c = [x for x in c if x.qual.endswith(name)]
    if len(c) != 1:
      raise AnalysisError('anchor class %r: %d matches' % (name, len(c)))
    return c[0]

  def has_cls(self, name):
    return name in self.simple_class

  def func(self, qual):
    """Function by qualified name relative to the package; follows re-exports.

    `linalg.krylov.gmres`, `network_components.Node.copy` ...
    """
    q = qual if qual.startswith(PKG + '.') else PKG + '.' + qual
    if q in self.funcs:
      return self.funcs[q]
    parts = q.split('.')
    # module prefix
    for i in range(len(parts) - 1, 0, -1):
      mn = '.'.join(parts[:i])
      if mn in self.modules:
        e = self.module_attr(mn, parts[i])
        if e and e[0] == 'func' and i == len(parts) - 1:
          return self.funcs[e[1]]
        if e and e[0] == 'cls' and i == len(parts) - 2:
          f = self.find_method(self.classes[e[1]], parts[-1])
          if f:
            return f
        break
    raise AnalysisError('anchor function %r has vanished' % qual)

  def has_func(self, qual):
    try:
      return self.func(qual)
    except AnalysisError:
      return None

  # ---- types -------------------------------------------------------------
  def parse_type(self, mod, a):
    """Annotation -> ('cls',q) | ('list',T) | ('dict',K,V) | ('tuple',[..])."""
    if a is None:
      return None
    if isinstance(a, ast.Constant):
      if isinstance(a.value, str):
        try:
          return self.parse_type(mod, ast.parse(a.value, mode='eval').body)
        except SyntaxError:
          return None
      return None
    if isinstance(a, (ast.Name, ast.Attribute)):
      d = dotted(a)
      if d is None:
        return None
      e = self.resolve_dotted(mod, d)
      if e and e[0] == 'cls':
        return ('cls', e[1])
      if e and e[0] == 'var' and isinstance(e[1], (ast.Name, ast.Attribute)):
        dd = dotted(e[1])
        e2 = self.resolve_dotted(self.modules[e[2]], dd) if dd else None
        if e2 and e2[0] == 'cls':
          return ('cls', e2[1])
        return None
      if e is None and d in ('int', 'str', 'float', 'bool', 'list', 'dict'):
        return ('prim', d)
      if e and e[0] == 'ext' and e[1] == 'typing.Text':
        return ('prim', 'str')
      return None
    if isinstance(a, ast.Subscript):
      h = dotted(a.value)
      h = h.split('.')[-1] if h else ''
      sl = a.slice
      els = sl.elts if isinstance(sl, ast.Tuple) else [sl]
      if h == 'Optional':
        return self.parse_type(mod, els[0])
      if h == 'Union':
        ts = [self.parse_type(mod, e) for e in els
              if not (isinstance(e, ast.Constant) and e.value is None)]
        ts = list(dict.fromkeys(map(_freeze, ts)))
        if len(ts) == 1:
          return ts[0]
        return ('union', tuple(ts))
      if h in ('List', 'Sequence', 'Iterable', 'Set', 'list', 'set',
               'FrozenSet', 'Collection'):
        return ('list', self.parse_type(mod, els[0]))
      if h in ('Dict', 'dict', 'Mapping') and len(els) == 2:
        return ('dict', self.parse_type(mod, els[0]),
                self.parse_type(mod, els[1]))
      if h in ('Tuple', 'tuple'):
        return ('tuple', tuple(self.parse_type(mod, e) for e in els))
      if h in ('Type', 'type'):
        return None
    return None

  def attr_type(self, c, name):
    """Type of instance attribute `name` of class c."""
    for k in self.mro(c):
      if name in k.ann:
        return self.parse_type(k.mod, k.ann[name])
      f = k.methods.get(name)
      if f is not None and f.is_property:
        t = self.parse_type(k.mod, f.node.returns)
        if t is not None:
          return t
        continue
      t = self._init_types(k).get(name)
      if t is not None:
        return t
    if name == 'backend':
      return self._backend_type()
    return None

  def _backend_type(self):
    c = self.simple_class.get('AbstractBackend')
    return ('cls', c[0].qual) if c else None

  def _init_types(self, k):
    if k.init_attr is not None:
      return k.init_attr
    k.init_attr = {}
    for f in k.methods.values():
      self_name = f.params[0] if f.params else None
      if f.is_static or f.is_classmethod or self_name is None:
        continue
      for s in ast.walk(f.node):
        if isinstance(s, ast.Assign) and len(s.targets) == 1:
          t = s.targets[0]
          v = s.value
          if isinstance(t, ast.Attribute) and isinstance(
              t.value, ast.Name) and t.value.id == self_name:
            ty = None
            if isinstance(v, ast.Name) and v.id in f.ann:
              ty = self.parse_type(f.mod, f.ann[v.id])
            elif isinstance(v, ast.Call):
              d = dotted(v.func)
              e = self.resolve_dotted(f.mod, d) if d else None
              if e and e[0] == 'cls':
                ty = ('cls', e[1])
              elif e and e[0] == 'func':
                g = self.funcs[e[1]]
                ty = self.parse_type(g.mod, g.node.returns)
            if ty is not None and ty[0] == 'cls':
              k.init_attr.setdefault(t.attr, ty)
    return k.init_attr


def _freeze(t):
  return t
