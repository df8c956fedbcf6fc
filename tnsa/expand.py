"""Extracted helpers are put back where they are used.

A function of the package that is not part of the interface recorded in
known_api.json is a helper somebody introduced (an extracted block, a shared
check).  Before the analyses look at a module, calls to such helpers from the
same module (or through self/cls/the class name) are replaced by their bodies,
so that rules judge what the code does and not how it is cut into functions.
Helpers that cannot be put back (generators, decorated, *args, early returns
inside loops ...) are left alone; the abstract interpreter follows the call.
"""
import ast
import copy

DEF = (ast.FunctionDef,)


class Cannot(Exception):
  pass


def _docless(b):
  if b and isinstance(b[0], ast.Expr) and isinstance(
      b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
    return b[1:]
  return b


def _stored(node):
  out = set()
  for n in ast.walk(node):
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
      out.add(n.id)
    elif isinstance(n, ast.ExceptHandler) and n.name:
      out.add(n.name)
  return out


def _simple(e):
  return isinstance(e, (ast.Name, ast.Constant)) or (
      isinstance(e, ast.Attribute) and _simple(e.value))


def _suitable(f):
  a = f.args
  if a.vararg or a.kwarg:
    return False
  for n in ast.walk(f):
    if n is not f and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef,
                                     ast.ClassDef, ast.Yield, ast.YieldFrom,
                                     ast.Global, ast.Nonlocal, ast.Await)):
      return False
    if isinstance(n, ast.Name) and n.id in ('super', '__class__', 'locals'):
      return False
  return all(isinstance(d, ast.Name) and d.id == 'staticmethod'
             for d in f.decorator_list)


class _Sub(ast.NodeTransformer):

  def __init__(self, m):
    self.m = m

  def visit_Name(self, n):
    r = self.m.get(n.id)
    if r is None:
      return n
    if isinstance(r, str):
      return ast.copy_location(ast.Name(r, n.ctx), n)
    if not isinstance(n.ctx, ast.Load):
      raise Cannot()
    r = copy.deepcopy(r)
    for x in ast.walk(r):
      ast.copy_location(x, n)
    return r

  def visit_arg(self, n):
    r = self.m.get(n.arg)
    if isinstance(r, str):
      n.arg = r
    elif r is not None:
      raise Cannot()
    return n

  def visit_ExceptHandler(self, n):
    self.generic_visit(n)
    r = self.m.get(n.name)
    if isinstance(r, str):
      n.name = r
    elif r is not None:
      raise Cannot()
    return n


def _bind(f, call, me):
  """param -> argument expression."""
  a = f.args
  ps = [x.arg for x in a.posonlyargs + a.args]
  vals = list(call.args)
  if any(isinstance(v, ast.Starred) for v in vals) or any(
      k.arg is None for k in call.keywords):
    raise Cannot()
  if me is not None:
    vals.insert(0, me)
  if len(vals) > len(ps):
    raise Cannot()
  out = dict(zip(ps, vals))
  for k in call.keywords:
    if k.arg in out:
      raise Cannot()
    out[k.arg] = k.value
  dfl = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults))
  dfl.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)
              if d is not None})
  allp = ps + [x.arg for x in a.kwonlyargs]
  if set(out) - set(allp):
    raise Cannot()
  for p in allp:
    if p not in out:
      if p not in dfl or not isinstance(dfl[p], (ast.Constant, ast.Name,
                                                 ast.UnaryOp)):
        raise Cannot()
      out[p] = dfl[p]
  return out, allp


def _instance(f, call, me, taken):
  """(statements, body) of the helper with the arguments put in."""
  args, order = _bind(f, call, me)
  body = copy.deepcopy(_docless(f.body))
  mod = ast.Module(body, [])
  st = _stored(mod)
  m = {}
  pre = []
  for p in order:
    e = args[p]
    if p not in st and _simple(e):
      if not (isinstance(e, ast.Name) and e.id == p):
        m[p] = e
    else:
      nm = p
      while nm in taken:
        nm += '_'
      taken.add(nm)
      if nm != p:
        m[p] = nm
      pre.append(ast.copy_location(
          ast.Assign([ast.Name(nm, ast.Store())], copy.deepcopy(e)), call))
  for v in sorted(st - set(order)):
    if v in taken:
      nm = v
      while nm in taken:
        nm += '_'
      taken.add(nm)
      m[v] = nm
  mod = _Sub(m).visit(mod)
  return pre, mod.body


def _ends(b):
  if not b:
    return False
  s = b[-1]
  if isinstance(s, (ast.Return, ast.Raise)):
    return True
  return isinstance(s, ast.If) and bool(s.orelse) and _ends(s.body) and _ends(
      s.orelse)


def _has_return(s):
  return any(isinstance(n, ast.Return) for n in ast.walk(s))


def _tail(b, make):
  """Returns (all in tail position) replaced by make(value)."""
  out = []
  for i, s in enumerate(b):
    rest = b[i + 1:]
    if not _has_return(s):
      out.append(s)
      if isinstance(s, ast.Raise):
        return out
      continue
    if isinstance(s, ast.Return):
      out += make(s.value)
      return out
    if isinstance(s, ast.If):
      if _ends(s.body):
        s.body = _tail(s.body, make)
        s.orelse = _tail(list(s.orelse) + rest, make)
      elif _ends(s.orelse):
        s.body = _tail(s.body + rest, make)
        s.orelse = _tail(s.orelse, make)
      elif not rest:
        s.body = _tail(s.body, make)
        s.orelse = _tail(s.orelse, make)
      else:
        raise Cannot()
      s.body = s.body or [ast.copy_location(ast.Pass(), s)]
      out.append(s)
      return out
    if isinstance(s, ast.With) and not rest:
      s.body = _tail(s.body, make)
      out.append(s)
      return out
    raise Cannot()
  out += make(None)
  return out


class Expander:

  def __init__(self, mod, tree, api):
    self.tree = tree
    self.top = {}
    self.meth = {}
    for s in tree.body:
      if isinstance(s, DEF) and mod + '.' + s.name not in api:
        self.top[s.name] = s
      elif isinstance(s, ast.ClassDef):
        for x in s.body:
          if isinstance(x, DEF) and not x.name.startswith('__') and \
              mod + '.' + s.name + '.' + x.name not in api:
            self.meth[(s.name, x.name)] = x
    self.count = {}
    self.changed = False

  def active(self):
    return bool(self.top or self.meth)

  def target(self, call, cls, owner):
    """(helper, self argument or None) for a call."""
    fn = call.func
    f = me = None
    if isinstance(fn, ast.Name):
      f = self.top.get(fn.id)
    elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
      first = owner.args.args[0].arg if owner.args.args else None
      if cls is not None and fn.value.id == first and not any(
          isinstance(d, ast.Name) and d.id == 'staticmethod'
          for d in owner.decorator_list):
        f = self.meth.get((cls, fn.attr))
        me = fn.value
      elif (fn.value.id, fn.attr) in self.meth:
        f = self.meth[(fn.value.id, fn.attr)]
        if not f.decorator_list:
          return None
      if f is not None and f.decorator_list:
        me = None
    if f is None or f is owner or not _suitable(f):
      return None
    if any(isinstance(n, ast.Call) and (
        (isinstance(n.func, ast.Name) and n.func.id == f.name) or
        (isinstance(n.func, ast.Attribute) and n.func.attr == f.name))
           for n in ast.walk(f)):
      return None  # recursive
    return f, me

  def run(self):
    for _ in range(4):
      self.changed = False
      for s in self.tree.body:
        if isinstance(s, DEF):
          self.func(s, None)
        elif isinstance(s, ast.ClassDef):
          for x in s.body:
            if isinstance(x, DEF):
              self.func(x, s.name)
      if not self.changed:
        break

  def func(self, f, cls):
    taken = {n.id for n in ast.walk(f) if isinstance(n, ast.Name)} | {
        n.arg for n in ast.walk(f) if isinstance(n, ast.arg)}
    self.block_of(f, f, cls, taken)
    self.exprs(f, cls)

  def block_of(self, node, f, cls, taken):
    for fld in ('body', 'orelse', 'finalbody'):
      b = getattr(node, fld, None)
      if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
        setattr(node, fld, self.block(b, f, cls, taken))
    for h in getattr(node, 'handlers', []) or []:
      h.body = self.block(h.body, f, cls, taken)

  def block(self, b, f, cls, taken):
    out = []
    for s in b:
      new = None
      v = getattr(s, 'value', None) if isinstance(
          s, (ast.Return, ast.Expr, ast.Assign)) else None
      if isinstance(v, ast.Call):
        t = self.target(v, cls, f)
        if t is not None:
          tk = set(taken)
          try:
            pre, body = _instance(t[0], v, t[1], tk)
            if isinstance(s, ast.Return):
              if not _ends(body):
                body.append(ast.copy_location(
                    ast.Return(ast.Constant(None)), s))
              new = pre + body
            else:
              def make(val, s=s):
                val = val if val is not None else ast.Constant(None)
                if isinstance(s, ast.Expr):
                  if isinstance(val, (ast.Constant, ast.Name)):
                    return []
                  return [ast.copy_location(ast.Expr(val), s)]
                return [ast.copy_location(
                    ast.Assign(copy.deepcopy(s.targets), val), s)]
              new = pre + _tail(body, make)
              new = new or [ast.copy_location(ast.Pass(), s)]
            taken |= tk
          except Cannot:
            new = None
      if new is None:
        self.block_of(s, f, cls, taken) if not isinstance(
            s, (ast.FunctionDef, ast.ClassDef)) else None
        out.append(s)
      else:
        self.changed = True
        for x in new:
          ast.fix_missing_locations(x)
        out += new
    return out

  def exprs(self, f, cls):
    """helper(x) with a body 'return E' inside an expression."""
    me = self

    class X(ast.NodeTransformer):

      def visit_Call(self, n):
        self.generic_visit(n)
        t = me.target(n, cls, f)
        if t is None:
          return n
        h = t[0]
        b = _docless(h.body)
        if len(b) != 1 or not isinstance(b[0], ast.Return) or \
            b[0].value is None:
          return n
        try:
          args, order = _bind(h, n, t[1])
          e = copy.deepcopy(b[0].value)
          if any(isinstance(x, (ast.Lambda, ast.NamedExpr))
                 for x in ast.walk(e)):
            return n
          if _stored(e) & (set(order) | {
              x.id for a in args.values() for x in ast.walk(a)
              if isinstance(x, ast.Name)}):
            return n
          for p, a in args.items():
            uses = sum(isinstance(x, ast.Name) and x.id == p
                       for x in ast.walk(e))
            if uses > 1 and not _simple(a):
              return n
          e = _Sub(dict(args)).visit(ast.Expression(e)).body
        except Cannot:
          return n
        me.changed = True
        return ast.copy_location(e, n)
    for i, s in enumerate(f.body):
      f.body[i] = X().visit(s)
    ast.fix_missing_locations(f)


def names_used(tree, skip):
  out = set()

  def go(n):
    if any(n is x for x in skip):
      return
    if isinstance(n, ast.Name):
      out.add(n.id)
    elif isinstance(n, ast.Attribute):
      out.add(n.attr)
    elif isinstance(n, ast.ImportFrom):
      out.update(a.name for a in n.names)
    for c in ast.iter_child_nodes(n):
      go(c)
  go(tree)
  return out


def expand(modules, api):
  """Put helpers back in every module; drop the ones nobody uses any more."""
  exps = []
  for name, m in modules.items():
    e = Expander(name, m.tree, api)
    if e.active():
      e.run()
      exps.append((m, e))
  if not exps:
    return
  for m, e in exps:
    for (cls, nm), f in [((None, k), v) for k, v in e.top.items()] + list(
        e.meth.items()):
      if not _suitable(f):
        continue
      if any(nm in names_used(o.tree, [f]) for o in modules.values()):
        continue
      for s in m.tree.body:
        if s is f:
          m.tree.body.remove(s)
          break
        if isinstance(s, ast.ClassDef) and f in s.body:
          s.body.remove(f)
          s.body = s.body or [ast.copy_location(ast.Pass(), s)]
          break
