"""Recognising Keras layer classes and evaluating get_config."""
import ast


def layers(prog):
  """Classes that (directly or through repository classes) extend Layer."""
  out = []
  for q, c in sorted(prog.classes.items()):
    for k in prog.mro(c) if hasattr(prog, 'mro') else [c]:
      for b in k.node.bases:
        n = b.id if isinstance(b, ast.Name) else getattr(b, 'attr', None)
        if n == 'Layer' and c not in out:
          out.append(c)
  return out


class Unknown(Exception):
  pass


class ConfigEval:
  """Evaluates a get_config body over dictionaries with constant keys. A value
  is a (source expression, environment of loop variables) pair rendered to a
  canonical expression string in which getattr(self, 'x') is self.x."""

  BASE = '**base'

  def __init__(self, fnode, resolve):
    self.resolve = resolve
    self.depth = 0
    self.lines = {}
    self.fnode = fnode

  def run(self, node=None, env=None):
    node = node or self.fnode
    env = dict(env or {})
    r = self.block(node.body, env)
    if r is None:
      raise Unknown('no return')
    return r

  def block(self, stmts, env):
    for s in stmts:
      r = self.stmt(s, env)
      if r is not None:
        return r
    return None

  def stmt(self, s, env):
    if isinstance(s, ast.Return):
      return self.ev(s.value, env)
    if isinstance(s, ast.Assign) and len(s.targets) == 1:
      t = s.targets[0]
      if isinstance(t, ast.Name):
        env[t.id] = self.ev(s.value, env)
        return None
      if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
        d = env.get(t.value.id)
        k = self.ev(t.slice, env)
        if isinstance(d, dict) and isinstance(k, str):
          d[k] = self.ev(s.value, env)
          self.lines[k] = s.lineno
          return None
      raise Unknown(ast.unparse(t))
    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
      if s.value is not None:
        env[s.target.id] = self.ev(s.value, env)
      return None
    if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.BitOr) and \
        isinstance(s.target, ast.Name):
      env[s.target.id] = self.merge(env[s.target.id], self.ev(s.value, env))
      return None
    if isinstance(s, ast.For):
      it = self.ev(s.iter, env)
      if not isinstance(it, list):
        raise Unknown('loop over ' + ast.unparse(s.iter))
      for x in it:
        self.bind(s.target, x, env)
        r = self.block(s.body, env)
        if r is not None:
          return r
      return None
    if isinstance(s, ast.Expr):
      if isinstance(s.value, ast.Constant):
        return None
      self.ev(s.value, env)
      return None
    if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom)):
      return None
    raise Unknown(type(s).__name__)

  def bind(self, t, x, env):
    if isinstance(t, ast.Name):
      env[t.id] = x
    elif isinstance(t, ast.Tuple) and isinstance(x, (list, tuple)) and \
        len(x) == len(t.elts):
      for a, b in zip(t.elts, x):
        self.bind(a, b, env)
    else:
      raise Unknown('loop target')

  def merge(self, a, b):
    if isinstance(a, dict) and isinstance(b, dict):
      r = dict(a)
      r.update(b)
      return r
    raise Unknown('merge')

  def ev(self, e, env):
    if isinstance(e, ast.Constant):
      return e.value if isinstance(e.value, str) else ('expr', repr(e.value))
    if isinstance(e, ast.Name):
      if e.id in env:
        return env[e.id]
      return ('expr', e.id)
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
      return [self.ev(x, env) for x in e.elts]
    if isinstance(e, ast.Dict):
      d = {}
      for k, v in zip(e.keys, e.values):
        if k is None:
          d = self.merge(d, self.ev(v, env))
          continue
        kk = self.ev(k, env)
        if not isinstance(kk, str):
          raise Unknown('key')
        d[kk] = self.ev(v, env)
        self.lines[kk] = v.lineno
      return d
    if isinstance(e, (ast.DictComp, ast.ListComp, ast.GeneratorExp)):
      if len(e.generators) != 1 or e.generators[0].ifs:
        raise Unknown('comprehension')
      it = self.ev(e.generators[0].iter, env)
      if not isinstance(it, list):
        raise Unknown('comprehension over ?')
      out = {} if isinstance(e, ast.DictComp) else []
      for x in it:
        e2 = dict(env)
        self.bind(e.generators[0].target, x, e2)
        if isinstance(e, ast.DictComp):
          k = self.ev(e.key, e2)
          if not isinstance(k, str):
            raise Unknown('key')
          out[k] = self.ev(e.value, e2)
          self.lines[k] = e.value.lineno
        else:
          out.append(self.ev(e.elt, e2))
      return out
    if isinstance(e, ast.Attribute):
      v = self.ev(e.value, env)
      return ('expr', self.s(v) + '.' + e.attr)
    if isinstance(e, ast.BinOp):
      a, b = self.ev(e.left, env), self.ev(e.right, env)
      if isinstance(a, list) and isinstance(b, list) and isinstance(
          e.op, ast.Add):
        return a + b
      if isinstance(e.op, ast.BitOr):
        return self.merge(a, b)
      raise Unknown('operator')
    if isinstance(e, ast.Call):
      return self.call(e, env)
    if isinstance(e, ast.Subscript):
      v = self.ev(e.value, env)
      k = self.ev(e.slice, env)
      if isinstance(v, dict) and isinstance(k, str) and k in v:
        return v[k]
      return ('expr', '%s[%s]' % (self.s(v), self.s(k)))
    if isinstance(e, (ast.IfExp, ast.Compare, ast.BoolOp, ast.UnaryOp)):
      return ('expr', ast.unparse(e))
    raise Unknown(type(e).__name__)

  def s(self, v):
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'expr':
      return v[1]
    if isinstance(v, str):
      return repr(v)
    if isinstance(v, list):
      return '[' + ', '.join(self.s(x) for x in v) + ']'
    raise Unknown('value')

  def call(self, e, env):
    f = e.func
    if isinstance(f, ast.Attribute):
      if f.attr == 'get_config' and isinstance(f.value, ast.Call) and \
          isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
        r = self.resolve('super')
        if r is not None:
          return self.run(r)
        return {self.BASE: ('expr', 'base')}
      if isinstance(f.value, ast.Name) and isinstance(
          env.get(f.value.id), (dict, list)):
        recv = env[f.value.id]
        if f.attr == 'update' and isinstance(recv, dict):
          for a in e.args:
            env_d = self.ev(a, env)
            if isinstance(env_d, list):
              env_d = dict(env_d)
            if not isinstance(env_d, dict):
              raise Unknown('update')
            recv.update(env_d)
          for k in e.keywords:
            if k.arg is None:
              recv.update(self.ev(k.value, env))
            else:
              recv[k.arg] = self.ev(k.value, env)
              self.lines[k.arg] = e.lineno
          return ('expr', 'None')
        if f.attr == 'items' and isinstance(recv, dict):
          return [[k, v] for k, v in recv.items()]
        if f.attr == 'copy':
          return recv.copy()
        if f.attr == 'append' and isinstance(recv, list):
          recv.append(self.ev(e.args[0], env))
          return ('expr', 'None')
    if isinstance(f, ast.Name):
      if f.id == 'getattr' and len(e.args) >= 2:
        k = self.ev(e.args[1], env)
        if isinstance(k, str):
          return ('expr', self.s(self.ev(e.args[0], env)) + '.' + k)
        raise Unknown('getattr')
      if f.id in ('dict', 'OrderedDict'):
        d = {}
        for a in e.args:
          v = self.ev(a, env)
          if isinstance(v, list):
            v = {k: x for k, x in v}
          d = self.merge(d, v)
        for k in e.keywords:
          if k.arg is None:
            d = self.merge(d, self.ev(k.value, env))
          else:
            d[k.arg] = self.ev(k.value, env)
            self.lines[k.arg] = e.lineno
        return d
      if f.id in ('list', 'tuple', 'sorted') and len(e.args) == 1:
        v = self.ev(e.args[0], env)
        if isinstance(v, list):
          return list(v)
        if isinstance(v, dict):
          return list(v)
        return ('expr', '%s(%s)' % (f.id, self.s(v)))
    # a helper of the repository
    target = None
    if isinstance(f, ast.Name):
      target = self.resolve(f.id)
    elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and \
        f.value.id == 'self':
      target = self.resolve('self.' + f.attr)
    if target is not None and self.depth < 4 and not e.keywords:
      ps = [a.arg for a in target.args.args]
      vals = [self.ev(a, env) for a in e.args]
      if ps and ps[0] == 'self' and len(vals) < len(ps):
        vals = [('expr', 'self')] + vals
      if len(vals) == len(ps):
        self.depth += 1
        try:
          return self.run(target, dict(zip(ps, vals)))
        finally:
          self.depth -= 1
    return ('expr', '%s(%s)' % (
        ast.unparse(f) if not isinstance(f, ast.Name) or f.id not in env
        else self.s(env[f.id]),
        ', '.join(self.s(self.ev(a, env)) for a in e.args)))
