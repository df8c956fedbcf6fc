"""Arguments declared as iterables are consumed once. For every parameter whose
annotation is Iterable (or Iterator, Generator), an abstract interpretation of
the function body counts, over all paths, the uses that consume or index the
argument itself before it is rebound to a materialised collection; a path with
two of them loses the elements when a generator is passed."""
import ast
from ..lib import short

ASSUMPTIONS = ['a call consumes an iterable that is passed to it at most once '
               '(its own body is an obligation of its own)']
NAMES = {'Iterable', 'Iterator', 'Generator'}
TESTS = {'isinstance', 'hasattr', 'callable', 'type', 'id', 'repr', 'str',
         'issubclass'}


def iterable(ann):
  """The annotation says no more than that the argument can be iterated."""
  if ann is None:
    return False
  if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
    try:
      ann = ast.parse(ann.value, mode='eval').body
    except SyntaxError:
      return False
  if isinstance(ann, ast.Subscript):
    b = ann.value
    n = b.attr if isinstance(b, ast.Attribute) else getattr(b, 'id', '')
    if n in NAMES:
      return True
    if n in ('Optional', 'Union'):
      s = ann.slice
      els = s.elts if isinstance(s, ast.Tuple) else [s]
      return any(iterable(e) for e in els)
    return False
  n = ann.attr if isinstance(ann, ast.Attribute) else getattr(ann, 'id', '')
  return n in NAMES


class Count:
  """Uses of a name along the paths of a body: states are (uses, open)."""

  def __init__(self, name):
    self.name = name
    self.where = []
    self.index = []

  def expr(self, e, mult=1):
    """Consuming uses in an expression; in the element of a comprehension or a
    loop they count twice."""
    if e is None:
      return 0
    n = 0
    if isinstance(e, ast.Name):
      if e.id == self.name and isinstance(e.ctx, ast.Load):
        self.where += [e.lineno] * mult
        return mult
      return 0
    if isinstance(e, ast.Compare) and isinstance(e.left, ast.Name) and all(
        isinstance(o, (ast.Is, ast.IsNot)) for o in e.ops):
      return sum(self.expr(c, mult) for c in e.comparators
                 if not isinstance(c, ast.Constant))
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
        e.func.id in TESTS:
      return sum(self.expr(a, mult) for a in e.args
                 if not (isinstance(a, ast.Name) and a.id == self.name))
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
        e.func.id == 'len' and len(e.args) == 1 and isinstance(
            e.args[0], ast.Name) and e.args[0].id == self.name:
      self.index.append(e.lineno)
      return 0
    if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and \
        e.value.id == self.name:
      self.index.append(e.lineno)
      return self.expr(e.slice, mult)
    if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                      ast.DictComp)):
      g = e.generators
      bound = {x.id for c in g for x in ast.walk(c.target)
               if isinstance(x, ast.Name)}
      n += self.expr(g[0].iter, mult)
      if self.name in bound:
        return n
      for c in g[1:]:
        n += self.expr(c.iter, 2 * mult)
      for c in g:
        for i in c.ifs:
          n += self.expr(i, 2 * mult)
      for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
        n += self.expr(x, 2 * mult)
      return n
    if isinstance(e, ast.Lambda):
      if self.name in {a.arg for a in e.args.args}:
        return 0
      return self.expr(e.body, mult)
    if isinstance(e, ast.IfExp):
      t = self.expr(e.test, mult)
      w = list(self.where)
      a = self.expr(e.body, mult)
      wa = self.where
      self.where = list(w)
      b = self.expr(e.orelse, mult)
      if a > b:
        self.where = wa
      return t + max(a, b)
    for c in ast.iter_child_nodes(e):
      if isinstance(c, ast.expr):
        n += self.expr(c, mult)
      elif isinstance(c, (ast.keyword, ast.FormattedValue)):
        n += self.expr(c.value, mult)
    return n

  def rebinds(self, s):
    ts = s.targets if isinstance(s, ast.Assign) else [s.target]
    return any(isinstance(x, ast.Name) and x.id == self.name
               for t in ts for x in ast.walk(t)
               if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))

  def block(self, stmts, state, mult=1):
    """state: {open?: max uses}; returns the states that fall through."""
    best = dict(state)
    for s in stmts:
      if not best:
        return best
      best = self.stmt(s, best, mult)
    return best

  def add(self, st, n):
    out = {}
    for k, v in st.items():
      out[k] = v + (n if k else 0)
      self.peak = max(self.peak, out[k])
    return out

  def join(self, *sts):
    out = {}
    for s in sts:
      for k, v in s.items():
        out[k] = max(out.get(k, 0), v)
    return out

  def stmt(self, s, st, mult):
    opened = True in st
    ex = (lambda e, m=mult: self.expr(e, m)) if opened else (lambda e, m=1: 0)
    if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
      st = self.add(st, ex(s.value) if s.value is not None else 0)
      if not isinstance(s, ast.AugAssign):
        for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
          if not isinstance(t, ast.Name):
            st = self.add(st, ex(t))
      if self.rebinds(s) and True in st:
        alias = isinstance(s.value, ast.Name) and s.value.id == self.name
        if not alias:
          st = {False: self.join({0: st[True]}, {0: st.get(False, 0)})[0]}
      return st
    if isinstance(s, ast.Return):
      self.add(st, ex(s.value) if s.value is not None else 0)
      return {}
    if isinstance(s, ast.Raise):
      return {}
    if isinstance(s, (ast.Break, ast.Continue)):
      return {}
    if isinstance(s, ast.If):
      st = self.add(st, ex(s.test))
      return self.join(self.block(s.body, st, mult),
                       self.block(s.orelse, st, mult))
    if isinstance(s, (ast.For, ast.AsyncFor)):
      st = self.add(st, ex(s.iter))
      if any(isinstance(x, ast.Name) and x.id == self.name
             for x in ast.walk(s.target)):
        return {False: max(st.values())}
      body = self.block(s.body, st, 2 * mult)
      brk = any(isinstance(x, ast.Break) for x in ast.walk(s))
      return self.block(s.orelse, self.join(st, body), mult) if not brk else \
          self.join(st, body, self.block(s.orelse, self.join(st, body), mult))
    if isinstance(s, ast.While):
      st = self.add(st, ex(s.test, 2 * mult))
      return self.join(st, self.block(s.body, st, 2 * mult))
    if isinstance(s, (ast.With, ast.AsyncWith)):
      for i in s.items:
        st = self.add(st, ex(i.context_expr))
      return self.block(s.body, st, mult)
    if isinstance(s, ast.Try):
      b = self.block(s.body, st, mult)
      hs = [self.block(h.body, self.join(st, b), mult) for h in s.handlers]
      out = self.join(self.block(s.orelse, b, mult), *hs)
      return self.block(s.finalbody, out, mult) if s.finalbody else out
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
      if self.name in {a.arg for a in s.args.args + s.args.kwonlyargs}:
        return st
      if any(isinstance(x, ast.Name) and x.id == self.name and isinstance(
          x.ctx, ast.Load) for x in ast.walk(s)) and opened:
        c = Count(self.name)
        c.peak = 0
        c.block(s.body, {True: 0})
        st = self.add(st, c.peak)
      return st
    if isinstance(s, ast.Assert):
      return self.add(st, ex(s.test))
    if isinstance(s, ast.Expr):
      return self.add(st, ex(s.value))
    if isinstance(s, ast.Delete):
      return st
    return st

  peak = 0


def run(ctx, rep):
  rep.rule('once', 'an argument declared iterable is consumed at most once on '
           'every path')
  rep.rule('plain', 'an argument declared iterable is not indexed and its '
           'length is not taken')
  for q, f in sorted(ctx.prog.funcs.items()):
    if not isinstance(f.node, ast.FunctionDef) or '_test.' in q:
      continue
    a = f.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
      if not iterable(x.annotation):
        continue
      body = f.node.body
      if all(isinstance(s, (ast.Raise, ast.Pass, ast.Expr)) for s in body) \
          and not any(isinstance(s, ast.Expr) and not isinstance(
              s.value, ast.Constant) for s in body):
        continue
      c = Count(x.arg)
      c.block(body, {True: 0})
      rep.saw(f)
      inst = '%s %s' % (short(f.qual), x.arg)
      rep.check('once', inst, c.peak <= 1, '%s may be a generator but is '
                'consumed %s times on a path (lines %s)' % (
                    x.arg, c.peak, ', '.join(str(n) for n in sorted(
                        set(c.where)))[:60]), '%s:%d' % (f.file, f.line))
      rep.check('plain', inst, not c.index, '%s may be a generator but is '
                'indexed or measured (line %s)' % (
                    x.arg, c.index[0] if c.index else ''),
                '%s:%d' % (f.file, f.line))
  rep.floor('once', 15)
