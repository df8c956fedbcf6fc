"""refactor.py TRANSFORM...: behaviour-preserving rewrites of a scratch copy of
the package, on which every check has to stay quiet.  'all' runs each in turn;
'list' names them.  Options: --checks C01,C02  --tests PATH (run pytest on the
rewritten copy to see that the rewrite itself preserves behaviour)."""
import ast, copy, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo'
FN = (ast.FunctionDef, ast.AsyncFunctionDef)


def names(node, ctx=None):
  return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and
          (ctx is None or isinstance(n.ctx, ctx))}


def bodies(node):
  for n in ast.walk(node):
    for f in ('body', 'orelse', 'finalbody'):
      b = getattr(n, f, None)
      if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
        yield n, f, b


def simple(e):
  return isinstance(e, (ast.Name, ast.Constant)) or (
      isinstance(e, ast.Attribute) and simple(e.value))


def infn(tree):
  """Statement lists that lie inside functions."""
  seen = set()
  for f in ast.walk(tree):
    if isinstance(f, FN):
      for n, fld, b in bodies(f):
        if isinstance(n, ast.ClassDef):
          continue
        if id(b) not in seen:
          seen.add(id(b))
          yield f, n, fld, b


def unparse(tree):
  return tree


def noop(tree):
  for f, n, fld, b in list(infn(tree)):
    i = 1 if (isinstance(b[0], ast.Expr) and
              isinstance(b[0].value, ast.Constant)) else 0
    b.insert(i, ast.parse('_unused_ = None').body[0])
  return tree


def rename(tree):
  tops = [n for n in ast.walk(tree) if isinstance(n, FN)]
  inner = {id(m) for n in tops for m in ast.walk(n) if m is not n and
           isinstance(m, FN)}
  for f in tops:
    if id(f) in inner:
      continue
    args = set()
    bad = set()
    for n in ast.walk(f):
      if isinstance(n, (ast.FunctionDef, ast.Lambda)):
        a = n.args
        for x in a.args + a.kwonlyargs + a.posonlyargs + [a.vararg, a.kwarg]:
          if x is not None:
            args.add(x.arg)
        if isinstance(n, ast.FunctionDef) and n is not f:
          bad.add(n.name)
      if isinstance(n, (ast.Global, ast.Nonlocal)):
        bad |= set(n.names)
      if isinstance(n, (ast.Import, ast.ImportFrom)):
        bad |= {(x.asname or x.name).split('.')[0] for x in n.names}
      if isinstance(n, ast.ClassDef):
        bad.add(n.name)
      if isinstance(n, ast.ExceptHandler) and n.name:
        bad.add(n.name)
    loc = names(f, ast.Store) - args - bad
    for n in ast.walk(f):
      if isinstance(n, ast.Name) and n.id in loc and n.id != '_':
        n.id = n.id + '_v'
  return tree


def swapif(tree):
  for n in ast.walk(tree):
    if isinstance(n, ast.If) and n.orelse and not (
        len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
      n.body, n.orelse = n.orelse, n.body
      n.test = ast.UnaryOp(ast.Not(), n.test)
  return tree


def rettemp(tree):
  for f, n, fld, b in list(infn(tree)):
    out = []
    for s in b:
      if isinstance(s, ast.Return) and s.value is not None and not simple(
          s.value):
        out.append(ast.Assign([ast.Name('result_', ast.Store())], s.value))
        out.append(ast.Return(ast.Name('result_', ast.Load())))
      else:
        out.append(s)
    b[:] = out
  return tree


def hoistarg(tree):
  """First call argument into a local (nothing is evaluated before it)."""
  k = [0]
  for f, n, fld, b in list(infn(tree)):
    out = []
    for s in b:
      v = s.value if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) else None
      if isinstance(v, ast.Call) and v.args and simple(v.func) and \
          isinstance(v.args[0], (ast.Call, ast.BinOp, ast.ListComp)):
        k[0] += 1
        nm = 'arg_%d' % k[0]
        out.append(ast.Assign([ast.Name(nm, ast.Store())], v.args[0]))
        v.args[0] = ast.Name(nm, ast.Load())
      out.append(s)
    b[:] = out
  return tree


def comploop(tree):
  """x = [f(e) for e in it if c] -> loop with append (plain names only)."""
  for f, n, fld, b in list(infn(tree)):
    out = []
    for s in b:
      v = s.value if isinstance(s, ast.Assign) else None
      if isinstance(v, ast.ListComp) and len(v.generators) == 1 and \
          len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
        g = v.generators[0]
        t = s.targets[0].id
        tn = names(g.target)
        used = [x.id for x in ast.walk(f) if isinstance(x, ast.Name) and
                x.id in tn]
        mine = [x.id for x in ast.walk(v) if isinstance(x, ast.Name) and
                x.id in tn]
        if t not in names(v) and len(used) == len(mine) and not (
            tn & {a.arg for a in f.args.args}):
          app = ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()),
                                                'append', ast.Load()),
                                  [v.elt], []))
          body = [app]
          for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
          out.append(ast.Assign([ast.Name(t, ast.Store())],
                                ast.List([], ast.Load())))
          out.append(ast.For(g.target, g.iter, body, []))
          continue
      out.append(s)
    b[:] = out
  return tree


def guards(tree):
  """Leading argument checks of a function into a helper of their own."""
  new = []

  def visit(owner, body):
    for f in body:
      if isinstance(f, ast.ClassDef):
        visit(f, f.body)
      if not isinstance(f, ast.FunctionDef):
        continue
      i = 1 if (f.body and isinstance(f.body[0], ast.Expr) and isinstance(
          f.body[0].value, ast.Constant)) else 0
      j = i
      while j < len(f.body) and isinstance(f.body[j], ast.If) and \
          not f.body[j].orelse and len(f.body[j].body) == 1 and isinstance(
              f.body[j].body[0], ast.Raise):
        j += 1
      ps = [a.arg for a in f.args.posonlyargs + f.args.args +
            f.args.kwonlyargs]
      blk = f.body[i:j]
      if not blk or any(isinstance(x, ast.Name) and x.id in ('super',
                                                             '__class__')
                        for s in blk for x in ast.walk(s)) or j == len(f.body):
        continue
      used = [p for p in ps if any(p in names(s) for s in blk)]
      nm = '_validate_%s_%d' % (f.name.strip('_'), len(new))
      new.append(ast.FunctionDef(
          nm, ast.arguments([], [ast.arg(p) for p in used], None, [], [], None,
                            []), blk, [], None, lineno=1))
      f.body[i:j] = [ast.Expr(ast.Call(ast.Name(nm, ast.Load()), [
          ast.Name(p, ast.Load()) for p in used], []))]
  visit(None, tree.body)
  tree.body += new
  return tree


def elseret(tree):
  """if c: return a; rest -> if c: return a else: rest (last in function)."""
  for f in ast.walk(tree):
    if not isinstance(f, FN):
      continue
    for i, s in enumerate(f.body):
      if isinstance(s, ast.If) and not s.orelse and isinstance(
          s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(f.body):
        s.orelse = f.body[i + 1:]
        del f.body[i + 1:]
        break
  return tree


def unelse(tree):
  for f, n, fld, b in list(infn(tree)):
    for i, s in enumerate(b):
      if isinstance(s, ast.If) and s.orelse and isinstance(
          s.body[-1], (ast.Return, ast.Raise)) and i == len(b) - 1:
        rest = s.orelse
        s.orelse = []
        b.extend(rest)
        break
  return tree


FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE,
        ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def flipcmp(tree):
  for n in ast.walk(tree):
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(
        n.ops[0]) in FLIP:
      n.left, n.comparators[0] = n.comparators[0], n.left
      n.ops[0] = FLIP[type(n.ops[0])]()
  return tree


NEG = {ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.IsNot: ast.Is}


def notcmp(tree):
  class N(ast.NodeTransformer):

    def visit_Compare(self, n):
      self.generic_visit(n)
      if len(n.ops) == 1 and type(n.ops[0]) in (ast.NotIn, ast.IsNot):
        n.ops[0] = NEG[type(n.ops[0])]()
        return ast.UnaryOp(ast.Not(), n)
      return n
  return N().visit(tree)


def messages(tree):
  for n in ast.walk(tree):
    if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call):
      for c in ast.walk(n.exc):
        if isinstance(c, ast.Constant) and isinstance(c.value, str) and \
            len(c.value) > 8:
          c.value = c.value + ' (sic)'
  return tree


def ifexp(tree):
  for f, n, fld, b in list(infn(tree)):
    out = []
    for s in b:
      if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and \
          len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
        v = s.value
        out.append(ast.If(v.test, [ast.Assign(copy.deepcopy(s.targets),
                                              v.body)],
                          [ast.Assign(copy.deepcopy(s.targets), v.orelse)]))
      else:
        out.append(s)
    b[:] = out
  return tree


def nestif(tree):
  for n in ast.walk(tree):
    if isinstance(n, ast.If) and not n.orelse and isinstance(
        n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
      first, rest = n.test.values[0], n.test.values[1:]
      inner = rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest)
      n.body = [ast.If(inner, n.body, [])]
      n.test = first
  return tree


def splitor(tree):
  """if a or b: raise X -> two statements."""
  for f, n, fld, b in list(infn(tree)):
    out = []
    for s in b:
      if isinstance(s, ast.If) and not s.orelse and isinstance(
          s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and len(
              s.body) == 1 and isinstance(s.body[0], ast.Raise):
        for t in s.test.values:
          out.append(ast.If(t, copy.deepcopy(s.body), []))
      else:
        out.append(s)
    b[:] = out
  return tree


def untuple(tree):
  """a, b = x, y -> a = x; b = y where that is the same."""
  for f, n, fld, b in list(infn(tree)):
    out = []
    for s in b:
      if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
          s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(
              s.targets[0].elts) == len(s.value.elts) and all(
                  isinstance(t, ast.Name) for t in s.targets[0].elts) and not (
                      names(s.targets[0]) & names(s.value)):
        for t, v in zip(s.targets[0].elts, s.value.elts):
          out.append(ast.Assign([t], v))
      else:
        out.append(s)
    b[:] = out
  return tree


def unpack(tree):
  """a, b = f() -> t = f(); a = t[0]; b = t[1] (calls that return tuples)."""
  ok = {'copy', 'split_node', '_remove_edges', 'remove_node', 'svd', 'qr', 'rq',
        'connect', 'max_singular'}
  k = [0]
  for f, n, fld, b in list(infn(tree)):
    out = []
    for s in b:
      if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
          s.targets[0], ast.Tuple) and isinstance(s.value, ast.Call) and all(
              isinstance(t, ast.Name) for t in s.targets[0].elts):
        fn = s.value.func
        nm = fn.attr if isinstance(fn, ast.Attribute) else getattr(
            fn, 'id', '')
        if nm in ok:
          k[0] += 1
          t = 'pair_%d' % k[0]
          out.append(ast.Assign([ast.Name(t, ast.Store())], s.value))
          for i, x in enumerate(s.targets[0].elts):
            out.append(ast.Assign([x], ast.Subscript(
                ast.Name(t, ast.Load()), ast.Constant(i), ast.Load())))
          continue
      out.append(s)
    b[:] = out
  return tree


def isinst(tree):
  class N(ast.NodeTransformer):

    def visit_Call(self, n):
      self.generic_visit(n)
      if isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and len(
          n.args) == 2 and isinstance(n.args[1], ast.Tuple) and simple(
              n.args[0]):
        return ast.BoolOp(ast.Or(), [ast.Call(n.func, [n.args[0], t], [])
                                     for t in n.args[1].elts])
      return n
  return N().visit(tree)


def moved(tree):
  """Methods of a class in another order (properties with their setters)."""
  for c in ast.walk(tree):
    if isinstance(c, ast.ClassDef):
      fs = [s for s in c.body if isinstance(s, ast.FunctionDef)]
      if any(d for f in fs for d in f.decorator_list if isinstance(
          d, ast.Attribute)) or len({f.name for f in fs}) != len(fs):
        continue
      rest = [s for s in c.body if not isinstance(s, ast.FunctionDef)]
      c.body = rest + fs[::-1]
  return tree


def setgen(tree):
  class N(ast.NodeTransformer):

    def visit_Call(self, n):
      self.generic_visit(n)
      if isinstance(n.func, ast.Name) and len(n.args) == 1 and isinstance(
          n.args[0], (ast.GeneratorExp, ast.ListComp)) and not n.keywords:
        g = n.args[0]
        if n.func.id == 'set':
          return ast.SetComp(g.elt, g.generators)
        if n.func.id == 'list':
          return ast.ListComp(g.elt, g.generators)
      return n
  return N().visit(tree)


def enumloop(tree):
  """for i, x in enumerate(y) -> for i in range(len(y)): x = y[i] (names)."""
  for n in ast.walk(tree):
    if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(
        n.iter.func, ast.Name) and n.iter.func.id == 'enumerate' and len(
            n.iter.args) == 1 and isinstance(n.iter.args[0], ast.Name) and \
        isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and all(
            isinstance(t, ast.Name) for t in n.target.elts):
      y = n.iter.args[0].id
      if y in {x.id for s in n.body for x in ast.walk(s) if isinstance(
          x, ast.Name) and isinstance(x.ctx, ast.Store)}:
        continue
      if y in ('nodes', 'flat_nodes'):
        continue  # may be a set
      i, x = n.target.elts
      n.target = i
      n.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(
          ast.Name('len', ast.Load()), [ast.Name(y, ast.Load())], [])], [])
      n.body.insert(0, ast.Assign([x], ast.Subscript(
          ast.Name(y, ast.Load()), ast.Name(i.id, ast.Load()), ast.Load())))
  return tree


def ziploop(tree):
  """for a, b in zip(x, y) -> for n in range(len(x)): a = x[n] ... (locals)."""
  k = [0]
  for n in ast.walk(tree):
    if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(
        n.iter.func, ast.Name) and n.iter.func.id == 'zip' and len(
            n.iter.args) == 2 and all(isinstance(a, ast.Name)
                                      for a in n.iter.args) and isinstance(
                n.target, ast.Tuple) and all(isinstance(
                    t, ast.Name) for t in n.target.elts):
      k[0] += 1
      x, y = [a.id for a in n.iter.args]
      v = 'pos_%d' % k[0]
      pre = [ast.Assign([t], ast.Subscript(ast.Name(s, ast.Load()), ast.Name(
          v, ast.Load()), ast.Load())) for t, s in zip(n.target.elts, (x, y))]
      n.target = ast.Name(v, ast.Store())
      n.iter = ast.parse('range(min(len(%s), len(%s)))' % (x, y)).body[0].value
      n.body[:0] = pre
  return tree


def ziplen(tree):
  """The same with the length of the first sequence."""
  tree = ziploop(tree)
  for n in ast.walk(tree):
    if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and \
        n.target.id.startswith('pos_'):
      n.iter.args[0] = n.iter.args[0].args[0]
  return tree


def aliasself(tree):
  """b = self.backend ... at the head of a method that reads it repeatedly."""
  for c in ast.walk(tree):
    if not isinstance(c, ast.ClassDef):
      continue
    for f in c.body:
      if not isinstance(f, ast.FunctionDef) or f.name == '__init__' or \
          f.decorator_list or not f.args.args:
        continue
      me = f.args.args[0].arg
      use = [n for n in ast.walk(f) if isinstance(n, ast.Attribute) and
             isinstance(n.value, ast.Name) and n.value.id == me and
             n.attr == 'backend']
      if len(use) < 2 or any(isinstance(n.ctx, ast.Store) for n in use) or \
          any(isinstance(n, FN) and n is not f for n in ast.walk(f)):
        continue

      class R(ast.NodeTransformer):

        def visit_Attribute(self, n):
          self.generic_visit(n)
          if n.attr == 'backend' and isinstance(n.value, ast.Name) and \
              n.value.id == me:
            return ast.Name('be_', ast.Load())
          return n
      R().visit(f)
      i = 1 if isinstance(f.body[0], ast.Expr) and isinstance(
          f.body[0].value, ast.Constant) else 0
      f.body.insert(i, ast.parse('be_ = %s.backend' % me).body[0])
  return tree


def tailhelper(tree):
  """The last statements of a long function into a helper."""
  new = []

  def visit(body, method):
    for f in body:
      if isinstance(f, ast.ClassDef):
        visit(f.body, True)
      if not isinstance(f, ast.FunctionDef) or len(f.body) < 5:
        continue
      if any(isinstance(n, (ast.Yield, ast.Lambda, ast.Nonlocal, ast.Global,
                            ast.FunctionDef)) and n is not f
             for n in ast.walk(f)):
        continue
      cut = len(f.body) - 3
      blk = f.body[cut:]
      if not isinstance(blk[-1], ast.Return) or 'super' in names(
          ast.Module(blk, [])):
        continue
      params = {a.arg for a in f.args.posonlyargs + f.args.args +
                f.args.kwonlyargs + [x for x in (f.args.vararg, f.args.kwarg)
                                     if x]}
      # names surely assigned before the cut at top level
      sure = set(params)
      for s in f.body[:cut]:
        if isinstance(s, ast.Assign):
          for t in s.targets:
            sure |= names(t, ast.Store)
      maybe = names(ast.Module(f.body[:cut], []), ast.Store) | params
      need = names(ast.Module(blk, []), ast.Load) & maybe
      # comprehension variables of the block are not needed
      if not need <= sure:
        continue
      need = sorted(need)
      nm = '_finish_%s_%d' % (f.name.strip('_'), len(new))
      new.append(ast.FunctionDef(
          nm, ast.arguments([], [ast.arg(p) for p in need], None, [], [], None,
                            []), blk, [], None, lineno=1))
      f.body[cut:] = [ast.Return(ast.Call(ast.Name(nm, ast.Load()), [
          ast.Name(p, ast.Load()) for p in need], []))]
  visit(tree.body, False)
  tree.body += new
  return tree


T = dict(unparse=unparse, noop=noop, rename=rename, swapif=swapif,
         rettemp=rettemp, hoistarg=hoistarg, comploop=comploop, guards=guards,
         elseret=elseret, unelse=unelse, flipcmp=flipcmp, notcmp=notcmp,
         messages=messages, ifexp=ifexp, nestif=nestif, splitor=splitor,
         untuple=untuple, unpack=unpack, isinst=isinst, moved=moved,
         setgen=setgen, enumloop=enumloop, ziploop=ziploop, ziplen=ziplen,
         aliasself=aliasself, tailhelper=tailhelper)


def make(name, dst):
  shutil.rmtree(dst, ignore_errors=True)
  os.makedirs(dst)
  shutil.copytree(SRC + '/tensornetwork', dst + '/tensornetwork')
  for x in ('conftest.py', 'setup.cfg', 'pytest.ini'):
    if os.path.exists(SRC + '/' + x):
      shutil.copy(SRC + '/' + x, dst)
  for d, _, fs in os.walk(dst + '/tensornetwork'):
    for fn in fs:
      if not fn.endswith('.py') or fn.endswith('_test.py') or \
          fn in ('conftest.py', '__init__.py'):
        continue
      p = os.path.join(d, fn)
      tree = T[name](ast.parse(open(p).read()))
      ast.fix_missing_locations(tree)
      open(p, 'w').write(ast.unparse(tree) + '\n')


def main(argv):
  checks = None
  tests = None
  todo = []
  i = 0
  while i < len(argv):
    if argv[i] == '--checks':
      i += 1
      checks = argv[i].split(',')
    elif argv[i] == '--tests':
      i += 1
      tests = argv[i].split(',')
    elif argv[i] == 'list':
      print(' '.join(T))
      return
    else:
      todo += list(T) if argv[i] == 'all' else [argv[i]]
    i += 1
  if checks is None:
    checks = sorted(f[:-3].upper() for f in os.listdir(V + '/tnsa/rules')
                    if f[0] == 'c' and f.endswith('.py'))
  for name in todo:
    dst = '/tmp/refactor_%s_%d' % (name, os.getpid())
    make(name, dst)
    env = dict(os.environ, TNSA_REPO=dst, TNSA_EVIDENCE=dst + '/ev')

    def run(c):
      r = subprocess.run([sys.executable, V + '/check.py', c], cwd=V, env=env,
                         capture_output=True, text=True)
      return c, r
    with ThreadPoolExecutor(8) as ex:
      res = list(ex.map(run, checks))
    bad = [(c, r) for c, r in res if r.returncode]
    print('%-10s %s' % (name, 'quiet' if not bad else 'ALARM ' + ' '.join(
        c for c, _ in bad)), flush=True)
    for c, r in bad:
      for l in (r.stdout + r.stderr).splitlines()[1:]:
        if not l.startswith('VIOLATION'):
          print('    %s %s' % (c, l[:260]))
    if tests:
      e = dict(os.environ, PYTHONPATH=dst + ':/tmp/stub',
               TF_USE_LEGACY_KERAS='1', PYTHONDONTWRITEBYTECODE='1',
               TF_CPP_MIN_LOG_LEVEL='3')
      r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
                          'no:cacheprovider', '-k', 'not pytorch'] + tests,
                         cwd=dst, env=e, capture_output=True, text=True)
      print('    tests:', r.stdout.strip().splitlines()[-1][:100])
    shutil.rmtree(dst, ignore_errors=True)


main(sys.argv[1:])
