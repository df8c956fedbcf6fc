"""automut.py N SEED OUT [FILES-REGEX]: N random small changes to the package
(dropped statements, flipped comparisons, swapped operands, exchanged sibling
attributes, dropped keywords ...); every rule is run on each in one process and
what each caught is appended to OUT as JSON lines.  Used to look for breakage
no rule sees; see tools/automut_tests.py for which of them the tests see."""
import ast, copy, importlib, json, os, random, re, shutil, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.setrecursionlimit(20000)
PAIR = [('axis1', 'axis2'), ('node1', 'node2'), ('left', 'right'),
        ('in_edges', 'out_edges'), ('first', 'last'), ('row', 'column'),
        ('left_envs', 'right_envs'), ('a', 'b'), ('A', 'B'), ('x', 'y'),
        ('u', 'vh'), ('q', 'r'), ('tensor1', 'tensor2'), ('axes1', 'axes2'),
        ('min', 'max'), ('any', 'all'), ('append', 'extend'),
        ('left_edges', 'right_edges'), ('perm', 'shape'), ('vstack', 'hstack'),
        ('union', 'intersection'), ('flows', 'charges'), ('add', 'discard'),
        ('rows', 'cols'), ('zeros', 'ones'), ('argmin', 'argmax'),
        ('unique_charges', 'charge_labels'), ('multiply', 'divide'),
        ('subtraction', 'addition'), ('left_axis_names', 'right_axis_names'),
        ('broadcast_left_multiplication', 'broadcast_right_multiplication')]
SW = {}
for a_, b_ in PAIR:
  SW[a_] = b_
  SW[b_] = a_
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
WRAP = {'conj', 'reversed', 'sorted', 'list', 'set', 'tuple', 'abs', 'sqrt',
        'copy', 'deepcopy', 'reshape', 'transpose', 'dual', 'flip_flow',
        'ravel', 'flatten', 'asarray', 'array', 'unique', 'cumsum'}


def variants(n):
  """(kind, replacement text) for one node."""
  out = []

  def put(kind, new):
    try:
      out.append((kind, ast.unparse(ast.fix_missing_locations(new))))
    except Exception:  # pylint: disable=broad-except
      pass
  if isinstance(n, ast.Compare) and len(n.ops) == 1:
    m = copy.deepcopy(n)
    m.ops = [CMP[type(n.ops[0])]()]
    put('cmp', m)
  if isinstance(n, ast.BoolOp):
    for i in range(len(n.values)):
      v = n.values[:i] + n.values[i + 1:]
      put('conjunct', v[0] if len(v) == 1 else ast.BoolOp(n.op, v))
    put('andor', ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else
                            ast.And(), n.values))
  if isinstance(n, ast.Constant) and not isinstance(n.value, str):
    if n.value is True or n.value is False:
      put('const', ast.Constant(not n.value))
    elif isinstance(n.value, int):
      put('const', ast.Constant(n.value + 1))
      if n.value > 0:
        put('const', ast.Constant(n.value - 1))
  if isinstance(n, ast.Attribute) and n.attr in SW and isinstance(
      n.ctx, ast.Load):
    put('sibling', ast.Attribute(n.value, SW[n.attr], n.ctx))
  if isinstance(n, ast.Name) and n.id in SW and isinstance(n.ctx, ast.Load):
    put('sibling', ast.Name(SW[n.id], n.ctx))
  if isinstance(n, ast.Call):
    if len(n.args) >= 2:
      for i in range(len(n.args) - 1):
        m = copy.deepcopy(n)
        m.args[i], m.args[i + 1] = m.args[i + 1], m.args[i]
        put('swapargs', m)
    for i in range(len(n.keywords)):
      m = copy.deepcopy(n)
      del m.keywords[i]
      put('dropkw', m)
    f = n.func
    nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
    if nm in WRAP:
      if n.args and not isinstance(n.args[0], ast.Starred):
        put('unwrap', n.args[0])
      if isinstance(f, ast.Attribute) and not n.args:
        put('unwrap', f.value)
  if isinstance(n, ast.BinOp):
    alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add,
           ast.FloorDiv: ast.Mult, ast.Div: ast.Mult, ast.Mod: ast.FloorDiv,
           ast.MatMult: None}.get(type(n.op))
    if alt:
      put('binop', ast.BinOp(n.left, alt(), n.right))
    put('swapop', ast.BinOp(n.right, n.op, n.left))
    if isinstance(n.op, (ast.Add, ast.Sub)):
      put('dropterm', n.left)
  if isinstance(n, ast.UnaryOp):
    put('unary', n.operand)
  if isinstance(n, (ast.If,)) and False:
    pass
  if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
    pass
  if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
    out.append(('dropstmt', 'pass'))
  if isinstance(n, ast.Assign) and not isinstance(n.targets[0], ast.Name):
    out.append(('dropstmt', 'pass'))
  if isinstance(n, ast.AugAssign):
    out.append(('dropstmt', 'pass'))
  if isinstance(n, ast.If) and not n.orelse:
    out.append(('dropif', 'pass'))
  if isinstance(n, ast.IfExp):
    put('ifexp', n.body)
    put('ifexp', n.orelse)
  if isinstance(n, (ast.Break, ast.Continue)):
    out.append(('dropstmt', 'pass'))
  return out


def sites(src):
  tree = ast.parse(src)
  lines = src.split('\n')
  off = [0]
  for l in lines:
    off.append(off[-1] + len(l.encode()) + 1)
  bs = src.encode()
  res = []

  def go(n, infn, inraise):
    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
      infn = True
      kids = n.body
    elif isinstance(n, ast.Raise):
      return
    else:
      kids = list(ast.iter_child_nodes(n))
    if infn and hasattr(n, 'lineno'):
      a = off[n.lineno - 1] + n.col_offset
      b = off[n.end_lineno - 1] + n.end_col_offset
      for k, t in variants(n):
        if isinstance(n, ast.expr) and '\n' in t:
          continue
        if isinstance(n, ast.expr):
          t = '(' + t + ')' if isinstance(
              n, (ast.Compare, ast.BoolOp, ast.BinOp, ast.UnaryOp)) else t
        new = bs[:a] + t.encode() + bs[b:]
        res.append((k, n.lineno, ast.unparse(n)[:90], t[:90], new))
    for c in kids:
      go(c, infn, inraise)
  go(tree, False, False)
  return res


def run_rules(repo):
  from tnsa import model, core
  prog = model.Program(repo)
  ctx = core.Ctx(prog, 'quick')
  caught = {}
  for f in sorted(os.listdir(V + '/tnsa/rules')):
    if f[0] == 'c' and f.endswith('.py'):
      c = f[:-3].upper()
      rep = core.Report(c)
      try:
        importlib.import_module('tnsa.rules.' + f[:-3]).run(ctx, rep)
        if rep.violations:
          v = rep.violations[0]
          caught[c] = '%s %s' % (v['key'], v['what'])
      except Exception as e:  # pylint: disable=broad-except
        caught[c] = 'BROKEN %s' % e
  return caught


def main():
  n, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
  rx = re.compile(sys.argv[4] if len(sys.argv) > 4 else '.')
  jobs = int(os.environ.get('JOBS', '7'))
  files = []
  for d, _, fs in os.walk('/repo/tensornetwork'):
    for f in fs:
      p = os.path.join(d, f)
      rel = os.path.relpath(p, '/repo/tensornetwork')
      if f.endswith('.py') and not f.endswith('_test.py') and f not in (
          '__init__.py', 'conftest.py') and '/test' not in rel and rx.search(
              rel):
        files.append(rel)
  muts = []
  for rel in sorted(files):
    src = open('/repo/tensornetwork/' + rel).read()
    for k, ln, a, b, new in sites(src):
      try:
        compile(new, rel, 'exec')
      except (SyntaxError, ValueError):
        continue
      muts.append((rel, k, ln, a, b, new))
  rnd = random.Random(seed)
  rnd.shuffle(muts)
  print(len(muts), 'mutants possible', flush=True)
  muts = muts[:n]
  running = {}
  i = 0
  while i < len(muts) or running:
    while i < len(muts) and len(running) < jobs:
      rel, k, ln, a, b, new = muts[i]
      pid = os.fork()
      if pid == 0:
        d = tempfile.mkdtemp(prefix='am')
        try:
          shutil.copytree('/repo/tensornetwork', d + '/tensornetwork',
                          ignore=shutil.ignore_patterns('__pycache__',
                                                        '*_test.py'))
          with open(d + '/tensornetwork/' + rel, 'wb') as f:
            f.write(new)
          t = time.time()
          try:
            c = run_rules(d)
          except Exception as e:  # pylint: disable=broad-except
            c = {'ALL': 'BROKEN %s' % e}
          with open(out, 'a') as f:
            f.write(json.dumps(dict(file=rel, kind=k, line=ln, old=a, new=b,
                                    seed=seed, idx=i, caught=c,
                                    src=new.decode(),
                                    s=round(time.time() - t, 1))) + '\n')
        finally:
          shutil.rmtree(d, ignore_errors=True)
          os._exit(0)
      running[pid] = i
      i += 1
    pid, _ = os.wait()
    running.pop(pid, None)


main()
