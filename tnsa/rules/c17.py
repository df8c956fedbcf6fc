"""Charges form the group they claim, and derived charges keep their types and
width.  Four decisions on the source: (1) the provenance of the type list and
the dtype handed to every constructor call that makes a charge out of another;
(2) whether labels and unique charges are passed together; (3) what the answer
of the equality test is based on; (4) the group laws of every symmetry, by
rewriting the bodies of fuse/dual_charges/identity_charge to a normal form."""
import ast
from ..terms import T, mk, const, NONE, walk
from ..lib import short, P, callee_name, callee_recv, facts, call_args

ASSUMPTIONS = ['values of a Z2/ZN charge lie in its range (the constructors '
               'refuse others)', 'numpy ufunc.outer(a, b).ravel() runs over a '
               'first (row-major)']
CH = 'tensornetwork.block_sparse.charge'
MODS = (CH, 'tensornetwork.block_sparse.blocksparse_utils',
        'tensornetwork.block_sparse.linalg',
        'tensornetwork.block_sparse.index',
        'tensornetwork.block_sparse.initialization',
        'tensornetwork.block_sparse.blocksparsetensor',
        'tensornetwork.backends.symmetric.decompositions',
        'tensornetwork.backends.symmetric.symmetric_backend')
NAMES = ('charges', 'charge_labels', 'charge_types', 'charge_dtype')
WIDE = {'result_type', 'promote_types', 'find_common_type'}


def family(prog):
  c = prog.classes.get(CH + '.BaseCharge')
  if c is None:
    return set()
  return {c.qual} | {x.qual for x in prog.subclasses(c)}


def makes(e, fam):
  """{argument: term} if the event builds a charge object."""
  if e.kind != 'call':
    return None
  if e.qual in fam and e.bound is not None:
    return {k: (e.bound.get(k) if k not in (e.defaulted or ()) else None)
            for k in NAMES}
  t = e.res
  if not isinstance(t, T) or t.op != 'call':
    return None
  by_type = t.args[0].op == 'call' and callee_name(t.args[0]) == 'type'
  by_class = callee_name(t) == '__class__'
  if not (by_type or by_class):
    if callee_name(t) != '__init__':
      return None
    r = callee_recv(t)
    if r is None or r.op != 'call' or callee_name(r) != '__new__':
      return None
  pos, kw = call_args(t)
  out = dict(zip(NAMES, pos))
  out.update(kw)
  if not set(out) <= set(NAMES):
    return None
  return {k: out.get(k) for k in NAMES}


def types_of(t):
  """Objects whose .charge_types make up the list, in order; None unknown."""
  if t.op == 'attr' and t.args[1] == 'charge_types':
    return [t.args[0]]
  if t.op == 'bin' and t.args[0] == 'Add':
    a, b = types_of(t.args[1]), types_of(t.args[2])
    return None if a is None or b is None else a + b
  if t.op == 'call' and callee_name(t) in ('list', 'copy') and len(
      t.args[1]) == 1:
    return types_of(t.args[1][0])
  if t.op == 'call' and callee_name(t) == 'copy' and callee_recv(t) is not None:
    return types_of(callee_recv(t))
  if t.op == 'item' and t.args[1].op == 'slice' and all(
      x is NONE for x in t.args[1].args):
    return types_of(t.args[0])
  return None


def is_narrow(t):
  """A fixed dtype: numpy.int16, 'int16', a python type."""
  if t.op == 'const' and t is not NONE:
    return True
  if t.op in ('ext', 'builtin'):
    return True
  if t.op == 'attr':
    return t.args[0].op in ('ext', 'mod') or t.args[1] == 'label_dtype'
  return False


UNIQ = {'_unique_charges', 'unique_charges'}
FULL = {'_charges', 'charges'}
LABS = {'_charge_labels', 'charge_labels'}


def whole(t, names, src):
  """t runs over all rows of src.<names> (no row selection on the way)."""
  if t.op == 'attr':
    return t.args[1] in names and t.args[0] is src
  if t.op == 'item':
    ix = t.args[1]
    if ix.op == 'tuple' and ix.args[0] and ix.args[0][0].op == 'slice' and \
        all(x is NONE for x in ix.args[0][0].args):
      return whole(t.args[0], names, src)
    return False
  if t.op == 'call':
    nm = callee_name(t)
    if nm in ('stack', 'concatenate', 'array', 'asarray', 'column_stack',
              'dual_charges', 'copy', 'negative', 'astype', 'hstack'):
      xs = list(t.args[1])
      r = callee_recv(t)
      if nm in ('copy', 'astype') and r is not None and not xs[:1]:
        xs = [r]
      elif nm == 'astype' and r is not None:
        xs = [r]
      return any(whole(x, names, src) for x in xs if isinstance(x, T))
    return False
  if t.op == 'comp':
    return isinstance(t.args[1], T) and whole(t.args[1], names, src)
  if t.op in ('list', 'tuple'):
    return bool(t.args[0]) and all(whole(x, names, src) for x in t.args[0])
  if t.op == 'bin':
    return any(whole(x, names, src) for x in t.args[1:] if isinstance(x, T))
  if t.op == 'un':
    return whole(t.args[-1], names, src)
  return False


def derived(ctx, rep):
  rep.rule('types-kept', 'a charge made from another is constructed with the '
           'charge_types of its source (of both sources, in the order of the '
           'columns, when they are joined)')
  rep.rule('width-kept', 'a charge made from another is constructed with the '
           'dtype of its source or of the array it is made of, never with the '
           'default or a fixed integer type')
  rep.rule('labels-with-uniques', 'unique charges are passed together with '
           'labels, full charges without the labels of the source')
  fam = family(ctx.prog)
  for q, f in sorted(ctx.prog.funcs.items()):
    if f.mod.name not in MODS or f.name in ('__init__', 'random') or \
        f.is_classmethod or not f.params:
      continue
    ps, _ = ctx.paths(f, rep=rep)
    for p in ps or []:
      for e in p.events:
        m = makes(e, fam)
        if m is None or m['charges'] is None:
          continue
        if f.mod.name not in MODS[:2] and not (e.qual in fam):
          continue
        inst = '%s: %s' % (short(q), str(m['charges'])[:60])
        judge_types(rep, inst, f, m, e.loc)
        judge_width(rep, inst, m, e.loc)
        judge_labels(rep, inst, f, m, e.loc)


def judge_types(rep, inst, f, m, loc):
  t = m['charge_types']
  if t is None or t is NONE:
    rep.bad('types-kept', inst, 'the derived charge is made without the '
            'charge types of its source', loc)
    return
  o = types_of(t)
  if o is None:
    if t.op in ('list', 'tuple') or (t.op == 'bin' and t.args[0] == 'Mult'):
      rep.bad('types-kept', inst, 'the charge types are not those of the '
              'source', loc)
    elif t.op == 'call' and callee_name(t) in ('reversed', 'sorted', 'set'):
      rep.bad('types-kept', inst, 'the charge types are reordered', loc)
    elif t.op == 'item' and types_of(t.args[0]) is not None:
      rep.bad('types-kept', inst, 'only some of the charge types are kept',
              loc)
    else:
      rep.undecided('types-kept', inst, str(t)[:80])
    return
  c = m['charges']
  if len(o) == 1:
    # columns joined from two sources, types from one only
    if c is not None and joined(c) is not None and len(joined(c)) > 1:
      rep.bad('types-kept', inst, 'columns of several charges are joined but '
              'only the types of one are kept', loc)
      return
    rep.ok('types-kept', inst)
    return
  j = joined(c) if c is not None else None
  if j is None:
    rep.undecided('types-kept', inst, 'order of the joined columns')
  else:
    rep.check('types-kept', inst, j == o, 'the types are joined in another '
              'order than the columns', loc)


def joined(c):
  """Sources of the columns of np.concatenate([a.charges, b.charges], axis=1)."""
  if c.op != 'call' or callee_name(c) not in ('concatenate', 'hstack',
                                              'column_stack'):
    return None
  pos, kw = call_args(c)
  if callee_name(c) == 'concatenate':
    ax = kw.get('axis', pos[1] if len(pos) > 1 else None)
    if ax is not const(1) and ax is not const(-1):
      return None
  if not pos or pos[0].op not in ('list', 'tuple'):
    return None
  out = []
  for x in pos[0].args[0]:
    if x.op == 'attr' and x.args[1] in FULL | UNIQ:
      out.append(x.args[0])
    else:
      return None
  return out


def judge_width(rep, inst, m, loc):
  t = m['charge_dtype']
  if t is None or t is NONE:
    rep.bad('width-kept', inst, 'the derived charge is made with the default '
            'integer width', loc)
    return
  if t.op == 'attr' and t.args[1] == 'dtype':
    rep.ok('width-kept', inst)
  elif is_narrow(t):
    rep.bad('width-kept', inst, 'the derived charge is made with the fixed '
            'integer width %s' % str(t)[:40], loc)
  elif t.op == 'call' and callee_name(t) in WIDE:
    rep.ok('width-kept', inst)
  else:
    rep.undecided('width-kept', inst, str(t)[:80])


def judge_labels(rep, inst, f, m, loc):
  c, l = m['charges'], m['charge_labels']
  if c is None:
    return
  srcs = [x.args[0] for x in walk(c) if x.op == 'attr' and
          x.args[1] in UNIQ | FULL]
  for s in srcs:
    if whole(c, UNIQ, s):
      if l is None or l is NONE:
        rep.bad('labels-with-uniques', inst, 'unique charges are passed '
                'without labels: the result has one entry per distinct charge',
                loc)
      else:
        rep.ok('labels-with-uniques', inst)
      return
    if whole(c, FULL, s):
      own = l is not None and l.op == 'attr' and l.args[1] in LABS and \
          l.args[0] is s
      rep.check('labels-with-uniques', inst, not own, 'full charges are passed '
                'with the labels of the unique charges', loc)
      return


# ---------------------------------------------------------------- columns
def columns(ctx, rep):
  rep.rule('column-pairing', 'the rule of symmetry n is applied to column n of '
           'every operand')
  for q, f in sorted(ctx.prog.funcs.items()):
    if not q.startswith(CH + '.'):
      continue
    ps, _ = ctx.paths(f, rep=rep)
    for p in ps or []:
      for e in p.events:
        if e.kind != 'call' or not isinstance(e.res, T):
          continue
        t = e.res
        if t.op != 'call' or callee_name(t) not in ('fuse', 'dual_charges'):
          continue
        r = callee_recv(t)
        ix = position(r)
        if ix is None:
          continue
        inst = '%s: %s' % (short(q), callee_name(t))
        for x in t.args[1]:
          col = column(x)
          if col is None:
            rep.undecided('column-pairing', inst, str(x)[:80])
          else:
            rep.check('column-pairing', inst, same_pos(col, ix), 'the rule of '
                      'symmetry %s is applied to column %s' % (ix, col), e.loc)


def position(r):
  """Index of the symmetry class a method is called on."""
  if r is None:
    return None
  if r.op == 'elem':
    return mk('idx', r.args[0])
  if r.op == 'item' and not (r.args[1].op == 'slice'):
    return r.args[1]
  return None


def column(x):
  while x.op == 'call' and callee_name(x) in ('asarray', 'array', 'astype',
                                              'ravel', 'copy'):
    x = callee_recv(x) if callee_recv(x) is not None and \
        callee_recv(x).op != 'ext' else x.args[1][0]
  if x.op == 'item' and x.args[1].op == 'tuple' and len(x.args[1].args[0]) == 2:
    return x.args[1].args[0][1]
  return None


def same_pos(a, b):
  if a is b:
    return True
  def over(t):
    if t.op in ('idx', 'elem'):
      s = t.args[0]
      while s.op == 'call' and callee_name(s) in ('range', 'len', 'enumerate') \
          and len(s.args[1]) == 1:
        s = s.args[1][0]
      return s
    return None
  return over(a) is not None and over(a) is over(b)


# ---------------------------------------------------------------- equality
def aspect(t, names):
  """(operand, aspect) of one side of a comparison."""
  if t.op == 'call' and callee_name(t) == 'len' and t.args[1]:
    x = t.args[1][0]
    if x.op == 'param':
      return x, 'size'
    a = aspect(x, names)
    return (a[0], 'size') if a else None
  if t.op == 'item':
    a = aspect(t.args[0], names)
    return a if a and a[1] in ('shape', 'size') else None
  if t.op != 'attr':
    return None
  b, n = t.args
  if n == 'shape':
    a = aspect(b, names)
    return (a[0], 'shape' if a[1] == 'values' else 'rep-shape') if a else None
  if b.op != 'param':
    return None
  if n in FULL:
    return b, 'values'
  if n in UNIQ:
    return b, 'uniq'
  if n in LABS:
    return b, 'labels'
  if n == 'dim':
    return b, 'size'
  if n in ('num_symmetries', 'charge_types', 'names'):
    return b, 'types'
  if n == 'num_unique':
    return b, 'rep-shape'
  return None


def test(t):
  """(aspect, strict) of a test comparing the two charges, or None."""
  neg = False
  strict = False
  if t.op == 'call' and callee_name(t) in ('all', 'bool'):
    r = callee_recv(t)
    t = t.args[1][0] if t.args[1] else r
    if t is not None and t.op == 'call' and callee_name(t) == 'all':
      return test(t)
  if t.op == 'call' and callee_name(t) in ('array_equal', 'array_equiv'):
    a, b = t.args[1][:2]
    strict = callee_name(t) == 'array_equal'
  elif t.op == 'cmp' and t.args[0] in ('eq', 'ne'):
    neg = t.args[0] == 'ne'
    a, b = t.args[1:3]
  else:
    return None
  x, y = aspect(a, None), aspect(b, None)
  if x is None or y is None or x[0] is y[0]:
    return None
  if x[1] != y[1]:
    return ('mixed', False, neg)
  return (x[1], strict, neg)


def equality(ctx, rep):
  rep.rule('equality-of-values', 'charge_equal answers True only after the '
           'charges (or both parts of their storage) compared equal, and False '
           'only after charges, sizes or types differed: charges that differ '
           'in storage alone are equal')
  f = ctx.prog.funcs.get(CH + '.charge_equal')
  if f is None:
    return
  ps, _ = ctx.paths(f, rep=rep)
  for p in ps or []:
    if p.outcome != 'return':
      continue
    eq, ne, unknown = set(), set(), False
    strict = set()
    fs = list(facts(p))
    v = p.value
    if v.op == 'const' and isinstance(v.args[0], bool):
      answers = [(v.args[0], fs)]
    elif v.op == 'not':
      answers = [(True, fs + [(v.args[0], False)]),
                 (False, fs + [(v.args[0], True)])]
    else:
      answers = [(True, fs + [(v, True)]), (False, fs + [(v, False)])]
    for ans, ff in answers:
      eq, ne, strict, unknown = set(), set(), set(), False
      for t, val in ff:
        if t.op == 'cmp' and t.args[0] == 'is':
          continue
        k = test(t)
        if k is None:
          unknown = True
          continue
        a, st, neg = k
        val = val != neg
        (eq if val else ne).add(a)
        if val and st:
          strict.add(a)
      inst = 'charge_equal -> %s' % ans
      loc = (f.mod.rel, f.node.lineno)
      if ans:
        shape = 'shape' in eq or 'values' in strict or (
            'size' in eq and 'types' in eq)
        good = ('values' in eq and shape) or {'uniq', 'labels'} <= eq
        if good:
          rep.ok('equality-of-values', inst)
        elif unknown:
          rep.undecided('equality-of-values', inst, 'unrecognised tests')
        else:
          rep.bad('equality-of-values', inst, 'True is answered after comparing '
                  'only %s' % (sorted(eq) or 'nothing'), loc)
      else:
        if ne & {'values', 'size', 'shape', 'types'}:
          rep.ok('equality-of-values', inst)
        elif unknown:
          rep.undecided('equality-of-values', inst, 'unrecognised tests')
        else:
          rep.bad('equality-of-values', inst, 'False is answered because only '
                  'the storage (%s) differs' % ', '.join(sorted(ne)), loc)


# ---------------------------------------------------------------- group laws
class Un(Exception):
  pass


class NoGroup(Exception):
  pass


IDEMPOTENT = {'BitOr', 'BitAnd', 'bitwise_or', 'bitwise_and', 'logical_or',
              'logical_and', 'maximum', 'minimum', 'fmax', 'fmin'}


def lin_add(a, b, k=1):
  out = dict(a)
  for s, c in b.items():
    out[s] = out.get(s, 0) + k * c
    if not out[s]:
      del out[s]
  return out


def mono(lin):
  """The constant of a linear form without atoms, else None."""
  if all(k == 1 for k in lin):
    return lin.get(1, 0)
  return None


def norm(v, n):
  """v mod n for a linear form v (n: int or name): drop multiples of n."""
  out = {}
  for s, c in v.items():
    if s == n:
      continue
    if isinstance(n, int):
      c %= n
    if c:
      out[s] = c
  return out


class Ev(ast.NodeVisitor):
  """Straight-line evaluation of a static method to a normal form:
  ('lin', {atom: coefficient}), ('mod', linear, n), ('xor', frozenset)."""

  def __init__(self, env, order):
    self.env = env
    self.order = order

  def run(self, fn):
    for s in fn.body:
      if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
        continue
      if isinstance(s, ast.Pass):
        continue
      if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
          s.targets[0], ast.Name):
        self.env[s.targets[0].id] = self.ev(s.value)
      elif isinstance(s, ast.AnnAssign) and isinstance(
          s.target, ast.Name) and s.value is not None:
        self.env[s.target.id] = self.ev(s.value)
      elif isinstance(s, ast.Return) and s.value is not None:
        return self.ev(s.value)
      else:
        raise Un(ast.dump(s)[:60])
    raise Un('no result')

  def lin(self, v):
    if v[0] != 'lin':
      raise Un('not linear')
    return v[1]

  def arith(self, op, a, b):
    if op in ('Add', 'add', 'Sub', 'subtract'):
      k = 1 if op in ('Add', 'add') else -1
      # inside a modulus the inner reduction may be dropped
      if a[0] == 'mod' or b[0] == 'mod':
        return ('inner', lin_add(self.raw(a), self.raw(b), k),
                {x[2] for x in (a, b) if x[0] == 'mod'})
      return ('lin', lin_add(self.lin(a), self.lin(b), k))
    if op in ('Mult', 'multiply'):
      x, y = self.lin(a), self.lin(b)
      if mono(y) is None:
        x, y = y, x
      if mono(y) is None:
        raise Un('product of charges')
      k = mono(y)
      return ('lin', {s: c * k for s, c in x.items() if c * k})
    if op in ('Mod', 'mod', 'remainder'):
      n = self.lin(b)
      if mono(n) is not None:
        n = mono(n)
      elif len(n) == 1 and list(n.values()) == [1]:
        n = list(n)[0]
      else:
        raise Un('modulus')
      if a[0] == 'mod' and a[2] == n:
        return a
      if a[0] == 'inner' and a[2] == {n}:
        return ('mod', norm(a[1], n), n)
      return ('mod', norm(self.lin(a), n), n)
    if op in ('BitXor', 'bitwise_xor', 'logical_xor'):
      s = set()
      for v in (a, b):
        if v[0] == 'xor':
          s ^= set(v[1])
        else:
          l = self.lin(v)
          if mono(l) == 0:
            continue
          if len(l) != 1 or list(l.values()) != [1]:
            raise Un('xor')
          s ^= {list(l)[0]}
      return ('xor', frozenset(s))
    if op in IDEMPOTENT:
      raise NoGroup(op)
    raise Un(op)

  def raw(self, v):
    if v[0] in ('mod', 'lin', 'inner'):
      return v[1]
    raise Un('xor inside a sum')

  def ev(self, n):
    if isinstance(n, ast.Constant) and isinstance(n.value, (int, bool)):
      return ('lin', {1: int(n.value)} if n.value else {})
    if isinstance(n, ast.Name):
      if n.id in self.env:
        return self.env[n.id]
      return ('lin', {n.id: 1})
    if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
      v = self.lin(self.ev(n.operand))
      return ('lin', {s: -c for s, c in v.items()})
    if isinstance(n, ast.BinOp):
      return self.arith(type(n.op).__name__, self.ev(n.left),
                        self.ev(n.right))
    if isinstance(n, ast.Subscript):
      # a[:, None] + b[None, :]
      d = ast.unparse(n.slice).strip('()')
      if d in (':, None', ':, np.newaxis'):
        self.outer(n.value, 0)
        return self.ev(n.value)
      if d in ('None, :', 'np.newaxis, :'):
        self.outer(n.value, 1)
        return self.ev(n.value)
      raise Un('subscript')
    if isinstance(n, ast.Call):
      fn = n.func
      name = fn.attr if isinstance(fn, ast.Attribute) else getattr(
          fn, 'id', None)
      if name == 'outer' and isinstance(fn, ast.Attribute):
        op = fn.value.attr if isinstance(fn.value, ast.Attribute) else None
        self.outer(n.args[0], 0)
        self.outer(n.args[1], 1)
        return self.arith(op, self.ev(n.args[0]), self.ev(n.args[1]))
      if name in ('ravel', 'flatten', 'astype', 'copy', 'reshape') and \
          isinstance(fn, ast.Attribute) and not (
              isinstance(fn.value, ast.Name) and fn.value.id == 'np'):
        return self.ev(fn.value)
      if name in ('ravel', 'asarray', 'array', 'reshape', 'int', 'int8',
                  'int16', 'int32', 'int64', 'type') and n.args:
        return self.ev(n.args[0])
      if name in ('zeros_like', 'zeros'):
        return ('lin', {})
      if name in ('negative',) and n.args:
        v = self.lin(self.ev(n.args[0]))
        return ('lin', {s: -c for s, c in v.items()})
      if name in ('add', 'subtract', 'multiply', 'mod', 'remainder',
                  'bitwise_xor', 'logical_xor') and len(n.args) == 2:
        return self.arith(name, self.ev(n.args[0]), self.ev(n.args[1]))
    raise Un(ast.dump(n)[:60])

  def outer(self, n, pos):
    v = self.ev(n)
    if v[0] == 'lin':
      for s in v[1]:
        if s != 1:
          self.order.setdefault(s, set()).add(pos)


def equal(v, want, n):
  """v (normal form) denotes `want` ('a', 'b' or a constant)."""
  if v[0] == 'lin':
    l = v[1]
  elif v[0] == 'mod':
    l = v[1]
    want = norm(want, v[2])
  elif v[0] == 'xor':
    return set(v[1]) == {s for s in want}
  else:
    raise Un('form')
  return l == want


def groups(ctx, rep):
  rep.rule('group-law', 'fusing with the identity changes nothing, fusing a '
           'charge with its dual gives the identity, fusion is symmetric in its '
           'operands up to the order of the result')
  rep.rule('closed', 'the dual of a charge with a modulus is again reduced')
  rep.rule('fusion-order', 'the first operand of a fusion varies slowest')
  found = 0
  for q, m in sorted(ctx.prog.modules.items()):
    if q != CH:
      continue
    for c in ast.walk(m.tree):
      if not isinstance(c, ast.ClassDef) or c.name == 'BaseCharge':
        continue
      ms = {s.name: s for s in c.body if isinstance(s, ast.FunctionDef)}
      if not {'fuse', 'dual_charges', 'identity_charge'} <= set(ms):
        continue
      found += 1
      law(rep, c, ms, m.rel)
  if not found:
    rep.undecided('group-law', 'charge.py', 'no symmetry classes found')


def law(rep, c, ms, path):
  def loc(f):
    return (path, f.lineno)

  def call(fn, *vals):
    names = [a.arg for a in fn.args.args]
    order = {}
    r = Ev(dict(zip(names, vals)), order).run(fn)
    return r, order
  fu, du, idn = ms['fuse'], ms['dual_charges'], ms['identity_charge']
  A, B = ('lin', {'a': 1}), ('lin', {'b': 1})
  try:
    one, _ = call(idn)
    for tag, args, want in (('identity on the right', (A, one), {'a': 1}),
                            ('identity on the left', (one, A), {'a': 1})):
      r, _ = call(fu, *args)
      rep.check('group-law', '%s: %s' % (c.name, tag), equal(r, want, None),
                'fusing with the identity charge changes a charge', loc(fu))
    ab, order = call(fu, A, B)
    ba, _ = call(fu, B, A)
    rep.check('group-law', '%s: commutes' % c.name, ab == ba, 'fusion is not '
              'symmetric in its operands', loc(fu))
    if 'a' in order and 'b' in order:
      rep.check('fusion-order', c.name, order['a'] == {0} and
                order['b'] == {1}, 'the second operand varies slowest: fused '
                'charges are listed in the wrong order', loc(fu))
    else:
      rep.undecided('fusion-order', c.name, 'no outer operation recognised')
  except NoGroup as e:
    rep.bad('group-law', '%s: fuse' % c.name, '%s has no inverses' % e, loc(fu))
    return
  except Un as e:
    rep.undecided('group-law', '%s: fuse' % c.name, str(e))
    return
  try:
    d, _ = call(du, A)
    r, _ = call(fu, A, d)
    w = one[1] if one[0] == 'lin' else None
    if w is None:
      raise Un('identity')
    if ab[0] == 'mod':
      rep.check('closed', '%s: dual' % c.name, (d[0] == 'mod' and
                d[2] == ab[2]) or d == A, 'the dual is not reduced to the range '
                'of the charges', loc(du))
    rep.check('group-law', '%s: dual' % c.name, equal(r, w, None), 'fusing a '
              'charge with its dual does not give the identity', loc(du))
  except (Un, NoGroup) as e:
    rep.undecided('group-law', '%s: dual' % c.name, str(e))


def run(ctx, rep):
  derived(ctx, rep)
  columns(ctx, rep)
  equality(ctx, rep)
  groups(ctx, rep)
  rep.floor('group-law', 1)
