"""Interface agreement: every override of a backend method has the parameters
of the common interface (names, order, required or optional); every simple
operation, on every backend and through the operators and functions of nodes,
tensors and symmetric tensors, computes the operation it is named after, with
its operands in the order given; a data type that is not given is double
precision on every backend."""
import ast
from ..terms import T, walk, NONE, param, mk
from ..lib import (short, callee_name, callee_recv, call_args, P, none_facts,
                   is_call)

ASSUMPTIONS = [
    'a library function computes the operation its name says (numpy.exp, '
    'tf.math.exp, ...)',
    'the pytorch backend supports real tensors only, where conj is the '
    'identity',
]

BASE = 'tensornetwork.backends.abstract_backend.AbstractBackend'

# canonical operation of an operator or library function
CANON = {
    'Add': 'addition', 'add': 'addition', 'addition': 'addition',
    'Sub': 'subtraction', 'subtract': 'subtraction',
    'subtraction': 'subtraction', 'sub': 'subtraction',
    'Mult': 'multiply', 'multiply': 'multiply', 'mul': 'multiply',
    'Div': 'divide', 'divide': 'divide', 'true_divide': 'divide',
    'truediv': 'divide', 'div': 'divide', 'FloorDiv': 'floor_divide',
    'floor_divide': 'floor_divide', 'Mod': 'mod', 'mod': 'mod',
    'remainder': 'mod',
    'Pow': 'power', 'power': 'power', 'pow': 'power',
    'float_power': 'power',
    'MatMult': 'matmul', 'matmul': 'matmul', 'mm': 'matmul', 'bmm': 'matmul',
    'tensordot': 'tensordot', 'outer_product': 'outer_product',
    'kron': 'kron', 'outer': 'outer_product',
    'abs': 'abs', 'absolute': 'abs', 'fabs': 'abs', 'sign': 'sign',
    'sqrt': 'sqrt', 'square': 'square', 'rsqrt': 'rsqrt', 'cbrt': 'cbrt',
    'exp': 'exp', 'expm1': 'expm1', 'exp2': 'exp2', 'expm': 'expm',
    'log': 'log', 'log2': 'log2', 'log10': 'log10', 'log1p': 'log1p',
    'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'sinh': 'sinh', 'cosh': 'cosh',
    'tanh': 'tanh', 'arcsin': 'arcsin', 'arccos': 'arccos',
    'conj': 'conj', 'conjugate': 'conj', 'real': 'real', 'imag': 'imag',
    'inv': 'inv', 'inverse': 'inv', 'pinv': 'pinv',
    'qr': 'qr', 'rq': 'rq', 'svd': 'svd', 'eigh': 'eigh', 'symeig': 'eigh',
    'eig': 'eig', 'norm': 'norm', 'ones': 'ones', 'zeros': 'zeros',
    'eye': 'eye', 'trace': 'trace', 'diagflat': 'diagflat',
    'diagonal': 'diagonal', 'sum': 'sum', 'reduce_sum': 'sum',
    'prod': 'prod', 'reduce_prod': 'prod', 'mean': 'mean', 'max': 'max',
    'min': 'min',
}
BINARY = {'addition': 'c', 'subtraction': '', 'multiply': 'c', 'divide': '',
          'power': '', 'matmul': '', 'tensordot': '', 'outer_product': ''}
UNARY = {'abs', 'sign', 'sqrt', 'exp', 'log', 'sin', 'cos', 'conj', 'expm',
         'inv', 'norm', 'eigh', 'qr', 'rq', 'svd', 'ones', 'zeros', 'eye',
         'sum'}
# other names under which an operation may be computed
ALSO = {
    'matmul': {'einsum'},
    'outer_product': {'tensordot', 'einsum', 'outer', 'multiply'},
    'tensordot': {'einsum'},
    'norm': {'sqrt', 'sum', 'abs', 'conj', 'real', 'multiply', 'tensordot',
             'divide', 'addition', 'power', 'square'},
    'abs': {'sqrt', 'square', 'real', 'multiply', 'conj'},
    'square': {'multiply', 'power'},
    'subtraction': {'multiply', 'addition'},
}
# elementwise names: a function of this name may not apply another of them
ELEM = {'abs', 'sign', 'sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'sinh',
        'cosh', 'tanh', 'expm', 'log2', 'log10', 'log1p', 'expm1', 'exp2',
        'square', 'cbrt', 'arcsin', 'arccos'}
IDENTITY_OK = {('PyTorchBackend', 'conj')}
WRAP = {'array', 'asarray', 'as_tensor', 'convert_to_tensor', 'tuple', 'copy',
        'astype', 'cast'}
DUNDER = {'__add__': 'addition', '__sub__': 'subtraction',
          '__mul__': 'multiply', '__truediv__': 'divide', '__pow__': 'power',
          '__matmul__': 'matmul'}


# keyword of a library call -> parameter of the operation it must carry
ROLE = {'n': 'N', 'm': 'M', 'num_rows': 'N', 'num_columns': 'M', 'M': 'M', 'N': 'N',
        'dim1': 'axis1', 'dim2': 'axis2', 'axis1': 'axis1', 'axis2': 'axis2',
        'offset': 'offset', 'k': 'k', 'keepdims': 'keepdims',
        'keepdim': 'keepdims', 'axis': 'axis', 'shape': 'shape',
        'perm': 'perm', 'axes': 'axes', 'begin': 'start_indices',
        'size': 'slice_sizes'}
# operation -> parameters that are positional operands in this order
POSN = {'reshape': ('tensor', 'shape'), 'transpose': ('tensor', 'perm'),
        'eye': ('N', 'M'), 'slice': ('tensor', 'start_indices', 'slice_sizes')}
# derived forms of a tensor: operations they consist of / must not contain
FORMS = {'H': ({'conj', 'transpose'}, set()),
         'hconj': ({'conj', 'transpose'}, set()),
         'T': ({'transpose'}, {'conj'}),
         'conj': ({'conj'}, {'transpose'}),
         'conjugate': ({'conj'}, {'transpose'})}


def run(ctx, rep):
  rep.rule('signature', 'an override has the parameters of the interface')
  rep.rule('operation', 'the operation computed is the one named, operands in '
           'order')
  rep.rule('operator', 'an operator of a node or tensor applies the operation '
           'of its name with its operands in order')
  rep.rule('same-name', 'an elementwise function applies only the function of '
           'its own name')
  rep.rule('roles', 'axes, offsets and sizes go to the slots they belong to')
  rep.rule('forms', 'transpose, conjugate and adjoint consist of what their '
           'names say')
  rep.rule('default', 'a parameter left out means the same on every backend')
  rep.rule('default-dtype', 'a data type that is not given is float64')
  base = ctx.prog.classes.get(BASE)
  if base is None:
    rep.undecided('signature', 'AbstractBackend', 'not found')
    return
  subs = [c for c in ctx.prog.classes.values()
          if c is not base and ctx.prog.is_subclass(c, base)]
  for c in sorted(subs, key=lambda c: c.qual):
    for n, m in sorted(base.methods.items()):
      k = c.methods.get(n)
      if k is None:
        continue
      if n != '__init__':
        signature(rep, c, n, m, k)
      operation(ctx, rep, c, n, k)
  for n in sorted(base.methods):
    if n != '__init__':
      defaults(rep, n, [(c, c.methods[n]) for c in subs if n in c.methods])
  rep.floor('signature', 150)
  rep.floor('operation', 60)
  for c in sorted(subs, key=lambda c: c.qual):
    for n in sorted(base.methods):
      k = c.methods.get(n)
      if k is not None:
        roles(ctx, rep, c, n, k)
  operators(ctx, rep)
  same_name(ctx, rep)
  wrappers(ctx, rep)
  builders(ctx, rep)
  forms(ctx, rep)


# parameters that bound the effort of an iteration, not what is computed
TUNING = {'maxiter', 'ndiag', 'num_krylov_vecs', 'num_krylov_vectors'}


def defaults(rep, n, impls):
  """A parameter left out means the same on every backend that computes n."""
  got = {}
  for c, k in impls:
    if not any(isinstance(x, ast.Return) and x.value is not None
               for x in ast.walk(k.node)):
      continue
    for a, d in k.defaults.items():
      try:
        v = ast.literal_eval(d)
      except (ValueError, TypeError, SyntaxError):
        continue
      if v is not None and a not in TUNING:
        got.setdefault(a, {}).setdefault(repr(v), []).append((c, k))
  for a, by in sorted(got.items()):
    inst = '%s(%s)' % (n, a)
    if len(by) == 1:
      rep.ok('default', inst)
      continue
    few = min(by.items(), key=lambda kv: (len(kv[1]), kv[0]))
    c, k = few[1][0]
    rep.bad('default', inst, '%s.%s takes %s=%s when it is left out, other '
            'backends take %s' % (c.name, n, a, few[0], ', '.join(
                sorted(v for v in by if v != few[0]))),
            '%s:%d' % (k.file, k.line))


def signature(rep, c, n, m, k):
  inst = '%s.%s' % (c.name, n)
  loc = '%s:%d' % (k.file, k.line)
  a, b = m.all_params(), k.all_params()
  rep.saw(k)
  if k.vararg or k.kwarg:
    if not (m.vararg or m.kwarg):
      rep.undecided('signature', inst, 'variable arguments')
      return
  if b[:len(a)] != a:
    rep.bad('signature', inst, 'parameters %s differ from the interface %s' %
            (b, a), loc)
    return
  for p in a:
    if p in m.defaults and p not in k.defaults:
      rep.bad('signature', inst, 'parameter %s is optional in the interface' %
              p, loc)
      return
  for p in b[len(a):]:
    if p not in k.defaults:
      rep.bad('signature', inst, 'parameter %s is not part of the interface '
              'and required' % p, loc)
      return
  rep.ok('signature', inst)


def strip(t):
  while True:
    n = callee_name(t)
    if n in WRAP:
      pos, kw = call_args(t)
      r = callee_recv(t)
      if n in ('astype', 'copy') and t.args[0].op == 'attr' and \
          r is not None and not is_module(r):
        t = r
        continue
      if pos:
        t = pos[0]
        continue
    return t


def is_module(t):
  return t.op in ('mod', 'ext', 'free', 'global') or (
      t.op == 'attr' and is_module(t.args[0])) or (
          t.op == 'attr' and t.args[1] in ('bs', 'np'))


def compute(t):
  """(canonical operation, operand terms) of a value, or None."""
  t = strip(t)
  if t.op == 'bin':
    return CANON.get(t.args[0]), (t.args[1], t.args[2])
  if t.op == 'call':
    n = callee_name(t)
    pos, kw = call_args(t)
    ops = list(pos) + [v for k, v in kw.items()]
    r = callee_recv(t)
    if r is not None and t.args[0].op in ('attr', 'bound') and \
        not is_module(r):
      ops = [r] + ops
    return CANON.get(n, n), tuple(ops)
  if t.op == 'un':
    return None
  return None


def order(ops, f, first, second):
  """'ok' | 'swapped' | None for two operands given as parameter terms."""
  pos = {}
  for i, o in enumerate(ops):
    for x in walk(o):
      if x is first:
        pos.setdefault('a', i)
      if x is second:
        pos.setdefault('b', i)
  if 'a' not in pos or 'b' not in pos or pos['a'] == pos['b']:
    return None
  return 'ok' if pos['a'] < pos['b'] else 'swapped'


def operation(ctx, rep, c, n, k):
  if n not in BINARY and n not in UNARY:
    return
  paths, _ = ctx.paths(k, rep=rep)
  inst = '%s.%s' % (c.name, n)
  if not paths:
    return
  for p in paths:
    if p.outcome != 'return' or p.value is None:
      continue
    loc = '%s:%s' % (p.file, p.line)
    t = strip(p.value)
    got = compute(t)
    ps = k.user_params()
    if got is None:
      if n in UNARY and ps and t is P(k, ps[0]):
        if (c.name, n) in IDENTITY_OK:
          rep.ok('operation', inst)
        else:
          rep.bad('operation', inst, 'returns its operand unchanged', loc)
      else:
        rep.undecided('operation', inst, str(t)[:60])
      continue
    op, ops = got
    if op != n and op not in ALSO.get(n, ()):
      if op in CANON.values():
        rep.bad('operation', inst, 'computes %s' % op, loc)
      else:
        rep.undecided('operation', inst, 'computes %s' % op)
      continue
    if n in BINARY and op == 'einsum':
      rep.ok('operation', inst)
      continue
    if n in BINARY and len(ps) >= 2:
      o = order(ops, k, P(k, ps[0]), P(k, ps[1]))
      if o == 'swapped' and BINARY[n] != 'c':
        rep.bad('operation', inst, 'its operands are exchanged', loc)
        continue
      if o is None:
        miss = [q for q in ps[:2]
                if not any(x is P(k, q) for y in ops for x in walk(y))]
        if miss:
          rep.bad('operation', inst, 'its operand %s is not used' % miss[0],
                  loc)
          continue
    rep.ok('operation', inst)
  if n in ('ones', 'zeros', 'eye'):
    for p in paths:
      if p.outcome != 'return' or p.value is None:
        continue
      d = none_facts(p).get(P(k, 'dtype'))
      if d is None:
        continue
      names = {x.args[1] for x in walk(p.value) if x.op == 'attr'} | {
          x.args[0].split('.')[-1] for x in walk(p.value) if x.op == 'ext'}
      wrong = names & {'float32', 'float16', 'complex64', 'complex128',
                       'int32', 'int64', 'bool_'}
      loc = '%s:%s' % (p.file, p.line)
      if d:
        rep.check('default-dtype', inst, not wrong, 'without a data type it '
                  'returns %s' % ', '.join(sorted(wrong)), loc)
      else:
        rep.check('default-dtype', inst + ' given',
                  any(x is P(k, 'dtype') for x in walk(p.value)),
                  'the given data type is not used', loc)


def operators(ctx, rep):
  prog = ctx.prog
  for cq in ('network_components.Node', 'tensor.Tensor',
             'block_sparse.blocksparsetensor.BlockSparseTensor'):
    c = prog.classes.get('tensornetwork.' + cq)
    if c is None:
      continue
    names = set(c.methods)
    for n in sorted(names):
      rev = False
      base = n
      if n.startswith('__r') and '__' + n[3:] in DUNDER:
        rev, base = True, '__' + n[3:]
      want = DUNDER.get(base)
      f = c.methods.get(n)
      if want is None or f is None or f.is_stub() or len(f.params) != 2:
        continue
      inst = '%s.%s' % (c.name, n)
      paths, _ = ctx.paths(f, rep=rep)
      if not paths:
        continue
      me, ot = P(f, f.params[0]), P(f, f.params[1])
      for p in paths:
        if p.outcome != 'return' or p.value is None:
          continue
        loc = '%s:%s' % (p.file, p.line)
        found = []
        for x in walk(p.value):
          op = None
          if x.op == 'bin':
            op, ops = CANON.get(x.args[0]), (x.args[1], x.args[2])
          elif x.op == 'call':
            r = callee_recv(x)
            nm = callee_name(x)
            if nm in CANON:
              pos, kw = call_args(x)
              op, ops = CANON[nm], tuple(pos) + tuple(kw.values())
              if r is not None and not is_module(r) and not (
                  r.op == 'attr' and r.args[1] == 'backend'):
                ops = (r,) + ops
          if op is None:
            continue
          if any(y is me for o in ops for y in walk(o)) and any(
              y is ot for o in ops for y in walk(o)):
            found.append((op, ops))
        if not found:
          rep.undecided('operator', inst, str(p.value)[:60])
          continue
        op, ops = found[0]
        ok = {want} | ALSO.get(want, set())
        if want == 'matmul':
          ok.add('tensordot')
        if op not in ok:
          rep.bad('operator', inst, 'applies %s' % op, loc)
          continue
        if want not in ('addition', 'multiply') and op == want:
          o = order(ops, f, ot if rev else me, me if rev else ot)
          if o == 'swapped':
            rep.bad('operator', inst, 'its operands are exchanged', loc)
            continue
        rep.ok('operator', inst)


def wrappers(ctx, rep):
  """tensordot(a, b), outer(a, b), kron(A, B): operands in the order given."""
  for q, f in sorted(ctx.prog.funcs.items()):
    sq = short(q)
    if f.parent is not None or f.cls is not None or not sq.startswith(
        'linalg.operations.') or CANON.get(f.name) is None:
      continue
    ps = f.user_params()
    paths, _ = ctx.paths(f, rep=rep)
    for p in paths or ():
      if p.outcome != 'return' or p.value is None:
        continue
      loc = '%s:%s' % (p.file, p.line)
      seen = set()
      for x in walk(p.value):
        if x.op != 'call' or x in seen:
          continue
        seen.add(x)
        op = CANON.get(callee_name(x))
        if op not in BINARY or BINARY[op] == 'c':
          continue
        r = callee_recv(x)
        pos, kw = call_args(x)
        ops = tuple(pos) + tuple(kw.values())
        if len(ps) < 2:
          continue
        a, b = P(f, ps[0]), P(f, ps[1])
        o = order(ops[:2], f, a, b)
        if o == 'swapped':
          rep.bad('operator', sq, 'its operands are exchanged', loc)
        elif o == 'ok':
          rep.ok('operator', sq)


def builders(ctx, rep):
  """The @ of ncon builders appends tensors and labels alike, left first."""
  c = ctx.prog.classes.get('tensornetwork.tensor.NconBuilder')
  f = c.methods.get('__matmul__') if c is not None else None
  if f is None or len(f.params) != 2:
    return
  me, ot = P(f, f.params[0]), P(f, f.params[1])
  paths, _ = ctx.paths(f, rep=rep)
  for p in paths or ():
    if p.outcome != 'return' or p.value is None or p.value.op not in (
        'call', 'new'):
      continue
    pos, kw = call_args(p.value)
    for i, nm in enumerate(('tensors', 'axes')):
      t = kw.get(nm, pos[i] if len(pos) > i else None)
      if t is None or t.op != 'bin' or t.args[0] != 'Add':
        rep.undecided('operator', short(f.qual) + ' ' + nm, str(t)[:60])
        continue
      inst = short(f.qual) + ' ' + nm
      loc = '%s:%s' % (p.file, p.line)
      names = [(s.args[0], s.args[1]) for s in t.args[1:3]
               if s.op == 'attr' and s.args[0] in (me, ot)]
      if len(names) != 2:
        rep.undecided('operator', inst, str(t)[:60])
        continue
      rep.check('operator', inst, names == [(me, nm), (ot, nm)],
                'the %s of the two builders are not appended left to right' %
                nm, loc)


def same_name(ctx, rep):
  """linalg.operations.exp calls backend.exp, BlockSparse abs numpy.abs..."""
  for q, f in sorted(ctx.prog.funcs.items()):
    sq = short(q)
    if f.parent is not None or f.name not in ELEM:
      continue
    if not sq.startswith(('linalg.', 'block_sparse.', 'tensor.',
                          'backends.symmetric.')):
      continue
    paths, _ = ctx.paths(f, rep=rep)
    for p in paths or ():
      for e in p.events:
        if e.kind != 'call' or e.name not in CANON:
          continue
        op = CANON[e.name]
        if op in ELEM and op != f.name and op not in ALSO.get(f.name, ()):
          rep.bad('same-name', sq, 'applies %s' % e.name, e.loc)
        elif op == f.name:
          rep.ok('same-name', sq)


def roles(ctx, rep, c, n, k):
  mine = set(k.user_params())
  inst = '%s.%s' % (c.name, n)
  paths, _ = ctx.paths(k, rep=rep)
  for p in paths or ():
    for e in p.events:
      if e.kind != 'call':
        continue
      slots = dict(e.kw or ()) if e.bound is None else dict(e.bound)
      for s, t in slots.items():
        want = ROLE.get(s)
        if want not in mine or not isinstance(t, T):
          continue
        if e.bound is not None and s != want:
          continue
        got = {x.args[1] for x in walk(t)
               if x.op == 'param' and x.args[0] == k.qual}
        got &= set(ROLE.values())
        me = P(k, want)
        if any(e2.kind == 'fact' and any(x is me for x in walk(e2.value))
               for e2 in p.events):
          continue
        if got and want not in got:
          rep.bad('roles', '%s(%s)' % (inst, s), 'the slot %s is given %s' %
                  (s, ', '.join(sorted(got))), e.loc)
        elif got:
          rep.ok('roles', '%s(%s)' % (inst, s))
      if e.bound is None and n in POSN and e.name == n:
        seq = []
        ops = list(e.pos or ())
        for o in ops:
          hit = {x.args[1] for x in walk(o)
                 if x.op == 'param' and x.args[0] == k.qual}
          hit &= set(POSN[n])
          if len(hit) == 1:
            seq.append(POSN[n].index(hit.pop()))
        if seq != sorted(seq):
          rep.bad('roles', inst, 'positional operands are exchanged', e.loc)
        elif seq:
          rep.ok('roles', inst)
      if n == 'index_update' and e.name == 'where' and len(e.pos or ()) == 3:
        want = [P(k, x) for x in ('mask', 'assignee', 'tensor')]
        have = [strip(x) for x in e.pos]
        if all(h.op == 'param' for h in have):
          rep.check('roles', inst, have == want, 'where(mask, assignee, '
                    'tensor) is given its operands in another order', e.loc)


def ops_in(ctx, rep, f, depth=0):
  """Operations applied on the way to the returned value."""
  out = set()
  paths, _ = ctx.paths(f, rep=rep)
  for p in paths or ():
    if p.outcome != 'return':
      continue
    mine = set()
    for e in p.events:
      if e.kind != 'call':
        continue
      nm = CANON.get(e.name, e.name)
      if nm in ('conj', 'transpose', 'hconj'):
        mine.add(nm)
      if nm == 'hconj':
        mine |= {'conj', 'transpose'}
    for x in walk(p.value) if p.value is not None else ():
      if x.op == 'attr' and x.args[1] in ('H', 'T'):
        mine.add('transpose')
        if x.args[1] == 'H':
          mine.add('conj')
    out.add(frozenset(mine))
  return out


def dead_calls(f):
  """Names of calls whose result is stored in a variable nobody reads."""
  loads = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and
           isinstance(n.ctx, ast.Load)}
  out = set()
  for s in ast.walk(f.node):
    if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and all(
        isinstance(t, ast.Name) and t.id not in loads for t in s.targets):
      fn = s.value.func
      nm = fn.attr if isinstance(fn, ast.Attribute) else getattr(
          fn, 'id', None)
      out.add(CANON.get(nm, nm))
  return out


def forms(ctx, rep):
  """H = conjugate transpose, T = transpose, conj = conjugate."""
  for q, f in sorted(ctx.prog.funcs.items()):
    sq = short(q)
    if f.parent is not None or f.name not in FORMS or f.is_stub():
      continue
    if not sq.startswith(('tensor.', 'linalg.', 'backends.', 'block_sparse.')):
      continue
    need, no = FORMS[f.name]
    if f.name == 'conj' and sq.startswith('backends.pytorch'):
      continue
    for have in ops_in(ctx, rep, f):
      loc = '%s:%d' % (f.file, f.line)
      if sq.startswith('block_sparse.') and f.name == 'H':
        need = {'conj'}  # the transposition is its leg order, see C16
      miss = (need - have) | (need & dead_calls(f))
      if miss:
        rep.bad('forms', sq, 'returns without applying %s' %
                ', '.join(sorted(miss)), loc)
      elif have & no:
        rep.bad('forms', sq, 'also applies %s' % ', '.join(sorted(have & no)),
                loc)
      else:
        rep.ok('forms', sq)
