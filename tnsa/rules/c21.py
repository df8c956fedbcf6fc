"""Provenance and cut analysis of the dense decompositions. The values every
path returns are traced back, through casts, reshapes, adjoints and slices, to
the components of the library decomposition: the kept columns, values and rows
and the discarded values must be cut at one and the same bound; that bound is a
minimum over every limit given; the error limit is compared, strictly, with the
root of the cumulated squares starting from the smallest value, scaled by the
largest value exactly when relative; factors get the leading shape, the new bond
and the trailing shape in this order; the sign that makes a diagonal
non-negative is applied to both factors and cannot be zero."""
from ..terms import T, walk, NONE, const
from ..lib import short, P, callee_name, callee_recv, none_facts, facts

ASSUMPTIONS = [
    'library decompositions return (u, s, vh) for numpy and jax, (s, u, v) for '
    'tensorflow and (u, s, v) for torch, singular values in descending order',
]
MODS = ('numpy', 'tensorflow', 'pytorch')
CAST = {'astype', 'cast', 'type', 'asarray', 'array', 'convert_to_tensor',
        'contiguous', 'to', 'constant', 'int', 'as_tensor'}
ADJ = {'transpose', 'adjoint', 'conj', 'conjugate', 'swapaxes', 'matrix_transpose',
       'T', 'H', 'mH', 'mT'}


def sl(t):
  """(lo, hi) of a slice without step."""
  if t.op == 'slice' and len(t.args) == 3 and t.args[2] is NONE:
    return t.args[0], t.args[1]
  return None


def cast(t):
  while t.op == 'call' and callee_name(t) in CAST:
    r = callee_recv(t)
    pos = t.args[1]
    if callee_name(t) in ('astype', 'type', 'contiguous', 'to') and \
        r is not None and not _mod(r):
      t = r
    elif pos:
      t = pos[0]
    else:
      break
  return t


def _mod(r):
  return r.op in ('ext', 'global') or (
      r.op == 'param' and r.args[1] in ('np', 'tf', 'torch', 'jnp')) or (
          r.op == 'attr' and _mod(r.args[0]) and r.args[1] in (
              'linalg', 'math', 'numpy'))


def operand(t):
  """First operand of a library call written as function or method."""
  r = callee_recv(t)
  if r is not None and not _mod(r):
    return r
  return t.args[1][0] if t.args[1] else dict(t.args[2]).get('a')


def seq(t, piv):
  """A shape as a list of 'L', 'R' and ('D', term)."""
  t = cast(t)
  if t.op in ('list', 'tuple'):
    out = []
    for x in t.args[0]:
      if x.op == 'star':
        s = seq(x.args[0], piv)
        if s is None:
          return None
        out += s
      else:
        out.append(('D', x))
    return out
  if t.op == 'bin' and t.args[0] == 'Add':
    a, b = seq(t.args[1], piv), seq(t.args[2], piv)
    return None if a is None or b is None else a + b
  if t.op == 'call' and callee_name(t) in ('list', 'tuple'):
    return seq(t.args[1][0], piv) if t.args[1] else None
  if t.op == 'call' and callee_name(t) in ('concat', 'concatenate',
                                           'hstack', 'shape_concat'):
    x = operand(t)
    if x is None or x.op not in ('list', 'tuple'):
      return None
    out = []
    for y in x.args[0]:
      s = seq(y, piv)
      if s is None:
        return None
      out += s
    return out
  if t.op == 'item' and t.args[1].op == 'slice':
    s = sl(t.args[1])
    if s is None:
      return None
    lo, hi = s
    if lo in (NONE, const(0)) and hi is piv:
      return ['L']
    if lo is piv and hi is NONE:
      return ['R']
    if piv in (lo, hi) or any(x is piv for y in (lo, hi) for x in walk(y)):
      return ['?']
  return None


def reshape_of(t):
  """(operand, shape term) of a reshape call."""
  if t.op == 'call' and callee_name(t) == 'reshape':
    r = callee_recv(t)
    pos = list(t.args[1])
    if r is not None and not _mod(r):
      pos = [r] + pos
    kw = dict(t.args[2])
    shape = pos[1] if len(pos) > 1 else kw.get('shape', kw.get('newshape'))
    if len(pos) > 2:
      from ..terms import mk
      shape = mk('tuple', tuple(pos[1:]))
    return pos[0], shape
  return None


def lib_svd(t):
  """{'u','s','v' or 'vh': index} of a library svd call."""
  if t.op != 'call' or callee_name(t) != 'svd':
    return None
  r = callee_recv(t)
  s = str(r)
  if 'tf' in s or 'tensorflow' in s:
    return {0: 's', 1: 'u', 2: 'v'}
  if 'torch' in s and 'linalg' not in s:
    return {0: 'u', 1: 's', 2: 'v'}
  return {0: 'u', 1: 's', 2: 'vh'}


class Factor:

  def __init__(self):
    self.shape = None      # shape term of the outermost reshape
    self.adj = []          # names of adjoint-like operations, outer first
    self.cuts = []         # (axis, lo, hi)
    self.mults = []        # other operands of products
    self.base = None       # (call, index)


def trace_back(t):
  f = Factor()
  while True:
    t = cast(t)
    r = reshape_of(t)
    if r is not None:
      if f.shape is None and not f.cuts and not f.adj:
        f.shape = r[1]
      t = r[0]
      continue
    if t.op == 'call' and callee_name(t) in ADJ:
      f.adj.append(callee_name(t))
      t = operand(t)
      if t is None:
        return f
      continue
    if t.op == 'attr' and t.args[1] in ('T', 'H', 'mH', 'mT'):
      f.adj.append(t.args[1])
      t = t.args[0]
      continue
    if t.op == 'item':
      i = t.args[1]
      if i.op == 'const' and isinstance(i.args[0], int) and \
          t.args[0].op == 'call':
        f.base = (t.args[0], i.args[0])
        return f
      if i.op == 'slice' and sl(i):
        f.cuts.append((0,) + sl(i))
        t = t.args[0]
        continue
      if i.op == 'tuple' and all(x.op == 'slice' and sl(x)
                                 for x in i.args[0]):
        for n, x in enumerate(i.args[0]):
          if sl(x) != (NONE, NONE):
            f.cuts.append((n,) + sl(x))
        t = t.args[0]
        continue
      return f
    if t.op == 'attr' and t.args[0].op == 'call':
      n = {'U': 0, 'S': 1, 'Vh': 2, 'V': 2, 'Q': 0, 'R': 1, 's': None}.get(
          t.args[1])
      if n is not None:
        f.base = (t.args[0], n)
      return f
    if t.op == 'bin' and t.args[0] == 'Mult':
      a, b = t.args[1], t.args[2]
      if any(x.op == 'call' and callee_name(x) in ('sign', 'sgn')
             for x in walk(b)):
        f.mults.append(b)
        t = a
        continue
      if any(x.op == 'call' and callee_name(x) in ('sign', 'sgn')
             for x in walk(a)):
        f.mults.append(a)
        t = b
        continue
    return f


def bound_norm(t):
  """The length of X[:K] is K."""
  t = cast(t)
  x = None
  if t.op == 'item' and t.args[1] is const(0):
    y = cast(t.args[0])
    if y.op == 'attr' and y.args[1] == 'shape':
      x = y.args[0]
    elif y.op == 'call' and callee_name(y) == 'shape' and operand(y):
      x = operand(y)
  elif t.op == 'call' and callee_name(t) in ('len', 'size', 'nelement',
                                             'numel'):
    x = operand(t)
  if x is not None:
    x = cast(x)
    if x.op == 'item' and x.args[1].op == 'slice' and sl(x.args[1]) and \
        sl(x.args[1])[0] in (NONE, const(0)):
      return cast(sl(x.args[1])[1])
  return t


def run(ctx, rep):
  rep.rule('same-cut', 'values, columns, rows and the rest are cut at one bound')
  rep.rule('keep', 'the bound is a minimum over every limit that is given')
  rep.rule('error', 'the limit is compared strictly with the root of the '
           'cumulated squares, smallest first')
  rep.rule('relative', 'the limit is scaled by the largest value exactly when '
           'relative')
  rep.rule('shape', 'factors have leading shape, bond and trailing shape in '
           'order')
  rep.rule('factors', 'the factors are returned in order, adjoint where the '
           'library returns or was given the adjoint')
  rep.rule('phases', 'signs multiply both factors and are never zero')
  rep.rule('factor-order', 'a wrapper returns the factors in the order of '
           'the decomposition it wraps')
  factor_order(ctx, rep)
  for m in MODS:
    q = 'tensornetwork.backends.%s.decompositions.' % m
    for n in ('svd', 'qr', 'rq'):
      f = ctx.prog.funcs.get(q + n)
      if f is None or 'pivot_axis' not in f.all_params():
        rep.undecided('shape', '%s.%s' % (m, n), 'not found')
        continue
      ps, _ = ctx.paths(f, rep=rep)
      rep.saw(f)
      for p in ps or ():
        if p.outcome != 'return' or p.value is None:
          continue
        if p.value.op != 'tuple':
          rep.undecided('factors', '%s.%s' % (m, n), 'result is not a tuple')
          continue
        (svd if n == 'svd' else orth)(rep, m, f, p)
  rep.floor('same-cut', 3)
  rep.floor('shape', 9)


def factor_order(ctx, rep):
  """A function that hands on the factors of a decomposition of its own name
  hands them on in the order it got them."""
  for q, f in sorted(ctx.prog.funcs.items()):
    if f.name not in ('svd', 'qr', 'rq', 'eigh', 'eig') or f.parent is not \
        None or f.is_stub():
      continue
    for p in ctx.paths(f, rep=rep)[0] or ():
      v = p.value
      if p.outcome != 'return' or v is None or v.op not in ('tuple', 'list'):
        continue
      pos = []
      for x in v.args[0]:
        at = set()
        for t in walk(x):
          if t.op == 'item' and t.args[1].op == 'const' and isinstance(
              t.args[1].args[0], int):
            src = t.args[0]
            if src.op == 'comp':
              src = src.args[2]
            if src.op == 'call' and src.args[0].op in (
                'attr', 'bound', 'func') and callee_name(src) == f.name and \
                not str(callee_recv(src)).startswith(
                    ('np', 'jnp', 'numpy', 'tf', 'torch', 'jax', 'sp')):
              at.add((src, t.args[1].args[0]))
        pos.append(at)
      if not all(len(a) == 1 for a in pos) or len({list(a)[0][0] for a in
                                                  pos}) != 1:
        continue
      idx = [list(a)[0][1] for a in pos]
      rep.check('factor-order', short(q), idx == sorted(idx), 'the results of '
                '%s are returned in the order %s' % (f.name, idx),
                '%s:%d' % (f.file, f.line))


def where(f, p):
  return '%s:%d' % (f.file, f.line)


def shapes(rep, inst, f, p, fs, piv):
  """The first factor is L + bond, the second bond + R."""
  for k, x, want in ((0, fs[0], 'LD'), (1, fs[1], 'DR')):
    s = seq(x.shape, piv) if x.shape is not None else None
    if s is None:
      rep.undecided('shape', inst, 'shape of factor %d: %s' % (k, x.shape))
      continue
    got = ''.join(y if isinstance(y, str) else 'D' for y in s)
    rep.check('shape', inst, got == want, '%s factor has the shape %s instead '
              'of %s (L leading, D bond, R trailing dimensions)' %
              ('first' if k == 0 else 'second', got, want), where(f, p))


def matrix(rep, inst, f, p, call, piv, adj):
  """The input of the library call is the matrix (or its adjoint)."""
  t = operand(call)
  names = []
  while t is not None:
    t = cast(t)
    if t.op == 'call' and callee_name(t) in ADJ:
      names.append(callee_name(t))
      t = operand(t)
      continue
    if t.op == 'attr' and t.args[1] in ('T', 'H', 'mH', 'mT'):
      names.append(t.args[1])
      t = t.args[0]
      continue
    break
  r = reshape_of(t) if t is not None else None
  if r is None or r[1] is None or r[1].op not in ('list', 'tuple') or \
      len(r[1].args[0]) != 2:
    rep.undecided('shape', inst + ' matrix', 'input of the decomposition')
    return names
  got = ''
  for x in r[1].args[0]:
    x = cast(x)
    if x is const(-1):
      got += '*'
    elif x.op == 'call' and callee_name(x) in ('prod', 'reduce_prod'):
      s = seq(operand(x), piv)
      got += s[0] if s and len(s) == 1 and isinstance(s[0], str) else '?'
    else:
      got += '?'
  if '?' in got:
    rep.undecided('shape', inst + ' matrix', str(r[1]))
  else:
    rep.check('shape', inst + ' matrix', got in ('LR', '*R', 'L*'),
              'the tensor is reshaped to %s instead of leading x trailing '
              'dimensions' % got, where(f, p))
  return names


def parity(names):
  """(transposed, conjugated) by a list of operations."""
  t = sum(1 for n in names if n in ('transpose', 'T', 'adjoint', 'H', 'mH',
                                    'mT', 'swapaxes', 'matrix_transpose')) % 2
  c = sum(1 for n in names if n in ('conj', 'conjugate', 'adjoint', 'H',
                                    'mH')) % 2
  return t, c


def svd(rep, m, f, p):
  inst = m + '.svd'
  vals = p.value.args[0]
  if len(vals) != 4:
    rep.undecided('factors', inst, '%d results' % len(vals))
    return
  piv = P(f, 'pivot_axis')
  fs = [trace_back(v) for v in vals]
  kinds = []
  for x in fs:
    lib = lib_svd(x.base[0]) if x.base else None
    kinds.append(lib.get(x.base[1]) if lib else None)
  if None in kinds:
    rep.undecided('factors', inst, 'origin of %s' % kinds)
    return
  ok = kinds[0] == 'u' and kinds[1] == kinds[3] == 's' and kinds[2] in (
      'v', 'vh') and len({x.base[0] for x in fs}) == 1
  rep.check('factors', inst, ok, 'returns the components %s' % kinds,
            where(f, p))
  if not ok:
    return
  call = fs[0].base[0]
  kw = dict(call.args[2])
  if m == 'numpy':
    rep.check('factors', inst + ' thin', kw.get('full_matrices') is
              const(False), 'the full matrices are computed, so the factors '
              'have more than rank columns', where(f, p))
  elif kw.get('full_matrices') is const(True):
    rep.bad('factors', inst + ' thin', 'full matrices', where(f, p))
  names = matrix(rep, inst, f, p, call, piv, False)
  if names:
    rep.undecided('factors', inst, 'decomposes a transposed matrix')
    return
  tr, cj = parity(fs[2].adj)
  if kinds[2] == 'v':
    rep.check('factors', inst + ' adjoint', tr == 1 and (
        cj == 1 or m == 'pytorch'), 'the library returns v, the result must '
        'be its adjoint (operations: %s)' % fs[2].adj, where(f, p))
  else:
    rep.check('factors', inst + ' adjoint', tr == 0 and cj == 0,
              'the library returns the adjoint already', where(f, p))
  if fs[0].adj or fs[1].adj:
    a = [n for n in fs[0].adj + fs[1].adj]
    rep.check('factors', inst + ' plain', parity(fs[0].adj) == (0, 0),
              'u is returned transposed or conjugated (%s)' % a, where(f, p))
  shapes(rep, inst, f, p, (fs[0], fs[2]), piv)
  # cuts
  bounds = {}
  for k, x, axis, name in ((0, fs[0], 1, 'columns'), (1, fs[1], 0, 'values'),
                           (2, fs[2], 0 if kinds[2] == 'vh' else 1, 'rows'),
                           (3, fs[3], 0, 'rest')):
    # a cut outside the adjoint is on the other axis; only the inner form is
    # recognised
    if len(x.cuts) != 1:
      if not x.cuts:
        rep.bad('same-cut', '%s %s' % (inst, name), 'the %s are not cut' % name,
                where(f, p))
      else:
        rep.undecided('same-cut', '%s %s' % (inst, name), str(x.cuts))
      continue
    ax, lo, hi = x.cuts[0]
    if k == 2 and x.adj and ax != axis and \
        cut_outside(vals[2]):
      axis = 1 - axis
    if ax != axis:
      rep.bad('same-cut', '%s %s' % (inst, name), 'the %s are cut along axis '
              '%d' % (name, ax), where(f, p))
      continue
    if k == 3:
      if hi is not NONE:
        rep.bad('same-cut', '%s %s' % (inst, name), 'the discarded values end '
                'at %s' % hi, where(f, p))
        continue
      bounds[name] = bound_norm(lo)
    else:
      if lo not in (NONE, const(0)):
        rep.bad('same-cut', '%s %s' % (inst, name), 'the kept %s start at %s' %
                (name, lo), where(f, p))
        continue
      bounds[name] = bound_norm(hi)
  if len(bounds) == 4:
    ref = bounds['values']
    for name, b in sorted(bounds.items()):
      rep.check('same-cut', '%s %s' % (inst, name), b is ref, 'the %s are cut '
                'at %s, the values at %s' % (name, str(b)[:60], str(ref)[:60]),
                where(f, p))
    keep(rep, inst, f, p, ref, call)


def cut_outside(t):
  """The slice is applied outside the adjoint."""
  t = cast(t)
  r = reshape_of(t)
  if r:
    t = cast(r[0])
  return t.op == 'item'


def keep(rep, inst, f, p, K, call):
  nf = none_facts(p)
  msv, mte = P(f, 'max_singular_values'), P(f, 'max_truncation_error')
  n = callee_name(K) if K.op == 'call' else None
  if n in ('max', 'maximum', 'amax'):
    rep.bad('keep', inst, 'the larger of the limits is used', where(f, p))
    return
  ment = set(walk(K))
  for t, name in ((msv, 'max_singular_values'), (mte, 'max_truncation_error')):
    if nf.get(t) is False:
      rep.check('keep', '%s %s' % (inst, name), t in ment, 'the number kept '
                'does not depend on the given %s' % name, where(f, p))
  if nf.get(msv) is False and nf.get(mte) is False:
    if n in ('min', 'minimum'):
      a = operand(K) if n == 'minimum' else None
      parts = [x for x in K.args[1]]
      if len(parts) == 1 and parts[0].op in ('list', 'tuple'):
        parts = list(parts[0].args[0])
      has = [{x for x in (msv, mte) if x in set(walk(y))} for y in parts]
      rep.check('keep', inst + ' both', {msv} in has and
                any(mte in h for h in has), 'the minimum is over %s' %
                str(K)[:80], where(f, p))
      del a
    elif K.op == 'bin':
      rep.bad('keep', inst + ' both', 'the number kept is %s' % str(K)[:80],
              where(f, p))
    else:
      rep.undecided('keep', inst + ' both', str(K)[:80])
  if mte not in ment:
    return
  cmps = [x for x in ment if x.op == 'cmp' and x.args[0] in ('lt', 'le') and
          any(y is mte for y in walk(x))]
  if len(cmps) != 1:
    rep.undecided('error', inst, '%d comparisons with the limit' % len(cmps))
    return
  c = cmps[0]
  side = [any(callee_name(y) == 'cumsum' for y in walk(x) if y.op == 'call')
          for x in c.args[1:]]
  if side == [False, True]:
    rep.check('error', inst + ' strict', c.args[0] == 'lt', 'a value whose '
              'removal exactly meets the limit is kept', where(f, p))
    bound, errs = c.args[1], c.args[2]
  elif side == [True, False]:
    if any(x.op == 'bin' and x.args[0] == 'Sub' for x in ment) or any(
        x.op == 'not' for x in ment):
      rep.undecided('error', inst, str(c)[:80])
      return
    rep.bad('error', inst + ' strict', 'the discarded values are counted',
            where(f, p))
    return
  else:
    rep.undecided('error', inst, 'no cumulated sum')
    return
  calls = {callee_name(x) for x in walk(errs) if x.op == 'call'}

  def squared(t):
    return any((x.op == 'call' and callee_name(x) == 'square') or
               (x.op == 'call' and callee_name(x) in ('pow', 'power') and
                const(2) in x.args[1]) or
               (x.op == 'bin' and x.args[0] == 'Pow' and
                x.args[2] in (const(2), const(2.0))) or
               (x.op == 'bin' and x.args[0] == 'Mult' and
                x.args[1] is x.args[2]) for x in walk(t))
  root = bool(calls & {'sqrt'}) or any(
      x.op == 'bin' and x.args[0] == 'Pow' and x.args[2] is const(0.5)
      for x in walk(errs))
  sq = squared(errs)
  if root and sq and not squared(bound):
    rep.ok('error', inst + ' norm')
  elif squared(bound) and sq and not root:
    rep.undecided('error', inst, 'squares are compared')
  else:
    rep.bad('error', inst + ' norm', 'the limit is compared with %s' %
            ('sums of values' if not sq else 'sums of squares without the root'
             if not root else 'another norm'), where(f, p))
  flips = sum(1 for x in walk(errs) if
              (x.op == 'slice' and len(x.args) == 3 and
               str(x.args[2]) in ('-1', 'USub1')) or
              (x.op == 'call' and callee_name(x) in ('flip', 'flipud',
                                                     'reverse')))
  flips += sum(1 for x in walk(errs) if x.op == 'call' and
               dict(x.args[2]).get('reverse') is const(True))
  sort = [x for x in walk(errs) if x.op == 'call' and
          callee_name(x) in ('sort', 'sorted')]
  if sort and not flips:
    rep.check('error', inst + ' smallest-first', not any(
        k in ('descending', 'reverse') and v is const(True)
        for x in sort for k, v in x.args[2]), 'the largest values are '
        'cumulated first', where(f, p))
  elif sort:
    rep.undecided('error', inst + ' smallest-first', str(errs)[:80])
  else:
    rep.check('error', inst + ' smallest-first', flips % 2 == 1,
              'the largest values are cumulated first', where(f, p))
  rel = P(f, 'relative') if 'relative' in f.all_params() else None
  val = dict((t, v) for t, v in facts(p)).get(rel) if rel is not None else None
  dep = any(x is call for x in walk(bound))
  if val is True:
    if not dep:
      rep.bad('relative', inst, 'a relative limit is not scaled by the largest '
              'singular value', where(f, p))
    else:
      ix = [x for x in walk(bound) if x.op == 'item' and
            trace_back(x.args[0]).base is not None and
            trace_back(x.args[0]).base[0] is call and
            isinstance(x.args[1], T) and x.args[1].op in ('const', 'un')]
      rep.check('relative', inst, all(x.args[1] is const(0) for x in ix) and
                any(y.op == 'bin' and y.args[0] == 'Mult'
                    for y in walk(bound)), 'a relative limit is %s' %
                str(bound)[:80], where(f, p))
  elif val is False:
    rep.check('relative', inst, not dep, 'an absolute limit is scaled by the '
              'singular values', where(f, p))
  elif bound.op not in ('ite',) and rel is not None and not any(
      x is rel for x in walk(bound)):
    rep.bad('relative', inst, 'relative is not consulted', where(f, p))


def orth(rep, m, f, p):
  n = f.name
  inst = '%s.%s' % (m, n)
  vals = p.value.args[0]
  if len(vals) != 2:
    rep.undecided('factors', inst, '%d results' % len(vals))
    return
  piv = P(f, 'pivot_axis')
  fs = [trace_back(v) for v in vals]
  if any(x.base is None or callee_name(x.base[0]) not in ('qr', 'rq')
         for x in fs) or fs[0].base[0] is not fs[1].base[0]:
    rep.undecided('factors', inst, 'origin of the factors')
    return
  call = fs[0].base[0]
  names = matrix(rep, inst, f, p, call, piv, n == 'rq')
  it, ic = parity(names)
  order = [x.base[1] for x in fs]
  want = [1, 0] if it else [0, 1]
  rep.check('factors', inst + ' order', order == want, 'the factors are '
            'returned in the order %s' % order, where(f, p))
  for k, x in enumerate(fs):
    t, c = parity(x.adj)
    rep.check('factors', '%s adjoint %d' % (inst, k), (t, c) == (it, ic),
              'the matrix is decomposed %s but factor %d is %s' %
              (_say(it, ic), k, _say(t, c)), where(f, p))
  shapes(rep, inst, f, p, fs, piv)
  val = dict(facts(p)).get(P(f, 'non_negative_diagonal')) if \
      'non_negative_diagonal' in f.all_params() else None
  ph = [bool(x.mults) for x in fs]
  if val is True:
    rep.check('phases', inst, all(ph), 'a non-negative diagonal is asked for '
              'but %s' % ('no signs are applied' if not any(ph) else
                          'only one factor is multiplied by the signs'),
              where(f, p))
  elif val is False:
    rep.check('phases', inst + ' plain', not any(ph), 'signs are applied '
              'although not asked for', where(f, p))
  elif ph[0] != ph[1]:
    rep.bad('phases', inst, 'only one factor is multiplied by the signs',
            where(f, p))
  for x in fs:
    for y in x.mults:
      y = cast(y)
      while True:
        if y.op == 'item' or (y.op == 'call' and callee_name(y) in (
            'conj', 'conjugate', 'reshape', 'expand_dims', 'unsqueeze')):
          y = cast(y.args[0] if y.op == 'item' else operand(y))
          continue
        break
      if y.op == 'call' and callee_name(y) in ('sign', 'sgn'):
        rep.bad('phases', inst + ' zero', 'a zero on the diagonal has the sign '
                'zero, which erases a column of q', where(f, p))
      else:
        rep.ok('phases', inst + ' zero')


def _say(t, c):
  return {(0, 0): 'as it is', (1, 0): 'transposed', (0, 1): 'conjugated',
          (1, 1): 'adjoint'}[(t, c)]
