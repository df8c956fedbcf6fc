"""Range guards at their boundaries. For every entry point that documents a
range for a site, axis, slice or size argument, the case of the first value
below, the first value above and the extreme values inside the range is folded
through the branch facts of every path (conditional constant propagation): an
outside value may leave no path that ends normally, an inside value may not
decide a raise, nor make the path index its sequence out of range."""
from ..terms import T, mk, walk, NONE
from ..lib import short, facts, P, attr, callee_name, callee_recv
from ..guards import Env, UNK, Some, reject, accept, status

ASSUMPTIONS = ['sizes are folded for a chain of %d sites / a rank-%d tensor; '
               'the guards compare with the length only' % (5, 3)]
N = 5
RANK = 3
SEQ = {'tensors', '_tensors', 'mps', 'mpo', 'self'}
PER_SITE = {'tensors', '_tensors'}


class Vec:
  """An array of representative elements."""

  def __init__(self, *v):
    self.v = v

  def __bool__(self):
    return True

  @property
  def one(self):
    return self.v[0] if len(set(self.v)) == 1 else UNK


def _each(f, a, b):
  """f elementwise; a single element stands for arrays of every length."""
  x = a.v if isinstance(a, Vec) else (a,)
  y = b.v if isinstance(b, Vec) else (b,)
  n = max(len(x), len(y))
  x, y = (w * n if len(w) == 1 else w for w in (x, y))
  return Vec(*(f(p, q) for p, q in zip(x, y)))


for _n, _f in (('lt', lambda a, b: a < b), ('le', lambda a, b: a <= b),
               ('gt', lambda a, b: a > b), ('ge', lambda a, b: a >= b),
               ('eq', lambda a, b: a == b), ('ne', lambda a, b: a != b),
               ('add', lambda a, b: a + b), ('sub', lambda a, b: a - b),
               ('radd', lambda a, b: b + a), ('mod', lambda a, b: a % b)):
  setattr(Vec, '__%s__' % _n,
          lambda self, o, _f=_f: _each(_f, self, o))
Vec.__hash__ = object.__hash__


def AND(a, b):
  return a and b


def OR(a, b):
  return a or b


def chain(t):
  """The names of an attribute chain rooted at a parameter."""
  names = []
  while t.op == 'attr':
    names.append(t.args[1])
    t = t.args[0]
  if t.op == 'param':
    return [t.args[1]] + names[::-1]
  return None


def base_rule(e, t):
  if t.op == 'call':
    n, r, pos = callee_name(t), callee_recv(t), t.args[1]
    if n in ('len', '__len__'):
      x = pos[0] if pos else r
      if x is None:
        return UNK
      c = chain(x)
      if c and c[-1] in SEQ and x not in e.vals:
        return N
      if c and c[-1] in ('shape', 'edges') and x not in e.vals and \
          c[0] == 'self':
        return RANK
      v = e.ev(x)
      if isinstance(v, Vec):
        return 1
      return UNK
    if n in ('shape_tuple',) and pos and chain(pos[0]):
      return UNK
    if n in ('array', 'asarray', 'list', 'tuple', 'sorted', 'unique', 'sort',
             'astype', 'ravel', 'atleast_1d', 'fromiter', 'set') and (
                 pos or r is not None):
      v = e.ev(pos[0] if pos else r)
      return v if isinstance(v, Vec) else UNK
    if n in ('all', 'any', 'max', 'min', 'amax', 'amin'):
      x = pos[0] if pos else r
      if x is None or len(pos) > 1:
        return UNK
      if x.op == 'comp' and n in ('all', 'any'):
        if x.args[3]:
          return UNK
        return e.truth(x.args[1]) if isinstance(x.args[1], T) else UNK
      v = e.ev(x)
      if isinstance(v, Vec):
        return {'all': all, 'any': any, 'max': max, 'amax': max, 'min': min,
                'amin': min}[n](v.v)
      if isinstance(v, bool) and n in ('all', 'any'):
        return v
      if isinstance(v, int) and not isinstance(v, bool) and n not in (
          'all', 'any'):
        return v
      return UNK
    if n == 'get_axis_number' and pos:
      return e.ev(pos[0])
    if n == 'get_axis_number':
      kw = dict(t.args[2])
      return e.ev(kw['axis']) if 'axis' in kw else UNK
    if n in ('logical_not',) and len(pos) == 1:
      v = e.ev(pos[0])
      return Vec(*(not x for x in v.v)) if isinstance(v, Vec) else UNK
    if n in ('logical_and', 'logical_or') and len(pos) == 2:
      a, b = e.ev(pos[0]), e.ev(pos[1])
      if isinstance(a, Vec) and isinstance(b, Vec):
        return _each(AND if n == 'logical_and' else OR, a, b)
      return UNK
    if n == 'isinstance' and len(pos) == 2:
      v = e.ev(pos[0])
      tys = pos[1].args[0] if pos[1].op in ('tuple', 'list') else (pos[1],)
      if isinstance(v, (int, tuple, float)) and all(
          str(x).split('.')[-1] in ('int', 'integer', 'Integral')
          for x in tys):
        return isinstance(v, int)
      return UNK
    if n in ('int', 'np.int64') and len(pos) == 1:
      return e.ev(pos[0])
  if t.op in ('elem',):
    v = e.ev(t.args[0])
    return v.one if isinstance(v, Vec) else UNK
  if t.op == 'bin' and t.args[0] in ('BitAnd', 'BitOr'):
    a, b = e.ev(t.args[1]), e.ev(t.args[2])
    if isinstance(a, Vec) and isinstance(b, Vec):
      return _each(AND if t.args[0] == 'BitAnd' else OR, a, b)
  if t.op == 'attr' and t.args[1] == 'ndim':
    s = mk('attr', t.args[0], 'shape')
    v = e.ev(s)
    if isinstance(v, tuple):
      return len(v)
    c = chain(t)
    if c and c[0] == 'self' and len(c) == 2:
      return RANK
  return UNK


def cases(site, lo=0, hi=N - 1, extra_bad=(), extra_good=()):
  bad = [{site: lo - 1}, {site: hi + 1}] + [{site: v} for v in extra_bad]
  good = [{site: lo}, {site: hi}] + [{site: v} for v in extra_good]
  return bad, good


MPS = 'matrixproductstates.base_mps.BaseMPS.'
FMPS = 'matrixproductstates.finite_mps.FiniteMPS.'
NODE = 'network_components.AbstractNode.'


def vec(d):
  return [{k: Vec(v) for k, v in c.items()} for c in d]


def table():
  """(function, fixed context, bad cases, good cases, indexes sites)."""
  out = []
  b, g = cases('center_position')
  out.append((MPS + '__init__', {}, b, g))
  b, g = cases('site')
  out.append((MPS + 'position', {'max_truncation_err': None, 'D': None,
                                 'self.center_position': 2}, b, g))
  out.append((MPS + 'position',
              {'site': 1, 'self.center_position': 2, 'D': None},
              [{'max_truncation_err': 1.0}, {'max_truncation_err': -1e-9}],
              [{'max_truncation_err': 0.0}, {'max_truncation_err': 0.99}]))
  out.append((MPS + 'get_tensor', {}, b, g))
  out.append((MPS + 'apply_one_site_gate', {'gate.shape': (2, 2)}, b, g))
  out.append((MPS + 'apply_one_site_gate', {'site': 1},
              [{'gate.shape': (2,)}, {'gate.shape': (2, 2, 2)}],
              [{'gate.shape': (2, 2)}]))
  out.append((MPS + 'apply_two_site_gate',
              {'gate.shape': (2, 2, 2, 2), 'max_singular_values': None,
               'max_truncation_err': None, 'center_position': None},
              [{'site1': -1, 'site2': 0}, {'site1': N - 1, 'site2': N},
               {'site1': 1, 'site2': 1}, {'site1': 2, 'site2': 1},
               {'site1': 0, 'site2': 2}, {'site1': 0, 'site2': 0},
               {'site1': -1, 'site2': -1}, {'site1': N, 'site2': N + 1}],
              [{'site1': 0, 'site2': 1}, {'site1': N - 2, 'site2': N - 1}]))
  out.append((MPS + 'apply_two_site_gate', {'site1': 1, 'site2': 2},
              [{'gate.shape': (2, 2, 2)}, {'gate.shape': (2,) * 5}],
              []))
  out.append((MPS + 'apply_two_site_gate',
              {'site1': 1, 'site2': 2, 'gate.shape': (2, 2, 2, 2),
               'max_singular_values': None, 'max_truncation_err': None,
               'self.center_position': 1},
              [{'center_position': 0}, {'center_position': 3}],
              [{'center_position': 1}, {'center_position': 2}]))
  for t in ('max_singular_values', 'max_truncation_err'):
    fixed = {'site1': 1, 'site2': 2, 'gate.shape': (2, 2, 2, 2),
             'center_position': None, 'max_singular_values': None,
             'max_truncation_err': None}
    fixed[t] = 3 if t[4] == 's' else 0.5
    out.append((MPS + 'apply_two_site_gate', fixed,
                [{'self.center_position': c} for c in (0, 3, None)],
                [{'self.center_position': c} for c in (1, 2)]))
  out.append((MPS + 'bond_dimension', {}, [{'bond': N + 1}],
              [{'bond': 0}, {'bond': N}, {'bond': N - 1}]))
  out.append((MPS + 'measure_two_body_correlator', {}, [{'site1': -1}],
              [{'site1': 0}, {'site1': N - 1}]))
  out.append((MPS + 'measure_local_operator', {},
              [{'ops': (1, 2), 'sites': (0,)}, {'ops': (1,), 'sites': (0, 1)}],
              [{'ops': (1, 2), 'sites': (0, 1)}]))
  b, g = cases('sites', 0, N)
  b2 = [{'sites': Vec(0, -1)}, {'sites': Vec(N + 1, N)}]
  out.append((FMPS + 'left_envs', {}, vec(b) + b2, vec(g)))
  b, g = cases('sites', -1, N - 1)
  b2 = [{'sites': Vec(0, -2)}, {'sites': Vec(N, 0)}]
  out.append((FMPS + 'right_envs', {}, vec(b) + b2, vec(g)))
  out.append((FMPS + 'random', {'d': (2,) * 4},
              [{'D': (2,) * 2}, {'D': (2,) * 4}], [{'D': (2,) * 3}]))
  out.append(('matrixproductstates.infinite_mps.InfiniteMPS.random',
              {'d': (2,) * 3}, [{'D': (2,) * 2}, {'D': (2,) * 3},
                                {'D': (2,) * 5}, {'D': (2, 2, 2, 3)},
                                {'D': (3, 2, 2, 2)}],
              [{'D': (2,) * 4}, {'D': (3, 2, 2, 3)}]))
  b, g = cases('site')
  out.append(('matrixproductstates.dmrg.BaseDMRG.position', {}, b, g))
  b, g = cases('axis', 0, RANK - 1)
  out.append((NODE + 'add_edge', {'override': True}, b, g))
  out.append((NODE + 'get_dimension', {}, b, g))
  D = 6
  out.append(('network_components.slice_edge', {'edge.dimension': D},
              [{'start_index': s, 'length': n} for s, n in
               ((0, 0), (0, -1), (0, D + 1), (D, 1), (D - 1, 2), (-1, 2),
                (-2, 3), (-D, D + 1), (-D - 1, 1), (-D - 1, D + 1))],
              [{'start_index': s, 'length': n} for s, n in
               ((0, 1), (0, D), (D - 1, 1), (-1, 1), (-2, 2), (-D, D),
                (-D, 1))]))
  out.append(('block_sparse.charge.ZNCharge', {}, [{'n': 1}, {'n': 0}],
              [{'n': 2}, {'n': 3}]))
  for be, cl in (('numpy', 'NumPy'), ('jax', 'Jax'),
                 ('tensorflow', 'TensorFlow'), ('pytorch', 'PyTorch'),
                 ('symmetric', 'Symmetric')):
    q = 'backends.%s.%s_backend.%sBackend.' % (be, be, cl)
    out.append((q + 'inv', {}, [{'matrix.shape': (2, 2, 2)}],
                [{'matrix.shape': (2, 2)}]))
    out.append((q + 'matmul', {},
                [{'tensor1.shape': (2,), 'tensor2.shape': (2, 2)},
                 {'tensor1.shape': (2, 2), 'tensor2.shape': (2,)}],
                [{'tensor1.shape': (2, 2), 'tensor2.shape': (2, 2)}]))
  bt = 'block_sparse.blocksparsetensor.'
  out.append((bt + 'ChargeArray.transpose', {},
              [{'order': (0,) * (RANK - 1)}, {'order': (0,) * (RANK + 1)}],
              [{'order': (2, 0, 1)}]))
  sh = {'tensor1.shape': (2, 2, 2), 'tensor2.shape': (2, 2)}
  out.append((bt + 'tensordot', sh,
              [{'axes': ((3,), (0,))}, {'axes': ((0,), (2,))},
               {'axes': ((0, 1), (0,))}, {'axes': ((0,), (0, 1))},
               {'axes': ((0, 1, 2), (0, 1, 2))}],
              [{'axes': ((2,), (1,))}, {'axes': ((0, 1), (0, 1))}]))
  out.append(('block_sparse.linalg.diag', {}, [{'tensor.shape': (2,) * 3}],
              [{'tensor.shape': (2,)}]))
  out.append(('backends.abstract_backend.AbstractBackend.pivot', {
      }, [{'pivot_axis': RANK + 1}], [{'pivot_axis': RANK},
                                      {'pivot_axis': 1},
                                      {'pivot_axis': -1}]))
  return out


def term(f, name):
  parts = name.split('.')
  t = P(f, parts[0])
  for a in parts[1:]:
    t = attr(t, a)
  return t


def env_of(f, fixed, case, extra=()):
  vals = {}
  for k, v in list(fixed.items()) + list(case.items()):
    if k.split('.')[0] in f.all_params():
      vals[term(f, k)] = v
      if k.endswith('.shape'):
        vals[attr(term(f, k[:-6]), 'ndim')] = len(v)
  return Env(vals, [base_rule] + list(extra))


def pivot_rule(e, t):
  if t.op == 'call' and callee_name(t) == 'len' and t.args[1] and \
      callee_name(t.args[1][0]) == 'shape_tuple':
    return RANK
  return UNK


def show(c):
  return ', '.join('%s=%s' % (k, v.v[0] if isinstance(v, Vec) and len(v.v) == 1 else v.v if
                   isinstance(v, Vec) else v)
                   for k, v in sorted(c.items()))


def run(ctx, rep):
  rep.rule('outside', 'the first value outside a documented range is refused')
  rep.rule('inside', 'the extreme values inside a documented range are not '
           'refused')
  rep.rule('index', 'an accepted site indexes inside the chain')
  rep.rule('wraps', 'only an index that counts from the end is increased by '
           'the number of axes')
  for q, fixed, bad, good in table():
    f = ctx.prog.funcs.get('tensornetwork.' + q)
    need = {k.split('.')[0] for c in bad + good + [fixed] for k in c}
    if f is None or not need <= set(f.all_params()):
      rep.undecided('outside', q, 'anchor missing')
      continue
    ps, _ = ctx.paths(f, rep=rep)
    if not ps:
      continue
    if not any(p.outcome != 'raise' for p in ps):
      continue
    rep.saw(f)
    extra = [pivot_rule] if q.endswith('.pivot') else []
    for c in bad:
      reject(rep, 'outside', '%s %s' % (short(f.qual), show(c)), f, ps,
             env_of(f, fixed, c, extra), show(c))
    for c in good:
      e = env_of(f, fixed, c, extra)
      inst = '%s %s' % (short(f.qual), show(c))
      accept(rep, 'inside', inst, f, ps, e, show(c))
      index(rep, inst, f, ps, e, show(c))
  wraps(ctx, rep)
  rep.floor('outside', 30)
  rep.floor('inside', 30)


def is_size(t):
  return t.op == 'call' and callee_name(t) == 'len' or \
      t.op == 'attr' and t.args[1] == 'ndim'


def wraps(ctx, rep):
  for f, ps in ctx.scan():
    if ctx.is_new(f):
      continue
    ts = set()
    for p in ps:
      sign = {}
      for t, v in facts(p):
        if t.op == 'cmp' and t.args[0] in ('lt', 'ge') and \
            t.args[1].op == 'param' and t.args[1].args[0] == f.qual and \
            t.args[2].op == 'const' and t.args[2].args[0] == 0:
          sign[t.args[1]] = (t.args[0] == 'lt') == v
      if not sign or p.outcome == 'raise':
        continue
      seen = set()
      modulo = set()
      for e in p.events:
        if e.kind == 'fact':
          continue
        for a in (e.recv, e.value, e.key, e.res) + tuple(e.pos or ()):
          if not isinstance(a, T):
            continue
          for x in walk(a, seen):
            if x.op == 'bin' and x.args[0] == 'Mod':
              modulo.add(x.args[1])
            if x.op != 'bin' or x.args[0] != 'Add' or x in modulo:
              continue
            for y, n in ((x.args[1], x.args[2]), (x.args[2], x.args[1])):
              if y in sign and is_size(n) and (x, sign[y]) not in ts:
                ts.add((x, sign[y]))
                rep.check('wraps', '%s %s' % (short(f.qual), y.args[1]),
                          sign[y], '%s is increased by the number of axes '
                          'although it is not negative' % y.args[1], e.loc)


def index(rep, inst, f, ps, env, what):
  hit = None
  seen = False
  for p in ps:
    if p.outcome == 'raise' or status(p, env)[0] != 'yes':
      continue
    ts = [p.value] + [x for e in p.events if e.kind == 'call'
                      for x in list(e.pos or ()) +
                      [v for _, v in e.kw or ()] + [e.recv]]
    for t in ts:
      if not isinstance(t, T):
        continue
      for x in walk(t):
        if x.op == 'item' and x.args[0].op in ('attr', 'param') and \
            isinstance(x.args[1], T) and x.args[1].op != 'slice':
          c = chain(x.args[0])
          if not c or c[-1] not in PER_SITE or c[0] != 'self':
            continue
          i = env.ev(x.args[1])
          if isinstance(i, int) and not isinstance(i, bool):
            seen = True
            if not -N <= i < N:
              hit = (x, p)
  if hit:
    rep.bad('index', inst, '%s is accepted but entry %d of a chain of length '
            'is read' % (what, env.ev(hit[0].args[1])),
            hit[1].loc if hasattr(hit[1], 'loc') else f.file)
  elif seen:
    rep.ok('index', inst)
