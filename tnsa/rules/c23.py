"""Selector arguments. A parameter that is tested against named alternatives
(or against a table of names) is a selector; with the value fixed to one that is
none of them, no path may end normally unless it hands the value on to code
that refuses it. Private functions that leave the check to their callers are
only called with one of the alternatives. The documented spellings of an
alternative select the same paths and are not refused."""
import ast

from ..terms import T, mk, walk, NONE
from ..lib import short, P, callee_name, callee_recv, facts
from ..guards import Env, UNK, Some, reject, accept, status, path_facts, \
    guard_facts

ASSUMPTIONS = [
    'a value handed on to a function of another library is checked there',
]
# function, parameter: (accepted, refused)
SIDES = (('l', 'left', 'r', 'right'), ('zz?', '', 'up'))
DIRS = ((1, 'l', 'left', -1, 'r', 'right'), ('zz?', 0, 2, -2, 'up'))
KNOWN = {
    ('matrixproductstates.base_mps.BaseMPS.apply_transfer_operator',
     'direction'): DIRS,
    ('matrixproductstates.infinite_mps.InfiniteMPS.'
     'unit_cell_transfer_operator', 'direction'): DIRS,
    ('matrixproductstates.base_mps.BaseMPS.check_orthonormality', 'which'):
        SIDES,
    ('block_sparse.linalg.qr', 'mode'):
        (('reduced', 'r', 'complete'), ('zz?', 'raw', 'economic')),
    ('contractors.opt_einsum_paths.path_contractors.path_solver',
     'algorithm'): (('optimal', 'branch', 'greedy', 'auto'), ('zz?', 'best')),
    ('tn_keras.conv2d_mpo.Conv2DMPO.__init__', 'padding'):
        (('same', 'valid'), ('zz?', 'causal', 'full')),
    ('tn_keras.conv2d_mpo.Conv2DMPO.__init__', 'data_format'):
        (('channels_first', 'channels_last'), ('zz?', 'channels')),
    ('backends.pytorch.pytorch_backend.PyTorchBackend.trace', 'offset'):
        ((0,), (1, -1)),
    ('backends.tensorflow.tensorflow_backend.TensorFlowBackend.trace',
     'offset'): ((0,), (1, -1)),
    ('backends.tensorflow.tensorflow_backend.TensorFlowBackend.diagonal',
     'axis1'): ((-2,), (0, -1)),
    ('backends.tensorflow.tensorflow_backend.TensorFlowBackend.diagonal',
     'axis2'): ((-1,), (0, 1)),
    ('backends.symmetric.symmetric_backend.SymmetricBackend.trace', 'offset'):
        ((0,), (1, -1)),
    ('backends.symmetric.symmetric_backend.SymmetricBackend.diagonal',
     'offset'): ((0,), (1, -1)),
    ('backends.symmetric.symmetric_backend.SymmetricBackend.diagonal',
     'axis1'): ((-2,), (0, -1)),
    ('backends.symmetric.symmetric_backend.SymmetricBackend.diagonal',
     'axis2'): ((-1,), (0, 1)),
    ('backends.symmetric.symmetric_backend.SymmetricBackend.diagflat', 'k'):
        ((0,), (1, -1)),
    ('block_sparse.charge.Z2Charge.random', 'minval'): ((0,), (1, -1)),
    ('block_sparse.charge.Z2Charge.random', 'maxval'): ((1,), (0, 2)),
    ('block_sparse.utils.intersect', 'axis'): ((0, 1), (2, -1)),
    ('backends.backend_factory.get_backend', 'backend'): ((), ('zz?', '')),
    ('backend_contextmanager.set_default_backend', 'backend'):
        ((), ('zz?', '')),
    ('component_factory.get_component', 'name'): ((), ('zz?', '')),
}
SYNONYMS = (('l', 'left'), ('r', 'right'))
INT_SYNONYMS = ((1, 'left'), (-1, 'right'))
STRS = ('isinstance',)


def table_rule(ctx):
  """A name that is not in a module-level table; a str is a str."""

  def rule(e, t):
    if t.op == 'cmp' and t.args[0] == 'in' and t.args[2].op in (
        'global', 'attr', 'func', 'ext') and _is_table(ctx, t.args[2]):
      v = e.ev(t.args[1])
      if isinstance(v, str) and v in ('zz?', ''):
        return False
    r = text(e, t)
    if r is not UNK:
      return r
    if t.op == 'call' and callee_name(t) == 'isinstance' and \
        len(t.args[1]) == 2:
      v = e.ev(t.args[1][0])
      if v is UNK or isinstance(v, Some):
        return UNK
      tys = t.args[1][1]
      names = {_last(x) for x in (tys.args[0] if tys.op in ('tuple', 'list')
                                  else (tys,))}
      if isinstance(v, str):
        return bool(names & {'str', 'Text'})
      if isinstance(v, int):
        return bool(names & {'int', 'integer', 'Integral', 'Number'})
    return UNK

  return rule


def text(e, t):
  """Methods and parts of a known string."""
  if t.op == 'call':
    n, r = callee_name(t), callee_recv(t)
    if n == 'str' and r is None and len(t.args[1]) == 1:
      v = e.ev(t.args[1][0])
      return v if isinstance(v, str) else UNK
    if n in ('startswith', 'endswith', 'lower', 'upper', 'strip', 'casefold',
             'title', 'capitalize', 'isupper', 'islower', 'count', 'find'
            ) and r is not None and not t.args[2]:
      v = e.ev(r)
      xs = [e.ev(x) for x in t.args[1]]
      if isinstance(v, str) and all(isinstance(x, (str, tuple)) for x in xs):
        return getattr(v, n)(*xs)
  if t.op == 'item':
    v, k = e.ev(t.args[0]), t.args[1]
    if isinstance(v, str):
      try:
        if k.op == 'const':
          return v[k.args[0]]
        if k.op == 'slice' and all(x.op == 'const' for x in k.args):
          return v[slice(*[x.args[0] for x in k.args])]
      except (IndexError, TypeError):
        return UNK
  return UNK


def _last(t):
  for x in (t.args[1] if t.op == 'attr' else t.args[0],):
    return x.split('.')[-1] if isinstance(x, str) else None


def _is_table(ctx, t):
  return 'BACKEND' in str(t).upper() or 'COMPONENT' in str(t).upper()


def lowered(t):
  while t.op == 'call' and callee_name(t) in ('lower', 'upper', 'strip',
                                              'str') and \
      callee_recv(t) is not None:
    t = callee_recv(t)
  return t


def selectors(f, ps):
  """{param term: set of constant alternatives} tested on the paths of f."""
  out = {}
  for p in ps:
    for e in p.events:
      if e.kind != 'fact':
        continue
      for x in walk(e.value):
        if x.op != 'cmp' or x.args[0] not in ('eq', 'in'):
          continue
        l, r = x.args[1], x.args[2]
        for a, b in ((l, r), (r, l)):
          a = lowered(a)
          if a.op != 'param' or a.args[0] != f.qual:
            continue
          if x.args[0] == 'eq' and b.op == 'const' and \
              isinstance(b.args[0], str):
            out.setdefault(a, set()).add(b.args[0])
          elif x.args[0] == 'in' and b is r and b.op in ('tuple', 'list',
                                                         'set'):
            vs = [y.args[0] for y in b.args[0] if y.op == 'const']
            if any(isinstance(v, str) for v in vs):
              out.setdefault(a, set()).update(vs)
  return out


def run(ctx, rep):
  rep.rule('refused', 'an undocumented value leaves no path that ends normally '
           'unless it is handed on to code that refuses it')
  rep.rule('accepted', 'the documented values are not refused')
  rep.rule('callers', 'a selector that is left to the callers is only given '
           'its alternatives')
  rep.rule('synonyms', 'the spellings of one alternative select the same paths')
  rule = table_rule(ctx)
  found = {}
  for f, ps in ctx.scan(rep=rep):
    sel = selectors(f, ps)
    if sel:
      found[f.qual] = (f, ps, sel)
  for (q, name), (good, bad) in sorted(KNOWN.items()):
    q = 'tensornetwork.' + q
    f = ctx.prog.funcs.get(q)
    if f is None or name not in f.user_params():
      rep.undecided('refused', short(q), 'anchor missing')
      continue
    ps, _ = ctx.paths(f, rep=rep)
    if not ps:
      continue
    # misspellings of an alternative are none of them
    bad += tuple(w for v in good if isinstance(v, str) and len(v) > 2
                 for w in (v + 'x', v[:-1], v[0] + v) if w not in good)
    for v in bad:
      refuse(ctx, rep, f, ps, P(f, name), v, rule)
    for v in good:
      e = Env({P(f, name): v}, [rule])
      accept(rep, 'accepted', '%s %s=%r' % (short(q), name, v), f, ps, e,
             '%s=%r' % (name, v))
  open_ = {}
  for q, (f, ps, sel) in sorted(found.items()):
    for a, alts in sorted(sel.items(), key=str):
      name = a.args[1]
      if (short(q), name) in KNOWN:
        pass
      elif len([x for x in alts if isinstance(x, str)]) >= 1 and \
          positive(f, ps, a, alts):
        if f.name.startswith('_') and not f.name.startswith('__'):
          open_[q] = (f, a, alts, leaks(ctx, f, ps, a, rule))
        else:
          refuse(ctx, rep, f, ps, a, 'zz?', rule, True)
      synonyms(rep, f, ps, a, alts, rule)
  callers(ctx, rep, open_)
  rep.floor('refused', 20)
  rep.floor('accepted', 20)


def positive(f, ps, a, alts):
  """Some alternative ends normally (the test is not only an exclusion)."""
  strs = [x for x in alts if isinstance(x, str)]
  for v in strs:
    if any(p.outcome != 'raise' and status(p, Env({a: v}))[0] != 'no'
           for p in ps):
      return True
  return False


def leaks(ctx, f, ps, a, rule):
  env = Env({a: 'zz?'}, [rule])
  return any(p.outcome != 'raise' and status(p, env)[0] == 'yes' for p in ps)


def refuse(ctx, rep, f, ps, a, v, rule, foreign=False):
  env = Env({a: v}, [rule])
  inst = '%s %s=%r' % (short(f.qual), a.args[1], v)
  left = []
  for p in ps:
    if p.outcome == 'raise' or status(p, env)[0] == 'no':
      continue
    if hands_on(ctx, p, a, v, rule, 0, foreign):
      continue
    left.append(p)
  if not left:
    rep.ok('refused', inst)
    return
  reject(rep, 'refused', inst, f,
         left + [p for p in ps if p.outcome == 'raise'], env,
         '%s=%r' % (a.args[1], v))


def hands_on(ctx, p, a, v, rule, depth, foreign=True):
  """The value reaches a callee that refuses it (or foreign code)."""
  for e in p.events:
    if e.kind != 'call':
      continue
    vals = list(e.pos or ()) + [x for _, x in e.kw or ()]
    if e.bound is None:
      if foreign and e.name not in ('isinstance', 'print', 'len', 'str', 'format', 'repr',
                        'type') and e.name and any(
                            x is a or any(y.op == 'closure' for y in walk(x))
                            for x in vals if isinstance(x, T)):
        return True
      continue
    for n, x in e.bound.items():
      if not isinstance(x, T):
        continue
      if x.op == 'closure':
        return True
      if lowered(x) is a and depth < 3 and e.qual:
        g = ctx.prog.funcs.get(e.qual)
        if g is None or n not in g.user_params():
          return True
        qs, _ = ctx.paths(g)
        if qs is None:
          return True
        b = P(g, n)
        env = Env({b: v}, [rule])
        if all(q.outcome == 'raise' or status(q, env)[0] == 'no' or
               hands_on(ctx, q, b, v, rule, depth + 1, foreign) for q in qs):
          return True
  return False


def synonyms(rep, f, ps, a, alts, rule):
  pairs = []
  for x, y in SYNONYMS:
    if {x, y} & alts and {'left', 'right'} & alts:
      pairs.append((x, y))
  if any(isinstance(x, int) for x in alts):
    pairs += [p for p in INT_SYNONYMS if p[1] in alts or p[0] in alts]
  for x, y in pairs:
    ex, ey = Env({a: x}, [rule]), Env({a: y}, [rule])
    diff = [p for p in ps if status(p, ex)[0] != status(p, ey)[0]]
    rep.check('synonyms', '%s %s: %r/%r' % (short(f.qual), a.args[1], x, y),
              not diff, '%s treats %s=%r and %r differently' %
              (short(f.qual), a.args[1], x, y), '%s:%d' % (f.file, f.line))


def callers(ctx, rep, open_):
  leaky = {q: t for q, t in open_.items() if t[3]}
  for q, t in open_.items():
    if not t[3]:
      rep.ok('refused', short(q) + ' ' + t[1].args[1])
  if not leaky:
    return
  done = set()
  for f, ps in ctx.scan():
    for p in ps:
      for e in p.events:
        if e.kind != 'call' or e.bound is None or not e.qual:
          continue
        q = e.qual
        if q not in leaky:
          continue
        g, a, alts, _ = leaky[q]
        x = e.bound.get(a.args[1])
        if x is None:
          continue
        inst = '%s -> %s %s' % (short(f.qual), short(q), x)
        if inst in done:
          continue
        done.add(inst)
        if x.op == 'const':
          rep.check('callers', inst, x.args[0] in alts,
                    '%s is called with %s=%s, which is none of %s' %
                    (short(q), a.args[1], x, sorted(map(str, alts))), e.loc)
        else:
          rep.undecided('callers', inst, 'not a constant')
