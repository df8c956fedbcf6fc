"""Inner products, rotations, iterates and units of the iterative solvers.
Every full contraction of two vectors in the solver modules is found in the
provenance terms of all functions (nested ones included) and the conjugations
on its two operands are counted; when the coefficient is used to project, the
operand it multiplies must be the conjugated one and the projection must be
subtracted. The two-by-two rotations of GMRES are multiplied out symbolically.
A homogeneity (unit) analysis propagates the degree of every quantity in the
right hand side through the GMRES code: added or compared quantities must have
the same degree."""
import ast
from ..terms import T, mk, const, NONE, TRUE, FALSE, walk
from ..lib import short, P, callee_name, callee_recv, attr, call_arg

ASSUMPTIONS = ['the pytorch backend holds real tensors only (its conj is the '
               'identity)', 'norm functions of the array libraries return the '
               'Euclidean norm']
MODS = ('tensornetwork.backends.numpy.numpy_backend',
        'tensornetwork.backends.symmetric.symmetric_backend',
        'tensornetwork.backends.jax.jitted_functions',
        'tensornetwork.backends.jax.jax_backend',
        'tensornetwork.backends.tensorflow.tensorflow_backend',
        'tensornetwork.linalg.krylov')
SOLVERS = ('eigsh_lanczos', 'eigs', 'eigsh', 'gmres', '_gmres')
CONJ = {'conj', 'conjugate'}
STRIP = {'ravel', 'flatten', 'reshape', 'asarray', 'array', 'view',
         'contiguous', 'astype', 'squeeze', 'copy'}
FLAT = {'ravel', 'flatten', 'reshape', 'view'}
JF = 'tensornetwork.backends.jax.jitted_functions.'
GM = JF + 'gmres_wrapper.<locals>.'


def strip(t):
  """(core, number of conjugations, flattened) of an operand."""
  c, flat = 0, False
  while True:
    if t.op == 'call':
      n = callee_name(t)
      r = callee_recv(t)
      x = t.args[1][0] if t.args[1] else None
      lib = r is None or r.op in ('ext', 'mod', 'global', 'free') or (
          r.op == 'attr' and r.args[1] in ('numpy', 'linalg')) or \
          t.args[0].op in ('ext', 'func')
      if n in CONJ or n in STRIP:
        y = (x if x is not None and (lib or n in CONJ) else r)
        if n not in CONJ and r is not None and not lib:
          y = r
        if y is None:
          return t, c, flat
        c += n in CONJ
        flat |= n in FLAT
        t = y
        continue
    if t.op == 'attr' and t.args[1] == 'data':
      t, flat = t.args[0], True
      continue
    return t, c, flat


def ranges(t):
  """An axes list that runs over (nearly) all axes of a tensor."""
  while t.op == 'call' and callee_name(t) in ('list', 'tuple') and t.args[1]:
    t = t.args[1][0]
  return t.op == 'call' and callee_name(t) == 'range' and any(
      x.op == 'call' and callee_name(x) in ('len', 'ndim') or
      x.op == 'attr' and x.args[1] == 'ndim' for x in walk(t))


def overlap(e):
  """(left, right, implicit conjugations on the left) of a full product."""
  if e.kind != 'call' or not e.pos:
    return None
  pos = list(e.pos)
  kw = dict(e.kw or ())
  if e.name == 'vdot':
    if len(pos) == 1 and e.recv is not None:
      pos = [e.recv] + pos
    return (pos[0], pos[1], 1) if len(pos) >= 2 else None
  if e.name in ('dot', 'inner'):
    if len(pos) == 1 and e.recv is not None:
      pos = [e.recv] + pos
    if len(pos) < 2 or not (strip(pos[0])[2] and strip(pos[1])[2]):
      return None
    return pos[0], pos[1], 0
  if e.name == 'tensordot' and len(pos) >= 2:
    ax = pos[2] if len(pos) > 2 else kw.get('axes')
    if ax is not None and ax.op in ('tuple', 'list') and len(
        ax.args[0]) == 2 and all(ranges(x) for x in ax.args[0]):
      return pos[0], pos[1], 0
  return None


def solver(f):
  if 'jitted_functions' in f.qual:
    return True
  return f.name in SOLVERS or any(
      '.%s.' % s in f.qual for s in SOLVERS)


def run(ctx, rep):
  rep.rule('overlap', 'an inner product conjugates exactly one operand')
  rep.rule('project', 'a coefficient multiplies the operand that was '
           'conjugated, and the projection is subtracted')
  rep.rule('hermitian', 'a matrix put together from diagonals for an '
           'eigensolver of hermitian matrices is hermitian')
  rep.rule('rotate', 'the rotations of GMRES are unitary and annihilate')
  rep.rule('iterate', 'a restart adds its correction to the solution whose '
           'residual it started from, and continues from the last one')
  rep.rule('units', 'added and compared quantities scale alike with the right '
           'hand side')
  for q, f in sorted(ctx.prog.funcs.items()):
    if not q.startswith(MODS) or '_test' in q or not solver(f):
      continue
    ps, _ = ctx.paths(f, rep=rep)
    if not ps:
      continue
    rep.saw(f)
    seen = set()
    for p in ps:
      terms(rep, f, p, seen)
  hermitian(ctx, rep)
  rotation(ctx, rep)
  iterate(ctx, rep)
  units(ctx, rep)
  rep.floor('overlap', 5)
  rep.floor('project', 4)


def summands(t):
  if t.op == 'bin' and t.args[0] == 'Add':
    return summands(t.args[1]) + summands(t.args[2])
  return [t]


def diagonal_of(t):
  """(entries, offset) of diag(entries, offset)."""
  if t.op != 'call' or callee_name(t) != 'diag' or not t.args[1]:
    return None
  k = t.args[1][1] if len(t.args[1]) > 1 else None
  for n, v in t.args[2]:
    if n == 'k':
      k = v
  if k is None:
    return t.args[1][0], 0
  if k.op == 'un' and k.args[0] == 'USub' and k.args[1].op == 'const':
    return t.args[1][0], -k.args[1].args[0]
  if k.op == 'const' and isinstance(k.args[0], int):
    return t.args[1][0], k.args[0]
  return None


def hermitian(ctx, rep):
  for q, f in sorted(ctx.prog.funcs.items()):
    if not q.startswith(MODS) or '_test' in q or not solver(f):
      continue
    seen = set()
    for p in ctx.paths(f)[0] or []:
      for t in all_terms(p):
        if t.op != 'call' or callee_name(t) != 'eigh' or t in seen or \
            not t.args[1]:
          continue
        seen.add(t)
        parts = [diagonal_of(x) for x in summands(t.args[1][0])]
        if not parts or None in parts or len(parts) < 2:
          continue
        inst = '%s: eigh' % short(f.qual)
        left = []
        for x, k in parts:
          if k == 0:
            continue
          a = strip(x)
          for i, (b, m) in enumerate(left):
            if m == -k and b[0] is a[0]:
              del left[i]
              break
          else:
            left.append((a, k))
        rep.check('hermitian', inst, not left, 'the diagonal at offset %s has '
                  'no mirror image' % ','.join(str(k) for _, k in left),
                  '%s:%d' % (f.file, f.line))


def all_terms(p):
  done = set()
  roots = [p.value] if isinstance(p.value, T) else []
  for v in p.env.values():
    if isinstance(v, T):
      roots.append(v)
  for e in p.events:
    for v in (e.value, e.res, e.recv):
      if isinstance(v, T):
        roots.append(v)
    roots += [x for x in (e.pos or ()) if isinstance(x, T)]
  for r in roots:
    yield from walk(r, done)


def terms(rep, f, p, seen):
  hits = {}
  for e in p.events:
    o = overlap(e)
    if o is None or e.res is None:
      continue
    a, b, imp = o
    ca, na, _ = strip(a)
    cb, nb, _ = strip(b)
    inst = '%s: <%s>' % (short(f.qual), e.name)
    na += imp
    good = (na % 2) + (nb % 2) == 1
    if (e.res, 'o') not in seen:
      seen.add((e.res, 'o'))
      rep.check('overlap', inst, good, 'the inner product conjugates %s of its '
                'operands' % ('neither' if (na + nb) % 2 == 0 and na % 2 == 0
                              else 'both'), e.loc)
    if good:
      hits[e.res] = (ca, cb, na % 2, e, inst)
  if not hits:
    return
  for t in all_terms(p):
    use = None
    if t.op == 'bin' and t.args[0] == 'Mult':
      for h, x in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
        if h in hits:
          use = (h, x)
    elif t.op == 'call' and callee_name(t) in ('tensordot', 'dot',
                                               'multiply') and len(
                                                   t.args[1]) >= 2:
      for h, x in ((t.args[1][0], t.args[1][1]),
                   (t.args[1][1], t.args[1][0])):
        if h in hits:
          use = (h, x)
    if use:
      h, x = use
      ca, cb, side, e, inst = hits[h]
      core, nc, _ = strip(x)
      if core is ca or core is cb:
        right = (core is ca) == bool(side) or ca is cb
        if (t, 'p') not in seen:
          seen.add((t, 'p'))
          rep.check('project', inst, right and nc % 2 == 0, 'the coefficient '
                    'multiplies %s' % ('the operand that was not conjugated'
                                       if not right else
                                       'a conjugated vector'), e.loc)
    if t.op == 'bin' and t.args[0] in ('Add', 'Sub'):
      for y, other in ((t.args[2], t.args[1]), (t.args[1], t.args[2])):
        h = coefficient(y, hits)
        if h is None:
          continue
        ca, cb, side, e, inst = hits[h]
        oc = strip(other)[0]
        if oc is not ca and oc is not cb:
          continue
        if (t, 's') in seen:
          continue
        seen.add((t, 's'))
        rep.check('project', inst, t.args[0] == 'Sub' and y is t.args[2],
                  'the projection is not subtracted from the vector', e.loc)


def coefficient(y, hits):
  """The overlap a product is scaled with."""
  if y.op == 'bin' and y.args[0] == 'Mult':
    for h in y.args[1:]:
      if h in hits:
        return h
  if y.op == 'call' and callee_name(y) in ('tensordot', 'dot', 'multiply'):
    for h in y.args[1][:2]:
      if h in hits:
        return h
  return None


# ---------------------------------------------------------------- rotations

class Poly(dict):
  """Sums of products of atoms and conjugated atoms, over a real factor."""


def _key(x):
  return id(x[0]), x[1]


def pmul(a, b):
  out = Poly()
  for m, c in a.items():
    for n, d in b.items():
      k = tuple(sorted(m + n, key=_key))
      out[k] = out.get(k, 0) + c * d
  return Poly({k: v for k, v in out.items() if v})


def padd(a, b, s=1):
  out = Poly(a)
  for k, v in b.items():
    out[k] = out.get(k, 0) + s * v
  return Poly({k: v for k, v in out.items() if v})


def pconj(a):
  out = Poly()
  for m, c in a.items():
    out[tuple(sorted(((n, not j if not real else j, real)
                      for n, j, real in m), key=_key))] = c
  return out


def poly(t, name):
  """Polynomial of a term; None when it is not one."""
  if t.op == 'const' and isinstance(t.args[0], (int, float)):
    return Poly({(): t.args[0]}) if t.args[0] else Poly()
  if t.op == 'bin':
    if t.args[0] == 'Div':
      a = poly(t.args[1], name)
      b = mk('inv', t.args[2])
      real = callee_name(t.args[2]) in ('sqrt', 'abs', 'norm', 'hypot')
      return None if a is None else pmul(a, Poly({((b, False, real),): 1}))
    a, b = poly(t.args[1], name), poly(t.args[2], name)
    if a is None or b is None:
      return None
    if t.args[0] == 'Add':
      return padd(a, b)
    if t.args[0] == 'Sub':
      return padd(a, b, -1)
    if t.args[0] == 'Mult':
      return pmul(a, b)
    return None
  if t.op == 'un' and t.args[0] == 'USub':
    a = poly(t.args[1], name)
    return None if a is None else padd(Poly(), a, -1)
  if t.op == 'call' and callee_name(t) in CONJ:
    x = t.args[1][0] if t.args[1] else callee_recv(t)
    a = poly(x, name)
    return None if a is None else pconj(a)
  return Poly({((t, False, False),): 1})


def coeff(a, atom):
  """The coefficient of an atom in a polynomial linear in it."""
  out = Poly()
  for m, c in a.items():
    k = [x for x in m if x[0] is atom]
    if len(k) == 1 and not k[0][1]:
      r = list(m)
      r.remove(k[0])
      out[tuple(r)] = c
    elif k:
      return None
  return out


def updates(t):
  """{index: value} of nested index updates."""
  out = {}
  while t.op == 'call' and callee_name(t) in ('index_update', 'set', 'add'):
    if callee_name(t) == 'index_update' and len(t.args[1]) == 3:
      ix = t.args[1][1]
      ix = ix.args[1] if ix.op == 'item' else ix
      out.setdefault(ix, t.args[1][2])
      t = t.args[1][0]
    elif callee_name(t) == 'set':
      r = callee_recv(t)
      if r is None or r.op != 'item':
        break
      out.setdefault(r.args[1], t.args[1][0])
      t = r.args[0]
      if t.op == 'attr' and t.args[1] == 'at':
        t = t.args[0]
    else:
      break
  return out, t


def orth(r1, r2):
  """Sum over columns of r1 * conj(r2)."""
  s = Poly()
  for a, b in zip(r1, r2):
    s = padd(s, pmul(a, pconj(b)))
  return s


def rotation(ctx, rep):
  f = ctx.prog.funcs.get(GM + 'givens_rotation')
  inst = 'gmres givens_rotation'
  if f is None:
    rep.undecided('rotate', inst, 'anchor missing')
  else:
    ps, _ = ctx.paths(f, rep=rep)
    rep.saw(f)
    v1, v2 = (P(f, n) for n in f.all_params()[:2])
    for p in ps or []:
      v = p.value
      if v is None or v.op not in ('tuple', 'list') or len(v.args[0]) != 2:
        continue
      cs, sn = (poly(x, None) for x in v.args[0])
      if cs is None or sn is None:
        rep.undecided('rotate', inst, 'form')
        continue
      a, b = (Poly({((x, False, False),): 1}) for x in (v1, v2))
      low = padd(pmul(pconj(sn), a), pmul(pconj(cs), b))
      low2 = padd(pmul(sn, a), pmul(cs, b))
      loc = '%s:%d' % (f.file, f.line)
      den = {k[0] for m in list(cs) + list(sn) for k in m
             if k[0].op == 'inv'}
      if not den or not all(k[0].op in ('inv', 'param') for m in
                            list(cs) + list(sn) for k in m):
        rep.undecided('rotate', inst, 'form of the factors')
        continue
      if not low:
        rep.ok('rotate', inst)
      else:
        rep.bad('rotate', inst, 'the rotation (cs, -sn; sn*, cs*) does not '
                'annihilate the second entry%s' % (
                    ' for complex entries' if not low2 else ''), loc)
      squares(rep, inst, den, loc)
  for q, names in ((GM + 'apply_rotations.<locals>.apply_ith_rotation', None),):
    f = ctx.prog.funcs.get(q)
    if f is None:
      rep.undecided('rotate', 'gmres apply_rotations', 'anchor missing')
      continue
    ps, _ = ctx.paths(f, rep=rep)
    rep.saw(f)
    for p in ps or []:
      v = p.value
      if v is None:
        continue
      for x in walk(v):
        up, base = updates(x) if x.op == 'call' else ({}, None)
        if len(up) == 2:
          unitary(rep, 'gmres apply_rotations', up, base, p.loc)
          break
  f = ctx.prog.funcs.get(GM + 'gmres_krylov.<locals>.gmres_krylov_work')
  if f is None:
    return
  ps, _ = ctx.paths(f, rep=rep)
  rep.saw(f)
  for p in ps or []:
    for x in (p.env or {}).values():
      if isinstance(x, T) and x.op == 'call':
        up, base = updates(x)
        if len(up) == 2:
          rhs(rep, 'gmres right hand side', up, base, p.loc)


def squares(rep, inst, den, loc):
  for d in den:
    t = d.args[0]
    if callee_name(t) != 'sqrt':
      continue
    for x in walk(t):
      if x.op == 'bin' and (x.args[0] == 'Pow' or (
          x.args[0] == 'Mult' and x.args[1] is x.args[2])):
        y = x.args[1]
        if y.op == 'param':
          rep.bad('rotate', inst, 'the length of the pair is computed from '
                  'squares that are not absolute', loc)
        else:
          rep.ok('rotate', inst)


def unitary(rep, inst, up, base, loc):
  rows = {k: poly(v, None) for k, v in up.items()}
  if any(v is None for v in rows.values()):
    rep.undecided('rotate', inst, 'form')
    return
  cols = [mk('item', base, k) for k in up]
  m = [[coeff(r, c) for c in cols] for r in rows.values()]
  if any(x is None for r in m for x in r) or not any(x for r in m for x in r):
    rep.undecided('rotate', inst, 'coefficients')
    return
  s = orth(m[0], m[1])
  n = padd(orth(m[0], m[0]), orth(m[1], m[1]), -1)
  if s or n:
    rep.bad('rotate', inst, 'the two rows of the rotation are not orthogonal '
            'and of equal length for complex factors', loc)
  else:
    rep.ok('rotate', inst)


def rhs(rep, inst, up, base, loc):
  """(cs, conj(sn)) times the last entry."""
  got = []
  for k, v in up.items():
    a = poly(v, None)
    if a is None or len(a) != 1:
      rep.undecided('rotate', inst, 'form')
      return
    m = [x for x in list(a)[0] if not (x[0].op == 'item' and
                                       x[0].args[0] is base)]
    if len(m) != 1 or m[0][0].op != 'item' or m[0][0].args[1].op != 'tuple':
      rep.undecided('rotate', inst, 'form')
      return
    row = m[0][0].args[1].args[0][0]
    if row.op != 'const':
      rep.undecided('rotate', inst, 'form')
      return
    got.append((row.args[0], m[0][1]))
  if sorted(r for r, _ in got) == [0, 1]:
    rep.check('rotate', inst, dict(got) == {0: False, 1: True}, 'the right '
              'hand side is not rotated by (cs, conj(sn))', loc)
  else:
    rep.undecided('rotate', inst, 'rows')


# ------------------------------------------------------------------ restarts

def local(p, name):
  return [e for e in p.events if e.kind == 'call' and e.name == name]


def arg_of(ctx, e, name):
  g = ctx.prog.funcs.get(GM + e.name)
  if g is None:
    return None
  ps = g.all_params()
  if name in ps:
    return e.arg(name, ps.index(name))
  return None


def iterate(ctx, rep):
  inst = 'gmres restart'
  f = ctx.prog.funcs.get(GM + 'gmres')
  if f is None:
    rep.undecided('iterate', inst, 'anchor missing')
  else:
    ps, _ = ctx.paths(f, rep=rep)
    rep.saw(f)
    for p in ps or []:
      if p.outcome == 'raise':
        continue
      res, upd = local(p, 'gmres_residual'), local(p, 'gmres_update')
      if len(res) != 1 or len(upd) != 1:
        rep.undecided('iterate', inst, 'calls')
        continue
      x = arg_of(ctx, res[0], 'x')
      y = arg_of(ctx, upd[0], 'x0')
      if y is None:
        y = (upd[0].pos or (None,))[-1]
      if x is None or y is None:
        rep.undecided('iterate', inst, 'arguments')
        continue
      rep.check('iterate', inst, x is y, 'the correction is added to %s, the '
                'residual is that of %s' % (y, x), upd[0].loc)
  f = ctx.prog.funcs.get(GM + 'gmres_m')
  if f is None:
    return
  ps, _ = ctx.paths(f, rep=rep)
  rep.saw(f)
  for p in ps or []:
    for e in local(p, 'gmres'):
      x = arg_of(ctx, e, 'x')
      if x is None:
        continue
      carried = any(z.kind == 'carry' and z.recv is None and isinstance(
          z.value, T) and any(w is e.res for w in walk(z.value)) and
                    x.op == 'lc' and x.args[0] == z.name for z in p.events)
      if x.op == 'lc':
        rep.check('iterate', inst + ' loop', carried, 'the next restart does '
                  'not start from the solution of the last', e.loc)
      elif x.op == 'param':
        rep.bad('iterate', inst + ' loop', 'every restart starts from %s' % x,
                e.loc)
      else:
        rep.undecided('iterate', inst + ' loop', str(x)[:60])


# --------------------------------------------------------------------- units

# degree of each quantity in the right hand side b, by the name it has in the
# interface of the (undocumented) functions
BASE = dict(b=1, x=1, x0=1, r=1, beta=1, b_norm=1, tol=1, atol=1, V=0, R=0,
            H=0, givens=0, beta_vec=1, err=1)
SEEDS = {
    'gmres_m': dict(BASE, tol=0),
    'kth_arnoldi_step': dict(BASE, tol=0),
    '_gs_step': dict(r=0, v_i=0),
}
FUNCS = ('gmres_m', 'gmres', 'gmres_residual', 'gmres_update', 'gmres_krylov',
         'gmres_krylov.<locals>.gmres_krylov_work', 'kth_arnoldi_step',
         'gmres_krylov.<locals>.gmres_krylov_loop_condition.<locals>.'
         'not_converged')
RESULTS = {'gmres_residual': (1, 1), 'gmres_update': (1,),
           'gmres': (None, 1, 1), 'gmres_krylov': (None, 0, 0, 1),
           'kth_arnoldi_step': (0, 0), 'apply_givens_rotation': (0, 0)}
SAME = {'norm', 'abs', 'conj', 'real', 'reshape', 'ravel', 'asarray',
        'conjugate', 'absolute', 'sum', 'array', 'float', 'astype', 'copy'}


class Units(ast.NodeVisitor):

  def __init__(self, rep, f, seeds, params, ctx):
    self.rep, self.f, self.env = rep, f, {}
    self.seeds = seeds
    self.ctx = ctx
    self.inst = short(f.qual).replace('<locals>.', '')
    for n in params:
      if n in seeds:
        self.env[n] = seeds[n]
    g = f.parent
    while g is not None and g.name in SEEDS or g is not None and \
        g.name.startswith('gmres_k'):
      for n in g.all_params():
        if n not in params and n in seeds:
          self.env.setdefault(n, SEEDS.get(g.name, BASE).get(n))
      g = g.parent

  def loc(self, n):
    return '%s:%d' % (self.f.file, n.lineno)

  def agree(self, a, b, n, what):
    if a is None or b is None:
      return
    self.rep.check('units', self.inst, a == b, '%s: degree %s and degree %s in '
                   'the right hand side' % (what, a, b), self.loc(n))

  def deg(self, e):
    if isinstance(e, ast.Name):
      return self.env.get(e.id)
    if isinstance(e, ast.Constant):
      return None
    if isinstance(e, ast.UnaryOp):
      return self.deg(e.operand)
    if isinstance(e, ast.BinOp):
      a, b = self.deg(e.left), self.deg(e.right)
      num = isinstance(e.left, ast.Constant) or isinstance(e.right,
                                                           ast.Constant)
      if isinstance(e.op, (ast.Add, ast.Sub)):
        self.agree(a, b, e, 'a sum')
        return a if a is not None else b
      if isinstance(e.op, (ast.Mult, ast.MatMult)):
        if isinstance(e.left, ast.Constant):
          return b
        if isinstance(e.right, ast.Constant):
          return a
        return None if a is None or b is None else a + b
      if isinstance(e.op, ast.Div):
        if isinstance(e.right, ast.Constant):
          return a
        return None if a is None or b is None else a - b
      if isinstance(e.op, ast.Pow) and isinstance(e.right, ast.Constant) and \
          isinstance(e.right.value, int):
        return None if a is None else a * e.right.value
      del num
      return None
    if isinstance(e, ast.Subscript):
      self.deg(e.slice) if isinstance(e.slice, ast.expr) else None
      return self.deg(e.value)
    if isinstance(e, ast.Attribute):
      if e.attr in ('T', 'real'):
        return self.deg(e.value)
      if e.attr in ('eps', 'tiny'):
        return 0
      return None
    if isinstance(e, ast.Compare):
      a = self.deg(e.left)
      for c in e.comparators:
        self.agree(a, self.deg(c), e, 'a comparison')
      return None
    if isinstance(e, ast.Call):
      return self.call(e)
    if isinstance(e, ast.IfExp):
      a, b = self.deg(e.body), self.deg(e.orelse)
      self.agree(a, b, e, 'two alternatives')
      return a if a is not None else b
    for c in ast.iter_child_nodes(e):
      if isinstance(c, ast.expr) and not isinstance(e, ast.Lambda):
        self.deg(c)
    return None

  def call(self, e):
    fn = e.func
    n = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, 'id', '')
    ds = [self.deg(a) for a in e.args if not isinstance(a, ast.Starred)]
    if n in ('A_mv',) and ds:
      return ds[0]
    if n in SAME:
      if ds:
        return ds[0]
      return self.deg(fn.value) if isinstance(fn, ast.Attribute) else None
    if n in ('max', 'min', 'maximum', 'minimum'):
      known = [d for d in ds if d is not None]
      for d in known[1:]:
        self.agree(known[0], d, e, n)
      return known[0] if known else None
    if n == 'sqrt' and ds and ds[0] is not None:
      return ds[0] / 2
    if n == 'index_update' and len(ds) == 3:
      self.agree(ds[0], ds[2], e, 'a stored entry')
      return ds[0] if ds[0] is not None else ds[2]
    if n == 'solve_triangular' and len(ds) >= 2:
      return None if ds[0] is None or ds[1] is None else ds[1] - ds[0]
    if n in ('vdot', 'dot') and len(ds) >= 2:
      return None if ds[0] is None or ds[1] is None else ds[0] + ds[1]
    g = self.ctx.prog.funcs.get(GM + n)
    if g is not None and isinstance(fn, ast.Name):
      seeds = SEEDS.get(n, BASE)
      for k, (name, a) in enumerate(zip(g.all_params(), e.args)):
        if name in seeds:
          self.agree(ds[k] if k < len(ds) else None, seeds[name], a,
                     'argument %s of %s' % (name, n))
      r = RESULTS.get(n)
      return r[0] if r and len(r) == 1 else None
    return None

  def bind(self, tgt, d):
    if isinstance(tgt, ast.Name):
      self.env[tgt.id] = d

  def visit_Assign(self, s):
    t = s.targets[0]
    if isinstance(t, (ast.Tuple, ast.List)):
      vals = [None] * len(t.elts)
      if isinstance(s.value, ast.Call):
        self.deg(s.value)
        n = getattr(s.value.func, 'id', '')
        if n in RESULTS and len(RESULTS[n]) == len(vals):
          vals = RESULTS[n]
      elif isinstance(s.value, (ast.Tuple, ast.List)) and len(
          s.value.elts) == len(vals):
        vals = [self.deg(x) for x in s.value.elts]
      elif isinstance(s.value, ast.Name):
        vals = [self.seeds.get(x.id) if isinstance(x, ast.Name) else None
                for x in t.elts]
      else:
        d = self.deg(s.value)
        vals = [d] * len(vals)
      for x, d in zip(t.elts, vals):
        self.bind(x, d)
      return
    if isinstance(s.value, ast.Tuple):
      # packed for the loop: every quantity in the unit of its name
      for x in s.value.elts:
        if isinstance(x, ast.Name) and x.id in self.seeds:
          self.agree(self.env.get(x.id), self.seeds[x.id], s,
                     'the loop variable ' + x.id)
    d = self.deg(s.value)
    zero = isinstance(s.value, ast.Call) and getattr(
        s.value.func, 'attr', '') in ('zeros', 'zeros_like')
    if zero and isinstance(t, ast.Name):
      d = self.seeds.get(t.id)
    self.bind(t, d)

  def visit_AugAssign(self, s):
    if isinstance(s.target, ast.Name):
      e = ast.BinOp(left=ast.Name(id=s.target.id, ctx=ast.Load()), op=s.op,
                    right=s.value)
      ast.copy_location(e, s)
      ast.copy_location(e.left, s)
      self.bind(s.target, self.deg(e))

  def visit_Expr(self, s):
    self.deg(s.value)

  def visit_Return(self, s):
    if s.value is None:
      return
    els = s.value.elts if isinstance(s.value, ast.Tuple) else [s.value]
    ds = [self.deg(x) for x in els]
    r = RESULTS.get(self.f.name)
    if r and len(r) == len(ds):
      for d, x in zip(ds, r):
        self.agree(d, x, s, 'a result')

  def visit_If(self, s):
    self.deg(s.test)
    for b in s.body + s.orelse:
      self.visit(b)

  def visit_FunctionDef(self, s):
    return


def units(ctx, rep):
  for n in FUNCS:
    f = ctx.prog.funcs.get(GM + n)
    if f is None or f.node is None:
      rep.undecided('units', n, 'anchor missing')
      continue
    rep.saw(f)
    seeds = SEEDS.get(f.name, BASE)
    u = Units(rep, f, seeds, f.all_params(), ctx)
    if n.endswith('not_converged'):
      u.seeds = BASE
    for s in f.node.body:
      u.visit(s)
    g = ctx.prog.funcs.get(f.qual + '.<locals>._gs_step')
    if g is not None:
      v = Units(rep, g, SEEDS['_gs_step'], g.all_params(), ctx)
      for s in g.node.body:
        v.visit(s)
