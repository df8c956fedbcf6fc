"""Argument guards of the iterative solvers. Every solver of every backend is
folded under argument cases: cases it cannot serve must leave no path that ends
normally or that applies the operator first; the extreme valid cases and the
documented defaults must leave no path that raises because of them."""
import ast

from ..terms import T, mk, walk, NONE
from ..lib import short, P, callee_name, callee_recv
from ..guards import Env, Some, UNK, reject, accept

ASSUMPTIONS = [
    'what scipy rejects itself (unknown selectors passed on to it) is refused',
    'num_krylov_vecs, numeig and sizes are integers',
]

LANCZOS = ('eigsh_lanczos', 'eigsh', 'eigs')


def default_of(f, name):
  a = f.node.args
  pos = a.posonlyargs + a.args
  for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
    if x.arg == name and isinstance(d, ast.Constant):
      return d.value
  for x, d in zip(a.kwonlyargs, a.kw_defaults):
    if x.arg == name and isinstance(d, ast.Constant):
      return d.value
  return UNK


def env_of(f, foreign=False, extra=None, **vals):
  """Valid call of an eigensolver changed by vals."""
  names = set(f.user_params())
  base = dict(args=None, initial_state=Some('tensor'), shape=None, dtype=None,
              num_krylov_vecs=20, numeig=1, reorthogonalize=True,
              which='LM')
  base.update(vals)
  env = {P(f, k): v for k, v in base.items() if k in names}
  env.update(extra or {})
  init = P(f, 'initial_state')

  def isinst(e, t):
    if t.op == 'call' and callee_name(t) == 'isinstance' and t.args[1]:
      x = t.args[1][0]
      if x is init:
        return not foreign
      if x.op == 'call' and callee_name(x) in ('randn', 'random_uniform'):
        return True
    return UNK

  return Env(env, [isinst])


def late(t):
  """A fact about something the solver computed."""
  return any(x.op == 'closure' for x in walk(t))


def applies(f, name):
  a = P(f, name)

  def used(e):
    return e.kind == 'call' and e.res is not None and e.res.op == 'call' and \
        e.res.args[0] is a

  return used


def run(ctx, rep):
  rep.rule('refuse', 'a call the solver cannot serve leaves no normal path and '
           'is refused before the operator is applied')
  rep.rule('serve', 'the extreme valid calls and the documented defaults are '
           'not refused')
  for f in sorted(ctx.prog.funcs.values(), key=lambda f: f.qual):
    if f.parent is not None or '.backends.' not in f.qual or f.cls is None:
      continue
    if f.name in LANCZOS:
      eigen(ctx, rep, f)
    elif f.name in ('gmres', '_gmres'):
      gmres(ctx, rep, f)
  rep.floor('refuse', 12)
  rep.floor('serve', 6)


def eigen(ctx, rep, f):
  ps, _ = ctx.paths(f, rep=rep)
  if not ps or not any(p.outcome != 'raise' for p in ps):
    return  # not implemented by this backend
  names = set(f.user_params())
  if not {'A', 'initial_state', 'num_krylov_vecs', 'numeig'} <= names:
    rep.undecided('refuse', short(f.qual), 'parameters renamed')
    return
  used = applies(f, 'A')
  inst = short(f.qual)
  rej = lambda case, env, what: reject(rep, 'refuse', inst + ' ' + case, f, ps,
                                       env, what, used, late)
  acc = lambda case, env, what: accept(rep, 'serve', inst + ' ' + case, f, ps,
                                       env, what)
  if {'shape', 'dtype'} <= names:
    d, s = Some('dtype'), Some('shape')
    for case, kw in (('no-vector', {}), ('no-vector-no-shape', dict(dtype=d)),
                     ('no-vector-no-dtype', dict(shape=s))):
      rej(case, env_of(f, initial_state=None, **kw),
          'no initial vector without shape and dtype')
    acc('generated-vector', env_of(f, initial_state=None, shape=s, dtype=d),
        'a call with shape and dtype but no initial vector')
  rej('foreign-vector', env_of(f, foreign=True),
      'an initial vector of a foreign type')
  acc('given-vector', env_of(f), 'a call with a proper initial vector')
  arpack = f.name == 'eigs' and not _jax(f)
  if arpack:
    for n, k in ((1, 2), (1, 1), (5, 6), (3, 2)):
      rej('space-%d-for-%d' % (k, n), env_of(f, numeig=n, num_krylov_vecs=k),
          'a Krylov space of %d for %d eigenpairs' % (k, n))
    for n, k in ((1, 3), (5, 7)):
      acc('space-%d-for-%d' % (k, n), env_of(f, numeig=n, num_krylov_vecs=k),
          'a Krylov space of %d for %d eigenpairs' % (k, n))
  else:
    for n, k in ((2, 1), (6, 5), (9, 4)):
      rej('space-%d-for-%d' % (k, n), env_of(f, numeig=n, num_krylov_vecs=k),
          'a Krylov space of %d for %d eigenpairs' % (k, n))
    for n, k in ((1, 1), (5, 5), (5, 6)):
      acc('space-%d-for-%d' % (k, n), env_of(f, numeig=n, num_krylov_vecs=k),
          'a Krylov space of %d for %d eigenpairs' % (k, n))
  if 'reorthogonalize' in names:
    for n in (2, 5):
      rej('several-%d-unorthogonalised' % n,
          env_of(f, numeig=n, reorthogonalize=False),
          '%d eigenpairs without reorthogonalisation' % n)
    acc('one-unorthogonalised', env_of(f, numeig=1, reorthogonalize=False),
        'one eigenpair without reorthogonalisation')
    acc('several-orthogonalised', env_of(f, numeig=2, reorthogonalize=True),
        'two eigenpairs with reorthogonalisation')
  if 'which' in names:
    if _jax(f):
      good = ('LR', 'LM') if f.name == 'eigs' else ('SA', 'LA', 'LM')
      bad = ('SR', 'SM', 'LI', 'SI', 'xx', 'SA') if f.name == 'eigs' else (
          'SM', 'LR', 'xx', 'BE')
    else:
      good, bad = ('LM', 'SR', 'LR'), ('SI', 'LI')
    for w in bad:
      rej('which-' + w, env_of(f, which=w), 'the selector %r' % w)
    for w in good:
      acc('which-' + w, env_of(f, which=w), 'the selector %r' % w)
  dflt = {}
  for k in ('num_krylov_vecs', 'numeig', 'which', 'reorthogonalize'):
    v = default_of(f, k)
    if k in names and v is not UNK:
      dflt[k] = v
  acc('defaults', env_of(f, **dflt), 'a call with the default values')


def _jax(f):
  return '.jax.' in f.qual


def gmres(ctx, rep, f):
  ps, _ = ctx.paths(f, rep=rep)
  if not ps or not any(p.outcome != 'raise' for p in ps):
    return
  inst = short(f.qual)
  names = set(f.user_params())
  need = {'A_mv', 'b', 'x0', 'tol', 'atol', 'num_krylov_vectors'}
  if not need <= names:
    rep.undecided('refuse', inst, 'parameters renamed')
    return
  used = applies(f, 'A_mv')
  par = {n: P(f, n) for n in names}
  if f.name == '_gmres':
    if not _jax(f):
      return
    for case, kw in (('preconditioner', dict(M=Some('M', True))),
                     ('keyword-arguments',
                      dict(A_kwargs=Some('kwargs', True)))):
      reject(rep, 'refuse', inst + ' ' + case, f, ps,
             Env({par[k]: v for k, v in kw.items() if k in par}),
             case + ', which jax does not support', used)
    accept(rep, 'serve', inst + ' plain', f, ps,
           Env({par['M']: None, par['A_kwargs']: {}}), 'a plain call')
    return

  def env(shape='same', dtype='same', **vals):
    base = dict(A_args=None, A_kwargs=None, x0=Some('x0'), b=Some('b'),
                tol=1e-5, atol=None, num_krylov_vectors=5, maxiter=1, M=None)
    if 'enable_caching' in names:
      base['enable_caching'] = False
    base.update(vals)
    x0, b = par['x0'], par['b']

    def about(t, attr):
      """t describes attribute attr of x0 ('x0') or b ('b')."""
      got = set()
      for x in walk(t):
        if x is x0:
          got.add('x0')
        if x is b:
          got.add('b')
      return got

    def rule(e, t):
      if t.op == 'cmp' and t.args[0] in ('eq', 'is'):
        l, r = about(t.args[1], None), about(t.args[2], None)
        if l | r == {'x0', 'b'} and l != r and len(l) == len(r) == 1:
          kind = {_kind(t.args[1]), _kind(t.args[2])}
          if kind == {'dtype'}:
            return dtype == 'same'
          if kind == {'shape'}:
            return shape == 'same'
        return UNK
      if t.op == 'call' and callee_name(t) == 'compare_shapes':
        l = set()
        for a in t.args[1]:
          l |= about(a, None)
        for _, a in t.args[2]:
          l |= about(a, None)
        if l == {'x0', 'b'}:
          return shape == 'same'
        return True
      if t.op == 'call' and callee_name(t) == 'shape_prod' and \
          about(t, None) == {'b'}:
        return 10
      if t.op == 'attr' and t.args[1] == 'size' and t.args[0] is b:
        return 10
      return UNK

    return Env({par[k]: v for k, v in base.items() if k in par}, [rule])

  rej = lambda case, e, what: reject(rep, 'refuse', inst + ' ' + case, f, ps, e,
                                     what, used, late)
  acc = lambda case, e, what: accept(rep, 'serve', inst + ' ' + case, f, ps, e,
                                     what)
  rej('shape', env(shape='other'),
      'an initial guess of another shape')
  rej('dtype', env(dtype='other'), 'an initial guess of another dtype')
  for n in (0, -1):
    rej('space%d' % n, env(num_krylov_vectors=n),
        'a Krylov space of %d vectors' % n)
  for t in (-1e-9, -1):
    rej('tol%s' % t, env(tol=t), 'a negative tolerance')
    rej('atol%s' % t, env(atol=t), 'a negative absolute tolerance')
  acc('matching', env(), 'a matching initial guess')
  acc('no-guess', env(x0=None), 'no initial guess')
  for n in (1, 10):
    acc('space%d' % n, env(num_krylov_vectors=n),
        'a Krylov space of %d vectors for 10 unknowns' % n)
  acc('tol0', env(tol=0, atol=0), 'zero tolerances')
  if default_of(f, 'num_krylov_vectors') is None:
    acc('defaults', env(num_krylov_vectors=None), 'the default space')


def _kind(t):
  if t.op == 'attr' and t.args[1] in ('dtype', 'shape', 'sparse_shape'):
    return 'dtype' if t.args[1] == 'dtype' else 'shape'
  if t.op == 'call' and callee_name(t) in ('shape_tensor', 'shape_tuple'):
    return 'shape'
  return None
