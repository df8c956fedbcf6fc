"""Option flow: for every function, every option it accepts is a data or
control input of what it does; an option that a function shares by name with
the function it delegates to is passed on, under its own name, on every path
that reaches the call (unless the path has established that it is absent); no
option is bound to the slot of another one."""
import ast

from ..model import Func, dotted
from ..terms import T, walk, param, NONE, mk
from ..lib import facts, short, callee_name

ASSUMPTIONS = [
    'an option is a parameter with a default value, in the caller or in the '
    'callee',
    'an option and the slot it configures have the same name, or are a pair of '
    'the table SYN',
]

# parameters that are accepted for interface compatibility only
UNUSED = {
    ('backends.jax.jax_backend.JaxBackend.eigsh_lanczos', 'tol'):
        'documented as ignored',
    ('backends.jax.jax_backend.JaxBackend.eigsh_lanczos', 'ndiag'):
        'documented as ignored',
    ('backends.pytorch.pytorch_backend.PyTorchBackend.einsum', 'optimize'):
        'performance hint',
    ('backends.tensorflow.tensorflow_backend.TensorFlowBackend.einsum',
     'optimize'): 'performance hint',
    ('block_sparse.charge.Z2Charge.__init__', 'charge_types'):
        'signature of the base class',
    ('block_sparse.charge.U1Charge.__init__', 'charge_types'):
        'signature of the base class',
    ('network_components.CopyNode.copy', 'conjugate'): 'entries are real',
}
CONTEXT = {'__exit__'}
JIT_MODULES = ('numpy_backend', 'pytorch_backend', 'symmetric_backend',
               'tensorflow_backend')

# (caller, callee, option): reviewed non-forwardings
REVIEWED = {
    ('backends.abstract_backend.AbstractBackend.gmres', '_gmres',
     'num_krylov_vectors'): 'clipped to the dimension',
    ('block_sparse.charge.Z2Charge.__init__', '__init__', 'charge_types'):
        'fixed by the class',
    ('contractors.custom_path_solvers.pathsolvers._full_solve_single',
     '_full_solve_single', 'allow_outer'): 'second attempt',
    ('contractors.custom_path_solvers.pathsolvers._full_solve_single',
     '_reduce_nets', 'max_branch'): 'second call only removes duplicates',
    ('contractors.opt_einsum_paths.path_contractors.base', 'contract_between',
     'output_edge_order'): 'the final node is reordered',
    ('contractors.opt_einsum_paths.path_contractors.contract_path',
     'contract_between', 'output_edge_order'): 'the final node is reordered',
    ('matrixproductstates.infinite_mps.InfiniteMPS.canonicalize', 'position',
     'D'): 'D limits the boundary bond only',
    ('ncon_interface.ncon', '_check_network', 'con_order'): '',
    ('backends.numpy.numpy_backend.NumPyBackend.eigsh_lanczos', 'zeros', '*'):
        'shape and dtype of the initial state, which overrides them',
    ('backends.pytorch.pytorch_backend.PyTorchBackend.eigsh_lanczos', 'zeros',
     '*'): 'shape and dtype of the initial state, which overrides them',
    ('backends.symmetric.symmetric_backend.SymmetricBackend.eigsh_lanczos',
     'zeros', '*'):
        'shape and dtype of the initial state, which overrides them',
    ('network_components.AbstractNode.__init__', 'Edge', 'name'):
        'the name of a node is not the name of its edges',
    ('network_components.outer_product', 'fresh_edges', 'axis_names'):
        'refreshes the operands',
    ('network_components.contract_between', 'contract', 'axis_names'):
        'added to the result afterwards',
    ('network_components.contract_between', 'Node', 'axis_names'):
        'added to the result afterwards',
    ('network_components.contract_between', 'outer_product', 'axis_names'):
        'added to the result afterwards',
    ('linalg.node_linalg.transpose', 'Node', 'axis_names'):
        'set afterwards from the permutation',
}
# names that do not configure: identity or backend (C02) of the objects
OBJECT_NAMES = {'backend', 'self', 'cls'}
GENERIC = {'nbranch', 'a', 'b', 'x', 'A', 'axis', 'axes', 'shape', 'dtype'}
# keyword of a library routine -> options it stands for
SYN = {
    'k': ('numeig',),
    'ncv': ('num_krylov_vecs', 'ncv'),
    'v0': ('initial_state',),
    'restart': ('num_krylov_vectors',),
    'rtol': ('tol', 'rtol'),
    'atol': ('atol',),
    'tol': ('tol',),
    'maxiter': ('maxiter',),
    'which': ('which',),
    'return_eigenvectors': ('return_eigenvectors',),
    'minval': ('boundaries', 'minval'),
    'maxval': ('boundaries', 'maxval'),
    'low': ('boundaries', 'low'),
    'high': ('boundaries', 'high'),
    'memory_limit': ('memory_limit',),
}


def run(ctx, rep):
  rep.rule('used', 'every parameter is an input of what the function does')
  rep.rule('forwarded', 'an option shared with the callee is passed on')
  rep.rule('own-slot', 'an option is bound to the slot of its own name')
  rep.rule('one-name', 'the axes at both ends of a new edge and the edge are '
           'not given the name options of different edges')
  rep.rule('given', 'whether an optional tensor or number was given is not '
           'decided by its truth value')
  rep.rule('truncates', 'a decomposition that ignores a truncation option runs '
           'only where the option was found to be absent')
  rep.rule('crossed', 'no call hands over variables that have the names of '
           'the callee\'s parameters in permuted slots')
  rep.rule('overwritten', 'the value given for an option is not replaced '
           'unless it was looked at')
  used(ctx, rep)
  overwritten(ctx, rep)
  nested_params(ctx, rep)
  forwarded(ctx, rep)
  jit_slots(ctx, rep)
  crossed(ctx, rep)
  bond_names(ctx, rep)
  given(ctx, rep)
  truncates(ctx, rep)
  rep.floor("used", 300)
  rep.floor("crossed", 300)
  rep.floor("forwarded", 150)


def terms_of(p):
  for e in p.events:
    if e.kind == 'fact':
      continue
    for a in (e.recv, e.value, e.key, e.res, e.pos, e.kw):
      if a is not None:
        yield from flat(a)
  if p.value is not None:
    yield from flat(p.value)


def flat(a):
  if isinstance(a, T):
    yield a
  elif isinstance(a, (tuple, list)):
    for x in a:
      yield from flat(x)
  elif isinstance(a, dict):
    for x in a.values():
      yield from flat(x)


def exempt(sq, name, n):
  if (sq, n) in UNUSED:
    return True
  if name in CONTEXT:
    return True
  if name == 'jit' and any(m in sq for m in JIT_MODULES):
    return True
  return sq == 'backends.decorators.jit'


def used(ctx, rep):
  for q, f in sorted(ctx.prog.funcs.items()):
    if f.parent is not None or isinstance(f.node, ast.Lambda):
      continue
    if f.is_stub() or f.is_abstract or ctx.is_new(f):
      continue
    body = f.docless_body()
    if f.only_raises():
      continue
    names = f.user_params() + [
        x for x in (f.vararg, f.kwarg) if x and f.name != 'call']
    if not names:
      continue
    sq = short(q)
    loads = {n.id for s in body for n in ast.walk(s)
             if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    nested = set()
    for s in body:
      for n in ast.walk(s):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
          nested |= {m.id for m in ast.walk(n) if isinstance(m, ast.Name)}
    paths, _ = ctx.paths(f, rep=rep)
    flow, fact = set(), {}
    if paths:
      seen = set()
      for p in paths:
        for t in terms_of(p):
          for x in walk(t, seen):
            if x.op == 'param' and x.args[0] == q:
              flow.add(x.args[1])
        if p.outcome == 'return':
          for t, v in facts(p):
            for x in walk(t):
              if x.op == 'param' and x.args[0] == q:
                fact.setdefault(x.args[1], set()).add((t, v))
    for n in names:
      if exempt(sq, f.name, n):
        rep.ok('used', '%s(%s) exempt' % (sq, n))
        continue
      inst = '%s(%s)' % (sq, n)
      if n not in loads:
        rep.bad('used', inst, 'the parameter %s is accepted and never read' % n,
                '%s:%d' % (f.file, f.line))
      elif not paths or n in nested or n in flow or n in (f.vararg, f.kwarg):
        rep.ok('used', inst)
      elif any((t, not v) in fact.get(n, ()) for t, v in fact.get(n, ())):
        rep.ok('used', inst)
      elif n in fact:
        rep.undecided('used', inst, 'only validated')
      else:
        rep.bad('used', inst, 'the value of %s reaches nothing the function '
                'does' % n, '%s:%d' % (f.file, f.line))


def overwritten(ctx, rep):
  """x = <something else> for an option x, under no test of x."""
  for q, f in sorted(ctx.prog.funcs.items()):
    if not isinstance(f.node, ast.FunctionDef):
      continue
    a = f.node.args
    names = [x.arg for x in a.args]
    opts = set(names[len(names) - len(a.defaults):]) | {
        x.arg for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None}
    opts -= {'backend', 'shape', 'self'}
    if not opts:
      continue
    bad = []

    def loads(n, al):
      r = set()
      for x in ast.walk(n):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
          r |= {x.id} | al.get(x.id, set())
      return r

    def go(stmts, guard, al):
      guard = set(guard)
      for s in stmts:
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
          continue
        if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
          tg = s.targets if isinstance(s, ast.Assign) else [s.target]
          tg = [t.id for z in tg for t in ast.walk(z) if isinstance(
              t, ast.Name) and isinstance(t.ctx, ast.Store)]
          ld = loads(s.value, al)
          for t in tg:
            if t in opts and t not in ld and t not in guard:
              bad.append((t, s))
            al[t] = (al.get(t, set()) | ld) & opts
        g = guard
        if isinstance(s, (ast.If, ast.While)):
          g = guard | loads(s.test, al)
        for fl in ('body', 'orelse', 'finalbody'):
          st = getattr(s, fl, None)
          if isinstance(st, list):
            go(st, g, al)
            if isinstance(s, ast.If) and st and isinstance(
                st[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
              guard |= loads(s.test, al)
        for h in getattr(s, 'handlers', []):
          go(h.body, g, al)
        # a value that was read before is not lost
        guard |= loads(s, al) & opts

    go(f.node.body, set(), {})
    sq = short(q)
    if not bad:
      rep.ok('overwritten', sq)
    for t, s in bad:
      rep.bad('overwritten', '%s(%s)' % (sq, t), 'the value given for %s is '
              'replaced by %s' % (t, ast.unparse(s.value)[:60]),
              '%s:%d' % (f.file, s.lineno))


def nested_params(ctx, rep):
  for q, f in sorted(ctx.prog.funcs.items()):
    if f.parent is None or isinstance(f.node, ast.Lambda) or ctx.is_new(f):
      continue
    loads = {n.id for s in f.docless_body() for n in ast.walk(s)
             if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    for n in f.all_params():
      rep.check('used', '%s(%s)' % (short(q), n), n in loads,
                'the parameter %s is accepted and never read' % n,
                '%s:%d' % (f.file, f.line))


def settled(p, ev, me):
  """Facts before ev determine the value of the parameter."""
  for t, v in facts(p, ev):
    if t is me:
      return True
    if t.op == 'cmp' and (t.args[1] is me or t.args[2] is me):
      if t.args[0] in ('is', 'eq') and v:
        return True
      if t.args[0] in ('isnot', 'ne') and not v:
        return True
  return False


def forwarded(ctx, rep):
  done = {}
  for f, ps in ctx.scan():
    if ctx.is_new(f):
      continue
    mine = set(f.user_params())
    if not mine:
      continue
    sq = short(f.qual)
    for p in ps:
      for ev in p.events:
        if ev.kind != 'call':
          continue
        if ev.bound is None:
          external(f, sq, mine, p, ev, rep, done)
          continue
        if '*' in ev.bound:
          continue
        slots = ev.bound
        dflt = ev.defaulted or ()
        g = ctx.prog.funcs.get(ev.qual)
        opt = set(g.defaults) if g is not None else set()
        for n, t in slots.items():
          if n not in mine and isinstance(t, T):
            swapped(f, sq, mine, slots, dflt, p, ev, n, t, rep, done)
          if n not in mine or n in OBJECT_NAMES or not isinstance(t, T):
            continue
          me = param(f.qual, n)
          inst = '%s -> %s(%s)' % (sq, ev.name, n)
          if any(x is me for x in walk(t)):
            done.setdefault(inst, None)
            continue
          if n not in opt and n not in f.defaults:
            continue
          if settled(p, ev, me) or (sq, ev.name, n) in REVIEWED or \
              (sq, ev.name, '*') in REVIEWED:
            done.setdefault(inst, None)
            continue
          if n == 'name' and any(x is me for t in terms_of(p)
                                 for x in walk(t)):
            done.setdefault(inst, None)  # set afterwards
            continue
          how = 'is not passed on' if n in dflt else 'is replaced by %s' % str(
              t)[:60]
          rep.bad('forwarded', inst, 'option %s of %s %s' % (n, sq, how),
                  ev.loc)
  for i in done:
    rep.ok('forwarded', i)
  rep.exceptions += ['%s -> %s(%s): %s' % (k + (v,))
                     for k, v in REVIEWED.items()]


ALIAS = {'max_truncation_error': ('max_truncation_err',),
         'max_truncation_err': ('max_truncation_error',),
         'tol': ('precision',), 'num_krylov_vectors': ('num_krylov_vecs',)}


def swapped(f, sq, mine, slots, dflt, p, ev, n, t, rep, done):
  """A slot the caller has no option for (under that name)."""
  inst = '%s -> %s(%s)' % (sq, ev.name, n)
  own = [m for m in ALIAS.get(n, ()) if m in mine and m not in slots]
  if t.op == 'param' and t.args[0] == f.qual and t.args[1] in slots and \
      t.args[1] in f.defaults and slots[t.args[1]] is not t and \
      n not in GENERIC:
    rep.bad('own-slot', inst, 'the slot %s is given the option %s' %
            (n, t.args[1]), ev.loc)
  elif own:
    me = param(f.qual, own[0])
    if any(x is me for x in walk(t)) or settled(p, ev, me):
      done.setdefault(inst, None)
    else:
      rep.bad('forwarded', inst, 'option %s of %s is not passed on' %
              (own[0], sq), ev.loc)


def external(f, sq, mine, p, ev, rep, done):
  """A keyword of a library call that is bound to another option."""
  for n, t in ev.kw or ():
    want = SYN.get(n, (n,))
    have = [m for m in want if m in mine]
    if not have or not isinstance(t, T):
      continue
    inst = '%s -> %s(%s)' % (sq, ev.name, n)
    if any(x is param(f.qual, m) for x in walk(t) for m in have):
      done.setdefault(inst, None)
    elif any(settled(p, ev, param(f.qual, m)) for m in have):
      done.setdefault(inst, None)
    elif t.op == 'param' and t.args[0] == f.qual and n not in GENERIC:
      rep.bad('own-slot', inst, 'keyword %s is given the option %s instead of '
              '%s' % (n, t.args[1], have[0]), ev.loc)
    elif t.op == 'const' and n in SYN and n not in GENERIC:
      rep.bad('forwarded', inst, 'option %s of %s is replaced by %s' %
              (have[0], sq, t), ev.loc)


# parameter of a compiled solver -> option of the backend method
JIT_SYN = {'ncv': 'num_krylov_vecs', 'neig': 'numeig', 'landelta': 'delta',
           'reortho': 'reorthogonalize', 'init': 'initial_state',
           'arguments': 'args', 'matvec': 'A', 'A_mv': 'A'}


def jit_slots(ctx, rep):
  """Positional options of the compiled solvers of the jax backend."""
  m = ctx.prog.modules.get('tensornetwork.backends.jax.jax_backend')
  if m is None:
    rep.undecided('own-slot', 'jax solvers', 'module not found')
    return
  prefix = 'tensornetwork.backends.jax.jitted_functions.'
  gens = {}
  for f in ctx.prog.funcs.values():
    if f.mod is not m or f.parent is not None:
      continue
    loc = {}
    for n in ast.walk(f.node):
      if isinstance(n, ast.Assign) and len(n.targets) == 1:
        t = n.targets[0]
        if isinstance(t, ast.Name):
          loc[t.id] = n.value
        k = cache_key(t)
        if k is not None:
          v = n.value
          while isinstance(v, ast.Name) and v.id in loc:
            v = loc[v.id]
          if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute):
            gens[k] = v.func.attr
  for q, f in sorted(ctx.prog.funcs.items()):
    if f.mod is not m or f.parent is not None:
      continue
    loc = {}
    for n in ast.walk(f.node):
      if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
          n.targets[0], ast.Name):
        loc.setdefault(n.targets[0].id, []).append(n.value)
    for n in ast.walk(f.node):
      if not isinstance(n, ast.Call):
        continue
      c, want = n.func, None
      for _ in range(4):
        if isinstance(c, ast.Attribute) and want is None and cache_key(
            c.value) is not None:
          want, c = c.attr, c.value
        elif isinstance(c, ast.Name) and len(loc.get(c.id, ())) >= 1:
          c = loc[c.id][-1]
      k = cache_key(c)
      if k is None or k not in gens:
        continue
      cands = [g for gq, g in ctx.prog.funcs.items()
               if gq.startswith(prefix + gens[k] + '.<locals>.') and
               gq.count('<locals>') == 1]
      if want is not None:
        cands = [g for g in cands if g.name == want]
      else:
        gen = ctx.prog.funcs.get(prefix + gens[k])
        ret = {r.value.id for r in ast.walk(gen.node)
               if isinstance(r, ast.Return) and isinstance(r.value, ast.Name)
               } if gen is not None else set()
        cands = [g for g in cands if g.name in ret]
      sq = short(q)
      if len(cands) != 1:
        rep.undecided('own-slot', '%s -> %s' % (sq, k), 'solver not resolved')
        continue
      g = cands[0]
      rep.saw(f, g)
      mine = set(f.user_params())
      pairs = list(zip(g.params, n.args)) + [(w.arg, w.value)
                                             for w in n.keywords]
      for slot, a in pairs:
        slot = JIT_SYN.get(slot, slot)
        if slot not in mine or not isinstance(a, ast.Name):
          continue
        inst = '%s -> %s(%s)' % (sq, g.name, slot)
        if a.id != slot and a.id in mine:
          rep.bad('own-slot', inst, 'the solver option %s is given %s' %
                  (slot, a.id), '%s:%d' % (f.file, n.lineno))
        else:
          rep.ok('own-slot', inst)


def cache_key(t):
  if isinstance(t, ast.Subscript) and isinstance(
      t.value, ast.Name) and t.value.id.startswith('_CACHED') and isinstance(
          t.slice, ast.Constant):
    return t.slice.value
  return None


# options: a variable of this name in another slot than its own, while its own
# slot is given a different variable
CONFIG = {'tol', 'numeig', 'maxiter', 'precision', 'ncv', 'num_krylov_vecs',
          'num_krylov_vectors', 'delta', 'ndiag', 'reorthogonalize', 'which',
          'relative', 'max_singular_values', 'max_truncation_error',
          'max_truncation_err', 'return_eigenvectors', 'pivot_axis',
          'non_negative_diagonal', 'landelta', 'neig', 'atol', 'sort_edges',
          'memory_limit', 'nbranch'}


def entry(t, i):
  """Entry 0 or -1 (or any, of a literal) of a list term."""
  if t.op in ('list', 'tuple'):
    xs = t.args[0]
    if isinstance(xs, tuple) and -len(xs) <= i < len(xs):
      return xs[i]
  if t.op == 'append':
    if i == -1:
      return t.args[1]
    return entry(t.args[0], i) if i == 0 else None
  if t.op == 'lc' and i == 0 and isinstance(t.args[1], T):
    return entry(t.args[1], 0)
  return None


def bond_names(ctx, rep):
  """connect(x.edges[i], y.edges[j], name=n) of nodes built with axis names."""
  for f, ps in ctx.scan():
    if ctx.is_new(f):
      continue
    done = {}
    for p in ps:
      made = {}
      for e in p.events:
        if e.kind != 'call' or not e.bound:
          continue
        if e.name == 'Node' and isinstance(e.res, T) and isinstance(
            e.bound.get('axis_names'), T):
          made[e.res] = e.bound['axis_names']
        if e.name != 'connect':
          continue
        n = e.bound.get('name')
        if not isinstance(n, T) or n.op != 'param':
          continue
        for k in ('edge1', 'edge2'):
          t = e.bound.get(k)
          if not isinstance(t, T) or t.op != 'item' or \
              t.args[1].op != 'const' or not isinstance(
                  t.args[1].args[0], int):
            continue
          b = t.args[0]
          node = b.args[0] if b.op == 'attr' else b
          if node not in made:
            continue
          a = entry(made[node], t.args[1].args[0])
          if a is not None and a.op == 'param':
            done.setdefault((e.line, k), []).append((a, n, e))
    for (line, k), vs in sorted(done.items()):
      bad = [v for v in vs if v[0] is not v[1]]
      a, n, e = (bad or vs)[0]
      rep.check('one-name', '%s %s' % (short(f.qual), k), not bad,
                'the edge is named %s and the axis it joins %s' %
                (n.args[1], a.args[1]), e.loc)


LIMITS = ('max_singular_values', 'max_truncation_err', 'max_truncation_error',
          'max_bond_dim', 'D')


def absent(p, me):
  for t, v in facts(p):
    if t is me and not v:
      return True
    if t.op == 'cmp' and (t.args[1] is me or t.args[2] is me):
      if NONE in t.args[1:] and (t.args[0] in ('is', 'eq')) == v and \
          t.args[0] in ('is', 'eq', 'isnot', 'ne'):
        return True
      if NONE not in t.args[1:] and t.args[0] in ('lt', 'le', 'gt', 'ge'):
        return True     # compared with the size it limits
  return False


def wanted(p, me):
  """The path has established that the limit was given and applies."""
  for t, v in facts(p):
    if t.op == 'cmp' and v and (t.args[0] in ('lt', 'le') and t.args[1] is me
                                or t.args[0] in ('gt', 'ge') and
                                t.args[2] is me):
      return any(u.op == 'cmp' and u.args[1] is me and u.args[2] is NONE and
                 w == (u.args[0] in ('isnot', 'ne')) for u, w in facts(p))
  return False


def truncates(ctx, rep):
  for f, ps in ctx.scan():
    if ctx.is_new(f) or f.parent is not None:
      continue
    opts = [n for n in f.user_params() if n in LIMITS and n in f.defaults]
    if not opts:
      continue
    done = {}
    taken = {(e.recv, x.args[1]) for p in ps for e in p.events
             if e.kind == 'call' and e.name == 'svd'
             for x in list(e.pos or ()) + [v for _, v in e.kw or ()]
             if x.op == 'param' and x.args[0] == f.qual}
    for p in ps:
      if p.outcome != 'return':
        continue
      for e in p.events:
        if e.kind != 'call' or e.name not in ('svd', 'qr', 'rq'):
          continue
        given_ = {x for t in terms_of(p) for x in walk(t)
                  if x.op == 'param'}
        for n in opts:
          me = param(f.qual, n)
          bad = me not in given_ and not absent(p, me)
          if not bad and e.name == 'svd' and (e.recv, n) in taken and wanted(
              p, me) and not any(
              x is me for a in list(e.pos or ()) + [v for _, v in e.kw or ()]
              for x in walk(a)):
            bad = True
          k = (n, e.name)
          if k not in done or bad:
            done[k] = (bad, e)
    for (n, name), (bad, e) in sorted(done.items()):
      rep.check('truncates', '%s(%s) %s' % (short(f.qual), n, name), not bad,
                '%s decomposes without regard to %s, which may have been given'
                % (name, n), e.loc)


# only a guard against an unsupported combination
TRUTH = {('matrixproductstates.base_mps.BaseMPS.apply_two_site_gate',
          'max_singular_values'),
         ('matrixproductstates.base_mps.BaseMPS.apply_two_site_gate',
          'max_truncation_err')}


def given(ctx, rep):
  for q, f in sorted(ctx.prog.funcs.items()):
    if isinstance(f.node, ast.Lambda) or ctx.is_new(f) or f.parent is not None:
      continue
    opt = {}
    for a in f.node.args.args + f.node.args.kwonlyargs:
      s = ast.unparse(a.annotation) if a.annotation else ''
      d = f.defaults.get(a.arg)
      none = isinstance(d, ast.Constant) and d.value is None
      if s in ('Optional[Tensor]', 'Optional[int]', 'Optional[float]',
               'Optional[BlockSparseTensor]', 'Optional[np.ndarray]') and none:
        opt[a.arg] = s
    if not opt:
      continue
    tests = []
    for n in ast.walk(f.node):
      if isinstance(n, (ast.If, ast.IfExp, ast.While)):
        tests.append(n.test)
      elif isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or):
        tests.append(n.values[0])
    hit = {}
    while tests:
      t = tests.pop()
      if isinstance(t, ast.BoolOp):
        tests += t.values
      elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        tests.append(t.operand)
      elif isinstance(t, ast.Call) and getattr(t.func, 'id', '') == 'bool' \
          and t.args:
        tests.append(t.args[0])
      elif isinstance(t, ast.Name) and t.id in opt:
        hit.setdefault(t.id, t.lineno)
    for n in sorted(opt):
      ok = n not in hit or (short(q), n) in TRUTH
      rep.check('given', '%s(%s)' % (short(q), n), ok, '%s %s is taken for '
                'missing when it is zero or cannot be tested for truth' %
                (opt[n], n), '%s:%d' % (f.file, hit.get(n, f.line)))


def own_calls(f):
  def visit(b):
    for c in ast.iter_child_nodes(b):
      if isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
        continue
      if isinstance(c, ast.Call):
        yield c
      yield from visit(c)
  return visit(f.node)


def resolve(ctx, f, n):
  """(function, positional parameters) of a call, by lexical scope."""
  prog = ctx.prog
  e = None
  if isinstance(n, ast.Name):
    g = f
    while g is not None:
      q = g.qual + '.<locals>.' + n.id
      if q in prog.funcs:
        h = prog.funcs[q]
        return h, list(h.params)
      if n.id in g.all_params():
        return None, None
      made = [a.value for a in ast.walk(g.node) if isinstance(a, ast.Assign)
              for t in a.targets if isinstance(t, ast.Name) and t.id == n.id]
      if made:
        return made_by(ctx, g, made)
      g = g.parent
    e = prog.lookup(f.mod, n.id)
  else:
    d = dotted(n)
    if d is None or d.split('.')[0] in f.all_params():
      if isinstance(n, ast.Attribute) and isinstance(
          n.value, ast.Name) and n.value.id in ('self', 'cls') and f.cls:
        h = prog.find_method(f.cls, n.attr)
        if h is not None:
          ps = list(h.params)
          return h, ps[1:] if ps[:1] in (['self'], ['cls']) else ps
      return None, None
    e = prog.resolve_dotted(f.mod, d)
  if e and e[0] == 'func' and e[1] in prog.funcs:
    h = prog.funcs[e[1]]
    ps = list(h.params)
    return h, ps[1:] if ps[:1] == ['cls'] else ps
  if e and e[0] == 'cls' and e[1] in prog.classes:
    h = prog.find_method(prog.classes[e[1]], '__init__')
    if h is not None:
      return h, list(h.params)[1:]
  return None, None


def made_by(ctx, f, made):
  """The nested function a generator function returns."""
  if len(made) != 1 or not isinstance(made[0], ast.Call) or isinstance(
      made[0].func, ast.Call):
    return None, None
  if isinstance(made[0].func, ast.Name) and any(
      isinstance(t, ast.Name) and t.id == made[0].func.id
      for a in ast.walk(f.node) if isinstance(a, ast.Assign)
      for t in a.targets):
    return None, None
  h, _ = resolve(ctx, f, made[0].func)
  if h is None or h.name == '__init__':
    return None, None
  ret = {r.value.id for r in ast.walk(h.node) if isinstance(r, ast.Return) and
         isinstance(r.value, ast.Name)}
  if len(ret) == 1:
    k = ctx.prog.funcs.get(h.qual + '.<locals>.' + ret.pop())
    if k is not None:
      return k, list(k.params)
  return None, None


def crossed(ctx, rep):
  for q, f in sorted(ctx.prog.funcs.items()):
    if ctx.is_new(f) or isinstance(f.node, ast.Lambda):
      continue
    for c in own_calls(f):
      h, ps = resolve(ctx, f, c.func)
      if not isinstance(h, Func) or ctx.is_new(h):
        continue
      if any(isinstance(a, ast.Starred) for a in c.args):
        continue
      b = dict(zip(ps, c.args))
      b.update({k.arg: k.value for k in c.keywords if k.arg})
      nxt = {s: a.id for s, a in b.items()
             if isinstance(a, ast.Name) and a.id != s and a.id in b}
      inst = '%s -> %s' % (short(q), h.name)
      hit = None
      for s in nxt:
        t, seen = nxt[s], {s}
        while t in nxt and t not in seen:
          seen.add(t)
          t = nxt[t]
        if t == s or (nxt[s] in CONFIG and isinstance(b[nxt[s]], ast.Name) and
                      b[nxt[s]].id != nxt[s]):
          hit = s
          break
      rep.check('crossed', inst, hit is None,
                'the slot %s is given %s, whose own slot is given something else' %
                (hit, nxt.get(hit)), '%s:%d' % (f.file, c.lineno))
