"""What a copy carries. Constructor arguments of every copy, conjugate and
like-initialiser are traced to the attribute of the original that holds the
same thing (the attribute named as the constructor's parameter); the edges of a
copied network are followed from the original edge to the copies of its ends;
the conjugation flag is followed to the tensor."""
from ..terms import walk, NONE, T
from ..lib import P, short, callee_name, call_args, facts, feasible
from ..net import strip_copy

ASSUMPTIONS = ['an attribute named as a constructor parameter (up to a leading '
               'underscore) holds what the constructor was given']
N = 'tensornetwork.'
B = N + 'block_sparse.'
# parameters whose attribute is called differently, or that need not be carried
ALSO = {'charges': {'unique_charges', '_unique_charges', '_charges', 'charges',
                    'flat_charges'},
        'flow': {'flow', 'flows', '_flows', 'flat_flows'},
        'flows': {'flows', '_flows', 'flat_flows', 'flow'},
        'order': {'_order', 'order', 'flat_order'},
        'charge_labels': {'charge_labels', '_charge_labels'},
        'data': {'data', 'size', 'nnz'},
        'tensor': {'tensor', '_tensor'},
        'array': {'array'}}
FREE = {'check_consistency', 'charge_dtype', 'shape'}
METHODS = ('copy', '__copy__', '__deepcopy__', 'conj', 'conjugate')


def run(ctx, rep):
  rep.rule('carried', 'every stored constructor argument of a copy comes from '
           'the original')
  rep.rule('edges-named', 'the edges of a copied node keep names, axes and '
           'self-loops')
  rep.rule('connected', 'the copy of an edge joins the copies of its ends at '
           'the same axes, keeps its name, and is what the edge maps to')
  rep.rule('conjugated', 'a copy is conjugated exactly if asked for')
  rep.rule('list-order', 'replicated nodes come in the order of the originals')
  for f in targets(ctx.prog):
    carried(ctx, rep, f)
  for q in ('network_operations.reduced_density',
            'quantum.quantum.QuOperator.adjoint'):
    adjoint(ctx, rep, ctx.prog.funcs.get(N + q))
  for cls in ('Node', 'CopyNode'):
    node_copy(ctx, rep, cls)
  network(ctx, rep)
  replicate(ctx, rep)
  rep.floor('carried', 10)


def targets(prog):
  """(function, parameter standing for the original)."""
  out = []
  for q, f in sorted(prog.funcs.items()):
    if f.parent is not None or f.is_stub() or '.backends.' in q:
      continue
    if f.cls is not None and f.name in METHODS:
      out.append(f)
    elif f.cls is None and f.name.endswith('_like') and q.startswith(B):
      out.append(f)
    elif q == N + 'linalg.node_linalg.conj':
      out.append(f)
  return out


def original(f):
  ps = f.params
  return P(f, ps[0]) if ps else None


def built(ctx, e):
  """(class, bound arguments, defaulted) of a construction."""
  if e.kind != 'call':
    return None
  if e.qual in ctx.prog.classes and e.bound is not None and \
      e.fn is not None and e.fn.op == 'cls':
    d = set(e.defaulted or ())
    return ctx.prog.classes[e.qual], {
        k: v for k, v in e.bound.items() if k not in d}
  return None


def own_init(ctx, f, e):
  """obj = self.__new__(type(self)); obj.__init__(...)"""
  if e.kind != 'call' or e.name != '__init__' or e.recv is None or \
      f.cls is None or e.recv.op != 'call' or callee_name(
          e.recv) != '__new__':
    return None
  cls = f.cls if not isinstance(f.cls, str) else ctx.prog.classes.get(f.cls)
  if cls is None:
    return None
  ini = next((c.methods['__init__'] for c in ctx.prog.mro(cls)
              if '__init__' in c.methods), None)
  pos, kw = e.pos or (), dict(e.kw or ())
  if e.bound is not None:
    d = set(e.defaulted or ())
    return cls, {k: v for k, v in e.bound.items() if k not in d}
  names = ini.user_params() if ini is not None else []
  out = dict(zip(names, pos))
  out.update(kw)
  return cls, out


def has_attr(ctx, cls, names):
  for c in ctx.prog.mro(cls):
    if names & set(c.methods):
      return True
    if names & set(stores(ctx, c)):
      return True
  return False


_st = {}


def stores(ctx, cls):
  import ast
  if cls.qual not in _st:
    out = set()
    for m in cls.methods.values():
      if m.node is None:
        continue
      for n in ast.walk(m.node):
        if isinstance(n, ast.Attribute) and isinstance(
            n.ctx, ast.Store) and isinstance(n.value, ast.Name) and \
            m.params and n.value.id == m.params[0]:
          out.add(n.attr)
    _st[cls.qual] = out
  return _st[cls.qual]


def sources(t, src):
  """Attributes of the original an argument is derived from; '' for others."""
  out = set()
  for x in walk(t):
    if x.op == 'attr' and x.args[0] is src:
      out.add(x.args[1])
    elif x.op in ('prop', 'bound') and x.args[0] is src:
      out.add(str(x.args[1]).split('.')[-1])
  return out


def carried(ctx, rep, f):
  ps, _ = ctx.paths(f, rep=rep)
  src = original(f)
  if src is None:
    return
  done = set()
  met = False
  for p in ps or ():
    if p.outcome != 'return' or not feasible(p):
      continue
    for e in p.events:
      m = built(ctx, e) or own_init(ctx, f, e)
      if m is None:
        continue
      made = e.res if e.name != '__init__' else e.recv
      if e.name != '__init__' and not (p.value is made):
        continue
      if e.name == '__init__' and p.value is not e.recv:
        continue
      cls, args = m
      met = True
      ini = next((c.methods['__init__'] for c in ctx.prog.mro(cls)
                  if '__init__' in c.methods), None)
      if ini is None:
        continue
      for a in ini.user_params():
        if a in FREE:
          continue
        want = ALSO.get(a, {a, '_' + a})
        if f.cls is not None and not has_attr(ctx, cls, want):
          continue
        if f.cls is None and a in ('name', 'backend') and \
            f.name.endswith('_like'):
          continue
        v = args.get(a)
        inst = '%s.%s' % (short(f.qual), a)
        if (inst, v) in done:
          continue
        done.add((inst, v))
        if v is None:
          if a not in ('charge_labels',):
            rep.bad('carried', inst, 'the %s of the original is not carried '
                    'over' % a, e.loc)
          continue
        if a in ('data', 'tensor', 'array') and not f.user_params()[:1] == [
            'conjugate'] and not f.name.endswith('_like'):
          c = any(callee_name(x) in ('conj', 'conjugate') for x in walk(v))
          rep.check('conjugated', short(f.qual), c == f.name.startswith('conj'),
                    'the values are %sconjugated' % ('' if c else 'not '),
                    e.loc)
        if v is P(f, a):
          rep.ok('carried', inst)
          continue
        s = sources(v, src)
        if s & want or v is src:
          rep.ok('carried', inst)
        elif s and not any(y in want for y in s) and s <= known_attrs(
            ctx, cls, ini, a):
          rep.bad('carried', inst, 'taken from %s of the original' %
                  ', '.join(sorted(s)), e.loc)
        elif v.op == 'const' and a != 'charge_labels':
          if a in f.all_params():
            continue
          rep.bad('carried', inst, 'a constant instead of the original\'s', e.loc)
        else:
          rep.undecided('carried', inst, str(v)[:50])
  if not met:
    for p in ps or ():
      if p.outcome == 'return' and any(
          x.op == 'call' and callee_name(x) in ('deepcopy', 'copy')
          for x in walk(p.value)):
        ok = any(x is src for x in walk(p.value))
        if ok:
          rep.ok('carried', short(f.qual))


def known_attrs(ctx, cls, ini, a):
  """Attributes that hold what another parameter was given."""
  out = set()
  for b in ini.user_params():
    if b != a and b not in FREE:
      out |= ALSO.get(b, {b, '_' + b})
  return out - ALSO.get(a, {a, '_' + a})


def adjoint(ctx, rep, f):
  """A bra is the conjugated copy of its ket."""
  if f is None:
    return
  ps, _ = ctx.paths(f, rep=rep)
  done = set()
  for p in ps or ():
    for e in p.events:
      if e.kind == 'call' and e.qual in (
          N + 'network_operations.copy',
          N + 'network_operations.replicate_nodes') and e.loc not in done:
        done.add(e.loc)
        v = (e.bound or {}).get('conjugate')
        if v is None or v.op == 'const':
          rep.check('conjugated', short(f.qual), v is not None and
                    v.args[0] is True and 'conjugate' not in (
                        e.defaulted or ()), 'the copy that serves as the bra '
                    'is not conjugated', e.loc)


# -- nodes ------------------------------------------------------------------


def edge_made(e):
  if e.kind == 'call' and e.qual == N + 'network_components.Edge' and \
      e.bound is not None:
    return {k: v for k, v in e.bound.items() if k not in (e.defaulted or ())}
  return None


def end_of(t):
  """(edge, '1'|'2') of a node or axis taken from an edge."""
  if t is None:
    return None
  if t.op == 'attr' and t.args[1] in ('node1', 'node2', 'axis1', 'axis2',
                                      '_axis1', '_axis2', '_node1', '_node2'):
    return t.args[0], t.args[1][-1]
  if t.op == 'call' and callee_name(t) == 'get_axis_number':
    pos, kw = call_args(t)
    return end_of((list(pos) + [v for _, v in sorted(kw.items())] or [None])[0])
  return None


def node_copy(ctx, rep, cls):
  f = ctx.prog.funcs.get(N + 'network_components.%s.copy' % cls)
  if f is None:
    rep.undecided('edges-named', cls, 'missing')
    return
  ps, _ = ctx.paths(f, rep=rep)
  me = P(f, f.params[0])
  flag = f.user_params()[0] if f.user_params() else None
  done = set()
  for p in ps or ():
    if p.outcome != 'return' or not feasible(p):
      continue
    fs = facts(p)
    if flag is not None and cls == 'Node':
      called = [e for e in p.events if e.kind == 'call' and e.name == 'conj']
      used = [e for e in p.events if e.kind == 'call' and
              e.name == 'set_tensor' or e.kind == 'setattr' and
              e.name in ('tensor', '_tensor')]
      holds = any(any(x is c.res for u in used for v in list(
          u.pos or ()) + [y for _, y in (u.kw or ())] + ([u.value] if isinstance(
              u.value, T) else []) + list((u.bound or {}).values())
                      if isinstance(v, T) for x in walk(v)) for c in called) or \
          any(x is c.res for c in called for x in walk(p.value))
      asked = next((v for t, v in fs if t is P(f, flag)), None)
      ife = any(x.op == 'ifexp' and x.args[0] is P(f, flag)
                for e in p.events for v in (e.pos or ()) for x in walk(v))
      if asked is not None and not ife:
        k = ('conj', asked, holds)
        if k not in done:
          done.add(k)
          rep.check('conjugated', short(f.qual), holds == asked,
                    'the copy is %s although it was %s' % (
                        'conjugated' if holds else 'not conjugated',
                        'not asked for' if holds else 'asked for'),
                    '%s:%d' % (f.file, f.line))
    for e in p.events:
      m = edge_made(e)
      if m is None:
        continue
      loop = None
      for t, v in fs:
        if t.op == 'cmp' and t.args[0] in ('eq', 'is') and {
            getattr(x, 'op', '') == 'attr' and x.args[1] for x in t.args[1:]
        } == {'node1', 'node2'}:
          loop = v
        if t.op == 'call' and callee_name(t) == 'is_trace':
          loop = v
      two = 'node2' in m and m['node2'] is not NONE
      k = (e.loc, loop, two)
      if k in done:
        continue
      done.add(k)
      inst = short(f.qual)
      if loop is not None:
        rep.check('edges-named', inst + '.loop', loop == two,
                  'a self-loop is opened by copying' if loop else
                  'an edge to another node becomes a self-loop', e.loc)
      nm = m.get('name')
      named = nm is not None and any(
          x.op == 'attr' and x.args[1] in ('name', '_name') and
          x.args[0] is not me for x in walk(nm))
      if nm is None or nm.op == 'const' or named:
        rep.check('edges-named', inst + '.name', bool(named),
                  'the name of the edge is not carried over', e.loc)
      elif nm.op == 'attr':
        rep.bad('edges-named', inst + '.name', 'the edge is named after '
                'something else', e.loc)
      if two:
        a1, a2 = end_of(m.get('axis1')), end_of(m.get('axis2'))
        if a1 and a2:
          rep.check('edges-named', inst + '.axes', a1[0] is a2[0] and
                    a1[1] != a2[1], 'a self-loop does not join the axes of the '
                    'original', e.loc)


# -- networks ---------------------------------------------------------------


def copied_node(t):
  """n if t is the copy of node n: table[n]."""
  if t is not None and t.op == 'item':
    return t.args[1]
  if t is not None and t.op == 'call' and callee_name(t) == 'get' and t.args[1]:
    return t.args[1][0]
  return None


def network(ctx, rep):
  f = ctx.prog.funcs.get(N + 'network_operations.copy')
  if f is None:
    rep.undecided('connected', 'copy', 'missing')
    return
  ps, _ = ctx.paths(f, rep=rep)
  flag = P(f, 'conjugate') if 'conjugate' in f.all_params() else None
  done = set()
  for p in ps or ():
    if p.outcome != 'return' or not feasible(p):
      continue
    for e in p.events:
      if e.kind == 'call' and e.name == 'copy' and e.recv is not None and \
          flag is not None and e.loc not in done:
        done.add(e.loc)
        vs = list(e.pos or ()) + [v for _, v in (e.kw or ())]
        if vs:
          rep.check('conjugated', 'copy', flag in vs,
                    'the conjugation flag does not reach the nodes', e.loc)
        else:
          rep.bad('conjugated', 'copy', 'the conjugation flag does not reach '
                  'the nodes', e.loc)
    state = ends_known(p)
    made = [(e, edge_made(e)) for e in p.events]
    made = [(e, m) for e, m in made if m is not None]
    for e, m in made:
      k = (e.loc, tuple(sorted(state.items())))
      if k in done:
        continue
      done.add(k)
      one_edge(rep, p, e, m, state)
    sets = [e for e in p.events if e.kind == 'setitem' and
            isinstance(e.key, T) and e.key.op == 'elem' and any(
                x.op == 'call' and callee_name(x) in (
                    'get_all_edges', 'get_all_nondangling', 'get_edges')
                for x in walk(e.key))]
    entered = any(e.kind == 'call' and e.name in ('is_dangling', 'is_trace')
                  for e in p.events)
    if entered:
      k = ('map', len(made), len(sets))
      if k not in done:
        done.add(k)
        good = bool(sets) and (not made or any(
            s.value is e.res for s in sets for e, _ in made))
        rep.check('connected', 'copy.map', good,
                  'an edge of the network is not mapped to its copy',
                  '%s:%d' % (f.file, f.line))


def ends_known(p):
  """Which ends of the edge are known (not) to be copied on the path."""
  out = {}
  for t, v in facts(p):
    if t.op == 'cmp' and t.args[0] == 'in':
      r = end_of(t.args[1])
      if r is not None:
        out[r[1]] = v
    if t.op == 'call' and callee_name(t) == 'is_dangling':
      out['dangling'] = v
    if t.op == 'call' and callee_name(t) == 'is_trace':
      out['trace'] = v
  return out


def one_edge(rep, p, e, m, state):
  ks = []
  for n, a in (('node1', 'axis1'), ('node2', 'axis2')):
    if n not in m or m[n] is NONE:
      continue
    c = end_of(copied_node(m[n])) if copied_node(m[n]) is not None else None
    x = end_of(m.get(a)) if m.get(a) is not None else None
    if c is None or x is None:
      rep.undecided('connected', 'copy.%s' % n, str(m[n])[:40])
      return
    rep.check('connected', 'copy.ends', c[0] is x[0] and c[1] == x[1],
              'the copy of one end is attached at the axis of the other', e.loc)
    ks.append(c[1])
  nm = m.get('name')
  rep.check('connected', 'copy.name', nm is not None and any(
      x.op == 'attr' and x.args[1] in ('name', '_name') and x.args[0].op ==
      'elem' for x in walk(nm)), 'the name of the edge is not carried over',
            e.loc)
  for k in ks:
    if state.get(k) is False:
      rep.bad('connected', 'copy.outside', 'an end outside the copied nodes is '
              'looked up', e.loc)
    else:
      rep.ok('connected', 'copy.outside')
  if state.get('dangling') is False and state.get('2') is True and \
      state.get('1') is not False:
    rep.check('connected', 'copy.both', sorted(ks) == ['1', '2'],
              'an edge between two copied nodes is cut', e.loc)
    adds = {end_of(copied_node(x.recv)) for x in p.events if x.kind == 'call'
            and x.name == 'add_edge' and x.recv is not None and
            copied_node(x.recv) is not None}
    ends = {a[1] for a in adds if a is not None}
    rep.check('connected', 'copy.attached', ends == {'1', '2'} or None in adds,
              'the copied edge is not attached to both copies', e.loc)


def replicate(ctx, rep):
  f = ctx.prog.funcs.get(N + 'network_operations.replicate_nodes')
  if f is None:
    rep.undecided('list-order', 'replicate_nodes', 'missing')
    return
  ps, _ = ctx.paths(f, rep=rep)
  flag = P(f, 'conjugate') if 'conjugate' in f.all_params() else None
  for p in ps or ():
    if p.outcome != 'return' or not feasible(p):
      continue
    for e in p.events:
      if e.kind == 'call' and e.qual == N + 'network_operations.copy' and flag:
        rep.check('conjugated', 'replicate_nodes',
                  (e.bound or {}).get('conjugate') is flag,
                  'the conjugation flag is not passed on', e.loc)
    v = strip_copy(p.value)
    if v.op == 'comp' and v.args[0] == 'list':
      b, it = v.args[1], v.args[2]
      named = b.op == 'item' and b.args[1].op == 'elem'
      own = any(x is P(f, 'nodes') for x in walk(it)) and not any(
          x.op == 'call' and callee_name(x) == 'copy' for x in walk(it))
      if named and own:
        rep.check('list-order', 'replicate_nodes', not any(
            callee_name(x) in ('sorted', 'reversed', 'set') for x in walk(it)),
                  'the copies are listed in another order', '%s:%d' %
                  (f.file, f.line))
      elif any(callee_name(x) == 'values' for x in walk(it)):
        rep.undecided('list-order', 'replicate_nodes', 'values of the table')
      else:
        rep.undecided('list-order', 'replicate_nodes', str(v)[:50])
