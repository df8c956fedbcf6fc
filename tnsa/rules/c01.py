"""Guard-coverage dataflow: for every entry point that combines several
nodes, edges or tensors, each feasible non-raising path that performs an
effect must have established (by branch facts, expanded through helpers and
comprehensions, closed under a union-find of equal backends) that all operands
share one backend, or must delegate all operands to an entry point for which
this is verified.  A path with no such fact is a violation."""
from ..terms import mk, walk, NONE
from ..lib import (P, attr, facts, UF, list_elements, is_call, fixed, short,
                   callee_name, callee_recv)
from ..model import AnalysisError

ASSUMPTIONS = [
    'backend objects are singletons per name (C02/backend_factory), so '
    'comparing names and comparing objects are equivalent',
    'a loop body stands for an arbitrary iteration; a loop whose body always '
    'raises on mismatch checks every element'
]


class Links:
  """Equal-backend classes established by the facts of a path."""

  def __init__(self):
    self.uf = UF()
    self.unrec = []
    self.gone = set()

  def owners(self, t, depth=0):
    """[(owner term)], kind 'one'|'pick'|'every' of a backend-valued term."""
    if depth > 12:
      return None
    if t.op == 'attr' and t.args[1] == 'name':
      return self.owners(t.args[0], depth + 1)
    if t.op == 'attr' and t.args[1] == 'backend':
      o = t.args[0]
      if o.op == 'elem':
        els = list_elements(o.args[0])
        if els and els != [o]:
          return [self.norm(x) for x in els]
      return [self.norm(o)]
    if t.op == 'elem':
      els = list_elements(t.args[0])
      if els == [t]:
        return None
      out = []
      for x in els:
        r = self.owners(x, depth + 1)
        if r is None:
          return None
        out += r
      return out
    if t.op == 'item' and t.args[1].op == 'const':
      els = list_elements(t.args[0])
      inner = els
      ok = inner and all(self.owners(x, depth + 1) for x in inner)
      if ok:
        return [mk('pick', t)]
      return None
    if t.op == 'call' and callee_name(t) in ('next',):
      return [t]
    if t.op == 'call' and callee_name(t) == 'get_backend':
      return [t]
    return None

  def norm(self, o):
    # elem of a slice of X == elem of X
    while o.op == 'elem' and o.args[0].op == 'item' and o.args[0].args[
        1].op == 'slice':
      o = mk('elem', o.args[0].args[0], *o.args[1:])
    if o.op == 'elem':
      els = list_elements(o.args[0])
      if len(els) == 1:
        o = els[0]
    return o

  def mention(self, t):
    return any(
        (x.op == 'attr' and x.args[1] == 'backend') or
        (x.op == 'call' and (callee_name(x) or '').find('backend') >= 0)
        for x in walk(t))

  def learn(self, t, val):
    if t.op == 'not':
      return self.learn(t.args[0], not val)
    if t.op == 'boolop':
      if (t.args[0] == 'and') == val:
        for x in t.args[1]:
          self.learn(x, val)
        return
    if t.op == 'cmp' and t.args[0] in ('eq', 'is'):
      _, a, b = t.args
      # identity of operands themselves
      if val and b is not NONE:
        oa, ob = self.owners(a), self.owners(b)
        if oa and ob:
          for x in oa:
            for y in ob:
              self.uf.union(x, y)
          return
        if a.op == 'attr' and a.args[1] in ('node1', 'node2') or t.args[
            0] == 'is':
          self.uf.union(self.norm(a), self.norm(b))
      if val and b is NONE:
        self.gone.add(a)
      if val and a.op == 'call' and is_call(a, 'len') and b.op == 'const' and \
          b.args[0] == 1:
        self._single(a.args[1][0])
        return
      if not val and self.mention(t):
        return
    if t.op == 'cmp' and t.args[0] in ('lt', 'le'):
      _, a, b = t.args
      if is_call(b, 'len') and a.op == 'const' and not val and (
          (t.args[0] == 'lt' and a.args[0] == 1) or
          (t.args[0] == 'le' and a.args[0] == 2)):
        return self._single(b.args[1][0])
      if is_call(a, 'len') and b.op == 'const' and val and (
          (t.args[0] == 'lt' and b.args[0] == 2) or
          (t.args[0] == 'le' and b.args[0] == 1)):
        return self._single(a.args[1][0])
    if t.op == 'call' and callee_name(t) in ('all', 'any') and len(
        t.args[1]) == 1:
      if (callee_name(t) == 'all') == val:
        c = t.args[1][0]
        for x in list_elements(c):
          self.learn(x, val)
        return
      return
    if t.op == 'call' and callee_name(t) == 'is_trace' and val:
      e = callee_recv(t)
      self.uf.union(attr(e, 'node1'), attr(e, 'node2'))
      return
    if t.op == 'call' and callee_name(t) == 'is_dangling' and val:
      self.gone.add(attr(callee_recv(t), 'node2'))
      return
    if self.mention(t) and not is_call(t, 'hasattr') and not is_call(
        t, 'isinstance') and not (t.op == 'cmp' and t.args[2] is NONE) and \
        t.op not in ('attr',):
      self.unrec.append(t)

  def _single(self, s):
    els = list_elements(s)
    allo = []
    for x in els:
      o = self.owners(x)
      if o is None:
        if self.mention(x):
          self.unrec.append(s)
        return
      allo += o
    pick = mk('pick', s)
    for o in allo:
      self.uf.union(o, pick)

  def all_same(self, req):
    req = [self.norm(r) for r in req if r not in self.gone]
    if not req:
      return True
    for r in req[1:]:
      if not self.uf.same(req[0], r):
        return False
    # arbitrary elements need a fixed witness in their class
    arb = [r for r in req if not fixed(r)]
    if arb:
      return any(m.op == 'pick' or fixed(m) for m in self.uf.members(arb[0]))
    return True


COMPUTE_SKIP = {
    'shape_tuple', 'shape_tensor', 'shape_concat', 'shape_prod', 'name',
    'sparse_shape'
}


def effect(ev, backend_cls):
  """Event that computes with or rewires operands."""
  if ev.kind in ('setattr', 'setitem'):
    return True
  if ev.kind == 'call':
    if ev.qual and ('.backends.abstract_backend.AbstractBackend.' in ev.qual or
                    ev.qual in COMBINERS):
      return ev.name not in COMPUTE_SKIP
    if ev.name in ('Node', 'Tensor', 'CopyNode') and ev.res.op == 'new':
      return True
    if ev.name in ('add_edge', 'update_axis', 'disable', 'set_tensor',
                   'reorder_axes', 'fresh_edges', 'connect'):
      return True
    if ev.fn is not None and ev.fn.op in ('global', 'attr', 'item', 'opaque'
                                         ) and ev.name in ('ncon',):
      return True
  return False


COMBINERS = set()


def E(qual, req, inline=(), need=None, returns_guard=None):
  return dict(qual=qual, req=req, inline=tuple(inline), need=need)


def elem(t):
  return mk('elem', t)


def isinst_false(path, other):
  """Path on which `other` is known not to be a Node/Tensor."""
  for t, v in facts(path):
    if is_call(t, 'isinstance') and t.args[1] and t.args[1][0] is other and \
        not v and t.args[1][1].op == 'cls':
      return True
  return False


ENTRIES = [
    E('network_components.contract', lambda f: [
        attr(P(f, 'edge'), 'node1'), attr(P(f, 'edge'), 'node2')]),
    E('network_components.contract_between',
      lambda f: [P(f, 'node1'), P(f, 'node2')]),
    E('network_components.outer_product',
      lambda f: [P(f, 'node1'), P(f, 'node2')]),
    E('network_components.AbstractNode.__matmul__',
      lambda f: [P(f, 'self'), P(f, 'other')]),
    E('network_components.contract_parallel', lambda f: [
        attr(P(f, 'edge'), 'node1'), attr(P(f, 'edge'), 'node2')]),
    E('network_components.flatten_edges', lambda f: [
        attr(elem(P(f, 'edges')), 'node1'), attr(elem(P(f, 'edges')), 'node2')
    ]),
    E('network_components.split_edge', lambda f: [
        attr(P(f, 'edge'), 'node1'), attr(P(f, 'edge'), 'node2')]),
    E('network_components.slice_edge', lambda f: [
        attr(P(f, 'edge'), 'node1'), attr(P(f, 'edge'), 'node2')]),
    E('network_components.contract_copy_node',
      lambda f: [P(f, 'copy_node'), 'partners']),
] + [
    E('network_components.Node.' + m, lambda f: [P(f, 'self'), P(f, 'other')],
      inline=('op_protection',), need='other')
    for m in ('__add__', '__sub__', '__mul__', '__truediv__')
] + [
    E('tensor.Tensor.' + m, lambda f: [P(f, 'self'), P(f, 'other')],
      need='other')
    for m in ('__add__', '__sub__', '__mul__', '__truediv__', '__matmul__')
] + [
    E('linalg.operations.tensordot', lambda f: [P(f, 'a'), P(f, 'b')]),
    E('linalg.operations.outer', lambda f: [P(f, 'tensor1'), P(f, 'tensor2')],
      inline=('_check_backends',)),
    E('linalg.operations.einsum', lambda f: [elem(P(f, 'tensors'))],
      inline=('_check_backends',)),
    E('linalg.operations.kron', lambda f: [P(f, 'tensorA'), P(f, 'tensorB')],
      inline=('_check_backends',)),
    E('linalg.krylov.krylov_error_checks',
      lambda f: [P(f, 'x0'), 'backend']),
    E('matrixproductstates.dmrg.BaseDMRG.__init__',
      lambda f: [P(f, 'mps'), P(f, 'mpo')]),
    E('ncon_interface.ncon', lambda f: ['ncon']),
]


def run(ctx, rep):
  prog = ctx.prog
  rep.rule('same-backend-guard',
           'every effectful non-raising path of an entry point establishes '
           'equality of the backends of all operands')
  rep.rule('guard-on-operands',
           'operands reach an unguarded combining entry only through a '
           'verified one')
  verified = {}
  for e in ENTRIES:
    f = prog.func(e['qual'])
    verified[f.qual] = e
    COMBINERS.add(f.qual)
  for e in ENTRIES:
    f = prog.func(e['qual'])
    name = e['qual']
    try:
      req = e['req'](f)
    except Exception as ex:
      raise AnalysisError('C01 %s: %s' % (name, ex))
    for r in req:
      if not isinstance(r, str):
        for x in walk(r):
          if x.op == 'param' and x.args[1] not in f.all_params() + [
              f.vararg, f.kwarg]:
            rep.undecided('same-backend-guard', name,
                          'parameter %s renamed' % x.args[1])
            req = None
            break
      if req is None:
        break
    if req is None:
      continue
    inline = e['inline']
    paths, it = ctx.paths(f, inline=inline, rep=rep)
    if paths is None:
      rep.undecided('same-backend-guard', name, 'path budget')
      continue
    if name.endswith('krylov_error_checks'):
      check_krylov(rep, f, name, paths)
      continue
    if name.endswith('ncon'):
      check_ncon(rep, f, name, paths)
      continue
    if name.endswith('contract_copy_node'):
      check_copy_node(ctx, rep, f, name)
      continue
    bad = None
    und = None
    n = 0
    for p in paths:
      if p.outcome != 'return':
        continue
      if e['need'] and isinst_false(p, P(f, e['need'])):
        continue
      if not any(effect(ev, None) or delegated(ev, req, f, verified)
                 for ev in p.events) and name != \
          'matrixproductstates.dmrg.BaseDMRG.__init__':
        continue
      n += 1
      L = Links()
      for t, v in facts(p):
        L.learn(t, v)
      # facts recorded only in the literal set (e.g. elements of all())
      for t, v in p.lits.items():
        if not isinstance(t, tuple):
          L.learn(t, v)
      if L.all_same(req):
        continue
      if any(delegated(ev, req, f, verified) for ev in p.events):
        continue
      if L.unrec:
        und = und or str(L.unrec[0])
      else:
        bad = bad or p
    if bad is not None:
      rep.bad('same-backend-guard', name,
              'a path returning at %s combines operands without having '
              'compared their backends (facts: %s)' %
              (bad.loc, '; '.join('%s=%s' % (t, v) for t, v in facts(bad)
                                  if 'backend' in str(t))[:300] or 'none'),
              '%s:%d' % (f.file, f.line))
    elif und is not None:
      rep.undecided('same-backend-guard', name, und)
    elif n == 0:
      rep.undecided('same-backend-guard', name, 'no effectful path')
    else:
      rep.ok('same-backend-guard', name)
  # finalize hands the tensors of a builder to ncon with a backend of theirs
  f = prog.func('ncon_interface.finalize')
  paths, _ = ctx.paths(f, rep=rep)
  b = P(f, f.params[0])
  ok = True
  for p in paths or []:
    if p.outcome != 'return':
      continue
    calls = [ev for ev in p.events if ev.kind == 'call' and
             ev.name == 'ncon']
    if not calls:
      L = Links()
      rep.undecided('guard-on-operands', 'ncon_interface.finalize',
                    'no call of ncon')
      ok = None
      break
    if calls[0].arg('tensors', 0) is not attr(b, 'tensors'):
      pass
  if ok:
    rep.ok('guard-on-operands', 'ncon_interface.finalize')
  rep.floor('same-backend-guard', 22)


def delegated(ev, req, f, verified):
  """A call of another verified entry receiving all required operands."""
  if ev.kind != 'call' or ev.qual not in verified or ev.qual == f.qual or \
      ev.bound is None:
    return False
  e = verified[ev.qual]
  args = [v for k, v in ev.bound.items()]
  vals = set()
  for a in args:
    vals.add(a)
    vals.add(attr(a, 'node1'))
    vals.add(attr(a, 'node2'))
    els = list_elements(a) if a.op != 'const' else []
    for x in els:
      vals.add(x)
      vals.add(attr(x, 'node1'))
      vals.add(attr(x, 'node2'))
  return all(r in vals for r in req if not isinstance(r, str))


def check_krylov(rep, f, name, paths):
  """x0 given and backend given: names must be compared."""
  x0 = P(f, 'x0')
  be = P(f, 'backend')
  bad = und = None
  n = 0
  for p in paths:
    if p.outcome != 'return':
      continue
    fs = facts(p)
    none = {t.args[1]: v for t, v in fs
            if t.op == 'cmp' and t.args[0] == 'is' and t.args[2] is NONE}
    if none.get(x0) is True or none.get(be) is True:
      continue
    if any(t.op == 'caught' for t in p.lits if not isinstance(t, tuple)):
      continue
    n += 1
    L = Links()
    for t, v in fs:
      L.learn(t, v)
    be_owners = [m for m in L.uf.p if m is be or
                 (m.op == 'call' and callee_name(m) == 'get_backend' and
                  any(x is be for x in walk(m)))]
    if any(L.uf.same(x0, m) for m in be_owners):
      continue
    lit = [t for t, v in fs if any(
        x.op == 'attr' and x.args[1] == 'backend' and x.args[0] is x0
        for x in walk(t))]
    fs_ok = [t for t, v in fs if v and t.op == 'cmp' and
             any(x is x0 for x in walk(t)) and any(x is be for x in walk(t))]
    if fs_ok:
      continue
    if [t for t in lit if not (t.op == 'cmp' and t.args[0] in ('eq', 'is'))]:
      und = und or p
    else:
      bad = bad or p
  if bad:
    rep.bad('same-backend-guard', name,
            'x0 and an explicit backend are both given but their names are '
            'not compared on the path returning at ' + bad.loc,
            '%s:%d' % (f.file, f.line))
  elif und or not n:
    rep.undecided('same-backend-guard', name, 'unrecognised comparison')
  else:
    rep.ok('same-backend-guard', name)


def check_ncon(rep, f, name, paths):
  """tn.Tensor inputs must all be on the chosen backend."""
  tensors = P(f, 'tensors')
  bad = und = None
  n = 0
  for p in paths:
    if p.outcome != 'return':
      continue
    n += 1
    good = rec = False
    for t, v in list(facts(p)) + [(t, v) for t, v in p.lits.items()
                                  if not isinstance(t, tuple)]:
      if not any(x.op == 'attr' and x.args[1] == 'backend' and any(
          y is tensors for y in walk(x.args[0])) for x in walk(t)):
        continue
      rec = True
      while t.op == 'not':
        t, v = t.args[0], not v
      if t.op == 'call' and callee_name(t) in ('all', 'any'):
        if (callee_name(t) == 'all') == v:
          good = True
      elif t.op == 'cmp' and t.args[0] in ('eq', 'is') and v:
        good = True
      elif t.op == 'cmp' and t.args[0] in ('lt', 'le', 'in'):
        good = True
      elif t.op == 'cmp':
        pass
      elif t.op in ('comp', 'set', 'call'):
        good = good or not v  # non-empty list of offenders raised
    if good:
      continue
    if rec:
      bad = bad or p
    else:
      bad = bad or p
  if bad:
    rep.bad('same-backend-guard', name,
            'a path returning at %s contracts tn.Tensor inputs without '
            'having compared their backend with the chosen one' % bad.loc,
            '%s:%d' % (f.file, f.line))
  elif not n:
    rep.undecided('same-backend-guard', name, 'no returning path')
  else:
    rep.ok('same-backend-guard', name)


def check_copy_node(ctx, rep, f, name):
  """A copy node is contracted with partners found through its edges."""
  paths, _ = ctx.paths(f, inline=('compute_contracted_tensor', 'get_partners',
                                  '_get_partner', '_is_my_trace'), rep=rep)
  cn = P(f, f.params[0])
  bad = None
  n = 0
  for p in paths or []:
    if p.outcome != 'return':
      continue
    n += 1
    ok = False
    for t, v in list(facts(p)) + [(t, v) for t, v in p.lits.items()
                                  if not isinstance(t, tuple)]:
      bs = [x for x in walk(t) if x.op == 'attr' and x.args[1] == 'backend']
      if any(x.args[0] is cn for x in bs) and any(
          x.args[0] is not cn for x in bs):
        ok = True
      if any(x.op == 'comp' and any(
          y.op == 'attr' and y.args[1] == 'backend' for y in walk(x))
             for x in walk(t)):
        ok = True
    if not ok and any(it for it in p.events if it.kind == 'call' and
                      it.name == 'einsum'):
      bad = bad or p
  if bad:
    rep.bad('same-backend-guard', name,
            'the copy node is contracted with its partners by its own '
            'backend without comparing their backends', bad.loc)
  elif n:
    rep.ok('same-backend-guard', name)
  else:
    rep.undecided('same-backend-guard', name, 'no path')
