"""Edge life cycle: on every returning path of the contraction, flattening and
splitting primitives each consumed edge is disabled (and no surviving one is),
and a node whose edges were redirected to another node receives fresh edges
under its own axis names."""
from ..terms import T, walk, NONE, mk
from ..lib import (P, attr, facts, list_elements, callee_name, callee_recv,
                   is_call, short, feasible)
from ..net import Book, strip_copy, strip_list
from .c05 import resolve_edge, canon_elem, node_rel, simple, MODULES

ASSUMPTIONS = [
    'a loop body stands for an arbitrary iteration; a loop over edges that '
    'disables each of them disables all of them',
    'edges handed to another node are recognised by update_axis, by node '
    'setters and by edge-list membership'
]

# primitive -> which of its inputs are consumed
CONSUMES = {
    'network_components._remove_edges': ('elem', 'edges'),
    'network_components._remove_trace_edge': ('self', 'edge'),
    'network_components._flatten_trace_edges': ('elem', 'edges'),
    'network_components.flatten_edges': ('elem', 'edges'),
    'network_components._split_trace_edge': ('self', 'edge'),
    'network_components.split_edge': ('self', 'edge'),
    'network_components.contract_copy_node': ('edges', 'copy_node'),
}
# operations that consume no edge
KEEPS = ('network_components.outer_product',
         'network_components.outer_product_final_nodes',
         'network_components.connect', 'network_components.disconnect',
         'network_components.slice_edge',
         'network_components.AbstractNode.reorder_edges',
         'network_components.AbstractNode.reorder_axes',
         'network_components.AbstractNode.fresh_edges',
         'network_components.AbstractNode.add_edge',
         'network_components.Edge.disconnect',
         'network_components.get_shared_edges',
         'network_components.get_parallel_edges',
         'network_components.get_all_dangling',
         'network_components.get_all_edges',
         'network_operations.split_node', 'network_operations.split_node_qr',
         'network_operations.split_node_rq',
         'network_operations.split_node_full_svd',
         'network_operations.redirect_edge',
         'network_operations.copy', 'network_operations.norm')
DELEGATES = {
    'network_components.flatten_edges': ('_flatten_trace_edges',),
    'network_components.split_edge': ('_split_trace_edge',),
}


def run(ctx, rep):
  rep.rule('disabled', 'every consumed edge is disabled on every returning '
           'path that rewires')
  rep.rule('survivor', 'an edge handed to a result is not disabled')
  rep.rule('keeps', 'an operation that consumes no edge disables none')
  rep.rule('freed', 'a node whose edges went to another node gets fresh '
           'edges under its own axis names')
  rep.rule('complete', 'a node built from a contraction of node tensors is '
           'wired with exactly the contracted edges')
  rep.rule('disable', 'Edge.disable marks the edge and forgets its nodes')
  res = {}

  def put(rule, inst, bad, loc):
    k = (rule, inst)
    if bad:
      res[k] = (bad, loc)
    else:
      res.setdefault(k, None)

  for f, paths in ctx.scan(rep):
    sq = short(f.qual)
    if not sq.startswith(MODULES):
      continue
    for p in paths:
      if p.outcome != 'return' or not feasible(p):
        continue
      b = Book(p)
      if sq in CONSUMES:
        consumed(f, sq, p, b, put)
      if sq in KEEPS and b.disabled:
        put('keeps', sq, 'disables %s' % b.disabled[0][0],
            b.disabled[0][1].loc)
      elif sq in KEEPS:
        put('keeps', sq, None, p.loc)
      if b.disabled:
        survivors(f, sq, p, b, put)
      if b.claims:
        freed(f, sq, p, b, put)
      complete(f, sq, p, b, put)
  for q in CONSUMES:
    if ctx.prog.has_func(q) is None:
      rep.undecided('disabled', q, 'not found')
  for (rule, inst), r in sorted(res.items()):
    if r is None:
      rep.ok(rule, inst)
    else:
      rep.bad(rule, inst, *r)
  rep.floor('freed', 5)
  rep.floor('disabled', 4)
  disable(ctx, rep)


def rewires(p, b):
  """The path changes the network (new edges, claims, or a Node result)."""
  return bool(b.claims or b.edgesets or b.fresh or any(
      e.kind == 'setattr' and e.name in ('tensor', '_tensor')
      for e in p.events))


def covers(dis, want):
  """Does the disabled edge term cover the wanted edge term?"""
  d, w = canon_set(dis), canon_set(want)
  return d is w


def canon_set(t):
  if t.op == 'elem':
    x = t.args[0]
    while True:
      y = strip_list(x)
      if y.op == 'call' and y.args[0].op == 'ext' and y.args[0].args[
          0].split('.')[-1] in ('set', 'frozenset', 'enumerate',
                                'reversed') and len(y.args[1]) == 1:
        y = y.args[1][0]
      if y.op == 'comp' and y.args[1].op == 'elem' and not (
          len(y.args) > 3 and y.args[3]):
        y = y.args[1].args[0]
      if y is x:
        break
      x = y
    return mk('elem', x)
  return t


def consumed(f, sq, p, b, put):
  mode, pname = CONSUMES[sq]
  if pname not in f.all_params():
    return
  par = P(f, pname)
  if mode == 'self':
    want = par
  elif mode == 'elem':
    want = mk('elem', par)
  else:
    want = mk('elem', attr(par, 'edges'))
  if not rewires(p, b):
    return
  if any(e.kind == 'call' and e.name in DELEGATES.get(sq, ())
         for e in p.events) and not b.claims:
    return
  bad = None
  loc = p.loc
  if any(v and t.op == 'attr' and t.args[1] == 'is_disabled' and covers(
      t.args[0], want) for t, v in facts(p)):
    return
  if not any(e is not None and (covers(e, want) or not simple(e))
             for e, _ in b.disabled):
    bad = 'a path returns without disabling %s' % want
    stale = [e for e, _ in b.disabled if any(
        x.op == 'freshedges' for x in walk(e))]
    if stale:
      bad = 'the edges are disabled after they were replaced (%s)' % stale[0]
  for e, ev in b.disabled:
    if e is not None and covers(e, want) and ev.loops:
      # conditional disabling inside the loop
      pass
  put('disabled', sq, bad, loc)


def survivors(f, sq, p, b, put):
  live = {}
  for e, n, a, ev in b.claims:
    if e is not None and ev.kind != 'setattr' or (e is not None):
      live[canon_set(e)] = ev
  for e, n, a, ev in b.installs:
    if e is not None:
      live.setdefault(canon_set(e), ev)
  for e, ev in b.disabled:
    if e is None:
      continue
    c = canon_set(e)
    bad = None
    if any(x.op == 'freshedges' for x in walk(c)):
      bad = 'disables the fresh edges of %s' % c
    elif c in live:
      bad = 'disables %s, which belongs to the result' % c
    put('survivor', sq, bad, ev.loc)


def owner_of(e):
  """Node whose edge list the edge was taken from."""
  if e.op == 'elem':
    x = canon_set(e).args[0]
    if x.op == 'item' and x.args[1].op == 'slice':
      x = x.args[0]
    if x.op == 'attr' and x.args[1] in ('edges', '_edges'):
      return x.args[0]
  return None


def whole(b, names, old):
  """The names mention all axis names of the node, not single entries only."""
  todo = [names]
  while todo:
    t = todo.pop()
    if isinstance(t, (tuple, list)):
      todo.extend(t)
      continue
    if not isinstance(t, T):
      continue
    if t.op == 'attr' and t.args[1] in ('axis_names', '_axis_names') and \
        b.node_eq(t.args[0], old):
      return True
    if t.op == 'item' and t.args[0].op == 'attr' and t.args[0].args[1] in (
        'axis_names', '_axis_names') and t.args[1].op != 'slice':
      todo.append(t.args[1])
      continue
    if t.op in ('free', 'lc', 'param', 'opaque'):
      return t.op != 'param'
    todo.extend(t.args)
  return False


def freed(f, sq, p, b, put):
  if f.name in ('update_axis', '__init__', 'connect', 'disconnect'):
    return
  olds = {}
  for e, n, a, ev in b.claims:
    if e is None or n is None or n is NONE or e.op == 'new':
      continue
    old = None
    if ev.kind == 'call':
      old = ev.arg('old_node', 1)
    else:
      old = owner_of(e)
      # the end that was tested to be the old node
      for t, v in facts(p, ev):
        if v and t.op == 'cmp' and t.args[0] == 'is' and attr(
            e, ev.name) in t.args[1:]:
          old = t.args[1] if t.args[2] is attr(e, ev.name) else t.args[2]
    if old is None or b.node_eq(old, n):
      continue
    if node_rel(b, old, n) != 'ne' and not (
        n.op in ('param', 'new') and simple(old)):
      continue
    olds.setdefault(old, ev)
  for old, ev in olds.items():
    fr = [x for n, x in b.fresh if n is not None and b.node_eq(n, old)]
    bad = None
    loc = ev.loc
    if not fr:
      again = [i for i in b.installs if i[1] is not None and
               b.node_eq(i[1], old) and i[0] is not None and
               i[0].op == 'new']
      if again or any(n is not None and b.node_eq(n, old)
                      for n, _, _ in b.edgesets):
        continue
      if any(n is None or not simple(n) for n, _ in b.fresh):
        continue
      bad = '%s hands its edges to another node but keeps them' % old
    else:
      x = fr[-1]
      loc = x.loc
      names = x.arg('axis_names', 0)
      if names is not None and names.op == 'attr' and names.args[1] in (
          'axis_names', '_axis_names') and not b.node_eq(names.args[0], old):
        bad = '%s gets fresh edges named after %s' % (old, names.args[0])
      elif names is not None and names.op in ('list', 'append', 'comp') and \
          not whole(b, names, old):
        bad = '%s gets fresh edges under other names' % old
      elif names is not None and names.op == 'param':
        bad = '%s gets fresh edges named %s' % (old, names)
      else:
        # freshened before its edges were read for the hand-over?
        for e, n, a, cev in b.claims:
          if e is not None and any(y.op == 'freshedges' and b.node_eq(
              y.args[0], old) for y in walk(e)):
            bad = 'the fresh edges of %s are handed over' % old
    put('freed', sq + ' ' + str(old)[:60], bad, loc)


def complete(f, sq, p, b, put):
  """Node(tensordot(A.tensor, B.tensor, axes)) -> _remove_edges(...)."""
  for ev in p.events:
    if ev.kind != 'call' or ev.res is None or ev.res.op != 'new' or \
        ev.name != 'Node' or not ev.bound:
      continue
    t = ev.bound.get('tensor')
    if t is None:
      continue
    nm = callee_name(t)
    if nm not in ('tensordot', 'trace'):
      continue
    _, kw = t.args[1], dict(t.args[2])
    pos = t.args[1]

    def arg(n, i):
      return kw.get(n, pos[i] if i < len(pos) else None)

    ops = [arg('a', 0), arg('b', 1)] if nm == 'tensordot' else [
        arg('tensor', 0)]
    ops = [o for o in ops if o is not None]
    if not all(any(x.op == 'attr' and x.args[1] == 'tensor'
                   for x in walk(o)) for o in ops):
      continue
    rm = [e for e in p.events if e.kind == 'call' and e.name in
          ('_remove_edges', '_remove_trace_edge') and
          e.arg('new_node', 3 if e.name == '_remove_edges' else 1) is ev.res]
    if not rm:
      if any(c[1] is ev.res for c in b.claims) or not mentions_owner(f, p,
                                                                     ev):
        continue
      put('complete', sq, 'the contraction result is returned without '
          'retiring the contracted edges', ev.loc)
      continue
    r = rm[0]
    bad = None
    if r.name == '_remove_edges':
      edges = r.arg('edges', 0)
      ax = arg('axes', 2)
      src = {x.args[0] for x in walk(ax) if x.op == 'attr' and x.args[1] in
             ('axis1', 'axis2')} if ax is not None else set()
      have = list_elements(edges, get_nodes=False) if edges is not None else []
      have = {canon_set(h) for h in have}
      got = {canon_set(s) for s in src}
      if src and have and all(simple(x) for x in have | got):
        extra = got - have
        missing = have - got
        if extra:
          bad = 'the axes of %s are contracted but the edge is not retired' % \
              list(extra)[0]
        elif missing:
          bad = '%s is retired but its axes are not contracted' % \
              list(missing)[0]
      n1, n2 = r.arg('node1', 1), r.arg('node2', 2)
      if bad is None and nm == 'tensordot' and n1 is not None and \
          n2 is not None and all(o.op == 'attr' for o in ops):
        o1, o2 = ops[0].args[0], ops[1].args[0]
        if {o1, o2} == {n1, n2} and o1 is not n1:
          bad = 'the tensor is contracted as (%s, %s) but wired as (%s, %s)' \
              % (o1, o2, n1, n2)
        elif {o1, o2} != {n1, n2} and all(simple(x) for x in (o1, o2, n1,
                                                              n2)):
          bad = 'the edges of (%s, %s) are retired for a contraction of ' \
              '(%s, %s)' % (n1, n2, o1, o2)
    else:
      e = r.arg('edge', 0)
      src = {x.args[0] for x in walk(t) if x.op == 'attr' and x.args[1] in
             ('axis1', 'axis2')}
      if src and e not in src:
        bad = 'the trace over %s retires %s' % (list(src)[0], e)
      o = [x for x in walk(t) if x.op == 'attr' and x.args[1] in (
          'axis1', 'axis2')]
      ks = {x.args[1] for x in o}
      if bad is None and len(ks) == 1:
        bad = 'only %s takes part in the trace' % list(ks)[0]
    put('complete', sq, bad, r.loc)


def mentions_owner(f, p, ev):
  """The new node is (part of) what is returned."""
  return p.value is not None and any(x is ev.res for x in walk(p.value))


def disable(ctx, rep):
  q = 'network_components.Edge.disable'
  f = ctx.prog.has_func(q)
  if f is None:
    rep.undecided('disable', q, 'not found')
    return
  ps, _ = ctx.paths(f, rep=rep)
  me = P(f, f.params[0])
  for p in ps:
    if p.outcome != 'return':
      continue
    marked = any(e.kind == 'setattr' and e.recv is me and e.name in
                 ('is_disabled', '_is_disabled') and e.value.op == 'const' and
                 e.value.args[0] is True for e in p.events)
    nodes = [e for e in p.events if e.kind == 'setattr' and e.recv is me and
             e.name == '_nodes']
    bad = None
    if not marked:
      bad = 'a path does not mark the edge disabled'
    elif nodes:
      v = nodes[-1].value
      if v.op in ('list', 'tuple') and any(x is not NONE for x in v.args[0]):
        bad = 'the nodes are kept'
    else:
      items = [e for e in p.events if e.kind == 'setitem' and e.recv is attr(
          me, '_nodes')]
      if not items:
        bad = 'the edge keeps references to its nodes'
    rep.check('disable', q, bad is None, bad, p.loc)
