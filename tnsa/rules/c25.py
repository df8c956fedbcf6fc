"""Contraction entry points honour the requested edge order. For every function
that takes an output edge order, all paths are enumerated: unless the path
ignores the order, the returned node was reordered by the requested order after
the last contraction, or comes from an entry point to which the order (and the
flag that ignores it) is handed on. The pairwise loop must combine unconnected
nodes, keep every contraction result in the working list and drop exactly the
two nodes it replaced; the guards on the order precede every contraction."""
import ast
from ..terms import T, mk, const, NONE, TRUE, FALSE, walk
from ..lib import short, P, callee_name, callee_recv, facts, attr, call_arg, \
    none_facts
from ..guards import Env, UNK

ASSUMPTIONS = ['a contractor handed in by the caller honours its own arguments',
               'reorder_edges reorders the node in place and returns it '
               '(C07)']
PC = 'tensornetwork.contractors.opt_einsum_paths.path_contractors.'
NC = 'tensornetwork.network_components.'
ORDERS = ('output_edge_order', 'final_edge_order', 'edge_order')
IGNORE = 'ignore_edge_order'
CONTRACT = {'contract_between', 'contract_parallel', 'contract_trace_edges',
            'contract', 'outer_product', 'contract_copy_node', '_remove_edges',
            'outer_product_final_nodes'}
SKIP = {'reorder_edges', 'tensor_from_edge_order'}
REORDER = {'sorted', 'reversed', 'set', 'frozenset', 'flip'}


def order_of(f):
  ps = f.all_params()
  for n in ORDERS:
    if n in ps:
      return n
  return None


def truthy(p, t):
  """Truth of a parameter on the path, None when not tested."""
  for x, v in facts(p):
    if x is t:
      return v
  return None


def same_order(t, o, absent):
  """True / False / None: the order term is the requested one."""
  if t is o:
    return True
  if t is None or t is NONE:
    return False
  if t.op == 'call' and callee_name(t) in ('list', 'tuple') and t.args[1]:
    return same_order(t.args[1][0], o, absent)
  if t.op == 'item' and t.args[1].op == 'slice' and t.args[1] is mk(
      'slice', NONE, NONE, NONE):
    return same_order(t.args[0], o, absent)
  if t.op == 'item' and t.args[1].op == 'slice' and t.args[0] is o:
    return False
  if t.op == 'comp' and not t.args[3] and t.args[2] is o and isinstance(
      t.args[1], T) and (t.args[1] is mk('elem', o) or
                         t.args[1].op == 'item' and
                         t.args[1].args[1] is mk('elem', o)):
    return True
  if t.op == 'call' and callee_name(t) in REORDER:
    return False
  if t.op == 'item' and t.args[1].op == 'slice':
    return False
  if absent:
    return True
  if not any(x is o for x in walk(t)):
    return False
  return None


def run(ctx, rep):
  rep.rule('reorder', 'the returned node was put in the requested order after '
           'the last contraction, on every path that does not ignore the order')
  rep.rule('forward', 'an entry point that delegates hands on the order, the '
           'ignore flag and its tuning arguments')
  rep.rule('refuse', 'a missing or wrong order is refused before contracting')
  rep.rule('all-nodes', 'the pairwise loop combines unconnected nodes, keeps '
           'every result and drops the two nodes it replaced')
  rep.rule('result', 'the node a contraction returns is used')
  rep.rule('cover', 'every positive network size is contracted, the empty one '
           'refused')
  for q, f in sorted(ctx.prog.funcs.items()):
    if f.parent is not None or ctx.is_new(f) or f.name in SKIP or \
        '_test' in q:
      continue
    o = order_of(f)
    if o is None or not q.startswith('tensornetwork.'):
      continue
    ps, _ = ctx.paths(f, rep=rep)
    if not ps:
      continue
    rep.saw(f)
    for p in ps:
      if p.outcome != 'raise':
        reorder(ctx, rep, f, p, o)
    if q.startswith((PC, NC)):
      refuse(rep, f, ps, o)
    if q.startswith(PC):
      tuning(rep, f, ps)
      pairs(ctx, rep, f, ps)
  removal(ctx, rep)
  results(ctx, rep)
  cover(ctx, rep)
  bucket(ctx, rep)
  rep.floor('reorder', 8)
  rep.floor('forward', 4)
  rep.floor('all-nodes', 2)


def entry(ctx, e):
  """The entry point a call goes to (function, order name)."""
  g = ctx.prog.funcs.get(e.qual or '')
  if g is None or g.name in SKIP:
    return None, None
  return g, order_of(g)


def reorder(ctx, rep, f, p, oname):
  inst = short(f.qual)
  loc = '%s:%d' % (f.file, p.line or f.line)
  o = P(f, oname)
  nf = none_facts(p)
  ign = None
  if IGNORE in f.all_params():
    ign = truthy(p, P(f, IGNORE))
  absent = nf.get(o) is True or truthy(p, o) is False
  calls = [e for e in p.events if e.kind == 'call']
  # a callable handed in by the caller
  for e in calls:
    if e.qual is None and e.kw and e.res is not None and \
        e.res.op == 'call' and e.res.args[0].op == 'param':
      kw = dict(e.kw)
      if 'output_edge_order' in kw:
        r = same_order(kw['output_edge_order'], o, absent)
        verdict(rep, 'forward', inst, r, 'the contractor is not handed the '
                'requested order', e.loc)
        if kw.get(IGNORE) is TRUE:
          rep.bad('forward', inst, 'the contractor is told to ignore the '
                  'requested order', e.loc)
        return
      if kw.get(IGNORE) is TRUE:
        rep.check('forward', inst, absent, 'the contractor is told to ignore '
                  'the order although one was given', e.loc)
        return
  # delegated
  for e in calls:
    g, go = entry(ctx, e)
    if g is None or go is None or (g.qual.startswith(NC) and
                                   g.name in CONTRACT):
      continue
    if e.bound is None:
      rep.undecided('forward', inst, 'arguments of ' + g.name)
      return
    r = same_order(e.bound.get(go), o, absent)
    verdict(rep, 'forward', inst, r, '%s is not handed the requested order' %
            g.name, e.loc)
    if IGNORE in g.all_params():
      gi = e.bound.get(IGNORE)
      if IGNORE in f.all_params():
        ok = gi is P(f, IGNORE) or (ign is True and gi is TRUE) or (
            ign is False and gi is FALSE)
        rep.check('forward', inst, ok, '%s is not handed the flag that ignores '
                  'the order' % g.name, e.loc)
      else:
        rep.check('forward', inst, gi is not TRUE, '%s is told to ignore the '
                  'order' % g.name, e.loc)
    return
  if f.name in ('outer_product',):
    return
  if ign is True:
    bad = [e for e in calls if e.name == 'reorder_edges']
    if bad and nf.get(o) is not False:
      rep.bad('reorder', inst, 'the node is reordered although the order is to '
              'be ignored and may be missing', bad[0].loc)
    else:
      rep.ok('reorder', inst)
    return
  if absent and ign is None and f.qual == NC + 'contract_between':
    rep.ok('reorder', inst)
    return
  last = max([i for i, e in enumerate(calls) if e.name in CONTRACT],
             default=-1)
  ro = [e for e in calls[last + 1:] if e.name == 'reorder_edges']
  if not ro:
    v = p.value
    if f.name == 'contract_path' and empty_path(p, P(f, 'path')):
      rep.ok('reorder', inst)   # nothing to contract: the nodes themselves
      return
    if v is None or v is NONE:
      rep.undecided('reorder', inst, 'no value')
      return
    rep.bad('reorder', inst, 'a path returns the node without putting its '
            'edges in the requested order%s' % (
                ' (it is reordered before the last contraction)' if any(
                    e.name == 'reorder_edges' for e in calls) else ''), loc)
    return
  e = ro[-1]
  order = e.arg('edge_order', 0)
  r = same_order(order, o, absent)
  verdict(rep, 'reorder', inst, r, 'the result is reordered by %s instead of '
          'the requested order' % (str(order)[:60],), e.loc)
  if p.value is not None and p.value is not e.recv and p.value is not e.res:
    v, w = p.value, e.recv
    if v.op == 'item' and w is not None and w.op == 'item' and \
        v.args[0] is w.args[0]:
      rep.bad('reorder', inst, 'another node is reordered than is returned',
              e.loc)
    else:
      rep.undecided('reorder', inst, 'reordered node vs returned node')


def empty_path(p, t):
  for x, v in facts(p):
    if x is t and v is False:
      return True
    if v and x.op == 'cmp' and x.args[0] == 'eq' and const(0) in x.args and any(
        callee_name(y) == 'len' and y.args[1] and y.args[1][0] is t
        for y in x.args[1:] if isinstance(y, T)):
      return True
  return False


def verdict(rep, rule, inst, r, msg, loc):
  if r is None:
    rep.undecided(rule, inst, msg)
  else:
    rep.check(rule, inst, r, msg, loc)


def tuning(rep, f, ps):
  """memory_limit, nbranch, optimizer and algorithm reach the delegate."""
  names = [n for n in ('memory_limit', 'nbranch', 'optimizer', 'algorithm')
           if n in f.all_params()]
  if not names or f.name == 'path_solver':
    return
  inst = short(f.qual)
  for p in ps:
    if p.outcome == 'raise':
      continue
    dels = [e for e in p.events if e.kind == 'call' and e.bound and
            e.qual and (e.qual.startswith(PC) or e.name == 'get_path')]
    if not dels:
      continue
    for n in names:
      t = P(f, n)
      used = []
      for e in p.events:
        if e.kind != 'call':
          continue
        vals = list((e.bound or {}).items()) or list(e.kw or ()) + [
            (None, x) for x in e.pos or ()]
        used += [(k, e) for k, v in vals if v is t or (
            isinstance(v, T) and v.op == 'item' and v is t)]
      deep = any(any(x is t for x in walk(v)) for e in dels
                 for v in e.bound.values() if isinstance(v, T))
      if not used and not deep:
        rep.bad('forward', inst, '%s is not handed on' % n, dels[-1].loc)
      elif any(k is not None and k != n and k in (
          'memory_limit', 'nbranch', 'output_edge_order', IGNORE)
               for k, _ in used):
        rep.bad('forward', inst, '%s is handed on as another argument' % n,
                dels[-1].loc)
      else:
        rep.ok('forward', inst)


def refuse(rep, f, ps, oname):
  """Explicit refusals come before any contraction; base and auto require an
  order when several edges dangle, base compares it with the dangling edges."""
  inst = short(f.qual)
  for p in ps:
    if p.outcome != 'raise' or not isinstance(p.node, ast.Raise):
      continue
    done = [e for e in p.events if e.kind == 'call' and e.name in CONTRACT]
    if done:
      rep.bad('refuse', inst, 'an argument is refused only after %s changed '
              'the network' % done[0].name, p.loc)
    else:
      rep.ok('refuse', inst)
  if IGNORE not in f.all_params():
    return
  o, ig = P(f, oname), P(f, IGNORE)
  for p in ps:
    if p.outcome == 'raise' or truthy(p, ig) is not False:
      continue
    calls = [e for e in p.events if e.kind == 'call']
    if not any(e.name in CONTRACT for e in calls) and not any(
        e.name == 'reorder_edges' for e in calls):
      continue
    if f.name not in ('base', 'auto'):
      continue
    fs = facts(p)
    if none_facts(p).get(o) is True:
      lens = [t for t, _ in fs if t.op == 'cmp' and any(
          callee_name(x) == 'len' for x in t.args[1:] if isinstance(x, T))
              and any(callee_name(x) in ('get_subgraph_dangling',
                                         'get_all_edges') for x in walk(t))]
      rep.check('refuse', inst, bool(lens), 'a missing order is accepted '
                'without looking at the number of remaining edges', f.loc
                if hasattr(f, 'loc') else '%s:%d' % (f.file, f.line))
      for t in lens[:1]:
        bound_two(rep, inst, t, dict(fs).get(t), f)
    elif f.name == 'base':
      cmpd = [t for t, v in fs if t.op == 'cmp' and t.args[0] in (
          'eq', 'ne') and any(x is o for x in walk(t)) and any(
              callee_name(x) == 'get_subgraph_dangling' for x in walk(t))]
      und = any(any(x is o for x in walk(t)) and t is not o and not (
          t.op == 'cmp' and t.args[2] is NONE) for t, _ in fs)
      weak = [t for t, v in fs if t.op == 'cmp' and t.args[0] in (
          'le', 'lt', 'ge', 'gt') and any(x is o for x in walk(t)) and any(
              callee_name(x) == 'get_subgraph_dangling' for x in walk(t)) and
              not any(callee_name(x) == 'len' for x in walk(t))]
      if len(set(weak)) == 1 and not cmpd:
        rep.bad('refuse', inst, 'the order may be a proper part of the '
                'remaining edges, or have more', weak[0].loc if hasattr(
                    weak[0], 'loc') else '%s:%d' % (f.file, f.line))
      elif cmpd:
        rep.ok('refuse', inst)
      elif und:
        rep.undecided('refuse', inst, 'comparison with the remaining edges')
      else:
        rep.bad('refuse', inst, 'the order is never compared with the '
                'remaining edges before contracting', '%s:%d' % (
                    f.file, f.line))


def bound_two(rep, inst, t, v, f):
  """The accepted side holds for one remaining edge and not for two."""
  x = t.args[1]
  if callee_name(x) != 'len':
    x = t.args[2]
  if callee_name(x) != 'len' or v is None:
    return

  def holds(n):
    e = Env({x: n})
    r = e.truth(t)
    return None if r is UNK or r is None else (r == v)
  one, two = holds(1), holds(2)
  if one is None or two is None:
    return
  rep.check('refuse', inst, one and not two, 'a missing order is accepted with '
            'two remaining edges' if two else 'a missing order is refused with '
            'one remaining edge', '%s:%d' % (f.file, f.line))


def pairs(ctx, rep, f, ps):
  inst = short(f.qual)
  for p in ps:
    if p.outcome == 'raise':
      continue
    for k, e in enumerate(p.events):
      if e.kind != 'call' or e.qual != NC + 'contract_between' or not e.bound:
        continue
      b = e.bound
      x, y, allow = b.get('node1'), b.get('node2'), b.get(
          'allow_outer_product')
      if allow is FALSE or allow is NONE:
        rep.bad('all-nodes', inst, 'two nodes without a shared edge are not '
                'combined by an outer product', e.loc)
        continue
      rep.check('all-nodes', inst, x is not y, 'a node is contracted with '
                'itself', e.loc)
      if x.op != 'item' or y.op != 'item' or x.args[0] is not y.args[0]:
        rep.undecided('all-nodes', inst, 'nodes of the step')
        continue
      a, c = x.args[1], y.args[1]
      kept = dropped = None
      for l in p.events[k + 1:]:
        if l.kind == 'carry' and isinstance(l.value, T) and any(
            z is x.args[0] for z in walk(l.value)):
          kept = any(z is e.res for z in walk(l.value))
          for z in walk(l.value):
            if callee_name(z) == 'multi_remove':
              ix = call_arg(z, 'indices', 1)
              if ix is not None and ix.op in ('list', 'tuple', 'set'):
                dropped = set(ix.args[0]) == {a, c}
      if kept is None:
        rep.undecided('all-nodes', inst, 'working list')
      else:
        rep.check('all-nodes', inst, kept, 'the contracted node is not kept in '
                  'the working list', e.loc)
      if dropped is not None:
        rep.check('all-nodes', inst, dropped, 'the nodes dropped from the '
                  'working list are not the two that were contracted', e.loc)


def removal(ctx, rep):
  """The helper that shrinks the working list keeps an element exactly when its
  position is none of those to be removed (any two positions, either order)."""
  for q, f in sorted(ctx.prog.funcs.items()):
    if not q.startswith('tensornetwork.contractors.') or \
        f.name != 'multi_remove' or f.parent is not None:
      continue
    elems, ind = P(f, 'elems'), P(f, 'indices')
    ps, _ = ctx.paths(f, rep=rep)
    for p in ps:
      r = p.value
      if p.outcome != 'return':
        continue
      inst = short(q)
      if not isinstance(r, T) or r.op != 'comp' or r.args[2] != mk(
          'enumerate', elems) and not any(x is elems for x in walk(r.args[2])):
        rep.undecided('all-nodes', inst, 'form of the kept list')
        continue
      if r.args[1] is not mk('elem', elems):
        rep.undecided('all-nodes', inst, 'kept element')
        continue
      wrong = None
      unk = False
      for drop in ([0, 1], [1, 0], [0, 3], [3, 1], [2, 3]):
        for pos in range(4):
          e = Env({mk('idx', elems): pos, ind: list(drop), mk(
              'call', mk('builtin', 'len'), (elems,), ()): 4})
          v = [e.truth(c) for c in r.args[3]]
          if any(x is UNK for x in v):
            unk = True
          elif all(v) != (pos not in drop):
            wrong = (drop, pos)
      if wrong:
        rep.bad('all-nodes', inst, 'removing positions %s %s position %d' % (
            wrong[0], 'keeps' if wrong[1] in wrong[0] else 'drops', wrong[1]),
                '%s:%d' % (f.file, f.line))
      elif unk:
        rep.undecided('all-nodes', inst, 'condition of the kept list')
      else:
        rep.ok('all-nodes', inst)


def results(ctx, rep):
  """A statement that contracts and throws the result away loses a node."""
  for q, f in sorted(ctx.prog.funcs.items()):
    if not q.startswith('tensornetwork.contractors.') or f.parent is not None:
      continue
    if f.node is None:
      continue
    for n in ast.walk(f.node):
      if isinstance(n, ast.Call):
        c = n.func
        name = c.id if isinstance(c, ast.Name) else getattr(c, 'attr', '')
        if name in CONTRACT and name != '_remove_edges':
          rep.count('contraction sites')
      if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
        c = n.value.func
        name = c.id if isinstance(c, ast.Name) else getattr(c, 'attr', '')
        if name in CONTRACT:
          rep.bad('result', short(q), 'the node %s returns is thrown away' %
                  name, '%s:%d' % (f.file, n.lineno))
    rep.ok('result', short(q))


def cover(ctx, rep):
  f = ctx.prog.funcs.get(PC + 'auto')
  if f is None:
    rep.undecided('cover', 'auto', 'anchor missing')
    return
  ps, _ = ctx.paths(f, rep=rep)
  inst = short(f.qual)
  for n in list(range(0, 21)) + [100, 1000]:
    norm = rais = unk = 0
    for p in ps or []:
      ok = True
      for t, v in facts(p):
        if any(callee_name(z) in ('get_all_edges', 'get_all_nondangling',
                                  'get_subgraph_dangling') for z in walk(t)):
          continue
        ln = [x for x in walk(t) if callee_name(x) == 'len' or
              x is P(f, 'nodes')]
        if not ln:
          continue
        r = Env({x: n for x in ln}).truth(t)
        if r is UNK or r is None:
          unk += 1
          continue
        if bool(r) != v:
          ok = False
          break
      if ok:
        if p.outcome == 'raise':
          rais += 1
        else:
          norm += 1
          if p.value is None or p.value is NONE:
            rep.bad('cover', inst, 'a network of %d nodes gives no result' % n,
                    p.loc)
    if unk:
      rep.undecided('cover', '%s n=%d' % (inst, n), 'size test')
    elif n == 0:
      rep.check('cover', inst + ' n=0', norm == 0, 'the empty network is '
                'accepted', '%s:%d' % (f.file, f.line))
    else:
      rep.check('cover', '%s n=%d' % (inst, n), norm > 0, 'a network of %d '
                'nodes is refused' % n, '%s:%d' % (f.file, f.line))


def bucket(ctx, rep):
  f = ctx.prog.funcs.get('tensornetwork.contractors.bucket_contractor.bucket')
  if f is None:
    rep.undecided('all-nodes', 'bucket', 'anchor missing')
    return
  ps, _ = ctx.paths(f, rep=rep)
  rep.saw(f)
  inst = short(f.qual)
  for p in ps or []:
    ev = p.events
    for k, e in enumerate(ev):
      if e.kind != 'call' or e.name != 'contract_copy_node':
        continue
      cp = e.arg('copy_node', 0)
      v = p.value
      if v is None:
        continue
      rep.check('all-nodes', inst, any(x is e.res for x in walk(v)),
                'the node contracted from a copy node is not kept', e.loc)
      part = [(i, x) for i, x in enumerate(ev) if x.kind == 'call' and
              x.name == 'get_partners' and x.recv is cp]
      if not part:
        part = [(i, x) for i, x in enumerate(ev) if x.kind == 'call' and
                x.name == 'get_partners' and (x.bound or {}).get('self') is cp]
      if part:
        rep.check('all-nodes', inst, part[0][0] < k, 'the partners are read '
                  'after the copy node was contracted away', e.loc)
        rep.check('all-nodes', inst, any(x is part[0][1].res
                                         for x in walk(v)),
                  'the partners stay in the network', e.loc)
      else:
        rep.undecided('all-nodes', inst, 'partners')
      hit = [x for x in walk(v) if x.op in ('list', 'tuple', 'set') and
             cp in x.args[0]] + [x for x in walk(v) if x.op == 'call' and
                                 callee_name(x) in ('remove', 'discard') and
                                 cp in x.args[1]]
      hit += [x for x in ev if x.kind == 'call' and x.name in (
          'remove', 'discard') and cp in (x.pos or ())]
      rep.check('all-nodes', inst, bool(hit), 'the copy node stays in the '
                'network', e.loc)
