"""Back-pointer pairing: on every returning path of every function that builds
or rewires a network, the (node, axis) an edge is installed at must be one the
edge was told about (constructor ends, update_axis, node/axis setters), every
such claim must be installed, the two ends of a trace edge must be different
axes, node and axis of one end must come from the same end of the source edge,
reordering permutes tensor, edges and axis names by one permutation, and axis
removal shifts each end by the number of removed axes before it."""
from ..terms import walk, NONE, const
from ..lib import (P, attr, facts, list_elements, callee_name, callee_recv,
                   is_call, short, feasible, none_facts)
from ..net import (Book, axis_rel, int_rel, lin, strip_copy, cross_end,
                   ends_related, rank_owner, strip_axis, atom)
from ..terms import mk

ASSUMPTIONS = [
    'a loop body stands for an arbitrary iteration',
    'two nodes are the same only where a test says so; different parameters '
    'are different nodes',
    'connect, disconnect, add_edge and fresh_edges are analysed themselves '
    'and relied on elsewhere'
]

MODULES = ('network_components', 'network_operations', 'utils', 'quantum.',
           'linalg.node_linalg', 'contractors.', 'split', 'tensor',
           'ncon_interface', 'matrixproductstates.')

FUZZY = ('lc', 'phi', 'opaque', 'free', 'unknown', 'caught', 'star')


def simple(t):
  return not any(x.op in FUZZY for x in walk(t))


def resolve_edge(e):
  """Edge terms an element term stands for."""
  if e.op == 'elem':
    els = list_elements(e.args[0], get_nodes=False)
    els = [x for x in els if x is not e]
    if els:
      out = []
      for x in els:
        out += resolve_edge(x) if x.op == 'elem' else [x]
      return out
  return [canon_elem(e)]


def canon_elem(e):
  if e.op == 'elem':
    return mk('elem', strip_copy(e.args[0]))
  return e


def node_rel(b, x, y):
  if b.node_eq(x, y):
    return 'eq'
  if simple(x) and simple(y):
    if x.op == 'new' and y.op == 'new':
      return 'ne'
    if x.op == 'new' or y.op == 'new':
      return 'ne' if {x.op, y.op} <= {'new', 'param', 'attr', 'elem'} else None
    if x.op == 'param' and y.op == 'param':
      return 'ne'
    if x.op == y.op == 'attr' and x.args[0] is y.args[0] and {
        x.args[1], y.args[1]
    } == {'node1', 'node2'}:
      return 'ne'
    if x.op == y.op == 'item' and x.args[0] is y.args[0]:
      return 'ne'
  return None


def run(ctx, rep):
  rep.rule('install-matches-claim', 'an edge is stored at (node, axis) only if '
           'it names that node and axis as an end')
  rep.rule('claim-installed', 'every end an edge is given is stored at that '
           'node and axis')
  rep.rule('one-end', 'node and axis of one end stem from the same end')
  rep.rule('trace-ends', 'both ends of a new trace edge are different axes')
  rep.rule('handed-edge-updated', 'an edge of another node is updated when it '
           'is stored in a result node')
  rep.rule('edge-list', 'edges stored through an edge list sit at the axis '
           'they name')
  rep.rule('axis-names-kept', 'replacing the edge list of a node renews its '
           'axis names')
  rep.rule('one-permutation', 'tensor, edges and axis names are permuted by '
           'the same permutation')
  res = {}

  def put(rule, inst, bad, loc):
    k = (rule, inst)
    if bad:
      res[k] = (bad, loc)
    else:
      res.setdefault(k, None)

  for f, paths in ctx.scan(rep):
    sq = short(f.qual)
    if not sq.startswith(MODULES):
      continue
    if f.name in ('add_edge',):
      continue
    for p in paths:
      if p.outcome != 'return' or not feasible(p):
        continue
      b = Book(p)
      if b.claims or b.installs or b.edgesets:
        path_rules(f, sq, p, b, put)
  for (rule, inst), r in sorted(res.items()):
    if r is None:
      rep.ok(rule, inst)
    else:
      rep.bad(rule, inst, *r)
  rep.floor('install-matches-claim', 10)
  rep.floor('claim-installed', 12)
  update_axis(ctx, rep)
  add_edge(ctx, rep)
  fresh(ctx, rep)
  node_init(ctx, rep)
  trace_shift(ctx, rep)
  keep_rest(ctx, rep)
  redirect(ctx, rep)


def path_rules(f, sq, p, b, put):
  nf = none_facts(p)
  byedge = {}
  for e, n, a, ev in b.claims:
    if e is None or n is None or a is None or nf.get(n) is True:
      continue
    for x in resolve_edge(e):
      byedge.setdefault(x, []).append((n, a, ev))
    x = cross_end(n, a)
    if x is not None:
      put('one-end', sq, 'an end takes its node from %s and its axis from the '
          'other end (%s)' % (n, a) if x else None, ev.loc)
  used = set()
  # installs
  for e, n, a, ev in b.installs:
    if e is None or n is None or a is None or e is NONE:
      continue
    x = cross_end(n, a)
    if x is not None:
      put('one-end', sq, 'stored at the node of one end and the axis of the '
          'other (%s, %s)' % (n, a) if x else None, ev.loc)
    for ee in resolve_edge(e):
      cl = byedge.get(ee)
      if not cl:
        # an edge of another node stored in a new node
        if ee.op in ('elem', 'item') and ee.args[0].op == 'attr' and \
            ee.args[0].args[1] in ('edges',) and n.op == 'new' and \
            f.name != 'copy':
          put('handed-edge-updated', sq, 'an edge of %s is stored in the '
              'result without being redirected to it' % ee.args[0].args[0],
              ev.loc)
        continue
      best = None
      for (cn, ca, cev) in cl:
        nr = node_rel(b, cn, n)
        ar = axis_rel(ca, a)
        if e.op == 'elem' and e.args[0] is not (ee.args[0] if ee.args else
                                                None) and strip_copy(
                                                    e.args[0]) is not (
                                                        ee.args[0] if ee.op ==
                                                        'elem' else None):
          ar = spread(e, ee, ca, a)
        if nr == 'eq' and ar == 'eq':
          best = 'eq'
          used.add((ee, cn, ca))
          break
        if nr != 'ne' and ar != 'ne':
          best = best or 'maybe'
          used.add((ee, cn, ca))
      put('install-matches-claim', sq, None if best else
          'an edge is stored at (%s, axis %s) but only names %s' %
          (n, a, '; '.join('(%s, axis %s)' % (x[0], x[1]) for x in cl))[:400],
          ev.loc)
  # edge lists
  for n, v, ev in b.edgesets:
    edge_list(f, sq, p, b, n, v, ev, byedge, used, put)
  # claims without install
  returned = set(walk(p.value)) if p.value is not None else set()
  for e, cl in byedge.items():
    for (n, a, ev) in cl:
      if (e, n, a) in used:
        put('claim-installed', sq, None, ev.loc)
        continue
      if f.name in ('__init__', 'update_axis', '_load_edge') and f.cls and \
          f.cls.name == 'Edge' and f.name != '_load_edge':
        continue
      # connected right away: connect() replaces both edges
      conn = [c for c in p.events if c.kind == 'call' and c.name in
              ('connect', '__xor__') and c.bound and
              any(y is e for y in c.bound.values())]
      listed = any(any(y is e for y in walk(v)) for _, v, _ in b.edgesets)
      if listed:
        put('claim-installed', sq, None, ev.loc)
        continue
      same_node = [i for i in b.installs if i[1] is not None and
                   node_rel(b, i[1], n) != 'ne' and i[0] is not None and
                   (e in resolve_edge(i[0]) or not simple(i[0]))]
      if same_node:
        put('claim-installed', sq, 'end (%s, axis %s) of an edge is not where '
            'it is stored' % (n, a) if all(
                axis_rel(i[2], a) == 'ne' for i in same_node) else None,
            ev.loc)
        continue
      if any(x[0] is n or (x[0] is not None and node_rel(b, x[0], n) != 'ne'
                          ) for x in b.edgesets):
        continue
      unk = any(i[1] is not None and node_rel(b, i[1], n) is None
                for i in b.installs)
      # a loop over the ends that found this arbitrary end to be absent
      if n.op == 'item' and any(
          v and t is not n and (t in list_elements(n.args[0]) or any(
              x is n.args[0] for x in walk(t))) for t, v in nf.items()):
        continue
      if unk:
        continue
      put('claim-installed', sq, 'an edge is given the end (%s, axis %s) but '
          'never stored there%s' % (n, a, ' (connect needs it)' if conn else
                                    ''), ev.loc)
  # trace ends
  for ev in p.events:
    if ev.kind == 'call' and ev.name == 'Edge' and ev.res is not None and \
        ev.res.op == 'new' and ev.bound:
      n1, n2 = ev.bound.get('node1'), ev.bound.get('node2')
      if n2 is None or n2 is NONE or not b.node_eq(n1, n2):
        continue
      a1, a2 = ev.bound.get('axis1'), ev.bound.get('axis2')
      if a1 is None or a2 is None:
        continue
      s1, s2 = strip_axis(a1), strip_axis(a2)
      bad = None
      if s1 is s2 or int_rel(s1, s2) == 'eq':
        bad = 'both ends are axis %s' % a1
      elif {s1.op, s2.op} == {'idx', 'attr'}:
        x, y = (s1, s2) if s1.op == 'idx' else (s2, s1)
        if y.args[0].op == 'elem' and strip_copy(
            y.args[0].args[0]) is strip_copy(x.args[0]):
          bad = 'the ends are the position of the edge in the list and its ' \
              '%s, which coincide when it is stored at that end' % y.args[1]
      put('trace-ends', sq, bad, ev.loc)


def spread(e, ee, ca, a):
  """Claim on elements of part lists vs install over the joined list."""
  src = strip_copy(e.args[0])
  if a.op == 'idx' and strip_copy(a.args[0]) is src and src.op == 'bin' and \
      src.args[0] == 'Add':
    left, right = strip_copy(src.args[1]), strip_copy(src.args[2])
    if ee is mk('elem', left):
      want = mk('idx', left)
      r = axis_rel(ca, want)
      return r
    if ee is mk('elem', right):
      want = mk('bin', 'Add', mk('idx', right), mk('call', mk('ext', 'len'),
                                                   (left,), ()))
      r = int_rel(ca, want)
      if r:
        return r
      la, c1 = lin(ca)
      if mk('idx', right) in la and len(la) == 1:
        return 'ne'
      return None
  return None


def parts(v):
  """Flatten list concatenations."""
  if v.op == 'bin' and v.args[0] == 'Add':
    return parts(v.args[1]) + parts(v.args[2])
  return [v]


def edge_list(f, sq, p, b, n, v, ev, byedge, used, put):
  own = lambda t: t.op == 'attr' and t.args[1] in (
      'edges', '_edges') and b.node_eq(t.args[0], n)
  ps = parts(v)
  base = ps[0]
  shortened = False
  if base.op == 'item' and base.args[1].op == 'slice' and (
      own(base.args[0]) or True):
    lo, hi, st = base.args[1].args
    if lo is NONE and hi is not NONE and st is NONE and own(base.args[0]):
      shortened = True
      pos = lin(hi)
      off = 0
      for q in ps[1:]:
        if q.op == 'list':
          for x in q.args[0]:
            for (cn, ca, cev) in byedge.get(x, []):
              used.add((x, cn, ca))
              want = (dict(pos[0]), pos[1] + off)
              got = lin(ca)
              bad = None
              if got != want:
                d = dict(got[0])
                for k, c in want[0].items():
                  d[k] = d.get(k, 0) - c
                  if not d[k]:
                    del d[k]
                if not d:
                  bad = 'the edge appended at position %s+%d names axis %s' % (
                      hi, off, ca)
                elif len(d) == 1 and list(d)[0].op == 'idx' and ev.loops and \
                    list(d.values()) == [1] and got[1] == want[1]:
                  bad = None
                elif set(got[0]) <= {k for k in got[0] if k.op == 'idx'} and \
                    ev.loops:
                  bad = 'the edge appended after %s names axis %s' % (hi, ca)
              if node_rel(b, cn, n) == 'ne':
                bad = 'the edge stored in %s names %s' % (n, cn)
              put('edge-list', sq, bad, ev.loc)
            off += 1
        else:
          break
  else:
    # whole list replaced: reordering
    el = list_elements(v)
    if len(el) == 1:
      el = el[0]
      src = None
      vv = strip_copy(v)
      if vv.op == 'comp':
        src = strip_copy(vv.args[2])
      else:
        src = vv
      cands = byedge.get(el) or byedge.get(canon_elem(el)) or []
      for (cn, ca, cev) in cands:
        used.add((el, cn, ca))
        used.add((canon_elem(el), cn, ca))
        want = mk('idx', src)
        bad = None
        if node_rel(b, cn, n) == 'ne':
          bad = 'an edge stored in %s names %s' % (n, cn)
        elif ca is not want and axis_rel(ca, want) != 'eq':
          la, c = lin(ca)
          if all(k.op in ('idx', 'elem', 'len', 'rank') for k in la) and \
              simple(ca):
            bad = 'the edge stored at %s names axis %s' % (want, ca)
        put('edge-list', sq, bad, ev.loc)
      if not cands and any(own(x.args[0]) if x.args and hasattr(
          x.args[0], 'op') else False for x in walk(el)) and vv.op == 'comp':
        put('edge-list', sq, 'edges are reordered without being told their '
            'new axes', ev.loc)
      permutation(f, sq, p, b, n, vv, el, ev, put)
  if shortened and len(ps) >= 1:
    after = False
    got = False
    for e2 in p.events:
      if e2 is ev:
        after = True
      elif e2.kind == 'setattr' and e2.name in ('axis_names', '_axis_names') \
          and b.node_eq(e2.recv, n):
        got = got or after
      elif e2.kind == 'call' and e2.name in ('add_axis_names',) and \
          b.node_eq(e2.recv, n):
        got = got or after
    put('axis-names-kept', sq, None if got else 'the edge list of %s changes '
        'length but its axis names are kept' % n, ev.loc)


def resorted(src):
  """The order of sorted(x), reversed(x) or set(x)."""
  x = strip_copy(src)
  return callee_name(x) in ('sorted', 'reversed', 'set', 'frozenset')


def permutation(f, sq, p, b, n, vv, el, ev, put):
  """reorder_*: one permutation for tensor, edges and names."""
  tr = [e for e in p.events if e.kind == 'call' and e.name == 'transpose' and
        e.bound and 'perm' in e.bound]
  if len(tr) != 1:
    return
  perm = strip_copy(tr[0].bound['perm'])
  # which old position does new position i show?
  if vv.op == 'comp' and el.op == 'item':
    k = el.args[1]
    src = strip_copy(vv.args[2])
    ok = k is mk('elem', perm) or (perm.op == 'comp' and k is perm.args[1] and
                                   strip_copy(perm.args[2]) is src)
    again = resorted(vv.args[2]) and not resorted(perm)
    if again or not ok and simple(k) and (
        k.op in ('elem', 'idx', 'item') or callee_name(k) == 'index'):
      put('one-permutation', sq, 'edges are permuted by %s, the tensor by %s' %
          (vv.args[2] if again else k, perm), ev.loc)
    else:
      put('one-permutation', sq, None, ev.loc)
  elif perm.op == 'comp':
    x = perm.args[1]
    good = callee_name(x) == 'index' and callee_recv(x) is attr(
        n, 'edges') and x.args[1] and x.args[1][0] is mk('elem', vv)
    if not good and callee_name(x) == 'index' and callee_recv(x) is vv:
      put('one-permutation', sq, 'the tensor is transposed by the inverse '
          'permutation', ev.loc)
    else:
      put('one-permutation', sq, None, ev.loc)
  for e2 in p.events:
    if e2.kind == 'setattr' and e2.name in ('axis_names', '_axis_names') and \
        b.node_eq(e2.recv, n):
      w = strip_copy(e2.value)
      if w.op == 'comp' and w.args[1].op == 'item' and w.args[1].args[
          0].op == 'attr' and w.args[1].args[0].args[1] in ('axis_names',
                                                           '_axis_names'):
        k = w.args[1].args[1]
        ok = k is mk('elem', perm) or (perm.op == 'comp' and
                                       k is perm.args[1])
        bad = None
        if resorted(w.args[2]) and not resorted(perm):
          bad = 'axis names are listed in the order of %s, the tensor in ' \
              'that of %s' % (w.args[2], perm)
        elif not ok and simple(k) and (k.op in ('elem', 'idx', 'item') or
                                       callee_name(k) == 'index'):
          bad = 'axis names are permuted by %s, the tensor by %s' % (k, perm)
        put('one-permutation', sq + ' names', bad, e2.loc)
      elif w.op == 'attr' and w.args[1] == 'axis_names':
        put('one-permutation', sq + ' names', 'axis names are not permuted',
            e2.loc)
  setn = any(e2.kind == 'setattr' and e2.name in ('axis_names', '_axis_names')
             and b.node_eq(e2.recv, n) for e2 in p.events)
  if not setn:
    none = any(t.op == 'cmp' and t.args[0] in ('is', 'eq') and
               t.args[2] is NONE and v and t.args[1].op == 'attr' and
               t.args[1].args[1] == 'axis_names' for t, v in facts(p))
    falsy = any(t.op == 'attr' and t.args[1] == 'axis_names' and not v
                for t, v in facts(p))
    new = any(e2.kind == 'call' and e2.name == 'add_axis_names'
              for e2 in p.events)
    put('one-permutation', sq + ' names', None if none or falsy or new else
        'axis names are not permuted with the edges', ev.loc)


def getp(ctx, rep, rule, q):
  f = ctx.prog.has_func(q)
  if f is None:
    rep.undecided(rule, q, 'not found')
    return None, []
  ps, _ = ctx.paths(f, rep=rep)
  return (f, [p for p in ps if p.outcome == 'return']) if ps else (None, [])


def update_axis(ctx, rep):
  rep.rule('update-axis', 'update_axis moves node and axis of exactly the end '
           'that matches the old node and axis')
  q = 'network_components.Edge.update_axis'
  f, ps = getp(ctx, rep, 'update-axis', q)
  if f is None or not {'old_axis', 'old_node', 'new_axis',
                       'new_node'} <= set(f.all_params()):
    return
  me = P(f, f.params[0])
  for p in ps:
    sets = {}
    for ev in p.events:
      if ev.kind == 'setattr' and ev.recv is me:
        sets.setdefault(ev.name, []).append(ev.value)
      if ev.kind == 'setitem' and ev.recv is attr(me, '_axes') and \
          ev.key.op == 'const':
        sets.setdefault('axis%d' % (ev.key.args[0] + 1), []).append(ev.value)
      if ev.kind == 'setitem' and ev.recv is attr(me, '_nodes') and \
          ev.key.op == 'const':
        sets.setdefault('node%d' % (ev.key.args[0] + 1), []).append(ev.value)
    fs = facts(p)

    def known(k):
      ax = nd = None
      for t, v in fs:
        if t.op == 'cmp' and t.args[0] in ('eq', 'is'):
          a, c = t.args[1], t.args[2]
          if {a, c} == {attr(me, 'axis' + k), P(f, 'old_axis')}:
            ax = v
          if {a, c} == {attr(me, 'node' + k), P(f, 'old_node')}:
            nd = v
      return ax, nd

    ends = {k for k in '12' if 'axis' + k in sets or 'node' + k in sets}
    if not ends:
      if p.outcome == 'return':
        rep.bad('update-axis', q, 'a path returns without updating an end',
                p.loc)
      continue
    for k in ends:
      bad = None
      if 'axis' + k not in sets or 'node' + k not in sets:
        bad = 'end %s: only one of node and axis is updated' % k
      elif sets['axis' + k][-1] is not P(f, 'new_axis') and sets[
          'axis' + k][-1].op == 'param':
        bad = 'axis%s becomes %s' % (k, sets['axis' + k][-1])
      elif sets['node' + k][-1] is not P(f, 'new_node') and sets[
          'node' + k][-1].op == 'param':
        bad = 'node%s becomes %s' % (k, sets['node' + k][-1])
      else:
        ax, nd = known(k)
        if ax is False or nd is False:
          bad = 'end %s is updated although it does not match' % k
        elif ax is None or nd is None:
          mention = [t for t, _ in fs if any(
              x is attr(me, ('axis' if ax is None else 'node') + k)
              for x in walk(t))]
          if not mention:
            bad = 'end %s is updated without comparing its %s' % (
                k, 'axis' if ax is None else 'node')
      rep.check('update-axis', q + ' end %s' % k, bad is None, bad, p.loc)
    if len(ends) > 1:
      rep.bad('update-axis', q, 'one call moves both ends', p.loc)


def add_edge(ctx, rep):
  rep.rule('add-edge', 'add_edge stores the edge at the axis it was asked for')
  q = 'network_components.AbstractNode.add_edge'
  f, ps = getp(ctx, rep, 'add-edge', q)
  if f is None:
    return
  me, e, a = P(f, f.params[0]), P(f, 'edge'), P(f, 'axis')
  for p in ps:
    st = [ev for ev in p.events if ev.kind == 'setitem' and ev.recv.op ==
          'attr' and ev.recv.args[1] in ('edges', '_edges')]
    other = [ev for ev in p.events if ev.kind == 'setattr' and ev.name in
             ('edges', '_edges')]
    if not st:
      if other:
        rep.undecided('add-edge', q, 'whole list replaced')
      else:
        rep.bad('add-edge', q, 'a path stores nothing', p.loc)
      continue
    ev = st[-1]
    bad = None
    if ev.value is not e:
      bad = 'stores %s' % ev.value
    elif int_rel(strip_axis(ev.key), a) == 'ne':
      bad = 'stores at %s' % ev.key
    rep.check('add-edge', q, bad is None, bad, ev.loc)


def fresh(ctx, rep):
  rep.rule('fresh-edges', 'fresh_edges gives the node a new dangling edge of '
           'its own at every axis')
  q = 'network_components.AbstractNode.fresh_edges'
  f, ps = getp(ctx, rep, 'fresh-edges', q)
  if f is None:
    return
  me = P(f, f.params[0])
  for p in ps:
    b = Book(p)
    new = [c for c in b.claims if c[0].op == 'new']
    if not new:
      rep.bad('fresh-edges', q, 'a path creates no edge (%s)' % '; '.join(
          '%s=%s' % x for x in facts(p))[:200], p.loc)
      continue
    for e, n, a, ev in new:
      bad = None
      if n is not me:
        bad = 'the new edge belongs to %s' % n
      else:
        idx = [x for x in walk(a) if x.op in ('idx', 'elem')]
        rng = [x for x in walk(a) if is_call(x, 'range')]
        if rng:
          ar = rng[0].args[1]
          stop = ar[-1] if len(ar) < 3 else None
          start = ar[0] if len(ar) > 1 else const(0)
          if start is not const(0) and start.op == 'const':
            bad = 'axes before %s keep their edges' % start
          elif stop is not None and axis_rel(stop, mk(
              'call', mk('ext', 'len'), (attr(me, 'edges'),), ())) == 'ne':
            bad = 'only %s axes get a new edge' % stop
        if n2(ev):
          bad = 'the new edge is not dangling'
      rep.check('fresh-edges', q, bad is None, bad, ev.loc)


def n2(ev):
  x = (ev.bound or {}).get('node2')
  return x is not None and x is not NONE


def node_init(ctx, rep):
  rep.rule('node-init', 'a new node has one edge per axis naming it')
  q = 'network_components.AbstractNode.__init__'
  f, ps = getp(ctx, rep, 'node-init', q)
  if f is None:
    return
  me = P(f, f.params[0])
  for p in ps:
    sets = [ev for ev in p.events if ev.kind == 'setattr' and ev.name in
            ('_edges', 'edges') and ev.recv is me]
    if not sets:
      rep.bad('node-init', q, 'a path leaves the node without edges', p.loc)
      continue
    v = sets[-1].value
    els = list_elements(v)
    for x in els:
      if x.op != 'new':
        rep.undecided('node-init', q, str(x)[:80])
        continue
      pos, kw = x.args[1], dict(x.args[2])
      n = kw.get('node1', pos[0] if pos else None)
      a = kw.get('axis1', pos[1] if len(pos) > 1 else None)
      bad = None
      if n is not me:
        bad = 'an edge of the new node names %s' % n
      elif a is not None and a.op == 'const':
        bad = 'every edge names axis %s' % a
      elif a is not None and a.op == 'bin':
        la, c = lin(a)
        if c and len(la) == 1:
          bad = 'edges are numbered %s' % a
      rep.check('node-init', q, bad is None, bad, sets[-1].loc)


def trace_shift(ctx, rep):
  """_remove_trace_edge: each surviving end moves down by the number of
  removed axes below it, and every end of the old node is redirected."""
  rep.rule('trace-shift', 'removing a trace edge renumbers each surviving end '
           'by the number of removed axes below it')
  q = 'network_components._remove_trace_edge'
  f, ps = getp(ctx, rep, 'trace-shift', q)
  if f is None:
    return
  for p in ps:
    b = Book(p)
    fs = facts(p)
    per = {}
    for e, n, a, ev in b.claims:
      if ev.kind != 'setattr':
        continue
      per.setdefault((e, ev.name[-1]), (n, a, ev))
    shifts = {}
    for ev in p.events:
      if ev.kind == 'setattr' and ev.name in ('axis1', 'axis2'):
        shifts[(ev.recv, ev.name[-1])] = ev.value
    for (e, k), val in shifts.items():
      ax = attr(e, 'axis' + k)
      la, c = lin(val)
      if la != {ax: 1}:
        if len(la) == 1 and list(la)[0] is attr(e, 'axis' + ('2' if k == '1'
                                                            else '1')):
          rep.bad('trace-shift', q, 'axis%s is computed from the other end' %
                  k, p.loc)
        else:
          rep.undecided('trace-shift', q, str(val)[:100])
        continue
      n = 0
      seen = set()
      odd = False
      for t, v in fs:
        if t.op != 'cmp' or t.args[0] not in ('lt', 'le'):
          continue
        x, y = t.args[1], t.args[2]
        if ax not in (x, y):
          continue
        o = y if x is ax else x
        above = (v if y is ax else not v)
        if o.op == 'item' and o.args[1].op == 'const':
          if above:
            n += 1
          seen.add(o.args[1].args[0])
        else:
          odd = True
      if odd or not seen:
        other = [t for t, v in fs if t.op == 'cmp' and t.args[0] in
                 ('lt', 'le') and attr(e, 'axis' + ('2' if k == '1' else '1'))
                 in t.args[1:]]
        if not seen and other and not odd:
          rep.bad('trace-shift', q, 'axis%s is shifted by comparisons of the '
                  'other end' % k, p.loc)
        else:
          rep.undecided('trace-shift', q, 'unrecognised comparison')
        continue
      bad = None
      if -c != n:
        bad = 'axis%s moves down by %d where %d removed axes lie below it' % (
            k, -c, n)
      elif len(seen) < 2:
        bad = 'axis%s is compared with only one of the two removed axes' % k
      rep.check('trace-shift', q, bad is None, bad, p.loc)
      # node of the same end moves along
      moved = [ev for ev in p.events if ev.kind == 'setattr' and
               ev.recv is e and ev.name == 'node' + k]
      rep.check('trace-shift', q + ' node', bool(moved), 'axis%s is '
                'renumbered but node%s is not redirected' % (k, k), p.loc)
    # every end known to be on the old node is redirected
    for t, v in fs:
      if t.op == 'cmp' and t.args[0] == 'is' and v:
        for x in t.args[1:]:
          if x.op == 'attr' and x.args[1] in ('node1', 'node2') and \
              x.args[0].op == 'elem':
            k = x.args[1][-1]
            hit = (x.args[0], k) in shifts
            rep.check('trace-shift', q + ' ends', hit, 'an end on the old '
                      'node keeps its axis', p.loc)


def keep_rest(ctx, rep):
  """_remove_edges: an edge that is not contracted is moved to the result."""
  rep.rule('rest-moved', 'each edge of the two nodes that is not contracted '
           'is moved to the result node')
  q = 'network_components._remove_edges'
  f, ps = getp(ctx, rep, 'rest-moved', q)
  if f is None:
    return
  seen = set()
  for p in ps:
    b = Book(p)
    claimed = {canon_elem(c[0]) for c in b.claims if c[0] is not None}
    for t, v in facts(p):
      if t.op == 'cmp' and t.args[0] == 'in' and not v and \
          t.args[1].op == 'elem':
        e = canon_elem(t.args[1])
        seen.add(e)
        rep.check('rest-moved', q + ' ' + str(e), e in claimed,
                  'an edge that is not contracted keeps naming the old node',
                  p.loc)
  if len(seen) < 2:
    rep.undecided('rest-moved', q, 'loops over the edges not recognised')


def redirect(ctx, rep):
  """A node setter is applied to the end that was tested to be the old one."""
  rep.rule('redirected-end', 'the end that is redirected is the one that '
           'points at the old node')
  q = 'network_operations.redirect_edge'
  f, ps = getp(ctx, rep, 'redirected-end', q)
  if f is None:
    return
  e, old = P(f, 'edge'), P(f, 'old_node')
  for p in ps:
    fs = facts(p)
    truth = {}
    trace = None
    for t, v in fs:
      if t.op == 'cmp' and t.args[0] in ('is', 'eq'):
        for k in '12':
          if {t.args[1], t.args[2]} == {attr(e, 'node' + k), old}:
            truth[k] = v
      if callee_name(t) == 'is_trace':
        trace = v
    moved = {ev.name[-1] for ev in p.events if ev.kind == 'setattr' and
             ev.recv is e and ev.name in ('node1', 'node2')}
    bad = None
    for k in moved:
      if truth.get(k) is False:
        bad = 'node%s is redirected although it is not the old node' % k
    if trace and moved and moved != {'1', '2'}:
      bad = 'only one end of a trace edge is redirected'
    if not moved:
      bad = 'a path redirects nothing'
    rep.check('redirected-end', q, bad is None, bad, p.loc)
