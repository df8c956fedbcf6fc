"""Tensor axes stay with their edges when a network is rewired.

Over every returning path of every function of network_components and
network_operations (and the contractors): one permutation for the tensor, the
edges and the axis names; axes that are merged are listed in an order given by
the edges, not by the node; factors of split edges are joined index by index;
a contraction joins, for each edge, the axis of the edge at the first node with
its axis at the second one; the result lists the edges of the first operand
before those of the second; the factors of a decomposition get the edges of
their own side; slices of both ends of an edge are taken at the edge's own axes
with one start and one length."""
import ast
from ..terms import walk, NONE, mk
from ..lib import (attr, facts, list_elements, callee_name, callee_recv,
                   call_arg, is_call, short, feasible)
from ..net import Book, lin, strip_copy
from . import c05

ASSUMPTIONS = [
    'a loop body stands for an arbitrary iteration',
    'backend operations (transpose, reshape, tensordot, outer_product, slice '
    'and the decompositions) do what they document',
    'consistency of axis numbers between edges and nodes is C05'
]

MODULES = ('network_components.', 'network_operations.', 'linalg.', 'tensor.')


def src_kind(t):
  """('rev', x), ('sorted', x) or ('same', x): order of an iterable."""
  t = strip_copy(t)
  if is_call(t, 'reversed') and t.args[1]:
    return 'rev', strip_copy(t.args[1][0])
  if t.op == 'item' and t.args[1].op == 'slice':
    lo, hi, st = t.args[1].args
    if lo is NONE and hi is NONE and st.op == 'const' and st.args[0] == -1:
      return 'rev', strip_copy(t.args[0])
    if lo is NONE and hi is NONE and st.op == 'un':
      return 'rev', strip_copy(t.args[0])
  if is_call(t, 'sorted') and t.args[1]:
    return 'sorted', strip_copy(t.args[1][0])
  return 'same', t


def parts(v):
  if v.op == 'bin' and v.args[0] == 'Add':
    return parts(v.args[1]) + parts(v.args[2])
  return [v]


def axis_end(t):
  """1 or 2 for <edge>.axis1 / .axis2 with the edge, else None."""
  if t.op == 'attr' and t.args[1] in ('axis1', 'axis2'):
    return int(t.args[1][-1]), t.args[0]
  return None


def node_end(n, e, p):
  """Which end of edge e is node n, by construction or by a test passed."""
  if n.op == 'attr' and n.args[1] in ('node1', 'node2') and n.args[0] is e:
    return int(n.args[1][-1])
  for t, v in facts(p):
    if t.op == 'cmp' and t.args[0] in ('is', 'eq'):
      for a, b in ((t.args[1], t.args[2]), (t.args[2], t.args[1])):
        if b is n and a.op == 'attr' and a.args[0] is e and a.args[1] in (
            'node1', 'node2'):
          k = int(a.args[1][-1])
          return k if v else 3 - k
  return None


def owner(t):
  """Node whose tensor a term is."""
  if t.op == 'attr' and t.args[1] in ('tensor', '_tensor'):
    return t.args[0]
  if callee_name(t) == 'get_tensor':
    return callee_recv(t)
  return None


def run(ctx, rep):
  rep.rule('one-permutation', 'tensor, edges and axis names are permuted by '
           'one permutation')
  rep.rule('merged-order', 'axes that are merged are listed in the order of '
           'the edges on both ends')
  rep.rule('split-pairs', 'the i-th factor of one end is joined with the i-th '
           'factor of the other end')
  rep.rule('joined-axes', 'a contraction joins both ends of the same edge, '
           'each axis with the tensor of its own node')
  rep.rule('result-order', 'the edges of a result are listed in the order of '
           'the operands')
  rep.rule('factor-sides', 'the factors of a decomposition carry the edges of '
           'their own side, next to the new bond')
  rep.rule('slice-ends', 'both ends of a sliced edge are sliced at their own '
           'axis, by one start and one length')
  rep.rule('own-end', 'the axis read for a node is the one the edge has there')
  rep.rule('requested-order', 'axes and edges are reordered as the caller '
           'listed them')
  rep.rule('operator-legs', 'a Kronecker product lists the first halves of '
           'the legs of all operands before the second halves')
  rep.rule('swapped-together', 'where operands are exchanged, so are their '
           'axes')
  res = {}

  def put(rule, inst, bad, loc):
    k = (rule, inst)
    if bad:
      res[k] = (bad, loc)
    else:
      res.setdefault(k, None)

  n = 0
  for f, paths in ctx.scan(rep):
    sq = short(f.qual)
    if not sq.startswith(MODULES):
      continue
    n += 1
    for p in paths:
      if p.outcome != 'return' or not feasible(p):
        continue
      perms(f, sq, p, put)
      for ev in p.events:
        if ev.kind == 'call':
          merged(f, sq, p, ev, put)
          pairs(f, sq, p, ev, put)
          joined(f, sq, p, ev, put)
          requested(f, sq, p, ev, put)
          order(f, sq, p, ev, put)
          concat(f, sq, p, ev, put)
          ownperm(f, sq, p, ev, put)
      remaining(f, sq, p, put)
      outer(f, sq, p, put)
      factors(f, sq, p, put)
      weights(f, sq, p, put)
      slices(f, sq, p, put)
      kron(f, sq, p, put)
      ends(f, sq, p, put)
    swapped(f, sq, put)
  rep.count('functions', n)
  for (rule, inst), r in sorted(res.items()):
    if r is None:
      rep.ok(rule, inst)
    else:
      rep.bad(rule, inst, *r)


def perms(f, sq, p, put):
  b = Book(p)
  for n, v, ev in b.edgesets:
    if v.op == 'bin' or v.op == 'item' and v.args[1].op == 'slice' and \
        v.args[1].args[1] is not NONE:
      continue
    el = list_elements(v)
    if len(el) == 1:
      c05.permutation(f, sq, p, b, n, strip_copy(v), el[0], ev, put)


def merged(f, sq, p, ev, put):
  if ev.name not in ('reorder_axes', 'transpose'):
    return
  perm = ev.arg('perm', 0 if ev.name == 'reorder_axes' else 1)
  if perm is None:
    return
  ps = parts(strip_copy(perm))
  if len(ps) < 2:
    return
  tails = []
  for t in ps[1:]:
    k, x = src_kind(t)
    if x.op == 'comp':
      tails.append((k, x))
    elif any(y.op == 'comp' for y in parts(x)) and k == 'sorted':
      tails += [(k, y) for y in parts(x)]
  tails = [(k, x) for k, x in tails if x.op == 'comp' and any(
      y.op == 'attr' and y.args[1] in ('axis1', 'axis2') or
      callee_name(y) == 'index' for y in walk(x.args[1]))]
  if not tails:
    return
  bad = None
  done = [e.recv for e in p.events[:p.events.index(ev)] if e.kind == 'call' and
          e.name == 'sort' and e.recv is not None]
  tails = [('sorted' if x in done else k, x) for k, x in tails]
  for k, x in tails:
    if k == 'sorted':
      bad = 'merged axes are sorted by their place on the node, not in the ' \
            'order of the edges'
  if len(tails) == 2 and not bad:
    (k1, x1), (k2, x2) = tails
    s1, s2 = src_kind(x1.args[2]), src_kind(x2.args[2])
    flip1 = (k1 == 'rev') != (s1[0] == 'rev')
    flip2 = (k2 == 'rev') != (s2[0] == 'rev')
    if s1[1] is s2[1] and flip1 != flip2 and 'sorted' not in (s1[0], s2[0]):
      bad = 'the two ends of the merged edges are listed in opposite orders'
    if s1[1] is s2[1] and x1.args[1] is x2.args[1]:
      bad = 'the same end of the merged edges is listed twice'
  put('merged-order', sq, bad, ev.loc)


def idx_coefs(t):
  d, c = lin(t)
  return {k: v for k, v in d.items() if k.op == 'idx' or k.op == 'elem' and
          is_call(k.args[0], 'range')}


def newaxis(t):
  if t.op == 'new' and t.args[0].split('.')[-1] == 'Edge':
    return call_arg(t, 'axis1', 1)
  return None


def pairs(f, sq, p, ev, put):
  if ev.name != 'connect' or not ev.loops or len(ev.pos or ()) < 2:
    return
  x, y = ev.pos[0], ev.pos[1]
  i = j = None
  if x.op == y.op == 'item' and x.args[0] is y.args[0]:
    i, j = x.args[1], y.args[1]
  elif newaxis(x) is not None and newaxis(y) is not None:
    i, j = newaxis(x), newaxis(y)
  if i is None:
    return
  a, b = idx_coefs(i), idx_coefs(j)
  bad = None
  if a and b and a != b:
    bad = 'factor %s of one end is joined with factor %s of the other' % (i, j)
  put('split-pairs', sq, bad, ev.loc)


def concat(f, sq, p, ev, put):
  """reshape of both halves of a trace edge by one shape."""
  if ev.name != 'shape_concat':
    return
  v = ev.arg('values', 0)
  if v is None or v.op not in ('list', 'tuple') or len(v.args[0]) != 3:
    return
  a, b = v.args[0][1:]
  (ka, xa), (kb, xb) = src_kind(a), src_kind(b)
  bad = None
  if xa is xb and ka != kb:
    bad = 'the two ends are split by %s and %s' % (a, b)
  put('split-pairs', sq + ' shapes', bad, ev.loc)


def unpermuted(a):
  """(list of single axis, permuting index or None) of an axis list term."""
  a = src_kind(a)[1]
  if a.op == 'list' and len(a.args[0]) == 1:
    return a.args[0][0], None, None
  if a.op == 'comp':
    el = a.args[1]
    k = None
    if el.op == 'item' and strip_copy(el.args[0]).op == 'comp':
      k = el.args[1]
      base = strip_copy(el.args[0])
      return base.args[1], k, base
    return el, None, a
  return None, None, None


def joined(f, sq, p, ev, put):
  if ev.name != 'tensordot' or len(ev.pos or ()) < 3:
    return
  n1, n2 = owner(ev.pos[0]), owner(ev.pos[1])
  ax = strip_copy(ev.pos[2])
  if n1 is None or n2 is None or ax.op not in (
      'list', 'tuple') or len(ax.args[0]) != 2:
    return
  a1, k1, b1 = unpermuted(ax.args[0][0])
  a2, k2, b2 = unpermuted(ax.args[0][1])
  if a1 is None or a2 is None:
    return
  bad = None
  if b1 is not None and b2 is not None:
    if (k1 is None) != (k2 is None):
      bad = 'the axes of one operand only are brought into another order'
    elif k1 is not k2 and k1.op == k2.op:
      # each list sorted by its own values
      if callee_name(k1) == 'index' and callee_name(k2) == 'index' or \
          k1.op == 'elem':
        bad = 'the axes of the operands are ordered by different keys'
    s1, s2 = src_kind(ax.args[0][0]), src_kind(ax.args[0][1])
    if s1[0] != s2[0]:
      bad = 'the axes of the operands are listed in different orders'
    c1, c2 = src_kind(b1.args[2]), src_kind(b2.args[2])
    if c1[1] is c2[1] and c1[0] != c2[0]:
      bad = 'the axes of the operands are listed in different orders'
    for (l, k, b), (l2, kk, bb) in (((ax.args[0][0], k1, b1),
                                     (ax.args[0][1], k2, b2)),
                                    ((ax.args[0][1], k2, b2),
                                     (ax.args[0][0], k1, b1))):
      if src_kind(l)[0] != 'sorted' or src_kind(l)[1] is not b:
        continue
      if src_kind(l2)[0] == 'sorted':
        bad = 'the axes of each operand are sorted on their own'
      elif kk is None or callee_name(kk) == 'index' and \
          callee_recv(kk) is not b:
        bad = 'the axes of one operand are sorted by their own values'
      else:
        bad = None
    o1, o2 = (src_kind(z.args[2]) if z.op == 'comp' else ('same', None)
              for z in (src_kind(ax.args[0][0])[1], src_kind(ax.args[0][1])[1]))
    if not bad and k1 is not None and k1 is k2 and o1[1] is o2[1] and \
        o1[0] != o2[0]:
      bad = 'the axes of the operands are listed in opposite orders'
  e1, e2 = axis_end(a1), axis_end(a2)
  if e1 and e2 and e1[1] is e2[1]:
    if e1[0] == e2[0]:
      bad = 'both operands are joined at end %d of the edge' % e1[0]
    for (k, e), n in ((e1, n1), (e2, n2)):
      w = node_end(n, e, p)
      if w and w != k:
        bad = 'the tensor of node %s is joined at %s.axis%d, its axis is ' \
              'axis%d' % (n, e, k, w)
  put('joined-axes', sq, bad, ev.loc)


def tensor_call(n, name):
  """The backend call a new node's tensor is."""
  if n.op != 'new':
    return None
  t = call_arg(n, 'tensor', 0)
  return t if t is not None and callee_name(t) == name else None


def order(f, sq, p, ev, put):
  if ev.name != '_remove_edges':
    return
  new = ev.arg('new_node', 3)
  x, y = ev.arg('node1', 1), ev.arg('node2', 2)
  if new is None or x is None or y is None:
    return
  t = tensor_call(new, 'tensordot')
  if t is None:
    return
  a, b = call_arg(t, 'a', 0), call_arg(t, 'b', 1)
  a, b = (owner(z) if z is not None else None for z in (a, b))
  if a is None or b is None:
    return
  put('result-order', sq, 'the tensor lists the axes of %s first, the edges '
      'those of %s' % (a, x) if a is y and b is x and a is not b else None,
      ev.loc)


def remaining(f, sq, p, put):
  if f.name != '_remove_edges':
    return
  n1, n2 = mk('param', f.qual, 'node1'), mk('param', f.qual, 'node2')
  for ev in p.events:
    if ev.kind != 'call' or ev.name != 'update_axis':
      continue
    o, a = ev.arg('old_node', 1), ev.arg('new_axis', 2)
    if o is None or a is None:
      continue
    if o is n1:
      late = any(x.op in ('comp', 'append') and any(
          z.op == 'attr' and z.args[0] is n2 for z in walk(x))
                 for x in walk(a))
      put('result-order', sq, 'edges of the second operand are listed before '
          'those of the first' if late else None, ev.loc)


def outer(f, sq, p, put):
  for ev in p.events:
    if ev.kind != 'call' or ev.name != 'add_edge' or ev.recv is None:
      continue
    t = tensor_call(ev.recv, 'outer_product')
    if t is None:
      continue
    a, b = owner(call_arg(t, 'tensor1', 0)), owner(call_arg(t, 'tensor2', 1))
    ax = ev.arg('axis', 1)
    if a is None or b is None or ax is None or ax.op != 'idx':
      continue
    ps = [x.args[0] for x in parts(strip_copy(ax.args[0]))
          if x.op == 'attr' and x.args[1] in ('edges', '_edges')]
    if len(ps) == 2:
      put('result-order', sq, 'the tensor lists the axes of %s first, the '
          'edges those of %s' % (a, ps[0]) if ps == [b, a] and a is not b else
          None, ev.loc)


DECOMP = {'svd': (0, 2), 'qr': (0, 1), 'rq': (0, 1)}


def factor(t):
  """(decomposition call, 0 first / 1 last) a node's tensor stems from."""
  out = set()
  for x in walk(t):
    if x.op == 'item' and callee_name(x.args[0]) in DECOMP and \
        x.args[1].op == 'const':
      d = DECOMP[callee_name(x.args[0])]
      if x.args[1].args[0] in d:
        out.add((x.args[0], d.index(x.args[1].args[0])))
  return out.pop() if len(out) == 1 else (None, None)


def sides(d):
  """(left list, right list, pivot) of a decomposition of a node."""
  t = call_arg(d, 'tensor', 0)
  pv = call_arg(d, 'pivot_axis', 1)
  if t is None or callee_name(t) != 'tensor_from_edge_order':
    return None
  ps = parts(strip_copy(call_arg(t, 'perm', 0)))
  if len(ps) != 2:
    return None
  return strip_copy(ps[0]), strip_copy(ps[1]), pv


def factors(f, sq, p, put):
  for ev in p.events:
    if ev.kind != 'call':
      continue
    if ev.name == 'add_edge' and ev.recv is not None and ev.recv.op == 'new':
      d, k = factor(ev.recv)
      if d is None:
        continue
      s = sides(d)
      e, a = ev.arg('edge', 0), ev.arg('axis', 1)
      if s is None or e is None or a is None or e.op != 'elem':
        continue
      kind, src = src_kind(e.args[0])
      if src not in s[:2] or s[0] is s[1]:
        continue
      bad = None
      if kind == 'rev' and a.op in ('idx', 'bin') and 1 in idx_coefs(
          a).values():
        bad = 'edges of the %s factor are listed backwards' % (
            ('first', 'last')[k])
      elif s[:2].index(src) != k:
        bad = 'edges of %s are put on the %s factor' % (
            src, ('first', 'last')[k])
      la, c = lin(a)
      if not bad and list(la) and all(x.op == 'idx' for x in la) and \
          len(la) == 1 and list(la.values()) == [1] and c != k:
        bad = 'edge i of the %s factor is put at axis i%+d' % (
            ('first', 'last')[k], c)
      put('factor-sides', sq, bad, ev.loc)
      pv = s[2]
      if pv is not None and is_call(pv, 'len'):
        x = strip_copy(pv.args[1][0])
        put('factor-sides', sq + ' pivot', 'the matrix is cut after the edges '
            'of %s' % x if x is s[1] else None, ev.loc)
    elif ev.name == 'connect' and len(ev.pos or ()) >= 2:
      for x in ev.pos[:2]:
        if x.op == 'item' and x.args[0].op == 'attr' and \
            x.args[0].args[1] in ('edges', '_edges') and \
            x.args[0].args[0].op == 'new':
          d, k = factor(x.args[0].args[0])
          if d is None or x.args[1].op != 'const':
            continue
          i = x.args[1].args[0]
          bad = None
          if k == 0 and i == 0 or k == 1 and i == -1:
            bad = 'the new bond of the %s factor is taken at position %d' % (
                ('first', 'last')[k], i)
          put('factor-sides', sq + ' bond', bad, ev.loc)
    elif ev.name in ('broadcast_left_multiplication',
                     'broadcast_right_multiplication') and \
        len(ev.pos or ()) >= 2:
      right = ev.name == 'broadcast_right_multiplication'
      t = ev.pos[0 if right else 1]
      d, k = factor(t)
      if d is not None:
        put('factor-sides', sq + ' weights', 'the singular values are put on '
            'the outer side of a factor' if k != (0 if right else 1) else None,
            ev.loc)


def weights(f, sq, p, put):
  """Singular values put on both factors: the square root on each."""
  w = {}
  for ev in p.events:
    if ev.kind == 'call' and len(ev.pos or ()) >= 2 and ev.name in (
        'broadcast_left_multiplication', 'broadcast_right_multiplication'):
      right = ev.name == 'broadcast_right_multiplication'
      d, k = factor(ev.pos[0 if right else 1])
      if d is not None:
        w.setdefault(d, {})[k] = (ev.pos[1 if right else 0], ev)
  for d, ks in w.items():
    if set(ks) == {0, 1}:
      r = [callee_name(ks[k][0]) == 'sqrt' for k in (0, 1)]
      raw = [ks[k][0].op == 'item' and ks[k][0].args[0] is d for k in (0, 1)]
      bad = None
      if all(x or y for x, y in zip(r, raw)) and any(raw):
        bad = 'the singular values enter the product of the factors more ' \
              'than once'
      put('factor-sides', sq + ' values', bad, ks[0][1].loc)


def requested(f, sq, p, ev, put):
  if ev.name not in ('reorder_axes', 'reorder_edges', 'transpose'):
    return
  perm = ev.arg('perm', 1) or ev.arg('perm', 0)
  if ev.name == 'reorder_axes':
    perm = ev.arg('perm', 0)
  if ev.name == 'reorder_edges':
    perm = ev.arg('edge_order', 0)
  if perm is None:
    return
  k, x = src_kind(perm)
  k2, y = k, x
  if x.op == 'comp':
    k2, y = src_kind(x.args[2])
  if y.op != 'param' or y.args[0] != f.qual:
    return
  put('requested-order', sq, 'the order given as %s is not followed' %
      y.args[1] if k == 'sorted' or k2 == 'sorted' or
      (k == 'rev') != (x.op == 'comp' and k2 == 'rev') else None, ev.loc)


def kron(f, sq, p, put):
  for ev in p.events:
    if ev.kind != 'call':
      continue
    if ev.name in ('outer_product_final_nodes', 'reorder_edges'):
      o = ev.arg('edge_order', 1 if ev.name.startswith('outer') else 0)
      if o is None:
        continue
      ps = parts(strip_copy(o))
      halves = []
      bad = None
      for i, x in enumerate(ps):
        if x.op == 'item' and x.args[1].op == 'slice' and x.args[0].op == \
            'attr' and x.args[0].args[1] == 'edges' and x.args[0].args[
                0].op == 'elem':
          lo, hi, st = x.args[1].args
          halves.append('in' if lo is NONE else 'out' if hi is NONE else '?')
          if i + 1 < len(ps) and ps[i + 1].op == 'lc' and (
              i == 0 or ps[i - 1].op != 'lc'):
            bad = 'the legs of a later operand are listed first'
      if len(halves) == 2:
        if halves == ['out', 'in']:
          bad = 'outgoing legs are listed before incoming ones'
        put('operator-legs', sq, bad, ev.loc)
    elif ev.name == 'transpose':
      t, perm = ev.arg('tensor', 0), ev.arg('perm', 1)
      if t is None or perm is None or callee_name(t) != 'outer_product':
        continue
      a, b = call_arg(t, 'tensor1', 0), call_arg(t, 'tensor2', 1)
      if a is None or b is None or a.op != 'attr' or b.op != 'attr':
        continue
      ps = [strip_copy(x) for x in parts(strip_copy(perm))]
      if len(ps) != 4 or not all(is_call(x, 'range') for x in ps):
        continue
      na, nb = lin(attr(a.args[0], 'ndim')), lin(attr(b.args[0], 'ndim'))
      ha, hb = (lin(mk('bin', 'FloorDiv', attr(z.args[0], 'ndim'),
                       mk('const', 2))) for z in (a, b))

      def plus(x, y):
        d = dict(x[0])
        for k, v in y[0].items():
          d[k] = d.get(k, 0) + v
        return d, x[1] + y[1]

      want = [(({}, 0), ha), (na, plus(na, hb)), (ha, na),
              (plus(na, hb), plus(na, nb))]
      got = []
      for x in ps:
        r = x.args[1]
        got.append((({}, 0), lin(r[0])) if len(r) == 1 else
                   (lin(r[0]), lin(r[1])))
      atoms = {k for w in want for z in w for k in z[0]}
      if not all(k in atoms for g in got for z in g for k in z[0]):
        continue
      put('operator-legs', sq, 'the legs are listed in the order %s' % perm if
          got != want else None, ev.loc)


def slices(f, sq, p, put):
  cur = []
  for ev in p.events:
    if ev.kind == 'setitem' and ev.key is not None and ev.key.op == 'elem' and \
        src_kind(ev.key.args[0])[1].op in ('list', 'tuple'):
      kind, els = src_kind(ev.key.args[0])
      els = els.args[0]
      if len(els) == 2 and all(axis_end(x) for x in els):
        e1, e2 = (axis_end(x) for x in els)
        own = [x for x in walk(ev.recv) if x.op == 'elem' and
               callee_name(x.args[0]) == 'get_nodes']
        if e1[1] is e2[1] and own and kind == 'sorted':
          put('slice-ends', sq, 'the axes of both ends are sorted, the nodes '
              'are not', ev.loc)
        elif e1[1] is e2[1] and own:
          if kind == 'rev':
            e1, e2 = e2, e1
          put('slice-ends', sq, 'the node at end 1 of the edge is sliced at '
              'axis%d, the one at end 2 at axis%d' % (e1[0], e2[0]) if
              (e1[0], e2[0]) != (1, 2) else None, ev.loc)
        cur.append(ev)
  # other keys used for the same tensor
  if len({ev.key for ev in cur}) > 1:
    put('slice-ends', sq + ' axis', 'start and length are set at different '
        'axes', cur[0].loc)


def ownperm(f, sq, p, ev, put):
  """transpose(node.tensor, [e.axisK ...]) under a test of e.nodeJ is node."""
  if ev.name != 'transpose':
    return
  n = owner(ev.pos[0]) if ev.pos else None
  perm = ev.arg('perm', 1)
  if n is None or perm is None:
    return
  for part in parts(strip_copy(perm)):
    part = strip_copy(part)
    if part.op != 'comp':
      continue
    ae = axis_end(part.args[1])
    if not ae:
      continue
    w = node_end(n, ae[1], p)
    if w:
      put('own-end', sq, 'axis%d is taken for a node at end %d of the edge' % (
          ae[0], w) if w != ae[0] else None, ev.loc)


def ends(f, sq, p, put):
  v = p.value
  if v is not None and hasattr(v, 'op') and v.op == 'tuple' and \
      len(v.args[0]) == 2:
    n, a = v.args[0]
    ae = axis_end(a)
    if ae and n.op == 'attr' and n.args[1] in ('node1', 'node2') and \
        n.args[0] is ae[1]:
      put('own-end', sq, 'node%s is returned with axis%d' % (
          n.args[1][-1], ae[0]) if int(n.args[1][-1]) != ae[0] else None,
          '%s:%d' % (f.file, f.line))
  for ev in p.events:
    for t in list(ev.pos or ()) + [x for _, x in (ev.kw or ())] + [ev.value]:
      if t is None or not hasattr(t, 'op'):
        continue
      for x in walk(t):
        if x.op == 'item' and x.args[0].op == 'attr' and x.args[0].args[
            1] in ('axis_names', '_axis_names'):
          ae = axis_end(x.args[1])
          w = ae and node_end(x.args[0].args[0], ae[1], p)
          if w:
            put('own-end', sq + ' names', 'the name of axis%d is taken for a '
                'node at end %d of the edge' % (ae[0], w) if w != ae[0] else
                None, ev.loc)
        if x.op != 'ifexp':
          continue
        c, a, b = x.args[:3]
        if c.op != 'cmp' or c.args[0] not in ('is', 'eq'):
          continue
        for l, r in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
          if l.op == 'attr' and l.args[1] in ('node1', 'node2'):
            k = int(l.args[1][-1])
            ka = [axis_end(z) for z in walk(a) if axis_end(z)]
            kb = [axis_end(z) for z in walk(b) if axis_end(z)]
            if len(ka) == 1 and len(kb) == 1 and ka[0][1] is l.args[0] and \
                kb[0][1] is l.args[0]:
              bad = None
              if ka[0][0] != k:
                bad = 'axis%d is taken where node%d is the node' % (
                    ka[0][0], k)
              elif kb[0][0] == k:
                bad = 'axis%d is taken where node%d is not the node' % (
                    kb[0][0], k)
              put('own-end', sq, bad, ev.loc)


def swapped(f, sq, put):
  """`x, y = y, x` for operands of tensordot is accompanied by their axes."""
  td = None
  for c in ast.walk(f.node):
    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and \
        c.func.attr == 'tensordot' and len(c.args) >= 3:
      a = c.args[2]
      if isinstance(a, (ast.List, ast.Tuple)) and len(a.elts) == 2 and all(
          isinstance(z, ast.Name) for z in a.elts) and all(
              isinstance(z, ast.Attribute) and isinstance(z.value, ast.Name)
              for z in c.args[:2]):
        td = ([z.value.id for z in c.args[:2]], [z.id for z in a.elts])
  if td is None:
    return

  def swaps(stmts):
    out = []
    for s in stmts:
      if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
          s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple):
        l = [z.id if isinstance(z, ast.Name) else None
             for z in s.targets[0].elts]
        r = [z.id if isinstance(z, ast.Name) else None for z in s.value.elts]
        for i, x in enumerate(l):
          for j in range(i + 1, len(l)):
            if len(r) == len(l) and x and l[j] and r[i] == l[j] and \
                r[j] == x:
              out.append(({x, l[j]}, s))
    return out

  for blk in ast.walk(f.node):
    for fld in ('body', 'orelse'):
      st = getattr(blk, fld, None)
      if not isinstance(st, list):
        continue
      sw = swaps(st)
      nodes = [s for names, s in sw if names == set(td[0])]
      axes = [s for names, s in sw if names == set(td[1])]
      if nodes or axes:
        bad = None
        if len(nodes) % 2 != len(axes) % 2:
          bad = 'the operands %s are exchanged, their axes %s are not' % (
              td[0], td[1]) if len(nodes) % 2 else \
              'the axes %s are exchanged, the operands are not' % td[1]
        put('swapped-together', sq, bad, '%s:%d' % (
            f.file, (nodes + axes)[0].lineno))
