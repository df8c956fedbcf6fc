"""Edge/node bookkeeping events of a path: which (node, axis) an edge claims
and where it is installed."""
from .terms import T, mk, walk, NONE, const
from .lib import (attr, facts, list_elements, callee_name, callee_recv,
                  is_call)

NODEISH = ('AbstractNode', 'Node', 'CopyNode')


def base_edge(e):
  return e


def lin(t):
  """Linear normal form: ({atom: coef}, const) of an integer term."""
  if t.op == 'const' and isinstance(t.args[0], (int, bool)) and \
      t.args[0] is not None:
    return {}, int(t.args[0])
  if t.op == 'bin' and t.args[0] in ('Add', 'Sub'):
    a, c = lin(t.args[1])
    b, d = lin(t.args[2])
    s = 1 if t.args[0] == 'Add' else -1
    r = dict(a)
    for k, v in b.items():
      r[k] = r.get(k, 0) + s * v
      if not r[k]:
        del r[k]
    return r, c + s * d
  if t.op == 'bin' and t.args[0] == 'Mult':
    a, c = lin(t.args[1])
    b, d = lin(t.args[2])
    if not a:
      return ({k: v * c for k, v in b.items()} if c else {}), c * d
    if not b:
      return ({k: v * d for k, v in a.items()} if d else {}), c * d
  if t.op == 'un' and t.args[0] in ('-', 'USub'):
    a, c = lin(t.args[1])
    return {k: -v for k, v in a.items()}, -c
  return {atom(t): 1}, 0


def strip_list(t):
  """list(x), sorted(x), tuple(x), x[:] have the length (and set) of x."""
  while True:
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0].split(
        '.')[-1] in ('list', 'sorted', 'tuple') and t.args[1]:
      t = t.args[1][0]
      continue
    if t.op == 'item' and t.args[1].op == 'slice' and all(
        x is NONE for x in t.args[1].args):
      t = t.args[0]
      continue
    return t


def strip_copy(t):
  """Order-preserving copies only."""
  while True:
    if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0].split(
        '.')[-1] in ('list', 'tuple', 'enumerate') and t.args[1]:
      t = t.args[1][0]
      continue
    if t.op == 'item' and t.args[1].op == 'slice' and all(
        x is NONE for x in t.args[1].args):
      t = t.args[0]
      continue
    return t


def atom(t):
  if is_call(t, 'len') and t.args[1]:
    x = strip_list(t.args[1][0])
    # the rank of a node has many spellings
    n = rank_owner(x)
    if n is not None:
      return mk('rank', n)
    return mk('len', x)
  if t.op == 'call' and callee_name(t) in ('get_rank', 'rank'):
    r = callee_recv(t)
    if r is not None:
      return mk('rank', r)
  if t.op == 'idx':
    return mk('idx', strip_copy(t.args[0]))
  return t


def rank_owner(x):
  """x is node.edges / node.shape / node.tensor.shape / node.axis_names."""
  if x.op == 'attr' and x.args[1] in ('edges', 'shape', 'axis_names',
                                      '_edges', '_axis_names'):
    o = x.args[0]
    if x.args[1] == 'shape' and o.op == 'attr' and o.args[1] in ('tensor',
                                                                 '_tensor'):
      return o.args[0]
    return o
  return None


def int_rel(a, b):
  """'eq' | 'ne' | None (unknown) for two integer terms."""
  if a is b:
    return 'eq'
  la, ca = lin(a)
  lb, cb = lin(b)
  if la == lb:
    return 'eq' if ca == cb else 'ne'
  return None


class Book:
  """Claims and installs of one path."""

  def __init__(self, p):
    self.p = p
    self.claims = []  # (edge, node, axis, ev)
    self.installs = []  # (edge, node, axis, ev)
    self.edgesets = []  # (node, value, ev)
    self.fresh = []
    self.disabled = []
    self.replaced = {}
    axis = {}
    for ev in p.events:
      if ev.kind == 'call':
        r = ev.res
        if r is not None and r.op == 'new' and ev.name == 'Edge':
          b = ev.bound or {}
          self.claims.append((r, b.get('node1'), b.get('axis1'), ev))
          n2 = b.get('node2')
          if n2 is not None and n2 is not NONE:
            self.claims.append((r, n2, b.get('axis2'), ev))
        elif ev.name == 'update_axis':
          e = ev.recv or (ev.bound or {}).get('self')
          self.claims.append((e, ev.arg('new_node', 3),
                              ev.arg('new_axis', 2), ev))
        elif ev.name == 'add_edge':
          n = ev.recv or (ev.bound or {}).get('self')
          self.installs.append((ev.arg('edge', 0), n, ev.arg('axis', 1), ev))
        elif ev.name == 'fresh_edges':
          self.fresh.append((ev.recv, ev))
        elif ev.name == 'disable':
          self.disabled.append((ev.recv, ev))
      elif ev.kind == 'setattr':
        if ev.name in ('axis1', 'axis2'):
          axis[(ev.recv, ev.name[-1])] = ev.value
        elif ev.name in ('node1', 'node2'):
          k = ev.name[-1]
          a = axis.get((ev.recv, k), attr(ev.recv, 'axis' + k))
          if ev.value is not NONE:
            self.claims.append((ev.recv, ev.value, a, ev))
        elif ev.name in ('edges', '_edges'):
          self.edgesets.append((ev.recv, ev.value, ev))
      elif ev.kind == 'setitem' and ev.recv is not None and \
          ev.recv.op == 'attr' and ev.recv.args[1] in ('edges', '_edges'):
        self.installs.append((ev.value, ev.recv.args[0], ev.key, ev))
      elif ev.kind == 'setitem' and ev.recv is not None:
        for n, v, _ in reversed(self.edgesets):
          if v is ev.recv:
            self.installs.append((ev.value, n, ev.key, ev))
            break
    self.same = {}
    for t, v in facts(p):
      if v and t.op == 'cmp' and t.args[0] in ('is', 'eq'):
        self.same.setdefault(t.args[1], set()).add(t.args[2])
        self.same.setdefault(t.args[2], set()).add(t.args[1])

  def node_eq(self, a, b):
    if a is b:
      return True
    seen, todo = {a}, [a]
    while todo:
      x = todo.pop()
      for y in self.same.get(x, ()):
        if y not in seen:
          seen.add(y)
          todo.append(y)
    return b in seen

  def claims_of(self, e):
    return [c for c in self.claims if c[0] is e]


def ends_related(a, b):
  """axis1 / axis2 of the same edge are different axes."""
  return (a.op == 'attr' and b.op == 'attr' and a.args[0] is b.args[0] and
          {a.args[1], b.args[1]} in ({'axis1', 'axis2'},))


def axis_rel(a, b):
  """'eq' | 'ne' | None for two axis numbers."""
  a, b = strip_axis(a), strip_axis(b)
  r = int_rel(a, b)
  if r:
    return r
  if ends_related(a, b):
    return 'ne'
  la, ca = lin(a)
  lb, cb = lin(b)
  d = dict(la)
  for k, v in lb.items():
    d[k] = d.get(k, 0) - v
    if not d[k]:
      del d[k]
  if all(k.op == 'idx' or k.op in ('len', 'rank') for k in d):
    idx = [k for k in d if k.op == 'idx']
    rest = [k for k in d if k.op != 'idx']
    if len(idx) <= 1 and len(rest) <= 1 and len(d) == 1:
      return 'ne'
  return None


def strip_axis(t):
  """node.get_axis_number(i) of an integer axis is that axis."""
  while t is not None and t.op == 'call' and callee_name(
      t) == 'get_axis_number':
    pos, kw = t.args[1], dict(t.args[2])
    x = kw.get('axis', pos[0] if pos else None)
    if x is None:
      break
    t = x
  return t


def suffixes(t, stem):
  """Digits K of <stem>K attributes/keys in t, with the owning term."""
  out = set()
  for x in walk(t):
    if x.op == 'attr' and x.args[1] in (stem + '1', stem + '2'):
      out.add((x.args[0], x.args[1][-1]))
    elif x.op == 'item' and x.args[1].op == 'const' and x.args[1].args[
        0] in (stem + '1', stem + '2'):
      out.add((x.args[0], x.args[1].args[0][-1]))
  return out


def cross_end(node, axis):
  """The node comes from one end of an edge, the axis from the other."""
  sn = suffixes(node, 'node')
  sa = suffixes(axis, 'axis')
  if len(sn) != 1 or len(sa) != 1:
    return None
  (on, kn), (oa, ka) = list(sn)[0], list(sa)[0]
  if on is oa:
    return kn != ka
  return None
