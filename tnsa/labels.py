"""Label sequences: what a list of labels, axis positions or axis sizes runs
over.

A sequence is read as a concatenation of groups.  Every group names the labels
it takes -- an order and a membership predicate over the label lists of the
function -- and how it is expressed: the labels themselves, their positions in
a label list, or the sizes of the corresponding axes.  Two sequences stand for
the same labels if their groups agree in order and in the membership table.
"""
import itertools
from .terms import T, mk, walk, const
from .lib import callee_name, callee_recv, is_call

SETLIKE = ('set', 'list', 'tuple', 'frozenset', 'sorted', 'reversed')


class Group:
  __slots__ = ('kind', 'base', 'order', 'mem', 'which')

  def __init__(self, kind, base, order, mem, which='all'):
    self.kind, self.base, self.order = kind, base, order
    self.mem, self.which = mem, which

  def __repr__(self):
    return '%s of %s' % (self.kind, str(self.base)[:40])


def strip(x):
  """A container without conversions that keep its iteration order."""
  while x.op == 'call' and callee_name(x) in (
      'list', 'tuple', 'enumerate', 'array', 'asarray') and len(x.args[1]) == 1 \
      and x.args[0].op == 'ext':
    x = x.args[1][0]
  return x


def copied(x):
  """A container without conversions that keep its elements."""
  while True:
    y = strip(x)
    if y.op == 'call' and y.args[0].op == 'ext' and callee_name(
        y) in SETLIKE and len(y.args[1]) == 1:
      y = y.args[1][0]
    if y is x:
      return x
    x = y


# -- membership -------------------------------------------------------------


def conj(*xs):
  return None if any(x is None for x in xs) else ('and',) + xs


def disj(*xs):
  return None if any(x is None for x in xs) else ('or',) + xs


def neg(x):
  return None if x is None else ('not', x)


def ev(x, env):
  if x[0] == 'and':
    return all(ev(y, env) for y in x[1:])
  if x[0] == 'or':
    return any(ev(y, env) for y in x[1:])
  if x[0] == 'not':
    return not ev(x[1], env)
  return env[x[1]]


def atoms(x, out=None):
  out = set() if out is None else out
  if x[0] == 'atom':
    out.add(x[1])
  else:
    for y in x[1:]:
      atoms(y, out)
  return out


def memb(x, opaque=False):
  """Which labels a container holds, over the atomic containers. With opaque,
  an unreadable container counts as an atomic one."""
  r = memb_(x, opaque)
  if r is None and opaque:
    x = strip(x)
    if x.op == 'comp':
      r = memb(x.args[2], True)
      return conj(r, ('atom', x))
    return ('atom', x)
  return r


def memb_(x, opaque):
  x = strip(x)
  if x.op == 'call':
    n = callee_name(x)
    if n in SETLIKE and x.args[0].op == 'ext' and len(x.args[1]) == 1:
      return memb(x.args[1][0], opaque)
    r = callee_recv(x)
    if n in ('intersection', 'union', 'difference', 'symmetric_difference'
            ) and r is not None and len(x.args[1]) == 1:
      return combine({
          'intersection': 'BitAnd',
          'union': 'BitOr',
          'difference': 'Sub',
          'symmetric_difference': 'BitXor'
      }[n], memb(r, opaque), memb(x.args[1][0], opaque))
    if n in ('keys', 'copy') and r is not None and not x.args[1]:
      return memb(r)
  if x.op == 'bin' and x.args[0] in ('Sub', 'BitAnd', 'BitOr', 'BitXor',
                                     'Add'):
    return combine(x.args[0], memb(x.args[1], opaque), memb(x.args[2],
                                                            opaque))
  if x.op == 'comp':
    g = seq(x)
    if g is None:
      return None
    return disj(*[y.mem for y in g]) if g else None
  if x.op in ('list', 'tuple', 'set'):
    return None
  if x.op == 'item' and x.args[1].op == 'slice':
    # every second of the sorted list of labels that come in pairs
    if dedup(x):
      return memb(x.args[0])
    return None
  return ('atom', x)


def dedup(x):
  sl = x.args[1]
  return len(sl.args) == 3 and sl.args[2] is const(2) and is_call(
      x.args[0], 'sorted')


def combine(op, a, b):
  if op == 'BitAnd':
    return conj(a, b)
  if op in ('BitOr', 'Add'):
    return disj(a, b)
  if op == 'Sub':
    return conj(a, neg(b))
  return disj(conj(a, neg(b)), conj(b, neg(a)))


# -- sequences --------------------------------------------------------------


def bases(it):
  """Terms whose element the cursor of an iteration may be written as."""
  out = set()
  while True:
    out.add(it)
    y = strip(it)
    out.add(y)
    if y.op == 'comp':
      it = y.args[2]
    elif y.op == 'call' and y.args[0].op == 'ext' and callee_name(
        y) in SETLIKE + ('enumerate',) and len(y.args[1]) == 1:
      it = y.args[1][0]
    elif y.op == 'item' and y.args[1].op == 'slice':
      it = y.args[0]
    else:
      return out


def is_label(t, bs):
  if t.op == 'elem' and (t.args[0] in bs or strip(t.args[0]) in bs):
    return True
  if t.op == 'item' and t.args[1].op != 'const':
    l = pos_of(t.args[1], bs)
    return l is not None and strip(t.args[0]) is l
  return False


def pos_of(t, bs):
  """The list in which t is the position of the cursor's label."""
  if t.op == 'idx' and (t.args[0] in bs or strip(t.args[0]) in bs):
    return strip(t.args[0])
  if t.op == 'call' and callee_name(t) == 'index' and len(t.args[1]) == 1:
    r = callee_recv(t)
    if r is not None and is_label(t.args[1][0], bs):
      return strip(r)
  return None


def cond(c, bs):
  """A filter on the cursor, over the atomic containers."""
  if c.op == 'not':
    return neg(cond(c.args[0], bs))
  if c.op == 'boolop':
    xs = [cond(y, bs) for y in c.args[1]]
    return conj(*xs) if c.args[0] == 'and' else disj(*xs)
  if c.op == 'cmp' and c.args[0] in ('in', 'not in', 'notin'):
    x, s = c.args[1], c.args[2]
    r = None
    if is_label(x, bs):
      r = memb(s)
    elif pos_of(x, bs) is not None:
      g = seq(s)
      l = pos_of(x, bs)
      if g and all(y.kind == 'pos' and y.base is l for y in g):
        whole = [y for y in g if y.which == 'all']
        part = [y for y in g if y.which != 'all']
        ks = {}
        for y in part:
          ks.setdefault(y.mem, set()).add(y.which)
        if all(v == {0, 1} for v in ks.values()):
          r = disj(*[y.mem for y in whole + part])
    return r if c.args[0] == 'in' else neg(r)
  if c.op == 'cmp' and c.args[0] in ('eq', 'gt', 'lt', 'ge', 'le', 'ne'):
    for a in c.args[1:]:
      if a.op == 'call' and callee_name(a) == 'count' and len(
          a.args[1]) == 1 and is_label(a.args[1][0], bs):
        if c.args[0] == 'ne':
          return neg(('atom', mk('cmp', 'eq', *c.args[1:])))
        return ('atom', c)
  return None


def seq(x, depth=0):
  """The groups of a sequence; None if it cannot be read."""
  x = strip(x)
  if depth > 12:
    return None
  if x.op == 'bin' and x.args[0] == 'Add':
    a, b = seq(x.args[1], depth + 1), seq(x.args[2], depth + 1)
    return None if a is None or b is None else a + b
  if x.op == 'call' and callee_name(x) == 'concatenate' and x.args[1] and \
      x.args[1][0].op in ('list', 'tuple'):
    out = []
    for y in x.args[1][0].args[0]:
      g = seq(y, depth + 1)
      if g is None:
        return None
      out += g
    return out
  if x.op == 'call' and x.args[0].op == 'ext' and callee_name(x) in (
      'sorted', 'reversed') and len(x.args[1]) == 1 and not x.args[2]:
    g = seq(x.args[1][0], depth + 1)
    if g is None or len(g) != 1:
      return None
    g = g[0]
    if callee_name(x) == 'reversed':
      o = mk('rev', g.order)
    elif g.kind == 'pos' and g.which == 'all':
      o = g.base
    elif g.kind == 'lab':
      o = x
    else:
      return None
    return [Group(g.kind, g.base, o, g.mem, g.which)]
  if x.op in ('list', 'tuple'):
    out = []
    for y in x.args[0]:
      if y.op != 'star':
        return None
      g = seq(y.args[0], depth + 1)
      if g is None:
        return None
      out += g
    return out
  if x.op == 'item' and x.args[1].op not in ('const', 'slice'):
    # the sizes of an array of sizes at a list of positions
    g = seq(x.args[1], depth + 1)
    if g is not None and all(y.kind == 'pos' for y in g):
      t = shaped(x.args[0])
      if t is not None:
        return [Group('dim', (t, y.base), y.order, y.mem, y.which) for y in g]
    return None
  if x.op == 'comp' and x.args[0] != 'dict':
    return comp(x, depth)
  if x.op == 'item':
    if x.args[1].op == 'slice' and dedup(x):
      m = memb(x.args[0])
      return None if m is None else [Group('lab', None, x, m)]
    return None
  if x.op in ('param', 'lc', 'call', 'attr') and not (
      x.op == 'call' and callee_name(x) in ('range', 'zip', 'enumerate')):
    m = memb(x)
    if m is None:
      return None
    # the order of a set is that of the set; of a list, its own
    return [Group('lab', x, x, m)]
  return None


def shaped(a):
  """The tensor whose sizes an array holds."""
  a = strip(a)
  if a.op == 'call' and callee_name(a) == 'shape_tuple':
    for _, v in a.args[2]:
      return v
    if a.args[1]:
      return a.args[1][0]
  if a.op == 'attr' and a.args[1] == 'shape':
    return a.args[0]
  return None


def comp(x, depth):
  _, body, it, cs = x.args[:4]
  src = strip(it)
  bs = bases(it)
  inner = seq(src, depth + 1)
  if inner is None and src.op == 'call' and callee_name(
      src) == 'reversed' and src.args[0].op == 'ext' and strip(
          src.args[1][0]).op == 'comp':
    src = strip(src.args[1][0])
    inner = seq(strip(src.args[2]), depth + 1)
    if inner is None:
      return None
    inner = [Group(g.kind, g.base, mk('rev', g.order), g.mem, g.which)
             for g in inner[::-1]]
  if inner is None:
    if src.op in ('comp',) or src.op == 'call' and callee_name(src) in (
        'range', 'zip'):
      # positions by position list: the order is that of the source
      if body.op == 'item' and src.op != 'comp':
        pass
      if src.op != 'comp':
        return None
      inner = seq(strip(src.args[2]), depth + 1)
      if inner is None:
        return None
    else:
      return None
  fs = [cond(c, bs) for c in cs]
  if any(f is None for f in fs):
    return None
  out = []
  for g in inner:
    mem = conj(g.mem, *fs) if fs else g.mem
    # a label at, or the position of, the cursor
    if is_label(body, bs):
      if body.op == 'item' and g.kind == 'pos' and strip(
          body.args[0]) is not g.base and body.args[1].op == 'idx':
        return None
      out.append(Group('lab', g.base, g.order, mem, g.which))
      continue
    l = pos_of(body, bs)
    if l is not None:
      out.append(Group('pos', l, g.order, mem, g.which))
      continue
    if body.op == 'item':
      t = shaped(body.args[0])
      l = pos_of(body.args[1], bs)
      if t is not None and l is not None:
        out.append(Group('dim', (t, l), g.order, mem, g.which))
        continue
      if t is not None and g.kind == 'pos' and kth(body.args[1], bs):
        out.append(Group('dim', (t, g.base), g.order, mem, g.which))
        continue
      k = kth(body, bs)
      if k is not None:
        out.append(Group('pos', k[0], g.order, mem, k[1]))
        continue
      # the list, rearranged
      s = seq(body.args[0], depth + 1)
      if s is not None and len(s) == 1 and not cs:
        out.append(Group(s[0].kind, s[0].base, mk('by', s[0].order, it),
                         s[0].mem, s[0].which))
        if len(inner) != 1:
          return None
        continue
    return None
  return out


def kth(t, bs):
  """(list, k) if t is the k-th position of the cursor's label."""
  if t.op == 'item' and t.args[1].op == 'const' and t.args[0].op == 'comp':
    c = t.args[0]
    _, body, it, cs = c.args[:4]
    if body.op == 'idx' and len(cs) == 1 and cs[0].op == 'cmp' and cs[0].args[
        0] == 'eq':
      l = strip(it)
      if strip(body.args[0]) is l and isinstance(t.args[1].args[0], int):
        a, b = cs[0].args[1:]
        own = [x for x in (a, b) if x.op == 'elem' and strip(x.args[0]) is l]
        if own:
          return l, t.args[1].args[0]
  return None


# -- comparison -------------------------------------------------------------


def same_mem(a, b, ok=None):
  """Do two predicates agree on every label the constraint allows?"""
  if a is None or b is None:
    return None
  at = sorted(atoms(a) | atoms(b) | (atoms(ok) if ok else set()), key=str)
  if len(at) > 8:
    return None
  for vs in itertools.product((False, True), repeat=len(at)):
    env = dict(zip(at, vs))
    if ok is not None and not ev(ok, env):
      continue
    if ev(a, env) != ev(b, env):
      return False
  return True


def order_of(o):
  """Two permuted lists are in step if they are permuted alike."""
  if o.op == 'by':
    return ('by', order_of(o.args[0]), o.args[1])
  return strip(o)


def same(a, b, ok=None):
  """Do two sequences of groups run over the same labels in the same order?"""
  if a is None or b is None:
    return None
  a = [g for g in a if not empty(g.mem, ok)]
  b = [g for g in b if not empty(g.mem, ok)]
  if len(a) != len(b):
    return False
  r = True
  for x, y in zip(a, b):
    m = same_mem(x.mem, y.mem, ok)
    if m is None:
      r = None
    elif not m or order_of(x.order) != order_of(y.order) or \
        x.which != y.which and 'all' not in (x.which, y.which):
      return False
  return r


def empty(m, ok):
  at = sorted(atoms(m) | (atoms(ok) if ok else set()), key=str)
  if len(at) > 8:
    return False
  for vs in itertools.product((False, True), repeat=len(at)):
    env = dict(zip(at, vs))
    if (ok is None or ev(ok, env)) and ev(m, env):
      return False
  return True


def partition(groups, whole, ok=None):
  """Is every label of `whole` in exactly one group, and no other in any?"""
  if groups is None:
    return None
  at = set(atoms(whole)) | (atoms(ok) if ok else set())
  for g in groups:
    if g.mem is None:
      return None
    at |= atoms(g.mem)
  at = sorted(at, key=str)
  if len(at) > 8:
    return None
  pairs = {}
  for g in groups:
    pairs.setdefault(id(g), g)
  for vs in itertools.product((False, True), repeat=len(at)):
    env = dict(zip(at, vs))
    if ok is not None and not ev(ok, env):
      continue
    n = [g for g in groups if ev(g.mem, env)]
    if ev(whole, env):
      if not n:
        return False
      w = [g.which for g in n]
      if len(n) > 1 and sorted(map(str, w)) != ['0', '1']:
        return False
    elif n:
      return False
  return True
