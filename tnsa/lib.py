"""Shared recognisers used by several rules."""
import ast
from .terms import T, mk, const, NONE, TRUE, FALSE, walk, param, subst


def short(q):
  return q[len('tensornetwork.'):] if q.startswith('tensornetwork.') else q


def is_call(t, name):
  """t is a call of ext function `name` (last component)."""
  return (isinstance(t, T) and t.op == 'call' and t.args[0].op == 'ext' and
          t.args[0].args[0].split('.')[-1] == name)


def callee_name(t):
  """Last name of the callee of a call term (method or function)."""
  if not isinstance(t, T) or t.op != 'call':
    return None
  f = t.args[0]
  if f.op in ('ext', 'func', 'global', 'cls', 'mod', 'free'):
    return f.args[0].split('.')[-1]
  if f.op == 'attr':
    return f.args[1]
  if f.op == 'bound':
    return f.args[1].split('.')[-1]
  return None


def callee_recv(t):
  f = t.args[0]
  if f.op in ('attr', 'bound'):
    return f.args[0]
  return None


def call_args(t):
  """(positional terms, dict of keywords) of a call/new term."""
  if t.op == 'call':
    return t.args[1], dict(t.args[2])
  if t.op == 'new':
    return t.args[1], dict(t.args[2])
  return (), {}


def call_arg(t, name, idx=None):
  pos, kw = call_args(t)
  if name in kw:
    return kw[name]
  if idx is not None and idx < len(pos):
    return pos[idx]
  return None


def P(f, name):
  return param(f.qual, name)


def attr(t, *names):
  for n in names:
    t = mk('attr', t, n)
  return t


def facts(path, upto=None):
  """Ordered (term, truth) branch facts of a path (optionally before event)."""
  out = []
  for e in path.events:
    if e is upto:
      break
    if e.kind == 'fact':
      t, v = e.value, e.aug
      while t.op == 'not':
        t, v = t.args[0], not v
      out.append((t, v))
  return out


def mentions_attr(t, name):
  return any(x.op == 'attr' and x.args[1] == name for x in walk(t))


def mentions_term(t, s):
  return any(x is s for x in walk(t))


class UF:

  def __init__(self):
    self.p = {}

  def find(self, x):
    self.p.setdefault(x, x)
    while self.p[x] is not x:
      self.p[x] = self.p[self.p[x]]
      x = self.p[x]
    return x

  def union(self, a, b):
    self.p[self.find(a)] = self.find(b)

  def same(self, a, b):
    return self.find(a) is self.find(b)

  def members(self, a):
    r = self.find(a)
    return [x for x in list(self.p) if self.find(x) is r]


def list_elements(t, get_nodes=True):
  """Terms standing for the arbitrary elements of a list-like term, or None."""
  if t.op in ('list', 'tuple', 'set'):
    out = []
    for x in t.args[0]:
      if x.op == 'star':
        sub = list_elements(x.args[0])
        out += sub if sub is not None else [mk('elem', x.args[0])]
      else:
        out.append(x)
    return out
  if t.op == 'comp':
    return [t.args[1]]
  if t.op == 'bin' and t.args[0] == 'Add':
    a = list_elements(t.args[1])
    b = list_elements(t.args[2])
    a = a if a is not None else [mk('elem', t.args[1])]
    b = b if b is not None else [mk('elem', t.args[2])]
    return a + b
  if t.op == 'item' and t.args[1].op == 'slice':
    return list_elements(t.args[0])
  if t.op == 'append':
    a = list_elements(t.args[0])
    return (a if a is not None else [mk('elem', t.args[0])]) + [t.args[1]]
  if t.op == 'lc':
    return list_elements(t.args[1])
  if t.op == 'call' and t.args[0].op == 'ext' and t.args[0].args[0].split(
      '.')[-1] in ('list', 'tuple', 'set', 'sorted', 'frozenset',
                   'reversed') and len(t.args[1]) == 1:
    return list_elements(t.args[1][0])
  if get_nodes and callee_name(t) == 'get_nodes' and callee_recv(t) is not None:
    e = callee_recv(t)
    return [attr(e, 'node1'), attr(e, 'node2')]
  return [mk('elem', t)]


def fixed(t):
  """No arbitrary-element sub-term."""
  return not any(x.op in ('elem', 'idx') for x in walk(t))


def feasible(p):
  """A stored backend is never None (C03 checks every store)."""
  for t, v in facts(p):
    if v and t.op == 'cmp' and t.args[0] == 'is' and t.args[2] is NONE and \
        t.args[1].op == 'attr' and t.args[1].args[1] == 'backend':
      return False
  return True


def none_facts(p, upto=None):
  """Terms known to be None (True) / not None (False)."""
  out = {}
  for t, v in facts(p, upto):
    if t.op == 'cmp' and t.args[0] in ('is', 'eq') and t.args[2] is NONE:
      out[t.args[1]] = v
  return out


def loops(f):
  """(line, target names, any of them read) of every loop over elements of
  something that is not a mere count."""
  loads = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and
           isinstance(n.ctx, ast.Load)}
  for n in ast.walk(f.node):
    gens = []
    if isinstance(n, ast.For):
      gens = [(n.target, n.iter, n.lineno)]
    elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                        ast.DictComp)):
      gens = [(g.target, g.iter, n.lineno) for g in n.generators]
    for t, it, line in gens:
      if isinstance(it, ast.Call) and (getattr(it.func, 'id', None) or getattr(
          it.func, 'attr', None)) in ('range', 'repeat', 'count', 'arange'):
        continue
      names = {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
      if not names or any(x.startswith('_') for x in names):
        continue
      yield line, sorted(names), bool(names & loads)
