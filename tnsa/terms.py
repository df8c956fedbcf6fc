"""Hash-consed provenance terms: the abstract values of the analysis.

A term records where a value comes from (which parameter, attribute, call,
operator ...), never what it is at run time.  Terms are interned, so equality
of provenance is identity.
"""


class T:
  __slots__ = ('op', 'args', '_s')
  _table = {}

  def __repr__(self):
    return show(self)


def mk(op, *args):
  key = (op,) + tuple(
      (type(a).__name__, a) if not isinstance(a, T) else a for a in args)
  t = T._table.get(key)
  if t is None:
    t = T()
    t.op = op
    t.args = args
    t._s = None
    T._table[key] = t
  return t


def const(v):
  return mk('const', v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def param(fn, name):
  return mk('param', fn, name)


def is_const(t):
  return t.op == 'const'


def walk(t, seen=None):
  """All sub-terms (pre-order, each once)."""
  if seen is None:
    seen = set()
  stack = [t]
  while stack:
    x = stack.pop()
    if isinstance(x, T):
      if x in seen:
        continue
      seen.add(x)
      yield x
      stack.extend(reversed([a for a in x.args]))
    elif isinstance(x, tuple):
      stack.extend(reversed(x))


def contains(t, sub):
  return any(x is sub for x in walk(t))


def mentions(t, pred):
  return any(pred(x) for x in walk(t))


def subst(t, f, memo=None):
  """Rewrite bottom-up: f(term) -> term."""
  if memo is None:
    memo = {}

  def go(x):
    if isinstance(x, T):
      if x in memo:
        return memo[x]
      r = f(mk(x.op, *[go(a) for a in x.args]))
      memo[x] = r
      return r
    if isinstance(x, tuple):
      return tuple(go(a) for a in x)
    return x

  return go(t)


def show(t, depth=0):
  if not isinstance(t, T):
    if isinstance(t, tuple):
      return '(' + ', '.join(show(a, depth) for a in t) + ')'
    return str(t)
  if depth > 9:
    return '..'
  d = depth + 1
  o, a = t.op, t.args
  if o == 'const':
    return repr(a[0])
  if o == 'param':
    return a[1]
  if o in ('func', 'cls', 'mod', 'ext'):
    return a[0]
  if o == 'attr':
    return show(a[0], d) + '.' + a[1]
  if o == 'item':
    return show(a[0], d) + '[' + show(a[1], d) + ']'
  if o == 'bin':
    return '(' + show(a[1], d) + ' ' + a[0] + ' ' + show(a[2], d) + ')'
  if o == 'un':
    return a[0] + show(a[1], d)
  if o == 'cmp':
    return '(' + show(a[1], d) + ' ' + a[0] + ' ' + show(a[2], d) + ')'
  if o == 'call':
    return show(a[0], d) + '(' + ', '.join(
        [show(x, d) for x in a[1]] + [k + '=' + show(v, d)
                                      for k, v in a[2]]) + ')'
  if o == 'new':
    return a[0].split('.')[-1] + '#%s(' % a[3] + ', '.join(
        [show(x, d) for x in a[1]] + [k + '=' + show(v, d)
                                      for k, v in a[2]]) + ')'
  if o == 'bound':
    return show(a[0], d) + '.' + a[1].split('.')[-1]
  if o in ('tuple', 'list', 'set'):
    b = {'tuple': '()', 'list': '[]', 'set': '{}'}[o]
    return b[0] + ', '.join(show(x, d) for x in a[0]) + b[1]
  if o == 'elem':
    return 'elem(' + show(a[0], d) + ')'
  return o + '(' + ', '.join(show(x, d) for x in a) + ')'
