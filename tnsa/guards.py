"""Conditional constant propagation through the branch facts of a path.

A case fixes the values of some atoms of a function (parameters, attributes,
lengths, shapes). The facts of every path are folded under the case; a path
with a false fact cannot be taken. A case that must be refused may leave no
path that ends normally (or that reaches the guarded operation); a case that
must be accepted may leave no path whose deciding fact is known and raises."""
from .terms import T, mk, walk, NONE
from .lib import callee_name, callee_recv


class _Unk:

  def __repr__(self):
    return '?'


UNK = _Unk()


class Some:
  """A value known only not to be None (and to differ from other Somes)."""

  def __init__(self, name='v', truth=UNK):
    self.name, self.truth = name, truth

  def __repr__(self):
    return '<%s>' % self.name


class Env:

  def __init__(self, vals=None, rules=()):
    self.vals = dict(vals or {})
    self.rules = list(rules)
    self.memo = {}

  def atoms(self):
    return self.vals

  def ev(self, t):
    if t in self.memo:
      return self.memo[t]
    self.memo[t] = UNK
    r = self._ev(t)
    self.memo[t] = r
    return r

  def truth(self, t):
    v = self.ev(t)
    if v is UNK:
      return UNK
    if isinstance(v, Some):
      return v.truth
    return bool(v)

  def _ev(self, t):
    if t in self.vals:
      return self.vals[t]
    for r in self.rules:
      v = r(self, t)
      if v is not UNK:
        return v
    o, a = t.op, t.args
    if o == 'const':
      return a[0]
    if o in ('tuple', 'list', 'set'):
      vs = [self.ev(x) if x.op != 'star' else UNK for x in a[0]]
      if any(v is UNK for v in vs):
        return UNK
      if o == 'set':
        try:
          return set(vs)
        except TypeError:
          return UNK
      return tuple(vs) if o == 'tuple' else list(vs)
    if o == 'not':
      v = self.truth(a[0])
      return UNK if v is UNK else not v
    if o == 'boolop':
      vs = [self.truth(x) for x in a[1]]
      if a[0] == 'and':
        if any(v is False for v in vs):
          return False
        return UNK if any(v is UNK for v in vs) else True
      if any(v is True for v in vs):
        return True
      return UNK if any(v is UNK for v in vs) else False
    if o == 'ite':
      c = self.truth(a[0])
      if c is UNK:
        x, y = self.ev(a[1]), self.ev(a[2])
        return x if x is not UNK and x is y else UNK
      return self.ev(a[1] if c else a[2])
    if o == 'un':
      v = self.ev(a[1])
      if v is UNK or isinstance(v, Some):
        return UNK
      try:
        return {'-': lambda: -v, 'USub': lambda: -v, '+': lambda: +v,
                'UAdd': lambda: +v, '~': lambda: ~v,
                'Invert': lambda: ~v}[a[0]]()
      except (KeyError, TypeError):
        return UNK
    if o == 'bin':
      x, y = self.ev(a[1]), self.ev(a[2])
      if x is UNK or y is UNK or isinstance(x, Some) or isinstance(y, Some):
        return UNK
      try:
        return {'Add': lambda: x + y, 'Sub': lambda: x - y,
                'Mult': lambda: x * y, 'FloorDiv': lambda: x // y,
                'Div': lambda: x / y, 'Mod': lambda: x % y,
                'Pow': lambda: x**y}[a[0]]()
      except Exception:  # pylint: disable=broad-except
        return UNK
    if o == 'comp':
      # non-empty exactly when its arbitrary element passes the filters
      vs = [self.truth(x) for x in a[3]]
      if a[2].op == 'comp':
        vs.append(self.truth(a[2]))
      if any(v is False for v in vs):
        return Some('empty', False)
      if any(v is UNK for v in vs):
        return UNK
      return Some('nonempty', True)
    if o == 'cmp':
      return self.cmp(a[0], a[1], a[2])
    if o == 'item':
      x, i = self.ev(a[0]), (self.ev(a[1]) if isinstance(a[1], T) else UNK)
      if x is UNK or isinstance(x, Some):
        return UNK
      if a[1].op == 'slice':
        s = [self.ev(q) for q in a[1].args]
        if any(q is UNK for q in s):
          return UNK
        i = slice(*s)
      if i is UNK or isinstance(i, Some):
        return UNK
      try:
        return x[i]
      except Exception:  # pylint: disable=broad-except
        return UNK
    if o == 'call':
      return self.call(t)
    return UNK

  def call(self, t):
    n = callee_name(t)
    pos, kw = t.args[1], t.args[2]
    if n in ('lower', 'upper', 'strip') and callee_recv(t) is not None and \
        not pos:
      v = self.ev(callee_recv(t))
      return getattr(v, n)() if isinstance(v, str) else UNK
    if t.args[0].op != 'ext' or kw:
      return UNK
    if n in ('len', 'abs', 'int', 'bool', 'max', 'min', 'sum', 'set', 'list',
             'tuple', 'sorted', 'any', 'all', 'range', 'float', 'str'):
      vs = [self.ev(x) for x in pos]
      if any(v is UNK or isinstance(v, Some) for v in vs):
        return UNK
      try:
        return {'len': len, 'abs': abs, 'int': int, 'bool': bool, 'max': max,
                'min': min, 'sum': sum, 'set': set, 'list': list,
                'tuple': tuple, 'sorted': sorted, 'any': any, 'all': all,
                'range': range, 'float': float, 'str': str}[n](*vs)
      except Exception:  # pylint: disable=broad-except
        return UNK
    return UNK

  def cmp(self, op, l, r):
    if op in ('eq', 'is') and l is r:
      return True
    x, y = self.ev(l), self.ev(r)
    if op in ('is', 'eq'):
      if x is UNK or y is UNK:
        return UNK
      if isinstance(x, Some) or isinstance(y, Some):
        if x is y:
          return True
        if x is None or y is None or (
            isinstance(x, Some) and isinstance(y, Some)):
          return False
        return False if isinstance(y, str) or isinstance(x, str) else UNK
      if op == 'is':
        return (x is y) if x is None or y is None or isinstance(
            x, bool) else UNK
      try:
        return bool(x == y)
      except Exception:  # pylint: disable=broad-except
        return UNK
    if op == 'in':
      if x is UNK:
        return UNK
      if r.op in ('tuple', 'list', 'set'):
        res = False
        for e in r.args[0]:
          v = self.ev(e) if e.op != 'star' else UNK
          if v is UNK:
            res = UNK
          elif not isinstance(v, Some) and not isinstance(x, Some):
            try:
              if v == x:
                return True
            except Exception:  # pylint: disable=broad-except
              res = UNK
          elif v is x:
            return True
        return res
      if y is UNK or isinstance(y, Some) or isinstance(x, Some):
        return UNK
      try:
        return x in y
      except Exception:  # pylint: disable=broad-except
        return UNK
    if x is UNK or y is UNK or isinstance(x, Some) or isinstance(y, Some):
      return UNK
    try:
      return x < y if op == 'lt' else x <= y if op == 'le' else UNK
    except Exception:  # pylint: disable=broad-except
      return UNK


def path_facts(p, env, upto=None):
  """(event, term, wanted truth, value under env) in order."""
  for e in p.events:
    if e is upto:
      return
    if e.kind == 'fact':
      yield e, e.value, bool(e.aug), env.truth(e.value)


def mentions_env(t, env):
  return any(x in env.vals for x in walk(t))


def status(p, env, upto=None, guard=None):
  """('no', fact) | ('yes', None) | ('maybe', unknown relevant fact)."""
  unk = None
  for _, t, want, v in path_facts(p, env, upto):
    if v is UNK:
      if unk is None and mentions_env(t, env) and (guard is None or
                                                   t in guard):
        unk = t
      continue
    if v is not want:
      return 'no', t
  return ('maybe', unk) if unk is not None else ('yes', None)


def guard_facts(paths, env, late=None):
  """Facts of the raising paths that stay possible under env."""
  out = set()
  for p in paths:
    if p.outcome == 'raise' and status(p, env)[0] != 'no':
      out |= {t for _, t, _, v in path_facts(p, env)
              if v is UNK and not (late and late(t))}
  return out


def reject(rep, rule, inst, f, paths, env, what, used=None, late=None):
  """Under env no path may end normally, nor meet a `used` event first."""
  worst, where = 'ok', None
  guard = guard_facts(paths, env, late)
  for p in paths:
    hits = []
    if p.outcome != 'raise':
      hits.append((None, 'ends normally'))
    if used is not None:
      e = next((e for e in p.events if used(e)), None)
      if e is not None:
        hits.append((e, 'runs first'))
    for e, how in hits:
      s, t = status(p, env, e, guard)
      if s == 'yes':
        loc = e.loc if e is not None and e.loc and e.loc[0] else (f.file,
                                                                  f.line)
        rep.bad(rule, inst, '%s is not refused%s' %
                (what, ' before %s' % str(e)[:80] if e else ''), loc)
        return
      if s == 'maybe':
        worst, where = 'maybe', t
  if worst == 'maybe':
    rep.undecided(rule, inst, 'cannot fold %s' % where)
  elif not paths:
    rep.undecided(rule, inst, 'no path')
  else:
    rep.ok(rule, inst)


def accept(rep, rule, inst, f, paths, env, what):
  """Under env no raise may be decided by a fact known to hold."""
  normal = False
  for p in paths:
    s, _ = status(p, env)
    if s == 'no':
      continue
    if p.outcome != 'raise':
      normal = True
      continue
    if any(e.kind == 'caught' for e in p.events):
      continue  # some operation failed
    last = None
    for x in path_facts(p, env):
      last = x
    if last is not None and last[3] is not UNK and mentions_env(last[1], env):
      ev = p.events[-1]
      rep.bad(rule, inst, '%s is refused (%s)' % (what, last[1]),
              ev.loc or '%s:%d' % (f.file, f.line))
      return
  if normal:
    rep.ok(rule, inst)
  else:
    rep.undecided(rule, inst, 'no normal path')
