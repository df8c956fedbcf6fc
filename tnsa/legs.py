"""Leg types of the tensors in the matrix product state code.

Every leg has a kind (k: state bond, m: operator bond, p: physical, or a fresh
bond made by a decomposition), a position along the chain (a linear form) and a
direction. A leg may only be joined with the same leg of opposite direction;
conjugation reverses all directions, so the ket and the bra leg of an
environment differ in direction only. Types of stored tensors and environments
are invariants: assumed at reads, checked at writes."""
from .terms import T, mk, const, NONE, walk, subst
from .lib import callee_name, callee_recv, call_arg, attr, facts

CLS = 'tensornetwork.matrixproductstates.'
MPSC = {'BaseMPS', 'FiniteMPS', 'InfiniteMPS'}


# ---- linear forms ----------------------------------------------------------
def lin(t, env=()):
  """{atom: coef} with the constant under None."""
  if isinstance(t, int):
    return {None: t}
  if t.op == 'const' and isinstance(t.args[0], int) and not isinstance(
      t.args[0], bool):
    return {None: t.args[0]}
  if t.op == 'bin' and t.args[0] in ('Add', 'Sub'):
    a, b = lin(t.args[1], env), lin(t.args[2], env)
    s = 1 if t.args[0] == 'Add' else -1
    out = dict(a)
    for k, v in b.items():
      out[k] = out.get(k, 0) + s * v
    return {k: v for k, v in out.items() if v or k is None}
  if t.op == 'un' and t.args[0] == 'USub':
    return {k: -v for k, v in lin(t.args[1], env).items()}
  if t.op == 'bin' and t.args[0] == 'Mod' and is_len(t.args[2]):
    return lin(t.args[1], env)
  if t.op == 'call' and callee_name(t) in ('mod', 'remainder') and \
      len(t.args[1]) == 2 and is_len(t.args[1][1]):
    return lin(t.args[1][0], env)
  if t.op == 'call' and callee_name(t) in ('int', 'int64', 'item') and \
      len(t.args[1]) == 1:
    return lin(t.args[1][0], env)
  if is_len(t):
    return {'N': 1}
  for a, b in env:
    if t is a:
      return lin(b, env)
  return {t: 1}


def is_len(t):
  if t.op == 'call' and callee_name(t) in ('len', '__len__'):
    x = t.args[1][0] if t.args[1] else callee_recv(t)
    return x is not None and (chain_of(x) is not None or (
        x.op == 'attr' and x.args[1] in ('tensors', '_tensors') and
        chain_of(x.args[0]) is not None))
  return False


def chain_of(t):
  """'mps'/'mpo' for a term that stands for a chain (any receiver)."""
  if t.op == 'param' and t.args[1] in ('self', 'mps', 'mpo'):
    return 'mpo' if t.args[1] == 'mpo' else 'mps'
  if t.op == 'attr' and t.args[1] in ('mps', 'mpo', '_mps', '_mpo'):
    return t.args[1].strip('_')
  return None


def ladd(a, n):
  out = dict(a)
  out[None] = out.get(None, 0) + n
  return out


def ldiff(a, b, mod=False):
  """a - b if constant, else None."""
  out = dict(a)
  for k, v in b.items():
    out[k] = out.get(k, 0) - v
  if mod:
    out.pop('N', None)
  rest = {k: v for k, v in out.items() if v and k is not None}
  return None if rest else out.get(None, 0)


def lstr(a):
  s = ''
  for k, v in sorted((str(k)[-24:], v) for k, v in a.items() if k is not None):
    s += ('+' if s and v > 0 else '') + (k if v == 1 else '%s*%s' % (v, k))
  c = a.get(None, 0)
  return s + ('%+d' % c if c else '') if s else str(c)


def strip(it):
  """(iterable, reversed) without order-only wrappers."""
  rev = False
  while it.op == 'call' and callee_name(it) in ('reversed', 'list', 'tuple',
                                                'iter') and it.args[1]:
    rev ^= callee_name(it) == 'reversed'
    it = it.args[1][0]
  return it, rev


class Leg:
  __slots__ = ('kind', 'at', 'dir')

  def __init__(self, kind, at, d):
    self.kind, self.at, self.dir = kind, at, d

  def conj(self):
    return Leg(self.kind, self.at, -self.dir)

  def shift(self, n):
    return Leg(self.kind, ladd(self.at, n) if isinstance(self.at, dict) else
               self.at, self.dir)

  def __repr__(self):
    n = {'k': 'state bond', 'm': 'operator bond', 'p': 'physical leg'}.get(
        self.kind, 'new bond')
    return '%s %s%s' % (n, lstr(self.at) if isinstance(self.at, dict) else '',
                        ' out' if self.dir > 0 else ' in')


def mps_type(i):
  return [Leg('k', i, -1), Leg('p', i, 1), Leg('k', ladd(i, 1), 1)]


def two_site_type(i):
  return [Leg('k', i, -1), Leg('p', i, 1), Leg('p', ladd(i, 1), 1),
          Leg('k', ladd(i, 2), 1)]


def mpo_type(i):
  return [Leg('m', i, -1), Leg('m', ladd(i, 1), 1), Leg('p', i, 1),
          Leg('p', i, -1)]


def l_type(i):
  return [Leg('k', i, 1), Leg('k', i, -1)]


def r_type(i):
  j = ladd(i, 1)
  return [Leg('k', j, -1), Leg('k', j, 1)]


def L_type(i):
  return [Leg('m', i, 1), Leg('k', i, 1), Leg('k', i, -1)]


def R_type(i):
  j = ladd(i, 1)
  return [Leg('m', j, -1), Leg('k', j, -1), Leg('k', j, 1)]


def conj_type(ls):
  return [x.conj() if x else None for x in ls]


def cmps_type(i):
  return conj_type(mps_type(i))


def gate1(i):
  return [Leg('p', i, 1), Leg('p', i, -1)]


def gate2(i):
  j = ladd(i, 1)
  return [Leg('p', i, 1), Leg('p', j, 1), Leg('p', i, -1), Leg('p', j, -1)]


# parameters after self: (type, offset); result (type, offset)
SIGS = {
    'dmrg.BaseDMRG.single_site_matvec':
        (((mps_type, 0), (L_type, 0), (mpo_type, 0), (R_type, 0)),
         (mps_type, 0)),
    'dmrg.BaseDMRG.two_site_matvec':
        (((two_site_type, 0), (L_type, 0), (mpo_type, 0), (mpo_type, 1),
          (R_type, 1)), (two_site_type, 0)),
    'dmrg.BaseDMRG.add_left_layer':
        (((L_type, 0), (mps_type, 0), (mpo_type, 0)), (L_type, 1)),
    'dmrg.BaseDMRG.add_right_layer':
        (((R_type, 0), (mps_type, 0), (mpo_type, 0)), (R_type, -1)),
    'base_mps.BaseMPS.left_transfer_operator':
        (((mps_type, 0), (l_type, 0), (cmps_type, 0)), (l_type, 1)),
    'base_mps.BaseMPS.right_transfer_operator':
        (((mps_type, 0), (r_type, 0), (cmps_type, 0)), (r_type, -1)),
}
BYNAME = {q.split('.')[-1]: q for q in SIGS}
LEFT = ('l', 'left', 1)
RIGHT = ('r', 'right', -1)


class Machine:
  """Leg types of the terms of one path."""

  def __init__(self, f, path, rep, prog, mod=False):
    self.f, self.p, self.rep, self.mod = f, path, rep, mod
    self.prog = prog
    self._lins = {}
    self.generic = []
    self.env = self.equalities()
    self.stores = []     # (dict term, key, value)
    self.joins = []      # (endpoint, endpoint)
    self.order = {}      # contraction term -> endpoints
    self.sub = {}        # first-iteration substitution in force
    self.memo = {}
    self.params = {}     # param term -> legs
    self.loc = f.file
    self.reversed = set()
    self.issues = []
    self.done = set()

  def equalities(self):
    out = []
    for t, v in facts(self.p):
      eq = t.op == 'cmp' and ((t.args[0] == 'eq' and v) or
                              (t.args[0] == 'ne' and not v))
      if eq and t.args[1].op == 'param' and t.args[2].op == 'bin':
        out.append((t.args[1], t.args[2]))
      elif eq and t.args[2].op == 'param' and t.args[1].op == 'bin':
        out.append((t.args[2], t.args[1]))
    return out

  # -- reporting ------------------------------------------------------------
  def bad(self, rule, inst, msg):
    if (rule, inst, msg) not in self.done:
      self.done.add((rule, inst, msg))
      self.rep.bad(rule, inst, msg, self.loc)

  def ok(self, rule, inst):
    if (rule, inst) not in self.done:
      self.done.add((rule, inst))
      self.rep.ok(rule, inst)

  def und(self, rule, inst, why=''):
    if (rule, inst) not in self.done:
      self.done.add((rule, inst))
      self.rep.undecided(rule, inst, why)

  # -- comparisons ----------------------------------------------------------
  def joinable(self, a, b):
    """True / False / None, reason."""
    if a is None or b is None:
      return None, 'unknown leg'
    if a.kind != b.kind:
      return False, 'a %r with a %r' % (a, b)
    if a.dir == b.dir:
      return False, 'a %r with a %r' % (a, b)
    if isinstance(a.at, dict) and isinstance(b.at, dict):
      d = ldiff(a.at, b.at, self.mod)
      if d is None:
        return None, 'positions %s and %s' % (lstr(a.at), lstr(b.at))
      if d:
        return False, 'a %r with a %r' % (a, b)
    return True, ''

  def same(self, a, b, fresh=False):
    """Leg a has the type b."""
    if a is None or b is None:
      return None, 'unknown leg'
    if a.dir != b.dir:
      return False, 'is a %r instead of a %r' % (a, b)
    if a.kind != b.kind:
      if 'p' in (a.kind, b.kind) or (a.kind in ('k', 'm') and b.kind in ('k', 'm')):
        return False, 'is a %r instead of a %r' % (a, b)
      return (True, '') if fresh else (None, 'new bond')
    d = ldiff(a.at, b.at, self.mod) if isinstance(a.at, dict) and isinstance(
        b.at, dict) else (0 if a.at is b.at else None)
    if d is None:
      return None, 'positions'
    if d:
      return False, 'is a %r instead of a %r' % (a, b)
    return True, ''

  def has_type(self, rule, inst, legs, want, what, fresh=False):
    if legs is None:
      self.und(rule, inst, 'legs of %s unknown' % what)
      return
    if len(legs) != len(want):
      self.bad(rule, inst, '%s has %d legs instead of %d' % (what, len(legs),
                                                            len(want)))
      return
    und = None
    for n, (a, b) in enumerate(zip(legs, want)):
      r, why = self.same(a, b, fresh)
      if r is False:
        self.bad(rule, inst, 'leg %d of %s %s' % (n, what, why))
        return
      if r is None:
        und = why
    if und:
      self.und(rule, inst, und)
    else:
      self.ok(rule, inst)

  # -- substitution ---------------------------------------------------------
  def resolve(self, t):
    if not self.sub:
      return t
    return subst(t, lambda x: self.sub.get(x, x))

  def lin(self, t):
    return lin(self.resolve(t), self.env)

  # -- legs of terms --------------------------------------------------------
  def legs(self, t):
    t = self.resolve(t)
    key = t
    if key in self.memo:
      return self.memo[key]
    self.memo[key] = None
    r = self._legs(t)
    self.memo[key] = r
    return r

  def site_tensor(self, t):
    """('mps'|'mpo', index term) of X.tensors[i]."""
    if t.op == 'item' and t.args[0].op == 'attr' and t.args[0].args[1] in (
        'tensors', '_tensors') and isinstance(t.args[1], T) and \
        t.args[1].op != 'slice':
      c = chain_of(t.args[0].args[0])
      if c is None:
        return None
      if t.args[0].args[0].op == 'param' and \
          t.args[0].args[0].args[1] == 'self':
        cl = self.f.cls.name if self.f.cls else ''
        if cl not in MPSC:
          c = 'mpo' if 'MPO' in cl else None
      return (c, t.args[1]) if c else None
    return None

  def index(self, t):
    a = self.lin(t)
    if set(a) == {None} and a[None] < 0:
      a = {'N': 1, None: a[None]}
    return a

  def _legs(self, t):
    o = t.op
    if t in self.params:
      return self.params[t]
    if o == 'lc':
      return self.legs(t.args[1])
    st = self.site_tensor(t)
    if st:
      return (mps_type if st[0] == 'mps' else mpo_type)(self.index(st[1]))
    if o == 'item':
      return self.item_legs(t)
    if o == 'new' and t.args[0].endswith('.Node'):
      x = t.args[1][0] if t.args[1] else dict(t.args[2]).get('tensor')
      return self.legs(x) if x is not None else None
    if o == 'attr' and t.args[1] in ('tensor', '_tensor'):
      e = self.ends(t.args[0])
      if e is not None:
        return [self.end_leg(x) for x in e]
      return self.legs(t.args[0])
    if o == 'bin':
      if t.args[0] in ('Div', 'Mult', 'Add', 'Sub'):
        a, b = t.args[1], t.args[2]
        la, lb = self.legs(a), self.legs(b)
        if t.args[0] in ('Add', 'Sub') and la and lb:
          if len(la) == len(lb):
            for n, (x, y) in enumerate(zip(la, lb)):
              r, why = self.same(x, y)
              if r is False:
                self.bad('sum', self.inst(), 'terms of different legs are '
                         'added: leg %d %s' % (n, why))
                break
            else:
              self.ok('sum', self.inst())
        if t.args[0] == 'Div':
          return lb if a.op == 'const' else la
        return la if la is not None else lb
      return None
    if o == 'call':
      return self.call_legs(t)
    return None

  def inst(self):
    q = self.f.qual.split('matrixproductstates.')[-1]
    return q.split('.', 1)[-1]

  def item_legs(self, t):
    b, k = t.args
    if not isinstance(k, T):
      return None
    # environments of a DMRG object or returned by left_envs/right_envs
    if b.op == 'attr' and b.args[1] in ('left_envs', 'right_envs') and \
        b.args[0].op == 'param' and 'DMRG' in (
            self.f.cls.name if self.f.cls else ''):
      return (L_type if b.args[1] == 'left_envs' else R_type)(self.index(k))
    if b.op == 'call' and callee_name(b) in ('left_envs', 'right_envs'):
      return (l_type if callee_name(b) == 'left_envs' else r_type)(
          self.index(k))
    if b.op == 'dict':
      v = self.dict_value(b, k)
      if v is not None:
        return self.legs(v)
      if len(b.args[0]) >= 1 and b.args[0][0][0].op != 'dstar':
        k0, v0 = b.args[0][0]
        if v0.op == 'item':
          l0 = self.legs(v0)
          d = self.index(k)
          if l0:
            return [Leg(x.kind, _move(x.at, self.index(k0), d), x.dir)
                    if x else None for x in l0]
      return None
    # results of decompositions and solvers
    if k.op == 'const' and isinstance(k.args[0], int):
      if b.op == 'call':
        return self.component(b, k.args[0])
      if b.op == 'item' and b.args[0].op == 'call' and b.args[1] is const(1) \
          and callee_name(b.args[0]) in ('eigsh_lanczos', 'eigsh', 'eigs'):
        x = call_arg(b.args[0], 'initial_state')
        return self.legs(x) if x is not None else None
    return None

  def dict_value(self, d, k):
    """Value of a locally filled dictionary at key k."""
    want = self.index(k)
    for dd, kk, vv in reversed(self.stores):
      if dd is not d:
        continue
      if kk is k or ldiff(lin(kk, self.env), want) == 0:
        return vv
      if kk.op == 'elem':
        return subst(vv, lambda x, kk=kk: k if x is kk else x)
    return None

  def component(self, call, n):
    nm = callee_name(call)
    if nm == 'transfer_matrix_eigs' and n == 1:
      d = call_arg(call, 'direction', 0)
      if d is not None and d.op == 'const':
        return l_type({None: 0}) if d.args[0] in LEFT else r_type(
            {'N': 1, None: -1}) if d.args[0] in RIGHT else None
      return None
    if nm == 'eigh':
      x = call.args[1][0] if call.args[1] else call_arg(call, 'matrix')
      ls = self.legs(x) if x is not None else None
      if n == 0:
        return [Leg(('f', call), None, 0)]
      return [ls[0], Leg(('f', call), None, 1)] if ls else None
    if nm not in ('qr', 'rq', 'svd'):
      return None
    x = call_arg(call, 'tensor', 0)
    ls = self.legs(x) if x is not None else None
    if ls is None:
      return None
    own = callee_recv(call) is not None and not (
        callee_recv(call).op == 'attr' and callee_recv(call).args[1] ==
        'backend')
    dflt = {'qr': 2, 'rq': 1, 'svd': 2} if own else {'qr': -1, 'rq': -1,
                                                     'svd': -1}
    pv = call_arg(call, 'pivot_axis', 1)
    if pv is None:
      piv = dflt[nm]
    elif pv.op == 'const' and isinstance(pv.args[0], int):
      piv = pv.args[0]
    else:
      return None
    if own and nm in ('qr', 'rq'):
      piv = dflt[nm]
    new = ('f', call)
    left = ls[:piv] + [Leg(new, None, 1)]
    right = [Leg(new, None, -1)] + ls[piv:]
    if nm == 'svd':
      return {0: left, 1: [Leg(new, None, 0)], 2: right}.get(n)
    return {0: left, 1: right}.get(n)

  def call_legs(self, t):
    n = callee_name(t)
    pos = t.args[1]
    if n == 'ncon':
      return self.ncon(t)
    if n == 'conj' or n == 'conjugate':
      x = pos[0] if pos else (call_arg(t, 'tensor') or call_arg(t, 'node') or
                              callee_recv(t))
      ls = self.legs(x) if x is not None else None
      return conj_type(ls) if ls else None
    if n == 'transpose':
      x = call_arg(t, 'tensor', 0)
      pm = call_arg(t, 'perm', 1)
      ls = self.legs(x) if x is not None else None
      if ls and pm is not None and pm.op in ('tuple', 'list') and all(
          y.op == 'const' for y in pm.args[0]) and len(pm.args[0]) == len(ls):
        return [ls[y.args[0]] for y in pm.args[0]]
      return None
    if n == 'get_tensor':
      i = call_arg(t, 'site', 0)
      return mps_type(self.index(i)) if i is not None else None
    if n in ('diagflat', 'diag'):
      x = call_arg(t, 'tensor', 0)
      ls = self.legs(x) if x is not None else None
      if ls and len(ls) == 1 and ls[0]:
        return [Leg(ls[0].kind, ls[0].at, -1), Leg(ls[0].kind, ls[0].at, 1)]
      return None
    if n == 'inv':
      ls = self.legs(call_arg(t, 'matrix', 0)) if call_arg(
          t, 'matrix', 0) is not None else None
      return conj_type(ls[::-1]) if ls and len(ls) == 2 and all(ls) else None
    if n in ('sqrt', 'index_update', 'abs'):
      x = call_arg(t, 'tensor', 0)
      return self.legs(x) if x is not None else None
    if n == 'convert_to_tensor':
      x = call_arg(t, 'tensor', 0)
      return self.legs(x) if x is not None else None
    if n == 'eye':
      a = call_arg(t, 'N', 0)
      x = self.dim_leg(a) if a is not None else None
      if x:
        m = call_arg(t, 'M', 2)
        if m is not None and m is not NONE:
          y = self.dim_leg(m)
          return [x, y]
        return [x, x.conj()]
      return None
    if n in ('ones', 'zeros', 'randn'):
      s = call_arg(t, 'shape', 0)
      if s is not None and s.op in ('tuple', 'list'):
        ls = [self.dim_leg(x) for x in s.args[0]]
        return ls if any(ls) else None
      return None
    if n in BYNAME and callee_recv(t) is not None:
      return self.signature(t, BYNAME[n])
    if n == 'apply_transfer_operator':
      s, d = call_arg(t, 'site', 0), call_arg(t, 'direction', 1)
      m = call_arg(t, 'matrix', 2)
      if s is None or d is None or d.op != 'const' or m is None:
        return None
      i = self.index(s)
      left = d.args[0] in LEFT
      self.has_type('call', self.inst() + ' transfer ' + str(d.args[0]),
                    self.legs(m), (l_type if left else r_type)(i),
                    'the matrix given to the transfer operator')
      return l_type(ladd(i, 1)) if left else r_type(ladd(i, -1))
    if n in ('contract_between', '__matmul__', 'contract', 'matmul'):
      e = self.ends(t)
      return [self.end_leg(x) for x in e] if e is not None else None
    return None

  def dim_leg(self, t):
    """The leg whose dimension a term is: shape(x)[n]."""
    if t.op != 'item' or t.args[1].op != 'const':
      return None
    s = t.args[0]
    x = None
    if s.op == 'call' and callee_name(s) in ('sparse_shape',):
      x = call_arg(s, 'tensor', 0)
    elif s.op == 'attr' and s.args[1] == 'sparse_shape':
      x = s.args[0]
    if x is None:
      return None
    ls = self.legs(x)
    n = t.args[1].args[0]
    if ls is None or not isinstance(n, int) or not -len(ls) <= n < len(ls):
      return None
    return ls[n]

  def signature(self, t, q, args=None):
    ps, res = SIGS[q]
    f = self.prog.funcs.get(CLS + q)
    if args is None:
      names = f.params[1:] if f else []
      args = [call_arg(t, names[n] if n < len(names) else '?', n)
              for n in range(len(ps))]
    if any(a is None for a in args):
      return None
    ls = [self.legs(a) for a in args]
    i = None
    # the position most arguments agree on
    votes = []
    for l, (ty, off) in zip(ls, ps):
      if not l:
        continue
      ref = ty({None: off})
      if len(ref) != len(l):
        continue
      for x, y in zip(l, ref):
        if x is not None and isinstance(x.at, dict):
          votes.append(ladd(x.at, -y.at[None]))
          break
    best = 0
    for v in votes:
      c = sum(1 for w in votes if ldiff(v, w, self.mod) == 0)
      if c > best:
        best, i = c, v
    if i is None:
      return None
    name = q.split('.')[-1]
    for n, (l, (ty, off)) in enumerate(zip(ls, ps)):
      self.has_type('call', '%s %s argument %d' % (self.inst(), name, n), l,
                    ty(ladd(i, off)), 'argument %d of %s' % (n, name),
                    fresh=True)
    # a fresh bond of an argument passes through
    return res[0](ladd(i, res[1]))

  def ncon(self, t):
    ts, ns = call_arg(t, 'tensors', 0), call_arg(t, 'network_structure', 1)
    if ts is None or ns is None or ts.op not in ('list', 'tuple') or \
        ns.op not in ('list', 'tuple'):
      self.und('join', self.inst(), 'operands of ncon are not listed')
      return None
    labs = []
    for l in ns.args[0]:
      if l.op not in ('list', 'tuple') or not all(
          x.op == 'const' for x in l.args[0]):
        self.und('join', self.inst(), 'labels of ncon are not constant')
        return None
      labs.append([x.args[0] for x in l.args[0]])
    if len(labs) != len(ts.args[0]):
      self.bad('join', self.inst(), '%d label lists for %d tensors' %
               (len(labs), len(ts.args[0])))
      return None
    where = {}
    for a, (x, l) in enumerate(zip(ts.args[0], labs)):
      ls = self.legs(x)
      if ls is not None and len(ls) != len(l):
        self.bad('join', self.inst(), 'tensor %d of a contraction has %d legs '
                 'but %d labels' % (a, len(ls), len(l)))
        return None
      for n, y in enumerate(l):
        where.setdefault(y, []).append(ls[n] if ls is not None else None)
    out = {}
    for y, ls in sorted(where.items(), key=str):
      if isinstance(y, int) and y < 0:
        if len(ls) != 1:
          self.bad('join', '%s label %s' % (self.inst(), y), 'an open label '
                   'is used %d times' % len(ls))
        out[y] = ls[0]
        continue
      if len(ls) != 2:
        self.bad('join', '%s label %s' % (self.inst(), y), 'a contracted '
                 'label is used %d times' % len(ls))
        continue
      r, why = self.joinable(*ls)
      inst = '%s [%s] label %s' % (self.inst(), self.opnames(ts), y)
      if r is False:
        self.bad('join', inst, 'joins %s' % why)
      elif r is None:
        self.und('join', inst, why)
      else:
        self.ok('join', inst)
    return [out[y] for y in sorted(out, reverse=True)]

  def opnames(self, ts):
    return ','.join(opname(x) for x in ts.args[0])

  # -- nodes ----------------------------------------------------------------
  def node(self, t):
    """Normal form of a node-valued term."""
    t = self.resolve(t)
    while True:
      if t.op == 'lc':
        t = self.resolve(t.args[1])
      elif t.op == 'item' and t.args[0].op == 'dict':
        v = self.dict_value(t.args[0], t.args[1])
        if v is None:
          return t
        t = self.resolve(v)
      else:
        return t

  def edge(self, t):
    """Endpoint (node, axis) of an edge-valued term."""
    t = self.resolve(t)
    if t.op == 'call' and callee_name(t) == 'get_edge':
      ax = call_arg(t, 'axis', 0)
      nd = callee_recv(t)
    elif t.op == 'item':
      b, ax = t.args
      if b.op == 'comp' and b.args[0] == 'dict':
        v = self.comp_value(b, ax)
        return self.edge(v) if v is not None else None
      if b.op == 'attr' and b.args[1] == 'edges':
        b = b.args[0]
      nd = b
    else:
      return None
    if ax is None or ax.op != 'const' or not isinstance(ax.args[0], int):
      return None
    nd = self.node(nd)
    e = self.ends(nd)
    if e is None or not -len(e) <= ax.args[0] < len(e):
      return None
    return e[ax.args[0]]

  def comp_value(self, c, k):
    """Value of {key: val for key, val in d.items()} at k."""
    val, it = c.args[1], c.args[2]
    if val.op == 'tuple':
      val = val.args[0][1]
    if it.op == 'call' and callee_name(it) == 'items':
      d = callee_recv(it)
      v = self.dict_value(d, k)
      if v is None:
        return None
      el = mk('elem', it)
      a, b = mk('item', el, const(0)), mk('item', el, const(1))
      return subst(val, lambda x: k if x is a else v if x is b else x)
    return None

  def leaf(self, t):
    """Nodes are compared by what they hold."""
    def f(x):
      if x.op == 'item' and self.site_tensor(x):
        i = self.index(x.args[1])
        l = mk('lin', tuple(sorted((str(k), v) for k, v in i.items() if v)))
        self._lins.setdefault(l, x.args[1])
        return mk('item', x.args[0], l)
      return x
    return subst(t, f)

  def ends(self, t):
    t = self.node(t)
    if t in self.order:
      return self.order[t]
    if t.op == 'call' and callee_name(t) in ('contract_between', '__matmul__'):
      a = callee_recv(t) if callee_name(t) == '__matmul__' else call_arg(
          t, 'node1', 0)
      b = call_arg(t, 'other', 0) if callee_name(t) == '__matmul__' else \
          call_arg(t, 'node2', 1)
      if a is None or b is None:
        return None
      ea, eb = self.ends(a), self.ends(b)
      if ea is None or eb is None:
        return None
      gone = set()
      for n, x in enumerate(ea):
        for m, y in enumerate(eb):
          if self.joined(x, y):
            gone |= {(0, n), (1, m)}
      if not gone:
        self.und('join', self.inst(), 'no shared edge found at ' +
                 self.loc.split(':')[-1])
        return None
      out = [x for n, x in enumerate(ea) if (0, n) not in gone] + \
          [y for m, y in enumerate(eb) if (1, m) not in gone]
      self.order[t] = out
      return out
    if t.op == 'new' or (t.op == 'call' and callee_name(t) in (
        'conj', 'conjugate', 'copy')):
      ls = self.legs(t)
      if ls is None:
        return None
      return [(self.leaf(t), n, ls[n]) for n in range(len(ls))]
    return None

  def end_leg(self, e):
    return e[2]

  def joined(self, x, y):
    kx, ky = x[:2], y[:2]
    for a, b in self.joins:
      if (a[:2], b[:2]) in ((kx, ky), (ky, kx)):
        return True
    for a, b in self.generic:
      for cand in self.candidates(x, y):
        s = {v: cand for v in self.elems(a, b)}
        ga, gb = self.inst_edge(a, s), self.inst_edge(b, s)
        if ga and gb and (ga[:2], gb[:2]) in ((kx, ky), (ky, kx)):
          return True
    return False

  def elems(self, a, b):
    out = set()
    for t in (a, b):
      for x in walk(t):
        if x.op == 'elem':
          out.add(x)
    return out

  def inst_edge(self, t, s):
    old = self.sub
    self.sub = dict(old)
    self.sub.update(s)
    try:
      return self.edge(t)
    finally:
      self.sub = old

  def candidates(self, x, y):
    out = []
    for e in (x, y):
      for a in walk(e[0]):
        if a.op == 'lin' and a in self._lins:
          out.append(self._lins[a])
    return out

  # -- the path -------------------------------------------------------------
  def first(self, it):
    """First element of an iterable, and the step."""
    rev = it in self.reversed
    if it.op == 'call' and callee_name(it) == 'range':
      a = it.args[1]
      if len(a) == 1:
        lo, hi, st = const(0), a[0], 1
      elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
      elif len(a) == 3 and a[2] in (const(1), const(-1)):
        lo, hi, st = a[0], a[1], a[2].args[0]
      else:
        return None
      if rev:
        if st != 1:
          return None
        return mk('bin', 'Sub', hi, const(1)), -1
      return lo, st
    return None

  def run(self):
    for e in self.p.events:
      for it in e.loops or ():
        b, rev = strip(it)
        if rev:
          self.reversed.add(b)
    self.used = set()
    # loops that carry a value are followed for their first iteration
    self.lcloops = {it for e in self.p.events if e.loops and self.has_lc(e)
                    for it in e.loops}
    for e in self.p.events:
      if e.kind != 'carry':
        for t in [e.key, e.value, e.recv, e.res] + list(e.pos or ()) + [
            v for _, v in e.kw or ()]:
          if isinstance(t, T):
            self.used.update(x for x in walk(t) if x.op == 'lc')
    for e in self.p.events:
      if e.node is not None and e.file:
        self.loc = e.loc
      self.sub = {}
      for it in e.loops or ():
        if it in self.lcloops:
          it = strip(it)[0]
          fs = self.first(it)
          if fs:
            self.sub[mk('elem', it)] = fs[0]
      if e.kind == 'xor':
        self.xor(e)
      elif e.kind == 'setitem':
        self.setitem(e)
      elif e.kind == 'call':
        self.call(e)
      elif e.kind == 'carry':
        self.carry(e)
    self.sub = {}

  def start(self, t):
    """Follow the first iteration of the loops t belongs to."""
    self.sub = {}
    if any(x.op == 'lc' for x in walk(t)):
      for x in walk(t):
        if x.op == 'elem':
          fs = self.first(x.args[0])
          if fs:
            self.sub[x] = fs[0]

  def has_lc(self, e):
    for t in [e.key, e.value, e.recv, e.res] + list(e.pos or ()) + [
        v for _, v in e.kw or ()]:
      if isinstance(t, T) and any(x.op == 'lc' for x in walk(t)):
        return True
    return False

  def xor(self, e):
    a, b = self.edge(e.key), self.edge(e.value)
    if a is None or b is None:
      self.und('join', self.inst() + ' ^', 'edge')
      self.generic.append((e.key, e.value))
      return
    for x in (a, b):
      for y in self.joins:
        if x[:2] in (y[0][:2], y[1][:2]):
          self.bad('join', '%s %s' % (self.inst(), self.endname(x)),
                   'a leg that is already connected is connected again')
    r, why = self.joinable(a[2], b[2])
    inst = '%s %s^%s' % (self.inst(), self.endname(a), self.endname(b))
    if r is False:
      self.bad('join', inst, 'joins %s' % why)
    elif r is None:
      self.und('join', inst, why)
    else:
      self.ok('join', inst)
    self.joins.append((a, b))
    if self.elems(e.key, e.value):
      self.generic.append((e.key, e.value))

  def endname(self, a):
    return '%s.%d' % (opname(a[0]), a[1])

  def setitem(self, e):
    if e.recv.op == 'dict':
      self.stores.append((e.recv, e.key, e.value))
      return
    self.check_store(e.recv, e.key, e.value)

  def check_store(self, recv, key, value):
    if recv.op != 'attr':
      return
    nm, base = recv.args[1], recv.args[0]
    cl = self.f.cls.name if self.f.cls else ''
    i = self.index(key)
    if nm in ('tensors', '_tensors') and chain_of(base) == 'mps' and not (
        base.op == 'param' and base.args[1] == 'self' and cl not in MPSC):
      self.has_type('store', '%s tensors[%s]' % (self.inst(), short_ix(key)),
                    self.legs(value), mps_type(i), 'the stored tensor',
                    fresh=True)
    elif nm in ('left_envs', 'right_envs') and 'DMRG' in cl:
      self.has_type('store', '%s %s[%s]' % (self.inst(), nm, short_ix(key)),
                    self.legs(value),
                    (L_type if nm == 'left_envs' else R_type)(i),
                    'the stored environment')

  def call(self, e):
    n = e.name
    if n == 'reorder_edges' and e.bound and e.res is not None:
      node = e.bound.get('self')
      o = e.bound.get('edge_order')
      if node is not None and o is not None and o.op in ('list', 'tuple'):
        es = [self.edge(x) for x in o.args[0]]
        cur = self.ends(node)
        if cur is not None and all(x is not None for x in es):
          self.order[self.node(node)] = es
          self.memo = {}
    elif n == 'eigsh_lanczos' and e.bound:
      A = e.bound.get('A')
      args = e.bound.get('args')
      x0 = e.bound.get('initial_state')
      nm = A.args[1].split('.')[-1] if A is not None and A.op in (
          'attr', 'bound') else None
      if nm in BYNAME and args is not None and args.op in ('list', 'tuple') \
          and x0 is not None:
        self.signature(e.res, BYNAME[nm], [x0] + list(args.args[0]))
    if e.res is not None and n in ('ncon', 'contract_between', '__matmul__',
                                   'apply_transfer_operator',
                                   'add_left_layer', 'add_right_layer') or \
        n in BYNAME:
      self.legs(e.res)
      if n in ('contract_between', '__matmul__'):
        self.ends(e.res)

  def carry(self, e):
    lc = e.key
    if lc.op != 'lc' or lc not in self.used:
      return
    its = [x for x in self.loop_iters(e)]
    if len(its) != 1:
      return
    fs = self.first(its[0])
    if fs is None:
      return
    before = self.legs(lc.args[1])
    self.sub = {mk('elem', its[0]): fs[0]}
    after = self.legs(e.value)
    if before is None or after is None:
      return
    want = [x.shift(fs[1]) if x else None for x in before]
    if e.value.op == 'call' and len(after) == len(want):
      # a contracted node is used by its edges, not by their order
      key = lambda x: (x is None, str(x))
      after, want = sorted(after, key=key), sorted(want, key=key)
    self.has_type('carry', '%s %s' % (self.inst(), e.name), after, want,
                  'the value carried to the next iteration', fresh=True)

  def loop_iters(self, e):
    out = []
    for x in walk(e.value):
      if x.op == 'elem' and x.args[0].op == 'call' and callee_name(
          x.args[0]) == 'range' and x.args[0] not in out:
        out.append(x.args[0])
    # the loop of this variable: its elements do not occur in its entry value
    ent = set(walk(e.key.args[1]))
    return [i for i in out if mk('elem', i) not in ent]


def short_ix(t):
  s = str(t)
  return s if len(s) < 40 else 'n' if 'elem' in s and 'Add' not in s and \
      'Sub' not in s else 'n+-1'


def opname(t):
  if t.op == 'param':
    return t.args[1]
  if t.op == 'attr':
    return t.args[1]
  if t.op == 'item':
    return opname(t.args[0])
  if t.op == 'call':
    n = callee_name(t)
    if n in ('conj',):
      x = t.args[1][0] if t.args[1] else (call_arg(t, 'tensor') or
                                          call_arg(t, 'node'))
      return 'conj ' + opname(x) if x is not None else 'conj'
    return n or '?'
  if t.op == 'new':
    return opname(t.args[1][0]) if t.args[1] else opname(
        dict(t.args[2])['tensor']) if 'tensor' in dict(t.args[2]) else 'node'
  if t.op == 'lc':
    return t.args[0]
  if t.op == 'bin':
    return opname(t.args[1])
  return t.op


def _move(at, k0, k):
  """Shift a position by k - k0."""
  if not isinstance(at, dict):
    return at
  out = dict(at)
  for a, v in k.items():
    out[a] = out.get(a, 0) + v
  for a, v in k0.items():
    out[a] = out.get(a, 0) - v
  return {a: v for a, v in out.items() if v or a is None}
