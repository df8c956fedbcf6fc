"""Centre bookkeeping of matrix product states. Along every path, each tensor
written is classified by the component of the decomposition it comes from (left
isometry, right isometry, weight); at the end of the path the recorded centre
must lie right of every left isometry, left of every right isometry and on the
weight, with loop ranges instantiated at their first and last iteration. The
components of one decomposition must be used exactly once. A centre recorded
without writing tensors must be made true by a full sweep that follows."""
from ..terms import T, mk, const, NONE, walk, subst
from ..lib import short, P, callee_name, callee_recv, facts, attr, call_arg, \
    none_facts
from ..legs import lin, ldiff, ladd, lstr, strip, CLS, MPSC, LEFT, RIGHT
from ..guards import Env, status, UNK, reject
from . import c24

ASSUMPTIONS = [
    'qr/rq/svd return isometries (C21); the first argument of the constructor '
    'of a base or infinite state is the claim of the caller',
    'apply_one_site_gate documents that it leaves the bookkeeping to the caller',
]
MODS = ('base_mps', 'finite_mps', 'infinite_mps', 'dmrg')


def is_mps(t, f):
  if t.op == 'moved':
    t = t.args[0]
  if t.op == 'param' and t.args[1] == 'self':
    return f.cls is not None and f.cls.name in MPSC
  return t.op == 'attr' and t.args[1] in ('mps', '_mps')


def decs(t):
  """Decomposition components in t: {(call, index)} with multiplicity."""
  out = []

  def go(x):
    if x.op == 'item' and x.args[0].op == 'call' and callee_name(
        x.args[0]) in ('qr', 'rq', 'svd') and x.args[1].op == 'const':
      out.append((x.args[0], x.args[1].args[0]))
      return
    if x.op == 'call' and callee_name(x) == 'norm':
      return
    for a in x.args:
      for b in (a if isinstance(a, tuple) else (a,)):
        if isinstance(b, T):
          go(b)
        elif isinstance(b, tuple):
          for c in b:
            if isinstance(c, T):
              go(c)
  go(t)
  return out


def scaled(t):
  """The tensor without scalar factors."""
  while t.op == 'bin' and t.args[0] in ('Div', 'Mult'):
    a, b = t.args[1], t.args[2]
    t = a if t.args[0] == 'Div' or decs(a) or not decs(b) else b
  return t


def classify(t):
  t = scaled(t)
  d = decs(t)
  if t.op == 'item' and len(d) == 1:
    n, k = callee_name(d[0][0]), d[0][1]
    return {('qr', 0): 'L', ('qr', 1): 'W', ('rq', 0): 'W', ('rq', 1): 'R',
            ('svd', 0): 'L', ('svd', 2): 'R'}.get((n, k))
  if d and t.op == 'call' and callee_name(t) in ('ncon', 'tensordot'):
    return 'W'
  return None


def span(e, t):
  """(first, last, step) substitutions of the loop element in t."""
  for it in e.loops or ():
    b, rev = strip(it)
    el = mk('elem', b)
    if not any(x is el for x in walk(t)):
      continue
    if b.op != 'call' or callee_name(b) != 'range':
      return None
    a = b.args[1]
    if len(a) == 1:
      lo, hi, st = const(0), a[0], 1
    elif len(a) == 2:
      lo, hi, st = a[0], a[1], 1
    elif a[2] in (const(1), const(-1)):
      lo, hi, st = a[0], a[1], a[2].args[0]
    else:
      return None
    first = lo
    last = mk('bin', 'Sub' if st == 1 else 'Add', hi, const(1))
    if rev:
      first, last, st = last, first, -st
    return el, first, last, st
  return ()


def run(ctx, rep):
  rep.rule('form', 'at the end of every path the recorded centre is right of '
           'the left isometries, left of the right isometries and on the '
           'weight')
  rep.rule('once', 'the factors of a decomposition are all used exactly once')
  rep.rule('span', 'a sweep starts at the old centre and moves site by site '
           'towards the new one')
  rep.rule('sweep', 'a centre recorded without writing tensors is made true by '
           'a sweep over the whole chain')
  rep.rule('target', 'the requested centre is the one moved to')
  rep.rule('limit', 'a limit on the bond dimension is compared with the bond '
           'that is cut')
  rep.rule('env', 'environments are the identity only on the canonical side')
  rep.rule('checks', 'orthonormality is checked on the matching side')
  rep.rule('reject-first', 'requests are rejected before any tensor changes')
  rep.rule('pivot', 'the local decompositions split at the bond swept over')
  for m in MODS:
    for f in sorted(ctx.prog.funcs.values(), key=lambda f: f.qual):
      if not f.qual.startswith(CLS + m + '.'):
        continue
      if f.cls is not None:
        function(ctx, rep, f)
      elif f.parent is not None and f.name in ('qr', 'rq'):
        for q in ctx.paths(f, rep=rep)[0]:
          pivot(rep, f, q)
  rep.rule('refuse', 'a centre or site outside the chain and a truncating '
           'gate away from the centre are refused')
  refuse(ctx, rep)
  rep.floor('form', 6)


def refuse(ctx, rep):
  for q, fixed, bad, _ in c24.table():
    if not q.startswith(c24.MPS) or q.split('.')[-1] not in (
        '__init__', 'position', 'apply_two_site_gate'):
      continue
    f = ctx.prog.funcs.get('tensornetwork.' + q)
    if f is None or not {k.split('.')[0] for c in bad + [fixed]
                         for k in c} <= set(f.all_params()):
      rep.undecided('refuse', q, 'anchor missing')
      continue
    ps, _ = ctx.paths(f, rep=rep)
    for c in bad:
      reject(rep, 'refuse', '%s %s' % (short(f.qual), c24.show(c)), f, ps,
             c24.env_of(f, fixed, c), c24.show(c))


def function(ctx, rep, f):
  ps, _ = ctx.paths(f, rep=rep)
  if not ps:
    return
  n0 = len(rep.obligations)
  for p in ps:
    if p.outcome == 'raise':
      late(rep, f, p)
      continue
    form(rep, f, p)
    if f.cls.name == 'FiniteMPS':
      sweep(rep, f, p)
    recorded(rep, f, p)
    env(rep, f, p)
    if f.name == 'check_canonical':
      checks(rep, f, p)
  if len(rep.obligations) > n0:
    rep.saw(f)


def inst_of(f):
  return '%s.%s' % (f.cls.name, f.name)


def late(rep, f, p):
  for e in p.events:
    if e.kind == 'raise':
      rep.ok('reject-first', inst_of(f))
      return
    w = (e.kind == 'setitem' and e.recv.op == 'attr' and e.recv.args[1] in (
        'tensors', '_tensors') and is_mps(e.recv.args[0], f)) or (
            e.kind == 'setattr' and e.name == 'center_position' and
            is_mps(e.recv, f) and f.name != '__init__')
    if w:
      if not any(x.kind == 'raise' for x in p.events):
        return
      rep.bad('reject-first', inst_of(f), 'the state is changed before the '
              'request is rejected', e.loc)
      return


def equalities(p):
  out = []
  for t, v in facts(p):
    eq = t.op == 'cmp' and ((t.args[0] == 'eq' and v) or
                            (t.args[0] == 'ne' and not v))
    if eq and t.args[1].op == 'param' and t.args[2].op == 'bin':
      out.append((t.args[1], t.args[2]))
    elif eq and t.args[2].op == 'param' and t.args[1].op == 'bin':
      out.append((t.args[2], t.args[1]))
  return out


def form(rep, f, p):
  writes = []
  centre = None      # (value, event) last recorded
  obj = None
  for e in p.events:
    if e.kind == 'setitem' and e.recv.op == 'attr' and e.recv.args[1] in (
        'tensors', '_tensors') and is_mps(e.recv.args[0], f):
      writes.append(e)
      obj = e.recv.args[0]
    elif e.kind == 'setattr' and e.name == 'center_position' and is_mps(
        e.recv, f):
      centre = e
  if not writes:
    return
  if any(e.kind == 'setattr' and e.name == 'connector_matrix' and
         is_mps(e.recv, f) for e in p.events):
    # the weights are divided out by the connector: another form (not ours)
    return
  eqs = equalities(p)
  old = attr(obj, 'center_position')
  last = {}
  for e in writes:
    last[e.key] = e
  kinds = [(e, classify(e.value)) for e in last.values()]
  kinds = [(e, k) for e, k in kinds if k]
  if not kinds:
    return
  inst = inst_of(f)
  # every factor exactly once
  used = []
  for e, k in kinds:
    used += decs(scaled(e.value))
  for call in {c for c, _ in used}:
    n = callee_name(call)
    have = sorted(i for c, i in used if c is call)
    want = [0, 1, 2] if n == 'svd' else [0, 1]
    bound = boundary(p, f)
    if have == want:
      rep.ok('once', inst)
    elif len(kinds) == 1 and bound and have in ([0], [1], [2]):
      rep.ok('once', inst)
    else:
      rep.bad('once', inst, 'the factors of %s are used %s' % (n, ', '.join(
          '%d: %d times' % (i, have.count(i)) for i in want)), kinds[0][0].loc)
  # the centre
  if centre is None:
    nf = none_facts(p)
    if nf.get(old) is True:
      rep.ok('form', inst)
      return
    c = old
  else:
    c = centre.value
    if c is NONE:
      rep.ok('form', inst)
      return
  for e, k in kinds:
    # a loop variable read after the loop has its last value
    sp = span(e, c)
    if sp and not any(x in (centre.loops or ()) for x in e.loops):
      c = subst(c, lambda x: sp[2] if x is sp[0] else x)
  cl = lin(c, eqs)
  out = [t.args[2] for t, v in facts(p) if t.op == 'cmp' and (
      t.args[0], v) in (('in', False), ('notin', True)) and t.args[1] is old
         and t.args[2].op in ('tuple', 'list')]
  moved = ldiff(cl, lin(old, eqs)) != 0
  weight = False
  for e, k in kinds:
    sp = span(e, e.key)
    if sp is None:
      rep.undecided('span', inst, str(e.key)[:80])
      continue
    if sp:
      el, fi, la, st = sp
      ends = [subst(e.key, lambda x: v if x is el else x) for v in (fi, la)]
      if k in 'LR':
        want = 1 if k == 'L' else -1
        if st != want:
          rep.bad('span', inst, 'left isometries are made sweeping from right '
                  'to left' if k == 'L' else 'right isometries are made '
                  'sweeping from left to right', e.loc)
          continue
        d = ldiff(lin(ends[0], eqs), lin(old, eqs))
        if d is None:
          rep.undecided('span', inst, 'start of the sweep')
        else:
          rep.check('span', inst, d == 0, 'the sweep starts %+d sites from the '
                    'old centre' % d, e.loc)
    else:
      ends = [e.key]
    d = ldiff(lin(ends[-1], eqs), cl)
    what = {'L': 'left isometry', 'R': 'right isometry', 'W': 'weight'}[k]
    if d is None and k == 'W' and not moved and any(
        ends[-1] in (o.args[0] if o.args and isinstance(o.args[0], tuple)
                     else o.args) for o in out):
      rep.bad('form', inst + ' weight', 'the recorded centre is none of the '
              'sites written but one of these receives the weight', e.loc)
      continue
    if d is None:
      rep.undecided('form', inst, 'position of the %s' % what)
      continue
    good = {'L': d < 0, 'R': d > 0, 'W': d == 0}[k]
    if not good and d == 0 and not moved and boundary(p, f):
      good = True
    weight |= k == 'W' and d == 0
    if k in 'LR':
      rep.check('form', '%s %s scale' % (inst, what), scaled(
          e.value) is e.value, 'an isometry is stored with another norm',
                e.loc)
      limit(rep, f, p, e, k, eqs)
    rep.check('form', '%s %s' % (inst, what), good, 'the centre is recorded at '
              '%s but the tensor %d sites %s it is a %s' % (
                  lstr(cl)[-40:], abs(d), 'right of' if d > 0 else 'left of',
                  what) if d else 'the centre is recorded on a ' + what, e.loc)
  if moved and not any(k == 'W' for _, k in kinds):
    rep.bad('form', inst + ' weight', 'the centre is moved but no tensor '
            'receives the other factor', kinds[0][0].loc)


def limit(rep, f, p, e, k, eqs):
  """A bond limit is compared with the bond that the sweep is cutting."""
  for t, v in facts(p):
    if t.op != 'cmp' or t.args[0] not in ('lt', 'le', 'gt', 'ge'):
      continue
    x, y = t.args[1:] if t.args[0] in ('lt', 'le') else t.args[:0:-1]
    small = v
    if y.op == 'param' and callee_name(x) == 'bond_dimension':
      x, y, small = y, x, not v
    if x.op != 'param' or callee_name(y) != 'bond_dimension':
      continue
    b = call_arg(y, 'bond', 0)
    d = b is not None and ldiff(lin(b, eqs), lin(e.key, eqs))
    if d is None or d is False:
      rep.undecided('limit', inst_of(f), str(b))
    else:
      rep.check('limit', '%s %s' % (inst_of(f), k), d == (k == 'L'), 'the limit '
                'on the bond %s of the site is compared with bond %+d' % (
                    'right' if k == 'L' else 'left', d), e.loc)
      used = {callee_name(c) for c, _ in decs(scaled(e.value))}
      rep.check('limit', '%s %s applied' % (inst_of(f), k), not (
          small and used & {'qr', 'rq'}), 'a bond larger than the limit is cut '
                'without truncation', e.loc)


def boundary(p, f):
  """The path is taken at an end of the chain only."""
  for t, v in facts(p):
    if t.op == 'cmp' and t.args[0] in ('lt', 'le') and not v:
      return True
    if t.op == 'cmp' and t.args[0] == 'eq' and v:
      return True
  return False


def recorded(rep, f, p):
  """A centre recorded after a move is the one moved to."""
  at = None
  s = P(f, 'self')
  for e in p.events:
    if e.kind == 'setitem' or e.kind == 'setattr' and e.name in (
        'tensors', '_tensors'):
      at = None
    elif e.kind == 'call' and e.name == 'position' and e.recv is s and e.bound:
      at = lin(e.bound.get('site'))
    elif e.kind == 'setattr' and e.name == 'center_position' and \
        e.recv is s and e.value is not NONE and at is not None:
      d = ldiff(lin(e.value), at)
      if d is None and str(at) != str(lin(e.value)) and (
          e.value.op == 'const' or lin(e.value).get('N')):
        d = 1
      later = p.events[p.events.index(e) + 1:]
      if d not in (None, 0) and not any(
          x.kind == 'call' and x.name == 'position' for x in later):
        rep.bad('target', inst_of(f), 'the state was centred at %s and %s is '
                'recorded' % (lstr(at)[-40:], lstr(lin(e.value))[-40:]), e.loc)
      else:
        rep.ok('target', inst_of(f))


def sweep(rep, f, p):
  ev = []
  for e in p.events:
    if e.kind == 'setitem' and e.recv.op == 'attr' and e.recv.args[1] in (
        'tensors', '_tensors'):
      return
    if e.kind == 'setattr' and e.name == 'center_position' and \
        e.value is not NONE:
      ev.append(('set', lin(e.value), e))
    if e.kind == 'call' and e.name == 'position' and e.bound:
      ev.append(('pos', lin(e.bound.get('site')), e))
  inst = inst_of(f)
  for n, (k, v, e) in enumerate(ev):
    if k != 'set':
      continue
    nxt = [x for x in ev[n + 1:n + 2] if x[0] == 'pos']
    if f.name == '__init__' and v.get(P(f, 'center_position')) == 1 and \
        not nxt and len(v) == 1:
      continue
    at0, atN = ldiff(v, {None: 0}), ldiff(v, {'N': 1, None: -1})
    if at0 != 0 and atN != 0:
      # the end may be known from a branch: center_position == len - 1
      rep.bad('sweep', inst, 'the centre is recorded at %s, which no sweep '
              'makes true' % lstr(v)[-40:], e.loc)
      continue
    if not nxt:
      rep.bad('sweep', inst, 'no sweep follows the recorded centre', e.loc)
      continue
    w = nxt[0][1]
    far = {'N': 1, None: -1} if at0 == 0 else {None: 0}
    rep.check('sweep', inst, ldiff(w, far) == 0, 'after recording the centre '
              'at one end the sweep goes to %s instead of the other end' %
              lstr(w)[-40:], nxt[0][2].loc)
  pos = [x for x in ev if x[0] == 'pos']
  if f.name == 'canonicalize' and pos and pos == ev and all(
      x[1] is not None for x in ev):
    ends = {0 if ldiff(x[1], {None: 0}) == 0 else 1 for x in ev
            if ldiff(x[1], {None: 0}) == 0 or
            ldiff(x[1], {'N': 1, None: -1}) == 0}
    rep.check('sweep', inst + ' whole', len(ends) == 2, 'the sweep starts at '
              'the old centre and does not rebuild the sites on its other '
              'side', ev[0][2].loc)
  if pos and ev[-1][0] == 'pos':
    got = pos[-1][1]
    if f.name == '__init__':
      nf = none_facts(p)
      c = P(f, 'center_position')
      want = {None: 0} if nf.get(c) is True else lin(c)
      d = ldiff(got, want)
      eqd = any(t.op == 'cmp' and t.args[0] == 'eq' and v and
                ldiff(lin(t.args[1]), lin(t.args[2])) is None and
                {str(lin(t.args[1])), str(lin(t.args[2]))} ==
                {str(got), str(want)} for t, v in facts(p))
      rep.check('target', inst, d == 0 or eqd, 'the state is centred at %s '
                'instead of %s' % (lstr(got), lstr(want)), pos[-1][2].loc)
    elif f.name == 'canonicalize':
      old = attr(P(f, 'self'), 'center_position')
      if none_facts(p).get(old) is False:
        rep.check('target', inst, ldiff(got, lin(old)) == 0, 'the centre is '
                  'not restored', pos[-1][2].loc)


def env(rep, f, p):
  """Identity environments only where the chain is canonical."""
  if f.name not in ('left_envs', 'right_envs'):
    return
  left = f.name == 'left_envs'
  inst = inst_of(f)
  none = none_facts(p).get(attr(P(f, 'self'), 'center_position'))
  cen = attr(P(f, 'self'), 'center_position')
  for e in p.events:
    if e.kind != 'setitem' or e.recv.op != 'dict':
      continue
    if not any(x.op == 'call' and callee_name(x) == 'eye'
               for x in walk(e.value)):
      continue
    cmps = [x for x in walk(e.key) if x.op == 'cmp'] + \
        [t for t, v in facts(p, e) if v and t.op == 'cmp' and
         any(x is e.key for x in walk(t))]
    res = None
    for c in cmps:
      if c.args[0] not in ('lt', 'le'):
        continue
      a, b = c.args[1], c.args[2]
      # which side is the list of sites
      isite = [_sites(a, f), _sites(b, f)]
      if isite == [True, False]:
        bound, up = b, True      # site <= bound
      elif isite == [False, True]:
        bound, up = a, False     # bound <= site
      else:
        continue
      l = lin(bound)
      want = ({None: 0} if left else {'N': 1, None: -1}) if none else lin(cen)
      d = ldiff(l, want)
      if none and up == left and ldiff(l, {'N': 1, None: -1} if left else {
          None: 0}) == 0:
        res = False      # without a centre nothing is known to be canonical
        break
      if d is None:
        continue
      if c.args[0] == 'lt':
        d += -1 if up else 1
      if up != left:
        if any(x is c for x in walk(e.key)) and ldiff(l, lin(cen)) is not None:
          res = False
          break
        continue
      res = d <= 0 if left else d >= 0
      if not res:
        break
    if res is None:
      rep.undecided('env', inst, str(e.key)[:80])
    else:
      rep.check('env', inst, res, 'the identity is used for a site %s of the '
                'centre%s' % ('right' if left else 'left', ' (no centre: only '
                              'the end of the chain)' if none else ''), e.loc)


def _sites(t, f):
  """The term is the array of requested sites (or an element of it)."""
  s = P(f, 'sites')
  return any(x is s for x in walk(t)) and not any(
      x.op == 'call' and callee_name(x) in ('min', 'max') for x in walk(t))


def checks(rep, f, p):
  cen = attr(P(f, 'self'), 'center_position')
  for e in p.events:
    if e.kind != 'call' or e.name != 'check_orthonormality' or not e.bound:
      continue
    w, s = e.bound.get('which'), e.bound.get('site')
    if w is None or w.op != 'const' or s is None:
      rep.undecided('checks', inst_of(f), 'side')
      continue
    for sv, cv, want in ((1, 3, LEFT), (3, 1, RIGHT), (2, 2, None)):
      env = Env({s: sv, cen: cv})
      q = _upto(p, e, env)
      if q is None or not q:
        continue
      if want is None:
        rep.bad('checks', inst_of(f), 'the centre itself is checked', e.loc)
      else:
        rep.check('checks', inst_of(f), w.args[0] in want, 'a site %s of the '
                  'centre is checked for %r' % ('left' if want is LEFT else
                                                'right', w.args[0]), e.loc)


def _upto(p, ev, env):
  """The facts before ev hold under env."""
  for t, v in facts(p, ev):
    r = env.truth(t)
    if r in (True, False) and r != v:
      return False
  return True


def pivot(rep, f, p):
  v = p.value
  if v is None or v.op != 'call' or callee_name(v) != f.name:
    return
  pv = call_arg(v, 'pivot_axis', 1)
  if pv is None or pv.op != 'const':
    rep.undecided('pivot', f.name, str(pv))
    return
  want = 2 if f.name == 'qr' else 1
  rep.check('pivot', f.name, pv.args[0] in (want, want - 3), 'the %s of a site '
            'tensor splits at axis %s' % (f.name, pv.args[0]),
            '%s:%d' % (f.file, f.line))
