"""Network checks of ncon. The guards of _check_network are folded for an
offending (resp. arbitrary valid) element of each argument; the check sees the
caller's own description and runs before anything is contracted; labels are
classified and ordered as documented; the result is transposed into the output
order; sums over single labels are taken on the tensor that carries them and
only closed labels are traced."""
from ..terms import T, mk, walk, NONE, const
from ..lib import short, P, callee_name, callee_recv, call_arg, is_call, facts
from ..guards import Env, UNK, Some, reject, accept
from .c15 import default_of

ASSUMPTIONS = ['labels are numbers or strings', 'sizes are exact integers']
M = 'tensornetwork.ncon_interface.'


def run(ctx, rep):
  rep.rule('refused', 'a malformed description leaves no normal path of the '
           'check')
  rep.rule('accepted', 'the extreme valid descriptions are not refused')
  rep.rule('checked-first', 'the description given by the caller is checked '
           'before anything is contracted, unless switched off')
  rep.rule('classes', 'labels are classified open/closed by sign or hyphen')
  rep.rule('ordering', 'default output and contraction order as documented')
  rep.rule('result-order', 'the axes of the result are permuted into the '
           'output order')
  rep.rule('single-labels', 'single closed labels are summed on the tensor '
           'that carries them')
  rep.rule('trace-closed', 'only closed labels are traced over')
  checks(ctx, rep)
  classes(ctx, rep)
  ordering(ctx, rep)
  entry(ctx, rep)
  contraction(ctx, rep)
  rep.floor('refused', 8)
  rep.floor('accepted', 3)


# -- the guards -------------------------------------------------------------


def checks(ctx, rep):
  f = ctx.prog.funcs.get(M + '_check_network')
  if f is None:
    rep.undecided('refused', '_check_network', 'missing')
    return
  ps, _ = ctx.paths(f, rep=rep)
  need = {'network_structure', 'tensor_dimensions', 'con_order', 'out_order'}
  if not ps or not need <= set(f.user_params()):
    rep.undecided('refused', '_check_network', 'unreadable')
    return
  par = {n: P(f, n) for n in need}
  net, dims = par['network_structure'], par['tensor_dimensions']

  def env(con=1, out=-1, con_count=1, out_count=1, con_in=True, out_in=True,
          nets=3, dim=2, rank=2, labels=2, ncont=2, nout=5, ncon=2, nouts=5,
          zeros=0, sizes=1, alnum=True, order=True):
    vals = {}
    for nm, v in (('con_order', con), ('out_order', out)):
      if order:
        vals[par[nm]] = Some(nm, True)
        vals[mk('elem', par[nm])] = v
      else:
        vals[par[nm]] = None
    vals[net] = Some('net', True)
    vals[dims] = Some('dims', True)
    about = lambda t, p: any(x is p for x in walk(t))

    def kinds(t):
      """Positions of the label classes a list is made of."""
      return {x.args[1].args[0] for x in walk(t)
              if x.op == 'item' and x.args[1].op == 'const' and
              x.args[0].op == 'call' and
              callee_name(x.args[0]) == '_get_cont_out_labels'}

    def rule(e, t):
      if t.op == 'call':
        n = callee_name(t)
        pos = t.args[1]
        if n == 'isinstance' and len(pos) == 2:
          v = e.ev(pos[0])
          if v is not UNK and not isinstance(v, Some):
            return isinstance(v, str)
          return UNK
        if n == 'len' and len(pos) == 1:
          x = pos[0]
          if x is net:
            return nets
          if x is dims:
            return 3
          if x is par['con_order']:
            return ncon
          if x is par['out_order']:
            return nouts
          if x.op == 'comp':
            if x.args[0] == 'set' and about(x, dims):
              return sizes
            v = e.truth(x)
            return UNK if v is UNK else int(v)
          if x.op in ('elem', 'item') and about(x, dims):
            if x.op == 'item' and about(x.args[0], net):
              return labels
            return rank
          if x.op in ('elem', 'item') and about(x, net):
            return labels
          k = kinds(x)
          if k == {0, 1}:
            return ncont
          if k == {2, 3}:
            return nout
          if k:
            return 1
          return UNK
        if n == 'count' and callee_recv(t) is not None:
          r = callee_recv(t)
          if r is par['con_order']:
            return con_count
          if r is par['out_order']:
            return out_count
          if kinds(r) and pos and pos[0].op == 'const' and \
              pos[0].args[0] == 0:
            return zeros if 0 in kinds(r) else 0
          return UNK
        if n in ('all', 'any') and any(
            x.op == 'call' and callee_name(x) == 'isalnum'
            for p in pos for x in walk(p)):
          neg = any(x.op == 'not' for p in pos for x in walk(p))
          return alnum != (n == 'any' and neg)
        if n in ('list', 'tuple', 'set') and pos and pos[0].op == 'comp':
          return e.ev(pos[0])
      if t.op == 'cmp' and t.args[0] == 'in':
        l, r = t.args[1], t.args[2]
        if l is mk('elem', par['con_order']):
          if r.op == 'lc' or r.op == 'list':
            return False
          if kinds(r):
            return con_in if kinds(r) & {0, 1} else UNK
          if about(r, net):
            return con_in
        if l is mk('elem', par['out_order']):
          if r.op == 'lc' or r.op == 'list':
            return False
          if kinds(r):
            return out_in if kinds(r) & {2, 3} else UNK
          if about(r, net):
            return out_in
      if t.op == 'cmp' and t.args[0] in ('lt', 'le', 'eq') and \
          about(t, dims) and any(x.op == 'comp' and x.args[0] == 'set'
                                 for x in walk(t)) and t.op != 'comp':
        return UNK
      return UNK

    return Env(vals, [rule])

  bad = [
      ('fewer-tensors', dict(nets=4), 'more label lists than tensors'),
      ('more-tensors', dict(nets=2), 'fewer label lists than tensors'),
      ('few-labels', dict(labels=1), 'fewer labels than axes'),
      ('many-labels', dict(labels=3), 'more labels than axes'),
      ('zero', dict(zeros=1), 'the label 0'),
      ('not-alphanumeric', dict(alnum=False), 'a non-alphanumeric label'),
      ('negative-con', dict(con=-1), 'an open number label in con_order'),
      ('hyphen-con', dict(con='-a'), 'an open string label in con_order'),
      ('repeated-con', dict(con_count=2), 'a repeated label in con_order'),
      ('short-con', dict(ncon=1), 'a con_order that is too short'),
      ('long-con', dict(ncon=3), 'a con_order that is too long'),
      ('foreign-con', dict(con_in=False), 'an unknown label in con_order'),
      ('positive-out', dict(out=1), 'a closed number label in out_order'),
      ('plain-out', dict(out='a'), 'a closed string label in out_order'),
      ('repeated-out', dict(out_count=2), 'a repeated label in out_order'),
      ('short-out', dict(nouts=4), 'an out_order that is too short'),
      ('long-out', dict(nouts=6), 'an out_order that is too long'),
      ('foreign-out', dict(out_in=False), 'an unknown label in out_order'),
      ('dimensions', dict(sizes=2), 'joined axes of different dimension'),
  ]
  for case, kw, what in bad:
    reject(rep, 'refused', '_check_network ' + case, f, ps, env(**kw), what)
  for case, kw, what in (
      ('plain', {}, 'a valid description'),
      ('strings', dict(con='a', out='-a'), 'valid string labels'),
      ('no-orders', dict(order=False), 'a description without orders')):
    accept(rep, 'accepted', '_check_network ' + case, f, ps, env(**kw), what)


# -- label classes ------------------------------------------------------------

LABELS = (1, -1, 'a', '-a')


def passes(t, v):
  """Whether label v gets into list term t (UNK if unreadable)."""
  while t.op == 'call' and callee_name(t) in ('sorted', 'list', 'set',
                                              'tuple') and t.args[1]:
    t = t.args[1][0]
  if t.op != 'comp':
    return UNK
  elems = {x for c in t.args[3] for x in walk(c) if x.op == 'elem'}
  src = t.args[2]
  while src.op == 'call' and callee_name(src) in ('sorted', 'list', 'set') and \
      src.args[1]:
    src = src.args[1][0]
  vals = {t.args[1]: v}
  for x in elems:
    vals[x] = v

  def rule(e, x):
    if x.op == 'call' and callee_name(x) == 'isinstance':
      return isinstance(v, str)
    return UNK

  e = Env(vals, [rule])
  res = [e.truth(c) for c in t.args[3]]
  if src.op == 'comp':
    res.append(passes(src, v))
  if any(r is False for r in res):
    return False
  return UNK if any(r is UNK for r in res) else True


def members(t, labels=LABELS):
  got = [passes(t, v) for v in labels]
  return None if any(g is UNK for g in got) else tuple(
      v for v, g in zip(labels, got) if g)


def classes(ctx, rep):
  f = ctx.prog.funcs.get(M + '_get_cont_out_labels')
  if f is None:
    rep.undecided('classes', '_get_cont_out_labels', 'missing')
    return
  ps, _ = ctx.paths(f, rep=rep)
  want = ((1,), ('a',), (-1,), ('-a',))
  for p in ps or ():
    if p.outcome != 'return' or p.value.op not in ('tuple', 'list') or \
        len(p.value.args[0]) != 4:
      rep.undecided('classes', '_get_cont_out_labels', 'unreadable')
      continue
    for i, (t, w) in enumerate(zip(p.value.args[0], want)):
      got = members(t)
      inst = '_get_cont_out_labels %d' % i
      if got is None:
        rep.undecided('classes', inst, str(t)[:60])
      else:
        rep.check('classes', inst, got == w, 'result %d collects labels like '
                  '%s instead of %s' % (i, got, w),
                  '%s:%d' % (f.file, f.line))


def flag(t):
  """(list term, reversed?) of a sorted list."""
  rev = False
  while True:
    n = callee_name(t) if t.op == 'call' else None
    if n == 'sorted':
      r = call_arg(t, 'reverse')
      key = call_arg(t, 'key')
      if key is not None and key is not NONE and not (
          key.op in ('closure', 'lambda')):
        return t, None
      if r is not None:
        if r.op != 'const':
          return t, None
        rev ^= bool(r.args[0])
      return t, rev
    if n == 'reversed' and t.args[1]:
      rev = not rev
      t = t.args[1][0]
      continue
    if n in ('list', 'tuple') and t.args[1]:
      t = t.args[1][0]
      continue
    if t.op == 'item' and t.args[1].op == 'slice' and \
        t.args[1].args[2].op == 'const' and t.args[1].args[2].args[0] == -1:
      rev = not rev
      t = t.args[0]
      continue
    return t, None


def parts(t):
  if t.op == 'bin' and t.args[0] == 'Add':
    return parts(t.args[1]) + parts(t.args[2])
  return [t]


def ordering(ctx, rep):
  f = ctx.prog.funcs.get(M + '_canonicalize_network_structure')
  if f is None:
    rep.undecided('ordering', '_canonicalize_network_structure', 'missing')
  else:
    ps, _ = ctx.paths(f, rep=rep)
    seen = set()
    for p in ps or ():
      for e in p.events:
        for t in [x for y in list(e.pos or ()) + [e.value, e.res]
                  if isinstance(y, T) for x in walk(y)]:
          if is_call(t, 'zip') and len(t.args[1]) == 2 and t not in seen:
            seen.add(t)
            zipped(rep, f, t)
  g = ctx.prog.funcs.get(M + 'ncon')
  if g is None:
    return
  ps, _ = ctx.paths(g, rep=rep)
  seen = set()
  for p in ps or ():
    for e in p.events:
      if e.kind != 'call':
        continue
      for x in e.pos or ():
        if isinstance(x, T) and is_call(x, 'tuple') and x not in seen:
          seen.add(x)
          y, rev = flag(x)
          if rev is None:
            continue
          m = members(y, (1, -1))
          inst = 'ncon default order of %s' % (m,)
          if m is None:
            continue
          neg = [v for v in m if isinstance(v, int) and v < 0]
          posi = [v for v in m if isinstance(v, int) and v > 0]
          if neg and not posi:
            rep.check('ordering', inst, rev is True, 'default output labels '
                      'are not in descending order', e.loc)
          elif posi and not neg:
            rep.check('ordering', inst, rev is False, 'default contraction '
                      'labels are not in ascending order', e.loc)


def zipped(rep, f, t):
  a, b = t.args[1]
  got = []
  for x in parts(a):
    y, rev = flag(x)
    m = members(y)
    if m is None or rev is None or len(m) != 1:
      rep.undecided('ordering', 'labels', str(x)[:60])
      return
    got.append((m[0], rev))
  neg = any(isinstance(v, int) and v < 0 or v == '-a' for v, _ in got)
  want = [('-a', True), (-1, False)] if neg else [(1, False), ('a', False)]
  name = 'open' if neg else 'closed'
  rep.check('ordering', 'canonical order of %s labels' % name, got == want,
            '%s labels are numbered in the order %s instead of %s' %
            (name, got, want), '%s:%d' % (f.file, f.line))
  if is_call(b, 'arange') or is_call(b, 'range'):
    pos = b.args[1]
    v = [x.args[0] if x.op == 'const' else None for x in pos]
    ok = (len(v) == 2 and (v[1] == 0 if neg else v[0] == 1)) if len(
        v) == 2 else None
    if ok is not None:
      rep.check('ordering', 'numbers of %s labels' % name, ok,
                '%s labels are not numbered next to 0' % name,
                '%s:%d' % (f.file, f.line))


# -- the entry point ----------------------------------------------------------


def entry(ctx, rep):
  g = ctx.prog.funcs.get(M + 'ncon')
  if g is None:
    rep.undecided('checked-first', 'ncon', 'missing')
    return
  rep.check('checked-first', 'ncon default', default_of(g, 'check_network')
            is True, 'the network is not checked by default',
            '%s:%d' % (g.file, g.line))
  ps, _ = ctx.paths(g, rep=rep)
  sw = P(g, 'check_network')
  loc = '%s:%d' % (g.file, g.line)
  for p in ps or ():
    if p.outcome == 'raise':
      continue
    off = any(t is sw and v is False for t, v in facts(p))
    chk = [i for i, e in enumerate(p.events) if e.kind == 'call' and
           e.name == '_check_network']
    cont = [i for i, e in enumerate(p.events) if e.kind == 'call' and
            e.bound is None and e.pos and any(
                isinstance(x, T) and (x is mk('param', g.qual, 'tensors') or
                                      'tensors' in str(x)[:400])
                for x in e.pos) and '_CACHED' in str(e.fn)]
    if off:
      continue
    if not chk:
      rep.bad('checked-first', 'ncon check', 'the network is not checked', loc)
      continue
    if cont and chk[0] > cont[0]:
      rep.bad('checked-first', 'ncon check', 'the network is contracted before '
              'it is checked', p.events[chk[0]].loc)
      continue
    resorted(rep, g, p)
    e = p.events[chk[0]]
    b = e.bound or {}
    for n in ('network_structure', 'con_order', 'out_order'):
      x = b.get(n)
      par = P(g, n)
      if x is None:
        continue
      good = x is par or (n != 'network_structure' and x is NONE and any(
          any(y is par for y in walk(t)) for t, v in facts(p)))
      if good or (x.op == 'call' and callee_name(x) in ('list', 'tuple') and
                  x.args[1][:1] == (par,)):
        rep.ok('checked-first', 'ncon ' + n)
      elif x is NONE or x.op == 'param':
        rep.bad('checked-first', 'ncon ' + n, 'the check is given %s instead '
                'of %s' % (x, n), e.loc)
      else:
        rep.undecided('checked-first', 'ncon ' + n, str(x)[:60])


def resorted(rep, g, p):
  """The requested output order reaches the contraction in its own order."""
  par = P(g, 'out_order')
  for e in p.events:
    if e.kind != 'call' or e.name is not None or len(e.pos or ()) < 5:
      continue
    for x in e.pos:
      while x.op == 'call' and callee_name(x) in ('tuple', 'list') and len(
          x.args[1]) == 1:
        x = x.args[1][0]
      if not any(y is par for y in walk(x)):
        continue
      n = callee_name(x) if x.op == 'call' else None
      if n in ('sorted', 'reversed', 'set', 'frozenset'):
        rep.bad('result-order', 'ncon', 'the requested output order is %s '
                'before it is used' % {'sorted': 'sorted', 'reversed':
                                       'reversed'}.get(n, 'lost'), e.loc)
      elif x.op == 'comp' and x.args[2] is par and not x.args[3]:
        rep.ok('result-order', 'ncon')


def untransposed(rep, f, p, v):
  """A result that is not permuted has at most one axis."""
  for t, val in facts(p):
    if t.op != 'cmp':
      continue
    ls = [x for x in t.args[1:] if isinstance(x, T) and
          callee_name(x) == 'len' and len(x.args[1]) == 1]
    if len(ls) != 1 or not any(
        y.op == 'const' for y in t.args[1:] if isinstance(y, T)):
      continue
    inner = ls[0].args[1][0]
    if inner.op != 'item' or inner.args[1] is not const(0):
      continue
    ok = [Env({ls[0]: n}).truth(t) for n in (1, 2, 3)]
    if UNK in ok:
      continue
    rep.check('result-order', '_jittable_ncon', not any(
        bool(x) == val for x in ok[1:]), 'a result of two axes is returned as '
              'it is, whatever the output order', '%s:%d' % (f.file, f.line))
    return


# -- the contraction ----------------------------------------------------------


def contraction(ctx, rep):
  f = ctx.prog.funcs.get(M + '_jittable_ncon')
  if f is None:
    rep.undecided('result-order', '_jittable_ncon', 'missing')
    return
  ps, _ = ctx.paths(f, rep=rep)
  out = P(f, 'out_order') if 'out_order' in f.all_params() else None
  traced(ctx, rep, f, ps)
  done = set()
  for p in ps or ():
    if p.outcome != 'return':
      continue
    v = p.value
    if v not in done:
      done.add(v)
      if v.op == 'call' and callee_name(v) == 'transpose' and out is not None:
        perm = call_arg(v, 'perm', 1)
        order(rep, f, perm, out)
      else:
        untransposed(rep, f, p, v)
    for e in p.events:
      if e.kind != 'call' or e.loc in done and e.name != 'x':
        continue
      if e.name == 'sum' and e.bound is None or e.name == 'sum':
        ax = (e.bound or {}).get('axis') if e.bound else (
            e.pos[1] if len(e.pos or ()) > 1 else None)
        if ax is None:
          continue
        done.add(e.loc)
        single(rep, e, ax)


def traced(ctx, rep, f, ps):
  """Only closed labels may be traced over: labels that repeat on a tensor are
  filtered by sign, or collapsed (diagonal) beforehand."""
  g = ctx.prog.funcs.get(M + '_partial_trace')
  if g is None:
    rep.undecided('trace-closed', '_partial_trace', 'missing')
    return
  qs, _ = ctx.paths(g, rep=rep)
  signed = any(x.op == 'cmp' and x.args[0] in ('lt', 'le') and
               (x.args[1] is const(0) or x.args[2] is const(0))
               for q in qs or () for t, _ in facts(q) for x in walk(t)) or len(
                   g.user_params()) > 3
  for p in ps or ():
    tr = [i for i, e in enumerate(p.events) if e.kind == 'call' and
          e.name == '_partial_trace']
    dg = [i for i, e in enumerate(p.events) if e.kind == 'call' and
          e.name == 'diagonal']
    coll = [i for i, e in enumerate(p.events) if e.kind in ('call', 'inline')
            and 'collapse' in (e.name or '')]
    if not tr:
      continue
    early = [i for i in dg + coll if i < tr[0]]
    rep.check('trace-closed', '_jittable_ncon', bool(signed or early),
              'labels repeated on one tensor are traced over although they may '
              'be open or appear elsewhere', p.events[tr[0]].loc)


def order(rep, f, perm, out):
  if perm is None:
    return
  comp = next((x for x in walk(perm) if x.op == 'comp'), None)
  if comp is None:
    rep.undecided('result-order', '_jittable_ncon', str(perm)[:60])
    return
  el, src = comp.args[1], comp.args[2]
  from_out = any(x is out for x in walk(src))
  if el.op == 'call' and callee_name(el) == 'index':
    recv_out = any(x is out for x in walk(callee_recv(el))) and not any(
        x.op in ('lc', 'append') for x in walk(callee_recv(el)))
    if from_out and not recv_out:
      rep.ok('result-order', '_jittable_ncon')
    elif recv_out:
      rep.bad('result-order', '_jittable_ncon', 'the result is permuted by the '
              'inverse of the output order', '%s:%d' % (f.file, f.line))
    else:
      rep.undecided('result-order', '_jittable_ncon', 'source')
  else:
    rep.undecided('result-order', '_jittable_ncon', str(el)[:60])


def single(rep, e, ax):
  """sum(tensor, axes): axes come from labels found on that tensor."""
  comp = next((x for x in walk(ax) if x.op == 'comp' and
               x.args[1].op == 'call' and
               callee_name(x.args[1]) == 'index'), None)
  if comp is None:
    rep.undecided('single-labels', '_jittable_ncon', 'axes')
    return
  labels = callee_recv(comp.args[1])
  sought = comp.args[1].args[1][0]
  own = any(c.op == 'cmp' and c.args[0] == 'in' and c.args[1] is sought and
            c.args[2] is labels for c in comp.args[3])
  src = comp.args[2]
  while not own and src.op in ('comp', 'call'):
    if src.op == 'comp':
      own = src.args[2] is labels or any(
          c.op == 'cmp' and c.args[0] == 'in' and c.args[2] is labels
          for c in src.args[3])
      src = src.args[2]
    elif callee_name(src) == 'intersection':
      own = any(x is labels for a in src.args[1] + (callee_recv(src),)
                for x in walk(a))
      break
    elif src.args[1]:
      src = src.args[1][0]
    else:
      break
  own = own or src is labels
  rep.check('single-labels', '_jittable_ncon', own, 'labels are looked up on a '
            'tensor that need not carry them', e.loc)
