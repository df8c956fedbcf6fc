"""Environments of DMRG describe the current state. Typestate of the two
environment tables over every path: the left environment of site k is valid
while no tensor left of k changes, the right one while no tensor right of k
changes. Every layer added takes the tensor now stored at the site passed, after
the move that stored it; a moved centre leaves valid environments on both sides
of its new site; and optimisations read environments only on the valid sides."""
from ..terms import T, mk, const, NONE, walk, subst
from ..lib import short, P, callee_name, callee_recv, facts, attr, call_arg
from ..legs import lin, ldiff, lstr, strip, CLS
from .c20 import span, is_mps

ASSUMPTIONS = [
    'the boundary environments given by the caller are those of the ends',
    'layers are joined leg by leg as decided by C18; centre moves are '
    'recorded as decided by C20',
]
SIDE = {'add_left_layer': 'left_envs', 'add_right_layer': 'right_envs'}


ALIAS = {}


def envs(t):
  """'left_envs'/'right_envs' for self.left_envs / self.right_envs."""
  if t is not None and t in ALIAS:
    return ALIAS[t]
  if t is not None and t.op == 'attr' and t.args[1] in (
      'left_envs', 'right_envs') and t.args[0].op == 'param' and \
      t.args[0].args[1] == 'self':
    return t.args[1]
  return None


def effect(name, recv, bound, pos, st):
  """What a move of the centre changes."""
  if recv is None:
    return
  chain = recv if recv.op == 'attr' and recv.args[1] == 'mps' else mk(
      'attr', recv, 'mps')
  if name == 'position' and (bound or pos):
    new = (bound or {}).get('site') or pos[0]
  elif name.startswith('_optimize') and recv.op == 'param':
    new = mk('sym', 'centre', st.n)
  else:
    return
  st.heap[(chain, 'center_position')] = new
  st.heap[(chain, 'tensors')] = mk('attr', mk('moved', chain, st.n), 'tensors')


def version(t):
  """The serial number of the move before the tensors in t were read."""
  for x in walk(t):
    if x.op == 'moved':
      return x.args[1]
  return None


def tensors_of(t, which):
  """The position k for <chain>.tensors[k]."""
  if t is not None and t.op == 'item' and t.args[0].op == 'attr' and \
      t.args[0].args[0].op == 'moved':
    t = mk('item', mk('attr', t.args[0].args[0].args[0], t.args[0].args[1]),
           t.args[1])
  if t is not None and t.op == 'item' and t.args[0].op == 'attr' and \
      t.args[0].args[1] in ('tensors', '_tensors') and \
      t.args[0].args[0].op == 'attr' and \
      t.args[0].args[0].args[1].strip('_') == which:
    return t.args[1]
  return None


def run(ctx, rep):
  rep.rule('layer', 'the environment stored next to a site is the one stored '
           'before it with a layer of that site')
  rep.rule('current', 'a layer takes the tensor now stored at its site')
  rep.rule('cover', 'after the centre moved, the environments of all sites '
           'passed are renewed')
  rep.rule('recompute', 'environments are recomputed from the end of the chain '
           'up to the centre')
  rep.rule('refresh', 'a centre moved on the state itself is followed by a '
           'renewal of the environments before one is read')
  rep.rule('use', 'environments are read on the side on which they are valid')
  rep.rule('drop', 'the environments of the centre are kept')
  rep.rule('stale', 'environments beyond the new centre are discarded')
  seen = 0
  for f in sorted(ctx.prog.funcs.values(), key=lambda f: f.qual):
    if not f.qual.startswith(CLS + 'dmrg.') or f.cls is None or \
        f.name == '__init__':
      continue
    ps, _ = ctx.paths(f, rep=rep, key='c29', effect=effect)
    n0 = len(rep.obligations)
    for p in ps or ():
      if p.outcome != 'raise' and feasible(p):
        path(rep, f, p)
    if f.name == 'position' and ps:
      for side in ('left_envs', 'right_envs'):
        gone = any(
            e.kind in ('delitem', 'setattr') and (
                envs(e.recv) == side or e.name == side) or
            e.kind == 'call' and e.name in ('pop', 'clear', 'popitem')
            for p in ps for e in p.events if e.kind == 'call' or
            isinstance(e.recv, T))
        if not gone:
          rep.bad('stale', '%s.%s' % (f.cls.name, f.name), 'the %s made '
                  'invalid by the move are kept' % side,
                  '%s:%d' % (f.file, f.line))
    if len(rep.obligations) > n0:
      rep.saw(f)
      seen += 1
  rep.floor('layer', 6)
  rep.floor('cover', 4)
  rep.floor('use', 4)
  rep.floor('refresh', 3)


def order(p):
  """-1/1 for the direction of the move if the path decides it."""
  out = {}
  for t, v in facts(p):
    if t.op == 'cmp' and t.args[0] in ('lt', 'le'):
      a, b = t.args[1], t.args[2]
      out[(t.args[0], a, b)] = v
  return out


def feasible(p):
  fs = facts(p)
  d = {}
  for t, v in fs:
    if d.setdefault(t, v) != v:
      return False
  neg = [(t.args[1], t.args[2]) for t, v in fs
         if t.op == 'cmp' and t.args[0] == 'lt' and not v]
  for a, b in neg:
    if (b, a) in neg and any(
        t.op == 'cmp' and t.args[0] == 'eq' and not v and
        set(t.args[1:3]) == {a, b} for t, v in fs):
      return False
  return True


def path(rep, f, p):
  inst = '%s.%s' % (f.cls.name, f.name)
  self_ = P(f, 'self')
  mps = attr(self_, 'mps')
  c0 = lin(attr(mps, 'center_position'))
  cur = dict(c0)             # the centre along the path
  fresh = True               # environments valid around the centre
  stale_by = None
  written = {}               # key term -> value written to the state
  stores = []                # environment stores
  ALIAS.clear()
  for e in p.events:
    # a table built afresh and installed as the environments
    if e.kind == 'setattr' and e.name in ('left_envs', 'right_envs') and \
        e.recv is self_ and e.value is not None and e.value.op != 'attr':
      ALIAS[e.value] = e.name
      if e.value.op == 'dict':
        for kv in e.value.args[0]:
          k, v = kv if isinstance(kv, tuple) else kv.args[0]
          end = {None: 0} if e.name == 'left_envs' else {'N': 1, None: -1}
          good = ldiff(lin(k), end) == 0 and v.op == 'item' and \
              v.args[0].op == 'attr' and v.args[0].args[1] == e.name and \
              ldiff(lin(v.args[1]), end) == 0
          if v.op == 'item' or ldiff(lin(k), end) is not None:
            rep.check('recompute', inst, good, 'the renewal does not start '
                      'from the boundary environment', e.loc)
  moved = None
  moves = []
  for e in p.events:
    if e.kind == 'call':
      r = e.recv
      if e.name == 'position' and r is not None and r is mps and e.bound:
        cur = lin(e.bound.get('site') or const(0))
        moves.append((e, cur))
        written = {}
        fresh, stale_by = False, e
      elif e.name == 'position' and r is self_:
        if not fresh:
          rep.bad('refresh', inst, 'the environments are moved on although '
                  'the state was moved without them', e.loc)
        cur = lin(e.bound.get('site') or const(0)) if e.bound else cur
        fresh = True
      elif e.name in ('compute_left_envs', 'compute_right_envs') and \
          r is self_:
        need = {'compute_right_envs': {None: 0},
                'compute_left_envs': {'N': 1, None: -1}}[e.name]
        other = {'compute_right_envs': 'compute_left_envs',
                 'compute_left_envs': 'compute_right_envs'}[e.name]
        if not fresh:
          if ldiff(cur, need) == 0 or getattr(stale_by, 'half', None) == other:
            fresh = True
            rep.ok('refresh', inst)
          elif any(x.kind == 'call' and x.name == other for x in p.events):
            fresh = True
            rep.ok('refresh', inst)
          else:
            d = ldiff(cur, {'compute_right_envs': {'N': 1, None: -1},
                            'compute_left_envs': {None: 0}}[e.name])
            if d == 0:
              rep.bad('refresh', inst, 'the centre is moved to %s but %s only '
                      'renews the other side' % (lstr(cur)[-30:], e.name),
                      e.loc)
              fresh = True
            else:
              rep.undecided('refresh', inst, lstr(cur)[-60:])
              fresh = True
      elif e.name and e.name.startswith('_optimize') and r is self_:
        if not fresh:
          rep.bad('refresh', inst, 'the state is moved without its '
                  'environments before it is optimised', e.loc)
          fresh = True
        else:
          rep.ok('refresh', inst)
        cur = {mk('sym', 'centre', p.events.index(e)): 1, None: 0}
      elif e.name in ('eigsh_lanczos', 'eigsh', 'eigs'):
        use(rep, f, inst, e, cur)
      elif e.name in SIDE and r is self_ and any(
          x.kind == 'call' and x.name in ('compute_left_envs',
                                          'compute_right_envs')
          for x in p.events[:p.events.index(e)]):
        ends_read(rep, p, inst, e, cur, c0)
    elif e.kind == 'setitem' and e.recv.op == 'attr' and e.recv.args[1] in (
        'tensors', '_tensors') and is_mps(e.recv.args[0], f):
      written[e.key] = e.value
      for s in stores:
        tk = s['site']
        if tk is not None and ldiff(lin(e.key), tk) == 0 and not e.loops:
          rep.bad('current', inst, 'the tensor of an environment is changed '
                  'after the environment was computed', e.loc)
    elif e.kind == 'setattr' and e.name == 'center_position' and e.recv is mps:
      new = lin(e.value)
      moves.append((e, new))
      cur = new
    elif e.kind == 'setitem' and envs(e.recv):
      stores.append(layer(rep, f, inst, p, e, written, moves))
    elif e.kind == 'delitem' and envs(e.recv):
      drop(rep, f, inst, e, cur)
  cover(rep, f, inst, p, moves, stores, c0, fresh)


def layer(rep, f, inst, p, e, written, moves):
  side = envs(e.recv)
  out = {'side': side, 'key': e.key, 'site': None, 'ev': e, 'n':
         p.events.index(e)}
  v = e.value
  if v is None or v.op != 'call' or callee_name(v) not in SIDE:
    return out
  st = 1 if side == 'left_envs' else -1
  if SIDE[callee_name(v)] != side:
    rep.bad('layer', inst, '%s is stored in %s' % (callee_name(v), side),
            e.loc)
    return out
  env = call_arg(v, 'L' if st == 1 else 'R', 0)
  ten = call_arg(v, 'mps_tensor', 1)
  mpo = call_arg(v, 'mpo_tensor', 2)
  key = lin(e.key)
  # which site is the layer of
  site = tensors_of(ten, 'mps')
  if site is not None:
    at = lin(site)
    if any(k is site for k in written):
      rep.bad('current', inst, 'the layer takes the tensor at its site before '
              'the new one is stored', e.loc)
    else:
      i = p.events.index(e)
      mv = [x for x in p.events if x.kind == 'call' and x.name == 'position'
            and x.recv is attr(P(f, 'self'), 'mps')]
      before = [x for x in mv if p.events.index(x) < i]
      if len(before) < len(mv):
        rep.bad('current', inst, 'the layer is added before the move that '
                'changes the tensor of its site', e.loc)
      else:
        rep.check('current', inst, not mv or version(ten) is not None,
                  'the tensor of the layer is read before the move that '
                  'changes it', e.loc)
  else:
    ks = [k for k, w in written.items() if w is ten]
    if ks:
      at = lin(ks[-1])
      rep.ok('current', inst)
    elif written:
      at = None
      near = [k for k in written if ldiff(lin(k), key) == -st]
      if near:
        rep.bad('current', inst, 'the layer is not that of the tensor stored '
                'at its site', e.loc)
    else:
      at = None
  if at is None:
    rep.undecided('layer', inst, 'site of the layer')
    return out
  out['site'] = at
  d = ldiff(key, at)
  if d is None:
    rep.undecided('layer', inst, 'position')
    return out
  good, why = d == st, 'the layer of the site %+d is stored' % -d
  m = tensors_of(mpo, 'mpo')
  if m is not None:
    dm = ldiff(lin(m), at)
    if dm is not None and dm:
      good, why = False, 'operator and state tensors of different sites'
  if env is not None and env.op == 'item' and envs(env.args[0]):
    de = ldiff(key, lin(env.args[1]))
    if envs(env.args[0]) != side:
      good, why = False, 'the layer is added to the other environment'
    elif de is not None and de != st:
      good, why = False, 'the layer is added to the environment at %+d' % -de
  rep.check('layer', inst, good, why, e.loc)
  return out


def ends(e, t):
  sp = span(e, t)
  if sp is None:
    return None
  if not sp:
    return [(lin(t), lin(t))], 0
  el, fi, la, st = sp
  return [tuple(lin(subst(t, lambda x: v if x is el else x))
                for v in (fi, la))], st


def cover(rep, f, inst, p, moves, stores, c0, fresh):
  if f.name.startswith('compute_') and f.name.endswith('_envs'):
    side = f.name[8:]
    own = [s for s in stores if s['side'] == side]
    st = 1 if side == 'left_envs' else -1
    if not own:
      return
    r = ends(own[0]['ev'], own[0]['key'])
    if r is None or r[1] == 0:
      rep.undecided('recompute', inst, 'range')
      return
    (a, b), dirn = r[0][0], r[1]
    first = {None: 1} if st == 1 else {'N': 1, None: -2}
    d1, d2 = ldiff(a, first), ldiff(b, c0)
    if dirn != st:
      rep.bad('recompute', inst, 'the layers are added from the centre '
              'outwards', own[0]['ev'].loc)
    elif d1 is None or d2 is None:
      rep.undecided('recompute', inst, 'range')
    else:
      rep.check('recompute', inst, d1 == 0 and d2 * st >= 0,
                'the environments from %s to %s are renewed instead of those '
                'from the end to the centre' % (lstr(a)[-30:], lstr(b)[-40:]),
                own[0]['ev'].loc)
    return
  if not moves:
    return
  e, new = moves[-1]
  calls = {x.name for x in p.events[p.events.index(e):]
           if x.kind == 'call' and x.recv is P(f, 'self')}
  if calls & {'compute_left_envs', 'compute_right_envs'} or (
      calls & {'position'}):
    return
  if f.name.startswith('_optimize') or f.name == 'position':
    pass
  elif not stores:
    if not fresh:
      rep.bad('cover', inst, 'the state is moved but its environments are not '
              'renewed', e.loc)
    return
  d = ldiff(new, c0)
  st = None
  if d is not None:
    st = (d > 0) - (d < 0)
  else:
    # direction known from a branch
    for t, v in facts(p):
      if t.op != 'cmp' or t.args[0] not in ('lt', 'le'):
        continue
      x, y = lin(t.args[1]), lin(t.args[2])
      if ldiff(x, c0) == 0 and ldiff(y, new) == 0:
        st = 1 if v else (st or -1)
        if v:
          break
      if ldiff(x, new) == 0 and ldiff(y, c0) == 0:
        if v:
          st = -1
          break
        st = st or 1
  if not st:
    if d != 0:
      rep.undecided('cover', inst, 'direction of the move')
    return
  side = 'left_envs' if st == 1 else 'right_envs'
  own = [s for s in stores if s['side'] == side]
  if not own:
    # a loop may have been skipped on this path only if it can be empty
    if loop_skipped(f, p, e):
      return
    rep.bad('cover', inst, 'the centre is moved to the %s but no %s '
            'environment is renewed' % ('right' if st == 1 else 'left',
                                        side.split('_')[0]), e.loc)
    return
  s = own[0]
  r = ends(s['ev'], s['key'])
  if r is None:
    rep.undecided('cover', inst, 'range')
    return
  (a, b), dirn = r[0][0], r[1]
  if dirn == -st and ldiff(b, c0) == st and ldiff(a, new) == 0:
    a, b = b, a     # the right sites in the wrong order
  elif dirn and ldiff(a, b) == dirn:
    rep.bad('cover', inst, 'the range of environments renewed after the move '
            'is empty', s['ev'].loc)
    return
  d1, d2 = ldiff(a, c0), ldiff(b, new)
  if d1 is None or d2 is None:
    rep.undecided('cover', inst, 'range')
    return
  ok = (dirn in (0, st)) and d1 == st and d2 == 0
  rep.check('cover', inst, ok, 'the centre is moved from %s to %s but the %s '
            'environments from %s to %s are renewed%s' % (
                lstr(c0)[-30:], lstr(new)[-40:], side.split('_')[0],
                lstr(a)[-40:], lstr(b)[-40:],
                '' if dirn in (0, st) else ' in the wrong order'),
            s['ev'].loc)


def loop_skipped(f, p, e):
  """The path takes a loop of this function zero times although the move is not
  empty (the analysis also follows the empty case of every loop)."""
  i = p.events.index(e)
  ran = {l for x in p.events[i:] for l in (x.loops or ())}
  for x in p.events[i:]:
    if x.kind == 'call' and x.name == 'range' and x.res is not None and \
        not any(x.res is strip(l)[0] for l in ran):
      return True
  return False


def use(rep, f, inst, e, cur):
  a = e.bound.get('args') if e.bound else None
  if a is None:
    a = dict(e.kw or ()).get('args')
  if a is None:
    return
  for x in walk(a):
    if x.op == 'item' and envs(x.args[0]):
      side = envs(x.args[0])
      d = ldiff(lin(x.args[1]), cur)
      if d is None:
        rep.undecided('use', inst, str(x)[-60:])
        continue
      rep.check('use', inst, d <= 0 if side == 'left_envs' else d >= 0,
                'the %s environment %+d sites from the centre is read' % (
                    side.split('_')[0], d), e.loc)


def ends_read(rep, p, inst, e, cur, c0):
  """An environment at an end of the chain needs the centre there."""
  for x in walk(e.res):
    if x.op == 'item' and envs(x.args[0]):
      k = lin(x.args[1])
      d = ldiff(k, cur)
      if d is None and ldiff(cur, c0) == 0 and set(k) <= {None, 'N'} and \
          not any(a in c0 for t, _ in facts(p) for a in walk(t)):
        rep.bad('use', inst, 'the environment at %s is read but the centre '
                'may be anywhere' % lstr(k), e.loc)
      elif d is not None:
        side = envs(x.args[0])
        rep.check('use', inst, d <= 0 if side == 'left_envs' else d >= 0,
                  'the %s environment %+d sites from the centre is read' % (
                      side.split('_')[0], d), e.loc)


def drop(rep, f, inst, e, cur):
  r = ends(e, e.key)
  if r is None:
    rep.undecided('drop', inst, str(e.key)[:60])
    return
  side = envs(e.recv)
  (a, b) = r[0][0]
  if r[1] < 0:
    a, b = b, a
  d = ldiff(a, cur) if side == 'left_envs' else ldiff(b, cur)
  if d is None:
    rep.undecided('drop', inst, str(e.key)[:60])
    return
  rep.check('drop', inst, d > 0 if side == 'left_envs' else d < 0,
            'a valid %s environment (%+d from the centre) is discarded' % (
                side.split('_')[0], d), e.loc)
  if abs(d) > 1:
    rep.bad('stale', inst, 'the %s environment next to the new centre, built '
            'from tensors that have changed, is kept' % side.split('_')[0],
            e.loc)
  else:
    rep.ok('stale', inst)
