"""Leg-type checking of the matrix product state code. Every leg has a kind, a
position along the chain and a direction (conjugation reverses it); stored
tensors and environments have fixed types, assumed where they are read and
checked where they are written. Every label of a contraction and every edge
connected between two nodes must join legs of equal kind and position and
opposite direction."""
from ..terms import T, mk, const, walk
from ..lib import short, P, callee_name, callee_recv, facts
from ..legs import (Machine, SIGS, CLS, MPSC, LEFT, RIGHT, gate1, gate2,
                    l_type, r_type, mps_type)
from ..guards import Env, status, UNK

ASSUMPTIONS = ['operators of a chain have the legs (left bond, right bond, out, '
               'in); gates and observables have their output legs first']
MODS = ('base_mps', 'finite_mps', 'infinite_mps', 'dmrg')


def param_types(f):
  """Types of parameters that hold tensors."""
  q = f.qual[len(CLS):]
  if q in SIGS:
    i = {mk('site'): 1}
    return {P(f, n): ty(_add(i, off)) for n, (ty, off) in zip(
        f.params[1:], SIGS[q][0])}
  n = f.name
  if n == 'apply_two_site_gate':
    return {P(f, 'gate'): gate2({P(f, 'site1'): 1})}
  if n == 'apply_one_site_gate':
    return {P(f, 'gate'): gate1({P(f, 'site'): 1})}
  return {}


def _add(i, n):
  out = dict(i)
  out[None] = n
  return out


class Obs(Machine):
  """Gates, and observables whose site is the site they are joined to."""

  def _legs(self, t):
    if t.op == 'call' and callee_name(t) == 'convert_to_tensor':
      x = t.args[1][0] if t.args[1] else dict(t.args[2]).get('tensor')
      if x in self.params:
        return self.params[x]
    if self.f.name in ('measure_local_operator',
                       'measure_two_body_correlator'):
      b = t
      if t.op == 'item' and t.args[0].op == 'param':
        b = t.args[0]
      if b.op == 'param' and b.args[1].startswith('op'):
        s = mk('obs', t)
        return gate1({s: 1})
    return Machine._legs(self, t)

  def joinable(self, a, b):
    if a is not None and b is not None and a.kind == b.kind == 'p':
      for x, y in ((a, b), (b, a)):
        if isinstance(x.at, dict) and any(
            getattr(k, 'op', '') == 'obs' for k in x.at):
          if a.dir == b.dir:
            return False, 'a %r with a %r' % (a, b)
          return True, ''
    return Machine.joinable(self, a, b)


def run(ctx, rep):
  rep.rule('join', 'joined legs have equal kind and position and opposite '
           'direction; every label is open once or contracted twice')
  rep.rule('store', 'stored tensors and environments have the legs their '
           'readers assume')
  rep.rule('call', 'tensors passed to a contraction have the legs it assumes')
  rep.rule('result', 'a contraction returns its legs in the declared order')
  rep.rule('carry', 'a value carried around a loop moves with the site')
  rep.rule('sum', 'added tensors have the same legs')
  rep.rule('scalar', 'expectation values have no open legs')
  rep.rule('direction', 'a direction selects the matching transfer operator '
           'and sweep')
  for m in MODS:
    for f in sorted(ctx.prog.funcs.values(), key=lambda f: f.qual):
      if not f.qual.startswith(CLS + m + '.') or f.cls is None:
        continue
      function(ctx, rep, f)
  directions(ctx, rep)
  rep.floor('join', 20)
  rep.floor('store', 4)


def function(ctx, rep, f):
  ps, _ = ctx.paths(f, rep=rep)
  if not ps:
    return
  inf = f.cls is not None and f.cls.name == 'InfiniteMPS'
  n0 = len(rep.obligations)
  done = set()
  pt = param_types(f)
  q = f.qual[len(CLS):]
  for p in ps:
    if p.outcome == 'raise':
      continue
    m = Obs(f, p, rep, ctx.prog, mod=inf)
    m.done = done
    m.params = pt
    m.run()
    if q in SIGS and p.value is not None:
      ty, off = SIGS[q][1]
      m.has_type('result', m.inst(), m.legs(p.value),
                 ty(_add({mk('site'): 1}, off)), 'the result')
    if f.name in ('left_envs', 'right_envs') and p.value is not None:
      ty = l_type if f.name == 'left_envs' else r_type
      for d, k, v in m.stores:
        if any(x is d for x in walk(p.value)):
          m.start(mk('tuple', (v, k)))
          m.has_type('store', '%s env' % m.inst(), m.legs(
              mk('attr', v, 'tensor')), ty(m.index(k)),
                     'the environment stored at %s' % str(k)[-30:])
          m.sub = {}
    for e in p.events:
      if e.kind == 'call' and e.name == 'item' and e.bound and \
          f.name.startswith('measure_'):
        x = e.bound.get('tensor')
        if x is not None:
          xs = [x]
          if x.op == 'elem' and x.args[0].op == 'append':
            xs = [x.args[0].args[1]]
          for y in xs:
            m.start(y)
            ls = m.legs(y)
            m.sub = {}
            if ls is not None:
              rep.check('scalar', m.inst(), len(ls) == 0, 'an expectation '
                        'value has %d open legs' % len(ls), e.loc)
  if len(rep.obligations) > n0:
    rep.saw(f)


def directions(ctx, rep):
  f = ctx.prog.funcs.get(CLS + 'base_mps.BaseMPS.apply_transfer_operator')
  if f is not None:
    ps, _ = ctx.paths(f, rep=rep)
    for d in LEFT + RIGHT:
      env = Env({P(f, 'direction'): d})
      for p in ps or ():
        if p.outcome == 'raise' or p.value is None or \
            status(p, env)[0] != 'yes':
          continue
        n = callee_name(p.value)
        want = 'left_transfer_operator' if d in LEFT else \
            'right_transfer_operator'
        if n in ('left_transfer_operator', 'right_transfer_operator'):
          rep.check('direction', '%s %s' % (short(f.qual), d), n == want,
                    'direction %r uses %s' % (d, n), '%s:%d' % (f.file, f.line))
    rep.saw(f)
  f = ctx.prog.funcs.get(
      CLS + 'infinite_mps.InfiniteMPS.unit_cell_transfer_operator')
  if f is not None:
    ps, _ = ctx.paths(f, rep=rep)
    for d in LEFT + RIGHT:
      env = Env({P(f, 'direction'): d})
      for p in ps or ():
        if p.outcome == 'raise' or status(p, env)[0] != 'yes':
          continue
        rev = False
        plain = True
        for e in p.events:
          if e.kind == 'call' and e.name == 'reversed':
            rev = not rev
          if e.kind == 'call' and e.name == 'range' and (
              len(e.pos or ()) == 3):
            plain = False
        loops = [e for e in p.events if e.kind == 'call' and
                 e.name == 'apply_transfer_operator']
        if not plain or not loops:
          rep.undecided('direction', short(f.qual), 'sweep order')
          continue
        rep.check('direction', '%s %s' % (short(f.qual), d), rev == (
            d in RIGHT), 'the unit cell is swept %s for direction %r' %
                  ('backwards' if rev else 'forwards', d),
                  '%s:%d' % (f.file, f.line))
    rep.saw(f)
