"""Effect-before-raise: on every path of a network or MPS operation that ends
in an exception raised by the operation itself, no node, edge, tensor or
container reachable from its arguments has been modified before, and no
argument test inside a loop can fail in a later iteration after the same loop
has modified something."""
import ast
from ..lib import short, callee_name
from ..effects import Effects

ASSUMPTIONS = [
    'exceptions raised by callees or by the numerical libraries are the '
    'callee\'s rejection, not the operation\'s own',
    'objects created on the path are not observable by the caller'
]

SCOPE = ('network_components', 'network_operations', 'matrixproductstates.',
         'utils', 'contractors.', 'linalg.node_linalg', 'split')
# accumulators and counters the caller never sees
EXCEPT = {}


def own_raises(f, p):
  """Raise event that ends the path, if it is the operation's own."""
  if p.outcome != 'raise':
    return None
  last = None
  for ev in p.events:
    if ev.kind == 'raise':
      last = ev
  return last


def run(ctx, rep):
  rep.rule('raise-before-effect', 'nothing reachable from the arguments is '
           'modified before the operation raises')
  rep.rule('no-late-raise-in-loop', 'a loop that modifies something does not '
           'also reject arguments')
  eff = Effects(ctx, rep, skip=lambda f: not short(f.qual).startswith(
      SCOPE + ('tensor', 'quantum', 'ops', 'backend_contextmanager')))
  n = 0
  for q, (f, ps) in sorted(eff.paths.items()):
    sq = short(q)
    if not sq.startswith(SCOPE):
      continue
    muts_in_loops = []
    raises = []
    for p in ps:
      r = own_raises(f, p)
      early = []
      for ev in p.events:
        if r is not None and ev is r:
          break
        for t, what in eff.mutated(ev):
          roots = eff.ident(t)
          if f.name in ('__init__', '__new__') and f.params:
            roots = roots - {f.params[0]}
          if roots:
            early.append((t, what, ev))
      if p.outcome == 'return' or r is not None:
        muts_in_loops += [(t, w, ev) for t, w, ev in early if ev.loops]
      if r is None:
        continue
      n += 1
      raises.append((r, p))
      inst = '%s %s' % (sq, message(r))
      if early:
        t, what, ev = early[0]
        rep.bad('raise-before-effect', inst, 'raises after %s has been '
                'modified (%s, line %d)' % (t, what, ev.line), p.loc)
      else:
        rep.ok('raise-before-effect', inst)
    loops(f, sq, raises, muts_in_loops, rep)
  rep.count('raise paths', n)
  rep.floor('raise-before-effect', 40)


def message(r):
  v = r.value
  s = repr(v)
  return s[:70]


def loops(f, sq, raises, muts, rep):
  body = [n for n in ast.walk(f.node) if isinstance(n, (ast.For, ast.While))]
  if not body or not raises:
    return
  for lp in body:
    inside = {id(x) for s in lp.body for x in ast.walk(s)}
    rs = [(r, p) for r, p in raises if id(r.node) in inside]
    ms = [m for m in muts if id(m[2].node) in inside]
    if not rs:
      continue
    if not ms:
      rep.ok('no-late-raise-in-loop', '%s loop %s' % (sq, ast.dump(
          lp.iter if isinstance(lp, ast.For) else lp.test)[:40]))
      continue
    t, what, ev = ms[0]
    rep.bad('no-late-raise-in-loop', sq, 'an argument can be rejected after '
            'an earlier iteration modified %s (%s, line %d)' %
            (t, what, ev.line), '%s:%d' % (rs[0][0].file, rs[0][0].line))
