"""Batched requests are answered entry by entry. For every function that
answers a list with a list, the provenance of the returned list is traced back
through comprehensions and appends: it must range over the request itself, in
its order, without filter, and every entry must be computed from the element of
the request at the same position."""
from ..terms import T, mk, const, NONE, walk
from ..lib import short, P, callee_name, callee_recv, facts, attr, call_arg, \
    none_facts, loops
from ..legs import lin, ldiff

ASSUMPTIONS = ['a mapping read by an element of the request was filled for '
               'that element (decided for the environments by C18)']
REORDER = {'sort', 'sorted', 'unique', 'reversed', 'set', 'frozenset', 'flip',
           'argsort', 'fliplr', 'roll', 'shuffle', 'permutation'}
KEEP = {'array', 'asarray', 'list', 'tuple', 'enumerate', 'iter', 'astype',
        'copy', 'atleast_1d'}

MPS = 'matrixproductstates.base_mps.BaseMPS.'
QU = 'quantum.quantum.'


def ret(p):
  return p.value


def arg(name, idx):
  def get(p):
    v = p.value
    if v is None or v.op not in ('call', 'new'):
      return None
    for e in p.events:
      if e.kind == 'call' and e.res is v and e.bound:
        return e.bound.get(name)
    return call_arg(v, name, idx)
  return get


def axis(k):
  """The entry is .shape[k] of the element."""
  def ok(el, t, f):
    return t.op == 'item' and t.args[0].op == 'attr' and \
        t.args[0].args[1] == 'shape' and t.args[0].args[0] is el and \
        t.args[1] is const(k)
  return ok


def same_site(table, op=None):
  """The entry uses <table>[element] (and op at the same position)."""
  def ok(el, t, f):
    s = P(f, 'self')
    hit = [x for x in walk(t) if x.op == 'item' and x.args[0].op == 'attr' and
           x.args[0].args[1] == table and x.args[0].args[0] is s]
    if any(x.args[1] is not el for x in hit):
      return False
    return True if hit else None
  return ok


def node_axis(el, t, f):
  if t.op == 'item' and t.args[1] is el:
    return True
  return None


def dimension(el, t, f):
  if t.op == 'attr' and t.args[1] == 'dimension':
    return t.args[0] is el
  return None


def any_elem(el, t, f):
  return True


TABLE = [
    (MPS + 'measure_local_operator', ret, 'sites', same_site('tensors'), ()),
    (MPS + 'measure_two_body_correlator', ret, 'sites2', any_elem, ()),
    (MPS + 'physical_dimensions', ret, 'self.tensors', axis(1), ()),
    (MPS + 'bond_dimensions', ret, 'self.tensors', axis(2), ('first', 0)),
    ('matrixproductstates.mpo.BaseMPO.bond_dimensions', ret, 'self.tensors',
     axis(1), ('first', 0)),
    ('network_operations.replicate_nodes', ret, 'nodes', any_elem, ()),
    (QU + 'QuOperator.in_space', ret, 'self.in_edges', dimension, ()),
    (QU + 'QuOperator.out_space', ret, 'self.out_edges', dimension, ()),
    (QU + 'QuOperator.from_tensor', arg('out_edges', 0), 'out_axes', node_axis,
     ()),
    (QU + 'QuOperator.from_tensor', arg('in_edges', 1), 'in_axes', node_axis,
     ()),
    (QU + 'QuVector.from_tensor', arg('subsystem_edges', 0), 'subsystem_axes',
     node_axis, ()),
    (QU + 'QuAdjointVector.from_tensor', arg('subsystem_edges', 0),
     'subsystem_axes', node_axis, ()),
]
REQUESTS = {x[2] for x in TABLE}


def request(f, name):
  parts = name.split('.')
  t = P(f, parts[0])
  for a in parts[1:]:
    t = attr(t, a)
  return t


def base(t, req):
  """(ok, why): is the iterable the request in its order?"""
  while True:
    if t is req:
      return True, ''
    if t.op == 'call':
      n = callee_name(t)
      x = t.args[1][0] if t.args[1] else callee_recv(t)
      if n in REORDER and x is not None:
        return False, 'runs over %s(...)' % n
      if n == 'range':
        a = t.args[1]
        if len(a) == 1 and callee_name(a[0]) == 'len' and a[0].args[1] and \
            base(a[0].args[1][0], req)[0]:
          return True, ''
        return False, 'runs over a range of its own'
      if n in ('values', 'keys', 'items'):
        return False, 'runs over a mapping in its own order'
      if n in KEEP and x is not None:
        t = x
        continue
      return None, str(t)[:60]
    if t.op == 'comp':
      if t.args[3]:
        return False, 'leaves entries out'
      t = t.args[2]
      continue
    if t.op == 'param' and t.args[1] != 'self':
      return False, 'runs over %s' % t.args[1]
    if t.op == 'attr' and t.args[0].op == 'param' and \
        t.args[0].args[1] == 'self' and 'self.' + t.args[1] in REQUESTS:
      return False, 'runs over ' + t.args[1]
    return None, str(t)[:60]


def run(ctx, rep):
  rep.rule('order', 'the answer runs over the request, in its order, without '
           'filter')
  rep.rule('entry', 'each entry is computed from the element of the request at '
           'its position')
  rep.rule('each', 'a loop over elements makes use of the element')
  rep.rule('pair', 'parallel arguments are read at the same position')
  for q, get, name, entry, extra in TABLE:
    f = ctx.prog.funcs.get('tensornetwork.' + q)
    if f is None or name.split('.')[0] not in f.all_params():
      rep.undecided('order', q, 'anchor missing')
      continue
    req = request(f, name)
    ps, _ = ctx.paths(f, rep=rep)
    if not ps:
      continue
    rep.saw(f)
    inst = '%s %s' % (short(f.qual), name)
    for p in ps:
      if p.outcome == 'raise' or none_facts(p).get(req) is True:
        continue
      v = get(p)
      if v is None:
        rep.undecided('order', inst, 'no list')
        continue
      loc = '%s:%d' % (f.file, p.line or f.line)
      listed(rep, inst, f, p, v, req, entry, extra, loc)
      fixed(rep, inst, p, req)
      filled(rep, inst, f, p, v)
  for q, f in sorted(ctx.prog.funcs.items()):
    if f.parent is None and not ctx.is_new(f):
      for line, names, read in loops(f):
        rep.check('each', '%s %s' % (short(q), ','.join(names)), read,
                  'a loop over elements never reads the element %s' %
                  ','.join(names), '%s:%d' % (f.file, line))
  rep.floor('each', 100)
  rep.floor('order', 8)
  rep.floor('entry', 6)


def fixed(rep, inst, p, req):
  """What belongs to a site is not read at a fixed entry of the request."""
  seen = set()
  if req.op != 'param':
    return
  for e in p.events:
    if e.kind != 'call':
      continue
    for a in list(e.pos or ()) + [v for _, v in e.kw or ()] + [e.recv]:
      if not isinstance(a, T):
        continue
      for x in walk(a, seen):
        if x.op == 'item' and isinstance(x.args[1], T) and \
            x.args[1].op == 'item' and x.args[1].args[0] is req and \
            x.args[1].args[1].op == 'const':
          rep.bad('entry', inst, 'something is read at entry %s of the request '
                  'for every entry' % x.args[1].args[1], e.loc)
          return
  rep.ok('entry', inst)


def filled(rep, inst, f, p, v):
  """A mapping the answer is read from holds each site's own value."""
  s = P(f, 'self')
  src = {x.args[0] for x in walk(v) if x.op == 'item' and
         x.args[0].op == 'dict'}
  for e in p.events:
    if e.kind != 'setitem' or e.recv not in src:
      continue
    at = [ldiff(lin(x.args[1]), lin(e.key)) for x in walk(e.value)
          if x.op == 'item' and x.args[0] is attr(s, 'tensors')]
    if not at:
      rep.undecided('entry', inst, 'site of the value')
    elif 0 in at:
      rep.ok('entry', inst)
    elif any(at):
      rep.bad('entry', inst, 'the value of another site is stored for a site',
              e.loc)
    else:
      rep.undecided('entry', inst, 'site of the value')


def listed(rep, inst, f, p, v, req, entry, extra, loc):
  while v.op == 'call' and callee_name(v) in ('list', 'tuple') and v.args[1]:
    v = v.args[1][0]
  if extra and extra[0] == 'first':
    if v.op == 'bin' and v.args[0] == 'Add' and v.args[1].op in ('list',
                                                                 'tuple'):
      h = v.args[1].args[0]
      good = len(h) == 1 and h[0].op == 'item' and h[0].args[1] is const(
          extra[1]) and h[0].args[0].op == 'attr' and \
          h[0].args[0].args[1] == 'shape' and \
          h[0].args[0].args[0].op == 'item' and \
          h[0].args[0].args[0].args[0] is req and \
          h[0].args[0].args[0].args[1] is const(0)
      if len(h) == 1 and h[0].op == 'item':
        rep.check('entry', inst, good, 'the first entry is not the left '
                  'dimension of the first element', loc)
      v = v.args[2]
    else:
      rep.undecided('order', inst, 'first entry')
      return
  if v.op in ('list', 'tuple') and not v.args[0]:
    return     # the loops of this path ran over nothing
  if v.op == 'call' and callee_name(v) in REORDER:
    rep.bad('order', inst, 'the answer is put through %s' % callee_name(v),
            loc)
    return
  if v.op != 'comp':
    r, why = base(v, req)
    if r is False:
      rep.bad('order', inst, 'the answer ' + why, loc)
    elif r is True:
      rep.ok('order', inst)
    else:
      rep.undecided('order', inst, str(v)[:80])
    return
  el_t, it, conds = v.args[1], v.args[2], v.args[3]
  if conds:
    rep.bad('order', inst, 'the answer leaves out entries of the request', loc)
    return
  r, why = base(it, req)
  if r is None:
    rep.undecided('order', inst, why)
    return
  rep.check('order', inst, r, 'the answer %s instead of the request' % why,
            loc)
  if not r:
    return
  inner = it
  while inner.op == 'call' and callee_name(inner) == 'enumerate':
    inner = inner.args[1][0]
  els = {mk('elem', inner), mk('elem', req), mk('elem', it)}
  if isinstance(el_t, T):
    used = [x for x in walk(el_t) if x in els]
    ix = [x for x in walk(el_t) if x.op == 'elem' and x.args[0].op == 'call'
          and callee_name(x.args[0]) in ('range', 'enumerate')]
    if not used and not ix and not any(
        x.op == 'elem' or x.op == 'idx' for x in walk(el_t)):
      rep.bad('entry', inst, 'the entries do not depend on the element of the '
              'request', loc)
      return
    res = [entry(e, el_t, f) for e in (used[:1] or [mk('elem', inner)])]
    if res[0] is None:
      rep.undecided('entry', inst, str(el_t)[:80])
    else:
      rep.check('entry', inst, res[0], 'the entry is not that of its element',
                loc)
    pair(rep, inst, f, el_t, inner, req, loc)


def pair(rep, inst, f, t, it, req, loc):
  """ops[i] beside sites[i]: i is the position itself."""
  for x in walk(t):
    if x.op == 'item' and x.args[0].op == 'param' and x.args[0] is not req and \
        x.args[0].args[1] != 'self' and isinstance(x.args[1], T):
      k = x.args[1]
      pos = k.op in ('idx', 'item') or (
          k.op == 'elem' and k.args[0].op == 'call' and
          callee_name(k.args[0]) == 'range')
      if k.op == 'const' or any(y is mk('elem', it) for y in [k]) or \
          k.op == 'bin':
        rep.bad('pair', inst, '%s is not read at the position of the entry' %
                x.args[0].args[1], loc)
      elif pos:
        rep.ok('pair', inst)
      else:
        rep.undecided('pair', inst, str(k)[:60])
