"""Quantum operators are combined through copies of their networks.

Every edge list and node list handed to the constructor of a result, and every
edge that is joined, is traced back to its origin: the image of an edge of an
operand under the copy of that operand's network, or an edge of the operand
itself.  The operations are then compared with what they are specified to do:
which spaces of which operand appear where, in which sequence, conjugated or
not, and which images are joined after which comparison."""
from ..terms import T, mk, const, NONE, walk
from ..lib import short, callee_name, callee_recv, call_args, facts

ASSUMPTIONS = ['network_operations.copy returns fresh nodes and edges (C05)',
               'a property of an operator (nodes, in_space ...) reads only']
QU = 'tensornetwork.quantum.quantum.'
SIDES = {'out_edges': 'out', 'in_edges': 'in', 'ignore_edges': 'ignore',
         'ref_nodes': 'ref', 'nodes': 'all'}
LISTS = {'list', 'tuple', 'set', 'sorted', 'frozenset'}


def _bool(t):
  return bool(t.args[0]) if isinstance(t, T) and t.op == 'const' else None


def copied(t):
  """(operand, which, conjugated) if t is copy(operand.nodes, c)[which]."""
  if t.op != 'item' or t.args[1].op != 'const' or t.args[0].op != 'call':
    return None
  c = t.args[0]
  if callee_name(c) != 'copy':
    return None
  pos, kw = call_args(c)
  n = kw.get('nodes', pos[0] if pos else None)
  cj = kw.get('conjugate', pos[1] if len(pos) > 1 else const(False))
  if n is None:
    return None
  while n.op == 'call' and callee_name(n) in LISTS and len(n.args[1]) == 1:
    n = n.args[1][0]
  if n.op != 'attr' or n.args[1] != 'nodes':
    return None
  return n.args[0], t.args[1].args[0], _bool(cj)


def replaced(t):
  """eliminate_identities(X.nodes)[k] -> (X, k)."""
  if t.op == 'item' and t.args[1].op == 'const' and \
      callee_name(t.args[0]) == 'eliminate_identities':
    pos, kw = call_args(t.args[0])
    n = kw.get('nodes', pos[0] if pos else None)
    if n is not None and n.op == 'attr' and n.args[1] == 'nodes':
      return n.args[0], t.args[1].args[0]
  return None


def origin(t):
  """Origin of one edge or node.
  ('img', operand, conj, source) image of `source` under the operand's copy
  ('raw', operand, side) the operand's own; None unknown."""
  if t.op == 'item':
    c = copied(t.args[0])
    if c is not None:
      return ('img', c[0], c[2], t.args[1])
    r = replaced(t.args[0])
    if r is not None:
      return ('new', r[0], None, t.args[1])
    # element of .items() of the mapping
    if t.args[0].op == 'elem' and t.args[1].op == 'const' and \
        callee_name(t.args[0].args[0]) == 'items':
      c = copied(callee_recv(t.args[0].args[0]))
      if c is not None:
        if t.args[1].args[0] == 1:
          return ('img', c[0], c[2], 'every')
        return ('raw', c[0], 'all')
  if t.op == 'elem':
    s = t.args[0]
    if callee_name(s) == 'values':
      c = copied(callee_recv(s))
      if c is not None:
        return ('img', c[0], c[2], 'every')
    if copied(s) is not None:
      return ('raw', copied(s)[0], 'all')  # iterating a dict gives its keys
    o = side(s)
    if o is not None:
      return ('raw',) + o
    if s.op == 'comp' and not s.args[3]:
      return origin(s.args[1])
  if t.op == 'item':
    o = side(t.args[0])
    if o is not None:
      return ('raw',) + o
  return None


def side(t):
  """(operand, side) if t lists the edges of one side of an operator."""
  while t.op == 'call' and callee_name(t) in LISTS and len(t.args[1]) == 1:
    t = t.args[1][0]
  if t.op == 'attr' and t.args[1] in SIDES and t.args[0].op in (
      'param', 'self', 'call', 'attr'):
    return t.args[0], SIDES[t.args[1]]
  return None


def segs(t):
  """[(kind, operand, conj, side, filter)] of an edge or node list, or None."""
  if t is NONE:
    return []
  if t.op == 'call':
    n = callee_name(t)
    pos, kw = call_args(t)
    if n in LISTS and len(pos) == 1 and callee_name(pos[0]) == 'items':
      return None
    if n in LISTS:
      return segs(pos[0]) if len(pos) == 1 else ([] if not pos else None)
    if n == 'values' and not pos:
      c = copied(callee_recv(t))
      if c is not None:
        return [('img', c[0], c[2], 'all', None)]
      r = replaced(callee_recv(t))
      if r is not None and r[1] == 0:
        return [('new', r[0], None, 'all', None)]
    if n in ('union', 'chain'):
      r = callee_recv(t)
      parts = ([r] if n == 'union' else []) + list(pos)
      out = [segs(x) for x in parts]
      return None if None in out else sum(out, [])
  if t.op == 'bin' and t.args[0] in ('Add', 'BitOr'):
    a, b = segs(t.args[1]), segs(t.args[2])
    return None if a is None or b is None else a + b
  if t.op in ('list', 'tuple', 'set'):
    out = []
    for x in t.args[0]:
      if x.op == 'star':
        s = segs(x.args[0])
        if s is None:
          return None
        out += s
        continue
      return None
    return out
  if t.op == 'comp' and t.args[0] != 'dict':
    body, src, conds = t.args[1], t.args[2], t.args[3]
    o = origin(body)
    if o is None:
      return None
    flt = conds or None
    if o[0] == 'raw':
      return [('raw', o[1], None, o[2], flt)]
    if o[3] == 'every':
      return [(o[0], o[1], o[2], 'all', flt)]
    k = o[3]
    if k.op == 'elem':
      s = side(k.args[0])
      if s is not None:
        kind = o[0] if s[0] is o[1] else 'foreign'
        return [(kind, o[1], o[2], s[1], flt)]
    return None
  s = side(t)
  if s is not None:
    return [('raw', s[0], None, s[1], None)]
  c = copied(t)
  if c is not None and c[1] == 0:
    return [('raw', c[0], None, 'all', None)]
  return None


def makes(e):
  """Argument terms of a call that builds an operator from edges."""
  if e.kind != 'call' or not e.bound:
    return None
  n = (e.qual or '').split('.')[-1]
  b = e.bound
  if e.qual == QU + 'quantum_constructor' or n in ('QuOperator',):
    return {k: b.get(k) for k in ('out_edges', 'in_edges', 'ref_nodes',
                                  'ignore_edges')}
  if n == 'QuVector':
    return dict(out_edges=b.get('subsystem_edges'), in_edges=mk('list', ()),
                ref_nodes=b.get('ref_nodes'), ignore_edges=b.get(
                    'ignore_edges'))
  if n == 'QuAdjointVector':
    return dict(in_edges=b.get('subsystem_edges'), out_edges=mk('list', ()),
                ref_nodes=b.get('ref_nodes'), ignore_edges=b.get(
                    'ignore_edges'))
  return None


# operation -> (outputs, inputs, conjugate); operands by parameter position
SPEC = {
    'adjoint': ([(0, 'in')], [(0, 'out')], True),
    'partial_trace': ([(0, 'out')], [(0, 'in')], False),
    '__matmul__': ([(0, 'out')], [(1, 'in')], False),
    'tensor_product': ([(0, 'out'), (1, 'out')], [(0, 'in'), (1, 'in')], False),
}
OPERANDS = {'adjoint': 1, 'partial_trace': 1, '__matmul__': 2,
            'tensor_product': 2}
NAMES = {'out': 'outputs', 'in': 'inputs', 'ignore': 'ignored edges',
         'ref': 'reference nodes', 'all': 'nodes'}


def say(s, ops):
  out = []
  for k, o, c, sd, flt in s:
    who = ops.get(o, str(o))
    out.append({'img': 'images of the ', 'raw': '', 'new': 'replacements of ',
                'foreign': 'edges of another operand looked up as '}[k] +
               '%s of %s' % (NAMES.get(sd, sd), who) +
               (', some' if flt else ''))
  return '; '.join(out) or 'nothing'


def run(ctx, rep):
  prog = ctx.prog
  rep.rule('on-copies', 'edges joined and edges and nodes handed to a result '
           'are images under the copy of the operand, never its own')
  rep.rule('spaces', 'outputs, inputs, ignored edges and reference nodes of the '
           'result are those specified, complete and in operand order')
  rep.rule('conjugation', 'the adjoint conjugates every node, every other '
           'operation none')
  rep.rule('joins', 'composition joins inputs of the left with outputs of the '
           'right operand, a trace outputs with inputs of the same subsystems, '
           'after the spaces were compared')
  rep.rule('in-place', 'contraction in place maps every edge list and the '
           'reference nodes through the replacements of the same network')
  rep.rule('axis-order', 'evaluation orders the axes ignored edges, outputs, '
           'inputs')
  rep.rule('derived', 'projector, norm, trace and reduced density are composed '
           'of the operations that define them')
  base = prog.classes.get(QU + 'QuOperator')
  if base is None:
    return
  classes = [base] + list(prog.subclasses(base))
  for c in classes:
    for name, f in sorted(c.methods.items()):
      ps, _ = ctx.paths(f, rep=rep)
      _derived(rep, f, c.name, name, ps or [])
      if not ps or f.is_classmethod or name == '__init__':
        continue
      if name in ('contract', 'eval'):
        _inplace(rep, f, ps) if name == 'contract' else _eval(rep, f, ps)
        continue
      _operation(rep, f, name, ps)
  f = prog.funcs.get(QU + 'quantum_constructor')
  if f is not None:
    _dispatch(ctx, rep, f)
  f = prog.funcs.get(QU + 'eliminate_identities')
  if f is not None:
    _chains(ctx, rep, f)
  rep.floor('spaces', 8)


def _operation(rep, f, name, ps):
  params = [mk('param', f.qual, x) for x in f.params]
  ops = dict((p, n) for p, n in zip(params, f.params))
  inst = short(f.qual)
  for p in ps:
    if p.outcome != 'return':
      continue
    for e in p.events:
      b = makes(e)
      if b is not None:
        got = {}
        for k, t in b.items():
          s = segs(t) if isinstance(t, T) else []
          got[k] = s
          if s is None:
            rep.undecided('on-copies', '%s %s' % (inst, k), 'not traced')
            continue
          raw = [x for x in s if x[0] in ('raw', 'foreign') and x[1] in ops]
          rep.check('on-copies', '%s %s' % (inst, k), not raw,
                    'the result is given %s' % say(raw, ops), e.loc)
        if name in SPEC:
          _spaces(rep, inst, name, params, ops, got, e)
        if name == 'partial_trace':
          _kept(rep, inst, f, e, got, params)
      elif e.kind == 'xor' or e.kind == 'call' and (
          e.qual or '').split('.')[-1] in ('connect', 'disconnect',
                                           'remove_node', 'contract_between'):
        ends = [e.key, e.value] if e.kind == 'xor' else [
            v for v in (e.bound or {}).values() if isinstance(v, T)][:2]
        for t in ends:
          o = origin(t)
          if o is not None:
            rep.check('on-copies', inst + ' joins', not (
                o[0] == 'raw' and o[1] in ops), 'an edge of the operand itself '
                'is joined', e.loc)
    if name in ('__matmul__', 'partial_trace'):
      _joins(rep, inst, name, params, p)
    elif name in SPEC and any(e.kind == 'xor' for e in p.events):
      rep.bad('joins', inst, 'edges are joined', f.mod.rel + ':%d' % f.line)
    for e in p.events:
      if e.kind in ('setattr', 'delattr') and e.recv in ops:
        rep.bad('on-copies', inst + ' attribute', 'the operation stores into '
                'its operand (.%s)' % e.name, e.loc)


def _spaces(rep, inst, name, params, ops, got, e):
  outs, ins, conj = SPEC[name]
  n = OPERANDS[name]
  if len(params) < n:
    return
  for k, want in (('out_edges', outs), ('in_edges', ins)):
    s = got.get(k)
    if s is None:
      continue
    have = [(x[1], x[3]) for x in s]
    need = [(params[i], sd) for i, sd in want]
    rep.check('spaces', '%s %s' % (inst, k), have == need,
              'the %s of the result are %s instead of %s' % (
                  'outputs' if k[0] == 'o' else 'inputs', say(s, ops),
                  say([('img', a, None, b, None) for a, b in need], ops)),
              e.loc)
    flt = [x for x in s if x[4]]
    if name != 'partial_trace':
      rep.check('spaces', '%s %s complete' % (inst, k), not flt, 'some edges '
                'are left out', e.loc)
  for k, sds in (('ignore_edges', ('ignore',)), ('ref_nodes', ('all', 'ref'))):
    s = got.get(k)
    if s is None:
      continue
    for i in range(n):
      ok = any(x[1] is params[i] and x[3] in sds and not x[4] for x in s)
      rep.check('spaces', '%s %s' % (inst, k), ok, 'the %s of operand %s are '
                'lost' % (NAMES[sds[-1]], f'{ops[params[i]]}'), e.loc)
  cj = {x[2] for s in got.values() if s for x in s if x[0] == 'img'}
  if cj and None not in cj:
    rep.check('conjugation', inst, cj == {conj}, 'the network is copied %s' % (
        'without conjugation' if conj else 'with conjugation'), e.loc)


def _kept(rep, inst, f, e, got, params):
  """partial_trace keeps exactly the subsystems not traced."""
  for k in ('out_edges', 'in_edges'):
    for x in got.get(k) or ():
      if x[3] not in ('out', 'in') or not x[4]:
        if not x[4]:
          rep.bad('spaces', '%s %s complete' % (inst, k), 'the traced edges are '
                  'kept', e.loc)
        continue
      for c in x[4]:
        neg = False
        while c.op == 'not':
          c, neg = c.args[0], not neg
        if c.op == 'un' and c.args[0] == 'Not':
          c, neg = c.args[1], True
        if c.op == 'cmp' and c.args[0] == 'not in':
          neg = True
        elif not (c.op == 'cmp' and c.args[0] == 'in'):
          continue
        coll = c.args[2]
        while coll.op == 'call' and callee_name(coll) in LISTS and \
            len(coll.args[1]) == 1:
          coll = coll.args[1][0]
        o = side(coll.args[1].args[0]) if coll.op == 'comp' and \
            coll.args[1].op == 'item' else None
        if o is None or o[0] is not params[0] or callee_name(
            c.args[1]) is not None:
          continue
        if o[1] != x[3] or not neg:
          rep.bad('spaces', '%s %s complete' % (inst, k), 'the %s kept are '
                  'chosen by %s the traced %s' % (
                      NAMES[x[3]], 'not being among' if neg else 'being among',
                      NAMES.get(o[1], o[1])), e.loc)
        else:
          rep.ok('spaces', '%s %s complete' % (inst, k))


def _derived(rep, f, cls, name, ps):
  """Operations defined through others."""
  me = mk('param', f.qual, f.params[0])
  inst = short(f.qual)

  def base(t):
    if t is me:
      return 'self'
    if t.op == 'call' and callee_name(t) == 'adjoint' and \
        callee_recv(t) is me:
      return 'adjoint'
    if t.op == 'call' and callee_name(t) == 'projector' and \
        callee_recv(t) is me:
      return 'projector'
    if t.op == 'call' and callee_name(t) == '__matmul__':
      pos, kw = call_args(t)
      a, b = base(callee_recv(t)), base(kw.get('other', pos[0] if pos else me))
      return None if a is None or b is None else (a, b)
    return None
  for p in ps:
    if p.outcome != 'return' or p.value is None or p.value.op != 'call':
      continue
    v, n = p.value, callee_name(p.value)
    loc = f.mod.rel + ':%d' % f.line
    if name == 'projector':
      b = base(v)
      want = ('self', 'adjoint') if cls == 'QuVector' else ('adjoint', 'self')
      if b is not None:
        rep.check('derived', inst, b == want, 'the projector is composed as %s '
                  '@ %s' % tuple(b) if isinstance(b, tuple) else 'not composed',
                  loc)
    elif name == 'norm' and n == 'trace':
      b = base(callee_recv(v))
      if b is not None:
        rep.check('derived', inst, isinstance(b, tuple) and set(b) ==
                  {'self', 'adjoint'}, 'the norm is not the trace of the '
                  'operator with its adjoint', loc)
    elif name == 'reduced_density' and n == 'partial_trace':
      b = base(callee_recv(v))
      pos, kw = call_args(v)
      a = list(pos) + list(kw.values())
      if b is not None:
        rep.check('derived', inst, b == 'projector' or b == (
            ('self', 'adjoint') if cls == 'QuVector' else ('adjoint', 'self')),
                  'not the projector is traced', loc)
      if a and len(f.params) > 1:
        rep.check('derived', inst + ' subsystems', a[0] is mk(
            'param', f.qual, f.params[1]), 'other subsystems than requested '
            'are traced out', loc)
    elif name == 'trace' and n == 'partial_trace':
      pos, kw = call_args(v)
      a = (list(pos) + list(kw.values()))[:1]
      if a and callee_name(a[0]) == 'range':
        r = a[0].args[1]
        if len(r) == 2 and r[0] is const(0):
          r = r[1:]
        ok = len(r) == 1 and callee_name(r[0]) == 'len' and side(
            r[0].args[1][0]) is not None and side(
                r[0].args[1][0])[1] in ('in', 'out')
        rep.check('derived', inst, ok, 'not every subsystem is traced out', loc)


def _pairs(e):
  """Sides joined by an xor event: ((operand, side), ...) with selectors."""
  out = []
  for t in (e.key, e.value):
    o = origin(t)
    if o is None or o[0] != 'img' or not isinstance(o[3], T):
      return None
    k = o[3]
    sel = None
    if k.op == 'elem':
      src = k.args[0]
      s = side(src)
      if s is None and src.op == 'comp' and src.args[1].op == 'item':
        s = side(src.args[1].args[0])
        sel = src.args[2]
      elif s is None:
        return None
    elif k.op == 'item':
      s = side(k.args[0])
      sel = k.args[1]
    else:
      return None
    if s is None:
      return None
    out.append((s[0], s[1], sel, o[1]))
  return out


def _joins(rep, inst, name, params, p):
  xs = [e for e in p.events if e.kind == 'xor']
  if name == '__matmul__':
    need = {(params[0], 'in'), (params[1], 'out')}
  else:
    need = {(params[0], 'in'), (params[0], 'out')}
  seen = []
  for e in xs:
    pr = _pairs(e)
    turned = [x for t in (e.key, e.value) for x in walk(t)
              if x.op == 'elem' and (
                  callee_name(x.args[0]) in ('reversed', 'sorted') and
                  any(side(y) for y in x.args[0].args[1]) or
                  x.args[0].op == 'item' and x.args[0].args[1].op == 'slice'
                  and side(x.args[0].args[0]))]
    if pr is None and len(turned) == 1:
      rep.bad('joins', inst + ' same subsystem', 'one side is joined in '
              'another sequence than the other', e.loc)
      continue
    if pr is None:
      rep.undecided('joins', inst, 'join not traced')
      return
    have = {(a, b) for a, b, _, _ in pr}
    good = have == need and all(a is d for a, _, _, d in pr)
    rep.check('joins', inst, good, 'joined are %s with %s' % tuple(
        '%s of %s' % (NAMES[b], a) for a, b, _, _ in pr), e.loc)
    rep.check('joins', inst + ' same subsystem', pr[0][2] is pr[1][2],
              'the joined edges are selected differently', e.loc)
    seen.append(e)
    before = [x for x in p.events[:p.events.index(e)] if x.kind == 'call' and
              (x.qual or '').split('.')[-1] == 'check_spaces' and x.bound]
    ok = False
    for x in before:
      s = set()
      for v in x.bound.values():
        if not isinstance(v, T):
          continue
        d = side(v)
        if d is None and v.op == 'comp' and v.args[1].op == 'item':
          d = side(v.args[1].args[0])
        if d is not None:
          s.add(d)
      ok = ok or s == need
    dims = [t for t, _ in facts(p, e) if any(
        x.op == 'attr' and x.args[1] == 'dimension' for x in walk(t))]
    if ok:
      rep.ok('joins', inst + ' compared first')
    elif dims:
      rep.undecided('joins', inst + ' compared first', 'inline comparison')
    else:
      rep.bad('joins', inst + ' compared first', 'edges are joined although '
              'the spaces were not compared', e.loc)
  if not seen:
    rep.undecided('joins', inst, 'no join seen')


def _inplace(rep, f, ps):
  me = mk('param', f.qual, f.params[0])
  inst = short(f.qual)
  for p in ps:
    if p.outcome != 'return':
      continue
    stored = {}
    for e in p.events:
      if e.kind == 'setattr' and e.recv is me and e.name in SIDES:
        stored.setdefault(e.name, []).append(e)
    used = [e for e in p.events if e.kind == 'call' and
            (e.qual or '').split('.')[-1] == 'eliminate_identities']
    if not used:
      continue
    for k in ('out_edges', 'in_edges', 'ignore_edges'):
      if k not in stored:
        rep.bad('in-place', '%s %s' % (inst, k), 'the %s still name edges of '
                'the network before identities were removed' %
                NAMES[SIDES[k]], used[0].loc)
        continue
      s = segs(stored[k][-1].value)
      if s is None:
        rep.undecided('in-place', '%s %s' % (inst, k), 'not traced')
      else:
        good = [(x[0], x[1], x[3], x[4]) for x in s] == [
            ('new', me, SIDES[k], None)]
        rep.check('in-place', '%s %s' % (inst, k), good, 'the %s are set to %s'
                  % (NAMES[SIDES[k]], say(s, {me: 'self'})),
                  stored[k][-1].loc)
    for e in stored.get('ref_nodes', ())[:1]:
      s = segs(e.value)
      if s is None:
        rep.undecided('in-place', inst + ' ref_nodes', 'not traced')
      else:
        rep.check('in-place', inst + ' ref_nodes', len(s) == 1 and s[0][0] ==
                  'new' and not s[0][4], 'reference nodes that were eliminated '
                  'are dropped: a scalar without edges loses its network',
                  e.loc)
    for e in p.events:
      if e.kind == 'call' and e.kw:
        for n, v in e.kw:
          if n == 'output_edge_order' and isinstance(v, T):
            o = origin(v.args[1]) if v.op == 'comp' else None
            if o is not None and o[0] == 'new':
              rep.ok('in-place', inst + ' final order')
            elif v.op == 'param':
              rep.bad('in-place', inst + ' final order', 'the requested order '
                      'names edges of the network before identities were '
                      'removed', e.loc)


def _eval(rep, f, ps):
  me = mk('param', f.qual, f.params[0])
  inst = short(f.qual)
  for p in ps:
    for e in p.events:
      if e.kind != 'call' or (e.qual or '').split('.')[-1] != 'contract' or \
          not e.bound:
        continue
      o = e.bound.get('final_edge_order')
      if not isinstance(o, T) or o.op == 'param':
        continue
      s = segs(o)
      if s is None:
        rep.undecided('axis-order', inst, 'not traced')
        continue
      rep.check('axis-order', inst, [(x[1], x[3]) for x in s] == [
          (me, 'ignore'), (me, 'out'), (me, 'in')], 'the axes are ordered %s' %
                say(s, {me: 'self'}), e.loc)


def _dispatch(ctx, rep, f):
  """The class built fits the sides that are empty."""
  rep.rule('dispatch', 'the class of a result is decided by which of its sides '
           'are empty, and the other side is passed on')
  out, inn = [mk('param', f.qual, x) for x in f.params[:2]]
  for p in ctx.paths(f)[0] or []:
    if p.outcome != 'return':
      continue
    empty = {}
    for t, v in facts(p):
      for s, k in ((out, 'out'), (inn, 'in')):
        if t.op == 'cmp' and t.args[0] in ('==', '!=') and any(
            callee_name(x) == 'len' and x.args[1] == (s,) for x in t.args[1:]
            if isinstance(x, T)) and any(
                x is const(0) for x in t.args[1:]):
          empty[k] = (v if t.args[0] == '==' else not v)
        elif t is s:
          empty[k] = not v
    for e in p.events:
      b = makes(e)
      n = (e.qual or '').split('.')[-1] if e.kind == 'call' else ''
      if n == 'QuScalar':
        b = {}
      if b is None or not n.startswith('Qu'):
        continue
      need = {'QuScalar': (True, True), 'QuVector': (False, True),
              'QuAdjointVector': (True, False), 'QuOperator': (False, False)}[n]
      for k, w in zip(('out', 'in'), need):
        if k in empty:
          rep.check('dispatch', '%s for %s' % (short(f.qual), n),
                    empty[k] == w, '%s is built although the %s are %s' % (
                        n, NAMES[k], 'empty' if empty[k] else 'not empty'),
                    e.loc)
      for k, w in (('out_edges', out), ('in_edges', inn)):
        t = b.get(k)
        if isinstance(t, T) and t.op == 'param' and t is not w:
          rep.bad('dispatch', '%s for %s' % (short(f.qual), n), 'the %s of the '
                  'result are taken from the other side' % k, e.loc)


def _other_end(rep, f, k, v, e):
  """D[n[i]] = remove_node(n)[1][j] of an identity: the edge broken at axis j
  stands in for the dangling edge at the other axis."""
  def const_item(t):
    return t.op == 'item' and t.args[1].op == 'const' and isinstance(
        t.args[1].args[0], int)
  if not (const_item(k) and const_item(v)):
    return
  r = v.args[0]
  if not (const_item(r) and callee_name(r.args[0]) == 'remove_node' and
          any(x is k.args[0] for x in r.args[0].args[1] + tuple(
              w for _, w in r.args[0].args[2]))):
    return
  i, j = k.args[1].args[0], v.args[1].args[0]
  rep.check('chains', '%s axis %d' % (short(f.qual), j), i != j,
            'the edge broken from axis %d is recorded as the replacement of '
            'the same, connected axis' % j, e.loc)


def _chains(ctx, rep, f):
  """Replacements recorded while nodes are still being removed are followed."""
  rep.rule('chains', 'a replacement edge that is itself replaced when the next '
           'node is removed is followed to the edge that remains')
  ps = ctx.paths(f, rep=rep)[0] or []
  kept = {}
  followed = set()
  for p in ps:
    if p.outcome != 'return' or p.value is None:
      continue
    outs = p.value.args[0] if p.value.op == 'tuple' else (p.value,)
    for d in outs:
      for e in p.events:
        if e.kind != 'setitem' or e.recv is not d:
          continue
        v, k = e.value, e.key
        _other_end(rep, f, k, v, e)
        if any(x is d for x in walk(v)) or any(x is d for x in walk(k)):
          followed.add(d)
        elif e.loops and any(callee_name(x) == 'remove_node' for x in walk(v)
                             if x.op == 'call'):
          kept.setdefault(d, e)
  for d, e in kept.items():
    rep.check('chains', short(f.qual), d in followed, 'the edge recorded as '
              'replacement may disappear when a later node of the same loop is '
              'removed', e.loc)
