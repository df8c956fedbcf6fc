"""Charges, flows and leg order of symmetric tensors stay in step.

Every place where charges and flows travel together (constructor calls of
Index, ChargeArray and BlockSparseTensor; calls of functions that take both) is
brought to a normal form: which legs of which object, in which sequence, with
the flow kept or reversed.  The charge argument and the flow argument must
select the same legs; the order argument must come from the object the charges
come from; reversal of flows goes with conjugation or inversion of the data;
row and column halves of a block search carry opposite reversal; elementwise
arithmetic runs only behind the comparison of the operands."""
from ..terms import T, mk, const, NONE, walk, subst
from ..lib import short, callee_name, callee_recv, facts, call_args

ASSUMPTIONS = [
    'attributes _charges/_flows of one object describe the same elementary '
    'legs (established by the constructors, which this check covers)'
]
BS = 'tensornetwork.block_sparse.'
MODS = tuple(BS + m for m in (
    'blocksparsetensor', 'linalg', 'initialization', 'index',
    'blocksparse_utils', 'charge')) + (
        'tensornetwork.backends.symmetric.decompositions',
        'tensornetwork.backends.symmetric.symmetric_backend')
COPY = {'list', 'tuple', 'asarray', 'array', 'copy', 'deepcopy'}
PAIRS = {'_charges': 'LEGS', '_flows': 'LEGS', 'flat_charges': 'FLAT',
         'flat_flows': 'FLAT', 'charges': 'PUB', 'flows': 'PUB',
         'flow': 'LEGS'}
META = {'get_flat_meta_data': {0: 'LEGS', 1: 'LEGS'},
        '_data_initializer': {1: 'LEGS', 2: 'LEGS'}}


def _erase1(x):
  """One step of the normal form: forget whether we speak of charges or flows."""
  if x.op == 'attr' and x.args[1] in PAIRS:
    return mk('attr', x.args[0], PAIRS[x.args[1]])
  if x.op == 'param' and x.args[1] in ('charges', 'flows'):
    return mk('param', x.args[0], 'LEGS')
  if x.op == 'item' and x.args[0].op == 'call' and x.args[1].op == 'const':
    m = META.get(callee_name(x.args[0]))
    if m and x.args[1].args[0] in m:
      return mk('attr', x.args[0], m[x.args[1].args[0]])
  if x.op == 'call':
    pos, kw = call_args(x)
    n = callee_name(x)
    if n in COPY and len(pos) == 1 and set(kw) <= {'dtype'}:
      return pos[0]
    if n == 'copy' and not pos and not kw:
      r = callee_recv(x)
      if r is not None:
        return r
  if x.op == 'comp' and len(x.args) >= 3:
    body, src = x.args[1], x.args[2]
    if body.op == 'elem' and body.args[0] is src and not x.args[3]:
      return src
    if body.op == 'item' and body.args[1].op == 'elem' and \
        body.args[1].args[0] is src and not x.args[3]:
      return mk('item', body.args[0], src)
  return x


def erase(t):
  return subst(t, _erase1)


def _neg(t):
  """(inner, True) if t reverses flows elementwise."""
  if t.op == 'call' and callee_name(t) == 'logical_not':
    pos, _ = call_args(t)
    if len(pos) == 1:
      return pos[0]
  if t.op == 'un' and t.args[0] in ('Not', 'Invert'):
    return t.args[1]
  if t.op == 'not':
    return t.args[0]
  return None


def segments(t, parity=0):
  """Normal form of a charge or flow list: [(legs, reversed)] or None.

  legs is an erased term, or ('new', term) for a single element written out."""
  i = _neg(t)
  if i is not None:
    return segments(i, parity ^ 1)
  if t.op == 'call':
    pos, kw = call_args(t)
    n = callee_name(t)
    if n in COPY and len(pos) == 1:
      return segments(pos[0], parity)
    if n == 'copy' and not pos and callee_recv(t) is not None:
      return segments(callee_recv(t), parity)
    if n in ('append', 'concatenate', 'hstack'):
      parts = pos if n == 'append' else (
          pos[0].args if len(pos) == 1 and pos[0].op in ('list', 'tuple')
          else None)
      if parts:
        if len(parts) == 1 and isinstance(parts[0], tuple):
          parts = parts[0]
        out = [segments(x, parity) for x in parts]
        return None if None in out else sum(out, [])
  if t.op == 'bin' and t.args[0] == 'Add':
    a, b = segments(t.args[1], parity), segments(t.args[2], parity)
    return None if a is None or b is None else a + b
  if t.op in ('list', 'tuple'):
    out = []
    els = t.args[0] if len(t.args) == 1 and isinstance(t.args[0], tuple) \
        else t.args
    for x in els:
      if x.op == 'star':
        s = segments(x.args[0], parity)
        if s is None:
          return None
        out += s
        continue
      i, q = _neg(x), parity
      if i is not None:
        x, q = i, q ^ 1
      e = erase(x)
      if e.op == 'item' and known(e):
        out.append((e, q))
      else:
        out.append((('new', x), q))
    return out
  if t.op in ('comp', 'flat') and len(t.args) >= 3:
    body, src = t.args[1], t.args[2]
    i = _neg(body)
    if i is not None:
      return segments(mk(t.op, t.args[0], i, *t.args[2:]), parity ^ 1)
    if t.op == 'comp' and body.op == 'elem' and body.args[0] is src and \
        not t.args[3]:
      return segments(src, parity)
    if t.op == 'comp' and body.op == 'call' and callee_name(body) == 'copy':
      return segments(mk('comp', t.args[0], callee_recv(body), *t.args[2:]),
                      parity)
  e = erase(t)
  # a reversal buried deeper than the forms above is not understood
  if any(callee_name(x) in ('logical_not',) for x in walk(t)
         if x.op == 'call'):
    if not _meta_free(e):
      return None
  return [(e, parity)]


def _meta_free(e):
  """The reversal sits in an argument of a call whose result is opaque."""
  def outside(x):
    if x.op == 'call' and callee_name(x) == 'logical_not':
      return True
    if x.op == 'call':
      return False
    return any(outside(a) for a in _kids(x))
  return not outside(e)


def _kids(x):
  out = []
  for a in x.args:
    if isinstance(a, T):
      out.append(a)
    elif isinstance(a, tuple):
      out += [b for b in a if isinstance(b, T)]
  return out


def known(e):
  """The term is a selection of legs we understand (rooted in LEGS/FLAT)."""
  if e.op in ('attr', 'param'):
    return e.args[1] in ('LEGS', 'FLAT', 'PUB')
  if e.op == 'item':
    return known(e.args[0])
  if e.op in ('comp', 'flat'):
    return known(e.args[1])
  if e.op == 'elem':
    return known(e.args[0])
  return False


def roots(e):
  """Objects whose legs are selected."""
  out = []
  for x in walk(e):
    if x.op == 'attr' and x.args[1] in ('LEGS', 'FLAT', 'PUB'):
      out.append(x.args[0])
  return out


def compare(c, f):
  """(verdict, message): charges term against flows term."""
  a, b = segments(c), segments(f)
  if a is None or b is None:
    return None, 'not in a known form'
  if any(q for _, q in a):
    return None, 'reversed charges'
  if len(a) != len(b):
    if len(a) == 1 and len(b) == 1:
      pass
    return None, 'different shapes'
  for (x, _), (y, _) in zip(a, b):
    nx, ny = isinstance(x, tuple), isinstance(y, tuple)
    if nx and ny:
      continue
    if nx != ny:
      o = y if nx else x
      if known(o):
        return False, 'a new leg stands against legs of another object'
      return None, 'one side opaque'
    if x is y:
      continue
    if known(x) and known(y):
      return False, 'charges of %s, flows of %s' % (x, y)
    return None, 'opaque'
  return True, ''


def family(prog):
  out = set()
  for b in ('blocksparsetensor.ChargeArray', 'index.Index'):
    c = prog.classes.get(BS + b)
    if c is not None:
      out |= {c.qual} | {x.qual for x in prog.subclasses(c)}
  return out


def builds(e, fam, f):
  """Arguments of a call that builds a symmetric tensor or an Index."""
  if e.kind != 'call':
    return None
  if e.qual in fam and e.bound is not None:
    out = {k: v for k, v in e.bound.items() if k not in (e.defaulted or ())}
    out['_cls'] = e.qual.split('.')[-1]
    return out
  t = e.res
  if not isinstance(t, T) or t.op != 'call':
    return None
  by_type = (t.args[0].op == 'call' and callee_name(t.args[0]) == 'type') or \
      callee_name(t) == '__class__'
  if by_type:
    if f.mod.name == BS + 'charge':
      return None
  else:
    if callee_name(t) != '__init__':
      return None
    r = callee_recv(t)
    if r is None or r.op != 'call' or callee_name(r) != '__new__':
      return None
  pos, kw = call_args(t)
  if any(x.op == 'attr' and x.args[1] == 'charge_types' for x in pos):
    return None  # a charge, not a tensor
  out = dict(zip(('data', 'charges', 'flows', 'order'), pos))
  out.update(kw)
  if 'charges' not in out or not ('flows' in out or 'flow' in out):
    return None
  out['_cls'] = 'tensor'
  return out


def run(ctx, rep):
  prog = ctx.prog
  fam = family(prog)
  rep.rule('legs-in-step', 'charges and flows handed over together select the '
           'same legs of the same object in the same sequence')
  rep.rule('order-of-same', 'a tensor built on the legs of another one also '
           'takes its leg order from it')
  rep.rule('reversal', 'flows are reversed only together with conjugation, '
           'inversion or a dual index, and always by those')
  rep.rule('block-parity', 'one half of a block search reverses the flows the '
           'other half keeps; equal selections are reversed alike')
  rep.rule('bond-flow', 'the new leg of a factor is outgoing next to row legs '
           'and ingoing next to column legs')
  rep.rule('dtype-of-all', 'a result made of several tensors has a data type '
           'that takes all of them into account')
  rep.rule('own-axes', 'legs of an operand are selected by the axes given for '
           'this operand and by its own leg order')
  takes = {}
  for q, f in prog.funcs.items():
    a = set(f.all_params())
    if {'charges', 'flows'} <= a:
      takes[q] = f
  names = {q.split('.')[-1] for q in takes}
  for q, f in sorted(prog.funcs.items()):
    if f.mod.name not in MODS:
      continue
    ps, _ = ctx.paths(f)
    rep.saw(f)
    done = set()
    parity = {}
    for p in ps or []:
      for e in p.events:
        b = builds(e, fam, f)
        if b is not None:
          site = tuple(sorted((k, v) for k, v in b.items()
                              if isinstance(v, T)), )
          site = (e.line, tuple(x[0] for x in site),
                  tuple(id(x[1]) for x in site))
          if site in done:
            continue
          done.add(site)
          _construct(rep, f, p, e, b)
        elif e.kind == 'call' and e.bound and e.qual and \
            e.qual.split('.')[-1] == 'intersect':
          _halves(rep, f, e, names)
        elif e.kind == 'call' and e.qual in takes and e.bound and \
            'charges' in e.bound and 'flows' in e.bound:
          c, fl = e.bound['charges'], e.bound['flows']
          if not (isinstance(c, T) and isinstance(fl, T)):
            continue
          k = (e.line, e.qual, id(c), id(fl))
          if k not in done:
            done.add(k)
            _pair(rep, f, e, c, fl, e.qual.split('.')[-1])
            if 'order' in e.bound or 'partition' in e.bound:
              _blocks(rep, f, e)
          s = segments(fl)
          if s and len(s) == 1 and isinstance(s[0][0], T) and \
              known(s[0][0]) and s[0][0].op in ('item', 'comp'):
            parity.setdefault(s[0][0], {})[s[0][1]] = e
    _parity(rep, f, parity, ps or [], takes)
  _guards(ctx, rep)
  _own_axes(ctx, rep)
  rep.floor('legs-in-step', 30)
  rep.floor('order-of-same', 12)


def _pair(rep, f, e, c, fl, what):
  inst = '%s %s' % (short(f.qual), what)
  v, msg = compare(c, fl)
  if v is None:
    rep.undecided('legs-in-step', inst, msg)
  elif v:
    rep.ok('legs-in-step', inst)
  else:
    rep.bad('legs-in-step', inst,
            'the charges and the flows handed over belong to different legs: '
            + str(msg)[:300], e.loc)
  return v


def _construct(rep, f, p, e, b):
  c = b.get('charges')
  fl = b.get('flows', b.get('flow'))
  if not (isinstance(c, T) and isinstance(fl, T)):
    return
  inst = short(f.qual)
  loc = e.loc
  if _pair(rep, f, e, c, fl, b['_cls']) is not True:
    return
  _reversal(rep, f, p, e, b)
  _bond(rep, f, e, b)
  cs, fs = segments(c), segments(fl)
  legs = [x for x, _ in cs if isinstance(x, T)]
  objs = []
  for x in legs:
    for r in roots(x):
      if r not in objs:
        objs.append(r)
  if b['_cls'] == 'Index' or not objs:
    return
  d = b.get('data')
  if len(objs) > 1 and isinstance(d, T):
    buf = [x for x in walk(d) if x.op == 'call' and callee_name(x) in
           ('zeros', 'empty', 'ones')]
    for x in buf[:1]:
      dt = call_args(x)[1].get('dtype')
      if dt is None:
        continue
      lost = [y for y in objs if not any(
          z is y for z in walk(erase(dt)))]
      rep.check('dtype-of-all', inst, not lost or not any(
          z.op == 'attr' and z.args[1] == 'dtype' for z in walk(dt)),
          'the data type of the result ignores an operand', e.loc)
  o = b.get('order')
  if o is None or o is NONE:
    if all(_flat_made(r) for r in objs):
      rep.ok('order-of-same', inst)
    elif any(x.op == 'attr' and x.args[1] == 'LEGS' for x in legs):
      rep.bad('order-of-same', inst,
              'the legs of an existing tensor are taken over without its leg '
              'order: merged or permuted legs are lost', loc)
    else:
      rep.undecided('order-of-same', inst, 'no order')
    return
  mine = [x.args[0] for x in walk(erase(o)) if x.op == 'attr' and x.args[1] in
          ('_order', 'flat_order', 'ndim', 'LEGS', 'FLAT', 'PUB')]
  mine += [x.args[0] for x in walk(erase(o)) if x.op == 'item' and
           x.args[0].op == 'call' and
           callee_name(x.args[0]) == '_data_initializer']
  objs = [erase(x) for x in objs]
  opaque = [x for x in walk(o) if x.op in ('lc', 'lv', 'free')]
  if len(legs) == 1 and legs[0].op == 'attr' and \
      legs[0].args[1] == 'LEGS' and not _ordered(o) and \
      any(x is objs[0] for x in mine) and not _flat_made(objs[0]):
    rep.bad('order-of-same', inst, 'the legs of an existing tensor are taken '
            'over in natural order instead of its leg order', loc)
  elif all(any(x is y for y in mine) for x in objs):
    if len(objs) == 1 and any(y is not objs[0] for y in mine) and \
        [y for y in mine if _tensorlike(y) and not
         any(z is y for z in walk(objs[0])) and not
         any(z is objs[0] for z in walk(y))]:
      rep.undecided('order-of-same', inst, 'order mentions another object')
    else:
      rep.ok('order-of-same', inst)
  elif mine and isinstance(d, T) and d.op == 'bin' and all(any(
      x.op == 'attr' and x.args[1] == 'data' and erase(x.args[0]) is y
      for x in walk(d)) for y in mine + objs):
    rep.undecided('order-of-same', inst, 'operands of an elementwise '
                  'operation share their legs')
  elif mine and not opaque:
    rep.bad('order-of-same', inst, 'the legs come from %s, the leg order from '
            '%s' % (objs, mine), loc)
  else:
    rep.undecided('order-of-same', inst, 'order not understood')


def _ordered(o):
  return any(x.op == 'attr' and x.args[1] in ('_order', 'flat_order') or
             x.op == 'item' and callee_name(x.args[0]) == '_data_initializer'
             or x.op in ('lc', 'lv', 'free') for x in walk(o))


def _tensorlike(y):
  return y.op in ('param', 'self')


def _flat_made(r):
  return r.op == 'call' and callee_name(r) == 'contiguous'


def _halves(rep, f, e, takes):
  """intersect(row charges, column charges): opposite reversal."""
  args = [v for v in (e.bound.get('A'), e.bound.get('B')) if isinstance(v, T)]
  if len(args) != 2:
    return
  par = []
  for a in args:
    found = []
    for x in walk(a):
      if x.op == 'call' and callee_name(x) in takes and \
          not callee_name(x).startswith('_find'):
        kw = call_args(x)[1]
        s = segments(kw['flows']) if 'flows' in kw else None
        if s and len(s) == 1 and isinstance(s[0][0], T) and known(s[0][0]):
          found.append(s[0][1])
    if len(set(found)) != 1:
      return
    par.append(found[0])
  rep.check('block-parity', short(f.qual) + ' rows against columns',
            par[0] != par[1], 'the charges of rows and columns are matched '
            'without reversing the flows of one side: the blocks found are '
            'not charge neutral', e.loc)


def _parity(rep, f, parity, paths, takes):
  for sel, seen in parity.items():
    inst = '%s' % short(f.qual)
    if len(seen) > 1:
      e = seen[1]
      rep.bad('block-parity', inst,
              'the flows of the same legs are once kept and once reversed',
              e.loc)
    else:
      rep.ok('block-parity', inst)


REV = {'conj', 'conjugate', 'inv', 'pinv'}


def _reversal(rep, f, p, e, b):
  """Whole-tensor results: flows reversed iff data conjugated or inverted."""
  cs, fs = segments(b['charges']), segments(b.get('flows', b.get('flow')))
  if not cs or not fs:
    return
  if len(fs) > 1 and b['_cls'] != 'Index':
    for y, q in fs:
      if q and isinstance(y, T) and not any(
          z is y and not r for z, r in fs):
        rep.bad('reversal', short(f.qual), 'the flows of some legs are '
                'reversed, those of the others are kept', e.loc)
  if len(cs) != 1 or not isinstance(cs[0][0], T):
    return
  x = cs[0][0]
  if x.op != 'attr' or x.args[1] not in ('LEGS',) or fs[0][0] is not x:
    return
  inst = short(f.qual)
  rev = fs[0][1]
  if b['_cls'] == 'Index':
    want = f.name in ('flip_flow', 'conj', 'dual')
    if rev and not want:
      rep.bad('reversal', inst, 'the flow is reversed although only %s may do '
              'that' % 'flip_flow', e.loc)
    elif want and not rev:
      rep.bad('reversal', inst, 'the flow is kept', e.loc)
    else:
      rep.ok('reversal', inst)
    return
  d = b.get('data')
  named = [y for y in (walk(d) if isinstance(d, T) else ())
           if y.op == 'call' and callee_name(y) in REV]
  later = [y for y in p.events if y.kind == 'call' and isinstance(y.res, T) and
           callee_name(y.res) in REV]
  if rev and not named and not later:
    rep.bad('reversal', inst, 'flows are reversed, the data are neither '
            'conjugated nor inverted', e.loc)
  elif not rev and (named or [y for y in later if callee_name(y.res) in
                              ('inv', 'pinv')]):
    rep.bad('reversal', inst, 'the data are conjugated or inverted, the flows '
            'are kept', e.loc)
  else:
    rep.ok('reversal', inst)


def _bond(rep, f, e, b):
  """The new leg of a factor: outgoing (True) next to row legs, ingoing next to
  column legs."""
  cs, fs = segments(b['charges']), segments(b.get('flows', b.get('flow')))
  if not cs or not fs or len(cs) != 2 or len(fs) != 2:
    return
  new = [i for i in (0, 1) if isinstance(fs[i][0], tuple)]
  if len(new) != 1:
    return
  fl, q = fs[new[0]]
  old = fs[1 - new[0]][0]
  flow = fl[1]
  if flow.op != 'const' or not isinstance(flow.args[0], bool) or \
      not isinstance(old, T):
    return
  val = flow.args[0] ^ bool(q)
  if fs[1 - new[0]][1]:
    return
  src = old.args[1] if old.op == 'item' else (
      old.args[2] if old.op == 'comp' else None)
  if src is None or src.op != 'item' or src.args[0].op != 'attr' or \
      src.args[0].args[1] != '_order' or src.args[1].op != 'const':
    return
  k = src.args[1].args[0]
  x = src.args[0].args[0]
  # the charges of the new leg must be block charges of the same matrix
  ch = cs[new[0]][0]
  blocks = [y for y in walk(ch[1] if isinstance(ch, tuple) else ch)
            if y.op == 'call' and (callee_name(y) or '').startswith('_find_')]
  inst = '%s' % short(f.qual)
  if not blocks or not all(any(z is x for z in walk(erase(y)))
                           for y in blocks):
    rep.undecided('bond-flow', inst, 'origin of the bond charge')
    return
  o = b.get('order')
  if isinstance(o, T):
    ks = {y.args[1].args[0] for y in walk(erase(o)) if y.op == 'item' and
          y.args[0] is src.args[0] and y.args[1].op == 'const'}
    if ks and k not in ks:
      rep.bad('order-of-same', inst, 'legs of %s, leg order counted on %s' %
              ('rows' if k == 0 else 'columns',
               'rows' if 0 in ks else 'columns'), e.loc)
  rep.check('bond-flow', inst, val == (k == 0), 'the new leg next to the %s '
            'legs has flow %s: the factor is not charge conserving' % (
                'row' if k == 0 else 'column', val), e.loc)


def _blocks(rep, f, e):
  """Block searches: order and partition belong to the tensor searched."""
  b = e.bound
  c = b['charges']
  s = segments(c)
  if not s or len(s) != 1 or not isinstance(s[0][0], T) or not known(s[0][0]):
    return
  x = s[0][0]
  rs = roots(x)
  if not rs:
    return
  inst = '%s %s' % (short(f.qual), e.qual.split('.')[-1])
  part = b.get('tr_partition', b.get('partition'))
  order = b.get('order')
  if 'order' in (e.defaulted or ()):
    order = None
  if order is not None and order is not NONE:
    mine = [y.args[0] for y in walk(erase(order)) if y.op == 'attr' and
            y.args[1] in ('_order', 'flat_order', 'LEGS', 'FLAT')]
    if x.op == 'attr' and x.args[1] == 'LEGS' and not _ordered(order) and \
        any(y is rs[0] for y in mine) and not _flat_made(rs[0]):
      rep.bad('order-of-same', inst, 'the blocks are searched in storage order '
              'instead of leg order', e.loc)
    elif mine and not any(y is r for y in mine for r in rs):
      rep.bad('order-of-same', inst, 'legs of %s are searched in the order of '
              '%s' % (rs, mine), e.loc)
    else:
      rep.ok('order-of-same', inst)
  elif isinstance(part, T) and x.op == 'attr' and x.args[1] == 'LEGS' and any(
      y.op == 'attr' and y.args[1] == '_order' and y.args[0] is rs[0]
      for y in walk(erase(part))) and not _flat_made(rs[0]):
    rep.bad('order-of-same', inst, 'the partition counts legs in leg order, '
            'the search runs in storage order', e.loc)


def _facts_of(ctx, e, depth=1):
  """Refusals established by a called procedure on every normal return."""
  g = ctx.prog.funcs.get(e.qual)
  if g is None or e.bound is None:
    return []
  ps, _ = ctx.paths(g)
  ps = [p for p in ps or [] if p.outcome == 'return']
  if not ps or not any(True for p in ps):
    return []
  sets = [dict(((t, v), 1) for t, v in facts(p)) for p in ps]
  common = [k for k in sets[0] if all(k in s for s in sets[1:])]

  def put(x):
    if x.op == 'param' and x.args[0] == g.qual and x.args[1] in e.bound and \
        isinstance(e.bound[x.args[1]], T):
      return e.bound[x.args[1]]
    return x
  return [(subst(t, put), v) for t, v in common]


def _before(ctx, p, upto):
  out = list(facts(p, upto))
  for e in p.events:
    if e is upto:
      break
    if e.kind == 'call' and e.qual in ctx.prog.funcs:
      out += _facts_of(ctx, e)
  return out


def _guards(ctx, rep):
  rep.rule('guard', 'data of two tensors are combined only after their legs '
           'were compared')
  prog = ctx.prog
  fam = family(prog)
  for name in ('__add__', '__sub__'):
    f = prog.funcs.get(BS + 'blocksparsetensor.BlockSparseTensor.' + name)
    if f is None:
      continue
    me, other = [mk('param', f.qual, x) for x in f.params[:2]]
    for p in ctx.paths(f)[0] or []:
      for e in p.events:
        b = builds(e, fam, f)
        if b is None or not isinstance(b.get('data'), T):
          continue
        d = b['data']
        if d.op != 'bin' or d.args[0] not in ('Add', 'Sub'):
          continue
        if d.args[1] is not mk('attr', me, 'data') and \
            d.args[2] is not mk('attr', other, 'data'):
          if name == '__sub__' and d.args[1] is mk('attr', other, 'data') and \
              d.args[2] is mk('attr', me, 'data'):
            rep.bad('guard', 'operands of ' + name, 'the operands of the '
                    'subtraction are exchanged', e.loc)
          continue
        fs = _before(ctx, p, e)
        def both(attrs):
          return any(all(any(x.op == 'attr' and x.args[1] in attrs and
                             x.args[0] is o for x in walk(t))
                         for o in (me, other)) for t, _ in fs)
        legs = both(('sparse_shape',)) or (
            both(('_charges', 'flat_charges', 'charges')) and
            both(('_flows', 'flat_flows', 'flows')))
        rep.check('guard', 'legs compared in ' + name, legs, 'data are '
                  'combined although charges and flows of the operands were '
                  'not compared', e.loc)
        lay = both(('flat_order', '_order')) or _aligned(ctx, p, e, me, other)
        rep.check('guard', 'layout aligned in ' + name, lay, 'data are '
                  'combined although the storage layouts of the operands were '
                  'not aligned', e.loc)
  f = prog.funcs.get(BS + 'blocksparsetensor.tensordot')
  if f is not None and len(f.params) >= 2:
    a, b2 = [mk('param', f.qual, x) for x in f.params[:2]]
    for p in ctx.paths(f)[0] or []:
      for e in p.events:
        b = builds(e, fam, f)
        if b is None:
          continue
        fs = _before(ctx, p, e)

        fs = [(subst(t, _nolen), v) for t, v in fs]

        def says(pred):
          return any(pred(t) and any(x is a for x in walk(t)) and
                     any(x is b2 for x in walk(t)) for t, _ in fs)
        fl = says(lambda t: any(x.op == 'attr' and x.args[1] in
                                ('_flows', 'flat_flows', 'flows')
                                for x in walk(t)))
        ch = says(lambda t: any(x.op == 'attr' and x.args[1] in
                                ('_charges', 'flat_charges', 'charges')
                                for x in walk(t)))
        rep.check('guard', 'flows compared in tensordot', fl, 'legs are '
                  'contracted although their flows were not compared', e.loc)
        rep.check('guard', 'charges compared in tensordot', ch, 'legs are '
                  'contracted although their charges were not compared', e.loc)


def _nolen(x):
  if x.op == 'call' and callee_name(x) in ('len', 'shape', 'isinstance') or \
      x.op == 'attr' and x.args[1] in ('dim', 'ndim', 'shape', 'dtype'):
    return const('size')
  return x


def _aligned(ctx, p, upto, me, other):
  for e in p.events:
    if e is upto:
      return False
    if e.kind != 'call':
      continue
    if e.qual and e.qual.split('.')[-1] == 'contiguous':
      return True
    g = ctx.prog.funcs.get(e.qual)
    if g is None or not e.bound:
      continue
    vals = [v for v in e.bound.values() if isinstance(v, T)]
    if not (any(v is me for v in vals) and any(v is other for v in vals)):
      continue
    for q in ctx.paths(g)[0] or []:
      if any(x.kind == 'call' and isinstance(x.res, T) and
             callee_name(x.res) == 'contiguous' for x in q.events):
        return True
  return False


LEGS = ('_order', '_charges', '_flows', 'charges', 'flows', 'shape',
        'sparse_shape', 'flat_charges', 'flat_flows', 'flat_order')


def _owner(t, f):
  """The parameter whose leg data the term is."""
  leg = None
  while t.op in ('attr', 'item'):
    if t.op == 'attr' and t.args[1] in LEGS:
      leg = t.args[1]
    t = t.args[0]
  if leg and t.op == 'param' and t.args[0] == f.qual:
    return t.args[1]
  return None


def _own_axes(ctx, rep):
  """Selections out of the leg data of a parameter."""
  for q, f in sorted(ctx.prog.funcs.items()):
    if f.mod.name not in MODS or ctx.is_new(f):
      continue
    ops = f.user_params()
    pair = ops[:2] if 'axes' in ops and len(ops) >= 3 else None
    seen = set()
    for p in ctx.paths(f)[0] or []:
      if p.outcome != 'return':
        continue
      for e in p.events:
        if e.kind == 'fact':
          continue
        if e.kind == 'call' and isinstance(e.recv, T) and \
            e.recv.op == 'param' and e.name == 'transpose' and e.bound:
          o = e.bound.get('order')
          if isinstance(o, T):
            _select(rep, f, e, e.recv.args[1], o, pair)
        for a in _all(e):
          for x in walk(a, seen):
            if x.op != 'item' or not isinstance(x.args[1], T):
              continue
            me = _owner(x.args[0], f)
            if me is not None:
              _select(rep, f, e, me, x.args[1], pair)


def _all(e):
  todo = [e.recv, e.value, e.key, e.res, e.pos, e.kw]
  while todo:
    a = todo.pop()
    if isinstance(a, T):
      yield a
    elif isinstance(a, (tuple, list)):
      todo.extend(a)
    elif isinstance(a, dict):
      todo.extend(a.values())


def _noidx(x):
  return const('position') if x.op == 'idx' else _nolen(x)


def _select(rep, f, e, me, key, pair):
  inst = '%s selection of legs of %s' % (short(f.qual), me)
  named, others, axes = False, set(), set()
  for y in walk(subst(key, _noidx)):
    if y.op == 'param' and y.args[0] == f.qual and y.args[1] == me:
      named = True
    o = _owner(y, f) if y.op == 'attr' else None
    if o is not None and o != me:
      others.add(o)
    if y.op == 'item' and y.args[0].op == 'param' and \
        y.args[0].args[1] == 'axes' and y.args[1].op == 'const':
      axes.add(y.args[1].args[0])
  if others and not named:
    rep.bad('own-axes', inst, 'the legs of %s are selected by data of %s' %
            (me, sorted(others)[0]), e.loc)
  elif pair and me in pair and axes and pair.index(me) not in axes and \
      axes <= {0, 1}:
    rep.bad('own-axes', inst, 'the legs of %s are selected by axes[%d]' %
            (me, sorted(axes)[0]), e.loc)
  else:
    rep.ok('own-axes', inst)
