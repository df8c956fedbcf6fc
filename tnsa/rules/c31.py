"""Labels of intermediate results in ncon. Every list of labels, positions and
sizes is read as a sequence of groups of labels (order plus membership table
over the operands' label lists and the batch labels); the permutation, the
matrix shapes, the result shape and the labels recorded for the result must
run over the same groups, and the tables of tensors and labels are taken from
and extended in step."""
import ast
from ..terms import walk, mk
from ..lib import P, callee_name, call_arg, feasible, facts
from ..guards import Env, UNK
from .. import labels as L

ASSUMPTIONS = ['no label occurs twice on one operand of a pairwise step '
               '(repeated labels are collapsed or traced first)']
M = 'tensornetwork.ncon_interface.'


def is_call(t, name):
  return callee_name(t) == name


def run(ctx, rep):
  rep.rule('covers', 'the permutation of an operand takes every axis exactly '
           'once')
  rep.rule('sizes', 'the matrix form of an operand has the sizes of the axes '
           'it groups, in order')
  rep.rule('joined', 'paired axes carry the same labels in the same order on '
           'both operands')
  rep.rule('survivors', 'a label leaves the result exactly if it is shared and '
           'not a batch label (traced exactly if it is repeated)')
  rep.rule('recorded', 'the labels recorded for a result are those of its axes, '
           'in order')
  rep.rule('tables', 'tensors and label lists are taken and recorded in step')
  rep.rule('remaining', 'exactly the contracted labels leave the contraction '
           'order')
  rep.rule('classes', 'batch labels are exactly those that occur more than '
           'twice, or twice and open; summed alone are those that occur once '
           'and are closed')
  batch(ctx, rep)
  classes(ctx, rep)
  deleted(ctx, rep)
  trace(ctx, rep)
  main(ctx, rep)
  builder(ctx, rep)
  rep.floor('recorded', 2)


CASES = [(n, l) for n in (1, 2, 3, 4, 5) for l in (-3, 3)]


def counted(t):
  """The count(..) of an element in a condition, and the element."""
  for x in walk(t):
    if callee_name(x) == 'count' and len(x.args[1]) == 1 and \
        x.args[1][0].op == 'elem':
      return x, x.args[1][0]
  return None


def judge(rep, inst, got, loc):
  """got: (occurrences, label) -> is it selected. Which class of labels it is
  follows from one of its members; the class must be met exactly."""
  if None in got.values():
    rep.undecided('classes', inst, 'condition')
    return
  rest = any(got[n, l] for n in (3, 4, 5) for l in (-3, 3)) or got[2, -3]
  once = got[1, 3]
  if rest == once:
    rep.undecided('classes', inst, 'class of labels')
    return
  if rest:
    want = {(n, l): n > 2 or (n == 2 and l < 0) for n, l in CASES}
  else:
    want = {(n, l): n == 1 and l > 0 for n, l in CASES}
  bad = [k for k in CASES if got[k] != want[k]]
  if bad:
    n, l = bad[0]
    rep.bad('classes', inst, 'an %s label that occurs %d times is %s' % (
        'open' if l < 0 else 'closed', n, (
            'treated as a batch label' if rest else 'summed over') if got[
                bad[0]] else ('not treated as a batch label' if rest else
                              'not summed over')), loc)
  else:
    rep.ok('classes', inst)


def classes(ctx, rep):
  f = ctx.prog.funcs.get(M + '_jittable_ncon')
  if f is None:
    rep.undecided('classes', '_jittable_ncon', 'missing')
    return
  loc = '%s:%d' % (f.file, f.line)
  ps, _ = ctx.paths(f, rep=rep)
  comps = {}
  chosen, open_ = {}, {}
  for p in ps or ():
    if p.outcome != 'return':
      continue
    fs = list(facts(p))
    for t in [e.bound.get('batch_labels') for e in p.events if e.kind == 'call'
              and e.bound and e.bound.get('batch_labels') is not None] + [
                  t for t, _ in fs]:
      for x in walk(t):
        if x.op == 'comp' and x.args[3] and x.args[1].op == 'elem':
          comps.setdefault(x)
    # labels collected one by one under a test of their number
    own = {}
    for t, v in fs:
      if t.op not in ('cmp', 'boolop', 'not'):
        continue
      c = counted(t)
      if c is not None and callee_name(c[1].args[0]) in (
          'set', 'sorted', 'list') and (t.op != 'cmp' or any(
              a is c[0] for a in t.args[1:])):
        own.setdefault(c[1], (c[0], []))[1].append((t, v))
    for el, (cnt, gs) in own.items():
      gs = gs + [(t, v) for t, v in fs if t.op == 'cmp' and any(
          a is el for a in t.args[1:])]
      added = any(e.kind == 'carry' and e.value is not None and getattr(
          e.value, 'op', '') == 'append' and e.value.args[1] is el
                  for e in p.events)
      chosen.setdefault(el, set()).add((cnt, tuple(gs), added))
  for el, rows in chosen.items():
    if not any(a for _, _, a in rows):
      continue
    got = {}
    for n, l in CASES:
      sel = set()
      for cnt, gs, added in rows:
        e = Env({cnt: n, el: l})
        r = [(e.truth(t), v) for t, v in gs]
        if any(x is UNK for x, _ in r):
          sel.add(None)
        elif all(bool(x) == v for x, v in r):
          sel.add(added)
      got[n, l] = sel.pop() if len(sel) == 1 else None
    judge(rep, '_jittable_ncon.collected', got, loc)
  for x in comps:
    cs = [counted(c) for c in x.args[3]]
    cs = [c for c in cs if c is not None and c[1] is x.args[1]]
    if len({c[0] for c in cs}) != 1:
      continue
    got = {}
    for n, l in CASES:
      e = Env({cs[0][0]: n, cs[0][1]: l})
      r = [e.truth(c) for c in x.args[3]]
      got[n, l] = None if any(y is UNK for y in r) else all(r)
    judge(rep, '_jittable_ncon.selected', got, loc)


def deleted(ctx, rep):
  """Several positions are deleted from a list from the last to the first."""
  for q, f in sorted(ctx.prog.funcs.items()):
    if not q.startswith(M) or f.node is None or f.parent is not None:
      continue
    for n in ast.walk(f.node):
      if not isinstance(n, ast.For) or not isinstance(n.target, ast.Name):
        continue
      dels = [d for d in ast.walk(n) if isinstance(d, ast.Delete) and any(
          isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Name) and
          t.slice.id == n.target.id for t in d.targets)]
      if not dels or any(isinstance(x, ast.Break) for x in ast.walk(n)):
        continue
      inst = q.split('tensornetwork.')[-1] + '.deleted'
      it = n.iter
      name = it.func.id if isinstance(it, ast.Call) and isinstance(
          it.func, ast.Name) else None
      if name == 'sorted':
        rev = [k.value for k in it.keywords if k.arg == 'reverse']
        if any(k.arg == 'key' for k in it.keywords) or (
            rev and not isinstance(rev[0], ast.Constant)):
          rep.undecided('tables', inst, 'order of the positions')
        else:
          rep.check('tables', inst, bool(rev and rev[0].value), 'positions are '
                    'deleted from the first to the last, which moves the ones '
                    'still to be deleted', '%s:%d' % (f.file, dels[0].lineno))
      elif name == 'reversed':
        rep.ok('tables', inst)
      else:
        rep.undecided('tables', inst, 'order of the positions')


def builder(ctx, rep):
  """NconBuilder: tensors and label lists are joined in the same order."""
  for q, f in sorted(ctx.prog.funcs.items()):
    if not q.startswith('tensornetwork.tensor.NconBuilder.'):
      continue
    for p in ctx.paths(f, rep=rep)[0] or ():
      v = p.value
      if p.outcome != 'return' or v is None or v.op != 'new' or not v.args[
          0].endswith('NconBuilder'):
        continue
      a, b = call_arg(v, 'tensors', 0), call_arg(v, 'axes', 1)
      if a is None or b is None or a.op != 'bin' or b.op != 'bin' or \
          a.args[0] != 'Add' or b.args[0] != 'Add':
        continue
      own = [x.args[0] for z in (a, b) for x in z.args[1:]
             if x.op == 'attr' and x.args[1] in ('tensors', 'axes')]
      if len(own) == 4:
        rep.check('tables', q.split('tensornetwork.')[-1], own[:2] == own[2:],
                  'tensors and label lists of the operands are joined in '
                  'different orders', '%s:%d' % (f.file, f.line))


def tri(rep, rule, inst, r, msg, loc):
  """Report a three-valued verdict."""
  if r is None:
    rep.undecided(rule, inst, 'unreadable')
  else:
    rep.check(rule, inst, r, msg, loc)


def matrix(t):
  """(tensor, groups of the permutation, groups of the shape) of an operand."""
  shape = None
  if is_call(t, 'reshape'):
    shape = call_arg(t, 'shape', 1)
    t = call_arg(t, 'tensor', 0)
  if t is None:
    return None
  if is_call(t, 'transpose'):
    perm = call_arg(t, 'perm', 1)
    return call_arg(t, 'tensor', 0), perm, shape
  return t, None, shape


def axes(shape):
  """Groups of labels merged into each axis of a matrix form."""
  shape = L.strip(shape)
  if shape.op not in ('tuple', 'list'):
    return None
  out = []
  for y in shape.args[0]:
    if is_call(y, 'prod') and len(y.args[1]) == 1:
      g = L.seq(y.args[1][0])
    else:
      return None
    if g is None or any(x.kind != 'dim' for x in g):
      return None
    out.append(g)
  return out


def shared(l1, l2, b):
  """Facts about labels: batch labels are on both operands."""
  return L.disj(L.neg(('atom', b)), L.conj(('atom', l1), ('atom', l2)))


def batch(ctx, rep):
  f = ctx.prog.funcs.get(M + '_batch_cont')
  need = {'t1', 't2', 'labels_t1', 'labels_t2', 'common_batch_labels',
          'network_structure', 'tensors', 'con_order'}
  if f is None or not need <= set(f.all_params()):
    rep.undecided('covers', '_batch_cont', 'missing')
    return
  ps, _ = ctx.paths(f, rep=rep)
  p = {n: P(f, n) for n in need}
  lab = {p['t1']: p['labels_t1'], p['t2']: p['labels_t2']}
  l1, l2, b = p['labels_t1'], p['labels_t2'], p['common_batch_labels']
  ok = shared(l1, l2, b)
  # contracted: on both operands, but not a batch label
  con = L.conj(('atom', l1), ('atom', l2), L.neg(('atom', b)))
  kept = L.conj(L.disj(('atom', l1), ('atom', l2)), L.neg(con))
  for q in ps or ():
    if q.outcome != 'return' or not feasible(q):
      continue
    mm = [e for e in q.events if e.kind == 'call' and e.name == 'matmul']
    if len(mm) != 1:
      rep.undecided('covers', '_batch_cont', 'no single product')
      continue
    e = mm[0]
    ops = (e.bound or {}).get('tensor1'), (e.bound or {}).get('tensor2')
    if None in ops:
      rep.undecided('covers', '_batch_cont', 'operands')
      continue
    ms = [matrix(x) for x in ops]
    cols = []
    for m in ms:
      if m is None or m[1] is None or m[2] is None or m[0] not in lab:
        rep.undecided('covers', '_batch_cont', 'operand form')
        cols.append(None)
        continue
      t, perm, shape = m
      own = lab[t]
      name = '_batch_cont.' + t.args[1]
      g = L.seq(perm)
      if g is None or any(x.kind != 'pos' for x in g):
        rep.undecided('covers', name, 'permutation')
        cols.append(None)
        continue
      rep.check('covers', name, all(x.base is own for x in g),
                'an operand is permuted by positions in the other operand\'s '
                'labels', e.loc)
      tri(rep, 'covers', name, L.partition(g, ('atom', own), ok),
          'the permutation drops or repeats an axis', e.loc)
      ax = axes(shape)
      if ax is None:
        rep.undecided('sizes', name, 'shape')
        cols.append(None)
        continue
      flat = [x for y in ax for x in y]
      rep.check('sizes', name, all(
          lab.get(x.base[0]) is x.base[1] for x in flat),
                'sizes are read at positions in another tensor\'s labels',
                e.loc)
      tri(rep, 'sizes', name, L.same(flat, g, ok),
          'the grouped sizes are not those of the permuted axes', e.loc)
      cols.append(ax)
    if None in cols or len(cols) != 2 or any(len(c) < 2 for c in cols):
      continue
    a, c = cols
    if len(a) != len(c):
      rep.bad('joined', '_batch_cont', 'operands of different rank', e.loc)
      continue
    tri(rep, 'joined', '_batch_cont.contracted', L.same(a[-1], c[-2], ok),
        'the contracted axes carry different labels on the two operands', e.loc)
    for x, y in zip(a[:-2], c[:-2]):
      tri(rep, 'joined', '_batch_cont.batch', L.same(x, y, ok),
          'the batch axes carry different labels on the two operands', e.loc)
    res = [x for y in a[:-2] for x in y] + a[-2] + c[-1]
    tri(rep, 'survivors', '_batch_cont', L.partition(res, kept, ok),
        'the axes of the product are not the batch labels and the labels '
        'that are not shared', e.loc)
    recorded(rep, q, p, e, res, ok)
    remaining(rep, q, p, con, ok)


def recorded(rep, q, p, e, res, ok):
  """The shape and the labels given to the product."""
  net = [x for x in q.events if x.kind == 'call' and x.name == 'append' and
         x.recv is p['network_structure'] and x.pos]
  ten = [x for x in q.events if x.kind == 'call' and x.name == 'append' and
         x.recv is p['tensors'] and x.pos]
  if not net and not ten:
    rep.undecided('recorded', '_batch_cont', 'nothing appended')
    return
  rep.check('tables', '_batch_cont', len(net) == len(ten) == 1,
            'result and labels are not both recorded', e.loc)
  if len(net) != 1 or len(ten) != 1:
    return
  g = L.seq(net[0].pos[0])
  if g is None or any(x.kind != 'lab' for x in g):
    rep.undecided('recorded', '_batch_cont.labels', 'unreadable')
  else:
    tri(rep, 'recorded', '_batch_cont.labels', L.same(g, res, ok),
        'the recorded labels are not those of the result\'s axes',
        net[0].loc)
  t = ten[0].pos[0]
  if is_call(t, 'reshape') and call_arg(t, 'tensor', 0) is e.res:
    s = L.seq(call_arg(t, 'shape', 1))
    if s is None or any(x.kind != 'dim' for x in s):
      rep.undecided('recorded', '_batch_cont.shape', 'unreadable')
    else:
      tri(rep, 'recorded', '_batch_cont.shape', L.same(s, res, ok),
          'the result is reshaped to sizes of other axes', ten[0].loc)
  elif t is e.res:
    rep.bad('recorded', '_batch_cont.shape', 'the matrix form is recorded as '
            'the result', ten[0].loc)
  else:
    rep.undecided('recorded', '_batch_cont.shape', 'result form')


def remaining(rep, q, p, con, ok):
  v = q.value
  if v.op != 'tuple' or len(v.args[0]) != 3:
    rep.undecided('remaining', '_batch_cont', 'result')
    return
  g = L.seq(v.args[0][2])
  if g is None or len(g) != 1 or g[0].order is not p['con_order']:
    if v.args[0][2] is p['con_order']:
      rep.bad('remaining', '_batch_cont', 'contracted labels stay in the '
              'contraction order', q.loc if hasattr(q, 'loc') else '')
    else:
      rep.undecided('remaining', '_batch_cont', 'unreadable')
    return
  want = L.conj(('atom', p['con_order']), L.neg(con))
  tri(rep, 'remaining', '_batch_cont', L.same_mem(g[0].mem, want, ok),
      'the contraction order loses labels that were not contracted, or keeps '
      'contracted ones', 'tensornetwork/ncon_interface.py:1')


def trace(ctx, rep):
  f = ctx.prog.funcs.get(M + '_partial_trace')
  if f is None or not {'tensor', 'labels'} <= set(f.all_params()):
    rep.undecided('covers', '_partial_trace', 'missing')
    return
  ps, _ = ctx.paths(f, rep=rep)
  lab, ten = P(f, 'labels'), P(f, 'tensor')
  for q in ps or ():
    if q.outcome != 'return' or not feasible(q):
      continue
    v = q.value
    if v.op != 'tuple' or len(v.args[0]) < 2:
      rep.undecided('recorded', '_partial_trace', 'result')
      continue
    res, new = v.args[0][:2]
    g = L.seq(new)
    loc = '%s:%d' % (f.file, f.line)
    if not any(is_call(x, 'trace') for x in walk(res)):
      if res is ten:
        if g is not None:
          tri(rep, 'recorded', '_partial_trace.unchanged',
              L.same_mem(L.disj(*[x.mem for x in g]), ('atom', lab))
              if g else None, 'an unchanged tensor loses labels', loc)
      continue
    tr = next(x for x in walk(res) if is_call(x, 'trace'))
    m = matrix(call_arg(tr, 'tensor', 0)) if call_arg(
        tr, 'tensor', 0) is not None else None
    if m is None or m[1] is None:
      rep.undecided('covers', '_partial_trace', 'operand form')
      continue
    s = L.seq(m[1])
    if s is None or any(x.kind != 'pos' for x in s):
      rep.undecided('covers', '_partial_trace', 'permutation')
      continue
    tri(rep, 'covers', '_partial_trace', L.partition(s, ('atom', lab)),
        'the permutation drops or repeats an axis', loc)
    free = [x for x in s if x.which == 'all']
    pairs = [x for x in s if x.which != 'all']
    n = len(free)
    rep.check('joined', '_partial_trace', s[:n] == free,
              'the traced axes are not the last ones', loc)
    if len(pairs) == 2:
      a, b = pairs
      r = L.same_mem(a.mem, b.mem)
      tri(rep, 'joined', '_partial_trace.pairs', r if r is None else bool(
          r and L.order_of(a.order) == L.order_of(b.order) and
          {a.which, b.which} == {0, 1}),
          'first and second occurrences of the traced labels are grouped in '
          'different orders', loc)
    if g is None or any(x.kind != 'lab' for x in g):
      rep.undecided('recorded', '_partial_trace', 'unreadable')
    else:
      tri(rep, 'recorded', '_partial_trace', L.same(g, free),
          'the labels kept are not those of the untraced axes', loc)
    if m[2] is not None:
      sh = L.strip(m[2])
      if sh.op == 'bin' and sh.args[0] == 'Add':
        d = L.seq(sh.args[1])
        if d is not None:
          tri(rep, 'sizes', '_partial_trace', L.same(d, free),
              'the untraced sizes are not those of the untraced axes', loc)


# -- the driver -------------------------------------------------------------


def table(t):
  """Name of the loop-carried list a pop or append acts on."""
  while t is not None and t.op == 'append':
    t = t.args[0]
  if t is None:
    return None
  if t.op == 'lc':
    return t.args[0], t.args[-1]
  if t.op == 'param':
    return t.args[1], None
  return None


def pops(q):
  out = {}
  for e in q.events:
    if e.kind == 'call' and e.name == 'pop' and e.recv is not None:
      t = table(e.recv)
      if t is not None:
        out.setdefault(t, []).append(e)
  return out


def ordinal(e):
  kw = dict(e.res.args[2]) if e.res is not None and e.res.op == 'call' else {}
  return (e.pos, kw.get('#'))


def main(ctx, rep):
  f = ctx.prog.funcs.get(M + '_jittable_ncon')
  if f is None:
    rep.undecided('tables', '_jittable_ncon', 'missing')
    return
  ps, _ = ctx.paths(f, rep=rep, inline=('label_intersection',), key='steps')
  done = set()
  T_, N_ = 'tensors', None
  # the table of labels: taken from wherever tensors are
  along = {}
  for q in ps or ():
    by = pops(q)
    for nm, loop in by:
      if nm != T_ and (T_, loop) in by:
        along[nm] = along.get(nm, 0) + len(by[(nm, loop)])
  if along:
    N_ = max(sorted(along), key=along.get)
  else:
    rep.undecided('tables', '_jittable_ncon', 'no table of labels')
  for q in ps or ():
    if not feasible(q):
      continue
    ev = [e for e in q.events if e.kind == 'call']
    by = pops(q)
    partner = {}
    for (nm, loop), es in by.items():
      if nm != T_:
        continue
      other = by.get((N_, loop))
      if other is None:
        continue
      k = tuple(e.loc for e in es + other)
      same = sorted(map(str, map(ordinal, es))) == sorted(
          map(str, map(ordinal, other)))
      if k not in done:
        done.add(k)
        rep.check('tables', '_jittable_ncon.taken', same,
                  'tensors and labels are taken from different places',
                  es[0].loc)
        for xs in (es, other):
          descending(rep, xs)
      if same:
        for e in es:
          for o in other:
            if ordinal(e) == ordinal(o):
              partner[e.res] = o.res
    balanced(rep, ev, done, T_, N_)
    left(rep, q, partner, done)
    steps(rep, q, ev, partner, done, T_, N_)


def descending(rep, es):
  """Removing by ascending positions shifts the later ones."""
  ks = []
  for e in es:
    if len(e.pos or ()) == 1 and e.pos[0].op == 'item' and e.pos[0].args[
        1].op == 'const':
      ks.append((e.pos[0].args[0], e.pos[0].args[1].args[0]))
  if len(ks) == 2 and ks[0][0] is ks[1][0] and all(
      isinstance(k[1], int) and k[1] >= 0 for k in ks):
    rep.check('tables', '_jittable_ncon.positions', ks[0][1] > ks[1][1],
              'the earlier element is removed first, which shifts the position '
              'of the later one', es[0].loc)


def balanced(rep, ev, done, T_, N_):
  """After a pair was taken, result and labels are both put back."""
  rel = [e for e in ev if e.name in ('pop', 'append', '_batch_cont') and (
      e.name == '_batch_cont' or (table(e.recv) or ('',))[0] in (T_, N_))]
  i = 0
  while i < len(rel):
    if rel[i].name != 'pop':
      i += 1
      continue
    while i < len(rel) and rel[i].name == 'pop':
      last = rel[i]
      i += 1
    n = {T_: 0, N_: 0}
    own = True
    while i < len(rel) and rel[i].name != 'pop':
      if rel[i].name == '_batch_cont':
        own = False
      else:
        n[table(rel[i].recv)[0]] += 1
      i += 1
    k = (last.loc, own, n[T_], n[N_], 'b')
    if own and k not in done and (n[T_] or n[N_]):
      done.add(k)
      rep.check('tables', '_jittable_ncon.recorded', n[T_] == n[N_],
                'a result is recorded without its labels, or labels without a '
                'tensor', last.loc)


def left(rep, q, partner, done):
  """After a pairwise contraction exactly the labels the two operands share
  have left the contraction order."""
  for i, e in enumerate(q.events):
    if e.kind != 'call' or e.name != 'tensordot' or not e.bound or (
        e.loc, 'l') in done:
      continue
    ops = [e.bound.get(n) for n in ('a', 'b')]
    if any(x not in partner for x in ops):
      continue
    a1, a2 = (('atom', partner[x]) for x in ops)
    c = next((x for x in q.events[i + 1:] if x.kind == 'carry' and
              x.name == 'con_order'), None)
    if c is None or not hasattr(c.value, 'op'):
      continue
    done.add((e.loc, 'l'))
    g = L.seq(c.value)
    x = c.value
    if x.op == 'comp' and len(x.args[3]) == 1:
      k, pos = x.args[3][0], True
      while k.op == 'not':
        k, pos = k.args[0], not pos
      if k.op == 'cmp' and k.args[0] == ('ne' if pos else 'eq') and any(
          y is x.args[1] for y in k.args[1:]) and any(
              y.op == 'item' for y in k.args[1:]):
        rep.bad('remaining', '_jittable_ncon.tensordot', 'only one of the '
                'contracted labels leaves the contraction order', e.loc)
        continue
    if g is None or len(g) != 1 or x.op != 'comp':
      rep.undecided('remaining', '_jittable_ncon.tensordot', 'unreadable')
      continue
    want = L.conj(('atom', g[0].order), L.neg(L.conj(a1, a2)))
    tri(rep, 'remaining', '_jittable_ncon.tensordot', L.same_mem(
        g[0].mem, want), 'the contraction order loses labels that were not '
        'contracted, or keeps contracted ones', e.loc)


def steps(rep, q, ev, partner, done, T_, N_):
  for i, e in enumerate(ev):
    if e.name == '_batch_cont' and e.bound:
      b = e.bound
      for t, l in (('t1', 'labels_t1'), ('t2', 'labels_t2')):
        if b.get(t) in partner:
          inst = '_batch_cont.%s@%s' % (t, 'loop')
          if (e.loc, t) in done:
            continue
          done.add((e.loc, t))
          rep.check('tables', '_jittable_ncon.' + inst,
                    partner[b[t]] is b.get(l),
                    'a tensor is passed with the labels of another', e.loc)
      l1, l2, c = b.get('labels_t1'), b.get('labels_t2'), b.get(
          'common_batch_labels')
      if None not in (l1, l2, c) and (e.loc, 'c') not in done:
        done.add((e.loc, 'c'))
        m = L.memb(c, opaque=True)
        a1, a2 = L.memb(l1), L.memb(l2)
        r = None
        if None not in (m, a1, a2):
          r = L.same_mem(L.conj(m, a1, a2), m)
        if r is not None:
          rep.check('joined', '_jittable_ncon.batch', r,
                    'labels that are not on both tensors are passed as their '
                    'common batch labels', e.loc)
      continue
    if e.name not in ('tensordot', 'outer_product') or not e.bound:
      continue
    ops = [e.bound.get(n) for n in ('a', 'b')] if e.name == 'tensordot' else [
        e.bound.get(n) for n in ('tensor1', 'tensor2')]
    if any(x not in partner for x in ops):
      if (e.loc, 'u') not in done:
        done.add((e.loc, 'u'))
        rep.undecided('joined', '_jittable_ncon.' + e.name, 'operands')
      continue
    l1, l2 = partner[ops[0]], partner[ops[1]]
    a1, a2 = ('atom', l1), ('atom', l2)
    if (e.loc, 's') in done:
      continue
    done.add((e.loc, 's'))
    n = '_jittable_ncon.' + e.name
    rest = ev[i + 1:]
    stop = next((k for k, x in enumerate(rest) if x.name in (
        'tensordot', 'outer_product', '_batch_cont', 'pop')), len(rest))
    # what the operation returns is recorded next to its labels
    ten = [x for x in rest[:stop] if x.name == 'append' and x.pos and
           x.pos[0] is e.res]
    net = [x for x in rest[:stop] if x.name == 'append' and x.pos and
           (table(x.recv) or ('',))[0] == N_]
    if not ten and net and not any(
        x.name == 'append' and (table(x.recv) or ('',))[0] == T_
        for x in rest[:stop]):
      rep.bad('tables', n, 'labels are recorded but no tensor', net[0].loc)
      continue
    if not ten:
      rep.undecided('tables', n, 'result not appended')
      continue
    rep.check('tables', n, len(net) == 1, 'the labels of the result are not '
              'recorded', e.loc)
    if len(net) != 1:
      continue
    if e.name == 'tensordot':
      both = L.conj(a1, a2)
      if not paired(rep, n, e, l1, l2, both):
        continue
      want = [L.Group('lab', l1, l1, L.conj(a1, L.neg(both))),
              L.Group('lab', l2, l2, L.conj(a2, L.neg(both)))]
    else:
      want = [L.Group('lab', l1, l1, a1), L.Group('lab', l2, l2, a2)]
    g = L.seq(net[0].pos[0])
    if g is None or any(x.kind != 'lab' for x in g):
      rep.undecided('recorded', n, 'unreadable')
      continue
    tri(rep, 'recorded', n, L.same(g, want), 'the recorded labels are not those '
        'of the result\'s axes', net[0].loc)


def paired(rep, n, e, l1, l2, both):
  ax = e.bound.get('axes')
  ax = L.strip(ax) if ax is not None else None
  if ax is None or ax.op not in ('tuple', 'list') or len(ax.args[0]) != 2:
    rep.undecided('joined', n, 'axes')
    return True
  x, y = [L.seq(z) for z in ax.args[0]]
  if x is None or y is None or len(x) != 1 or len(y) != 1 or any(
      z.kind != 'pos' for z in x + y):
    rep.undecided('joined', n, 'axes unreadable')
    return True
  good = x[0].base is l1 and y[0].base is l2
  rep.check('joined', n + '.operands', good,
            'axes of one operand are positions in the other\'s labels', e.loc)
  if good:
    tri(rep, 'joined', n + '.pairs', L.same(x, y),
        'the axes are paired in different orders', e.loc)
    tri(rep, 'survivors', n, L.same_mem(x[0].mem, both),
        'not exactly the shared labels are contracted', e.loc)
  return True
