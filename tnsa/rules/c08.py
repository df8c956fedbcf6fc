"""Purity analysis: no function stores into, or applies an in-place operator
or mutating method to, an array, list or dict that may be (a view of, or an
element of) one of its parameters, directly or through a callee; nor into an
array field that still aliases a constructor argument.  Reshapes, transposes,
slices and conversions count as views."""
from ..terms import walk, NONE, mk
from ..effects import Effects, MUTATORS
from ..lib import short, callee_name, P, list_elements, attr

ASSUMPTIONS = [
    'node and edge objects are modified by design (their protocol is C04-C07); '
    'this property is about arrays, lists and dicts',
    'arithmetic and the np.array/copy family return new arrays; reshape, '
    'transpose, asarray, conversion, slicing and real/imag may return views',
    'jax and TensorFlow arrays are immutable, so in-place operators rebind'
]

VIEW = {'reshape', 'transpose', 'asarray', 'convert_to_tensor', 'ravel',
        'squeeze', 'swapaxes', 'expand_dims', 'view', 'real', 'imag',
        'diagonal', 'broadcast_to', 'atleast_1d', 'atleast_2d', 'asanyarray',
        'moveaxis', 'permute', 'contiguous', 'as_tensor', 'numpy', 'detach',
        'from_numpy', 'cast', 'ascontiguousarray', 'flatten_view', 'to',
        'slice', 'index', 'rollaxis', 'type_as', 'matrix_transpose'}
VIEW_ATTR = {'T', 'data', 'flat', 'real', 'imag', 'array'}
CONTAINER_ELEMS = {'list', 'tuple', 'set', 'sorted', 'reversed', 'enumerate',
                   'zip', 'iter', 'next', 'chain', 'values', 'items', 'get',
                   'copy'}
IMMUTABLE = {'int', 'float', 'str', 'Text', 'bool', 'complex', 'Tuple',
             'tuple', 'bytes', 'Type', 'Callable', 'Number'}
ARRAYISH = {'Tensor', 'ndarray', 'array', 'Array', 'List', 'list', 'dict',
            'Dict', 'Sequence', 'MutableSequence', 'set', 'Set', 'Any',
            'DeviceArray', 'Iterable'}
INPLACE_EXT = {'copyto': 0, 'fill_diagonal': 0, 'put': 0, 'place': 0,
               'putmask': 0, 'shuffle': 0, 'put_along_axis': 0}

# documented in-place behaviour
DOCUMENTED = {
    ('network_components.NodeCollection', '_container'):
        'a NodeCollection fills the container it is given',
}


def ann_names(f, name):
  import ast
  a = f.ann.get(name)
  if a is None:
    return None
  out = set()
  for n in ast.walk(a):
    if isinstance(n, ast.Name):
      out.add(n.id)
    elif isinstance(n, ast.Attribute):
      out.add(n.attr)
    elif isinstance(n, ast.Constant) and isinstance(n.value, str):
      out |= {n.value.split('.')[-1]}
  return out


class Content(Effects):
  """Content mutation: attribute steps end the alias (except views)."""

  def __init__(self, ctx, rep, skip=None):
    self.jaxish = set()
    Effects.__init__(self, ctx, rep, skip=skip)

  def mutated(self, ev):
    k = ev.kind
    if k in ('setitem', 'delitem'):
      yield ev.recv, 'stores an item'
      if ev.aug and ev.old is not None:
        yield ev.old, 'is the target of an in-place %s' % ev.aug
    elif k == 'aug':
      yield ev.recv, 'is the target of an in-place %s' % ev.key.args[0]
    elif k == 'setattr' and ev.aug and ev.old is not None:
      yield ev.old, 'is the target of an in-place %s' % ev.aug
    elif k == 'call':
      if ev.qual in self.mut and ev.bound:
        for root, (what, _) in self.mut[ev.qual].items():
          t = ev.bound.get(root)
          if t is not None:
            yield t, '%s %s' % (ev.name, what)
        return
      if ev.bound is None and ev.recv is not None and ev.recv.op not in (
          'ext', 'mod') and (ev.name in MUTATORS or (
              ev.name and ev.name.endswith('_') and
              not ev.name.startswith('_') and not ev.name.endswith('__'))):
        yield ev.recv, '.%s()' % ev.name
      for n, v in ev.kw or ():
        if n == 'out' and v is not NONE:
          yield v, 'out='
      if ev.name in INPLACE_EXT and ev.pos and ev.bound is None:
        yield ev.pos[0], ev.name

  def _roots(self, t, ident):
    o, a = t.op, t.args
    go = self._go
    if o == 'param':
      return {a[1]}
    if o == 'attr':
      return go(a[0], ident) if a[1] in VIEW_ATTR else set()
    if o == 'item':
      k = a[1]
      keys = k.args[0] if k.op == 'tuple' else (k,)
      if any(advanced(x) for x in keys):
        return set()  # advanced indexing copies
      return go(a[0], False)
    if o == 'elem':
      return go(a[0], False)
    if o in ('append', 'extend'):
      return go(a[0], ident) | (set() if ident else go(a[1], False))
    if o == 'lc':
      return go(a[1], ident)
    if o == 'phi':
      s = set()
      for x in a[0]:
        s |= go(x, ident)
      return s
    if o == 'call' and a[0].op == 'param':
      return {a[0].args[1]}  # a result of the caller's own function
    if o == 'call':
      f = a[0]
      q = f.args[0] if f.op == 'func' else (
          f.args[1] if f.op == 'bound' else None)
      n = callee_name(t)
      if q in self.ret:
        s = set()
        fn = self.paths[q][0]
        args = self._bind(fn, t)
        for r in self.ret[q]:
          if r in args:
            s |= go(args[r], ident)
        if n in VIEW and not s:
          ps = [p for p in fn.all_params() if p != 'self']
          if ps and ps[0] in args:
            s |= go(args[ps[0]], ident)
        return s
      if n in VIEW:
        s = set()
        if f.op == 'attr' and f.args[0].op not in ('ext', 'mod') and \
            not self._backendish(f.args[0]):
          s |= go(f.args[0], ident)
        if a[1]:
          s |= go(a[1][0], ident)
        kw = dict(t.args[2])
        for k in ('tensor', 'a', 'x'):
          if k in kw:
            s |= go(kw[k], ident)
        return s
      if not ident and n in CONTAINER_ELEMS:
        s = set()
        for x in a[1]:
          s |= go(x, False)
        if f.op == 'attr':
          s |= go(f.args[0], False)
        return s
      if ident and n in ('next', 'get', 'pop'):
        return go(f.args[0], False) if f.op == 'attr' else (
            go(a[1][0], False) if a[1] else set())
      return set()
    if ident:
      return set()
    if o in ('list', 'tuple', 'set'):
      s = set()
      for x in a[0]:
        s |= go(x, False)
      return s
    if o == 'star':
      return go(a[0], False)
    if o == 'comp':
      return go(a[1], True) | go(a[1], False)
    if o == 'bin' and a[0] in ('Add',):
      return go(a[1], False) | go(a[2], False)
    return set()

  @staticmethod
  def _backendish(t):
    return t.op == 'attr' and t.args[1] in ('backend', '_backend') or (
        t.op == 'param' and t.args[1] in ('self', 'backend', 'backend_obj'))


def advanced(k):
  """Index known to be (or possibly be) an array or mask."""
  if k.op == 'call':
    return callee_name(k) not in ('len', 'int', 'get_axis_number', 'min',
                                  'max', 'abs', 'round')
  return k.op in ('cmp', 'comp', 'list', 'not') or (k.op == 'item' and
                                                    advanced(k.args[0]))


def run(ctx, rep):
  rep.rule('argument-untouched', 'no array, list or dict parameter (or view or '
           'element of one) is modified')
  rep.rule('field-not-aliased', 'array fields that alias constructor '
           'arguments are not modified in place')
  rep.rule('list-not-kept', 'a list argument is not kept as a field that '
           'methods of the class change in place')
  eff = Content(ctx, rep)
  kept_lists(ctx, rep, eff)
  rep.exceptions += ['%s.%s: %s' % (k + (v,)) for k, v in DOCUMENTED.items()]
  n = 0
  for q, (f, ps) in sorted(eff.paths.items()):
    sq = short(q)
    if immutable_backend(sq):
      continue
    sites = {}
    for p in ps:
      for ev in p.events:
        for t, what in eff.mutated(ev):
          n += 1
          for root in eff.ident(t):
            sites.setdefault(root, (t, what, ev, p))
    for name in f.all_params() + [x for x in (f.vararg,) if x]:
      if f.cls is not None and f.params and name == f.params[0] and \
          not f.is_static:
        continue
      hit = sites.get(name)
      if hit is None:
        rep.ok('argument-untouched', '%s %s' % (sq, name))
        continue
      t, what, ev, p = hit
      verdict(f, sq, name, t, what, ev, rep,
              rebind=sq.startswith('backends.symmetric.') and
              not inplace_ops(ctx))
    fields(ctx, rep, eff, f, sq, ps)
  rep.count('mutation events examined', n)


def kept_lists(ctx, rep, eff):
  """x.F = <list argument> where methods of the class store into x.F."""
  changed = {}
  for q, (f, ps) in eff.paths.items():
    if f.cls is None or not f.params or f.is_static:
      continue
    me = P(f, f.params[0])
    for p in ps:
      for ev in p.events:
        if ev.kind == 'call' and ev.qual in eff.mut:
          continue
        for t, what in eff.mutated(ev):
          if t.op == 'attr' and t.args[0] is me and 'in-place' not in what:
            changed.setdefault(t.args[1].lstrip('_'), {}).setdefault(
                f.cls.qual, (f, what, ev))
  for q, (f, ps) in sorted(eff.paths.items()):
    if f.cls is None or not f.params or f.is_static:
      continue
    me = P(f, f.params[0])
    mro = {c.qual for c in ctx.prog.mro(f.cls)}
    for p in ps:
      for ev in p.events:
        if ev.kind != 'setattr' or ev.recv is not me:
          continue
        name = ev.name.lstrip('_')
        if (short(f.cls.qual), ev.name) in DOCUMENTED or f.name == name:
          continue
        hit = [v for c, v in changed.get(name, {}).items()
               if c in mro or any(x.qual == f.cls.qual for x in
                                  ctx.prog.mro(v[0].cls))]
        if not hit:
          continue
        v = ev.value
        inst = '%s .%s' % (short(f.qual), ev.name)
        ann = ann_names(f, v.args[1]) if v.op == 'param' and \
            v.args[0] == f.qual else None
        if ann and ann & {'List', 'list', 'Dict', 'dict'}:
          g, what, e = hit[0]
          rep.bad('list-not-kept', inst, 'keeps the argument %s itself, and '
                  '%s %s (%s)' % (v.args[1], short(g.qual), what, e.loc),
                  ev.loc)
        else:
          rep.ok('list-not-kept', inst)


def immutable_backend(sq):
  return sq.startswith(('backends.jax.', 'backends.tensorflow.'))


MODULES_AS_ARGS = ('np', 'jnp', 'tf', 'torch', 'jax', 'numpy', 'torchlib')


def verdict(f, sq, name, t, what, ev, rep, rebind=False):
  inst = '%s %s' % (sq, name)
  if name in MODULES_AS_ARGS or (rebind and 'in-place' in what):
    rep.ok('argument-untouched', inst)
    return
  if name == f.kwarg or (name == f.vararg and t.op == 'param'):
    rep.ok('argument-untouched', inst)
    return
  ann = ann_names(f, name)
  if t.op == 'param' and 'in-place' in what and (
      ann is None or not (ann & ARRAYISH)):
    rep.undecided('argument-untouched', inst, 'rebinding of a scalar?')
    return
  if ann is not None and t.op == 'param' and not (ann & ARRAYISH) and \
      ann & IMMUTABLE:
    rep.undecided('argument-untouched', inst, 'immutable by annotation')
    return
  if f.name.startswith('_') and not f.name.startswith('__'):
    # private helpers may own what they are given; callers are checked
    rep.undecided('argument-untouched', inst, 'private helper')
    return
  rep.bad('argument-untouched', inst, '%s %s' % (t, what), ev.loc)


def fields(ctx, rep, eff, f, sq, ps):
  """self.X[i] op= v where X aliases a constructor argument."""
  if f.cls is None or not f.params or f.name == '__init__':
    return
  me = P(f, f.params[0])
  for p in ps:
    for ev in p.events:
      if ev.kind == 'call' and ev.qual in eff.mut:
        continue
      for t, what in eff.mutated(ev):
        x = t
        steps = 0
        while x.op in ('item', 'elem') or (
            x.op == 'attr' and x.args[1] in VIEW_ATTR and
            x.args[0].op != 'param'):
          steps += x.op != 'attr'
          x = x.args[0]
        if x.op != 'attr' or x.args[0] is not me or (
            short(f.cls.qual), x.args[1]) in DOCUMENTED:
          continue
        src = field_source(ctx, eff, f.cls, x.args[1], steps)
        if src:
          rep.bad('field-not-aliased', '%s .%s' % (sq, x.args[1]), '%s %s, '
                  'which is still the constructor argument %s' % (t, what,
                                                                  src),
                  ev.loc)
        else:
          rep.ok('field-not-aliased', '%s .%s' % (sq, x.args[1]))


def field_source(ctx, eff, cls, name, steps):
  """Constructor parameter whose array (element) the field may be."""
  for c in ctx.prog.mro(cls):
    init = c.methods.get('__init__')
    if init is None:
      continue
    got = eff.paths.get(init.qual)
    if got is None:
      continue
    for p in got[1]:
      for ev in p.events:
        if ev.kind == 'setattr' and ev.name == name:
          v = ev.value
          for _ in range(steps):
            els = list_elements(v)
            if len(els) == 1:
              v = els[0]
          r = eff.ident(v) - {init.params[0]}
          if r:
            return sorted(r)[0]
  return None


def inplace_ops(ctx):
  """Do symmetric tensors define in-place operators?"""
  for q, c in ctx.prog.classes.items():
    if '.block_sparse.' in q and c.name.endswith(('Array', 'Tensor')):
      if any(m in c.methods for m in ('__itruediv__', '__iadd__', '__isub__',
                                      '__imul__')):
        return True
  return False
