"""Which objects handed in by the caller a function may modify.

`ident(t)` are the parameters a term may be (or be part of), `reach(t)` those
whose state is reachable through it.  `Effects` computes, as a fixpoint over
the call graph, the parameters each function modifies and returns.
"""
from .terms import walk, NONE, mk
from .lib import callee_name

CONTAINER = {'list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed',
             'enumerate', 'zip', 'map', 'filter', 'iter', 'next', 'dict',
             'chain', 'copy', 'items', 'values', 'keys', 'get', 'pop',
             'union', 'intersection', 'difference', 'getattr', 'cast',
             'fromkeys', 'product', 'combinations'}
FRESH = {'copy', 'deepcopy', 'replicate_nodes', 'conj', 'adjoint',
         'compute_contracted_tensor'}
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort',
            'reverse', 'update', 'add', 'discard', 'setdefault', 'popitem',
            'fill', 'itemset', 'resize', 'partition', 'setfield', 'put'}


# methods that modify their receiver where its class is not known
NET_MUTATORS = {'set_tensor', 'add_edge', 'update_axis', 'reorder_edges',
                'reorder_axes', 'fresh_edges', 'set_name', 'disconnect',
                'disable', 'add_axis_names'}


class Effects:

  def __init__(self, ctx, rep=None, fresh=FRESH, skip=None):
    self.ctx = ctx
    self.fresh = fresh
    self.mut = {}  # qual -> {param name: (what, loc)}
    self.ret = {}  # qual -> set of param names the result may be
    self.paths = {}
    for f, ps in ctx.scan(rep, skip=skip):
      self.paths[f.qual] = (f, ps)
      self.mut[f.qual] = {}
      self.ret[f.qual] = set()
    self._memo = {}
    for _ in range(8):
      if not self._round():
        break

  def _round(self):
    changed = False
    self._memo = {}
    for q, (f, ps) in self.paths.items():
      m = self.mut[q]
      r = self.ret[q]
      for p in ps:
        for ev in p.events:
          for t, what in self.mutated(ev):
            for root in self.ident(t):
              if root not in m:
                m[root] = (what, ev.loc)
                changed = True
        if p.outcome == 'return' and p.value is not None:
          for root in self.ident(p.value):
            if root not in r:
              r.add(root)
              changed = True
    return changed

  def mutated(self, ev):
    """(term, description) of the objects an event modifies."""
    k = ev.kind
    if k in ('setattr', 'delattr'):
      yield ev.recv, 'sets .%s' % ev.name
    elif k in ('setitem', 'delitem'):
      yield ev.recv, 'stores an item'
    elif k == 'call':
      if ev.qual in self.mut and ev.bound:
        for root, (what, _) in self.mut[ev.qual].items():
          t = ev.bound.get(root)
          if t is not None:
            yield t, '%s %s' % (ev.name, what)
      elif ev.bound is None and ev.recv is not None and \
          ev.name in MUTATORS and not (ev.recv.op in ('ext', 'mod')):
        yield ev.recv, '.%s()' % ev.name
      elif ev.qual not in self.mut and ev.recv is not None and \
          ev.name in NET_MUTATORS:
        yield ev.recv, '.%s()' % ev.name

  # ---- roots -------------------------------------------------------------
  def ident(self, t):
    return self._go(t, True)

  def reach(self, t):
    return self._go(t, False)

  def _go(self, t, ident, depth=0):
    k = (t, ident)
    r = self._memo.get(k)
    if r is None:
      self._memo[k] = frozenset()
      r = frozenset(self._roots(t, ident))
      self._memo[k] = r
    return r

  def _roots(self, t, ident):
    o, a = t.op, t.args
    go = self._go
    if o == 'param':
      return {a[1]}
    if o == 'attr':
      return go(a[0], False)
    if o == 'item':
      if a[1].op == 'slice':
        return set() if ident else go(a[0], False)
      return go(a[0], False)
    if o == 'elem':
      return go(a[0], False)
    if o in ('append', 'extend'):
      if ident:
        return go(a[0], True)
      return go(a[0], False) | go(a[1], False)
    if o == 'lc':
      return go(a[1], ident)
    if o == 'phi':
      s = set()
      for x in a[0]:
        s |= go(x, ident)
      return s
    if o == 'new':
      return set()
    if o == 'call':
      f = a[0]
      q = f.args[0] if f.op == 'func' else (
          f.args[1] if f.op == 'bound' else None)
      n = callee_name(t)
      if q in self.ret:
        s = set()
        fn = self.paths[q][0]
        args = self._bind(fn, t)
        for r in self.ret[q]:
          if r in args:
            s |= go(args[r], ident)
        if s or ident or n in self.fresh:
          return s
        # something reachable from the arguments may come back
        for x in args.values():
          s |= go(x, False)
        return s
      if ident:
        if n in ('pop', 'get', 'next', 'getattr', 'cast') and f.op == 'attr':
          return go(f.args[0], False)
        if n in ('next', 'cast', 'getattr') and a[1]:
          return go(a[1][-1 if n == 'cast' else 0], False)
        return set()
      s = set()
      if n in CONTAINER:
        for x in a[1]:
          s |= go(x, False)
      if f.op == 'attr' and n not in self.fresh:
        s |= go(f.args[0], False)
      return s
    if ident:
      return set()
    if o in ('list', 'tuple', 'set'):
      s = set()
      for x in a[0]:
        s |= go(x, False)
      return s
    if o == 'star':
      return go(a[0], False)
    if o == 'dict':
      s = set()
      for kv in a[0]:
        for x in (kv if isinstance(kv, tuple) else (kv,)):
          s |= go(x, False)
      return s
    if o == 'comp':
      return go(a[1], False)
    if o == 'bin':
      return go(a[1], False) | go(a[2], False)
    return set()

  @staticmethod
  def _bind(fn, t):
    f = t.args[0]
    args = dict(t.args[2])
    params = list(fn.all_params())
    pos = list(t.args[1])
    if f.op == 'bound' and params:
      args.setdefault(params[0], f.args[0])
      params = params[1:]
    elif fn.cls is not None and not fn.is_static and params and \
        f.op == 'attr':
      args.setdefault(params[0], f.args[0])
      params = params[1:]
    for n, x in zip(params, pos):
      args.setdefault(n, x)
    return args
