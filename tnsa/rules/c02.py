"""Provenance analysis of the backend argument of every construct site: in
each function that holds nodes, tensors, edges, MPS/MPO or other
backend-carrying operands, every Node, Tensor, CopyNode, MPS/MPO construction,
every ncon call and every call of a package function with a `backend`
parameter must receive a backend that stems from an operand (or from the
function's own `backend` argument), never a constant, an omitted argument or
the active default.  The default backend may be consulted only on paths where
a `backend` argument is known to be None."""
from ..terms import walk, NONE
from ..lib import (P, attr, facts, callee_name, is_call, short, feasible)

ASSUMPTIONS = [
    'operands of one operation share a backend (C01)',
    'Keras layers are TensorFlow code; the constant backend is theirs',
]

CARRIERS = ('AbstractNode', 'Node', 'CopyNode', 'Tensor', 'Edge', 'BaseMPS',
            'FiniteMPS', 'InfiniteMPS', 'BaseMPO', 'FiniteMPO', 'InfiniteMPO',
            'BaseDMRG', 'FiniteDMRG', 'QuOperator', 'QuVector',
            'QuAdjointVector', 'QuScalar')


def carrier_type(prog, t):
  """Type (as parsed) of a value that carries a backend."""
  if not isinstance(t, tuple):
    return False
  if t[0] == 'cls':
    return any(c.name in CARRIERS for c in prog.mro(prog.classes[t[1]]))
  return any(carrier_type(prog, x) for x in t[1:] if isinstance(x, tuple))


def operands(prog, f):
  """Parameters of f that carry a backend."""
  out = []
  if f.cls is not None and f.params and f.name != '__init__' and \
      f.params[0] == 'self':
    if any(c.name in CARRIERS for c in prog.mro(f.cls)):
      out.append('self')
  for a in f.node.args.args + f.node.args.kwonlyargs:
    if a.annotation is not None and a.arg not in ('self', 'cls'):
      s = __import__('ast').unparse(a.annotation)
      if any(w in CARRIERS for w in _words(s)):
        out.append(a.arg)
  return out


def _words(s):
  import re
  return re.findall(r'\w+', s)


def default_terms(b):
  return any(callee_name(x) in ('get_default_backend', 'get_current_backend')
             for x in walk(b))


def run(ctx, rep):
  prog = ctx.prog
  rep.rule('backend-provenance',
           'the backend handed to a constructor, ncon or a backend-taking '
           'function inside an operation with operands stems from an operand')
  rep.rule('default-only-when-none',
           'the default backend is consulted only where a backend argument '
           'is None')
  rep.rule('node-of-node', 'a node built from a node adopts its backend')
  rep.rule('stored-backend',
           'the backend attribute of an object stems from its operands or '
           'its own backend argument')
  sites = {}
  dflt = {}
  stores = {}
  for f, paths in ctx.scan(rep):
    if short(f.qual).startswith(('backends.', 'block_sparse.')) and \
        f.cls is None and False:
      continue
    ops = operands(prog, f)
    keras = short(f.qual).startswith('tn_keras')
    for p in paths:
      if p.outcome == 'raise' or not feasible(p):
        continue
      isn = set()
      inst = False
      for e in p.events:
        if e.kind == 'fact':
          t, v = e.value, e.aug
          while t.op == 'not':
            t, v = t.args[0], not v
          if v and t.op == 'cmp' and t.args[0] == 'is' and t.args[2] is NONE:
            isn.add(t.args[1])
          if v and is_call(t, 'isinstance') and len(t.args[1]) == 2 and \
              t.args[1][0].op == 'param':
            if any(x.op == 'cls' and x.args[0].split('.')[-1] in CARRIERS
                   for x in walk(t.args[1][1])):
              inst = True
          continue
        if e.kind == 'setattr' and e.name == 'backend':
          key = (f, e.loc)
          b = e.value
          if ops and (b.op == 'const' or default_terms(b)) and not any(
              x.op == 'param' and x.args[1] == 'backend' for x in isn):
            stores[key] = 'stores %s' % b
          else:
            stores.setdefault(key, None)
          continue
        if e.kind != 'call':
          continue
        if e.name == 'get_default_backend' and f.name not in (
            'get_default_backend',):
          key = (f, e.loc)
          ok = any(x.op == 'param' or 'backend' in str(x) for x in isn)
          if not ok:
            dflt[key] = 'the default backend is consulted although no ' \
                'backend argument is known to be missing'
          else:
            dflt.setdefault(key, None)
          continue
        b = None
        isnew = e.res is not None and e.res.op == 'new'
        if e.bound is not None and 'backend' in e.bound:
          b = e.bound['backend']
        elif e.name == 'ncon' and (e.qual is None or
                                   e.qual.endswith('.ncon')):
          b = e.arg('backend', 5)
          if b is None and any(k == '**' for k, _ in e.kw or ()):
            continue
          if b is None:
            b = NONE
        else:
          continue
        if isnew and any(k in ('**', None) for k, _ in (e.kw or ())):
          continue
        if isnew and e.name == 'Node' and b is NONE and e.bound.get(
            'tensor') is not None and _is_node(prog, f, e.bound['tensor'], p):
          continue
        key = (f, e.name, e.loc)
        why = None
        none_param = any(x.op == 'param' for x in isn)
        if b.op == 'const':
          if keras and b.args[0] == 'tensorflow':
            pass
          elif f.name in ('from_serial_dict',) and not ops:
            pass
          elif ops or inst:
            why = ('the backend is omitted' if b is NONE else
                   'the backend is the constant %s' % b)
          elif b is not NONE and e.name != 'get_backend' and \
              'backend' in f.all_params():
            why = 'the backend is the constant %s, not the argument' % b
          elif b is NONE and 'backend' in f.all_params() and \
              P(f, 'backend') not in isn and e.name != 'get_backend':
            why = 'the backend argument is not passed on'
        elif default_terms(b):
          if (ops or inst) and not none_param:
            why = 'the backend is the active default'
          elif inst and isnew and e.name in ('Node', 'Tensor'):
            why = 'the operand has a backend but the default is used'
        elif inst and isnew and e.name in ('Tensor', 'Node') and \
            b is P(f, 'backend'):
          why = None
        if why:
          sites[key] = (why, e)
        else:
          sites.setdefault(key, (None, e))
  for (f, name, loc), (why, e) in sites.items():
    inst = '%s -> %s' % (short(f.qual), name)
    if why is None:
      rep.ok('backend-provenance', inst)
    else:
      rep.bad('backend-provenance', inst, why, loc)
  for (f, loc), why in dflt.items():
    rep.check('default-only-when-none', short(f.qual), why is None, why, loc)
  for (f, loc), why in stores.items():
    rep.check('stored-backend', short(f.qual), why is None, why, loc)
  rep.floor('backend-provenance', 150)
  rep.floor('default-only-when-none', 5)
  node_of_node(ctx, rep)
  like(ctx, rep)


def _is_node(prog, f, t, p):
  for u, v in facts(p):
    if v and is_call(u, 'isinstance') and u.args[1][0] is t and any(
        x.op == 'cls' and x.args[0].split('.')[-1].endswith('Node')
        for x in walk(u.args[1][1])):
      return True
  return False


def node_of_node(ctx, rep):
  """Node.__init__ given a node: the backend handed on is that node's."""
  f = ctx.prog.has_func('network_components.Node.__init__')
  if f is None or 'tensor' not in f.all_params():
    rep.undecided('node-of-node', 'network_components.Node.__init__',
                  'constructor not found')
    return
  paths, _ = ctx.paths(f, rep=rep)
  t = P(f, 'tensor')
  n = 0
  for p in paths or []:
    if p.outcome != 'return' or not feasible(p) or not _is_node(ctx.prog, f, t, p):
      continue
    for e in p.events:
      if e.kind == 'call' and e.name == '__init__' and e.bound and \
          'backend' in e.bound:
        n += 1
        b = e.bound['backend']
        rep.check('node-of-node', 'network_components.Node.__init__',
                  any(x is attr(t, 'backend') for x in walk(b)),
                  'the backend of the given node is not used: %s' % b, e.loc)
  if not n:
    rep.undecided('node-of-node', 'network_components.Node.__init__',
                  'no path for a node argument')


def like(ctx, rep):
  """Paths on which a parameter is known to be a Tensor/Node use its own."""
  rep.rule('result-of-operand',
           'an object built on a path where a parameter is a Tensor/Node '
           'takes a backend from an operand')
  seen = {}
  for f, paths in ctx.scan():
    if f.name.startswith('__') and f.name != '__matmul__':
      continue
    for p in paths:
      if p.outcome != 'return' or not feasible(p):
        continue
      ins = [u.args[1][0] for u, v in facts(p) if v and
             is_call(u, 'isinstance') and len(u.args[1]) == 2 and
             u.args[1][0].op == 'param' and u.args[1][1].op == 'cls' and
             u.args[1][1].args[0].split('.')[-1] in ('Tensor', 'AbstractNode',
                                                     'Node')]
      if not ins:
        continue
      for e in p.events:
        if e.kind != 'call' or not e.bound or 'backend' not in e.bound or \
            e.name in ('get_backend', 'ncon', '__init__'):
          continue
        b = e.bound['backend']
        key = '%s -> %s' % (short(f.qual), e.name)
        ok = any(x.op == 'attr' and x.args[1] == 'backend' for x in walk(b))
        if not ok and not (b.op == 'const' or default_terms(b) or
                           any(x.op == 'param' for x in walk(b))):
          ok = True
        if not ok and e.res is not None and e.res.op != 'new' and \
            b.op == 'param':
          ok = True
        if not ok:
          seen[key] = (b, e.loc)
        else:
          seen.setdefault(key, None)
  for k, v in seen.items():
    rep.check('result-of-operand', k, v is None,
              'backend is %s' % (v[0] if v else ''), v[1] if v else '')
