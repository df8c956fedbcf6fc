"""Guard dominance: every returning path of an accessor of a node's edges or
shape, of an edge's name, axes and nodes, and of node disabling and matmul has
tested that the object is not disabled, and did so before it stored anything;
other public methods do not reach around these accessors; reading an end of an
edge tests that the node still exists."""
from ..terms import walk, NONE, mk
from ..lib import P, attr, facts, short, none_facts

ASSUMPTIONS = ['the disabled flag is the attribute is_disabled of the object']

EDGE = {'name', 'axis1', 'axis2', 'node1', 'node2'}
NODE = {'edges', 'shape'}
NODE_METHODS = {'disable', '__matmul__'}
PRIVATE = {'Edge': ('_nodes', '_axes', '_name'), 'Node': ('_edges',)}
# reads that are documented to work on disabled objects or precede use
FREE = {
    'network_components.Edge.get_nodes': 'returns the node slots, which '
    'disable() emptied',
    'network_components.Edge.disable': 'clears them',
    'network_components.AbstractNode.disable': 'sets the flag',
}


def run(ctx, rep):
  rep.rule('guarded', 'the accessor returns only if the object is not '
           'disabled')
  rep.rule('guard-first', 'nothing is stored before the test')
  rep.rule('end-exists', 'reading an end tests that its node exists')
  rep.rule('no-bypass', 'public methods do not read guarded private state '
           'without the test')
  prog = ctx.prog
  edge = prog.classes.get('tensornetwork.network_components.Edge')
  base = prog.classes.get('tensornetwork.network_components.AbstractNode')
  if edge is None or base is None:
    rep.undecided('guarded', 'classes', 'not found')
    return
  rep.exceptions += ['%s: %s' % x for x in FREE.items()]
  for q, f in sorted(prog.funcs.items()):
    if f.cls is None or f.parent is not None or f.is_stub() or \
        f.is_static or f.is_classmethod or not f.params:
      continue
    if f.cls is edge or prog.is_subclass(f.cls, edge):
      kind = 'Edge'
    elif prog.is_subclass(f.cls, base):
      kind = 'Node'
    else:
      continue
    sq = short(q)
    if f.name == '__init__' or sq in FREE and f.name != 'disable':
      continue
    must = (f.is_property or f.is_setter) and f.name in (
        EDGE if kind == 'Edge' else NODE)
    if kind == 'Node' and f.name in NODE_METHODS:
      must = True
    if f.name == 'shape' and f.cls.name != 'Node':
      must = False
    if kind == 'Edge' and f.name == 'disable':
      continue
    check(ctx, rep, f, sq, kind, must)
  rep.floor('guarded', 8)
  flag_rule(ctx, rep)


def check(ctx, rep, f, sq, kind, must):
  paths, _ = ctx.paths(f, rep=rep)
  if paths is None:
    return
  me = P(f, f.params[0])
  flag = attr(me, 'is_disabled')
  priv = PRIVATE[kind]
  for p in paths:
    if p.outcome != 'return':
      continue
    guarded = None
    pre = []
    touched = []
    for ev in p.events:
      if ev.kind == 'fact':
        t, v = ev.value, ev.aug
        while t.op == 'not':
          t, v = t.args[0], not v
        if t.op == 'cmp' and t.args[0] in ('is', 'eq') and t.args[1] is flag \
            and t.args[2].op == 'const':
          v = v == bool(t.args[2].args[0])
          t = flag
        if t is flag:
          guarded = not v
      elif ev.kind in ('setattr', 'setitem') and guarded is None and not (
          ev.kind == 'setattr' and ev.recv is not me):
        pre.append(ev)
      if ev.kind in ('setattr', 'setitem', 'call'):
        terms = [x for x in (ev.recv, ev.value, ev.key) if x is not None]
        if ev.kind == 'call':
          terms += list(ev.pos or ()) + [v for _, v in ev.kw or ()]
        for t in terms:
          touched += [x for x in walk(t) if x.op == 'attr' and
                      x.args[0] is me and x.args[1] in priv]
        if ev.kind == 'setattr' and ev.recv is me and ev.name in priv:
          touched.append(attr(me, ev.name))
    if p.value is not None:
      touched += [x for x in walk(p.value) if x.op == 'attr' and
                  x.args[0] is me and x.args[1] in priv]
    nested = any(x.op == 'attr' and x.args[0] is me and x.args[1] in (
        EDGE if kind == 'Edge' else NODE) and x.args[1] != f.name
                 for x in values(p)) or any(
                     e.kind == 'setattr' and e.recv is me and e.name in (
                         EDGE | NODE) and e.name != f.name for e in p.events)
    if must:
      bad = None
      if guarded is False:
        bad = 'a disabled object is served'
      elif guarded is None:
        if touched or not nested:
          bad = 'a path returns without testing whether the object is ' \
              'disabled'
        else:
          rep.undecided('guarded', sq, 'delegates to another accessor')
          continue
      rep.check('guarded', sq, bad is None, bad, p.loc)
      if pre and guarded is not None:
        rep.bad('guard-first', sq, 'state is stored before the test',
                pre[0].loc)
      elif guarded:
        rep.ok('guard-first', sq)
    elif touched and not f.name.startswith('_') and sq not in FREE:
      rep.check('no-bypass', sq, bool(guarded) or nested, 'reads %s of a possibly '
                'disabled object' % touched[0], p.loc)
    if kind == 'Edge' and f.is_property and f.name in ('node1', 'node2'):
      v = p.value
      if v is NONE or v.op != 'item' or v.args[0] is not attr(me, '_nodes'):
        # returned without a node: only for dangling edges
        if v is NONE and f.name == 'node2':
          dang = any(t is attr(me, '_is_dangling') and x for t, x in facts(p)
                     ) or any('dangling' in repr(t) and x
                              for t, x in facts(p))
          rep.check('end-exists', sq, dang, 'None is returned for an edge '
                    'that is not dangling', p.loc)
        elif v is NONE:
          rep.bad('end-exists', sq, 'None is returned as an end', p.loc)
        else:
          rep.undecided('end-exists', sq, repr(v)[:80])
        continue
      nf = none_facts(p)
      ok = nf.get(v) is False or any(
          t is v and x for t, x in facts(p))
      rep.check('end-exists', sq, ok, '%s is returned without testing that '
                'it exists' % v, p.loc)


def values(p):
  for ev in p.events:
    for t in (ev.recv, ev.value):
      if t is not None:
        yield from walk(t)
    for t in ev.pos or ():
      if hasattr(t, 'op'):
        yield from walk(t)
  if p.value is not None:
    yield from walk(p.value)


def flag_rule(ctx, rep):
  """disable() sets the flag; nothing clears it again."""
  rep.rule('flag', 'disable sets the flag on every path and nothing clears it')
  for q in ('network_components.AbstractNode.disable',
            'network_components.Edge.disable'):
    f = ctx.prog.has_func(q)
    if f is None:
      rep.undecided('flag', q, 'not found')
      continue
    ps, _ = ctx.paths(f, rep=rep)
    me = P(f, f.params[0])
    for p in ps:
      if p.outcome == 'return':
        ok = any(e.kind == 'setattr' and e.recv is me and
                 e.name == 'is_disabled' and e.value.op == 'const' and
                 e.value.args[0] for e in p.events)
        rep.check('flag', q, ok, 'a path leaves the object enabled', p.loc)
  for f, ps in ctx.scan(rep, skip=lambda f: not short(f.qual).startswith(
      ('network', 'utils', 'contractors', 'quantum', 'linalg'))):
    for p in ps:
      for e in p.events:
        if e.kind == 'setattr' and e.name == 'is_disabled':
          bad = e.value.op == 'const' and not e.value.args[0] and not (
              f.name == '__init__' and e.recv is P(f, f.params[0]))
          rep.check('flag', short(f.qual), not bad, 'a disabled object is '
                    'enabled again', e.loc)
