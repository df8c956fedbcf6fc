"""Keras configuration agreement: for every layer class, each constructor
argument is stored under its own name, never overwritten afterwards, and
appears in get_config under its own name in the form its store implies
(x -> self.x -> self.x; m.get(x) -> m.serialize(self.x)); the base
configuration is merged in; the class is registered under a package."""
import ast

from ..terms import walk, const
from ..lib import short, P, callee_name, callee_recv
from ..keras import layers, ConfigEval, Unknown

ASSUMPTIONS = [
    'keras: m.serialize(m.get(x)) round-trips for activations, initializers, '
    'regularizers, constraints; from_config calls cls(**config)',
    'get_config is evaluated over dictionaries with constant keys; loops run '
    'over literal lists',
]
SERIAL = ('activations', 'initializers', 'regularizers', 'constraints')


def run(ctx, rep):
  rep.rule('stored', 'each constructor argument is stored under its name')
  rep.rule('kept', 'no method overwrites a stored constructor argument')
  rep.rule('in-config', 'each constructor argument is in the configuration')
  rep.rule('form', 'each entry is serialised the way it was obtained')
  rep.rule('base-config', 'the configuration of the base class is merged in')
  rep.rule('registered', 'each layer can be found when it is loaded')
  for c in layers(ctx.prog):
    layer(ctx, rep, c)
  rep.floor('stored', 20)
  rep.floor('in-config', 20)


def module_of(t):
  """m of a term m.get(x) / m.serialize(x)."""
  n = callee_name(t)
  if n in ('get', 'serialize', 'deserialize') and t.op == 'call':
    s = str(t.args[0])
    for m in SERIAL:
      if (m + '.' + n) in s:
        return m
  return None


def layer(ctx, rep, c):
  init = ctx.prog.find_method(c, '__init__')
  gc = ctx.prog.find_method(c, 'get_config')
  cn = short(c.qual).split('.')[-1]
  where = '%s:%s' % (c.mod.rel, c.node.lineno)
  if any('register_keras_serializable' in ast.unparse(d)
         for d in c.node.decorator_list):
    rep.ok('registered', cn)
  else:
    rep.bad('registered', cn, 'the layer is not registered for loading', where)
  if init is None:
    return
  params = [a for a in init.user_params()]
  s = P(init, init.params[0])
  ps, _ = ctx.paths(init, rep=rep)
  form = {}
  for p in ps or ():
    if p.outcome != 'return':
      continue
    stores = {}
    for e in p.events:
      if e.kind == 'setattr' and e.recv is s:
        stores[e.name] = (e.value, e.loc)
    sup = {k for e in p.events if e.kind == 'call' and e.name == '__init__'
           for k, _ in e.kw or ()}
    for a in params:
      sq = cn + '.' + a
      t = P(init, a)
      if a in stores:
        v, loc = stores[a]
        others = [b for b in params if b != a and
                  any(x is P(init, b) for x in walk(v))]
        if any(x is t for x in walk(v)):
          rep.ok('stored', sq)
          form[a] = (module_of(v), v is t)
        elif others:
          rep.bad('stored', sq, 'self.%s is given the argument %r' %
                  (a, others[0]), loc)
        elif not str(v) == str(t) and v.op == 'const':
          # a constant on a path where the argument was inspected is a choice
          if any(e.kind == 'fact' and any(x is t for x in walk(e.value))
                 for e in p.events):
            rep.bad('stored', sq, 'self.%s is given %s instead of the '
                    'argument' % (a, v), loc)
          else:
            rep.bad('stored', sq, 'self.%s is given the constant %s' % (a, v),
                    loc)
      elif a in sup:
        rep.ok('stored', sq)
      elif not any(any(x is t for x in walk(v)) for v, _ in stores.values()):
        rep.bad('stored', sq, 'the argument %r is not stored' % a,
                '%s:%s' % (p.file, p.line))
      else:
        rep.undecided('stored', sq, 'stored under another name')
  # overwritten elsewhere
  for name, m in sorted(c.methods.items()):
    if name == '__init__':
      continue
    ms = P(m, m.params[0]) if m.params else None
    mp, _ = ctx.paths(m)
    for p in mp or ():
      for e in p.events:
        if e.kind == 'setattr' and e.recv is ms and e.name in params:
          v = e.value
          if any(x.op == 'attr' and x.args[0] is ms and x.args[1] == e.name
                 for x in walk(v)) and v.op == 'attr':
            continue
          rep.bad('kept', cn + '.' + e.name, '%s replaces the argument %r by '
                  '%s' % (name, e.name, str(v)[:40]), e.loc)
    rep.ok('kept', cn + '.' + name)
  if gc is None:
    rep.bad('in-config', cn, 'the layer has no get_config', where)
    return

  def resolve(name):
    if name == 'super':
      k = ctx.prog.mro(c)
      k = k[k.index(gc.cls) + 1:] if gc.cls in k else []
      for b in k:
        if 'get_config' in b.methods:
          return b.methods['get_config'].node
      return None
    if name.startswith('self.'):
      m = ctx.prog.find_method(c, name[5:])
      return m.node if m is not None else None
    d = ctx.prog.resolve_dotted(c.mod, name)
    if d and d[0] == 'func':
      f = ctx.prog.funcs.get(d[1])
      return f.node if f is not None else None
    return None
  ev = ConfigEval(gc.node, resolve)
  try:
    cfg = ev.run()
  except (Unknown, KeyError, ValueError, TypeError, IndexError) as x:
    rep.undecided('in-config', cn, 'get_config not evaluated: %s' % x)
    return
  if not isinstance(cfg, dict):
    rep.undecided('in-config', cn, 'get_config is not a dictionary')
    return
  loc = '%s:%s' % (gc.file, gc.line)
  if ConfigEval.BASE in cfg:
    rep.ok('base-config', cn)
  else:
    rep.bad('base-config', cn, 'the configuration of the base class is '
            'dropped', loc)
  for a in params:
    sq = cn + '.' + a
    if a not in cfg:
      rep.bad('in-config', sq, 'the configuration omits %r' % a, loc)
      continue
    rep.ok('in-config', sq)
    v = cfg[a]
    at = '%s:%s' % (gc.file, ev.lines.get(a, gc.line))
    text = ev.s(v)
    names = set(self_names(text))
    if a not in names:
      o = sorted(names & set(params))
      if o:
        rep.bad('form', sq, 'the entry %r holds self.%s' % (a, o[0]), at)
      elif v != ('expr', 'self.' + a) and not names and \
          not text.startswith('self'):
        rep.bad('form', sq, 'the entry %r holds %s' % (a, text[:40]), at)
      else:
        rep.undecided('form', sq, text[:40])
      continue
    m, raw = form.get(a, (None, True))
    got = [k for k in SERIAL if (k + '.serialize(') in text]
    if m and not got and text == 'self.' + a:
      rep.bad('form', sq, 'the entry %r holds the object, not its serialised '
              'form' % a, at)
    elif m and got and m not in got:
      rep.bad('form', sq, 'the entry %r is serialised by %s but was obtained '
              'from %s' % (a, got[0], m), at)
    elif raw and got:
      rep.bad('form', sq, 'the entry %r is serialised by %s but was stored as '
              'given' % (a, got[0]), at)
    else:
      rep.ok('form', sq)
  for k in cfg:
    if k != ConfigEval.BASE and k not in params and init.kwarg is None:
      rep.bad('in-config', cn + '.' + k, 'the configuration has an entry %r '
              'the constructor does not take' % k, loc)
    elif k != ConfigEval.BASE and k not in params:
      if k not in ('name', 'dtype', 'trainable', 'batch_input_shape',
                   'input_shape', 'input_dim', 'dynamic',
                   'activity_regularizer', 'autocast'):
        rep.bad('in-config', cn + '.' + k, 'the configuration has an entry %r '
                'the constructor does not take' % k, loc)


def self_names(text):
  try:
    t = ast.parse(text, mode='eval')
  except SyntaxError:
    return []
  return [n.attr for n in ast.walk(t) if isinstance(n, ast.Attribute) and
          isinstance(n.value, ast.Name) and n.value.id == 'self']
