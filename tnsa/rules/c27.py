"""Keras layers: the legs of a layer are sized by the rounded root that its
perfect-root check uses; both the input and the output size are checked before
any weight is created; every weight that is created is used by call; the bias
is added exactly when use_bias is set, on the channel axis, before the
activation, and the activation is applied exactly when there is one; kernel
weights use the kernel initializer and the bias the bias initializer."""
from ..terms import walk, NONE, const
from ..lib import short, P, facts, callee_name, attr
from ..keras import layers

ASSUMPTIONS = [
    'a float root of a perfect power is within 1/2 of the exact root, but may '
    'lie on either side of it',
    'the layer attributes holding the bias are named bias_var/bias, the flag '
    'use_bias and the activation self.activation',
]
TRUNC = {'ceil', 'floor', 'int', 'trunc'}


def root_of(t):
  """t contains a fractional power x ** (1/n)."""
  for x in walk(t):
    if x.op == 'bin' and x.args[0] == 'Pow':
      e = x.args[2]
      if e.op == 'bin' and e.args[0] == 'Div':
        return x
  return None


def run(ctx, rep):
  rep.rule('exact-root', 'float roots are rounded to the nearest integer')
  rep.rule('root-checked', 'sizes are checked before weights are created')
  rep.rule('weights-used', 'every weight that is created is used')
  rep.rule('bias', 'the bias is added exactly when use_bias is set')
  rep.rule('bias-axis', 'the bias of a convolution is added on the channels')
  rep.rule('activation', 'the activation is applied last, when there is one')
  rep.rule('initializer', 'each weight uses its own initializer')
  rep.rule('known-input', 'an unknown feature size is refused')
  for c in layers(ctx.prog):
    layer(ctx, rep, c)
  rep.floor('bias', 6)
  rep.floor('weights-used', 6)


def terms_of(p):
  for e in p.events:
    for t in list(e.pos or ()) + [v for _, v in e.kw or ()] + [e.value, e.res] \
        + list((e.bound or {}).values()):
      if t is not None and hasattr(t, 'op'):
        yield t, e.loc


def layer(ctx, rep, c):
  cn = short(c.qual).split('.')[-1]
  build = c.methods.get('build')
  call = c.methods.get('call')
  if build is None or call is None:
    rep.undecided('weights-used', cn, 'no build or call')
    return
  s = P(build, build.params[0])
  ps, _ = ctx.paths(build, rep=rep)
  weights = set()
  created_roots, sized = [], []
  for p in ps or ():
    checked_in = set()
    first = True
    for e in p.events:
      if e.kind == 'fact':
        t, v = e.value, e.aug
        while t.op == 'not':
          t, v = t.args[0], not v
        if t.op == 'cmp' and t.args[0] == 'is' and t.args[2] is NONE and not v:
          checked_in.add('none')
        r = root_of(t)
        if r is not None and t.op == 'cmp' and v == (
            t.args[0] in ('eq', 'is')):
          checked_in.add(strip(r.args[1]))
      if e.kind == 'setattr' and e.recv is s and adds_weight(e.value):
        weights.add(e.name)
      if e.kind == 'call' and e.name == 'append' and e.recv is not None and \
          any(adds_weight(a) for a in e.pos or ()):
        for x in walk(e.recv):
          if x.op == 'attr' and x.args[0] is s:
            weights.add(x.args[1])
      if e.kind == 'call' and e.name in TRUNC and len(e.pos or ()) == 1:
        r = root_of(e.pos[0])
        if r is not None and e.pos[0] is r:
          rep.bad('exact-root', cn, 'a float root is turned into an integer by '
                  '%s' % e.name, e.loc)
      if e.kind == 'call' and e.name == 'round' and len(e.pos or ()) == 1 and \
          root_of(e.pos[0]) is not None:
        rep.ok('exact-root', cn)
      if e.kind == 'call' and e.name == 'add_weight':
        kw = dict(e.kw or ())
        shape = kw.get('shape', e.pos[1] if len(e.pos or ()) > 1 else None)
        if shape is not None:
          for x in walk(shape):
            r = root_of(x) if callee_name(x) in ('round',) else None
            if r is None:
              continue
            if strip(r.args[1]) in checked_in:
              rep.ok('root-checked', cn)
            else:
              rep.bad('root-checked', cn, 'a weight is sized by the root of %s '
                      'before it is checked to be a perfect power' %
                      str(r.args[1])[:40], e.loc)
        if first:
          first = False
          if 'none' in checked_in:
            rep.ok('known-input', cn)
          else:
            rep.bad('known-input', cn, 'weights are created without refusing '
                    'an unknown feature size', e.loc)
        nm = kw.get('name')
        init = kw.get('initializer')
        isb = nm is not None and nm.op == 'const' and 'bias' in str(nm.args[0])
        for k in ('initializer', 'regularizer'):
          v = kw.get(k)
          want = ('bias_' if isb else 'kernel_') + k
          other = ('kernel_' if isb else 'bias_') + k
          has = v is not None and any(
              x.op == 'attr' and x.args[1] == want for x in walk(v))
          swap = v is not None and any(
              x.op == 'attr' and x.args[1] == other for x in walk(v))
          if swap and not has:
            rep.bad('initializer', cn, 'the %s is created with %s' % (
                'bias' if isb else 'kernel', other), e.loc)
          elif has:
            rep.ok('initializer', cn)
          elif v is None and k == 'initializer':
            rep.bad('initializer', cn, 'a weight is created without %s' % want,
                    e.loc)
  cps, _ = ctx.paths(call, rep=rep)
  cps = [p for p in cps or () if p.outcome == 'return']
  if not cps or not weights:
    rep.undecided('weights-used', cn, 'no path through call')
    return
  cs = P(call, call.params[0])
  used = {}
  for p in cps:
    for x in walk(p.value):
      if x.op == 'attr' and x.args[0] is cs:
        used.setdefault(x.args[1], p.line)
  for w in sorted(weights):
    if w in used:
      rep.ok('weights-used', cn + '.' + w)
    else:
      rep.bad('weights-used', cn + '.' + w, 'the weight self.%s is created but '
              'call never uses it' % w, '%s:%s' % (call.file, call.line))
  bias = [w for w in weights if w.startswith('bias')]
  if not bias:
    rep.undecided('bias', cn, 'no bias weight recognised')
    return
  b = attr(cs, bias[0])
  act = attr(cs, 'activation')
  flag = attr(cs, 'use_bias')
  for p in cps:
    loc = '%s:%s' % (p.file, p.line)
    fl, ac = None, None
    for t, v in facts(p):
      if t is flag:
        fl = v
      if t.op == 'cmp' and t.args[0] == 'is' and t.args[1] is b and \
          t.args[2] is NONE:
        fl = not v
      if t.op == 'cmp' and t.args[0] == 'is' and t.args[1] is act and \
          t.args[2] is NONE:
        ac = not v
      if t is act:
        ac = v
    has = any(x is b for x in walk(p.value))
    if fl is False and has:
      rep.bad('bias', cn, 'the bias is added although use_bias is off', loc)
    elif fl is True and not has:
      rep.bad('bias', cn, 'the bias is not added although use_bias is on', loc)
    elif fl is None and has:
      rep.bad('bias', cn, 'the bias is added without looking at use_bias', loc)
    elif fl is None and not any(any(x is b for x in walk(q.value))
                                for q in cps):
      rep.bad('bias', cn, 'the bias is never added', loc)
    else:
      rep.ok('bias', cn)
    applied = [x for x in walk(p.value) if x.op == 'call' and
               (x.args[0] is act)]
    if ac is None and not any(y is act for q in cps for y in walk(q.value)):
      rep.bad('activation', cn, 'the activation is never applied', loc)
    elif ac is True and not applied:
      rep.bad('activation', cn, 'the activation is not applied', loc)
    elif ac is False and applied:
      rep.bad('activation', cn, 'the activation is applied although there is '
              'none', loc)
    elif applied and has and not any(any(y is b for y in walk(x))
                                     for x in applied):
      rep.bad('activation', cn, 'the bias is added after the activation', loc)
    elif applied or ac is False:
      rep.ok('activation', cn)
    # the axis of the bias in a convolution
    conv = [x for x in walk(p.value) if callee_name(x) in ('conv2d',)]
    if conv and has:
      df = kwarg(conv[0], 'data_format')
      adds = [x for x in walk(p.value) if callee_name(x) == 'bias_add']
      if adds:
        if df is not None and df.op != 'const' and \
            kwarg(adds[0], 'data_format') is None:
          rep.bad('bias-axis', cn, 'the bias is added on the last axis '
                  'whatever the data format', loc)
        elif df is not None and kwarg(adds[0], 'data_format') is not df:
          rep.bad('bias-axis', cn, 'the bias is added on an axis of another '
                  'data format', loc)
        else:
          rep.ok('bias-axis', cn)
      else:
        plus = [x for x in walk(p.value) if x.op == 'bin' and
                x.args[0] == 'Add' and any(y is b for y in walk(x)) and
                any(y is conv[0] for y in walk(x))]
        flat = any(y is b or (callee_name(y) == 'reshape' and
                              len(y.args[1]) > 1 and y.args[1][0] is b and
                              y.args[1][1].op in ('list', 'tuple') and
                              len(y.args[1][1].args[0]) < 3)
                   for x in plus for y in x.args[1:])
        first = any(v and t.op == 'cmp' and t.args[0] == 'eq' and
                    'channels_first' in str(t) for t, v in facts(p))
        looked = any(('data_format' in str(t)) for t, _ in facts(p))
        if plus and flat and (first or not looked):
          rep.bad('bias-axis', cn, 'the bias is added on the last axis '
                  'whatever the data format', loc)
        else:
          rep.ok('bias-axis', cn)


def kwarg(t, n):
  for k, v in t.args[2]:
    if k == n:
      return v
  return None


def strip(t):
  while t.op == 'call' and t.args[0].op == 'ext' and len(t.args[1]) == 1 and \
      t.args[0].args[0].split('.')[-1] in ('int', 'float'):
    t = t.args[1][0]
  return t


def adds_weight(v):
  return v is not None and any(callee_name(x) == 'add_weight'
                               for x in walk(v))
