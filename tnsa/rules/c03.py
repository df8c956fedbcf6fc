"""Context-stack typestate and default-backend provenance: every path of
__enter__ pushes exactly self on top, every path of __exit__ pops exactly the
top and swallows nothing, the lookups read the top of the stack and otherwise
the global default, nobody else writes the stacks or the default,
set_default_backend stores its argument only after all rejections, and in
every function with an optional backend the default is consulted exactly where
the argument is None, is resolved before it is used as an object, and an
explicit argument is what reaches the constructed object."""
from ..terms import walk, NONE, const
from ..lib import (P, attr, facts, callee_name, callee_recv, is_call, short,
                   feasible, none_facts)
from .c02 import default_terms

ASSUMPTIONS = ['contexts are used through the with statement']

STACKED = (('backend_contextmanager.DefaultBackend', '_default_backend_stack'),
           ('network_components.NodeCollection', '_default_collection_stack'))


def is_stack(t):
  return t is not None and t.op == 'attr' and t.args[1] == 'stack'


def stack_ops(p):
  """[(op, argument)] of the path on a context stack; op 'other' = unknown."""
  out = []
  for e in p.events:
    if e.kind == 'call' and e.recv is not None and is_stack(e.recv):
      a = e.pos or ()
      if e.name == 'append':
        out.append(('push', a[0], e))
      elif e.name == 'pop':
        if not a or a[0] is const(-1):
          out.append(('pop', None, e))
        else:
          out.append(('bad', 'pop(%s)' % a[0], e))
      elif e.name in ('insert', 'clear', 'reverse', 'remove'):
        # remove takes out the first entry that matches: the outermost one
        # where a context was entered again inside itself
        out.append(('bad', e.name, e))
      elif e.name == 'extend':
        out.append(('other', e.name, e))
    elif e.kind == 'setattr' and e.name == 'stack':
      out.append(('other', 'store', e))
    elif e.kind in ('delitem', 'setitem') and is_stack(e.recv):
      if e.kind == 'delitem' and e.key is const(-1):
        out.append(('pop', None, e))
      else:
        out.append(('other', 'item', e))
  return out


def get(ctx, rep, rule, q):
  f = ctx.prog.has_func(q)
  if f is None:
    rep.undecided(rule, q, 'function not found')
    return None, []
  ps, _ = ctx.paths(f, rep=rep)
  if ps is None:
    return None, []
  return f, ps


def contexts(ctx, rep):
  rep.rule('enter-pushes', '__enter__ pushes self once on every path')
  rep.rule('exit-pops', '__exit__ pops the top once on every path, whatever '
           'exception is in flight, and does not swallow it')
  for cq, _ in STACKED:
    f, ps = get(ctx, rep, 'enter-pushes', cq + '.__enter__')
    if f:
      me = P(f, f.params[0])
      for p in ps:
        ops = stack_ops(p)
        if any(o == 'other' for o, _, _ in ops):
          rep.undecided('enter-pushes', cq, 'unrecognised stack operation')
          continue
        push = [a for o, a, _ in ops if o == 'push']
        bad = None
        if any(o == 'bad' for o, _, _ in ops):
          bad = 'stack operation that is not a push on top'
        elif any(o == 'pop' for o, _, _ in ops):
          bad = 'pops on entry'
        elif p.outcome == 'return' and len(push) != 1:
          bad = 'a path pushes %d times' % len(push)
        elif p.outcome == 'return' and push[0] is not me:
          bad = 'pushes %s' % push[0]
        rep.check('enter-pushes', cq, bad is None, bad, f.file)
    f, ps = get(ctx, rep, 'exit-pops', cq + '.__exit__')
    if f:
      for p in ps:
        ops = stack_ops(p)
        if any(o == 'other' for o, _, _ in ops):
          rep.undecided('exit-pops', cq, 'unrecognised stack operation')
          continue
        pops = [1 for o, _, _ in ops if o == 'pop']
        bad = None
        if any(o in ('bad', 'push') for o, _, _ in ops):
          bad = 'stack operation other than popping the top'
        elif len(pops) != 1:
          bad = 'a path pops %d times (%s)' % (len(pops), '; '.join(
              '%s=%s' % x for x in facts(p)))
        elif p.outcome == 'return' and p.value is not None and \
            p.value.op == 'const' and p.value.args[0]:
          bad = 'returns a true value and so swallows exceptions'
        elif p.outcome == 'return' and p.value is not None and \
            p.value.op in ('not', 'cmp') and f.params[1:2] and \
            _is_swallow(p.value, f):
          bad = 'swallows exceptions'
        rep.check('exit-pops', cq, bad is None, bad, f.file)
  # the context holds what it was given
  rep.rule('context-holds', 'the context object stores its argument')
  for cq, par, at in (('backend_contextmanager.DefaultBackend', 'backend',
                       'backend'), ('network_components.NodeCollection',
                                    'container', '_container')):
    f, ps = get(ctx, rep, 'context-holds', cq + '.__init__')
    if not f or par not in f.all_params():
      continue
    for p in ps:
      if p.outcome != 'return':
        continue
      st = [e for e in p.events if e.kind == 'setattr' and
            e.recv is P(f, f.params[0])]
      if not any(any(x is P(f, par) for x in walk(e.value)) for e in st):
        rep.bad('context-holds', cq, 'a path does not store the argument',
                f.file)
      elif any(e.name == at and not any(x is P(f, par)
                                        for x in walk(e.value)) for e in st):
        rep.bad('context-holds', cq, 'stores something else', f.file)
      else:
        rep.ok('context-holds', cq)


def _is_swallow(v, f):
  neg = False
  while v.op == 'not':
    v, neg = v.args[0], not neg
  if v.op == 'cmp' and v.args[0] in ('is', 'eq') and v.args[2] is NONE and \
      v.args[1].op == 'param':
    return neg
  return False


def lookups(ctx, rep):
  rep.rule('lookup-top', 'the active item is the top of the stack, else the '
           'default')
  for q, tail, empty in (
      ('backend_contextmanager._DefaultBackendStack.get_current_backend',
       'backend', 'default_backend'),
      ('ops._DefaultNodeCollectionStack.get_current_item', None, None)):
    f, ps = get(ctx, rep, 'lookup-top', q)
    if not f:
      continue
    st = attr(P(f, f.params[0]), 'stack')
    for p in ps:
      if p.outcome != 'return':
        continue
      v = p.value
      if tail and v.op == 'attr' and v.args[1] == tail:
        v = v.args[0]
      elif tail and any(x is st for x in walk(v)):
        rep.undecided('lookup-top', q, str(v))
        continue
      known = nonempty(p, st)
      if v.op == 'item' and v.args[0] is st:
        i = v.args[1]
        if i is const(-1):
          rep.ok('lookup-top', q)
        elif i.op == 'const' or (i.op == 'un' and i.args[1].op == 'const'):
          rep.bad('lookup-top', q, 'reads entry %s, not the innermost' % i,
                  p.loc)
        else:
          rep.undecided('lookup-top', q, str(v))
      elif known is True:
        rep.bad('lookup-top', q, 'inside a context %s is returned' % p.value,
                p.loc)
      elif known is False:
        w = p.value
        good = (w is attr(P(f, f.params[0]), empty)) if empty else w is NONE
        if good:
          rep.ok('lookup-top', q)
        elif w.op in ('const', 'attr'):
          rep.bad('lookup-top', q, 'outside a context %s is returned' % w,
                  p.loc)
        else:
          rep.undecided('lookup-top', q, str(w))
      else:
        if v is NONE or (empty and v.op == 'attr'):
          rep.bad('lookup-top', q, '%s is returned without looking at the '
                  'stack' % p.value, p.loc)
        else:
          rep.undecided('lookup-top', q, str(v))
  # the public accessors go through the lookups
  for q, m in (('backend_contextmanager.get_default_backend',
                'get_current_backend'),
               ('ops.get_current_collection', 'get_current_item')):
    f, ps = get(ctx, rep, 'lookup-top', q)
    for p in ps:
      if p.outcome != 'return':
        continue
      v = p.value
      if callee_name(v) == m:
        rep.ok('lookup-top', q)
      elif v.op == 'const' or (v.op == 'attr' and
                               v.args[1] == 'default_backend' and
                               not any(is_stack(x) for t, _ in facts(p)
                                       for x in walk(t))):
        rep.bad('lookup-top', q, 'returns %s without consulting the stack' % v,
                p.loc)
      else:
        rep.undecided('lookup-top', q, str(v))


def nonempty(p, st):
  for t, v in facts(p):
    if t is st:
      return v
    if t.op == 'cmp' and any(is_call(x, 'len') and x.args[1][0] is st
                             for x in walk(t)):
      _, a, b = t.args
      op = t.args[0]
      if is_call(a, 'len') and b is const(0):
        return (not v) if op in ('eq', 'le') else None
      if is_call(b, 'len') and a is const(0):
        return v if op == 'lt' else ((not v) if op == 'eq' else None)
      return None
    if is_call(t, 'len') and t.args[1][0] is st:
      return v
  return None


def set_default(ctx, rep):
  rep.rule('set-default-guarded', 'the global default is stored only after '
           'the in-context, type and name rejections, and it is the argument')
  q = 'backend_contextmanager.set_default_backend'
  f, ps = get(ctx, rep, 'set-default-guarded', q)
  if not f:
    return
  b = P(f, f.params[0])
  stored = 0
  for p in ps:
    st = [e for e in p.events if e.kind == 'setattr' and
          e.name == 'default_backend']
    if p.outcome == 'raise':
      rep.check('set-default-guarded', q + ' rejection', not st,
                'the default is changed before the rejection at %s' % p.loc,
                p.loc)
      continue
    if not st:
      rep.bad('set-default-guarded', q + ' store', 'a path returns without '
              'storing the default', p.loc)
      continue
    stored += 1
    e = st[-1]
    if e.value is not b and not any(x is b for x in walk(e.value)):
      rep.bad('set-default-guarded', q + ' store', 'stores %s' % e.value,
              e.loc)
    fs = facts(p, e)
    allf = facts(p)
    ins = stackfree(fs)
    if ins is None and stackfree(allf) is not None:
      pass
    rep.check('set-default-guarded', q + ' in-context', ins is not None and
              ins is not True, 'the default can be changed inside a context',
              e.loc)
    isb = any(v and is_call(t, 'isinstance') and t.args[1][0] is b
              for t, v in fs)
    called = any(callee_name(x) == 'get_backend' for ev in p.events
                 if ev.kind == 'call' and ev.res is not None
                 for x in [ev.res])
    rep.check('set-default-guarded', q + ' type', isb or called,
              'a value of any type is accepted', e.loc)
    # a text must be a known name
    texts = [(t, v) for t, v in fs if is_call(t, 'isinstance') and
             t.args[1][0] is b and 'Text' in str(t.args[1][1]) and
             t.args[1][1].op != 'tuple']
    strs = [v for t, v in fs if is_call(t, 'isinstance') and t.args[1][0] is b
            and ('Text' in str(t.args[1][1]) or 'str' in str(t.args[1][1]))]
    notb = any(v and is_call(t, 'isinstance') and t.args[1][0] is b and
               t.args[1][1].op == 'cls' for t, v in fs)
    member = [v for t, v in fs if t.op == 'cmp' and t.args[0] == 'in' and
              t.args[1] is b]
    if any(v is False for _, v in texts) or notb or called:
      rep.ok('set-default-guarded', q + ' name')
    elif member:
      rep.check('set-default-guarded', q + ' name', member[-1] is True,
                'an unknown name is stored', e.loc)
    elif any(t.op not in ('attr',) and any(x is b for x in walk(t)) and
             not is_call(t, 'isinstance') for t, v in fs):
      rep.undecided('set-default-guarded', q + ' name', 'unrecognised test')
    else:
      rep.bad('set-default-guarded', q + ' name',
              'a name is stored without having been looked up', e.loc)


def stackfree(fs):
  for t, v in fs:
    if is_stack(t):
      return v
    if any(is_stack(x) for x in walk(t)):
      if t.op == 'cmp':
        a, b = t.args[1], t.args[2]
        if is_call(a, 'len') and b is const(0) and t.args[0] in ('eq', 'le'):
          return not v
        if is_call(b, 'len') and a is const(0) and t.args[0] in ('lt',):
          return v
      if is_call(t, 'len'):
        return v
      return False  # some test of the stack
  return None


WRITERS = {
    'default_backend': ('set_default_backend', '__init__'),
    'stack': ('__enter__', '__exit__', '__init__'),
}


def defaults(ctx, rep):
  rep.rule('only-contexts-write', 'the context stacks and the global default '
           'are written only by the contexts, their constructors and '
           'set_default_backend')
  rep.rule('default-resolved', 'a backend given by name (argument or default) '
           'is resolved with get_backend before it is used as an object')
  rep.rule('default-used', 'where the backend argument is None the active '
           'default is used, and nothing else')
  rep.rule('explicit-wins', 'where the backend argument is given it is the '
           'backend used')
  nmod = ('ops', 'backend_contextmanager', 'network_components')
  for f, ps in ctx.scan(rep):
    sq = short(f.qual)
    has = 'backend' in f.all_params() and (f.cls.name if f.cls else '') not in (
        'DefaultBackend',) and not sq.startswith('backends.') and \
        f.name not in ('set_default_backend',)
    optional = has and 'backend' in f.defaults
    b = P(f, 'backend') if has else None
    anntext = has and 'Text' in ann(f, 'backend') or (
        has and 'str' in ann(f, 'backend'))
    res = {}

    def bad(rule, inst, msg, loc, res=res):
      res[(rule, inst)] = (msg, loc)

    def ok(rule, inst, res=res):
      res.setdefault((rule, inst), None)

    for p in ps:
      if not feasible(p):
        continue
      nf = none_facts(p)
      isinst = {(t.args[1][0]) for t, v in facts(p) if v and
                is_call(t, 'isinstance') and len(t.args[1]) == 2 and
                'AbstractBackend' in str(t.args[1][1]) and
                t.args[1][1].op != 'tuple'}
      hasat = {t.args[1][0] for t, v in facts(p) if v and
               is_call(t, 'hasattr')}
      for e in p.events:
        if e.kind == 'setattr' and e.name in WRITERS:
          own = f.name in WRITERS[e.name]
          rel = e.name == 'default_backend' or any(
              'default' in str(x) and 'stack' in str(x)
              for x in walk(e.recv))
          if rel and not own:
            bad('only-contexts-write', sq, 'writes %s' % e.name, e.loc)
          elif rel:
            ok('only-contexts-write', sq)
        if e.kind == 'call' and is_stack(e.recv) and 'default' in str(
            e.recv) and e.name in ('append', 'pop', 'clear', 'insert',
                                   'remove'):
          if f.name in ('__enter__', '__exit__') or ctx.is_new(f):
            ok('only-contexts-write', sq)
          else:
            bad('only-contexts-write', sq, '%s on a context stack' % e.name,
                e.loc)
        if e.kind != 'call':
          continue
        terms = list(e.pos or ()) + [v for _, v in e.kw or ()]
        if not ctx.is_new(f) and not sq.startswith('backend_contextmanager.'):
          for t in terms + [x for x in (e.recv,) if x is not None]:
            for x in walk(t):
              if x.op == 'attr' and x.args[1] == 'default_backend' and \
                  'default' in str(x.args[0]) and 'stack' in str(x.args[0]):
                bad('default-used', sq, 'reads the global default past the '
                    'active contexts', e.loc)
        used = set()
        if e.recv is not None:
          used.add(e.recv)
        if e.name in ('getattr',) and terms:
          used.add(terms[0])
        for t in terms + [x for x in (e.recv,) if x is not None]:
          for x in walk(t):
            if x.op == 'attr':
              used.add(x.args[0])
        for r in used:
          unres = callee_name(r) in ('get_default_backend',
                                     'get_current_backend') or (
                                         b is not None and r is b and anntext)
          if unres and r not in isinst and r not in hasat:
            bad('default-resolved', sq, '%s, which may be a name, is used as '
                'a backend object (%s)' % (r, e.name), e.loc)
          elif unres or callee_name(r) == 'get_backend':
            ok('default-resolved', sq)
        if not has:
          continue
        ba = e.bound.get('backend') if e.bound else None
        isnew = e.res is not None and e.res.op == 'new'
        if ba is None or p.outcome == 'raise':
          continue
        if nf.get(b) is True:
          if ba is NONE and e.name == 'get_backend':
            bad('default-used', sq, 'a missing backend is looked up', e.loc)
          elif ba.op == 'const' and ba is not NONE:
            bad('default-used', sq, 'the constant %s replaces the active '
                'default' % ba, e.loc)
          elif any(x is b for x in walk(ba)) and e.name == 'get_backend':
            bad('default-used', sq, 'a missing backend is looked up', e.loc)
          else:
            ok('default-used', sq)
        else:
          if default_terms(ba):
            bad('explicit-wins', sq, 'the active default is used although a '
                'backend may have been given', e.loc)
          elif ba.op == 'const' and (isnew or e.name == '__init__'):
            bad('explicit-wins', sq, 'the constant %s is used although a '
                'backend may have been given' % ba, e.loc)
          elif ba is NONE and e.name != 'get_backend' and e.name not in (
              'Node', 'Tensor'):
            bad('explicit-wins', sq, 'the backend argument is not passed to '
                '%s' % e.name, e.loc)
          else:
            ok('explicit-wins', sq)
      # get_backend on the argument without a None test
      if optional and f.defaults['backend'] is not None and \
          b not in nf and p.outcome == 'return':
        for e in p.events:
          if e.kind == 'call' and e.name == 'get_backend' and e.bound and \
              e.bound.get('backend') is b and not any(
                  t is b for t, _ in facts(p)):
            if _default_is_none(f):
              bad('default-used', sq, 'a missing backend is looked up without '
                  'falling back on the default', e.loc)
    for (rule, inst), r in res.items():
      if r is None:
        rep.ok(rule, inst)
      else:
        rep.bad(rule, inst, *r)
  rep.floor('default-used', 6)
  rep.floor('explicit-wins', 12)


def _default_is_none(f):
  import ast
  d = f.defaults.get('backend')
  return isinstance(d, ast.Constant) and d.value is None


def ann(f, name):
  import ast
  for a in f.node.args.args + f.node.args.kwonlyargs:
    if a.arg == name and a.annotation is not None:
      return ast.unparse(a.annotation)
  return ''


def collection(ctx, rep):
  rep.rule('node-joins', 'every returning path of the node constructor adds '
           'the node to the current collection if there is one')
  q = 'network_components.AbstractNode.__init__'
  f, ps = get(ctx, rep, 'node-joins', q)
  if f:
    me = P(f, f.params[0])
    for p in ps:
      if p.outcome != 'return':
        continue
      adds = [e for e in p.events if e.kind == 'call' and e.name == 'add' and
              e.pos and me in e.pos or (e.kind == 'call' and e.name == 'add'
                                        and e.bound and
                                        me in e.bound.values())]
      got = [e for e in p.events if e.kind == 'call' and
             e.name in ('get_current_collection', 'get_current_item')]
      none = [v for t, v in facts(p) if any(
          callee_name(x) in ('get_current_collection', 'get_current_item')
          for x in walk(t))]
      fs = [(t, v) for t, v in facts(p) if any(
          callee_name(x) in ('get_current_collection', 'get_current_item')
          for x in walk(t))]
      absent = any((t.op == 'cmp' and t.args[0] in ('is', 'eq') and
                    t.args[2] is NONE and v) or
                   (t.op == 'call' and callee_name(t) in
                    ('get_current_collection', 'get_current_item') and not v)
                   for t, v in fs)
      if len(adds) == 1 or (absent and not adds):
        rep.ok('node-joins', q)
      elif len(adds) > 1:
        rep.bad('node-joins', q, 'the node is added %d times' % len(adds),
                p.loc)
      else:
        rep.bad('node-joins', q, 'a path constructs the node without adding '
                'it to the current collection (%s)' % '; '.join(
                    '%s=%s' % x for x in facts(p))[:200], p.loc)
  # subclasses reach the base constructor
  prog = ctx.prog
  base = prog.cls('network_components.AbstractNode')
  for c in prog.subclasses(base):
    g = c.methods.get('__init__') if hasattr(c, 'methods') else None
    if g is None or c is base:
      continue
    ps, _ = ctx.paths(g, rep=rep)
    for p in ps or []:
      if p.outcome != 'return':
        continue
      n = [e for e in p.events if e.kind == 'call' and e.name == '__init__']
      rep.check('node-joins', short(g.qual), len(n) >= 1,
                'a path skips the base constructor', p.loc)
  q = 'network_components.NodeCollection.add'
  f, ps = get(ctx, rep, 'node-joins', q)
  if f:
    nd = P(f, f.params[1])
    for p in ps:
      if p.outcome != 'return':
        continue
      ins = [e for e in p.events if e.kind == 'call' and e.name in
             ('add', 'append', 'insert', 'update', 'extend')]
      other = [e for e in p.events if e.kind in ('setattr', 'setitem')]
      if len(ins) == 1 and any(x is nd for a in ins[0].pos
                               for x in walk(a)):
        rep.ok('node-joins', q)
      elif other or len(ins) > 1:
        rep.undecided('node-joins', q, 'unrecognised')
      else:
        rep.bad('node-joins', q, 'a path does not add the node', p.loc)


def run(ctx, rep):
  contexts(ctx, rep)
  lookups(ctx, rep)
  set_default(ctx, rep)
  defaults(ctx, rep)
  collection(ctx, rep)
