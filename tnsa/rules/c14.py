"""Cache keys: for every store into a table that outlives the call (module
level dictionaries, attributes named *cache*), everything the stored value is
computed from is part of the key it is stored under (or is compared when the
entry is found again); functions that share a table store the same thing under
keys of the same form; the key that is tested, stored and read is one key; no
key is the address of an object; a cached block structure is never modified by
its users. Solvers that switch block caching restore the former state on every
exit, exceptional ones included."""
import ast

from ..terms import T, mk, walk, subst
from ..lib import short, P, facts, callee_name, callee_recv

ASSUMPTIONS = [
    'backends are instantiated once (get_backend), so `self` of a backend '
    'method is the same for all callers of a table',
    'the repr of a bytes object delimits it, so concatenated reprs keep the '
    'boundaries of their parts',
    'what charges do is determined by their values and their charge types',
]
REQUIRED = {'BaseCharge': (('charges', '_charges', 'unique_charges',
                            '_unique_charges'),
                           ('charge_types',))}
FINDERS = ('_find_diagonal_sparse_blocks',
           '_find_transposed_diagonal_sparse_blocks')
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse',
            'fill', 'resize', 'put', 'partition', 'itemset', 'clear', 'update'}
SETTERS = {'set_caching_status', 'enable_caching', 'disable_caching',
           'set_status'}
HARMLESS = {'get_cacher', 'get_caching_status', 'is_empty', 'len',
            'set_caching_status', 'getLogger'}


def table_of(t):
  """(root table term, [keys]) when t is (an item of) a long-lived table."""
  keys = []
  while True:
    if t.op == 'global' or (t.op == 'attr' and 'cache' in t.args[1].lower()):
      return t, keys
    if t.op == 'item':
      keys.insert(0, t.args[1])
      t = t.args[0]
      continue
    return None, None


def is_table(ctx, t):
  root, keys = table_of(t)
  if root is None:
    return None
  if root.op == 'global':
    q = root.args[0]
    mod, _, name = q.rpartition('.')
    m = ctx.prog.modules.get(mod)
    if m is None:
      return None
    for s in m.tree.body:
      tg, v = None, None
      if isinstance(s, ast.Assign) and len(s.targets) == 1:
        tg, v = s.targets[0], s.value
      elif isinstance(s, ast.AnnAssign):
        tg, v = s.target, s.value
      if isinstance(tg, ast.Name) and tg.id == name and v is not None:
        if isinstance(v, ast.Dict) and not v.keys:
          return root, keys
        if isinstance(v, ast.Call) and isinstance(
            v.func, (ast.Name, ast.Attribute)) and not v.args and \
            (v.func.id if isinstance(v.func, ast.Name) else v.func.attr) in (
                'dict', 'OrderedDict', 'WeakKeyDictionary', 'defaultdict'):
          return root, keys
    return None
  return root, keys


def deps(ctx, f, t, out=None, strict=False):
  """{(param name, attribute or None)} that a value is computed from."""
  out = set() if out is None else out
  if t.op == 'param':
    if t.args[0] == f.qual:
      out.add((t.args[1], None))
    return out
  if t.op == 'attr' and t.args[0].op == 'param' and \
      t.args[0].args[0] == f.qual:
    out.add((t.args[0].args[1], t.args[1]))
    return out
  if strict and t.op == 'call' and t.args[0].op == 'func':
    g = ctx.prog.funcs.get(t.args[0].args[0])
    if g is not None and g.body is not None:
      used = {n.id for s in g.body for n in ast.walk(s)
              if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
      for a, v in list(zip(g.params, t.args[1])) + list(t.args[2]):
        if a in used or a not in g.all_params():
          _deps_arg(ctx, f, v, out, strict)
      return out
  if t.op == 'closure':
    out |= closure_deps(f, t.args[0].split('.')[-1])
    return out
  for a in t.args:
    _deps_arg(ctx, f, a, out, strict)
  return out


def _deps_arg(ctx, f, a, out, strict):
  if isinstance(a, T):
    deps(ctx, f, a, out, strict)
  elif isinstance(a, (tuple, list)):
    for x in a:
      _deps_arg(ctx, f, x, out, strict)


def closure_deps(f, name):
  """Free variables of the nested function, as dependencies on parameters."""
  node = None
  for n in ast.walk(f.node):
    if isinstance(n, ast.FunctionDef) and n.name == name and n is not f.node:
      node = n
  if node is None:
    for n in ast.walk(f.node):
      if isinstance(n, ast.Lambda):
        node = n
  if node is None:
    return set()
  out = set()
  local = {a.arg for a in node.args.args + node.args.kwonlyargs}
  if node.args.vararg:
    local.add(node.args.vararg.arg)
  if node.args.kwarg:
    local.add(node.args.kwarg.arg)
  body = node.body if isinstance(node.body, list) else [node.body]
  for s in body:
    for n in ast.walk(s):
      if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
        local.add(n.id)
  params = set(f.all_params())
  for s in body:
    _expr_deps(f, s, local, params, out, set())
  return out


def _expr_deps(f, node, local, params, out, busy):
  skip = set()
  for n in ast.walk(node):
    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and \
        isinstance(n.value.ctx, ast.Load):
      v = n.value.id
      if v not in local and v in params:
        out.add((v, n.attr))
        skip.add(id(n.value))
  for n in ast.walk(node):
    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
        id(n) not in skip and n.id not in local:
      if n.id in params:
        out.add((n.id, None))
      elif n.id not in busy:
        for a in ast.walk(f.node):
          if isinstance(a, ast.Assign) and any(
              isinstance(t, ast.Name) and t.id == n.id for t in a.targets):
            _expr_deps(f, a.value, local, params, out, busy | {n.id})


def run(ctx, rep):
  rep.rule('key', 'the key determines everything the value is computed from')
  rep.rule('fields', 'keys over charges hold their values and their types')
  rep.rule('one-form', 'equal keys of one table are given equal values')
  rep.rule('one-key', 'one key is tested, stored and read')
  rep.rule('no-address', 'no key is the address of an object')
  rep.rule('not-modified', 'cached block structures are not modified')
  rep.rule('restored', 'the caching state is restored on every exit')
  rep.rule('memo', 'memoised functions depend on their arguments alone')
  back = ctx.prog.classes.get(
      'tensornetwork.backends.abstract_backend.AbstractBackend')
  stores = {}
  for f, ps in ctx.scan():
    sq = short(f.qual)
    selfp = f.params[0] if f.cls is not None and f.params and \
        not f.is_static else None
    exempt_self = f.cls is not None and back is not None and \
        ctx.prog.is_subclass(f.cls, back)
    for p in ps:
      tested, stored = {}, {}
      for e in p.events:
        mutation(rep, sq, e)
        if e.kind == 'fact':
          t = e.value
          while t.op == 'not':
            t = t.args[0]
          if t.op == 'cmp' and t.args[0] in ('in', 'notin'):
            r = is_table(ctx, t.args[2])
            if r:
              tested.setdefault(r[0], set()).add(tuple(r[1]) + (t.args[1],))
        if e.kind == 'setitem' and isinstance(e.recv, T):
          r = is_table(ctx, e.recv)
          if not r or not isinstance(e.key, T) or not isinstance(e.value, T):
            continue
          root, keys = r
          key = tuple(keys) + (e.key,)
          stored.setdefault(root, set()).add(key)
          store(ctx, rep, f, sq, selfp if exempt_self else None, p, e, root,
                key)
          if not (e.value.op in ('dict', 'list') and not e.value.args[0]):
            stores.setdefault(str(root) if root.op == 'global' else
                              f.cls.qual + str(root) if f.cls else str(root),
                              []).append((f, e, key))
      reads(ctx, rep, sq, p, tested, stored)
  shared(rep, stores)
  fields(ctx, rep)
  restored(ctx, rep)
  memo(ctx, rep)
  rep.floor('key', 6)
  rep.floor('restored', 3)


def store(ctx, rep, f, sq, exempt, p, e, root, key):
  have = set()
  for k in key:
    deps(ctx, f, k, have, True)
  deps(ctx, f, root, have)
  if root.op == 'attr' and root.args[0].op == 'param':
    have.add((root.args[0].args[1], None))
  for k in key:
    for x in walk(k):
      if x.op == 'call' and x.args[0].op == 'ext' and \
          x.args[0].args[0] == 'id' and len(x.args[1]) == 1:
        rep.bad('no-address', sq, 'a cache is keyed by the address of %s, '
                'which another object can have later' % str(x.args[1][0])[:40],
                e.loc)
  need = deps(ctx, f, e.value)
  missing = []
  for a, b in sorted(need, key=str):
    if a == exempt or (a, None) in have or (a, b) in have:
      continue
    missing.append(a if b is None else '%s.%s' % (a, b))
  if foreign_entry(e.value, root, key):
    rep.bad('key', sq + ' entry', 'the stored value is an entry of the same '
            'table under another key', e.loc)
  # a whole parameter in the value may be represented by one of its parts only
  if missing:
    rep.bad('key', '%s' % sq, 'the cached value depends on %s, which is not '
            'part of the key' % ', '.join(missing), e.loc)
  else:
    rep.ok('key', sq)


def foreign_entry(t, root, key):
  """The value is taken out of the table, not from under the stored key."""
  base = t
  while base.op in ('item', 'elem'):
    r, ks = table_of(base)
    if r is root:
      return tuple(ks) != tuple(key)[:len(ks)]
    base = base.args[0]
  if base is t:
    return False
  return any(x is root for x in walk(base))


def mutation(rep, sq, e):
  if e.kind in ('setitem', 'delitem', 'aug') and isinstance(e.recv, T):
    t = e.recv
  elif e.kind == 'call' and e.name in MUTATORS and isinstance(e.recv, T) and \
      e.bound is None:
    t = e.recv
  else:
    return
  d = 0
  while t.op in ('item', 'elem') or (t.op == 'attr' and d):
    t = t.args[0]
    d += 1
  if d and callee_name(t) in FINDERS:
    rep.bad('not-modified', sq, 'modifies the block structure obtained from '
            '%s, which may be cached' % callee_name(t), e.loc)


def reads(ctx, rep, sq, p, tested, stored):
  for root in set(tested) | set(stored):
    known = tested.get(root, set()) | stored.get(root, set())
    found = set()
    for t in path_terms(p):
      for x in walk(t):
        if x.op == 'item':
          r, ks = table_of(x)
          if r is root and ks and len(ks) == max(len(k) for k in known):
            found.add(tuple(ks))
    for k in found:
      if k in known:
        rep.ok('one-key', sq)
      elif not any(x.op == 'slice' for x in k):
        rep.bad('one-key', sq, 'reads the entry %s but tests or stores %s' %
                (str(k[-1])[:30], str(sorted(map(str, known))[0])[:40]),
                '%s:%s' % (p.file, p.line))
    t, s = tested.get(root, set()), stored.get(root, set())
    if s and t and not (s & t):
      rep.bad('one-key', sq, 'an entry is looked up under another key than it '
              'is stored under', '%s:%s' % (p.file, p.line))


def path_terms(p):
  for e in p.events:
    if e.kind == 'call':
      for t in list(e.pos or ()) + [v for _, v in e.kw or ()] + [e.recv, e.fn] \
          + list((e.bound or {}).values()):
        if isinstance(t, T):
          yield t
  if isinstance(p.value, T):
    yield p.value


def strip_wrap(t):
  while True:
    if t.op == 'decorated' and len(t.args) > 1 and isinstance(t.args[1], T):
      t = t.args[1]
    elif t.op == 'call' and callee_name(t) in ('Partial', 'jit', 'partial') \
        and len(t.args[1]) == 1:
      t = t.args[1][0]
    else:
      return t


def shape_of(key):
  """Key with parameters anonymised by order of appearance."""
  names = {}
  def go(t):
    if isinstance(t, T):
      if t.op == 'param':
        return ('P', names.setdefault(t, len(names)))
      return (t.op,) + tuple(go(a) for a in t.args)
    if isinstance(t, (tuple, list)):
      return tuple(go(a) for a in t)
    return t
  return go(key), names


def value_shape(v, names):
  def go(t):
    if isinstance(t, T):
      if t.op == 'param':
        return ('P', names.get(t, str(t.args[1])))
      if t.op == 'closure':
        return ('closure', t.args[0])
      return (t.op,) + tuple(go(a) for a in t.args)
    if isinstance(t, (tuple, list)):
      return tuple(go(a) for a in t)
    return t
  return go(strip_wrap(v))


def shared(rep, stores):
  for tab, ss in sorted(stores.items()):
    groups = {}
    for f, e, key in ss:
      sh, names = shape_of(key)
      groups.setdefault(sh, []).append((f, e, value_shape(e.value, names)))
    for sh, g in groups.items():
      vals = {}
      for f, e, v in g:
        vals.setdefault(v, []).append((f, e))
      if len(vals) == 1:
        rep.ok('one-form', short(g[0][0].qual))
        continue
      fs = {f.qual for f, _, _ in g}
      if len(fs) == 1:
        rep.ok('one-form', short(g[0][0].qual))
        continue
      # report the functions of the smaller group
      order = sorted(vals.values(), key=lambda l: len({f.qual for f, _ in l}))
      for f, e in order[0][:1]:
        rep.bad('one-form', short(f.qual), 'stores something else under the '
                'same key than %s does' % short(order[-1][0][0].qual), e.loc)


def fields(ctx, rep):
  for n in FINDERS:
    f = ctx.prog.funcs.get('tensornetwork.block_sparse.blocksparse_utils.' + n)
    if f is None:
      rep.undecided('fields', n, 'not found')
      continue
    ps, _ = ctx.paths(f, inline=('_to_string',), rep=rep)
    for p in ps or ():
      if p.outcome != 'return' or not isinstance(p.value, T):
        continue
      hit = None
      for x in walk(p.value):
        if x.op == 'item':
          r, ks = table_of(x)
          if r is not None and ks and r.op == 'attr':
            hit = ks[0]
      if hit is None:
        continue
      # only paths on which the entry was found, not stored, here
      if any(e.kind == 'setitem' and isinstance(e.recv, T) and
             table_of(e.recv)[0] is not None for e in p.events):
        continue
      seen = set()
      opaque = False
      for src in [hit] + [t for t, v in facts(p) if v and t.op == 'cmp' and
                          t.args[0] in ('eq', 'is') and any(
                              x.op == 'item' and table_of(x)[0] is not None
                              for x in walk(t))]:
        for x in walk(src):
          if x.op == 'attr' and x.args[0].op in ('elem', 'item') and any(
              y is P(f, 'charges') for y in walk(x.args[0])):
            seen.add(x.args[1])
          if x.op == 'call' and any(
              a.op in ('elem',) for a in x.args[1] if isinstance(a, T)):
            opaque = True
      for alts in REQUIRED['BaseCharge']:
        if seen & set(alts):
          rep.ok('fields', '%s:%s' % (n, alts[0]))
        elif opaque or not seen:
          rep.undecided('fields', '%s:%s' % (n, alts[0]), 'key not understood')
        else:
          rep.bad('fields', '%s:%s' % (n, alts[0]), 'cached blocks are reused '
                  'for charges with other %s' % alts[0],
                  '%s:%s' % (p.file, p.line))


def restored(ctx, rep):
  for q, f in sorted(ctx.prog.funcs.items()):
    if f.body is None or '.caching.' in q or f.cls is not None and \
        f.cls.name == 'Cacher':
      continue
    sets = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and
            fname(n) in SETTERS]
    if not sets:
      continue
    sq = short(q)
    former = set()
    for n in ast.walk(f.node):
      if isinstance(n, ast.Assign) and isinstance(n.value, (
          ast.Call, ast.Attribute)):
        nm = fname(n.value) if isinstance(n.value, ast.Call) else n.value.attr
        if nm in ('get_caching_status', 'do_caching'):
          former |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    def restores(call):
      return fname(call) in ('set_caching_status', 'set_status') and \
          call.args and isinstance(call.args[0], ast.Name) and \
          call.args[0].id in former
    tries = [t for t in ast.walk(f.node) if isinstance(t, ast.Try) and any(
        restores(c) for s in t.finalbody for c in ast.walk(s)
        if isinstance(c, ast.Call))]
    changing = [n for n in sets if not restores(n)]
    if not changing:
      rep.ok('restored', sq)
      continue
    if any(isinstance(n, ast.With) for n in ast.walk(f.node)) and not tries:
      rep.undecided('restored', sq, 'a context manager may restore the state')
      continue
    for n in changing:
      loc = '%s:%s' % (f.file, n.lineno)
      inside = [t for t in tries if any(
          c is n for s in t.body for c in ast.walk(s))]
      if inside:
        rep.ok('restored', sq)
        continue
      blk, i = block_of(f.node, n)
      j = next((k for k in range(i + 1, len(blk)) if blk[k] in tries), None) \
          if blk is not None else None
      if j is None:
        rep.bad('restored', sq, 'the caching state is changed but not restored '
                'on every exit', loc)
        continue
      risky = None
      for s in blk[i + 1:j]:
        for c in ast.walk(s):
          if isinstance(c, ast.Call) and fname(c) not in HARMLESS:
            risky = fname(c)
          if isinstance(c, (ast.Raise, ast.Return)):
            risky = type(c).__name__.lower()
      if risky:
        rep.bad('restored', sq, '%s may leave the function after the caching '
                'state was changed and before it is protected' % risky, loc)
      else:
        rep.ok('restored', sq)


def fname(c):
  f = c.func
  return f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', None)


def block_of(root, node):
  best = (None, None)
  for n in ast.walk(root):
    for fld in ('body', 'orelse', 'finalbody'):
      b = getattr(n, fld, None)
      if isinstance(b, list):
        for i, s in enumerate(b):
          if isinstance(s, ast.AST) and any(x is node for x in ast.walk(s)):
            best = (b, i)
  return best


def memo(ctx, rep):
  for q, f in sorted(ctx.prog.funcs.items()):
    for d in getattr(f.node, 'decorator_list', ()):
      t = d.func if isinstance(d, ast.Call) else d
      n = t.attr if isinstance(t, ast.Attribute) else getattr(t, 'id', '')
      if n not in ('lru_cache', 'cache', 'cached_property'):
        continue
      g = [x for s in f.body or () for x in ast.walk(s)
           if isinstance(x, ast.Call) and fname(x) in (
               'get_default_backend', 'get_caching_status', 'get_cacher')]
      if g:
        rep.bad('memo', short(q), 'a memoised function reads %s' %
                fname(g[0]), '%s:%s' % (f.file, f.line))
      elif n == 'cached_property' or (f.cls is not None and not f.is_static
                                      and not f.is_classmethod):
        attrs = {x.attr for s in f.body or () for x in ast.walk(s)
                 if isinstance(x, ast.Attribute) and
                 isinstance(x.value, ast.Name) and x.value.id == f.params[0]}
        late = [a for a in attrs if stored_late(ctx, f.cls, a)]
        if late:
          rep.bad('memo', short(q), 'the memoised value depends on self.%s, '
                  'which changes' % sorted(late)[0],
                  '%s:%s' % (f.file, f.line))
        else:
          rep.ok('memo', short(q))
      else:
        rep.ok('memo', short(q))


def stored_late(ctx, cls, a):
  """self.<a> (or self._<a>) is assigned outside of __init__."""
  for m in cls.methods.values():
    if m.name == '__init__':
      continue
    for n in ast.walk(m.node):
      if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and \
          n.attr.lstrip('_') == a.lstrip('_'):
        return True
  return a.lstrip('_') in getattr(cls, 'setters', {})
