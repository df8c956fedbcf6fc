"""Serialisation agreement: every class that can be saved writes, on every path
of its saver, each dataset its loader reads; each dataset holds the attribute
it is named after; the loader hands each dataset to the constructor parameter
of the same meaning and leaves none at its default; the JSON form carries the
constructor's parameters; save_nodes restores the names it borrows on every
exit; load_nodes returns the nodes in the order they were saved in; the
component table covers every class that can be saved."""
import ast

from ..terms import T, walk, NONE, const
from ..lib import short, P, facts, loops

ASSUMPTIONS = [
    'h5py: create_dataset(name, data=..) writes, group[name] reads, '
    'Group.keys() iterates in name order (not creation order)',
    'dataset names that other code reads from the file: type, edges, shape',
]
NC = 'tensornetwork.network_components.'
EXEMPT_UNREAD = {'type', 'edges', 'shape'}
INLINE = ('_save_node', '_save_edge', '_load_node_data', 'to_serial_dict')
# dataset -> attributes it may hold (besides self.<name> and self._<name>)
HOLDS = {'type': {'__class__'}, 'edges': {'edges', '_edges'},
         'tensor': {'tensor', '_tensor'}}
# constructor parameter -> dataset
SLOT = {'rank': 'shape', 'dimension': 'shape', 'dtype': 'copy_node_dtype'}


def cstr(t):
  return t.args[0] if t is not None and t.op == 'const' and \
      isinstance(t.args[0], str) else None


def writes(p, group):
  """{dataset: (data term, loc)} written into `group` on path p."""
  out = {}
  for e in p.events:
    if e.kind == 'call' and e.name == 'create_dataset' and e.recv is group:
      kw = dict(e.kw or ())
      k = kw.get('name', e.pos[0] if e.pos else None)
      d = kw.get('data', e.pos[3] if len(e.pos or ()) > 3 else None)
      if cstr(k) is not None:
        out[cstr(k)] = (d, e.loc)
  return out


def reads_of(t, group):
  """Datasets of `group` read in term t."""
  return {cstr(x.args[1]) for x in walk(t)
          if x.op == 'item' and x.args[0] is group and cstr(x.args[1])}


def path_terms(p):
  for e in p.events:
    for t in list(e.pos or ()) + [v for _, v in e.kw or ()] + \
        [e.res, e.value, e.recv] + list((e.bound or {}).values()):
      if isinstance(t, T):
        yield t, e.loc
  if isinstance(p.value, T):
    yield p.value, '%s:%s' % (p.file, p.line)


def self_attrs(t, s):
  return {x.args[1] for x in walk(t) if x.op == 'attr' and x.args[0] is s}


def run(ctx, rep):
  rep.rule('saved', 'a dataset the loader reads is written on every path')
  rep.rule('read-back', 'every dataset that is written is read back')
  rep.rule('holds', 'a dataset holds the attribute it is named after')
  rep.rule('slot', 'each constructor parameter is given its own dataset')
  rep.rule('json', 'the JSON form carries every constructor parameter')
  rep.rule('names-restored', 'borrowed names are given back on every exit')
  rep.rule('order', 'nodes are loaded in the order they were saved in')
  rep.rule('components', 'every class that can be saved can be found')
  for cls, sv, ld in (('Node', '_save_node', '_load_node'),
                      ('CopyNode', '_save_node', '_load_node'),
                      ('Edge', '_save_edge', '_load_edge')):
    pair(ctx, rep, cls, sv, ld)
  json_rules(ctx, rep)
  names(ctx, rep)
  all_edges(ctx, rep)
  gathered(ctx, rep)
  load_order(ctx, rep)
  components(ctx, rep)
  rep.floor('saved', 8)
  rep.floor('slot', 8)


def method(ctx, cls, name):
  return ctx.prog.funcs.get(NC + cls + '.' + name)


def pair(ctx, rep, cls, sv, ld):
  f, g = method(ctx, cls, sv), method(ctx, cls, ld)
  if f is None or g is None:
    rep.undecided('saved', cls, 'saver or loader not found')
    return
  grp = P(f, f.user_params()[-1])
  s = P(f, f.params[0].name if hasattr(f.params[0], 'name') else f.params[0])
  sps, _ = ctx.paths(f, inline=INLINE, rep=rep)
  src = P(g, [a for a in g.user_params() if a != 'nodes_dict'][0])
  lps, _ = ctx.paths(g, inline=INLINE, rep=rep)
  sps = [p for p in sps or () if p.outcome == 'return']
  lps = [p for p in lps or () if p.outcome == 'return']
  if not sps or not lps:
    return
  written = [writes(p, grp) for p in sps]
  every = set.intersection(*[set(w) for w in written])
  some = set.union(*[set(w) for w in written])
  # facts under which optional datasets are guarded in the loader
  read_all = set()
  for p in lps:
    guarded = set()
    for t, v in facts(p):
      if t.op == 'cmp' and t.args[0] in ('in', 'notin') and cstr(t.args[1]):
        if v == (t.args[0] == 'in'):
          guarded.add(cstr(t.args[1]))
    if guarded:
      # datasets written together with a guarded one are there as well
      for w in written:
        if guarded <= set(w):
          pass
      common = [set(w) for w in written if guarded <= set(w)]
      guarded |= set.intersection(*common) if common else set()
    for t, loc in path_terms(p):
      for k in reads_of(t, src):
        read_all.add(k)
        if k in every or k in guarded:
          rep.ok('saved', '%s:%s' % (cls, k))
        elif k in some:
          rep.bad('saved', '%s:%s' % (cls, k), '%s reads the dataset %r, '
                  'which %s does not always write' % (ld, k, sv), loc)
        else:
          rep.bad('saved', '%s:%s' % (cls, k), '%s reads the dataset %r, '
                  'which %s never writes' % (ld, k, sv), loc)
  for w in written:
    for k, (d, loc) in sorted(w.items()):
      sq = '%s:%s' % (cls, k)
      if k in read_all or k in EXEMPT_UNREAD:
        rep.ok('read-back', sq)
      else:
        rep.bad('read-back', sq, 'the dataset %r is written but never read '
                'back' % k, loc)
      if d is None:
        continue
      got = self_attrs(d, s)
      want = HOLDS.get(k, set()) | {k, '_' + k}
      other = {a for a in got if a.lstrip('_') in some and a not in want}
      if k == 'type':
        rep.ok('holds', sq)
      elif got & want or (k == 'shape' and got & {'tensor', '_tensor'}):
        rep.ok('holds', sq)
      elif other:
        rep.bad('holds', sq, 'the dataset %r holds self.%s' %
                (k, sorted(other)[0]), loc)
      elif d.op == 'const' and any(
          t.op == 'attr' and t.args[1] == k for p in sps
          for t, _ in facts(p)):
        rep.ok('holds', sq)  # a stand-in for an empty value
      elif d.op == 'const':
        rep.bad('holds', sq, 'the dataset %r holds the constant %s' % (k, d),
                loc)
  # constructor slots
  for p in lps:
    for e in p.events:
      if e.kind != 'call' or e.bound is None:
        continue
      if not (e.qual == NC + cls or
              (e.res is not None and e.res.op == 'new' and
               e.name in (cls, '__init__', 'cls'))):
        continue
      for slot, t in e.bound.items():
        key = SLOT.get(slot, slot)
        if slot == 'self' or key not in some:
          continue
        sq = '%s(%s)' % (cls, slot)
        got = reads_of(t, src)
        if slot in (e.defaulted or ()):
          rep.bad('slot', sq, '%s leaves %r at its default although it is '
                  'saved' % (ld, slot), e.loc)
        elif got and key not in got:
          rep.bad('slot', sq, '%s gives %r the dataset %r' %
                  (ld, slot, sorted(got)[0]), e.loc)
        elif not got and t.op == 'const' and t is not NONE:
          rep.bad('slot', sq, '%s gives %r the constant %s' % (ld, slot, t),
                  e.loc)
        elif t is NONE and key in every:
          rep.bad('slot', sq, '%s drops the saved %r' % (ld, slot), e.loc)
        else:
          rep.ok('slot', sq)
  # edges: reattached at the axes that were saved
  if cls == 'Edge':
    for p in lps:
      for e in p.events:
        if e.kind == 'call' and e.name == 'add_edge':
          n = reads_of(e.recv, src) if e.recv is not None else set()
          b = e.bound or {}
          ax = b.get('axis', (list(e.pos or ()) + [None, None])[1])
          if ax is None:
            ax = dict(e.kw or ()).get('axis')
          a = reads_of(ax, src) if ax is not None else set()
          for i in '12':
            if 'node' + i in n:
              if a and 'axis' + i not in a:
                rep.bad('slot', 'Edge:add_edge', 'node%s is given the edge at '
                        'the axis of the other end' % i, e.loc)
              else:
                rep.ok('slot', 'Edge:add_edge')


def dict_keys(t):
  """Keys of a dict literal term (with later setitems ignored)."""
  if t.op == 'dict':
    return {cstr(k): v for k, v in t.args[0] if cstr(k)}
  return None


def json_rules(ctx, rep):
  # to_serial_dict of Node: keys = constructor parameters
  f = method(ctx, 'Node', 'to_serial_dict')
  base = method(ctx, 'AbstractNode', 'to_serial_dict')
  init = method(ctx, 'Node', '__init__')
  ed = method(ctx, 'Edge', 'to_serial_dict')
  to_j = ctx.prog.funcs.get('tensornetwork.network_operations.nodes_to_json')
  from_j = ctx.prog.funcs.get('tensornetwork.network_operations.nodes_from_json')
  if None in (f, base, init, ed, to_j, from_j):
    rep.undecided('json', 'to_serial_dict', 'serialiser not found')
    return
  def keys_of(fn):
    got = {}
    s = P(fn, fn.user_params()[0]) if fn.user_params() and \
        fn.user_params()[0] == 'self' else None
    ps, _ = ctx.paths(fn, inline=INLINE, rep=rep)
    for p in ps or ():
      if p.outcome != 'return':
        continue
      for x in walk(p.value):
        if x.op == 'dict':
          for k, v in x.args[0]:
            if cstr(k):
              got.setdefault(cstr(k), []).append((v, p))
      for e in p.events:
        if e.kind in ('setitem', 'store') and e.key is not None and \
            isinstance(e.key, T) and cstr(e.key):
          got.setdefault(cstr(e.key), []).append((e.value, p))
    return got
  got = keys_of(f)
  if not got:
    rep.undecided('json', 'Node.to_serial_dict', 'no dictionary recognised')
  else:
    params = [a for a in init.user_params() if a != 'self']
    for a in params:
      if a in got:
        rep.ok('json', 'Node:' + a)
      else:
        rep.bad('json', 'Node:' + a, 'the JSON form of a node omits %r' % a,
                '%s:%s' % (f.file, f.line))
    for k, vs in got.items():
      if k not in params:
        rep.bad('json', 'Node:' + k, 'the JSON form of a node has a key %r '
                'the constructor does not take' % k, '%s:%s' % (f.file, f.line))
      for v, p in vs:
        at = {x.args[1].lstrip('_') for x in walk(v) if x.op == 'attr' and
              x.args[0].op == 'param'}
        other = (at & set(params)) - {k, 'backend'}
        if k in at:
          rep.ok('json', 'Node=' + k)
        elif v.op == 'const':
          rep.bad('json', 'Node=' + k, 'the key %r of the JSON form always '
                  'holds %r' % (k, v.args[0]), '%s:%s' % (p.file, p.line))
        elif other:
          rep.bad('json', 'Node=' + k, 'the key %r of the JSON form holds '
                  'self.%s' % (k, sorted(other)[0]),
                  '%s:%s' % (p.file, p.line))
  eg = keys_of(ed)
  # what nodes_from_json reads from attributes
  rd = reads_tree(from_j.node)
  wr = written_tree(to_j.node) | set(eg) | set(got)
  for k, line in sorted(rd.items()):
    if k in wr or not eg:
      rep.ok('json', 'key:' + k)
    else:
      rep.bad('json', 'key:' + k, 'nodes_from_json reads the key %r, which '
              'nodes_to_json never writes' % k, '%s:%s' % (from_j.file, line))
  for k in sorted(written_tree(to_j.node) | set(eg)):
    if k in rd:
      rep.ok('json', 'read:' + k)
    elif rd:
      rep.bad('json', 'read:' + k, 'nodes_to_json writes the key %r, which '
              'nodes_from_json ignores' % k,
              '%s:%s' % (from_j.file, from_j.node.lineno))
  for fn in (to_j, from_j):
    for line, names, read in loops(fn):
      rep.check('json', 'element:%s %s' % (fn.name, ','.join(names)), read,
                'a loop never reads its element %s' % ','.join(names),
                '%s:%d' % (fn.file, line))
  ps, _ = ctx.paths(from_j, rep=rep)
  for p in ps or ():
    for t, loc in path_terms(p):
      for x in walk(t):
        if x.op == 'item' and cstr(x.args[1]) and x.args[0].op == 'item' and \
            cstr(x.args[0].args[1]) == 'attributes' and \
            any(cstr(y.args[1]) == 'edges' for y in walk(x.args[0].args[0])
                if y.op == 'item'):
          k = cstr(x.args[1])
          if k in eg or not eg:
            rep.ok('json', 'edge-key:' + k)
          else:
            rep.bad('json', 'edge-key:' + k, 'nodes_from_json reads the edge '
                    'attribute %r, which Edge.to_serial_dict does not write' %
                    k, loc)
    for e in p.events:
      if e.kind == 'call' and e.bound is not None and e.qual == NC + 'Edge':
        turn = {}
        for slot, t in e.bound.items():
          if slot[-1] in '12' and isinstance(t, T):
            turn[slot] = sum(reversal(x) for x in walk(t)) % 2
        for i in '12':
          a, b = turn.get('node' + i), turn.get('axis' + i)
          if a is not None and b is not None:
            rep.check('json', 'Edge turned ' + i, a == b, 'the nodes and the '
                      'axes of an edge are not taken in the same order', e.loc)
        for slot, t in e.bound.items():
          if slot == 'self':
            continue
          if slot in (e.defaulted or ()):
            rep.bad('json', 'Edge(%s)' % slot, 'nodes_from_json leaves %r of '
                    'the edge at its default' % slot, e.loc)
            continue
          ks = {cstr(x.args[1]) for x in walk(t)
                if x.op == 'item' and cstr(x.args[1])}
          want = {'name': 'name', 'axis1': 'axes', 'axis2': 'axes',
                  'node1': 'node_ids', 'node2': 'node_ids'}.get(slot)
          if want and ks and want not in ks:
            rep.bad('json', 'Edge(%s)' % slot, 'nodes_from_json gives %r of '
                    'the edge something else than %r' % (slot, want), e.loc)
          else:
            rep.ok('json', 'Edge(%s)' % slot)
          if slot[-1] in '12':
            ix = {x.args[1].args[0] for x in walk(t) if x.op == 'item' and
                  x.args[1].op == 'const' and
                  isinstance(x.args[1].args[0], int)}
            if ix and ix != {int(slot[-1]) - 1}:
              rep.bad('json', 'Edge[%s]' % slot, 'nodes_from_json gives %r '
                      'entry %s' % (slot, sorted(ix)), e.loc)


def reversal(x):
  if x.op == 'item' and isinstance(x.args[1], T) and \
      x.args[1].op == 'slice' and str(x.args[1]).endswith('-1)'):
    return 1
  return int(x.op == 'call' and x.args[0].op == 'ext' and
             x.args[0].args[0] in ('reversed', 'builtins.reversed'))


def reads_tree(node):
  """String keys subscripted / .get in a function: {key: line}."""
  out = {}
  for n in ast.walk(node):
    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and \
        isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
      out[n.slice.value] = n.lineno
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
        n.func.attr == 'get' and n.args and \
        isinstance(n.args[0], ast.Constant) and \
        isinstance(n.args[0].value, str):
      out[n.args[0].value] = n.lineno
  return out


def written_tree(node):
  out = set()
  for n in ast.walk(node):
    if isinstance(n, ast.Dict):
      out |= {k.value for k in n.keys if isinstance(k, ast.Constant) and
              isinstance(k.value, str)}
    if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and \
        isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
      out.add(n.slice.value)
  return out


def names(ctx, rep):
  """save_nodes renames only under a try whose finally renames back."""
  f = ctx.prog.funcs.get('tensornetwork.utils.save_nodes')
  if f is None:
    rep.undecided('names-restored', 'save_nodes', 'not found')
    return
  def renames(stmts, extra=True):
    out = []
    for s in stmts:
      for n in ast.walk(s):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
            n.func.attr == 'set_name':
          out.append(n)
        elif isinstance(n, ast.Assign):
          for t in n.targets:
            if isinstance(t, ast.Attribute) and t.attr in ('name', '_name'):
              out.append(n)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and extra:
          g = ctx.prog.funcs.get('tensornetwork.utils.' + n.func.id)
          if g is not None and g is not f:
            out += renames(g.node.body, False)
    return out
  tries = [n for n in ast.walk(f.node) if isinstance(n, ast.Try)]
  fin = []
  covered = set()
  for t in tries:
    r = renames(t.finalbody)
    fin += r
    if r:
      for n in ast.walk(ast.Module(t.body, [])):
        covered.add(id(n))
      for n in ast.walk(ast.Module(t.finalbody, [])):
        covered.add(id(n))
  direct = [n for n in ast.walk(f.node) if (
      isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
      n.func.attr == 'set_name')]
  allr = renames(f.node.body)
  if not allr:
    rep.ok('names-restored', 'save_nodes')
    return
  withs = [n for n in ast.walk(f.node) if isinstance(n, ast.With)]
  if not fin and any(
      isinstance(i.context_expr, ast.Call) and
      isinstance(i.context_expr.func, ast.Name) and
      ctx.prog.funcs.get('tensornetwork.utils.' + i.context_expr.func.id)
      for w in withs for i in w.items):
    rep.undecided('names-restored', 'save_nodes',
                  'names restored by a context manager')
    return
  for n in direct:
    if id(n) in covered:
      rep.ok('names-restored', 'save_nodes')
    else:
      rep.bad('names-restored', 'save_nodes', 'a name is changed outside of '
              'the try statement that gives it back',
              '%s:%s' % (f.file, n.lineno))
  kinds = set()
  for n in fin:
    if isinstance(n, ast.Call):
      kinds |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
  if fin and len(fin) < 2 and len(direct) >= 3:
    rep.bad('names-restored', 'save_nodes', 'only one kind of name is given '
            'back', '%s:%s' % (f.file, fin[0].lineno))


def gathered(ctx, rep):
  rep.rule('gathered', 'an entry stored in an inner loop keeps what earlier '
           'rounds of that loop stored')
  for n in ('nodes_to_json', 'nodes_from_json', '_build_serial_binding'):
    f = ctx.prog.funcs.get('tensornetwork.network_operations.' + n)
    if f is None:
      rep.undecided('gathered', n, 'not found')
      continue
    for p in ctx.paths(f, rep=rep)[0] or ():
      for e in p.events:
        if e.kind != 'setitem' or not e.loops or e.value is None:
          continue
        it = e.loops[-1]

        def of_round(t):
          return any(x.op in ('elem', 'idx') and x.args[0] is it
                     for x in walk(t))
        v = e.value
        if of_round(v) and not of_round(e.key) and not any(
            x.op == 'lc' or x is e.recv for x in walk(v)):
          rep.bad('gathered', '%s %s' % (short(f.qual), e.recv.op),
                  'every round of the loop over %s replaces the entry of the '
                  'round before' % str(it)[-60:], e.loc)
        elif of_round(v):
          rep.ok('gathered', '%s %s' % (short(f.qual), e.recv.op))
        if v.op == 'comp' and e.key is const('axes') and \
            v.args[1].op == 'ifexp':
          c = v.args[1].args[0]
          k = c.args[1].args[1] if c.op == 'cmp' and c.args[
              1].op == 'item' else None
          if k is not None:
            rep.check('gathered', short(f.qual) + ' axes', k.op != 'const',
                      'every axis is kept or dropped by entry %s' % k, e.loc)


def all_edges(ctx, rep):
  """Every edge whose first end is this node and that is not saved yet is
  saved: a path on which nothing else can be held against the edge saves it."""
  f = ctx.prog.funcs.get('tensornetwork.utils.save_nodes')
  if f is None:
    return
  ps, _ = ctx.paths(f, rep=rep)
  ps = [p for p in ps or () if p.outcome == 'return']
  if not any(e.kind == 'call' and e.name == '_save_edge' for p in ps
             for e in p.events):
    rep.undecided('saved', 'save_nodes', 'no _save_edge call recognised')
    return
  for p in ps:
    if any(e.kind == 'call' and e.name == '_save_edge' for e in p.events):
      rep.ok('saved', 'save_nodes:edges')
      continue
    about = [(t, v) for t, v in facts(p) if any(
        x.op == 'elem' and x.args[0].op == 'attr' and
        x.args[0].args[1] in ('edges', '_edges') for x in walk(t))]
    known = [(t, v) for t, v in about if t.op == 'cmp' and (
        t.args[0] in ('in', 'notin') or any(
            x.op == 'attr' and x.args[1] == 'node1' for x in walk(t)))]
    held = [t for t, v in known
            if v == (t.args[0] in ('notin', 'isnot', 'ne'))]
    other = [t for t, v in about if (t, v) not in known]
    if known and not held and other:
      rep.bad('saved', 'save_nodes:edges', 'an edge is not saved because of '
              '%s' % str(other[-1])[:60], '%s:%s' % (p.file, p.line))


def load_order(ctx, rep):
  f = ctx.prog.funcs.get('tensornetwork.utils.load_nodes')
  if f is None:
    rep.undecided('order', 'load_nodes', 'not found')
    return
  ps, _ = ctx.paths(f, rep=rep)
  seen = set()
  for p in ps or ():
    for e in p.events:
      if e.kind != 'call':
        continue
      if e.name == '_load_node':
        seen.add('node')
        for t in list(e.pos or ()) + [v for _, v in e.kw or ()] + \
            list((e.bound or {}).values()):
          for x in walk(t):
            if x.op == 'elem' and from_group(x.args[0], 'nodes'):
              rep.bad('order', 'load_nodes', 'the nodes are loaded in the '
                      'order of the names in the file, not in the order they '
                      'were saved in', e.loc)
              break
          else:
            rep.ok('order', 'load_nodes')
      if e.name == 'set_name' and e.recv is not None:
        arg = list(e.pos or ()) + [v for _, v in e.kw or ()] + \
            list((e.bound or {}).values())
        ks = {cstr(x.args[1]) for a in arg for x in walk(a)
              if x.op == 'item' and x.args[0].op == 'call' or
              x.op == 'item' and cstr(x.args[1])}
        edge = any(x.op == 'call' and str(x.args[0]).endswith('_load_edge')
                   for x in walk(e.recv))
        want, other = ('edge_names', 'node_names') if edge else \
            ('node_names', 'edge_names')
        seen.add(want)
        if other in ks and want not in ks:
          rep.bad('names-restored', 'load_nodes', 'the names of the %ss are '
                  'taken from %r' % ('edge' if edge else 'node', other), e.loc)
        else:
          rep.ok('names-restored', 'load_nodes')
  for want, what in (('edge_names', 'edges'), ('node_names', 'nodes')):
    if 'node' in seen and want not in seen:
      rep.bad('names-restored', 'load_nodes:' + want, 'the loaded %s keep '
              'their temporary names' % what,
              '%s:%s' % (f.file, f.node.lineno))


def from_group(t, name):
  """t iterates over the keys of the group `name` of a file."""
  while t.op == 'call' and t.args[0].op == 'ext' and len(t.args[1]) == 1:
    t = t.args[1][0]
  if t.op == 'call' and t.args[0].op == 'attr' and \
      t.args[0].args[1] in ('keys', 'values', 'items'):
    t = t.args[0].args[0]
  return t.op == 'item' and cstr(t.args[1]) == name


def components(ctx, rep):
  m = ctx.prog.modules.get('tensornetwork.component_factory')
  table = None
  if m is not None:
    for n in ast.walk(m.tree):
      if isinstance(n, ast.Dict) and n.keys and all(
          isinstance(k, ast.Constant) and isinstance(k.value, str)
          for k in n.keys) and all(isinstance(v, (ast.Name, ast.Attribute))
                                   for v in n.values):
        table = n
  if table is None:
    rep.undecided('components', 'component_factory', 'table not found')
    return
  names = {}
  for k, v in zip(table.keys, table.values):
    names[k.value] = v.id if isinstance(v, ast.Name) else v.attr
    if names[k.value] == k.value:
      rep.ok('components', k.value)
    else:
      rep.bad('components', k.value, 'the name %r finds the class %s' %
              (k.value, names[k.value]), '%s:%s' % (m.path, k.lineno))
  for q, c in sorted(ctx.prog.classes.items()):
    if not q.startswith(NC):
      continue
    nm = q[len(NC):]
    if nm == 'AbstractNode' or '.' in nm:
      continue
    ld = ctx.prog.funcs.get(q + '._load_node')
    if ld is not None:
      if nm in names:
        rep.ok('components', nm)
      else:
        rep.bad('components', nm, 'a saved %s cannot be found when loading' %
                nm, '%s:%s' % (m.path, table.lineno))
