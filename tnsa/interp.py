"""Path-sensitive provenance dataflow over the syntax tree.

For one function the analyser enumerates its acyclic control-flow paths (each
loop body taken once, its variables standing for an arbitrary iteration),
propagating provenance terms through assignments, attribute stores, displays
and comprehensions, and recording the ordered events (calls, stores, raises)
together with the branch facts of each path.  Calls to helpers are expanded
in place (so extracting a helper changes nothing); every other call stays an
opaque term.  Infeasible paths are pruned only by exact facts (the same
condition assumed both ways, `None` tests, constant comparisons); there is no
solver and nothing of the repository is executed.
"""
import ast
import itertools

from .terms import T, mk, const, NONE, TRUE, FALSE, walk, param
from .model import Func, dotted

MAX_PATHS = 6000
MAX_DEPTH = 8


class Overflow(Exception):
  pass


class Ev:
  """One event on a path."""
  __slots__ = ('kind', 'fn', 'qual', 'name', 'recv', 'pos', 'kw', 'bound',
               'res', 'node', 'file', 'frame', 'loops', 'key', 'value', 'aug',
               'old', 'defaulted', 'inlined', 'incomp')

  def __init__(self, kind, **k):
    for s in self.__slots__:
      setattr(self, s, k.get(s))
    self.kind = kind

  @property
  def line(self):
    return getattr(self.node, 'lineno', 0)

  @property
  def loc(self):
    return '%s:%s' % (self.file, self.line)

  def arg(self, name, idx=None):
    """Argument bound to parameter `name` (or at position idx if unbound)."""
    if self.bound is not None:
      return self.bound.get(name)
    for k, v in self.kw or ():
      if k == name:
        return v
    if idx is not None and self.pos is not None and idx < len(self.pos):
      if any(isinstance(p, T) and p.op == 'star' for p in self.pos[:idx + 1]):
        return None
      return self.pos[idx]
    return None

  def __repr__(self):
    if self.kind == 'call':
      return '<call %s%s -> %s @%s>' % (
          self.qual or self.name, self.bound or (self.pos, self.kw), self.res,
          self.loc)
    return '<%s %s %s %s = %s @%s>' % (self.kind, self.recv, self.name or '',
                                       self.key or '', self.value, self.loc)


class State:
  __slots__ = ('env', 'heap', 'lits', 'evs', 'n')

  def __init__(self):
    self.env = {}
    self.heap = {}
    self.lits = {}
    self.evs = None
    self.n = 0

  def copy(self):
    s = State()
    s.env = dict(self.env)
    s.heap = dict(self.heap)
    s.lits = dict(self.lits)
    s.evs = self.evs
    s.n = self.n
    return s

  def add(self, ev):
    self.evs = (self.evs, ev)

  def events(self):
    out = []
    e = self.evs
    while e is not None:
      out.append(e[1])
      e = e[0]
    out.reverse()
    return out


class Path:
  """A finished path: outcome in {'return','raise'}."""

  def __init__(self, st, outcome, value, node, fileloc):
    self.events = st.events()
    self.lits = st.lits
    self.env = st.env
    self.heap = st.heap
    self.outcome = outcome
    self.value = value
    self.node = node
    self.file = fileloc

  @property
  def line(self):
    return getattr(self.node, 'lineno', 0)

  @property
  def loc(self):
    return '%s:%s' % (self.file, self.line)

  def calls(self, name=None, qual=None):
    for e in self.events:
      if e.kind == 'call' and (name is None or e.name == name) and (
          qual is None or e.qual == qual):
        yield e


class Frame:

  def __init__(self, func, parent=None, stack=()):
    self.func = func
    self.mod = func.mod
    self.file = func.mod.rel
    self.parent = parent  # defining frame env for closures
    self.stack = stack
    self.loops = ()
    self.nofork = 0
    self.sinks = []
    self.globals = set()
    self.base_loops = ()


_BUILTINS = set(
    dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)

_FLIP = {'Gt': 'lt', 'GtE': 'le'}


class Interp:

  def __init__(self,
               prog,
               inline=None,
               opaque=None,
               max_paths=MAX_PATHS,
               max_depth=MAX_DEPTH,
               exc_edges=False,
               nofork=False,
               inline_props=None,
               effect=None):
    self.prog = prog
    self.effect = effect
    self._inline = inline or (lambda f: False)
    self._inline_props = inline_props or (lambda f: False)
    self.max_paths = max_paths
    self.max_depth = max_depth
    self.exc_edges = exc_edges
    self.counter = itertools.count(1)
    self.closures = {}
    self.types = {}
    self.inlined = set()
    self.budget = 0
    self.all_nofork = nofork
    self.steps = 0
    self.notes = []

  # ---- public ------------------------------------------------------------
  def run(self, f, bindings=None, self_cls=None):
    """Enumerate the paths of function f; returns list of Path."""
    self.budget = 0
    self.steps = 0
    st = State()
    fr = Frame(f, None, (f.qual,))
    if f.parent is not None:
      fr.parent = self._parent_env(f)
    self._bind_entry(f, st, fr, bindings or {}, self_cls)
    outs = self.exec_body(f, st, fr)
    paths = []
    for s, sig in outs:
      if sig is None:
        paths.append(Path(s, 'return', NONE, f.node, fr.file))
      elif sig[0] == 'return':
        paths.append(Path(s, 'return', sig[1], sig[2], sig[3]))
      elif sig[0] == 'raise':
        paths.append(Path(s, 'raise', sig[1], sig[2], sig[3]))
    return paths

  def _parent_env(self, f):
    env = {}
    p = f.parent
    chain = []
    while p is not None:
      chain.append(p)
      p = p.parent
    for p in reversed(chain):
      for a in p.all_params() + [x for x in (p.vararg, p.kwarg) if x]:
        env[a] = param(p.qual, a)
        if p.ann.get(a) is not None:
          self.types[env[a]] = self.prog.parse_type(p.mod, p.ann[a])
    return env

  def _bind_entry(self, f, st, fr, bindings, self_cls):
    for i, a in enumerate(f.all_params()):
      t = bindings.get(a, param(f.qual, a))
      st.env[a] = t
      if a in bindings:
        continue
      if i == 0 and f.cls is not None and not f.is_static:
        c = self_cls or f.cls
        if f.is_classmethod:
          st.env[a] = mk('cls', c.qual)
        else:
          self.types[t] = ('cls', c.qual)
      elif f.ann.get(a) is not None:
        ty = self.prog.parse_type(f.mod, f.ann[a])
        if ty is not None:
          self.types[t] = ty
    if f.vararg:
      st.env[f.vararg] = bindings.get(f.vararg, param(f.qual, f.vararg))
    if f.kwarg:
      st.env[f.kwarg] = bindings.get(f.kwarg, param(f.qual, f.kwarg))

  # ---- statements --------------------------------------------------------
  def exec_body(self, f, st, fr):
    if isinstance(f.node, ast.Lambda):
      out = []
      fr.sinks.append([])
      res = self.ev(f.node.body, st, fr)
      sink = fr.sinks.pop()
      for s, t in res:
        out.append((s, ('return', t, f.node, fr.file)))
      return out + sink
    return self.block(f.docless_body() or [], st, fr)

  def block(self, stmts, st, fr):
    states = [st]
    done = []
    for s in stmts:
      nxt = []
      for x in states:
        for y, sig in self.stmt(s, x, fr):
          if sig is None:
            nxt.append(y)
          else:
            done.append((y, sig))
      states = self._dedupe(nxt)
      if len(states) + len(done) > self.max_paths:
        raise Overflow('%s: more than %d paths' % (fr.func.qual,
                                                   self.max_paths))
      if not states:
        break
    return done + [(x, None) for x in states]

  def _dedupe(self, states):
    if len(states) < 2:
      return states
    seen = set()
    out = []
    for s in states:
      k = (id(s.evs), tuple(sorted((n, id(t)) for n, t in s.env.items())),
           tuple(sorted((id(t), v) for t, v in s.lits.items())),
           tuple(sorted((hash(k), id(v)) for k, v in s.heap.items())))
      if k in seen:
        continue
      seen.add(k)
      out.append(s)
    return out

  def _with_sink(self, fr, fn):
    fr.sinks.append([])
    try:
      res = fn()
    finally:
      sink = fr.sinks.pop()
    return res, sink

  def stmt(self, s, st, fr):
    self.steps += 1
    if self.steps > 400000:
      raise Overflow('%s: step budget' % fr.func.qual)
    m = getattr(self, 's_' + type(s).__name__, None)
    if m is None:
      return [(st, None)]
    res, sink = self._with_sink(fr, lambda: m(s, st, fr))
    return res + sink

  def s_Expr(self, s, st, fr):
    if isinstance(s.value, ast.Constant):
      return [(st, None)]
    return [(x, None) for x, _ in self.ev(s.value, st, fr)]

  def s_Pass(self, s, st, fr):
    return [(st, None)]

  def s_Global(self, s, st, fr):
    fr.globals |= set(s.names)
    return [(st, None)]

  s_Nonlocal = s_Pass

  def s_Import(self, s, st, fr):
    for a in s.names:
      tgt = a.asname or a.name.split('.')[0]
      full = a.name if a.asname else a.name.split('.')[0]
      st.env[tgt] = (mk('mod', full) if full in self.prog.modules else mk(
          'ext', full))
    return [(st, None)]

  def s_ImportFrom(self, s, st, fr):
    for a in s.names:
      e = self.prog.resolve_entry(('from', s.module or '', a.name))
      st.env[a.asname or a.name] = self._entry_term(e)
    return [(st, None)]

  def s_Return(self, s, st, fr):
    if s.value is None:
      return [(st, ('return', NONE, s, fr.file))]
    return [(x, ('return', t, s, fr.file))
            for x, t in self.ev(s.value, st, fr)]

  def s_Raise(self, s, st, fr):
    if s.exc is None:
      return [(st, ('raise', mk('reraise'), s, fr.file))]
    out = []
    for x, t in self.ev(s.exc, st, fr):
      x.add(Ev('raise', value=t, node=s, file=fr.file, frame=fr.func.qual,
               loops=fr.loops))
      out.append((x, ('raise', t, s, fr.file)))
    return out

  def s_Assert(self, s, st, fr):
    out = []
    for x, b in self.cond(s.test, st, fr):
      if b:
        out.append((x, None))
      else:
        e = mk('call', mk('ext', 'AssertionError'), (), ())
        out.append((x, ('raise', e, s, fr.file)))
    return out

  def s_Delete(self, s, st, fr):
    for t in s.targets:
      if isinstance(t, ast.Name):
        st.env.pop(t.id, None)
      elif isinstance(t, ast.Subscript):
        r = self.ev(t.value, st, fr)
        st, b = r[0]
        r = self.ev(t.slice, st, fr)
        st, k = r[0]
        st.add(Ev('delitem', recv=b, key=k, node=s, file=fr.file,
                  frame=fr.func.qual, loops=fr.loops))
      elif isinstance(t, ast.Attribute):
        st, b = self.ev(t.value, st, fr)[0]
        st.add(Ev('delattr', recv=b, name=t.attr, node=s, file=fr.file,
                  frame=fr.func.qual, loops=fr.loops))
    return [(st, None)]

  def s_FunctionDef(self, s, st, fr):
    f = getattr(s, '_tnsa_func', None)
    if f is None:
      f = Func(fr.func.qual + '.<locals>.' + s.name, s, fr.mod,
               parent=fr.func)
    t = self._closure(f, st, fr)
    # decorators: keep the wrapped closure reachable
    for d in reversed(s.decorator_list):
      res, _ = self._with_sink(fr, lambda d=d: self.ev(d, st, fr))
      if res:
        st, dt = res[0]
        dn = self._dotted_term(dt)
        if dn and dn.split('.')[-1] in ('wraps',):
          continue
        if dt.op == 'call' and self._dotted_term(dt.args[0]) and \
            self._dotted_term(dt.args[0]).endswith('functools.wraps'):
          continue
        t = mk('decorated', dt, t)
    st.env[s.name] = t
    return [(st, None)]

  def _closure(self, f, st, fr):
    cid = next(self.counter)
    self.closures[cid] = (f, st, fr)
    return mk('closure', f.qual, cid)

  def s_ClassDef(self, s, st, fr):
    st.env[s.name] = mk('localcls', s.name)
    return [(st, None)]

  def s_Assign(self, s, st, fr):
    out = []
    for x, v in self.ev(s.value, st, fr):
      if len(s.targets) == 1 and isinstance(
          s.targets[0], ast.Name) and s.value is not None:
        x.env[s.targets[0].id] = v
        out.append((x, None))
        continue
      ys = [x]
      for t in s.targets:
        zs = []
        for y in ys:
          zs += self.assign(t, v, y, fr, s)
        ys = zs
      out += [(y, None) for y in ys]
    return out

  def s_AnnAssign(self, s, st, fr):
    if s.value is None:
      return [(st, None)]
    out = []
    for x, v in self.ev(s.value, st, fr):
      out += [(y, None) for y in self.assign(s.target, v, x, fr, s)]
    return out

  def s_AugAssign(self, s, st, fr):
    op = type(s.op).__name__
    out = []
    tgt = s.target
    if isinstance(tgt, ast.Name):
      for x, v in self.ev(s.value, st, fr):
        old = self._name(tgt.id, x, fr)
        new = self._binop(op, old, v)
        x.add(Ev('aug', recv=old, name=tgt.id, key=const(op), value=v, aug=op,
                 old=old, res=new, node=s, file=fr.file, frame=fr.func.qual,
                 loops=fr.loops))
        x.env[tgt.id] = new
        out.append((x, None))
      return out
    if isinstance(tgt, ast.Attribute):
      for x, b in self.ev(tgt.value, st, fr):
        for y, old in self.getattr(b, tgt.attr, x, fr, tgt):
          for z, v in self.ev(s.value, y, fr):
            new = self._binop(op, old, v)
            out += [(w, None) for w in self.setattr(
                b, tgt.attr, new, z, fr, s, aug=op, old=old)]
      return out
    if isinstance(tgt, ast.Subscript):
      for x, b in self.ev(tgt.value, st, fr):
        for y, k in self.ev(tgt.slice, x, fr):
          old = self._item(b, k, y)
          for z, v in self.ev(s.value, y, fr):
            new = self._binop(op, old, v)
            self._setitem(b, k, new, z, fr, s, aug=op, old=old)
            out.append((z, None))
      return out
    return [(st, None)]

  def assign(self, tgt, v, st, fr, node):
    if isinstance(tgt, ast.Name):
      st.env[tgt.id] = v
      return [st]
    if isinstance(tgt, ast.Starred):
      return self.assign(tgt.value, v, st, fr, node)
    if isinstance(tgt, (ast.Tuple, ast.List)):
      sts = [st]
      n = len(tgt.elts)
      star = next((i for i, e in enumerate(tgt.elts)
                   if isinstance(e, ast.Starred)), None)
      for i, e in enumerate(tgt.elts):
        if star is not None and i == star:
          sub = mk('item', v, mk('slice', const(i), const(-(n - 1 - i)) if
                                 n - 1 - i else NONE, NONE))
        elif star is not None and i > star:
          sub = None
        else:
          sub = None
        nxt = []
        for s in sts:
          if sub is not None:
            val = sub
          else:
            idx = i if star is None or i < star else i - n
            val = self._item(v, const(idx), s)
          nxt += self.assign(e, val, s, fr, node)
        sts = nxt
      return sts
    if isinstance(tgt, ast.Attribute):
      out = []
      for x, b in self.ev(tgt.value, st, fr):
        out += self.setattr(b, tgt.attr, v, x, fr, node)
      return out
    if isinstance(tgt, ast.Subscript):
      out = []
      for x, b in self.ev(tgt.value, st, fr):
        for y, k in self.ev(tgt.slice, x, fr):
          self._setitem(b, k, v, y, fr, node)
          out.append(y)
      return out
    return [st]

  def setattr(self, b, name, v, st, fr, node, aug=None, old=None):
    ty = self.type_of(b)
    if ty and ty[0] == 'cls':
      c = self.prog.classes[ty[1]]
      setter = self.prog.find_setter(c, name)
      if setter is not None and self._want(setter, fr):
        outs = self.inline_call(setter, [b, v], (), st, fr, node, prop=True)
        return [x for x, _ in outs]
    st.add(Ev('setattr', recv=b, name=name, value=v, aug=aug, old=old,
              node=node, file=fr.file, frame=fr.func.qual, loops=fr.loops))
    st.heap[(b, name)] = v
    return [st]

  def _setitem(self, b, k, v, st, fr, node, aug=None, old=None):
    st.add(Ev('setitem', recv=b, key=k, value=v, aug=aug, old=old, node=node,
              file=fr.file, frame=fr.func.qual, loops=fr.loops))
    st.heap[(b, ('item', k))] = v

  def s_If(self, s, st, fr):
    out = []
    for x, b in self.cond(s.test, st, fr):
      out += self.block(s.body if b else s.orelse, x, fr)
    return out

  def _assigned(self, stmts):
    names = set()
    for s in stmts:
      for n in ast.walk(s):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
          names.add(n.id)
    return names

  def _enter_loop(self, st, fr, stmts, lid):
    """Loop-carried variables stand for 'value after some iterations'."""
    carried = {}
    for n in sorted(self._assigned(stmts) | self._appended(stmts)):
      if n in st.env:
        init = st.env[n]
        lc = mk('lc', n, init, lid)
        carried[n] = (init, lc)
        st.env[n] = lc
        ty = self.type_of(init)
        if ty is not None:
          self.types[lc] = ty
    return carried

  def _appended(self, stmts):
    names = set()
    for s in stmts:
      for n in ast.walk(s):
        if isinstance(n, ast.Call) and isinstance(
            n.func, ast.Attribute) and n.func.attr in (
                'append', 'extend', 'insert', 'add', 'update') and isinstance(
                    n.func.value, ast.Name):
          names.add(n.func.value.id)
    return names

  def _leave_loop(self, st, carried, it, lid):
    for n, (init, lc) in carried.items():
      cur = st.env.get(n)
      if cur is None:
        continue
      if cur is not lc:
        st.add(Ev('carry', name=n, key=lc, value=cur))
      if cur is lc:
        st.env[n] = init
      elif cur.op == 'append' and cur.args[0] is lc and init.op in (
          'list', 'set') and not init.args[0] and it is not None:
        st.env[n] = mk('comp', init.op, cur.args[1], _canon_iter(it), ())
      elif cur.op == 'extend' and cur.args[0] is lc and init.op in (
          'list', 'set') and not init.args[0] and it is not None:
        st.env[n] = mk('flat', init.op, cur.args[1], it)
      ty = self.type_of(init)
      if ty is not None and st.env[n] not in self.types:
        self.types[st.env[n]] = ty

  def s_For(self, s, st, fr):
    out = []
    for x, it in self.ev(s.iter, st, fr):
      lid = '%s:%d' % (fr.func.qual, next(self.counter) if False else s.lineno)
      if it.op in ('tuple', 'list') and 0 < len(it.args[0]) <= 4 and not any(
          e.op == 'star' for e in it.args[0]):
        # literal iterables: exact unrolling
        states = [(x, None)]
        broke = []
        for e in it.args[0]:
          nxt = []
          for y, _ in states:
            for z in self.assign(s.target, e, y, fr, s):
              for w, sig in self.block(s.body, z, fr):
                if sig is None or sig[0] == 'continue':
                  nxt.append((w, None))
                elif sig[0] == 'break':
                  broke.append((w, None))
                else:
                  out.append((w, sig))
          states = nxt
        for y, _ in states:
          out += self.block(s.orelse, y, fr)
        out += broke
        continue
      if it.op in ('tuple', 'list') and not it.args[0]:
        out += self.block(s.orelse, x, fr)
        continue
      carried = self._enter_loop(x, fr, s.body, lid)
      val = self._elem(it, x, fr)
      if fr.loops and any(l is it for l in fr.loops):
        val = mk('elem', it, 'n%d' % sum(1 for l in fr.loops if l is it))
        self._elem_type(val, it)
      saved = fr.loops
      fr.loops = fr.loops + (it,)
      try:
        for y in self.assign(s.target, val, x, fr, s):
          for w, sig in self.block(s.body, y, fr):
            if sig is None or sig[0] == 'continue':
              self._leave_loop(w, carried, it, lid)
              fr.loops = saved
              out += self.block(s.orelse, w, fr)
              fr.loops = saved + (it,)
            elif sig[0] == 'break':
              self._leave_loop(w, carried, it, lid)
              out.append((w, None))
            else:
              out.append((w, sig))
      finally:
        fr.loops = saved
    return out

  s_AsyncFor = s_For

  def s_While(self, s, st, fr):
    out = []
    lid = '%s:%d' % (fr.func.qual, s.lineno)
    entry = st.copy()
    carried = self._enter_loop(st, fr, s.body, lid)
    wt = mk('while', lid)
    saved = fr.loops
    fr.loops = fr.loops + (wt,)
    exits = []
    fell = []
    try:
      for x, b in self.cond(s.test, st, fr):
        if not b:
          continue
        for w, sig in self.block(s.body, x, fr):
          if sig is None or sig[0] == 'continue':
            fell.append(w)
          elif sig[0] == 'break':
            self._leave_loop(w, carried, None, lid)
            exits.append((w, None))
          else:
            out.append((w, sig))
    finally:
      fr.loops = saved
    forever = isinstance(s.test, ast.Constant) and bool(s.test.value)
    if not (forever and (exits or out)):
      for w in fell:
        self._leave_loop(w, carried, None, lid)
        exits += self.block(s.orelse, w, fr)
    if not exits and not out:
      exits = [(entry, None)]
    return out + exits

  def s_Break(self, s, st, fr):
    return [(st, ('break',))]

  def s_Continue(self, s, st, fr):
    return [(st, ('continue',))]

  def s_With(self, s, st, fr):
    out = []
    states = [(st, [])]
    for it in s.items:
      nxt = []
      for x, cms in states:
        for y, c in self.ev(it.context_expr, x, fr):
          y.add(Ev('enter', value=c, node=s, file=fr.file, frame=fr.func.qual,
                   loops=fr.loops))
          if it.optional_vars is not None:
            for z in self.assign(it.optional_vars, mk('entered', c), y, fr, s):
              nxt.append((z, cms + [c]))
          else:
            nxt.append((y, cms + [c]))
      states = nxt
    for x, cms in states:
      for y, sig in self.block(s.body, x, fr):
        for c in reversed(cms):
          y.add(Ev('exit', value=c, node=s, file=fr.file, frame=fr.func.qual,
                   loops=fr.loops))
        out.append((y, sig))
    return out

  s_AsyncWith = s_With

  def s_Try(self, s, st, fr):
    entry = st.copy()
    res = self.block(s.body, st, fr)
    out = []
    raised = []
    for x, sig in res:
      if sig is not None and sig[0] == 'raise':
        raised.append((x, sig))
      elif sig is None:
        out += self.block(s.orelse, x, fr)
      else:
        out.append((x, sig))
    # explicit raises inside the body: exact matching by exception name
    caught_any = False
    for x, sig in raised:
      en = exc_name(sig[1])
      done = False
      for h in s.handlers:
        if self._handles(h, en):
          caught_any = True
          if h.name:
            x.env[h.name] = sig[1]
          out += self._handler(h, x, fr, sig)
          done = True
          break
      if not done:
        out.append((x, sig))
    # an arbitrary exception of an opaque operation in the body
    for h in s.handlers:
      x = entry.copy()
      names = self._handler_names(h)
      ex = mk('caught', '|'.join(names) or 'BaseException', s.lineno)
      x.lits[ex] = True
      x.add(Ev('caught', value=ex))
      if h.name:
        x.env[h.name] = ex
      out += self._handler(h, x, fr, ('raise', ex, h, fr.file))
    if s.finalbody:
      fin = []
      for x, sig in out:
        for y, sig2 in self.block(s.finalbody, x, fr):
          fin.append((y, sig2 if sig2 is not None else sig))
      out = fin
    return out

  def _handler(self, h, x, fr, sig):
    out = []
    for y, g in self.block(h.body, x, fr):
      if g is not None and g[0] == 'raise' and g[1].op == 'reraise':
        g = sig
      out.append((y, g))
    return out

  def _handler_names(self, h):
    if h.type is None:
      return []
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return [(dotted(t) or '?').split('.')[-1] for t in ts]

  def _handles(self, h, en):
    ns = self._handler_names(h)
    if not ns:
      return True
    for n in ns:
      if n in ('Exception', 'BaseException') or n == en:
        return True
      a, b = _exc(n), _exc(en)
      if a and b and issubclass(b, a):
        return True
    return False

  def s_Match(self, s, st, fr):
    raise Overflow('match statement')

  # ---- conditions --------------------------------------------------------
  def cond(self, e, st, fr):
    """Evaluate a test; list of (state, bool)."""
    if isinstance(e, ast.BoolOp):
      conj = isinstance(e.op, ast.And)
      live = [st]
      out = []
      for i, v in enumerate(e.values):
        nxt = []
        for x in live:
          for y, b in self.cond(v, x, fr):
            if b != conj:
              out.append((y, b))
            else:
              nxt.append(y)
        live = nxt
      out += [(x, conj) for x in live]
      return out
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
      return [(x, not b) for x, b in self.cond(e.operand, st, fr)]
    if isinstance(e, ast.Compare) and len(e.ops) > 1:
      parts = []
      left = e.left
      for op, r in zip(e.ops, e.comparators):
        c = ast.Compare(left=left, ops=[op], comparators=[r])
        ast.copy_location(c, e)
        parts.append(c)
        left = r
      b = ast.BoolOp(op=ast.And(), values=parts)
      ast.copy_location(b, e)
      return self.cond(b, st, fr)
    out = []
    for x, t in self.ev(e, st, fr):
      out += self.branch(t, x)
    return out

  def branch(self, t, st):
    out = []
    y = st.copy()
    known = self.truth(t, st) is not None
    if self.assume(t, True, st):
      if not known:
        st.add(Ev('fact', value=t, aug=True))
      out.append((st, True))
    if self.assume(t, False, y):
      if not known:
        y.add(Ev('fact', value=t, aug=False))
      out.append((y, False))
    return out

  def truth(self, t, st):
    """Known truth value of a term, or None."""
    if t.op == 'const':
      return bool(t.args[0])
    if t.op in ('tuple', 'list', 'set', 'dict'):
      return len(t.args[0]) > 0
    if t.op in ('new', 'closure', 'func', 'cls', 'mod', 'bound'):
      return True
    if t in st.lits:
      return st.lits[t]
    if t.op == 'not':
      r = self.truth(t.args[0], st)
      return None if r is None else not r
    if t.op == 'cmp':
      op, a, b = t.args
      if a.op == 'const' and b.op == 'const':
        try:
          x, y = a.args[0], b.args[0]
          return {
              'eq': lambda: x == y,
              'is': lambda: x is y,
              'lt': lambda: x < y,
              'le': lambda: x <= y,
              'in': lambda: x in y
          }[op]()
        except Exception:  # pylint: disable=broad-except
          return None
      if op in ('eq', 'is') and a is b and a.op != 'lc':
        return True
      if op == 'is':
        for u, v in ((a, b), (b, a)):
          if v is NONE:
            if u.op in ('new', 'list', 'tuple', 'dict', 'set', 'closure',
                        'func', 'cls', 'mod', 'comp', 'bin', 'bound',
                        'append', 'fstr'):
              return False
            if u.op == 'const':
              return u.args[0] is None
            if st.lits.get(u) is True:
              return False
            if self._known_eq(u, st) is not None:
              return self._known_eq(u, st)[0] is None
      if op == 'eq':
        for u, v in ((a, b), (b, a)):
          if v.op == 'const':
            k = self._known_eq(u, st)
            if k is not None:
              try:
                return bool(k[0] == v.args[0])
              except Exception:  # pylint: disable=broad-except
                return None
            if v is not NONE and st.lits.get(mk('cmp', 'is', u, NONE)) is True:
              return False
      return None
    # truthiness of x when x is known None / known constant
    if st.lits.get(mk('cmp', 'is', t, NONE)) is True:
      return False
    k = self._known_eq(t, st)
    if k is not None:
      return bool(k[0])
    return None

  def _known_eq(self, u, st):
    # facts stored as lits of cmp eq u const / is u None
    v = st.lits.get(('eqc', u))
    return v

  def assume(self, t, val, st):
    """Record fact t == val; False when contradictory."""
    if t.op == 'not':
      return self.assume(t.args[0], not val, st)
    k = self.truth(t, st)
    if k is not None:
      return k == val
    if t.op == 'boolop':
      op, vs = t.args
      if (op == 'and') == val:
        return all(self.assume(v, val, st) for v in vs)
      st.lits[t] = val
      return True
    if t.op == 'cmp' and t.args[0] == 'in':
      items = None
      c = t.args[2]
      if c.op in ('tuple', 'list', 'set') and all(
          x.op == 'const' for x in c.args[0]):
        items = list(c.args[0])
      elif c.op == 'const' and isinstance(c.args[0], (tuple, frozenset)):
        items = [const(x) for x in c.args[0]]
      if items is not None:
        eqs = [self.mkcmp('eq', t.args[1], x) for x in items]
        if not val:
          st.lits[t] = False
          return all(self.assume(e, False, st) for e in eqs)
        known = [self.truth(e, st) for e in eqs]
        if any(x is True for x in known):
          return True
        if all(x is False for x in known):
          return False
        if sum(x is None for x in known) == 1:
          self.assume(eqs[known.index(None)], True, st)
    if t.op == 'call':
      d = self._dotted_term(t.args[0])
      n = d.split('.')[-1] if d else None
      if n in ('any', 'all') and len(t.args[1]) == 1:
        c = t.args[1][0]
        if c.op == 'comp' and (n == 'all') == val and not c.args[3]:
          self.assume(c.args[2] if False else c.args[1], val, st)
        elif c.op in ('list', 'tuple') and (n == 'all') == val:
          for x in c.args[0]:
            if not self.assume(x, val, st):
              return False
    st.lits[t] = val
    if t.op == 'cmp' and t.args[0] in ('eq', 'is') and val:
      _, a, b = t.args
      for u, v in ((a, b), (b, a)):
        if v.op == 'const' and u.op != 'const':
          st.lits[('eqc', u)] = v.args
    return True

  def mkcmp(self, op, a, b):
    """Canonical comparison term (eq/is/lt/le/in, possibly negated)."""
    neg = False
    if op in ('ne', 'isnot', 'notin'):
      neg = True
      op = {'ne': 'eq', 'isnot': 'is', 'notin': 'in'}[op]
    if op in ('gt', 'ge'):
      a, b = b, a
      op = {'gt': 'lt', 'ge': 'le'}[op]
    if op in ('eq', 'is'):
      if (a.op == 'const' and b.op != 'const') or (
          (a.op == 'const') == (b.op == 'const') and repr(a) > repr(b)):
        a, b = b, a
      if op == 'eq' and b is NONE:
        op = 'is'
      if op == 'is' and b.op == 'const' and b is not NONE:
        op = 'eq'
    # emptiness tests
    t = None
    if b.op == 'const' and type(b.args[0]) is int and _is_len(a):
      if op == 'eq' and b.args[0] == 0:
        t = mk('not', a.args[1][0])
      elif op == 'lt' and b.args[0] == 1:
        t = mk('not', a.args[1][0])
      elif op == 'le' and b.args[0] == 0:
        t = mk('not', a.args[1][0])
    elif a.op == 'const' and type(a.args[0]) is int and _is_len(b):
      if op == 'lt' and a.args[0] == 0:
        t = b.args[1][0]
      elif op == 'le' and a.args[0] == 1:
        t = b.args[1][0]
    if op == 'eq' and b is TRUE and _boolish(a):
      t = a
    if op == 'eq' and b is FALSE and _boolish(a):
      t = mk('not', a)
    if t is None:
      t = mk('cmp', op, a, b)
    if neg:
      t = t.args[0] if t.op == 'not' else mk('not', t)
    return t

  # ---- expressions -------------------------------------------------------
  def ev(self, e, st, fr):
    m = getattr(self, 'e_' + type(e).__name__, None)
    if m is None:
      return [(st, mk('opaque', type(e).__name__, next(self.counter)))]
    return m(e, st, fr)

  def evs(self, es, st, fr):
    """Evaluate a list of expressions left to right."""
    outs = [(st, ())]
    for e in es:
      nxt = []
      for x, acc in outs:
        for y, t in self.ev(e, x, fr):
          nxt.append((y, acc + (t,)))
      outs = nxt
      if len(outs) > self.max_paths:
        raise Overflow('expr fork')
    return outs

  def e_Constant(self, e, st, fr):
    return [(st, const(e.value))]

  def e_Name(self, e, st, fr):
    return [(st, self._name(e.id, st, fr))]

  def _name(self, n, st, fr):
    if n in st.env and n not in fr.globals:
      return st.env[n]
    p = fr.parent
    if p is not None:
      if isinstance(p, dict):
        if n in p:
          return p[n]
      elif n in p:
        return p[n]
    return self._global(n, fr.mod)

  def _global(self, n, mod):
    e = self.prog.lookup(mod, n)
    if e is not None:
      return self._entry_term(e, mod.name + '.' + n)
    if n in _BUILTINS:
      return mk('ext', n)
    return mk('free', n)

  def _entry_term(self, e, gname=None):
    if e is None:
      return mk('opaque', 'unresolved', next(self.counter))
    if e[0] == 'mod':
      return mk('mod', e[1])
    if e[0] == 'ext':
      return mk('ext', e[1])
    if e[0] == 'func':
      return mk('func', e[1])
    if e[0] == 'cls':
      return mk('cls', e[1])
    if e[0] == 'var':
      v = e[1]
      if isinstance(v, ast.Constant):
        return const(v.value)
      if isinstance(v, (ast.Name, ast.Attribute)):
        d = dotted(v)
        m = self.prog.modules[e[2]]
        if d:
          r = self.prog.resolve_dotted(m, d)
          if r is not None and r != e:
            return self._entry_term(r, gname)
          if r is None and d in _BUILTINS:
            return mk('ext', d)
      if isinstance(v, ast.Call):
        d = dotted(v.func)
        m = self.prog.modules[e[2]]
        r = self.prog.resolve_dotted(m, d) if d else None
        t = mk('global', gname or '?')
        if r and r[0] == 'cls':
          self.types[t] = ('cls', r[1])
        return t
      return mk('global', gname or '?')
    return mk('opaque', 'entry', next(self.counter))

  def e_Attribute(self, e, st, fr):
    out = []
    for x, b in self.ev(e.value, st, fr):
      out += self.getattr(b, e.attr, x, fr, e)
    return out

  def getattr(self, b, name, st, fr, node=None):
    if (b, name) in st.heap:
      return [(st, st.heap[(b, name)])]
    if b.op == 'mod':
      e = self.prog.module_attr(b.args[0], name)
      if e is not None:
        return [(st, self._entry_term(e, b.args[0] + '.' + name))]
      return [(st, mk('global', b.args[0] + '.' + name))]
    if b.op == 'ext':
      return [(st, mk('ext', b.args[0] + '.' + name))]
    if b.op == 'cls':
      c = self.prog.classes[b.args[0]]
      f = self.prog.find_method(c, name)
      if f is not None:
        if f.is_classmethod:
          return [(st, mk('bound', b, f.qual))]
        return [(st, mk('func', f.qual))]
      for k in self.prog.mro(c):
        if name in k.attrs:
          return [(st, self._entry_term(
              self.prog.resolve_entry(k.attrs[name]), k.qual + '.' + name))]
      return [(st, mk('attr', b, name))]
    if b.op == 'super':
      c = self.prog.classes[b.args[0]]
      for k in self.prog.mro(self.prog.classes[b.args[2]])[1:] \
          if False else self._after(b):
        if name in k.methods:
          return [(st, mk('bound', b.args[1], k.methods[name].qual))]
      del c
      return [(st, mk('attr', b.args[1], name))]
    ty = self.type_of(b)
    if ty and ty[0] == 'cls':
      c = self.prog.classes[ty[1]]
      f = self.prog.find_method(c, name)
      if f is not None:
        if f.is_property:
          if self._inline_props(f) and self._want(f, fr, prop=True):
            return self.inline_call(f, [b], (), st, fr, node, prop=True)
          return [(st, mk('attr', b, name))]
        if f.is_static:
          return [(st, mk('func', f.qual))]
        return [(st, mk('bound', b, f.qual))]
      if b.op != 'param' or True:
        for k in self.prog.mro(c):
          e = k.attrs.get(name)
          if e is not None and e[0] == 'var':
            # class level constant (instance may override: heap checked above)
            if not self._instance_sets(c, name):
              return [(st, self._entry_term(e, k.qual + '.' + name))]
    return [(st, mk('attr', b, name))]

  def _after(self, b):
    mro = self.prog.mro(self.prog.classes[b.args[2]])
    me = self.prog.classes[b.args[0]]
    if me in mro:
      return mro[mro.index(me) + 1:]
    return self.prog.mro(me)[1:]

  def _instance_sets(self, c, name):
    for k in self.prog.mro(c):
      for f in k.methods.values():
        for n in ast.walk(f.node):
          if isinstance(n, ast.Attribute) and isinstance(
              n.ctx, ast.Store) and n.attr == name:
            return True
    return False

  def e_Subscript(self, e, st, fr):
    out = []
    for x, b in self.ev(e.value, st, fr):
      for y, k in self.ev(e.slice, x, fr):
        ty = self.type_of(b)
        if ty and ty[0] == 'cls':
          f = self.prog.find_method(self.prog.classes[ty[1]], '__getitem__')
          if f is not None:
            t = mk('item', b, k)
            if (b, ('item', k)) in y.heap:
              t = y.heap[(b, ('item', k))]
            out.append((y, t))
            continue
        out.append((y, self._item(b, k, y)))
    return out

  def e_Slice(self, e, st, fr):
    out = []
    none = ast.Constant(value=None)
    for x, (a, b, c) in self.evs(
        [e.lower or none, e.upper or none, e.step or none], st, fr):
      out.append((x, mk('slice', a, b, c)))
    return out

  def _item(self, b, k, st):
    if st is not None and (b, ('item', k)) in st.heap:
      return st.heap[(b, ('item', k))]
    if b.op in ('tuple', 'list') and k.op == 'const' and type(
        k.args[0]) is int and not any(x.op == 'star' for x in b.args[0]):
      i = k.args[0]
      if -len(b.args[0]) <= i < len(b.args[0]):
        return b.args[0][i]
    if b.op == 'dict' and k.op == 'const':
      for kk, vv in b.args[0]:
        if kk is k:
          return vv
    if b.op == 'elem' and b.args[0].op == 'zip' and k.op == 'const' and type(
        k.args[0]) is int and 0 <= k.args[0] < len(b.args[0].args[0]):
      return self._elem(b.args[0].args[0][k.args[0]], st, None)
    if k.op == 'idx' and (k.args[0] is b or (
        k.args[0].op == 'call' and k.args[0].args[0] is mk('ext', 'zip') and
        b in k.args[0].args[1])):
      return self._elem(b, st, None)
    if b.op == 'comp' and k.op == 'const' and b.args[0] in ('list', 'tuple'):
      pass
    if (b.op in ('tuple', 'list') and k.op == 'slice' and
        all(x is NONE or (x.op == 'const') for x in k.args) and
        not any(x.op == 'star' for x in b.args[0])):
      sl = slice(*[x.args[0] for x in k.args])
      return mk(b.op, b.args[0][sl])
    t = mk('item', b, k)
    if t not in self.types:
      ty = self.type_of(b)
      if ty and k.op != 'slice':
        r = None
        if ty[0] == 'list':
          r = ty[1]
        elif ty[0] == 'dict':
          r = ty[2]
        elif ty[0] == 'tuple' and k.op == 'const' and type(
            k.args[0]) is int and -len(ty[1]) <= k.args[0] < len(ty[1]):
          r = ty[1][k.args[0]]
        elif ty[0] == 'cls':
          f = self.prog.find_method(self.prog.classes[ty[1]], '__getitem__')
          if f is not None:
            rt = self.prog.parse_type(f.mod, f.node.returns)
            if rt and rt[0] == 'union':
              rt = next((z for z in rt[1] if z and z[0] == 'cls'), None)
            r = rt
        if r is not None:
          self.types[t] = r
      elif ty and k.op == 'slice':
        self.types[t] = ty
    return t

  def _turned(self, x):
    while x.op == 'call' and len(x.args[1]) >= 1:
      d = self._dotted_term(x.args[0])
      if d in ('reversed', 'sorted'):
        return True
      if d not in ('list', 'tuple', 'iter'):
        return False
      x = x.args[1][0]
    return False

  def _elem(self, it, st, fr):
    """Representative element of an iterable."""
    if it.op == 'comp' and it.args[0] in ('list', 'gen', 'tuple'):
      return it.args[1]
    if it.op == 'call':
      d = self._dotted_term(it.args[0])
      a = it.args[1]
      if d == 'enumerate' and a:
        if len(a) > 1 or it.args[2]:
          off = a[1] if len(a) > 1 else it.args[2][0][1]
          return mk('tuple', (mk('bin', 'Add', mk('idx', a[0]), off),
                              self._elem(a[0], st, fr)))
        return mk('tuple', (mk('idx', a[0]), self._elem(a[0], st, fr)))
      if d == 'zip' and a and not any(x.op == 'star' for x in a):
        turned = [self._turned(x) for x in a]
        if any(turned) and not all(turned):
          # the pairing is not position by position
          out = []
          for x, r in zip(a, turned):
            t = mk('elem', x) if r else self._elem(x, st, fr)
            if r:
              self._elem_type(t, x)
            out.append(t)
          return mk('tuple', tuple(out))
        return mk('tuple', tuple(self._elem(x, st, fr) for x in a))
      if d in ('list', 'tuple', 'sorted', 'reversed', 'iter') and len(a) >= 1:
        return self._elem(a[0], st, fr)
      if d == 'range' and len(a) == 1:
        if _is_len(a[0]):
          return mk('idx', a[0].args[1][0])
        m = _min_len(a[0])
        if m:
          return mk('idx', mk('call', mk('ext', 'zip'), m, ()))
    if it.op in ('list', 'tuple', 'set') and len(it.args[0]) == 1:
      return it.args[0][0]
    t = mk('elem', it)
    self._elem_type(t, it)
    return t

  def _elem_type(self, t, it):
    if t in self.types:
      return
    ty = self.type_of(it)
    if ty:
      if ty[0] == 'list' and ty[1] is not None:
        self.types[t] = ty[1]
      elif ty[0] == 'dict' and ty[1] is not None:
        self.types[t] = ty[1]
    if it.op in ('list', 'tuple', 'set') and it.args[0]:
      tys = {self.type_of(x) for x in it.args[0]}
      if len(tys) == 1:
        r = tys.pop()
        if r:
          self.types[t] = r
    if it.op == 'bin' and it.args[0] == 'Add':
      a = self.type_of(it.args[1])
      if a and a[0] == 'list' and a[1]:
        self.types[t] = a[1]

  def e_Tuple(self, e, st, fr):
    return [(x, mk('tuple', ts)) for x, ts in self.evs(e.elts, st, fr)]

  def e_List(self, e, st, fr):
    return [(x, mk('list', ts)) for x, ts in self.evs(e.elts, st, fr)]

  def e_Set(self, e, st, fr):
    return [(x, mk('set', ts)) for x, ts in self.evs(e.elts, st, fr)]

  def e_Dict(self, e, st, fr):
    out = []
    none = ast.Constant(value=None)
    for x, ks in self.evs([k or none for k in e.keys], st, fr):
      for y, vs in self.evs(e.values, x, fr):
        pairs = tuple((mk('dstar') if e.keys[i] is None else k, v)
                      for i, (k, v) in enumerate(zip(ks, vs)))
        # an empty dictionary has an identity: it is filled by stores
        out.append((y, mk('dict', pairs) if pairs else mk(
            'dict', (), '%s:%d:%d' % (fr.file, e.lineno, e.col_offset))))
    return out

  def e_Starred(self, e, st, fr):
    return [(x, mk('star', t)) for x, t in self.ev(e.value, st, fr)]

  def e_JoinedStr(self, e, st, fr):
    vals = [v.value for v in e.values if isinstance(v, ast.FormattedValue)]
    fr.nofork += 1
    try:
      out = [(x, mk('fstr', ts)) for x, ts in self.evs(vals, st, fr)]
    finally:
      fr.nofork -= 1
    return out

  def _binop(self, op, a, b):
    if op == 'Add' and a.op in ('list', 'tuple') and b.op == a.op:
      return mk(a.op, a.args[0] + b.args[0])
    if a.op == 'const' and b.op == 'const':
      x, y = a.args[0], b.args[0]
      if type(x) in (int, float) and type(y) in (int, float):
        try:
          r = {
              'Add': lambda: x + y,
              'Sub': lambda: x - y,
              'Mult': lambda: x * y
          }.get(op)
          if r:
            return const(r())
        except Exception:  # pylint: disable=broad-except
          pass
      if op == 'Add' and type(x) is str and type(y) is str:
        return const(x + y)
    return mk('bin', op, a, b)

  def e_BinOp(self, e, st, fr):
    out = []
    op = type(e.op).__name__
    for x, (a, b) in self.evs([e.left, e.right], st, fr):
      ty = self.type_of(a)
      dunder = _DUNDER.get(op)
      if ty and ty[0] == 'cls' and dunder:
        f = self.prog.find_method(self.prog.classes[ty[1]], dunder)
        if f is not None and not f.is_stub():
          out += self.call(mk('bound', a, f.qual), (b,), (), x, fr, e)
          continue
      t = self._binop(op, a, b)
      if op == 'BitXor':
        x.add(Ev('xor', key=a, value=b, res=t, node=e, file=fr.file,
                 frame=fr.func.qual, loops=fr.loops))
      if t not in self.types and t.op == 'bin' and op == 'Add' and \
          ty and ty[0] == 'list':
        self.types[t] = ty
      out.append((x, t))
    return out

  def e_UnaryOp(self, e, st, fr):
    out = []
    for x, a in self.ev(e.operand, st, fr):
      n = type(e.op).__name__
      if n == 'Not':
        out.append((x, a.args[0] if a.op == 'not' and _boolish(a.args[0])
                    else mk('not', a)))
      elif n == 'USub' and a.op == 'const' and type(
          a.args[0]) in (int, float, complex):
        out.append((x, const(-a.args[0])))
      else:
        out.append((x, mk('un', n, a)))
    return out

  def e_BoolOp(self, e, st, fr):
    if fr.nofork or self.all_nofork:
      return [(x, mk('boolop', 'and' if isinstance(e.op, ast.And) else 'or',
                     ts)) for x, ts in self.evs(e.values, st, fr)]
    conj = isinstance(e.op, ast.And)
    # value semantics with short-circuit forks
    live = [st]
    out = []
    last = len(e.values) - 1
    for i, v in enumerate(e.values):
      nxt = []
      for x in live:
        for y, t in self.ev(v, x, fr):
          if i == last:
            out.append((y, t))
            continue
          for z, b in self.branch(t, y):
            if b == conj:
              nxt.append(z)
            else:
              out.append((z, const(b) if _boolish(t) else t))
      live = nxt
    return out

  def e_Compare(self, e, st, fr):
    if len(e.ops) == 1:
      op = _CMP[type(e.ops[0]).__name__]
      return [(x, self.mkcmp(op, a, b)) for x, (a, b) in self.evs(
          [e.left, e.comparators[0]], st, fr)]
    out = []
    for x, ts in self.evs([e.left] + e.comparators, st, fr):
      parts = tuple(
          self.mkcmp(_CMP[type(op).__name__], ts[i], ts[i + 1])
          for i, op in enumerate(e.ops))
      out.append((x, mk('boolop', 'and', parts)))
    return out

  def e_IfExp(self, e, st, fr):
    if fr.nofork or self.all_nofork:
      out = []
      for x, (c, a, b) in self.evs([e.test, e.body, e.orelse], st, fr):
        k = self.truth(c, x)
        if c.op == 'not' and k is None:
          c, a, b = c.args[0], b, a
        out.append((x, a if k is True else b if k is False else mk(
            'ifexp', c, a, b)))
      return out
    out = []
    for x, b in self.cond(e.test, st, fr):
      out += self.ev(e.body if b else e.orelse, x, fr)
    return out

  def e_Lambda(self, e, st, fr):
    f = getattr(e, '_tnsa_func', None)
    if f is None:
      f = Func(fr.func.qual + '.<lambda>', e, fr.mod, parent=fr.func)
      e._tnsa_func = f
    return [(st, self._closure(f, st, fr))]

  def e_NamedExpr(self, e, st, fr):
    out = []
    for x, t in self.ev(e.value, st, fr):
      x.env[e.target.id] = t
      out.append((x, t))
    return out

  def e_Yield(self, e, st, fr):
    if e.value is None:
      st.add(Ev('yield', value=NONE, node=e, file=fr.file, frame=fr.func.qual,
                loops=fr.loops))
      return [(st, mk('yielded'))]
    out = []
    for x, t in self.ev(e.value, st, fr):
      x.add(Ev('yield', value=t, node=e, file=fr.file, frame=fr.func.qual,
               loops=fr.loops))
      out.append((x, mk('yielded')))
    return out

  e_YieldFrom = e_Yield

  def e_Await(self, e, st, fr):
    return self.ev(e.value, st, fr)

  def _comp(self, e, st, fr, kind, elts):
    saved_env = dict(st.env)
    saved_loops = fr.loops
    fr.nofork += 1
    try:
      its = []
      conds = []
      for g in e.generators:
        r = self.ev(g.iter, st, fr)
        st, it = r[0]
        val = self._elem(it, st, fr)
        its.append(it)
        fr.loops = fr.loops + (it,)
        r = self.assign(g.target, val, st, fr, e)
        st = r[0]
        for c in g.ifs:
          r = self.ev(c, st, fr)
          st, ct = r[0]
          conds.append(ct)
      r = self.evs(elts, st, fr)
      if not r:
        return [(st, mk('opaque', 'comp', next(self.counter)))]
      st, vals = r[0]
    finally:
      fr.loops = saved_loops
      fr.nofork -= 1
    names = set(st.env) - set(saved_env)
    for n in names:
      del st.env[n]
    st.env.update(saved_env)
    elt = vals[0] if len(vals) == 1 else mk('tuple', vals)
    it = _canon_iter(its[0]) if len(its) == 1 else mk('nest', tuple(its))
    if (kind == 'list' and not conds and len(its) == 1 and
        it.op in ('list', 'tuple') and False):
      pass
    if kind in ('list', 'gen') and not conds and len(its) == 1 and \
        elt.op == 'elem' and elt.args[0] is it:
      t = mk('call', mk('ext', 'list'), (it,), ())
      ty = self.type_of(it)
      if ty:
        self.types[t] = ty
      return [(st, t)]
    t = mk('comp', kind, elt, it, tuple(conds))
    ty = self.type_of(elt)
    if ty and kind != 'dict':
      self.types[t] = ('list', ty)
    return [(st, t)]

  def e_ListComp(self, e, st, fr):
    # literal iterables are unrolled so that [f(x) for x in (a, b)] == [f(a), f(b)]
    if len(e.generators) == 1 and not e.generators[0].ifs:
      g = e.generators[0]
      outs = []
      done = True
      for x, it in self.ev(g.iter, st.copy(), fr):
        if it.op in ('list', 'tuple') and len(it.args[0]) <= 6 and not any(
            z.op == 'star' for z in it.args[0]):
          saved = dict(x.env)
          vals = []
          fr.nofork += 1
          try:
            for el in it.args[0]:
              x = self.assign(g.target, el, x, fr, e)[0]
              r = self.ev(e.elt, x, fr)
              x, v = r[0]
              vals.append(v)
          finally:
            fr.nofork -= 1
          x.env = saved
          outs.append((x, mk('list', tuple(vals))))
        else:
          done = False
          break
      if done:
        return outs
    return self._comp(e, st, fr, 'list', [e.elt])

  def e_SetComp(self, e, st, fr):
    return self._comp(e, st, fr, 'set', [e.elt])

  def e_GeneratorExp(self, e, st, fr):
    r = self.e_ListComp(e, st, fr)
    return r

  def e_DictComp(self, e, st, fr):
    return self._comp(e, st, fr, 'dict', [e.key, e.value])

  # ---- calls -------------------------------------------------------------
  def _dotted_term(self, t):
    if t.op == 'ext':
      return t.args[0]
    return None

  def e_Call(self, e, st, fr):
    out = []
    # super()
    if isinstance(e.func, ast.Name) and e.func.id == 'super':
      f = fr.func
      while f is not None and f.cls is None:
        f = f.parent
      if f is not None and f.params:
        selft = st.env.get(f.params[0])
        if selft is not None:
          ty = self.type_of(selft)
          dyn = ty[1] if ty and ty[0] == 'cls' else f.cls.qual
          if selft.op == 'cls':
            dyn = selft.args[0]
          return [(st, mk('super', f.cls.qual, selft, dyn))]
    for x, fn in self.ev(e.func, st, fr):
      for y, pos in self.evs(e.args, x, fr):
        for z, kws in self.evs([k.value for k in e.keywords], y, fr):
          kw = tuple((k.arg if k.arg is not None else '**', v)
                     for k, v in zip(e.keywords, kws))
          out += self.call(fn, pos, kw, z, fr, e)
    return out

  def call(self, fn, pos, kw, st, fr, node):
    pos = self._flatten_star(pos)
    if fn.op == 'call' and self._dotted_term(fn.args[0]) in (
        'functools.partial',) and fn.args[1]:
      inner = fn.args[1][0]
      names = {k for k, _ in kw}
      return self.call(inner, fn.args[1][1:] + pos,
                       tuple(p for p in fn.args[2] if p[0] not in names) + kw,
                       st, fr, node)
    if fn.op == 'decorated':
      # calling a decorated local function: same parameters reach the body
      return self.call(fn.args[1], pos, kw, st, fr, node)
    if fn.op == 'super':
      return [(st, fn)]
    if fn.op == 'closure':
      f, dst, dfr = self.closures[fn.args[1]]
      if fr.func.qual not in (f.qual,) and f.qual not in fr.stack and len(
          fr.stack) < self.max_depth and not fr.nofork:
        return self.inline_call(f, list(pos), kw, st, fr, node, closure=fn)
      return self._opaque(fn, None, f, None, pos, kw, st, fr, node)
    if fn.op == 'func':
      f = self.prog.funcs.get(fn.args[0])
      if f is not None:
        if self._want(f, fr):
          return self.inline_call(f, list(pos), kw, st, fr, node)
        return self._opaque(fn, None, f, None, pos, kw, st, fr, node)
    if fn.op == 'bound':
      f = self.prog.funcs.get(fn.args[1])
      if f is not None:
        recv = fn.args[0]
        if self._want(f, fr):
          args = list(pos) if f.is_static else [recv] + list(pos)
          return self.inline_call(f, args, kw, st, fr, node)
        return self._opaque(fn, recv, f, recv, pos, kw, st, fr, node)
    if fn.op == 'cls':
      c = self.prog.classes[fn.args[0]]
      init = self.prog.find_method(c, '__init__')
      return self._construct(c, init, fn, pos, kw, st, fr, node)
    return self._opaque(fn, fn.args[0] if fn.op == 'attr' else None, None,
                        None, pos, kw, st, fr, node)

  def _construct(self, c, init, fn, pos, kw, st, fr, node):
    site = next(self.counter) if not fr.nofork else node.lineno
    res = mk('new', c.qual, pos, tuple(sorted(kw, key=lambda p: p[0])), site)
    self.types[res] = ('cls', c.qual)
    bound = None
    dflt = ()
    if init is not None:
      bound, dflt = self.bind(init, (res,) + pos, kw)
    st.add(Ev('call', fn=fn, qual=c.qual, name=c.name, recv=None, pos=pos,
              kw=kw, bound=bound, defaulted=dflt, res=res, node=node,
              file=fr.file, frame=fr.func.qual, loops=fr.loops,
              incomp=bool(fr.nofork)))
    if init is not None and self._want(init, fr):
      outs = self.inline_call(init, [res] + list(pos), kw, st, fr, node)
      return [(x, res) for x, _ in outs]
    return [(st, res)]

  def _flatten_star(self, pos):
    if not any(p.op == 'star' for p in pos):
      return pos
    out = []
    for p in pos:
      if p.op == 'star' and p.args[0].op in ('list', 'tuple'):
        out += list(p.args[0].args[0])
      else:
        out.append(p)
    return tuple(out)

  def bind(self, f, pos, kw):
    """Bind arguments to f's parameters; (bound, defaulted) or (None, ())."""
    if any(p.op == 'star' for p in pos) or any(k == '**' for k, _ in kw):
      # bind what is certain
      bound = {}
      for n, p in zip(f.params, pos):
        if p.op == 'star':
          break
        bound[n] = p
      for k, v in kw:
        if k != '**':
          bound[k] = v
      bound['*'] = TRUE
      return bound, ()
    bound = {}
    for n, p in zip(f.params, pos):
      bound[n] = p
    if f.vararg:
      bound[f.vararg] = mk('tuple', tuple(pos[len(f.params):]))
    extra = []
    for k, v in kw:
      if k in f.params or k in f.kwonly:
        bound[k] = v
      else:
        extra.append((const(k), v))
    if f.kwarg:
      bound[f.kwarg] = mk('dict', tuple(extra))
    dflt = []
    for n in f.all_params():
      if n not in bound and n in f.defaults:
        dflt.append(n)
        bound[n] = self._default_term(f, n)
    return bound, tuple(dflt)

  def _default_term(self, f, n):
    d = f.defaults[n]
    if isinstance(d, ast.Constant):
      return const(d.value)
    if isinstance(d, ast.UnaryOp) and isinstance(
        d.operand, ast.Constant) and isinstance(d.op, ast.USub):
      return const(-d.operand.value)
    if isinstance(d, ast.Tuple) and not d.elts:
      return mk('tuple', ())
    dd = dotted(d)
    if dd:
      e = self.prog.resolve_dotted(f.mod, dd)
      if e is not None:
        return self._entry_term(e, dd)
      if dd in _BUILTINS:
        return mk('ext', dd)
    if isinstance(d, (ast.Tuple, ast.List)) and all(
        isinstance(x, ast.Constant) for x in d.elts):
      return mk('tuple' if isinstance(d, ast.Tuple) else 'list',
                tuple(const(x.value) for x in d.elts))
    return mk('default', f.qual, n)

  def _opaque(self, fn, recv, f, _selft, pos, kw, st, fr, node):
    name = None
    bound = None
    dflt = ()
    qual = None
    if f is not None:
      name = f.name
      qual = f.qual
      args = pos
      if recv is not None and not f.is_static:
        args = (recv,) + pos
      elif fn.op == 'func' and f.is_classmethod:
        args = (fn,) + pos
      bound, dflt = self.bind(f, args, kw)
    elif fn.op == 'attr':
      name = fn.args[1]
    elif fn.op == 'ext':
      name = fn.args[0].split('.')[-1]
      qual = fn.args[0]
    elif fn.op == 'free':
      name = fn.args[0]
    elif fn.op == 'global':
      name = fn.args[0].split('.')[-1]
      qual = fn.args[0]
    # keep list displays exact through append/extend
    if fn.op == 'attr' and name in ('append', 'extend', 'add', 'insert') and \
        isinstance(node, ast.Call) and isinstance(
            node.func, ast.Attribute) and len(pos) >= 1:
      r = fn.args[0]
      v = pos[-1]
      new = None
      if name in ('append', 'add'):
        if r.op in ('list',) and name == 'append':
          new = mk('list', r.args[0] + (v,))
        elif r.op in ('lc', 'append', 'comp', 'list', 'set', 'bin', 'call',
                      'extend', 'flat', 'item', 'opaque'):
          new = mk('append', r, v)
      elif name == 'extend':
        if r.op == 'list' and v.op in ('list', 'tuple'):
          new = mk('list', r.args[0] + v.args[0])
        elif r.op in ('lc', 'list', 'append', 'comp', 'extend', 'bin'):
          new = mk('extend', r, v)
      st.add(Ev('call', fn=fn, qual=None, name=name, recv=r, pos=pos, kw=kw,
                bound=None, res=NONE, node=node, file=fr.file,
                frame=fr.func.qual, loops=fr.loops, incomp=bool(fr.nofork)))
      if new is not None:
        tgt = node.func.value
        ty = self.type_of(r)
        if ty:
          self.types[new] = ty
        if isinstance(tgt, ast.Name) and tgt.id in st.env:
          # every alias of the same list term sees the element
          for n2, v2 in list(st.env.items()):
            if v2 is r and (n2 == tgt.id or r.op != 'list' or r.args[0]):
              st.env[n2] = new
        elif isinstance(tgt, ast.Attribute):
          for (b, nm), v2 in list(st.heap.items()):
            if v2 is r and nm == tgt.attr:
              st.heap[(b, nm)] = new
      return [(st, NONE)]
    if fn.op == 'ext' and fn.args[0] == 'isinstance' and len(pos) == 2:
      t = mk('call', fn, pos, kw)
      k = self._isinstance(pos[0], pos[1])
      return [(st, t if k is None else const(k))]
    if fn.op == 'ext' and fn.args[0] == 'len' and len(pos) == 1 and pos[
        0].op in ('list', 'tuple') and not any(
            x.op == 'star' for x in pos[0].args[0]):
      return [(st, const(len(pos[0].args[0])))]
    if fn.op == 'ext' and fn.args[0] == 'len' and len(pos) == 1 and \
        pos[0].op == 'call' and self._dotted_term(pos[0].args[0]) in (
            'list', 'tuple', 'sorted') and len(pos[0].args[1]) == 1:
      return self._opaque(fn, recv, f, _selft, pos[0].args[1], kw, st, fr,
                          node)
    if fn.op == 'ext' and fn.args[0] == 'bool' and len(pos) == 1:
      return [(st, pos[0])]
    if fn.op == 'ext' and fn.args[0] in ('list', 'tuple') and len(
        pos) == 1 and pos[0].op in ('list', 'tuple'):
      return [(st, mk(fn.args[0], pos[0].args[0]))]
    if fn.op == 'ext' and fn.args[0] in ('list', 'tuple', 'dict', 'set') and \
        not pos and not kw:
      if fn.args[0] == 'dict':
        return [(st, mk('dict', (), '%s:%d:%d' % (
            fr.file, node.lineno, node.col_offset)))]
      return [(st, mk(fn.args[0], ()))]
    if fn.op == 'ext' and fn.args[0] == 'map' and len(pos) == 2:
      el = self._elem(pos[1], st, fr)
      fr.nofork += 1
      try:
        r = self.call(pos[0], (el,), (), st, fr, node)
      finally:
        fr.nofork -= 1
      st, v = r[0]
      return [(st, mk('comp', 'list', v, pos[1], ()))]
    if fn.op == 'ext' and fn.args[0].split('.')[-1] in (
        'vectorized_map', 'map_fn') and len(pos) == 2 and not kw and \
        pos[0].op in ('closure', 'func', 'bound') and not fr.nofork:
      el = self._elem(pos[1], st, fr)
      return [(x, mk('comp', 'list', v, pos[1], ()))
              for x, v in self.call(pos[0], (el,), (), st, fr, node)]
    if fn.op == 'ext' and fn.args[0] == 'getattr' and len(pos) >= 2 and \
        pos[1].op == 'const' and isinstance(pos[1].args[0], str) and \
        len(pos) == 2:
      return self.getattr(pos[0], pos[1].args[0], st, fr, node)
    if fn.op == 'ext' and fn.args[0] == 'setattr' and len(pos) == 3 and \
        pos[1].op == 'const' and isinstance(pos[1].args[0], str):
      return [(x, NONE) for x in self.setattr(
          pos[0], pos[1].args[0], pos[2], st, fr, node)]
    kws = tuple(sorted(kw, key=lambda p: p[0]))
    if f is not None and bound is not None and '*' not in bound:
      # canonical argument order for known callees; drop defaulted
      fnt = fn
      items = tuple((n, bound[n]) for n in f.all_params()
                    if n in bound and n not in dflt and
                    not (recv is not None and n == f.params[0] and
                         not f.is_static))
      va = ()
      if f.vararg and f.vararg in bound and bound[f.vararg].args[0]:
        va = bound[f.vararg].args[0]
      if f.kwarg and f.kwarg in bound:
        items += tuple((k.args[0], v) for k, v in bound[f.kwarg].args[0])
      res = mk('call', fnt, va, items)
    else:
      res = mk('call', fn, pos, kws)
      if f is None and name in ('pop', 'popleft', 'popitem'):
        # taking twice yields two values
        n = sum(1 for e in st.events() if e.kind == 'call' and e.name == name and
                e.res is not None and e.res.op == 'call' and
                e.res.args[0] is fn and e.res.args[1] == pos)
        if n:
          res = mk('call', fn, pos, kws + (('#', const(n)),))
    rt = None
    if f is not None and f.node is not None and not isinstance(
        f.node, ast.Lambda):
      rt = self.prog.parse_type(f.mod, f.node.returns)
      if rt is None and f.name in ('copy', '__copy__') and recv is not None:
        rt = self.type_of(recv)
    elif fn.op == 'ext' and fn.args[0] in ('list', 'tuple', 'set', 'sorted',
                                           'reversed',
                                           'copy.copy', 'copy.deepcopy'
                                          ) and pos:
      rt = self.type_of(pos[0])
    elif fn.op == 'attr' and fn.args[1] in ('copy', 'difference', 'union',
                                            'intersection') and not pos:
      rt = self.type_of(fn.args[0])
    if rt is not None and res not in self.types:
      self.types[res] = rt
    if name == 'fresh_edges' and recv is not None and not fr.nofork:
      # the node's edges are new objects from here on
      st.heap[(recv, 'edges')] = mk('freshedges', recv, st.n)
    st.add(Ev('call', fn=fn, qual=qual, name=name, recv=recv, pos=pos, kw=kw,
              bound=bound, defaulted=dflt, res=res, node=node, file=fr.file,
              frame=fr.func.qual, loops=fr.loops, incomp=bool(fr.nofork)))
    if self.effect is not None:
      # known effects of the call on objects of the caller
      self.effect(name, recv, bound, pos, st)
    return [(st, res)]

  def _isinstance(self, v, ct):
    ty = self.type_of(v)
    if v.op == 'new' and ct.op == 'cls':
      return self.prog.is_subclass(self.prog.classes[v.args[0]],
                                   self.prog.classes[ct.args[0]]) or None
    if v.op == 'const' and ct.op == 'ext' and ct.args[0] in (
        'str', 'int', 'float', 'list', 'tuple', 'bool', 'complex'):
      return isinstance(v.args[0], {
          'str': str,
          'int': int,
          'float': float,
          'list': list,
          'tuple': tuple,
          'bool': bool,
          'complex': complex
      }[ct.args[0]])
    del ty
    return None

  def _want(self, f, fr, prop=False):
    if f.is_abstract and f.is_stub() or f.qual in fr.stack or len(
        fr.stack) >= self.max_depth:
      return False
    if f.node is None or any(
        isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
      return False
    return prop or self._inline(f)

  def inline_call(self, f, args, kw, st, fr, node, closure=None, prop=False):
    self.inlined.add(f.qual)
    bound, dflt = self.bind(f, tuple(args), kw)
    if bound is None or '*' in bound:
      return self._opaque(closure or mk('func', f.qual), None, f, None,
                          tuple(args), kw, st, fr, node)
    nf = Frame(f, None, fr.stack + (f.qual,))
    nf.loops = fr.loops
    nf.nofork = fr.nofork
    if closure is not None:
      _, dst, dfr = self.closures[closure.args[1]]
      # free variables see the defining frame's current values
      penv = {}
      if isinstance(dfr.parent, dict):
        penv.update(dfr.parent)
      penv.update(dst.env)
      if dfr is fr:
        penv.update(st.env)
      nf.parent = penv
    elif f.parent is not None:
      nf.parent = self._parent_env(f)
    for d in f.defaults:
      if d in dflt and bound[d].op == 'default':
        pass
    env = {n: t for n, t in bound.items()}
    # types from annotations where the argument has none
    for n, t in env.items():
      if t not in self.types and f.ann.get(n) is not None and t.op not in (
          'const',):
        ty = self.prog.parse_type(f.mod, f.ann[n])
        if ty is not None and ty[0] in ('cls', 'list', 'dict', 'tuple'):
          self.types[t] = ty
    if f.cls is not None and not f.is_static and f.params:
      t = env.get(f.params[0])
      if t is not None and t not in self.types and t.op != 'cls':
        self.types[t] = ('cls', f.cls.qual)
    saved = st.env
    st.env = env
    st.add(Ev('inline', qual=f.qual, name=f.name, bound=bound, node=node,
              file=fr.file, frame=fr.func.qual, loops=fr.loops))
    outs = self.exec_body(f, st, nf)
    res = []
    nonlocals = [x for n in ast.walk(f.node) if isinstance(n, ast.Nonlocal)
                 for x in n.names] if closure is not None else []
    for x, sig in outs:
      inner = x.env
      x.env = dict(saved)
      for n in nonlocals:
        if n in inner and n in x.env:
          x.env[n] = inner[n]
      if sig is None:
        res.append((x, NONE))
      elif sig[0] == 'return':
        res.append((x, sig[1]))
      elif sig[0] == 'raise':
        if fr.sinks:
          fr.sinks[-1].append((x, sig))
      x.add(Ev('endinline', qual=f.qual, name=f.name, node=node, file=fr.file,
               frame=fr.func.qual, loops=fr.loops,
               res=sig[1] if sig and sig[0] == 'return' else None))
    if fr.nofork and len(res) > 1:
      # value position that must not fork: join as a phi term
      vals = tuple(dict.fromkeys(t for _, t in res))
      x = res[0][0]
      return [(x, vals[0] if len(vals) == 1 else mk('phi', vals))]
    if fr.nofork and not res:
      return [(st, mk('opaque', 'noreturn', next(self.counter)))]
    if len(res) > self.max_paths:
      raise Overflow('inline fork')
    return res

  # ---- types -------------------------------------------------------------
  def type_of(self, t):
    ty = self.types.get(t)
    if ty is not None:
      return ty
    if t.op == 'new':
      return ('cls', t.args[0])
    if t.op == 'attr':
      bt = self.type_of(t.args[0])
      if bt and bt[0] == 'cls':
        ty = self.prog.attr_type(self.prog.classes[bt[1]], t.args[1])
      elif t.args[1] == 'backend' and t.args[0].op != 'ext':
        ty = self.prog._backend_type()
      if ty is not None:
        self.types[t] = ty
      return ty
    if t.op == 'elem' and t not in self.types:
      self._elem_type(t, t.args[0])
      return self.types.get(t)
    if t.op == 'lc':
      return self.type_of(t.args[1])
    if t.op == 'append':
      return self.type_of(t.args[0])
    return None


def exc_name(t):
  if t.op == 'call':
    d = t.args[0]
    if d.op == 'ext':
      return d.args[0].split('.')[-1]
    return None
  if t.op == 'ext':
    return t.args[0].split('.')[-1]
  if t.op == 'new':
    return t.args[0].split('.')[-1]
  if t.op == 'caught':
    return t.args[0]
  return None


def _exc(n):
  import builtins
  x = getattr(builtins, n or '', None)
  return x if isinstance(x, type) and issubclass(x, BaseException) else None


def _is_len(t):
  return (t.op == 'call' and t.args[0].op == 'ext' and
          t.args[0].args[0] == 'len' and len(t.args[1]) == 1)


def _min_len(t):
  """min(len(a), len(b)) -> (a, b)."""
  if t.op == 'call' and t.args[0] is mk('ext', 'min') and len(
      t.args[1]) > 1 and not t.args[2] and all(_is_len(x) for x in t.args[1]):
    return tuple(x.args[1][0] for x in t.args[1])
  return None


def _canon_iter(it):
  """Positions of a sequence: iterating range(len(x)) is iterating x."""
  if it is not None and it.op == 'call' and it.args[0] is mk(
      'ext', 'range') and len(it.args[1]) == 1:
    a = it.args[1][0]
    if _is_len(a):
      return a.args[1][0]
    m = _min_len(a)
    if m:
      return mk('call', mk('ext', 'zip'), m, ())
  return it


def _boolish(t):
  return t.op in ('cmp', 'not', 'boolop') or (
      t.op == 'call' and t.args[0].op == 'ext' and
      t.args[0].args[0].split('.')[-1] in
      ('isinstance', 'hasattr', 'any', 'all', 'callable', 'issubclass'))


_CMP = {
    'Eq': 'eq',
    'NotEq': 'ne',
    'Lt': 'lt',
    'LtE': 'le',
    'Gt': 'gt',
    'GtE': 'ge',
    'Is': 'is',
    'IsNot': 'isnot',
    'In': 'in',
    'NotIn': 'notin'
}
_DUNDER = {
    'Add': '__add__',
    'Sub': '__sub__',
    'Mult': '__mul__',
    'Div': '__truediv__',
    'MatMult': '__matmul__',
    'BitXor': '__xor__',
    'BitOr': '__or__',
    'Pow': '__pow__'
}
