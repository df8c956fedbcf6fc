"""Check driver: runs the rules of one property, writes evidence, verdict."""
import importlib
import json
import os
import sys
import time
import traceback

from .model import Program, AnalysisError
from .interp import Interp, Overflow

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:

  def __init__(self, prop):
    self.prop = prop
    self.violations = []
    self.obligations = []  # (rule, instance, 'ok'|'violated'|'undecided')
    self.undecided_list = []
    self.counts = {}
    self.analysed = set()
    self.rules = {}
    self.exceptions = []

  def rule(self, rid, text):
    self.rules[rid] = text

  def ok(self, rule, instance):
    self.obligations.append((rule, instance, 'ok'))

  def undecided(self, rule, instance, why=''):
    self.obligations.append((rule, instance, 'undecided'))
    self.undecided_list.append('%s: %s: %s' % (rule, instance, why))

  def bad(self, rule, instance, msg, loc):
    """A violation. key = rule + construct (no line numbers)."""
    key = rule + ' :: ' + instance
    if isinstance(loc, tuple):
      loc = '%s:%s' % loc[:2]
    self.obligations.append((rule, instance, 'violated'))
    for v in self.violations:
      if v['key'] == key:
        if loc not in v['locs']:
          v['locs'].append(loc)
        return
    self.violations.append(
        dict(key=key, rule=rule, instance=instance, msg=msg, locs=[loc]))

  def count(self, name, n=1):
    self.counts[name] = self.counts.get(name, 0) + n

  def saw(self, *quals):
    for q in quals:
      self.analysed.add(getattr(q, 'qual', q))

  def floor(self, rule, n):
    """The rule must have met at least n obligations (else: broken)."""
    c = sum(1 for o in self.obligations if o[0] == rule)
    if c < n:
      raise AnalysisError('rule %s matched %d instances, expected >= %d' %
                          (rule, c, n))

  def check(self, rule, instance, cond, msg, loc):
    if cond:
      self.ok(rule, instance)
    else:
      self.bad(rule, instance, msg, loc)


class Ctx:

  def __init__(self, prog, tier):
    self.prog = prog
    self.tier = tier
    self._paths = {}

  def api(self):
    """Functions present when the checker was written (opaque by default)."""
    if not hasattr(self, '_api'):
      with open(os.path.join(VERIF, 'tnsa', 'known_api.json')) as f:
        self._api = set(json.load(f))
    return self._api

  def is_new(self, f):
    return f.qual not in self.api()

  def interp(self, inline=None, inline_private=False, props=None, **kw):
    """Interp that expands new helpers plus the functions named in inline."""
    names = set(inline or ())

    def want(f):
      if self.is_new(f):
        return True
      if f.qual in names or f.name in names:
        return True
      if inline_private and f.name.startswith(
          '_') and not f.name.startswith('__'):
        return True
      return False

    def wantp(f):
      if self.is_new(f):
        return True
      return props is not None and f.name in props

    return Interp(self.prog, inline=want, inline_props=wantp, **kw)

  def paths(self, f, inline=(), rep=None, key=None, **kw):
    """Cached path enumeration of f with the given inlining."""
    k = (f.qual, tuple(sorted(inline)), key,
         tuple(sorted((a, str(b)) for a, b in kw.items())))
    if k not in self._paths:
      it = self.interp(inline=inline, **kw)
      try:
        ps = it.run(f)
      except Overflow as e:
        ps = None
        if rep is not None:
          rep.undecided('path-budget', f.qual, str(e))
      self._paths[k] = (ps, it)
    ps, it = self._paths[k]
    if rep is not None:
      rep.saw(f, *it.inlined)
      rep.count('paths', len(ps) if ps else 0)
    return ps, it


  def scan(self, rep=None, skip=None, **kw):
    """(function, paths) of every top-level function and method."""
    for q, f in sorted(self.prog.funcs.items()):
      if f.parent is not None or (skip and skip(f)):
        continue
      ps, _ = self.paths(f, rep=rep, **kw)
      if ps is not None:
        yield f, ps


def load_known():
  p = os.path.join(VERIF, 'known_findings.json')
  if not os.path.exists(p):
    return []
  with open(p) as f:
    return json.load(f)


def main(argv):
  prop = argv[1]
  tier = os.environ.get('VERIF_TIER', 'quick')
  if len(argv) > 2:
    tier = argv[2]
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  t0 = time.time()
  sys.setrecursionlimit(20000)
  rep = Report(prop)
  try:
    prog = Program()
    mod = importlib.import_module('tnsa.rules.' + prop.lower())
    ctx = Ctx(prog, tier)
    mod.run(ctx, rep)
  except AnalysisError as e:
    print('ANALYSIS-BROKEN property=%s %s' % (prop, e))
    return 2
  except Exception:  # pylint: disable=broad-except
    traceback.print_exc()
    print('ANALYSIS-BROKEN property=%s internal error' % prop)
    return 3
  known = [k for k in load_known()
           if k.get('property') == prop and k.get('status') == 'known']
  kk = {k['key']: k for k in known}
  fresh = []
  for v in rep.violations:
    if v['key'] in kk:
      print('KNOWN-FINDING: property=%s %s' % (prop, kk[v['key']]['what']))
    else:
      fresh.append(v)
  n = len(rep.obligations)
  ok = sum(1 for o in rep.obligations if o[2] == 'ok')
  und = sum(1 for o in rep.obligations if o[2] == 'undecided')
  byrule = {}
  for r, _, s in rep.obligations:
    byrule.setdefault(r, {'ok': 0, 'violated': 0, 'undecided': 0})[s] += 1
  insts = sorted({o[0] + ' :: ' + o[1] for o in rep.obligations})
  cov = dict(
      explanation=(mod.__doc__ or '').strip(),
      obligations=n,
      discharged=ok,
      undecided=und,
      undecided_list=rep.undecided_list[:60],
      by_rule=byrule,
      rules=rep.rules,
      functions_analysed=len(rep.analysed),
      functions=sorted(rep.analysed)[:400],
      modules_parsed=len(prog.modules),
      functions_in_program=len(prog.funcs),
      counts=rep.counts,
      samples=insts[:40],
      instances=len(insts),
      exceptions=rep.exceptions,
  )
  ev = dict(property=prop, tier=tier, seed=seed, level='other', coverage=cov,
            assumptions=getattr(mod, 'ASSUMPTIONS', []),
            wall_s=round(time.time() - t0, 3), violations=len(fresh))
  os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
  with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
    json.dump(ev, f, indent=1)
  print('%s: %d functions analysed, %d obligations (%d discharged, %d '
        'undecided, %d violated), %.1fs' %
        (prop, len(rep.analysed), n, ok, und, n - ok - und, time.time() - t0))
  if os.environ.get('TNSA_VERBOSE'):
    for u in rep.undecided_list:
      print('  undecided', u)
  if not fresh:
    return 0
  rpath = os.path.join(VERIF, 'evidence', prop + '.report.json')
  with open(rpath, 'w') as f:
    json.dump(fresh, f, indent=1)
  for v in fresh:
    print('  %s: [%s] %s: %s' % (', '.join(v['locs'][:4]), v['rule'],
                                 v['instance'], v['msg']))
  print('VIOLATION property=%s replay=%s' % (prop, rpath))
  return 1
