"""Seed flow: in every function that takes a seed, each path on which the seed
is not known to be None seeds the generator that is used with exactly that
value before the first number is drawn (or hands the seed to the function that
does); a seed of 0 is a seed; no function seeds a generator with a constant;
two draws of one result never share a key."""
import ast

from ..terms import T, walk, NONE, const
from ..lib import short, P, facts, none_facts

ASSUMPTIONS = [
    'seeders: seed, set_seed, manual_seed, PRNGKey, key, default_rng, '
    'RandomState; draws: randn, rand, normal, uniform, uniform_, random, '
    'randint, random_sample, standard_normal',
]
SEEDERS = {'seed', 'set_seed', 'manual_seed', 'PRNGKey', 'default_rng',
           'RandomState', 'manual_seed_all', 'key'}
KEYED = {'PRNGKey', 'default_rng', 'RandomState', 'key'}
DRAWS = {'randn', 'rand', 'normal', 'uniform', 'uniform_', 'random', 'randint',
         'random_sample', 'standard_normal', 'normal_', 'random_uniform',
         'stateless_normal', 'stateless_uniform', 'choice', 'split'}


def run(ctx, rep):
  rep.rule('seeded', 'a given seed reaches the seeder before the first draw')
  rep.rule('seed-zero', 'seed 0 is not treated as no seed')
  rep.rule('constant-seed', 'no generator is seeded with a constant')
  rep.rule('key-reuse', 'separate draws use separate keys')
  for q, f in sorted(ctx.prog.funcs.items()):
    if f.parent is not None or isinstance(f.node, ast.Lambda):
      continue
    if 'seed' in f.user_params() and not f.is_stub():
      seeded(ctx, rep, f)
  rep.floor('seeded', 8)
  for f, ps in ctx.scan():
    sq = short(f.qual)
    for p in ps:
      for e in p.events:
        if e.kind == 'call' and e.name in SEEDERS and e.bound is None:
          a = list(e.pos or ()) + [v for _, v in e.kw or ()]
          if e.name == 'key' and not any(
              x.op in ('ext', 'free', 'mod') for x in walk(e.recv or NONE)):
            continue
          if len(a) >= 1 and a[0].op == 'const' and a[0] is not NONE:
            rep.bad('constant-seed', sq, 'seeds the generator with the '
                    'constant %s' % a[0], e.loc)
          else:
            rep.ok('constant-seed', sq)


def is_draw(ctx, e):
  if e.name not in DRAWS:
    return False
  if e.bound is not None:
    return 'seed' not in e.bound
  return True


def seeded(ctx, rep, f):
  sq = short(f.qual)
  s = P(f, 'seed')
  paths, _ = ctx.paths(f, rep=rep)
  for p in paths or ():
    if p.outcome != 'return':
      continue
    loc = '%s:%s' % (p.file, p.line)
    absent = False
    for t, v in facts(p):
      if t is s and not v:
        rep.bad('seed-zero', sq, 'a seed of 0 is treated as no seed', loc)
        absent = True
      elif t.op == 'cmp' and t.args[1] is s and t.args[2] is NONE:
        if t.args[0] in ('is', 'eq'):
          absent = absent or v
        else:
          absent = absent or not v
      elif t.op == 'cmp' and t.args[0] in ('gt', 'lt') and \
          const(0) in t.args[1:] and s in t.args[1:] and v is False:
        rep.bad('seed-zero', sq, 'a seed of 0 is treated as no seed', loc)
        absent = True
    if absent:
      continue
    state = None
    keys = []
    bad = None
    for e in p.events:
      if e.kind != 'call':
        continue
      if e.bound is not None and 'seed' in e.bound:
        if any(x is s for x in walk(e.bound['seed'])) and \
            e.bound['seed'] is s:
          state = 'seeded'
        else:
          bad = ('the seed is not passed on to %s' % e.name, e.loc)
        continue
      args = list(e.pos or ()) + [v for _, v in e.kw or ()]
      kw = dict(e.kw or ())
      if e.name in SEEDERS and e.bound is None and args:
        if args[0] is s:
          state = 'seeded'
        elif not any(x is s for x in walk(args[0])):
          bad = ('the generator is seeded with %s instead of the seed' %
                 str(args[0])[:40], e.loc)
        continue
      if 'seed' in kw and kw['seed'] is s:
        state = 'seeded'
        continue
      if is_draw(ctx, e):
        if any(a is s for a in args):
          state = 'seeded'
          continue
        if state is None:
          bad = ('%s draws before the generator is seeded' % e.name, e.loc)
        k = [a for a in args if a.op == 'call' and
             any(x is s for x in walk(a))]
        if k:
          keys.append((k[0], e))
    for i, (k, e) in enumerate(keys):
      if any(k is k2 for k2, _ in keys[:i]):
        rep.bad('key-reuse', sq, 'two draws use the same key', e.loc)
      else:
        rep.ok('key-reuse', sq)
    if bad is None and state is None:
      bad = ('the seed is never used', loc)
    if bad is not None:
      rep.bad('seeded', sq, bad[0], bad[1])
    else:
      rep.ok('seeded', sq)
