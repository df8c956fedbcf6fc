"""plant.py ID...: confirm seeded bugs in a scratch copy of /repo: the patch
applies, the stable tests pass, demo.sh exits 0 without and non-zero with it,
and list which checks catch it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **kw):
  return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True,
                        text=True, **kw)


def main(ids):
  tests = '--no-tests' not in ids
  allchecks = '--all' in ids
  ids = [i for i in ids if not i.startswith('--')]
  base = json.load(open('/opt/vp/BASELINE.json'))['stable']
  for i in ids:
    d = V + '/seeded/' + i
    w = tempfile.mkdtemp(prefix='plant') + '/repo'
    try:
      subprocess.run(['cp', '-a', '/repo', w], check=True)
      sub = lambda p: sh("sed 's#/repo#%s#g' %s > %s/../%s" %
                         (w, p, w, os.path.basename(p)), '/')
      env = dict(os.environ, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE='1',
                 TNSA_REPO=w)
      r0 = sh('bash %s/demo.sh' % d, w, env=env)
      a = sh('git apply %s/patch.diff' % d, w)
      if a.returncode:
        print(i, 'PATCH FAILS', a.stderr); continue
      r1 = sh('bash %s/demo.sh' % d, w, env=env)
      miss = None
      if tests:
        sub('/opt/vp/test.sh')
        t = sh('bash %s/../test.sh %s/../out.json' % (w, w), w)
        o = json.load(open(w + '/../out.json'))
        ok = set(o.get('passed') or [k for k, v in o.items() if v == 'passed'])
        miss = [b for b in base if b not in ok]
      meta = json.load(open(d + '/meta.json'))
      cs = [meta['property']] if not allchecks else sorted(
          c[:-3].upper() for c in os.listdir(V + '/tnsa/rules')
          if c[0] == 'c' and c.endswith('.py'))
      caught = []
      for c in cs:
        r = sh('%s %s/check.py %s' % (sys.executable, V, c), V, env=env)
        if 'VIOLATION property=' in r.stdout and r.returncode == 1:
          caught.append(c)
        elif r.returncode not in (0, 1):
          caught.append(c + '(exit %d)' % r.returncode)
      print(i, 'demo %d -> %d' % (r0.returncode, r1.returncode),
            'tests lost', None if miss is None else len(miss),
            (miss or [])[:3], 'caught', caught, flush=True)
      if r0.returncode:
        print('   ', (r0.stdout + r0.stderr)[-300:])
      elif not r1.returncode:
        print('   ', (r1.stdout + r1.stderr)[-300:])
    finally:
      shutil.rmtree(os.path.dirname(w))


main(sys.argv[1:])
