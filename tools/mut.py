"""mut.py CHECK[,CHECK] FILE OLD NEW [N]: run checks on a scratch copy of the
tree with the N-th (default 1st; 0 = all) occurrence of OLD replaced by NEW."""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
  checks, fn, old, new = sys.argv[1:5]
  n = int(sys.argv[5]) if len(sys.argv) > 5 else 1
  d = tempfile.mkdtemp(prefix='mut')
  try:
    shutil.copytree('/repo/tensornetwork', d + '/tensornetwork',
                    ignore=shutil.ignore_patterns('__pycache__'))
    p = d + '/tensornetwork/' + fn
    s = open(p).read()
    old = old.encode().decode('unicode_escape')
    new = new.encode().decode('unicode_escape')
    if s.count(old) < max(n, 1):
      print('NOT FOUND', s.count(old)); return
    if n == 0:
      s = s.replace(old, new)
    else:
      i = -1
      for _ in range(n):
        i = s.index(old, i + 1)
      s = s[:i] + new + s[i + len(old):]
    compile(s, fn, 'exec')
    open(p, 'w').write(s)
    for c in checks.split(','):
      r = subprocess.run([sys.executable, V + '/check.py', c],
                         env=dict(os.environ, TNSA_REPO=d),
                         capture_output=True, text=True)
      out = [l for l in r.stdout.splitlines() if 'functions analysed' not in l]
      print(c, 'exit', r.returncode, '\n   '.join([''] + [l[:260] for l in out[:4]]))
      if r.returncode > 1: print(r.stderr[-600:])
  finally:
    shutil.rmtree(d)


main()
