"""mkbug.py ID PROPERTY FILE OLD NEW N NEEDS BREAKS < demo.py: write a bug."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i, prop, fn, old, new, n, needs, breaks = sys.argv[1:9]
d = V + '/seeded/' + i
os.makedirs(d, exist_ok=True)
p = '/repo/tensornetwork/' + fn
s0 = open(p).read()
old = old.encode().decode('unicode_escape')
new = new.encode().decode('unicode_escape')
assert s0.count(old) >= int(n), s0.count(old)
k = -1
for _ in range(int(n)):
  k = s0.index(old, k + 1)
import difflib
rel = 'tensornetwork/' + fn
diff = 'diff --git a/%s b/%s\n' % (rel, rel) + ''.join(difflib.unified_diff(
    s0.splitlines(True), (s0[:k] + new + s0[k + len(old):]).splitlines(True),
    'a/' + rel, 'b/' + rel))
open(d + '/patch.diff', 'w').write(diff)
open(d + '/demo.py', 'w').write(sys.stdin.read())
open(d + '/demo.sh', 'w').write(
    '#!/bin/bash\n# exit 0: the property holds; 1: it is broken\n'
    'here=$(cd "$(dirname "$0")" && pwd)\n'
    'export PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}" CUDA_VISIBLE_DEVICES= '
    'TF_CPP_MIN_LOG_LEVEL=3 TF_USE_LEGACY_KERAS=1 PYTHONDONTWRITEBYTECODE=1\n'
    'exec /opt/venv/bin/python "$here/demo.py"\n')
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks),
          open(d + '/meta.json', 'w'), indent=1)
