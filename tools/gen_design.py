"""Regenerate the tables of DESIGN.md below its '## Properties' heading from the
properties, the rule modules, known_findings.json and seeded/*/meta.json."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '## Properties\n'


def rules_of(path):
  t = ast.parse(open(path).read())
  doc = ast.get_docstring(t) or ''
  ass, out = [], []
  for s in t.body:
    if isinstance(s, ast.Assign) and getattr(s.targets[0], 'id', '') == \
        'ASSUMPTIONS':
      try:
        ass = ast.literal_eval(s.value)
      except ValueError:
        pass
  for n in ast.walk(t):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
        n.func.attr == 'rule' and len(n.args) >= 2:
      try:
        r = ast.literal_eval(n.args[0]), ast.literal_eval(n.args[1])
      except ValueError:
        continue
      if r not in out:
        out.append(r)
  return doc, out, ass


def main():
  props = [json.loads(l) for l in open(V + '/properties.jsonl')]
  man = json.load(open(V + '/MANIFEST.json'))
  tech = {}
  for c in man['checks']:
    tech[c['property']] = c['technique']
  na = {x['property']: x['reason'] for x in man['not_applicable']}
  bugs = {}
  for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    bugs.setdefault(m['property'], []).append(
        (os.path.basename(os.path.dirname(f)), m))
  o = [MARK, '', '(Generated by `tools/gen_design.py`; each rule alarms on the '
       'opposite of its sentence.)', '']
  for p in props:
    i = p['id']
    if i not in tech:
      continue
    doc, rules, ass = rules_of('%s/tnsa/rules/%s.py' % (V, i.lower()))
    o.append('### %s %s' % (i, p['title']))
    o.append('')
    o.append('*Technique:* %s.' % tech[i].replace('static analysis: ', ''))
    o.append('')
    o.append(re.sub(r'\s*\n\s*', ' ', doc))
    o.append('')
    for a, b in rules:
      o.append('* `%s`: %s.' % (a, b.rstrip('.')))
    o.append('')
    if ass:
      o.append('*Assumes:* %s.' % '; '.join(ass))
      o.append('')
    o.append('*Beyond the tests:* %s.' % p['why_tests_cant'].rstrip('.'))
    if i in bugs:
      o.append('')
      o.append('*Planted bugs:* %s.' % ', '.join(b for b, _ in bugs[i]))
    o.append('')
  o += ['## Not applicable', '', 'Static analysis cannot decide these; they are '
        'listed under `not_applicable`.', '']
  for p in props:
    if p['id'] in na:
      o.append('* **%s %s**: %s.' % (p['id'], p['title'],
                                     na[p['id']].rstrip('.')))
  o += ['', '## Defects found and repaired', '', 'Each is a `fix:` commit in '
        '/repo, found by (or while writing) the rule of the property named; '
        'with the fix reverted the check reports it again.', '',
        '| property | commit | what failed |', '| --- | --- | --- |']
  kf = json.load(open(V + '/known_findings.json'))
  for k in kf:
    if k['status'] == 'fixed':
      w = re.sub(r'^fixed: property=\S+ \S+ ', '', k['what'])
      o.append('| %s | %s | %s |' % (k['property'], k['commit'], w))
  kn = [k for k in kf if k['status'] == 'known']
  o += ['', 'Recorded, not repaired: ' + (
      '; '.join('%s %s' % (k['property'], k['what']) for k in kn) or 'none') +
        '.', '', '## Planted bugs', '', 'Each was confirmed in a scratch copy '
        '(applies, stable tests pass, demo 0 without and 1 with it); each is '
        'caught by the check of its property.', '',
        '| bug | property | needs | breaks |', '| --- | --- | --- | --- |']
  for b, m in sorted((b, m) for l in bugs.values() for b, m in l):
    o.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'],
                                        m['what_it_breaks']))
  o.append('')
  s = open(V + '/DESIGN.md').read()
  head = s[:s.index(MARK)] if MARK in s else s.rstrip('\n') + '\n\n'
  open(V + '/DESIGN.md', 'w').write(head + '\n'.join(o))


main()
