"""Write MANIFEST.json from the rule modules present and the property list."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'guard-coverage dataflow (path-sensitive provenance, union-find of equal backends)',
 'C02': 'provenance dataflow of backend arguments to constructors and delegated calls',
 'C03': 'typestate/pairing analysis of the backend and collection stacks',
 'C04': 'typestate analysis of edge disabling and freshening on every path',
 'C05': 'pairing analysis of edge installation and back-pointer updates',
 'C06': 'guard-dominance analysis of private-state accessors',
 'C07': 'effect-before-raise path analysis',
 'C08': 'alias and effect (purity) analysis over views of parameters',
 'C09': 'option-flow analysis: name-slot agreement at every call, dead and unforwarded parameters',
 'C10': 'sibling cross-check of backend interface and operator semantics',
 'C11': 'dataflow of the seed parameter to the generator used for the draw',
 'C12': 'writer/reader table agreement of serialisation code',
 'C13': 'constructor/get_config table agreement',
 'C14': 'cache-key completeness (free-variable) analysis and restore-on-exit pairing',
 'C15': 'guard-dominance analysis with canonical comparisons',
 'C16': 'parallel-permutation provenance analysis of symmetric tensor metadata',
 'C16': 'provenance normal form of paired charge/flow/order arguments at every call; guard (must-precede) analysis',
 'C17': 'provenance analysis of charge constructor arguments; algebraic rewriting of the fusion rules',
 'C18': 'leg-kind typing of every contraction label list',
 'C19': 'origin (copy/alias) analysis of every edge and node of a result over all paths, compared with the specified spaces',
 'C20': 'typestate analysis of the centre position',
 'C21': 'slice-bound agreement and sibling cross-check of decompositions',
 'C22': 'guard enumeration with canonical predicates before the first contraction',
 'C23': 'exhaustive-dispatch (fall-through) analysis',
 'C24': 'canonical boundary-comparison analysis of range guards',
 'C25': 'must-pass-through analysis of output reordering on every return path',
 'C26': 'conjugation-parity analysis of inner products, symbolic rotation algebra, unit (homogeneity) analysis',
 'C27': 'conditional constant propagation of layer configurations, weight def-use analysis',
 'C28': 'provenance of returned lists through comprehensions and appends to the request',
 'C31': 'symbolic label-sequence analysis: order and membership tables of every permutation, shape and label list compared',
 'C32': 'provenance of constructor arguments and edge ends of every copy',
 'C33': 'provenance analysis of permutations, axis lists and edge lists along every path of the rewiring functions',
 'C30': 'abstract interpretation counting the consuming uses of an argument',
 'C29': 'typestate analysis of the environment tables against centre moves',
}
NA = {
 'N01': 'quantifies over numerical values of arbitrary networks; its structural parts (leg wiring, axis order, backend agreement) are C05, C18, C22, C25',
 'N02': 'a numerical identity of floating-point factorisations; the structural part (common truncation bound, shapes) is C21',
 'N03': 'numerical convergence; the structural parts (argument checks, conjugation parity) are C15 and C26',
 'N04': 'value equality over all symmetric tensors; the structural part (metadata moves with data) is C16',
 'N05': 'value equality of external numerical libraries; the structural part (interface and operator identity) is C10',
 'N06': 'numerical value of layer outputs; the declarative part is C13',
 'N07': 'depends on run-time sizes and the external path search of opt_einsum; that the limit reaches the search is part of C09',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
  i = p['id']
  if i in TECH and os.path.exists(os.path.join(V, 'tnsa/rules/%s.py' % i.lower())):
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i,
                       thorough_cmd='python3 check.py %s thorough' % i,
                       technique='static analysis: ' + TECH[i], level='other',
                       level_note='sound for the rule stated in the evidence file on the analysed paths (acyclic, loop bodies once); unrecognised idioms are counted as undecided, not as violations'))
  else:
    na.append(dict(property=i, reason=NA.get(i, 'static rule not implemented yet')))
m = dict(version=1, setup_cmd='python3 -c "import ast, sys; assert sys.version_info >= (3, 9)"', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
