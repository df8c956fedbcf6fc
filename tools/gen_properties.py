"""Writes /verif/properties.jsonl (kept here so the statements are reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
  P.append(dict(id=id, title=title, statement=statement,
    quantifier=dict(over=over, text=text), why_tests_cant=why,
    anchors=dict(files=['tensornetwork/' + f for f in files],
      mechanism=[dict(name=n, where='tensornetwork/' + w) for n, w in mech],
      observe_at=observe)))

p('C01', 'Objects on different backends are never combined',
  'Combining nodes, tensors, networks or solver arguments that live on different backends (contracting, outer products, flattening/splitting/slicing a shared edge, node and tensor arithmetic and matmul, tensordot/outer/einsum/kron/ncon on tensor objects, starting a Krylov solver with a vector of another backend, running DMRG on a state and operator of different backends) is rejected with an exception. The rejection covers every pair of operands and comes before any tensor is computed and before any node or edge is changed.',
  ['inputs', 'configurations'], 'every pair of backends, every position of the odd operand, every entry point that combines backend-carrying objects',
  'tests try one or two backend pairs on a few entry points, with the mismatch in the first operands; several of the test files for these entry points cannot be imported in this environment at all',
  ['network_components.py', 'tensor.py', 'ncon_interface.py', 'linalg/operations.py', 'linalg/krylov.py', 'matrixproductstates/dmrg.py'],
  [('backend name comparison before use', 'network_components.py'), ('_check_backends', 'linalg/operations.py'), ('krylov_error_checks', 'linalg/krylov.py'), ('BaseDMRG.__init__', 'matrixproductstates/dmrg.py')],
  ['exception raised by the public call'])

p('C02', 'Results stay on the backend of the operands',
  'Every node or tensor object that a library operation builds from existing nodes, tensors or other backend-carrying objects (copies, arithmetic, contraction results, traces, splits, transposes, conjugates, MPS/MPO/DMRG environments, functional tensor operations) is on the backend of those operands. It never depends on which default backend happens to be active.',
  ['inputs', 'configurations'], 'every operation, operand backend and active default backend',
  'tests run with the default backend equal to the operand backend, so a result built on the default backend looks right',
  ['network_components.py', 'network_operations.py', 'tensor.py', 'linalg/operations.py', 'linalg/linalg.py', 'linalg/node_linalg.py', 'ncon_interface.py', 'matrixproductstates/base_mps.py', 'matrixproductstates/dmrg.py', 'quantum/quantum.py'],
  [('backend= argument of every internal node/tensor construction', 'network_components.py')],
  ['result.backend'])

p('C03', 'Default-backend and node-collection contexts nest exactly',
  'Where no backend is given, constructors, initialisers and solvers use the innermost active default-backend context, else the global default, and this works whether that default was set as a name or as a backend object; an explicit backend always wins. Leaving a default-backend or node-collection context, normally or through an exception, restores exactly what was active before, and every node constructed inside joins the innermost collection. Setting the global default inside a context, to an unknown name or to a non-backend value is rejected and changes nothing.',
  ['inputs', 'histories'], 'every nesting and exit of contexts, every way of naming the default, every function with an optional backend',
  'tests cover two-level nesting and one default representation; the number of functions with an optional backend times the representations of the default is not enumerated',
  ['backend_contextmanager.py', 'ops.py', 'network_components.py', 'tensor.py', 'linalg/initialization.py', 'linalg/node_linalg.py', 'linalg/krylov.py', 'backends/backend_factory.py'],
  [('context stack push/pop', 'backend_contextmanager.py'), ('get_default_backend', 'backend_contextmanager.py'), ('NodeCollection', 'network_components.py')],
  ['get_default_backend()', 'result.backend', 'collection contents'])

p('C04', 'Contracted edges are disabled and consumed nodes let go of the rest',
  'After a contraction, trace, edge flattening or edge split returns, every edge it consumed is disabled, and edges it did not consume are not. Nodes whose remaining edges were handed to a result node (contraction, trace, outer product, node splitting) are left with their own fresh edges under their own axis names, so the result never shares an edge object with a consumed node.',
  ['inputs', 'histories'], 'every network, every contraction and split entry point, every normal exit',
  'tests check the result tensor and a few edges, not that each consumed edge is disabled and each consumed node is detached on every branch (trace, parallel, outer product, copy node)',
  ['network_components.py', 'network_operations.py'],
  [('_remove_edges / _remove_trace_edge', 'network_components.py'), ('fresh_edges', 'network_components.py'), ('Edge.disable', 'network_components.py')],
  ['edge.is_disabled', 'node.edges'])

p('C05', 'Nodes and edges always point back at each other',
  'After any operation that builds or rewires a network (connect, disconnect, contract, trace, outer product, node splitting, edge flattening and splitting, reordering axes or edges, redirecting an edge, copying nodes or networks, loading from file or JSON), an edge stored at axis k of a node names that node with axis k as one of its ends, and each end of a live edge names a node that stores that edge at that axis. The axis names of a node it touched have one entry per axis.',
  ['inputs', 'histories'], 'every sequence of rewiring operations on every network',
  'consistency after arbitrary sequences of operations cannot be enumerated; tests call the consistency checker after a handful of fixed sequences',
  ['network_components.py', 'network_operations.py'],
  [('add_edge / update_axis pairing', 'network_components.py'), ('connect', 'network_components.py'), ('copy', 'network_operations.py')],
  ['check_correct()', 'edge.node1/axis1/node2/axis2', 'node.edges'])

p('C06', 'Disabled nodes and edges refuse access',
  'Reading or setting name, axis1, axis2, node1 or node2 of a disabled edge, and reading or setting the edges of a disabled node, reading the shape of a disabled Node, using a disabled node as left operand of @ or disabling it again, raises an error instead of returning stale data. Reading an end of an edge whose node no longer exists raises too.',
  ['histories'], 'every accessor at every point after the object was disabled',
  'tests probe some accessors of one disabled edge; a new or changed accessor is not covered',
  ['network_components.py'],
  [('is_disabled guards', 'network_components.py')],
  ['ValueError from the accessor'])

p('C07', 'A rejected network operation changes nothing',
  'When connect, disconnect, add/reorder edges or axes, naming, contraction, outer product, edge flattening, splitting or slicing, node splitting, edge redirection, switching backends, MPS gate application or moving the MPS centre rejects its arguments with an exception of its own, none of the nodes, edges and tensors involved has been modified.',
  ['inputs'], 'every rejected argument combination of every listed operation',
  'tests check that the exception is raised, never that the network is still what it was',
  ['network_components.py', 'network_operations.py', 'matrixproductstates/base_mps.py'],
  [('validation before mutation', 'network_components.py')],
  ['network state after the exception'])

p('C08', 'Caller-owned arrays and argument lists are never modified',
  'No library call modifies in place an array, tensor, list or dict that the caller passed in, unless modifying that object is the documented purpose of the call. This includes initial vectors and argument lists of the Krylov solvers, tensors given to MPS/MPO/DMRG constructors, ncon tensors and network lists, shapes, permutations and axis lists, and tensors handed to backend functions, also where a backend hands back a view instead of a copy.',
  ['inputs', 'histories'], 'every argument of every public function, every backend, every branch',
  'tests do not compare arguments before and after; aliasing only shows for particular dtypes, backends or option combinations',
  ['backends/numpy/numpy_backend.py', 'backends/pytorch/pytorch_backend.py', 'backends/tensorflow/tensorflow_backend.py', 'backends/symmetric/symmetric_backend.py', 'matrixproductstates/base_mps.py', 'matrixproductstates/infinite_mps.py', 'ncon_interface.py', 'linalg/krylov.py', 'block_sparse/blocksparsetensor.py'],
  [('copies before in-place updates', 'backends/numpy/numpy_backend.py')],
  ['argument contents after the call'])

p('C09', 'Accepted options reach the operation they configure',
  'An option accepted by a public function (truncation limits and their absolute/relative meaning, pivot axes, names and axis names, output order, ignore flags, memory limits, dtype, tolerances, iteration and subspace sizes, precision) is passed on under the same meaning to the operation that implements it on every branch that performs that operation. It is never silently dropped, replaced by a constant or exchanged with another option.',
  ['inputs', 'configurations'], 'every option of every public function, every branch',
  'tests set one option at a time on one branch; the option x branch x backend product is not enumerated and a dropped option usually still returns a plausible result',
  ['network_components.py', 'network_operations.py', 'contractors/opt_einsum_paths/path_contractors.py', 'linalg/linalg.py', 'linalg/krylov.py', 'linalg/node_linalg.py', 'linalg/initialization.py', 'matrixproductstates/base_mps.py', 'matrixproductstates/dmrg.py', 'backends/numpy/numpy_backend.py', 'backends/jax/jax_backend.py', 'backends/tensorflow/tensorflow_backend.py', 'backends/pytorch/pytorch_backend.py', 'backends/symmetric/symmetric_backend.py'],
  [('argument forwarding at every call', 'network_operations.py')],
  ['result tensor, names, ranks'])

p('C10', 'Every backend implements the same interface',
  'All backends accept the same calls: each operation of the common backend interface is available on each backend under the same parameter names, order and optional/required status, and either computes its result or refuses explicitly; a parameter that is left out means the same on every backend (limits on the number of iterations excepted). The elementwise and simple structural operations (addition, subtraction, multiplication, division, conjugate, exponentials, logarithms, roots, trigonometric functions, absolute value, sign, power, outer product, transpose, reshape, tensordot and so on) compute the operation they are named after with their operands in the order given, on every backend and through the node and tensor operators.',
  ['inputs', 'configurations'], 'every interface operation on every backend and every call form (positional or keyword)',
  'the pytorch backend cannot even be imported by the tests here and tests call each method in one call form',
  ['backends/abstract_backend.py', 'backends/numpy/numpy_backend.py', 'backends/jax/jax_backend.py', 'backends/tensorflow/tensorflow_backend.py', 'backends/pytorch/pytorch_backend.py', 'backends/symmetric/symmetric_backend.py', 'linalg/operations.py', 'tensor.py', 'network_components.py'],
  [('AbstractBackend method signatures', 'backends/abstract_backend.py')],
  ['TypeError/NotImplementedError, value of the operation'])

p('C11', 'A given seed alone determines random tensors',
  'Whenever a caller passes a seed, including 0, to a random-initialising function, the random generator used for the result is seeded from exactly that value before any number is drawn, at every level (backend, block-sparse, functional initialisers, node initialisers). Without a seed no fixed seed is imposed.',
  ['inputs', 'histories'], 'every seed value, every backend, every dtype branch, every earlier use of the generator',
  'tests use seed 10 on one dtype and never draw in between',
  ['backends/numpy/numpy_backend.py', 'backends/jax/jax_backend.py', 'backends/tensorflow/tensorflow_backend.py', 'backends/pytorch/pytorch_backend.py', 'backends/symmetric/symmetric_backend.py', 'linalg/initialization.py', 'linalg/node_linalg.py'],
  [('seed handling in randn / random_uniform', 'backends/numpy/numpy_backend.py')],
  ['equality of two draws with the same seed'])

p('C12', 'Saved networks load back with nothing lost',
  'Everything a node or edge writes when a network is saved to HDF5 or JSON is read back into the same attribute of the loaded object, and everything a loader needs is written by the saver, for every node type that can be saved and for dangling, trace, ordinary and cut edges. Saving leaves the names of the nodes and edges it saved unchanged, also when saving fails.',
  ['inputs'], 'every node type, edge kind, subset of a network and naming of nodes and edges',
  'tests save a few fully-named small networks and do not look at the originals afterwards',
  ['utils.py', 'network_components.py', 'network_operations.py', 'component_factory.py'],
  [('_save_node/_load_node tables', 'network_components.py'), ('to_serial_dict/from_serial_dict', 'network_components.py'), ('component table', 'component_factory.py')],
  ['attributes of loaded nodes and edges', 'names after saving'])

p('C13', 'Keras layers are fully described by their config',
  'The configuration dictionary of every Keras layer contains every constructor argument under its own name, holding the value that was given (in serialised form where needed), and the layer stores each argument it was given; so rebuilding a layer from its configuration yields the same layer.',
  ['inputs', 'configurations'], 'every layer class and every constructor argument value',
  'tests rebuild layers with default or few arguments',
  ['tn_keras/dense.py', 'tn_keras/condenser.py', 'tn_keras/expander.py', 'tn_keras/entangler.py', 'tn_keras/mpo.py', 'tn_keras/conv2d_mpo.py'],
  [('get_config', 'tn_keras/dense.py')],
  ['layer.get_config()'])

p('C14', 'Caches change cost, never results',
  'A cached object (block structure of symmetric tensors, compiled solver functions, compiled matrix-vector products, instantiated backends) is only ever reused for inputs on which it cannot differ: everything the cached value is computed from is part of what it is stored under or is the same for all callers. A solver that switches block-structure caching on internally restores the caller\'s caching state on every exit, including exceptions.',
  ['histories', 'inputs'], 'every sequence of calls sharing a cache, every exit of the solvers that toggle it',
  'tests start from an empty cache and never interleave calls that could collide, nor look at the caching state after a failure',
  ['block_sparse/caching.py', 'block_sparse/blocksparse_utils.py', 'backends/symmetric/symmetric_backend.py', 'backends/jax/jax_backend.py', 'backends/jax/jitted_functions.py', 'ncon_interface.py', 'backends/backend_factory.py'],
  [('cache key construction', 'block_sparse/blocksparse_utils.py'), ('caching status save/restore', 'backends/symmetric/symmetric_backend.py')],
  ['results with a warm cache', 'get_caching_status()'])

p('C15', 'Krylov solvers reject bad arguments before applying the operator',
  'Each backend\'s eigsh_lanczos, eigs and gmres rejects, before the first application of the operator, the arguments it cannot serve: no initial vector without shape and dtype, an initial vector of a foreign type, a Krylov space smaller than the number of requested eigenpairs, several eigenpairs without reorthogonalisation, unsupported eigenvalue selectors, and for gmres mismatched shapes or dtypes of b and the initial guess or non-positive sizes. Backends agree on which of these combinations are rejected, and valid arguments including documented defaults are accepted.',
  ['inputs', 'configurations'], 'every combination of arguments on every backend',
  'tests probe some rejections on some backends with one value each, far from the boundary of the allowed range',
  ['backends/abstract_backend.py', 'backends/numpy/numpy_backend.py', 'backends/jax/jax_backend.py', 'backends/symmetric/symmetric_backend.py', 'backends/tensorflow/tensorflow_backend.py', 'backends/pytorch/pytorch_backend.py', 'linalg/krylov.py'],
  [('argument checks ahead of the first A(x)', 'backends/numpy/numpy_backend.py')],
  ['ValueError/TypeError, number of operator applications'])

p('C16', 'Symmetric tensors keep data, charges, flows and leg order in step',
  'Wherever charges and flows of a symmetric (block-sparse) tensor or index are handed on together - to a constructor or to a function that fuses or searches them - both select the same elementary legs of the same object in the same sequence. A tensor built on the legs of another one (copy, scaling, arithmetic, conjugation, inverse, *_like, operator vectors of the iterative solvers) takes its leg order from it, merged and permuted legs included, and a block search runs in the leg order of the tensor searched. Flows are reversed exactly by conjugation, inversion and flip_flow, for all legs at once. The new leg of a factor (svd, qr, eig, eigh) is outgoing next to the row legs and ingoing next to the column legs, and the two halves of a block search carry opposite reversal. Elementwise addition and subtraction run only after charges, flows and storage layout of the operands were compared and aligned, a contraction only after flows and charges of the contracted legs were compared; each operand\'s legs are selected by the axes given for it.',
  ['inputs'], 'every charge type, leg order, number of merged legs and flow combination',
  'tests use a few random symmetric tensors, mostly in natural leg order',
  ['block_sparse/blocksparsetensor.py', 'block_sparse/linalg.py', 'block_sparse/index.py'],
  [('constructor calls of derived tensors', 'block_sparse/blocksparsetensor.py'), ('block searches and fusions', 'block_sparse/blocksparse_utils.py'), ('factors', 'block_sparse/linalg.py')],
  ['charges, flows, order, dense form of the result'])

p('C17', 'Charges obey their group law, and derived charges keep types and width',
  'The fusion rule of every symmetry is a commutative group operation with the declared identity and dual charge, listed with the first operand varying slowest, and the rule of the n-th symmetry is applied to the n-th column of every operand. Every charge object made from others (fusion, product of symmetries, dual, indexing, unique, reduction, intersection, copy, identity, block quantum numbers) is constructed with the symmetry types of its sources in the order of its columns and with the integer data type of its source or of the array it holds, never a default or fixed one; unique charges are passed together with labels. charge_equal decides on the charges, not on how they are stored.',
  ['inputs'], 'every charge class and product of classes, every integer width, every storage form',
  'tests use the default integer width, products of one symmetry with itself and freshly built charges',
  ['block_sparse/charge.py', 'block_sparse/blocksparse_utils.py'],
  [('charge constructor calls', 'block_sparse/charge.py'), ('fuse, dual_charges, identity_charge', 'block_sparse/charge.py')],
  ['charge.charges', 'charge.charge_types', 'charge.dtype', 'charge_equal'])

p('C18', 'MPS and DMRG contractions join matching legs',
  'In every tensor contraction of the MPS, MPO and DMRG code a left bond is only ever joined with the right bond of the neighbouring site (or the matching leg of an environment), physical legs join operator or conjugate physical legs of the same site, ket legs pair with conjugated legs on the ket side of environments and operators and bra legs with the bra side, and the result has its legs in the order its consumers expect. Each index of a contraction appears exactly once on the result or on exactly two tensors.',
  ['inputs'], 'every bond dimension, physical dimension, complex tensor and site',
  'with symmetric, real or square test tensors an exchanged pair of legs gives the same number',
  ['matrixproductstates/base_mps.py', 'matrixproductstates/finite_mps.py', 'matrixproductstates/infinite_mps.py', 'matrixproductstates/dmrg.py', 'matrixproductstates/mpo.py'],
  [('index lists of ncon calls', 'matrixproductstates/dmrg.py')],
  ['shape and value of the contraction'])

p('C19', 'Quantum operators are combined through copies, space by space',
  'Operations on quantum operators, vectors and scalars (adjoint, partial trace, tensor product, composition, norm, projector, reduced density, out-of-place contraction and evaluation) never change the networks of their operands: the edges they join and the edges and nodes they hand to a result belong to a copy, unless the operation is explicitly the in-place contraction of the object itself. Output and input edges, reference nodes and ignored edges of the result are the images of the operands\' own, complete and in operand order; the adjoint exchanges outputs and inputs and conjugates, nothing else conjugates; composition joins input edges of the left with output edges of the right operand after checking that the spaces match, a partial trace joins outputs with inputs of the traced subsystems and keeps the others. The class of a result follows from which sides are empty. In-place contraction maps every edge list and the reference nodes through the replacements made by identity elimination, also when replacements chain; evaluation orders axes as outputs, then inputs.',
  ['inputs', 'histories'], 'every operator network, every sequence of operations reusing the same operand',
  'tests use an operand once and do not re-use it after an operation, and have no chained identities',
  ['quantum/quantum.py'],
  [('copy before rewiring', 'quantum/quantum.py')],
  ['operand networks after the call', 'in/out edges of the result'])

p('C20', 'The MPS centre position is always truthful',
  'Every operation that moves the orthogonality centre of an MPS (position, truncated or not, in both directions; the two-site gate; construction and canonicalization of a finite MPS; the local updates of DMRG) leaves a left isometry at every site left of the recorded centre that it writes, a right isometry at every such site right of it and the remaining weight at the centre; if the form is destroyed the centre is reset to None. Left and right environments are the identity only on the canonical side of the centre, and check_canonical checks every site for the side it is on. A centre or site outside the chain, and a truncating two-site gate away from the centre, are refused before any tensor changes. (apply_one_site_gate leaves the bookkeeping to its caller, as it documents.)',
  ['inputs', 'histories'], 'every sequence of position, canonicalise and gate operations on every chain length',
  'tests verify orthonormality after single moves on one chain',
  ['matrixproductstates/base_mps.py', 'matrixproductstates/finite_mps.py', 'matrixproductstates/infinite_mps.py'],
  [('center_position bookkeeping', 'matrixproductstates/base_mps.py')],
  ['mps.center_position', 'check_canonical()'])

p('C21', 'Truncated decompositions cut every factor at the same place',
  'In every dense backend the truncated SVD keeps min(rank, max_singular_values, number allowed by max_truncation_error) singular values, where the error bound is on the root of the summed squares of the discarded values, scaled by the largest singular value if relative; exactly the kept columns, values and rows are returned and exactly the discarded values are reported. Both factors of every decomposition keep the leading and trailing shape given by the pivot axis, with the new bond between them and in the same order at every level, and all dense backends agree.',
  ['inputs', 'configurations'], 'every shape, pivot, limit combination and backend',
  'tests combine few limits; ties, both limits together and relative with a bound are sampled at single points and pytorch is not run',
  ['backends/numpy/decompositions.py', 'backends/tensorflow/decompositions.py', 'backends/pytorch/decompositions.py', 'backends/jax/jax_backend.py', 'backends/numpy/numpy_backend.py'],
  [('svd/qr/rq', 'backends/numpy/decompositions.py')],
  ['shapes and values of the factors'])

p('C22', 'ncon rejects malformed networks before contracting',
  'A network description is rejected with an error before anything is contracted when it names a different number of tensors than given, gives a tensor a different number of labels than its rank, uses 0 or a non-alphanumeric string as a label, joins dimensions that differ, or gives a contraction order or output order that is not exactly the set of closed or open labels. Only closed labels are traced or summed over, each on the tensors that carry it, and the result has its axes in the requested output order or in the documented default order (numbers descending before strings ascending).',
  ['inputs'], 'every labelling of every set of tensors',
  'tests list a dozen malformed networks, and the result order only for small cases',
  ['ncon_interface.py'],
  [('_check_network', 'ncon_interface.py'), ('_jittable_ncon', 'ncon_interface.py')],
  ['ValueError', 'axis order of the result'])

p('C23', 'Unknown option values are refused, not ignored',
  'Where an argument selects between named alternatives (direction or side of an MPS operation, eigenvalue selector, sweep kind, contraction algorithm, backend name, component type, layer option), a value that is none of the documented alternatives raises an error; it never falls through to one of them or to an empty result.',
  ['inputs'], 'every value outside the documented set for every selector argument',
  'tests try at most one bad value per selector',
  ['matrixproductstates/base_mps.py', 'matrixproductstates/infinite_mps.py', 'matrixproductstates/dmrg.py', 'backends/backend_factory.py', 'component_factory.py', 'contractors/opt_einsum_paths/path_contractors.py', 'backends/jax/jax_backend.py', 'backends/jax/jitted_functions.py', 'backends/symmetric/symmetric_backend.py', 'backends/tensorflow/tensorflow_backend.py', 'linalg/linalg.py'],
  [('else: raise of each dispatch', 'matrixproductstates/base_mps.py')],
  ['exception'])

p('C24', 'Out-of-range sites, axes and sizes are refused',
  'Functions that document a valid range for a site, axis, slice or size argument raise for the first value below and the first value above that range and accept the extreme values inside it, for every entry point that checks such an argument. An axis given from the end, and only such an axis, is converted by adding the number of axes to it.',
  ['inputs'], 'both ends of every checked range',
  'tests use values far outside the range, so an off-by-one bound passes',
  ['network_components.py', 'matrixproductstates/base_mps.py', 'matrixproductstates/finite_mps.py', 'matrixproductstates/infinite_mps.py', 'block_sparse/blocksparsetensor.py'],
  [('range checks', 'matrixproductstates/base_mps.py')],
  ['exception'])

p('C25', 'Contractors return the whole network in the requested order',
  'Every contraction entry point that takes an output edge order (pairwise contraction, final outer products, the path-based contractors, contraction and evaluation of quantum operators) puts the node it returns into exactly that order after its last contraction, or hands the order on to the entry point it delegates to, on every path on which the caller did not ask to ignore the order (contract_path with an empty path returns the nodes as they are). The general contractors refuse a missing order while several edges remain, and base refuses an order that differs from the remaining edges, before contracting anything. In the pairwise loops nodes with no shared edge are combined by outer products, every contraction result stays in the working list and exactly the two replaced nodes leave it; the bucket contractor replaces the copy node and its partners, read before the contraction, by the result. The automatic contractor contracts every positive number of nodes and refuses zero.',
  ['inputs', 'configurations'], 'every network size including one and two nodes, every algorithm, every order',
  'the shortcut branches (one node, disconnected parts, large networks) are only sampled and order only matters when dimensions differ',
  ['contractors/opt_einsum_paths/path_contractors.py', 'contractors/bucket_contractor.py', 'network_components.py', 'quantum/quantum.py'],
  [('base', 'contractors/opt_einsum_paths/path_contractors.py'), ('reorder_edges', 'network_components.py')],
  ['result.edges'])

p('C26', 'Iterative solvers use one inner product, iterate and unit',
  'Every inner product the Krylov solvers (Lanczos, Arnoldi, GMRES and their Gram-Schmidt steps, in the numpy, symmetric and jax backends) form from two vectors conjugates exactly one of the two; where the coefficient projects a vector out, it multiplies the conjugated vector and the product is subtracted. The rotations GMRES applies to its Hessenberg matrix and right hand side are unitary for complex entries and annihilate the entry they are built for. A restart adds its correction to the solution whose residual it started from and the next restart continues from the result. Residuals, their estimates and the tolerances they are compared with scale alike with the right hand side. A projected matrix assembled from its diagonals for a hermitian eigensolver is hermitian.',
  ['inputs', 'histories'], 'every complex input, every number of restarts, every scale of the right hand side',
  'most tests are real with one restart and data of order one, where a missing conjugate, a lost iterate or a unit error changes nothing',
  ['backends/numpy/numpy_backend.py', 'backends/jax/jitted_functions.py', 'backends/symmetric/symmetric_backend.py'],
  [('inner products', 'backends/jax/jitted_functions.py'), ('gmres', 'backends/jax/jitted_functions.py')],
  ['eigenvalues/solutions for complex operators', 'residual of the returned solution'])

p('C28', 'Batched requests are answered entry by entry',
  'A function that answers a list of sites, axes, nodes or tensors with a list returns one entry per requested element, in the order of the request, computed from that element, also when the request is unsorted or repeats elements: local measurements and two-body correlators of an MPS (with operators paired by position), the physical and bond dimensions of a chain, the spaces of a quantum operator, the edges chosen by from_tensor, and the replicas of a list of nodes. Nowhere does a loop over the elements of a collection do the same thing for every element because it never looks at the element.',
  ['inputs'], 'every order and repetition of requested elements',
  'tests request sites in ascending order',
  ['matrixproductstates/base_mps.py', 'matrixproductstates/mpo.py', 'quantum/quantum.py', 'network_operations.py'],
  [('measure_two_body_correlator', 'matrixproductstates/base_mps.py')],
  ['returned lists'])

p('C29', 'DMRG environments describe the current state',
  'Whenever DMRG optimises a site or a bond, the left environments up to the centre and the right environments down to the centre are those of the tensors now stored in the state: every layer is added, after the tensor of its site was stored, to the environment of the neighbouring site; moving the centre renews the environments of exactly the sites passed, in order, and never discards those of the new centre; a centre moved on the state alone is followed by a renewal of the environments of that side from the boundary before any is used; and environments are read only on the side on which they are valid. DMRG.position leaves no environment beyond the new centre behind.',
  ['histories'], 'every sequence of moves, sweeps and energy evaluations on every chain length',
  'tests run whole sweeps on small chains, where a stale environment only slows convergence or moves the energy within the tolerance',
  ['matrixproductstates/dmrg.py'],
  [('position', 'matrixproductstates/dmrg.py'), ('_optimize_1s_local', 'matrixproductstates/dmrg.py')],
  ['dmrg.left_envs', 'dmrg.right_envs', 'energy'])

p('C30', 'Arguments declared iterable may be generators',
  'A public function whose parameter is declared as an iterable of nodes, edges or sizes consumes it at most once on every path (it is materialised first where it is needed more often) and neither indexes it nor takes its length, so that a generator gives the same result as a list.',
  ['inputs'], 'every iterable, in particular one that can be read only once',
  'tests pass lists and sets',
  ['network_operations.py', 'network_components.py', 'contractors/opt_einsum_paths/path_contractors.py', 'visualization/graphviz.py'],
  [('copy', 'network_operations.py'), ('base', 'contractors/opt_einsum_paths/path_contractors.py')],
  ['result for a generator'])

# --- stated, but not decidable by static analysis here -----------------------
p('C27', 'Keras layers use every weight and check every size',
  'Every Keras layer refuses an unknown feature size and a size it cannot factor before it creates a weight, sizes its legs by exactly the root it checked, initialises each weight with the initializer (and regularizer) given for it, uses every weight it creates when it is called, adds the bias exactly when use_bias is set, on the channel axis, and applies the activation last and exactly when there is one.',
  ['inputs', 'configurations'], 'every layer class, every combination of use_bias, activation and data format, every feature size',
  'tests use a few small sizes for which float roots happen to be exact, and the default data format',
  ['tn_keras/dense.py', 'tn_keras/condenser.py', 'tn_keras/expander.py', 'tn_keras/entangler.py', 'tn_keras/mpo.py', 'tn_keras/conv2d_mpo.py'],
  [('call', 'tn_keras/mpo.py')],
  ['layer(inputs)'])

p('C31', 'Intermediate results of ncon carry the labels of their axes',
  'In every step of an ncon contraction (partial trace, batched product, pairwise contraction, outer product) the axes that are joined carry the same labels on both operands, in the same order; a label leaves the result exactly if the step sums over it (shared by both operands and not a batch label, or repeated on a traced tensor); and the label list recorded for the result names its axes in their order, with result and labels always taken from and put back into the same places of their tables. Batch labels are exactly those that occur more than twice in the network, or twice and are open, and summed over alone exactly those that occur once and are closed.',
  ['inputs', 'programs'], 'every network, contraction order and set of batch labels',
  'tests compare a handful of networks, mostly without batch labels and with equal dimensions, where wrongly paired axes still multiply',
  ['ncon_interface.py'],
  [('_batch_cont', 'ncon_interface.py'), ('_partial_trace', 'ncon_interface.py'), ('_jittable_ncon', 'ncon_interface.py')],
  ['value and axis order of the result of ncon'])

p('C32', 'Copies carry everything their original carried',
  'A copy of a node, a copy node, a charge, an index or a symmetric tensor has the names, axis names, backend, dtype, charges, flows and leg order of its original; its values are conjugated exactly if that was asked for (the bra of a reduced density operator and of an adjoint always are). In the copy of a network every edge is mapped to an edge of the same name that joins the copies of its ends at the same axes: edges between copied nodes stay connected, self-loops stay loops, edges to nodes outside become dangling, and replicated nodes come in the order of the originals.',
  ['inputs', 'programs'], 'every node, charge, index, tensor and every subset of a network',
  'tests copy a few networks with default names and compare shapes and contraction values',
  ['network_components.py', 'network_operations.py', 'block_sparse/charge.py', 'block_sparse/index.py', 'block_sparse/blocksparsetensor.py', 'block_sparse/initialization.py', 'linalg/node_linalg.py'],
  [('copy', 'network_components.py'), ('copy', 'network_operations.py'), ('copy', 'block_sparse/index.py')],
  ['attributes of the copy', 'node and edge dictionaries'])

p('C33', 'Axes of a tensor stay with their edges',
  'When a network is rewired, tensor, edges and axis names are rearranged alike, so the network still denotes the same tensor. Reordering the axes or edges of a node permutes its tensor, its edges and its axis names by one permutation. Flattening merges the axes at both ends in one order of the edges, splitting an edge joins the i-th factor of one end with the i-th of the other, slicing cuts both ends at the axes the edge has there. A contraction joins, for every shared edge, its axis at the first node with its axis at the second, also when the operands are exchanged internally; the result lists the remaining edges of the first tensor before those of the second, as the tensor does. A node that is split in two (or three) is cut after its left edges: the first factor carries the left edges in order and then the new bond, the last one the new bond and then the right edges, with the singular values between them. An order given by the caller is followed, and a Kronecker product lists the first halves of the legs of all operands, in order, before the second halves.',
  ['inputs', 'programs'], 'every node, edge list, edge order and split, with equal and different dimensions',
  'tests mostly rewire tensors of ones or check shapes only, and two dimensions that are equal hide exchanged axes',
  ['network_components.py', 'network_operations.py', 'linalg/operations.py', 'linalg/node_linalg.py'],
  [('flatten_edges', 'network_components.py'), ('split_edge', 'network_components.py'), ('contract_between', 'network_components.py'), ('split_node', 'network_operations.py')],
  ['tensor, edges and axis names of rewired nodes'])

p('N01', 'Contracting a network gives the tensor the network denotes',
  'For every network and every contraction order the value of the result equals the sum over all contracted indices of the product of all tensors.',
  ['inputs', 'programs'], 'all networks, tensors and orders', 'tests compare a few networks with einsum',
  ['network_components.py', 'contractors/opt_einsum_paths/path_contractors.py', 'ncon_interface.py'], [('tensordot', 'backends/numpy/numpy_backend.py')], ['result.tensor'])
p('N02', 'Decompositions reconstruct their input',
  'The product of the factors of an untruncated SVD, QR or RQ equals the input up to rounding, the isometric factors are isometric, and the truncation error returned equals the norm of the difference.',
  ['inputs'], 'all tensors', 'tests sample random tensors',
  ['backends/numpy/decompositions.py'], [('svd', 'backends/numpy/decompositions.py')], ['factors'])
p('N03', 'Krylov solvers and DMRG converge to the right answer',
  'eigsh_lanczos, eigs, gmres and DMRG return eigenpairs, solutions and ground-state energies within the requested tolerance.',
  ['inputs'], 'all operators and starting vectors', 'tests sample random operators',
  ['backends/numpy/numpy_backend.py', 'matrixproductstates/dmrg.py'], [('Lanczos iteration', 'backends/numpy/numpy_backend.py')], ['eigenvalues'])
p('N04', 'Block-sparse results equal their dense counterparts',
  'Every operation on symmetric tensors, converted to dense form, equals the same operation on the dense forms of the operands.',
  ['inputs'], 'all symmetric tensors', 'tests sample random charges',
  ['block_sparse/linalg.py', 'block_sparse/blocksparsetensor.py'], [('tensordot', 'block_sparse/blocksparsetensor.py')], ['todense()'])
p('N05', 'All backends return numerically equal results',
  'The same call on the same data gives the same numbers on every backend up to the rounding of the dtype.',
  ['inputs', 'configurations'], 'all calls', 'tests compare samples',
  ['backends/abstract_backend.py'], [('backend methods', 'backends/abstract_backend.py')], ['values'])
p('N06', 'Keras layers compute the documented tensor-network map',
  'The output of each layer equals the dense layer whose weight is the contracted network, for every input shape.',
  ['inputs'], 'all inputs and shapes', 'tests sample shapes',
  ['tn_keras/dense.py', 'tn_keras/mpo.py'], [('call', 'tn_keras/dense.py')], ['outputs'])
p('N07', 'Contraction paths respect the memory limit',
  'No intermediate tensor of a path found under a memory limit exceeds that limit.',
  ['inputs'], 'all networks and limits', 'tests check option passing only',
  ['contractors/opt_einsum_paths/path_contractors.py'], [('opt_einsum path search', 'contractors/opt_einsum_paths/path_contractors.py')], ['intermediate sizes'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
  for x in P:
    assert len(x['title']) <= 80, x['title']
    f.write(json.dumps(x) + '\n')
print(len(P))
