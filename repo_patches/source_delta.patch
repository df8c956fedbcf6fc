From ba2a76ec233ff63acc4584f9926c535e70046bb4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:14 +0000
Subject: [PATCH 01/65] fix: kron compares the backends of both operands

---
 tensornetwork/linalg/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/linalg/operations.py b/tensornetwork/linalg/operations.py
index d8c484f..139323f 100644
--- a/tensornetwork/linalg/operations.py
+++ b/tensornetwork/linalg/operations.py
@@ -322,7 +322,7 @@ def kron(tensorA: Tensor, tensorB: Tensor) -> Tensor:
     ValueError: - If backends, are not matching.
                 - If ndims of the input tensors are not even.
   """
-  tensors = [tensorA, tensorA]
+  tensors = [tensorA, tensorB]
   all_backends_same, errstr = _check_backends(tensors, "kron")
   if not all_backends_same:
     raise ValueError(errstr)
-- 
2.43.0


From ee13cdf6ff464c0de50895dd43309b604f08b3bd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:14 +0000
Subject: [PATCH 02/65] fix: contract_copy_node rejects partners on another
 backend

---
 tensornetwork/network_components.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index d8125e8..80c9f70 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1897,12 +1897,19 @@ def contract_copy_node(copy_node: CopyNode,
     New node representing contracted tensor.
 
   Raises:
-    ValueError: If copy_node has dangling edge(s).
+    ValueError: If copy_node has dangling edge(s), or if it is connected to
+      a node with a different backend.
   """
+  partners = copy_node.get_partners()
+  for partner in partners:
+    if partner.backend.name != copy_node.backend.name:
+      raise ValueError("copy_node {} and node {} have different backends {} "
+                       "and {}.".format(copy_node.name, partner.name,
+                                        copy_node.backend.name,
+                                        partner.backend.name))
   new_tensor = copy_node.compute_contracted_tensor()
   new_node = Node(new_tensor, name, backend=copy_node.backend.name)
 
-  partners = copy_node.get_partners()
   new_axis = 0
   for partner in partners:
     for edge in partner.edges:
-- 
2.43.0


From 29a27939f9c3debffbfc79ead2069b8e0c12abae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:14 +0000
Subject: [PATCH 03/65] fix: contract_copy_node disables contracted edges and
 frees the partners

---
 tensornetwork/network_components.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 80c9f70..ac4c9c4 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1923,7 +1923,12 @@ def contract_copy_node(copy_node: CopyNode,
       new_node.add_edge(edge, new_axis)
       new_axis += 1
   assert len(new_tensor.shape) == new_axis
+  contracted_edges = set(copy_node.edges)
   copy_node.fresh_edges(copy_node.axis_names)
+  for partner in partners:
+    partner.fresh_edges(partner.axis_names)
+  for edge in contracted_edges:
+    edge.disable()
   return new_node
 
 
-- 
2.43.0


From c9940fc5da6a209902c10d6e6797638f5f701072 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:44 +0000
Subject: [PATCH 04/65] fix: ones_like and zeros_like resolve the default
 backend name

---
 tensornetwork/linalg/initialization.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tensornetwork/linalg/initialization.py b/tensornetwork/linalg/initialization.py
index a0e4340..2fdb8aa 100644
--- a/tensornetwork/linalg/initialization.py
+++ b/tensornetwork/linalg/initialization.py
@@ -116,8 +116,7 @@ def ones_like(tensor: Union[Any],
      backend(optional): The backend or its name."""
   if backend is None:
     backend = backend_contextmanager.get_default_backend()
-  else:
-    backend = backend_contextmanager.backend_factory.get_backend(backend)
+  backend = backend_contextmanager.backend_factory.get_backend(backend)
   if isinstance(tensor, Tensor):
     the_tensor = initialize_tensor("ones", tensor.shape,
                                    backend=tensor.backend, dtype=tensor.dtype)
@@ -128,7 +127,7 @@ def ones_like(tensor: Union[Any],
       error = "Input to zeros_like has invalid type causing " \
               "error massage: \n" + str(e)
       raise TypeError(error) from e
-    the_tensor = initialize_tensor("ones", tensor.get_shape().as_list(),
+    the_tensor = initialize_tensor("ones", tensor.shape,
                                    backend=backend, dtype=dtype)
   return the_tensor
 
@@ -144,8 +143,7 @@ def zeros_like(tensor: Union[Any],
      backend(optional): The backend or its name."""
   if backend is None:
     backend = backend_contextmanager.get_default_backend()
-  else:
-    backend = backend_contextmanager.backend_factory.get_backend(backend)
+  backend = backend_contextmanager.backend_factory.get_backend(backend)
   if isinstance(tensor, Tensor):
     the_tensor = initialize_tensor("zeros", tensor.shape,
                                    backend=tensor.backend, dtype=tensor.dtype)
-- 
2.43.0


From 706bfb39e215dc3e5be35ff08a3b15061a2eda68 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:44 +0000
Subject: [PATCH 05/65] fix: initialize_node resolves the default backend name

---
 tensornetwork/linalg/node_linalg.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/linalg/node_linalg.py b/tensornetwork/linalg/node_linalg.py
index 67e414c..3a3527a 100644
--- a/tensornetwork/linalg/node_linalg.py
+++ b/tensornetwork/linalg/node_linalg.py
@@ -55,9 +55,8 @@ def initialize_node(fname: Text,
           axis of data.
   """
   if backend is None:
-    backend_obj = backend_contextmanager.get_default_backend()
-  else:
-    backend_obj = backends.backend_factory.get_backend(backend)
+    backend = backend_contextmanager.get_default_backend()
+  backend_obj = backends.backend_factory.get_backend(backend)
   func = getattr(backend_obj, fname)
   data = func(*fargs, **fkwargs)
   node = Node(data, name=name, axis_names=axis_names, backend=backend)
-- 
2.43.0


From 38abbf3231f7b355045793b4b6aa7b7a9f94f77f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:01 +0000
Subject: [PATCH 06/65] fix: ones_like and zeros_like of a Tensor honour dtype

---
 tensornetwork/linalg/initialization.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/linalg/initialization.py b/tensornetwork/linalg/initialization.py
index 2fdb8aa..5bd0bd4 100644
--- a/tensornetwork/linalg/initialization.py
+++ b/tensornetwork/linalg/initialization.py
@@ -118,8 +118,9 @@ def ones_like(tensor: Union[Any],
     backend = backend_contextmanager.get_default_backend()
   backend = backend_contextmanager.backend_factory.get_backend(backend)
   if isinstance(tensor, Tensor):
+    dtype = tensor.dtype if dtype is None else dtype
     the_tensor = initialize_tensor("ones", tensor.shape,
-                                   backend=tensor.backend, dtype=tensor.dtype)
+                                   backend=tensor.backend, dtype=dtype)
   else:
     try:
       tensor = backend.convert_to_tensor(tensor)
@@ -145,8 +146,9 @@ def zeros_like(tensor: Union[Any],
     backend = backend_contextmanager.get_default_backend()
   backend = backend_contextmanager.backend_factory.get_backend(backend)
   if isinstance(tensor, Tensor):
+    dtype = tensor.dtype if dtype is None else dtype
     the_tensor = initialize_tensor("zeros", tensor.shape,
-                                   backend=tensor.backend, dtype=tensor.dtype)
+                                   backend=tensor.backend, dtype=dtype)
   else:
     try:
       tensor = backend.convert_to_tensor(tensor)
-- 
2.43.0


From 16eb2eaac7bb1882bd37f30d562a31888008103c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:39 +0000
Subject: [PATCH 07/65] fix: flattening and splitting trace edges keep one axis
 name per axis

---
 tensornetwork/network_components.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index ac4c9c4..1e7cbb5 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1350,6 +1350,7 @@ def _flatten_trace_edges(edges: List[Edge],
   perm = perm_front + perm_back
   new_dim = backend.shape_prod(
       [backend.shape_tensor(node.tensor)[e.axis1] for e in edges])
+  axis_names = node.axis_names
   node.reorder_axes(perm)
   unaffected_shape = backend.shape_tensor(node.tensor)[:len(perm_front)]
   new_shape = backend.shape_concat([unaffected_shape, [new_dim, new_dim]],
@@ -1358,6 +1359,7 @@ def _flatten_trace_edges(edges: List[Edge],
   edge1 = Edge(node1=node, axis1=len(perm_front), name="TraceFront")
   edge2 = Edge(node1=node, axis1=len(perm_front) + 1, name="TraceBack")
   node.edges = node.edges[:len(perm_front)] + [edge1, edge2]
+  node.axis_names = [axis_names[n] for n in range(len(node.edges))]
   new_edge = connect(edge1, edge2, new_edge_name)
   # pylint: disable=expression-not-assigned
   [edge.disable() for edge in edges]  #disable edges!
@@ -1515,12 +1517,16 @@ def _split_trace_edge(
   perm_back += [max(edge.axis1, edge.axis2)]
   perm_front = set(range(len(node.edges))) - set(perm_back)
   perm_front = sorted(perm_front)
+  axis_names = node.axis_names
   node.reorder_axes(perm_front + perm_back)
   unaffected_shape = backend.shape_tensor(node.tensor)[:len(perm_front)]
   new_shape = backend.shape_concat([unaffected_shape, shape, shape], axis=-1)
   node.tensor = backend.reshape(node.tensor, new_shape)
   # Trim edges and add placeholder edges for new axes.
   node.edges = node.edges[:len(perm_front)] + 2 * len(shape) * [None]
+  node.axis_names = axis_names[:len(perm_front)] + [
+      str(n) for n in range(len(perm_front), len(node.edges))
+  ]
   # Create new dangling edges and connect them to each other.
   new_edges = []
   for idx in range(len(shape)):
-- 
2.43.0


From be4dcb76d4e149e896dcb03ee9300e0f5eb8ae34 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:39 +0000
Subject: [PATCH 08/65] fix: CopyNode.copy installs a trace edge at both of its
 axes

---
 tensornetwork/network_components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 1e7cbb5..7a93033 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -812,11 +812,11 @@ class CopyNode(AbstractNode):
       visited_edges.add(edge)
       if edge.node1 == edge.node2:
         new_edge = Edge(new_node,
-                        i,
+                        edge.axis1,
                         name=edge.name,
                         node2=new_node,
                         axis2=edge.axis2)
-        new_node.add_edge(new_edge, i)
+        new_node.add_edge(new_edge, edge.axis1)
         new_node.add_edge(new_edge, edge.axis2)
       else:
         new_node.add_edge(Edge(new_node, i, name=edge.name), i)
-- 
2.43.0


From 8987c319ade8310872f6c4dfe6fd1d117feb7405 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 09/65] fix: contract passes axis_names on for trace edges

---
 tensornetwork/network_components.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 7a93033..9624afd 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1805,7 +1805,9 @@ def _remove_edges(edges: Set[Edge], node1: AbstractNode, node2: AbstractNode,
   [edge.disable() for edge in edges]  #disabled edges!
 
 
-def _contract_trace(edge: Edge, name: Optional[Text] = None) -> AbstractNode:
+def _contract_trace(edge: Edge,
+                    name: Optional[Text] = None,
+                    axis_names: Optional[List[Text]] = None) -> AbstractNode:
   """Contract a trace edge.
   `edge` is disabled before returning.
   Args:
@@ -1832,7 +1834,10 @@ def _contract_trace(edge: Edge, name: Optional[Text] = None) -> AbstractNode:
   new_tensor = backend.trace(
       backend.transpose(edge.node1.tensor, perm=permutation))
   name = name if name else edge.node1.name
-  new_node = Node(new_tensor, name=name, backend=backend)
+  new_node = Node(new_tensor,
+                  name=name,
+                  axis_names=axis_names,
+                  backend=backend)
   _remove_trace_edge(edge, new_node)  #disables edge
   return new_node
 
@@ -1879,7 +1884,7 @@ def contract(edge: Edge,
 
   backend = edge.node1.backend
   if edge.node1 is edge.node2:
-    return _contract_trace(edge, name)
+    return _contract_trace(edge, name, axis_names)
   new_tensor = backend.tensordot(edge.node1.tensor, edge.node2.tensor,
                                  [[edge.axis1], [edge.axis2]])
   new_node = Node(tensor=new_tensor,
-- 
2.43.0


From dc051bfc2010797f32d9a9cc968bb8bac6f2dbb3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 10/65] fix: copy maps a trace edge to the edge installed on
 the copied node

---
 tensornetwork/network_operations.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index 9817511..199a265 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -72,12 +72,15 @@ def copy(nodes: Iterable[AbstractNode],
       edge_dict[edge] = new_edge
       continue
 
+    # trace edges were already copied along with their node
+    if edge.is_trace():
+      edge_dict[edge] = node_dict[node1].edges[axis1]
+      continue
+
     # both nodes should be copied
     new_edge = Edge(node_dict[node1], axis1, edge.name, node_dict[node2], axis2)
-    if not edge.is_trace():
-      node_dict[node2].add_edge(new_edge, axis2)
-      node_dict[node1].add_edge(new_edge, axis1)
-
+    node_dict[node2].add_edge(new_edge, axis2)
+    node_dict[node1].add_edge(new_edge, axis1)
     edge_dict[edge] = new_edge
 
   return node_dict, edge_dict
-- 
2.43.0


From 3d1617f28c44d983bb6eb66285d7f58f85cf934f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 11/65] fix: nodes_from_json loads an edge whose first node was
 not serialized

---
 tensornetwork/network_operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index 199a265..def36c3 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -970,6 +970,9 @@ def nodes_from_json(json_str: str) -> Tuple[List[AbstractNode],
   for e in network_dict['edges']:
     e_nodes = [node_ids.get(n_id) for n_id in e['node_ids']]
     axes = e['attributes']['axes']
+    if e_nodes[0] is None:
+      # The first end of the edge was not serialized.
+      e_nodes, axes = e_nodes[::-1], axes[::-1]
     edge = Edge(node1=e_nodes[0],
                 axis1=axes[0],
                 node2=e_nodes[1],
-- 
2.43.0


From 64ccd6c1628b421e0ad310ff73eef8d2dec43d67 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 12/65] fix: transpose gives the new node the requested axis
 names

---
 tensornetwork/linalg/node_linalg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/linalg/node_linalg.py b/tensornetwork/linalg/node_linalg.py
index 3a3527a..a662f95 100644
--- a/tensornetwork/linalg/node_linalg.py
+++ b/tensornetwork/linalg/node_linalg.py
@@ -285,12 +285,12 @@ def transpose(node: AbstractNode,
         node, type(node)))
 
   perm = [node.get_axis_number(p) for p in permutation]
-  if not axis_names:
-    axis_names = node.axis_names
-
   new_node = Node(
       node.tensor, name=name, axis_names=node.axis_names, backend=node.backend)
-  return new_node.reorder_axes(perm)
+  new_node.reorder_axes(perm)
+  if axis_names:
+    new_node.add_axis_names(axis_names)
+  return new_node
 
 
 def kron(nodes: Sequence[AbstractNode]) -> AbstractNode:
-- 
2.43.0


From 599d47d291dee43d90e1235c6bef1b8715ee9066 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:19 +0000
Subject: [PATCH 13/65] fix: save_nodes restores all node and edge names, also
 on failure

---
 tensornetwork/utils.py | 73 ++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 35 deletions(-)

diff --git a/tensornetwork/utils.py b/tensornetwork/utils.py
index b91dd8c..5267821 100644
--- a/tensornetwork/utils.py
+++ b/tensornetwork/utils.py
@@ -49,42 +49,45 @@ def save_nodes(nodes: List[AbstractNode], path: Union[str, BinaryIO]) -> None:
 
   #generate unique names for nodes and edges
   #for saving them
-  for n, node in enumerate(nodes):
-    node.set_name('node{}'.format(n))
-
-  for e, edge in enumerate(edges):
-    edge.set_name('edge{}'.format(e))
-
-  with h5py.File(path, 'w') as net_file:
-    nodes_group = net_file.create_group('nodes')
-    node_names_group = net_file.create_group('node_names')
-    node_names_group.create_dataset(
-        'names',
-        dtype=string_type,
-        data=np.array(list(old_node_names.values()), dtype=object))
-
-    edges_group = net_file.create_group('edges')
-    edge_names_group = net_file.create_group('edge_names')
-    edge_names_group.create_dataset(
-        'names',
-        dtype=string_type,
-        data=np.array(list(old_edge_names.values()), dtype=object))
-
+  unsaved_edges = set(edges)
+  try:
+    for n, node in enumerate(nodes):
+      node.set_name('node{}'.format(n))
+
+    for e, edge in enumerate(edges):
+      edge.set_name('edge{}'.format(e))
+
+    with h5py.File(path, 'w') as net_file:
+      nodes_group = net_file.create_group('nodes')
+      node_names_group = net_file.create_group('node_names')
+      node_names_group.create_dataset(
+          'names',
+          dtype=string_type,
+          data=np.array(list(old_node_names.values()), dtype=object))
+
+      edges_group = net_file.create_group('edges')
+      edge_names_group = net_file.create_group('edge_names')
+      edge_names_group.create_dataset(
+          'names',
+          dtype=string_type,
+          data=np.array(list(old_edge_names.values()), dtype=object))
+
+      for n, node in enumerate(nodes):
+        node_group = nodes_group.create_group(node.name)
+        node._save_node(node_group)
+        for edge in node.edges:
+          if edge.node1 == node and edge in unsaved_edges:
+            edge_group = edges_group.create_group(edge.name)
+            edge._save_edge(edge_group)
+            unsaved_edges.remove(edge)
+
+  finally:
+    #name edges and nodes back  to their original names
     for n, node in enumerate(nodes):
-      node_group = nodes_group.create_group(node.name)
-      node._save_node(node_group)
-      for edge in node.edges:
-        if edge.node1 == node and edge in edges:
-          edge_group = edges_group.create_group(edge.name)
-          edge._save_edge(edge_group)
-          edges.remove(edge)
-
-  #name edges and nodes back  to their original names
-  for n, node in enumerate(nodes):
-    nodes[n].set_name(old_node_names[n])
-
-  for n, edge in enumerate(edges):
-    edges[n].set_name(old_edge_names[n])
+      nodes[n].set_name(old_node_names[n])
+
+    for n, edge in enumerate(edges):
+      edges[n].set_name(old_edge_names[n])
 
 
 def load_nodes(path: str) -> List[AbstractNode]:
-- 
2.43.0


From feaecd6c624a74722c6b0d831b1016b4a7844712 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:24 +0000
Subject: [PATCH 14/65] fix: switch_backend checks every node before converting
 any

---
 tensornetwork/network_operations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index def36c3..00f9f97 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -808,6 +808,7 @@ def switch_backend(nodes: Iterable[AbstractNode], new_backend: Text) -> None:
   Returns:
     None
   """
+  nodes = list(nodes)
   if new_backend == 'symmetric':
     if np.all([n.backend.name == 'symmetric' for n in nodes]):
       return
@@ -819,6 +820,7 @@ def switch_backend(nodes: Iterable[AbstractNode], new_backend: Text) -> None:
       raise NotImplementedError("Can only switch backends when the current "
                                 "backend is 'numpy'. Current backend "
                                 "is '{}'".format(node.backend))
+  for node in nodes:
     node.tensor = backend.convert_to_tensor(node.tensor)
     node.backend = backend
 
-- 
2.43.0


From cb0cd4a6342ea5668276d1ae295acd36f1c44e1c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:42 +0000
Subject: [PATCH 15/65] fix: eigsh_lanczos leaves the initial state and
 operator results untouched

---
 tensornetwork/backends/numpy/numpy_backend.py     | 8 ++++----
 tensornetwork/backends/pytorch/pytorch_backend.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 2d37539..657fb3f 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -481,7 +481,7 @@ class NumPyBackend(abstract_backend.AbstractBackend):
 
     vector_n = initial_state
     Z = self.norm(vector_n)
-    vector_n /= Z
+    vector_n = vector_n / Z
     norms_vector_n = []
     diag_elements = []
     krylov_vecs = []
@@ -514,10 +514,10 @@ class NumPyBackend(abstract_backend.AbstractBackend):
         first = False
         eigvalsold = eigvals[0:numeig]
       if it > 0:
-        A_vector_n -= (krylov_vecs[-1] * diag_elements[-1])
-        A_vector_n -= (krylov_vecs[-2] * norms_vector_n[-1])
+        A_vector_n = A_vector_n - (krylov_vecs[-1] * diag_elements[-1])
+        A_vector_n = A_vector_n - (krylov_vecs[-2] * norms_vector_n[-1])
       else:
-        A_vector_n -= (krylov_vecs[-1] * diag_elements[-1])
+        A_vector_n = A_vector_n - (krylov_vecs[-1] * diag_elements[-1])
       vector_n = A_vector_n
 
     A_tridiag = np.diag(diag_elements) + np.diag(
diff --git a/tensornetwork/backends/pytorch/pytorch_backend.py b/tensornetwork/backends/pytorch/pytorch_backend.py
index e0b1dc7..afd5ba5 100644
--- a/tensornetwork/backends/pytorch/pytorch_backend.py
+++ b/tensornetwork/backends/pytorch/pytorch_backend.py
@@ -243,7 +243,7 @@ class PyTorchBackend(abstract_backend.AbstractBackend):
     initial_state = self.convert_to_tensor(initial_state)
     vector_n = initial_state
     Z = self.norm(vector_n)
-    vector_n /= Z
+    vector_n = vector_n / Z
     norms_vector_n = []
     diag_elements = []
     krylov_vecs = []
@@ -280,10 +280,10 @@ class PyTorchBackend(abstract_backend.AbstractBackend):
         first = False
         eigvalsold = eigvals[0:numeig]
       if it > 0:
-        A_vector_n -= (krylov_vecs[-1] * diag_elements[-1])
-        A_vector_n -= (krylov_vecs[-2] * norms_vector_n[-1])
+        A_vector_n = A_vector_n - (krylov_vecs[-1] * diag_elements[-1])
+        A_vector_n = A_vector_n - (krylov_vecs[-2] * norms_vector_n[-1])
       else:
-        A_vector_n -= (krylov_vecs[-1] * diag_elements[-1])
+        A_vector_n = A_vector_n - (krylov_vecs[-1] * diag_elements[-1])
       vector_n = A_vector_n
 
     A_tridiag = torchlib.diag(torchlib.tensor(diag_elements)) + torchlib.diag(
-- 
2.43.0


From 10c6279287f20b42cf6818b4345fa74909270e1e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:42 +0000
Subject: [PATCH 16/65] fix: normalizing an MPS leaves the arrays it was built
 from untouched

---
 tensornetwork/matrixproductstates/base_mps.py     | 3 ++-
 tensornetwork/matrixproductstates/infinite_mps.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index c8500cb..07e3849 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -169,7 +169,8 @@ class BaseMPS:
     if site == self.center_position:
       Z = self.norm(self.tensors[self.center_position])
       if normalize:
-        self.tensors[self.center_position] /= Z
+        self.tensors[self.center_position] = self.tensors[
+            self.center_position] / Z
       return Z
 
     #shift center_position to the right using QR or SV decomposition
diff --git a/tensornetwork/matrixproductstates/infinite_mps.py b/tensornetwork/matrixproductstates/infinite_mps.py
index ff7d4ed..a539069 100644
--- a/tensornetwork/matrixproductstates/infinite_mps.py
+++ b/tensornetwork/matrixproductstates/infinite_mps.py
@@ -225,7 +225,7 @@ class InfiniteMPS(BaseMPS):
         num_krylov_vecs=num_krylov_vecs,
         maxiter=maxiter)
     sqrteta = self.backend.sqrt(self.backend.abs(eta))
-    self.tensors[0] /= sqrteta
+    self.tensors[0] = self.tensors[0] / sqrteta
 
     # TODO: would be nice to do the algebra directly on the nodes here
     l /= self.backend.trace(l)
-- 
2.43.0


From c429bee65839de5e9487f6075797a8aa523d2676 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:42 +0000
Subject: [PATCH 17/65] fix: contract_path leaves the list of nodes it is given
 untouched

---
 tensornetwork/contractors/opt_einsum_paths/path_contractors.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index 764f2e8..3a31109 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -365,6 +365,7 @@ def contract_path(path: Tuple[List[Tuple[int,
   Returns:
     Final node after full contraction.
   """
+  nodes = list(nodes)
   edges = get_all_edges(nodes)
   for edge in edges:
     if not edge.is_disabled:  #if its disabled we already contracted it
-- 
2.43.0


From b5766aaad9fb54e749d2e78883c76a651c72810e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:11 +0000
Subject: [PATCH 18/65] fix: Node.from_serial_dict leaves the given dict
 untouched

---
 tensornetwork/network_components.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 9624afd..3e69c6d 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -679,6 +679,7 @@ class Node(AbstractNode):
     Returns:
       A node.
     """
+    serial_dict = dict(serial_dict)
     serial_dict['tensor'] = backend_factory.get_backend(
         serial_dict['backend']).deserialize_tensor(serial_dict['tensor'])
     return cls(**serial_dict)
-- 
2.43.0


From eb6352cd79383b0afa18cf5e911914fd56a72aeb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:53 +0000
Subject: [PATCH 19/65] fix: auto passes memory_limit to branch for 9 to 14
 nodes

---
 tensornetwork/contractors/opt_einsum_paths/path_contractors.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index 3a31109..e62a985 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -260,6 +260,7 @@ def auto(nodes: Iterable[AbstractNode],
     return branch(
         nodes,
         output_edge_order=output_edge_order,
+        memory_limit=memory_limit,
         nbranch=1,
         ignore_edge_order=ignore_edge_order)
   return greedy(nodes, output_edge_order, memory_limit, ignore_edge_order)
-- 
2.43.0


From 939808054a60d7184064ae474f4c2b542df9d996 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:53 +0000
Subject: [PATCH 20/65] fix: auto on a single node respects ignore_edge_order

---
 tensornetwork/contractors/opt_einsum_paths/path_contractors.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index e62a985..0fe21dd 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -236,7 +236,6 @@ def auto(nodes: Iterable[AbstractNode],
       final_node = contract_parallel(edges.pop())
     else:
       final_node = list(_nodes)[0]
-    final_node.reorder_edges(output_edge_order)
     if not ignore_edge_order:
       final_node.reorder_edges(output_edge_order)
     return final_node
-- 
2.43.0


From 9f43d56ff6ecfc7c5bb9fc6f91b8f5b1580aa2ba Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:53 +0000
Subject: [PATCH 21/65] fix: path_solver auto keeps the algorithm chosen for
 the network size

---
 .../contractors/opt_einsum_paths/path_contractors.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index 0fe21dd..4f2c452 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -332,13 +332,13 @@ def path_solver(
     if n < 5:
       alg = functools.partial(
           opt_einsum.paths.dynamic_programming, memory_limit=memory_limit)
-    if n < 7:
+    elif n < 7:
       alg = functools.partial(
           opt_einsum.paths.branch, memory_limit=memory_limit, nbranch=None)
-    if n < 9:
+    elif n < 9:
       alg = functools.partial(
           opt_einsum.paths.branch, memory_limit=memory_limit, nbranch=2)
-    if n < 15:
+    elif n < 15:
       alg = functools.partial(
           opt_einsum.paths.branch, memory_limit=memory_limit, nbranch=1)
     else:
-- 
2.43.0


From 3cbad940575abe9f3c4b7560912ac6823c7afa89 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:53 +0000
Subject: [PATCH 22/65] fix: path_solver names the unknown algorithm in its
 error

---
 tensornetwork/contractors/opt_einsum_paths/path_contractors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index 4f2c452..095ba7a 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -345,7 +345,7 @@ def path_solver(
       alg = functools.partial(
           opt_einsum.paths.greedy, memory_limit=memory_limit)
   else:
-    raise ValueError("algorithm {algorithm} not implemented")
+    raise ValueError(f"algorithm {algorithm} not implemented")
 
   path, _ = utils.get_path(nodes, alg)
   return path
-- 
2.43.0


From 213ed173b8f1259f21347a35f21d398da479d06e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:53 +0000
Subject: [PATCH 23/65] fix: full_solve_complete respects the given cost_bound

---
 tensornetwork/contractors/custom_path_solvers/pathsolvers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
index 9a96bdc..c70ba15 100644
--- a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
+++ b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
@@ -181,7 +181,10 @@ def full_solve_complete(log_adj: np.ndarray,
     orders = np.zeros([2, 0, 1], dtype=int)
 
     # try full algorithm (using cost_bound from greedy)
-    cost_bound = cost_greedy + tol
+    if cost_bound is None:
+      cost_bound = cost_greedy + tol
+    else:
+      cost_bound = min(cost_bound, cost_greedy + tol)
     total_truncated = 0
     order_was_found = True
     for _ in range(N - 1):
-- 
2.43.0


From d39ea5c46996af1fc60b9e2bb7da7ac8e581e534 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:53 +0000
Subject: [PATCH 24/65] fix: ChargeArray.random passes on boundaries

---
 tensornetwork/block_sparse/blocksparsetensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 771aa1b..9ac3752 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -104,7 +104,7 @@ class ChargeArray:
 
     data, charges, flows, order = _data_initializer(
         _random, lambda charges, flows: np.prod([c.dim for c in charges]),
-        indices, dtype=dtype)
+        indices, dtype=dtype, boundaries=boundaries)
     return cls(data=data, charges=charges, flows=flows, order=order)
 
   @property
-- 
2.43.0


From 31e5f047eaa303ceccd9ab0ff5e4d26769c1f3c4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:53 +0000
Subject: [PATCH 25/65] fix: linalg.krylov.gmres works with its default
 num_krylov_vectors

---
 tensornetwork/linalg/krylov.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/linalg/krylov.py b/tensornetwork/linalg/krylov.py
index 0f543f0..28951ad 100644
--- a/tensornetwork/linalg/krylov.py
+++ b/tensornetwork/linalg/krylov.py
@@ -351,6 +351,9 @@ def gmres(A_mv: Callable,
     raise TypeError("b must be a tn.Tensor") from err
   backend, x0_array, args_array = krylov_error_checks(b.backend, x0, A_args)
 
+  if num_krylov_vectors is None:
+    num_krylov_vectors = b.size
+
   mv = KRYLOV_MATVEC_CACHE.retrieve(backend.name, A_mv)
   out = backend.gmres(mv, b_array, A_args=args_array,
                       x0=x0_array, tol=tol, atol=atol,
-- 
2.43.0


From 85de7b78ac4bfaf71a8fb4166ccfb89a186d35c3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:07 +0000
Subject: [PATCH 26/65] fix: hermitian conjugate of a symmetric matrix inverts
 its flows

---
 tensornetwork/block_sparse/blocksparsetensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 9ac3752..a939a7a 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -388,7 +388,7 @@ class ChargeArray:
     tensor.__init__(
         data=np.conj(self.data),
         charges=self._charges,
-        flows=self._flows,
+        flows=np.logical_not(self._flows),
         order=order,
         check_consistency=False)
 
-- 
2.43.0


From 474fb8b5f20c82b852bd6fce3054a2db3ff7b68c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:26 +0000
Subject: [PATCH 27/65] fix: tensorflow random_uniform honours the given seed

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index d0d2463..be4f9b9 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -174,7 +174,6 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
               minval=boundaries[0],
               maxval=boundaries[1],
               dtype=dtype.real_dtype))
-    tf.random.set_seed(10)
     #pylint: disable=unexpected-keyword-arg
     a = tf.random.uniform(
         shape=shape, minval=boundaries[0], maxval=boundaries[1], dtype=dtype)
-- 
2.43.0


From 8be4c23863f72414baf4f7a189b61fe3eba783ec Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:26 +0000
Subject: [PATCH 28/65] fix: a seed of 0 seeds the random generators

---
 tensornetwork/backends/jax/jax_backend.py               | 4 ++--
 tensornetwork/backends/numpy/numpy_backend.py           | 4 ++--
 tensornetwork/backends/pytorch/pytorch_backend.py       | 4 ++--
 tensornetwork/backends/symmetric/symmetric_backend.py   | 4 ++--
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 4 ++--
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/tensornetwork/backends/jax/jax_backend.py b/tensornetwork/backends/jax/jax_backend.py
index 447cb56..78a14dc 100644
--- a/tensornetwork/backends/jax/jax_backend.py
+++ b/tensornetwork/backends/jax/jax_backend.py
@@ -163,7 +163,7 @@ class JaxBackend(abstract_backend.AbstractBackend):
             shape: Tuple[int, ...],
             dtype: Optional[np.dtype] = None,
             seed: Optional[int] = None) -> Tensor:
-    if not seed:
+    if seed is None:
       seed = np.random.randint(0, 2**63)
     key = libjax.random.PRNGKey(seed)
 
@@ -194,7 +194,7 @@ class JaxBackend(abstract_backend.AbstractBackend):
                      boundaries: Optional[Tuple[float, float]] = (0.0, 1.0),
                      dtype: Optional[np.dtype] = None,
                      seed: Optional[int] = None) -> Tensor:
-    if not seed:
+    if seed is None:
       seed = np.random.randint(0, 2**63)
     key = libjax.random.PRNGKey(seed)
 
diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 657fb3f..9e2462c 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -133,7 +133,7 @@ class NumPyBackend(abstract_backend.AbstractBackend):
             dtype: Optional[np.dtype] = None,
             seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       np.random.seed(seed)
     dtype = dtype if dtype is not None else np.float64
     if ((np.dtype(dtype) is np.dtype(np.complex128)) or
@@ -148,7 +148,7 @@ class NumPyBackend(abstract_backend.AbstractBackend):
                      dtype: Optional[np.dtype] = None,
                      seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       np.random.seed(seed)
     dtype = dtype if dtype is not None else np.float64
     if ((np.dtype(dtype) is np.dtype(np.complex128)) or
diff --git a/tensornetwork/backends/pytorch/pytorch_backend.py b/tensornetwork/backends/pytorch/pytorch_backend.py
index afd5ba5..4ae6f48 100644
--- a/tensornetwork/backends/pytorch/pytorch_backend.py
+++ b/tensornetwork/backends/pytorch/pytorch_backend.py
@@ -152,7 +152,7 @@ class PyTorchBackend(abstract_backend.AbstractBackend):
             shape: Tuple[int, ...],
             dtype: Optional[Any] = None,
             seed: Optional[int] = None) -> Tensor:
-    if seed:
+    if seed is not None:
       torchlib.manual_seed(seed)
     dtype = dtype if dtype is not None else torchlib.float64
     return torchlib.randn(shape, dtype=dtype)
@@ -162,7 +162,7 @@ class PyTorchBackend(abstract_backend.AbstractBackend):
                      boundaries: Optional[Tuple[float, float]] = (0.0, 1.0),
                      dtype: Optional[Any] = None,
                      seed: Optional[int] = None) -> Tensor:
-    if seed:
+    if seed is not None:
       torchlib.manual_seed(seed)
     dtype = dtype if dtype is not None else torchlib.float64
     return torchlib.empty(shape, dtype=dtype).uniform_(*boundaries)
diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index 8cedc6d..ce0478e 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -146,7 +146,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
             dtype: Optional[numpy.dtype] = None,
             seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       numpy.random.seed(seed)
     return self.bs.randn(shape, dtype)
 
@@ -156,7 +156,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
                      dtype: Optional[numpy.dtype] = None,
                      seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       numpy.random.seed(seed)
     dtype = dtype if dtype is not None else numpy.float64
     return self.bs.random(shape, boundaries, dtype)
diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index be4f9b9..af81fe2 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -142,7 +142,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
             shape: Tuple[int, ...],
             dtype: Optional[Type[np.number]] = None,
             seed: Optional[int] = None) -> Tensor:
-    if seed:
+    if seed is not None:
       tf.random.set_seed(seed)
 
     dtype = dtype if dtype is not None else tf.float64
@@ -157,7 +157,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
                      boundaries: Optional[Tuple[float, float]] = (0.0, 1.0),
                      dtype: Optional[Type[np.number]] = None,
                      seed: Optional[int] = None) -> Tensor:
-    if seed:
+    if seed is not None:
       tf.random.set_seed(seed)
 
     dtype = dtype if dtype is not None else tf.float64
-- 
2.43.0


From 678e414bfa64f278f0902b7e6873667e0dd71a44 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:23 +0000
Subject: [PATCH 29/65] fix: load_nodes returns the nodes in the order they
 were saved

---
 tensornetwork/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensornetwork/utils.py b/tensornetwork/utils.py
index 5267821..0cffcd0 100644
--- a/tensornetwork/utils.py
+++ b/tensornetwork/utils.py
@@ -101,7 +101,6 @@ def load_nodes(path: str) -> List[AbstractNode]:
   nodes_list = []
   edges_list = []
   with h5py.File(path, 'r') as net_file:
-    nodes = list(net_file["nodes"].keys())
     node_names = {
         'node{}'.format(n): v for n, v in enumerate(
             net_file["node_names"]['names'].asstr(STRING_ENCODING)[()])#pylint: disable=no-member
@@ -111,7 +110,7 @@ def load_nodes(path: str) -> List[AbstractNode]:
             net_file["edge_names"]['names'].asstr(STRING_ENCODING)[()])#pylint: disable=no-member
     }
     edges = list(net_file["edges"].keys())
-    for node_name in nodes:
+    for node_name in node_names:
       node_data = net_file["nodes/" + node_name]
       node_type = get_component(node_data['type'].asstr()[()])
       nodes_list.append(node_type._load_node(node_data=node_data))
-- 
2.43.0


From c8003ad97af4577bcdf1ea8d1c4b067f27014d40 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:36 +0000
Subject: [PATCH 30/65] fix: saved nodes without axes can be loaded

---
 tensornetwork/network_components.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 3e69c6d..d7804ea 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -462,7 +462,10 @@ class AbstractNode(ABC):
     name = node_data['name'].asstr(STRING_ENCODING)[()]
     backend = node_data['backend'].asstr(STRING_ENCODING)[()]
     shape = node_data['shape'][()]
-    axis_names = node_data['axis_names'].asstr(STRING_ENCODING)[()]
+    if h5py.check_string_dtype(node_data['axis_names'].dtype) is None:
+      axis_names = []  # a node without axes was saved
+    else:
+      axis_names = node_data['axis_names'].asstr(STRING_ENCODING)[()]
     return name, shape, axis_names, backend
 
   @abstractmethod
-- 
2.43.0


From 4686891bf5697c403c22bec9fc81a4a831274e0e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:29 +0000
Subject: [PATCH 31/65] fix: Conv2DMPO.build must not overwrite the use_bias
 argument

After building a layer with use_bias=False its config held None instead.
---
 tensornetwork/tn_keras/conv2d_mpo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/tn_keras/conv2d_mpo.py b/tensornetwork/tn_keras/conv2d_mpo.py
index 2382833..8a23fd4 100644
--- a/tensornetwork/tn_keras/conv2d_mpo.py
+++ b/tensornetwork/tn_keras/conv2d_mpo.py
@@ -195,7 +195,7 @@ class Conv2DMPO(Layer):
           initializer=self.bias_initializer,
           regularizer=self.bias_regularizer)
     else:
-      self.use_bias = None
+      self.bias_var = None
 
   def call(self, inputs: tf.Tensor) -> tf.Tensor: #pylint: disable=arguments-differ
 
-- 
2.43.0


From ce7d8360209d0de528611d355f0fc5d4270eb2ee Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 32/65] fix: size the legs of MPO layers by the exact root

3125**(1/5) is 5.000000000000001, which ceil turned into 6, so a feature size
that passed the perfect-root check was rejected by the reshape in call.
---
 tensornetwork/tn_keras/conv2d_mpo.py | 5 ++---
 tensornetwork/tn_keras/mpo.py        | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/tn_keras/conv2d_mpo.py b/tensornetwork/tn_keras/conv2d_mpo.py
index 8a23fd4..b1260e4 100644
--- a/tensornetwork/tn_keras/conv2d_mpo.py
+++ b/tensornetwork/tn_keras/conv2d_mpo.py
@@ -7,7 +7,6 @@ from tensorflow.python.keras.utils import conv_utils #pylint: disable=no-name-in
 from typing import List, Tuple, Text, Optional, Union
 import numpy as np
 import tensornetwork as tn
-import math
 
 # pytype: disable=module-attr
 @tf.keras.utils.register_keras_serializable(package='tensornetwork')# pylint: disable=no-member
@@ -161,8 +160,8 @@ class Conv2DMPO(Layer):
 
     super().build(input_shape)
 
-    in_leg_dim = math.ceil(channels**(1. / self.num_nodes))
-    out_leg_dim = math.ceil(self.filters**(1. / self.num_nodes))
+    in_leg_dim = round(channels**(1. / self.num_nodes))
+    out_leg_dim = round(self.filters**(1. / self.num_nodes))
 
     self.nodes.append(
         self.add_weight(name='end_node_first',
diff --git a/tensornetwork/tn_keras/mpo.py b/tensornetwork/tn_keras/mpo.py
index a7247bb..cbf579b 100644
--- a/tensornetwork/tn_keras/mpo.py
+++ b/tensornetwork/tn_keras/mpo.py
@@ -7,7 +7,6 @@ from typing import List, Optional, Text, Tuple
 import tensornetwork as tn
 from tensornetwork.network_components import Node
 import numpy as np
-import math
 
 
 # pytype: disable=module-attr
@@ -108,8 +107,8 @@ class DenseMPO(Layer):
 
     super().build(input_shape)
 
-    self.in_leg_dim = math.ceil(input_dim**(1. / self.num_nodes))
-    self.out_leg_dim = math.ceil(self.output_dim**(1. / self.num_nodes))
+    self.in_leg_dim = round(input_dim**(1. / self.num_nodes))
+    self.out_leg_dim = round(self.output_dim**(1. / self.num_nodes))
 
     self.nodes.append(
         self.add_weight(name='end_node_first',
-- 
2.43.0


From b439475ac4490811c9febb9fc2f0ffaf7441e272 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:31 +0000
Subject: [PATCH 33/65] fix: add the Conv2DMPO bias on the channel axis

With data_format='channels_first' the bias was added along the last spatial
axis, which fails unless the sizes happen to agree.
---
 tensornetwork/tn_keras/conv2d_mpo.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensornetwork/tn_keras/conv2d_mpo.py b/tensornetwork/tn_keras/conv2d_mpo.py
index b1260e4..77abba4 100644
--- a/tensornetwork/tn_keras/conv2d_mpo.py
+++ b/tensornetwork/tn_keras/conv2d_mpo.py
@@ -218,8 +218,7 @@ class Conv2DMPO(Layer):
                           dilations=self.dilation_rate)
 
     if self.use_bias:
-      bias = tf.reshape(self.bias_var, (1, self.filters,))
-      result += bias
+      result = tf.nn.bias_add(result, self.bias_var, data_format=tf_df)
 
     if self.activation is not None:
       result = self.activation(result)
-- 
2.43.0


From 0dd78493aa51dcc1ff8ee0a9caa7fcb2a4715754 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:08 +0000
Subject: [PATCH 34/65] fix: block-structure cache must tell charges of
 different types apart

The key held only the charge values, so with caching enabled a Z2 tensor was
given the blocks of a U1 tensor with the same charges (and vice versa).
---
 .../block_sparse/blocksparse_utils.py          | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparse_utils.py b/tensornetwork/block_sparse/blocksparse_utils.py
index 9285632..496f2fe 100644
--- a/tensornetwork/block_sparse/blocksparse_utils.py
+++ b/tensornetwork/block_sparse/blocksparse_utils.py
@@ -352,8 +352,10 @@ def _find_diagonal_sparse_blocks(
   cacher = get_cacher()
   if cacher.do_caching:
     hash_val = _to_string(charges, flows, partition, list(range(len(charges))))
-    if hash_val in cacher.cache:
-      return cacher.cache[hash_val]
+    # the string does not tell charges of different types apart
+    charge_data = [(c.charge_types, c.dtype, c.dim) for c in charges]
+    if hash_val in cacher.cache and cacher.cache[hash_val][3] == charge_data:
+      return cacher.cache[hash_val][:3]
 
   num_inds = len(charges)
   if partition in (0, num_inds):
@@ -422,8 +424,7 @@ def _find_diagonal_sparse_blocks(
                np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
                charges[0].charge_types)
   if cacher.do_caching:
-    cacher.cache[hash_val] = (block_maps, obj, block_dims)
-    return cacher.cache[hash_val]
+    cacher.cache[hash_val] = (block_maps, obj, block_dims, charge_data)
   return block_maps, obj, block_dims
 
 
@@ -459,8 +460,10 @@ def _find_transposed_diagonal_sparse_blocks(
   cacher = get_cacher()
   if cacher.do_caching:
     hash_val = _to_string(charges, flows, tr_partition, order)
-    if hash_val in cacher.cache:
-      return cacher.cache[hash_val]
+    # the string does not tell charges of different types apart
+    charge_data = [(c.charge_types, c.dtype, c.dim) for c in charges]
+    if hash_val in cacher.cache and cacher.cache[hash_val][3] == charge_data:
+      return cacher.cache[hash_val][:3]
 
   if np.array_equal(order, None) or (np.array_equal(
       np.array(order), np.arange(len(charges)))):
@@ -629,8 +632,7 @@ def _find_transposed_diagonal_sparse_blocks(
                  charges[0].charge_types)
 
   if cacher.do_caching:
-    cacher.cache[hash_val] = (block_maps, obj, block_dims)
-    return cacher.cache[hash_val]
+    cacher.cache[hash_val] = (block_maps, obj, block_dims, charge_data)
   return block_maps, obj, block_dims
 
 def _to_string(charges: List[BaseCharge], flows: Union[np.ndarray, List],
-- 
2.43.0


From 85a689e8e26783d4da27684f124af7ef92a09ab2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:04 +0000
Subject: [PATCH 35/65] fix: jax gmres must not reuse a matvec wrapped for
 another shape

The wrapper closes over the shape of the first right-hand side but was cached
under the operator alone, in the same table in which eigs and eigsh_lanczos
keep their own, unreshaped wrapper.
---
 tensornetwork/backends/jax/jax_backend.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/backends/jax/jax_backend.py b/tensornetwork/backends/jax/jax_backend.py
index 78a14dc..d32a6bf 100644
--- a/tensornetwork/backends/jax/jax_backend.py
+++ b/tensornetwork/backends/jax/jax_backend.py
@@ -684,20 +684,26 @@ class JaxBackend(abstract_backend.AbstractBackend):
       raise NotImplementedError("A_kwargs is not supported by the Jax backend.")
 
 
-    if A_mv not in _CACHED_MATVECS:
+    # the wrapped function depends on the shape of `b`, and is not the one
+    # the other solvers cache for `A_mv`
+    matvec_key = (A_mv, tuple(b.shape))
+    if matvec_key not in _CACHED_MATVECS:
+      shape = b.shape
+
       @libjax.tree_util.Partial
       def matrix_matvec(x, *args):
-        x = x.reshape(b.shape)
+        x = x.reshape(shape)
         result = A_mv(x, *args)
         return result.ravel()
-      _CACHED_MATVECS[A_mv] = matrix_matvec
+      _CACHED_MATVECS[matvec_key] = matrix_matvec
 
     if "gmres" not in _CACHED_FUNCTIONS:
       _CACHED_FUNCTIONS["gmres"] = jitted_functions.gmres_wrapper(libjax)
     gmres_m = _CACHED_FUNCTIONS["gmres"].gmres_m
-    x, _, n_iter, converged = gmres_m(_CACHED_MATVECS[A_mv], A_args, b.ravel(),
-                                      x0, tol, atol, num_krylov_vectors,
-                                      maxiter, self.jax_precision)
+    x, _, n_iter, converged = gmres_m(_CACHED_MATVECS[matvec_key], A_args,
+                                      b.ravel(), x0, tol, atol,
+                                      num_krylov_vectors, maxiter,
+                                      self.jax_precision)
     if converged:
       info = 0
     else:
-- 
2.43.0


From b3ed5fe766cd3eff7ddf0532552dea4ee51d954c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:15 +0000
Subject: [PATCH 36/65] fix: ncon must sum single labels on the tensor that
 carries them

---
 tensornetwork/ncon_interface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index ab70948..ccbf8f5 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -414,7 +414,9 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
 
   for loc in locs:
     labels = network_structure[loc]
-    contractable_inds = [labels.index(l) for l in contractable_labels]
+    contractable_inds = [
+        labels.index(l) for l in contractable_labels if l in labels
+    ]
     network_structure[loc] = [l for l in labels if l not in contractable_labels]
     tensors[loc] = backend_obj.sum(tensors[loc], tuple(contractable_inds))
 
-- 
2.43.0


From 8ea8d8dbc1f708a2b03d168078b342b864d5790a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:05 +0000
Subject: [PATCH 37/65] fix: ncon must not trace over batch labels repeated on
 one tensor

---
 tensornetwork/ncon_interface.py | 34 +++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index ccbf8f5..9442189 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -361,6 +361,31 @@ def label_intersection(labels1, labels2):
   return common_labels, idx_1, idx_2
 
 
+def _collapse_batch_labels(tensor: Tensor, labels: List, batch_labels: Set,
+                           backend_obj: AbstractBackend) -> Tuple[Tensor, List]:
+  """
+  Collapse every batch label that appears more than once on `tensor` into a
+  single dimension.
+
+  Args:
+    tensor: A tensor.
+    labels: The labels of `tensor`.
+    batch_labels: The labels to collapse.
+    backend_obj: A backend object.
+
+  Returns:
+    The tensor and its labels, without repeated batch labels.
+  """
+  for label in batch_labels:
+    while labels.count(label) > 1:
+      pos = [n for n, l in enumerate(labels) if l == label][:2]
+      free = [n for n in range(len(labels)) if n not in pos]
+      tensor = backend_obj.diagonal(
+          backend_obj.transpose(tensor, tuple(free + pos)))
+      labels = [labels[n] for n in free] + [label]
+  return tensor, labels
+
+
 def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
                    sizes: Tuple[int], con_order: Tuple[int],
                    out_order: Tuple[int],
@@ -391,6 +416,15 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
   init_con_order = [c for c in con_order]
   init_network_structure = [c for c in network_structure]
 
+  # batch labels appearing more than once on the same tensor
+  repeated_labels = {
+      l for l in flat_labels
+      if flat_labels.count(l) > 2 or (flat_labels.count(l) == 2 and l < 0)
+  }
+  for n, tensor in enumerate(tensors):
+    tensors[n], network_structure[n] = _collapse_batch_labels(
+        tensor, network_structure[n], repeated_labels, backend_obj)
+
   # partial trace
   for n, tensor in enumerate(tensors):
     tensors[n], network_structure[n], contracted_labels = _partial_trace(
-- 
2.43.0


From 8cb47e4133282083aeca19e9c6c5d1b3249d9537 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:41 +0000
Subject: [PATCH 38/65] fix: ncon must contract closed batch labels that no
 other label connects

---
 tensornetwork/ncon_interface.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index 9442189..ea138dd 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -412,10 +412,6 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
   ]
   out_order = list(out_order)
   con_order = list(con_order)
-  # pylint: disable=unnecessary-comprehension
-  init_con_order = [c for c in con_order]
-  init_network_structure = [c for c in network_structure]
-
   # batch labels appearing more than once on the same tensor
   repeated_labels = {
       l for l in flat_labels
@@ -455,7 +451,6 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
     tensors[loc] = backend_obj.sum(tensors[loc], tuple(contractable_inds))
 
   # perform binary and batch contractions
-  skip_counter = 0
   batch_labels = []
   batch_cnts = []
   for l in set(flat_labels):
@@ -467,16 +462,10 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
   while len(con_order) > 0:
     # the next index to be contracted
     cont_ind = con_order[0]
-    if cont_ind in batch_labels:
+    if cont_ind in batch_labels and any(
+        c not in batch_labels for c in con_order):
       # if its still a batch index then do it later
       con_order.append(con_order.pop(0))
-      skip_counter += 1
-      # avoid being stuck in an infinite loop
-      if skip_counter > len(con_order):
-        raise ValueError(f"ncon seems stuck in an infinite loop. \n"
-                         f"Please check if `con_order` = {init_con_order} is "
-                         f"a valid contraction order for \n"
-                         f"`network_structure` = {init_network_structure}")
       continue
 
     # find locations of `cont_ind` in `network_structure`
-- 
2.43.0


From c1a0de856497e9c9d5ae3bf24ab958ed90a071e8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:14 +0000
Subject: [PATCH 39/65] fix: qr/rq with non_negative_diagonal keep columns
 whose diagonal entry is zero

---
 tensornetwork/backends/numpy/decompositions.py      | 4 ++++
 tensornetwork/backends/pytorch/decompositions.py    | 4 ++++
 tensornetwork/backends/tensorflow/decompositions.py | 6 ++++++
 3 files changed, 14 insertions(+)

diff --git a/tensornetwork/backends/numpy/decompositions.py b/tensornetwork/backends/numpy/decompositions.py
index 29feb63..8d54513 100644
--- a/tensornetwork/backends/numpy/decompositions.py
+++ b/tensornetwork/backends/numpy/decompositions.py
@@ -90,6 +90,8 @@ def qr(
   q, r = np.linalg.qr(tensor)
   if non_negative_diagonal:
     phases = np.sign(np.diagonal(r))
+    # a zero on the diagonal must not erase a column of `q`
+    phases = np.where(phases == 0, np.ones_like(phases), phases)
     q = q * phases
     r = phases.conj()[:, None] * r
   center_dim = q.shape[1]
@@ -114,6 +116,8 @@ def rq(
   q, r = np.linalg.qr(np.conj(np.transpose(tensor)))
   if non_negative_diagonal:
     phases = np.sign(np.diagonal(r))
+    # a zero on the diagonal must not erase a column of `q`
+    phases = np.where(phases == 0, np.ones_like(phases), phases)
     q = q * phases
     r = phases.conj()[:, None] * r
   r, q = np.conj(np.transpose(r)), np.conj(
diff --git a/tensornetwork/backends/pytorch/decompositions.py b/tensornetwork/backends/pytorch/decompositions.py
index 773902e..adfdf7d 100644
--- a/tensornetwork/backends/pytorch/decompositions.py
+++ b/tensornetwork/backends/pytorch/decompositions.py
@@ -162,6 +162,8 @@ def qr(
   q, r = torch.qr(tensor)
   if non_negative_diagonal:
     phases = torch.sign(torch.diagonal(r))
+    # a zero on the diagonal must not erase a column of `q`
+    phases = torch.where(phases == 0, torch.ones_like(phases), phases)
     q = q * phases
     r = phases[:, None] * r
   center_dim = q.shape[1]
@@ -211,6 +213,8 @@ def rq(
   q, r = torch.qr(torch.transpose(tensor, 0, 1))
   if non_negative_diagonal:
     phases = torch.sign(torch.diagonal(r))
+    # a zero on the diagonal must not erase a column of `q`
+    phases = torch.where(phases == 0, torch.ones_like(phases), phases)
     q = q * phases
     r = phases[:, None] * r
   r, q = torch.transpose(r, 0, 1), torch.transpose(q, 0,
diff --git a/tensornetwork/backends/tensorflow/decompositions.py b/tensornetwork/backends/tensorflow/decompositions.py
index dcc5bba..254683a 100644
--- a/tensornetwork/backends/tensorflow/decompositions.py
+++ b/tensornetwork/backends/tensorflow/decompositions.py
@@ -168,6 +168,9 @@ def qr(
   q, r = tf.linalg.qr(tensor)
   if non_negative_diagonal:
     phases = tf.math.sign(tf.linalg.diag_part(r))
+    # a zero on the diagonal must not erase a column of `q`
+    phases = tf.where(tf.equal(phases, tf.zeros_like(phases)),
+                      tf.ones_like(phases), phases)
     q = q * phases
     r = phases[:, None] * r
   center_dim = tf.shape(q)[1]
@@ -218,6 +221,9 @@ def rq(
   q, r = tf.linalg.qr(tf.math.conj(tf.transpose(tensor)))
   if non_negative_diagonal:
     phases = tf.math.sign(tf.linalg.diag_part(r))
+    # a zero on the diagonal must not erase a column of `q`
+    phases = tf.where(tf.equal(phases, tf.zeros_like(phases)),
+                      tf.ones_like(phases), phases)
     q = q * phases
     r = phases[:, None] * r
   r, q = tf.math.conj(tf.transpose(r)), tf.math.conj(
-- 
2.43.0


From 45a2ce4085cf7209285e971723810421803ef66d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:14 +0000
Subject: [PATCH 40/65] fix: slice_edge rejects a start before the edge and
 counts negative starts from the end on every backend

---
 tensornetwork/network_components.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index d7804ea..f92ef1d 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1667,9 +1667,12 @@ def slice_edge(edge: Edge, start_index: int, length: int) -> Edge:
   """
   if length <= 0:
     raise ValueError("Length of slice must be positive.")
-  if ((start_index + length > edge.dimension) or (-length < start_index < 0)):
+  if ((start_index + length > edge.dimension) or (-length < start_index < 0) or
+      start_index < -edge.dimension):
     raise ValueError("Length {} slice beginning at {} is invalid for edge of "
                      "dimension {}".format(length, start_index, edge.dimension))
+  if start_index < 0:  # counted from the end
+    start_index += edge.dimension
 
   backends = [node.backend for node in edge.get_nodes() if node is not None]
   if not all(b.name == backends[0].name for b in backends):
-- 
2.43.0


From c1ecc23b2d1cb01c6b337589566475b258cb2a4a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:14 +0000
Subject: [PATCH 41/65] fix: BaseMPS.position rejects a negative
 max_truncation_err as documented

---
 tensornetwork/matrixproductstates/base_mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 07e3849..f7b2893 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -156,7 +156,7 @@ class BaseMPS:
       raise ValueError(
           "BaseMPS.center_position is `None`, cannot shift `center_position`."
           "Reset `center_position` manually or use `canonicalize`")
-    if max_truncation_err is not None and max_truncation_err >= 1.0:
+    if max_truncation_err is not None and not 0.0 <= max_truncation_err < 1.0:
       raise ValueError("max_truncation_err should be 0 <= max_truncation_er"
                        f" < 1, found max_truncation_err = {max_truncation_err}")
     #`site` has to be between 0 and len(mps) - 1
-- 
2.43.0


From 0e524639115e7e20ffe382db307a98f8133d10b5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:14 +0000
Subject: [PATCH 42/65] fix: BaseMPS.bond_dimension of the last bond reads the
 last tensor

---
 tensornetwork/matrixproductstates/base_mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index f7b2893..72c0854 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -243,7 +243,7 @@ class BaseMPS:
                        f" an MPS of length {len(self)}")
     if bond < len(self):
       return self.tensors[bond].shape[0]
-    return self.tensors[bond].shape[2]
+    return self.tensors[bond - 1].shape[2]
 
   @property
   def bond_dimensions(self) -> List:
-- 
2.43.0


From 7b5aa3f839684137946c99d9ea8eb2d4e196ac1e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:14 +0000
Subject: [PATCH 43/65] fix: apply_two_site_gate without truncation leaves the
 centre where it says

---
 tensornetwork/matrixproductstates/base_mps.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 72c0854..9cf25cf 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -582,14 +582,14 @@ class BaseMPS:
     else:
       tw = self.backend.zeros(1, dtype=self.dtype)
       if center_position == site2:
-        R, Q = self.backend.rq(tensor, pivot_axis=2)
-        left_tensor = R
-        right_tensor = Q
-        set_center_position(site2)
-      else:
         Q, R = self.backend.qr(tensor, pivot_axis=2)
         left_tensor = Q
         right_tensor = R
+        set_center_position(site2)
+      else:
+        R, Q = self.backend.rq(tensor, pivot_axis=2)
+        left_tensor = R
+        right_tensor = Q
         set_center_position(site1)
 
     self.tensors[site1] = left_tensor
-- 
2.43.0


From 1ff11b48edebb31e4d748b047c8ddd4f307b48e5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:48 +0000
Subject: [PATCH 44/65] fix: report two-body correlators in the order of the
 requested sites

---
 tensornetwork/matrixproductstates/base_mps.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 9cf25cf..9514a69 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -364,7 +364,7 @@ class BaseMPS:
     ls = self.left_envs(
         np.append(np.mod(left_sites, N), site1).astype(np.int64))
 
-    c = []
+    c = {}
     if len(left_sites) > 0:
 
       A = Node(self.tensors[site1], backend=self.backend)
@@ -405,14 +405,12 @@ class BaseMPS:
           R[1] ^ conj_A[2]
 
           res = (((L @ A) @ O2) @ conj_A) @ R
-          c.append(res.tensor)
+          c[n] = res.tensor
         if n > n1:
           R = Node(
               self.apply_transfer_operator(n % N, 'right', R.tensor),
               backend=self.backend)
 
-      c = list(reversed(c))
-
     # compute <op2(site1)op1(site1)>
     if site1 in sites2:
       O1 = Node(op1, backend=self.backend)
@@ -431,7 +429,7 @@ class BaseMPS:
       conj_A[1] ^ O1[0]
       O = O1 @ O2
       res = (((L @ A) @ O) @ conj_A) @ R
-      c.append(res.tensor)
+      c[site1] = res.tensor
 
     # compute <op1(site1) op2(site2)> for site1 < site2
     if len(right_sites) > 0:
@@ -471,13 +469,14 @@ class BaseMPS:
           R[0] ^ A[2]
           R[1] ^ conj_A[2]
           res = L @ A @ O2 @ conj_A @ R
-          c.append(res.tensor)
+          c[n] = res.tensor
 
         if n < n2:
           L = Node(
               self.apply_transfer_operator(n % N, 'left', L.tensor),
               backend=self.backend)
-    return [self.backend.item(o) for o in c]
+    # one value per requested site, in the order of `sites2`
+    return [self.backend.item(c[site]) for site in sites2]
 
   def apply_two_site_gate(self,
                           gate: Tensor,
-- 
2.43.0


From 512826bd86cb43a3ae4e38c62b75c0b7fb770244 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:59 +0000
Subject: [PATCH 45/65] fix: contractors accept a generator of nodes, as
 documented

---
 .../contractors/opt_einsum_paths/path_contractors.py  | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index 095ba7a..5d92b8d 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -60,13 +60,13 @@ def base(nodes: Iterable[AbstractNode],
 
   if not ignore_edge_order:
     if output_edge_order is None:
-      output_edge_order = list(get_subgraph_dangling(nodes))
+      output_edge_order = list(get_subgraph_dangling(nodes_set))
       if len(output_edge_order) > 1:
         raise ValueError("The final node after contraction has more than "
                          "one remaining edge. In this case `output_edge_order` "
                          "has to be provided.")
 
-    if set(output_edge_order) != get_subgraph_dangling(nodes):
+    if set(output_edge_order) != get_subgraph_dangling(nodes_set):
       raise ValueError("output edges are not equal to the remaining "
                        "non-contracted edges of the final node.")
 
@@ -216,7 +216,8 @@ def auto(nodes: Iterable[AbstractNode],
     Final node after full contraction.
   """
 
-  n = len(list(nodes))  #pytype thing
+  nodes = list(nodes)
+  n = len(nodes)
   _nodes = nodes
   if n <= 0:
     raise ValueError("Cannot contract empty tensor network.")
@@ -325,8 +326,8 @@ def path_solver(
   elif algorithm == "greedy":
     alg = functools.partial(opt_einsum.paths.greedy, memory_limit=memory_limit)
   elif algorithm == "auto":
-    n = len(list(nodes))  #pytype thing
-    _nodes = nodes
+    nodes = list(nodes)
+    n = len(nodes)
     if n <= 1:
       return []
     if n < 5:
-- 
2.43.0


From 0a75fab39a8cee46cf3878f16d236ec48cb087b5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:59 +0000
Subject: [PATCH 46/65] fix: network operations consume an iterable argument
 only once

---
 tensornetwork/network_operations.py     | 7 ++++++-
 tensornetwork/visualization/graphviz.py | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index 00f9f97..88e6f3d 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -49,6 +49,7 @@ def copy(nodes: Iterable[AbstractNode],
       edge_dict:
         A dictionary mapping the edges to their copies.
   """
+  nodes = list(nodes)
   node_dict = {}
   for node in nodes:
     node_dict[node] = node.copy(conjugate)
@@ -102,6 +103,7 @@ def replicate_nodes(nodes: Iterable[AbstractNode],
   Returns:
     A list containing the copies of the nodes.
   """
+  nodes = list(nodes)
   new_nodes, _ = copy(nodes, conjugate=conjugate)
   return [new_nodes[node] for node in nodes]
 
@@ -657,6 +659,7 @@ def check_correct(nodes: Iterable[AbstractNode],
     ValueError: If the network defined by `nodes` is not
       correctly structured.
   """
+  nodes = list(nodes)
   for node in nodes:
     for i, edge in enumerate(node.edges):
       if edge.node1 is not node and edge.node2 is not node:
@@ -730,9 +733,10 @@ def get_subgraph_dangling(nodes: Iterable[AbstractNode]) -> Set[Edge]:
   Returns:
     The set of "relatively dangling" edges.
   """
+  nodes = set(nodes)
   output = set()
   for edge in get_all_edges(nodes):
-    if edge.is_dangling() or not set(edge.get_nodes()) <= set(nodes):
+    if edge.is_dangling() or not set(edge.get_nodes()) <= nodes:
       output.add(edge)
   return output
 
@@ -779,6 +783,7 @@ def reduced_density(traced_out_edges: Iterable[Edge]) -> Tuple[dict, dict]:
         conjugate copies.
   """
 
+  traced_out_edges = list(traced_out_edges)
   if list(filter(lambda x: not x.is_dangling(), traced_out_edges)):
     raise ValueError("traced_out_edges must only include dangling edges!")
 
diff --git a/tensornetwork/visualization/graphviz.py b/tensornetwork/visualization/graphviz.py
index e80aba8..9c10f9a 100644
--- a/tensornetwork/visualization/graphviz.py
+++ b/tensornetwork/visualization/graphviz.py
@@ -37,6 +37,7 @@ def to_graphviz(nodes: Iterable[AbstractNode],
   Returns:
     The `graphviz.Graph` object.
   """
+  nodes = list(nodes)
   if graph is None:
     #pylint: disable=no-member
     graph = graphviz.Graph('G', engine=engine)
-- 
2.43.0


From 03ec7bb96642b42a5733dafed05ec71e55c8cf12 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:26 +0000
Subject: [PATCH 47/65] fix: contract_path keeps the traced node of a trace
 edge

---
 .../contractors/opt_einsum_paths/path_contractors.py          | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index 5d92b8d..32ea5bc 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -371,7 +371,9 @@ def contract_path(path: Tuple[List[Tuple[int,
   for edge in edges:
     if not edge.is_disabled:  #if its disabled we already contracted it
       if edge.is_trace():
-        contract_parallel(edge)
+        # the traced node takes the place of the node it was made from
+        position = [node is edge.node1 for node in nodes].index(True)
+        nodes[position] = contract_parallel(edge)
 
   if len(nodes) == 1:
     newnode = nodes[0].copy()
-- 
2.43.0


From e2000798637d52edee483384a220d724d5a7a384 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:17 +0000
Subject: [PATCH 48/65] fix: restarted GMRES of the jax backend updates the
 current iterate

Each restart computed its correction from the residual of the current
solution but added it to the initial guess, so that every second restart
threw the progress away while reporting convergence.
---
 tensornetwork/backends/jax/jitted_functions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/backends/jax/jitted_functions.py b/tensornetwork/backends/jax/jitted_functions.py
index 63adb84..9d7ede1 100644
--- a/tensornetwork/backends/jax/jitted_functions.py
+++ b/tensornetwork/backends/jax/jitted_functions.py
@@ -1175,7 +1175,7 @@ def gmres_wrapper(jax: types.ModuleType):
     r, beta = gmres_residual(A_mv, A_args, b, x)
     k, V, R, beta_vec = gmres_krylov(A_mv, A_args, num_krylov_vectors,
                                      x0, r, beta, tol, b_norm, precision)
-    x = gmres_update(k, V, R, beta_vec, x0)
+    x = gmres_update(k, V, R, beta_vec, x)
     done = k < num_krylov_vectors - 1
     return done, beta, x
 
@@ -1212,7 +1212,8 @@ def gmres_wrapper(jax: types.ModuleType):
       V: The Arnoldi matrix of Krylov vectors.
       R: The R factor in H = QR where H is the Arnoldi overlap matrix.
       beta_vec: Stores the Givens factors used to map H into QR.
-      x0: The initial guess solution.
+      x0: The solution to update, i.e. the one whose residual started the
+        Krylov space.
     Returns:
       x: The updated solution.
     """
-- 
2.43.0


From 943c69fb17bb5184c677a481b1240f33b0274f36 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:36 +0000
Subject: [PATCH 49/65] fix: GMRES of the jax backend compares residual and
 tolerance in one unit

The estimate of the residual was divided by the norm of b and compared with
the absolute tolerance, and the absolute tolerance was used as breakdown
threshold of the Arnoldi step, so that the result depended on the scale of b:
for large b a wrong solution was returned as converged.
---
 tensornetwork/backends/jax/jitted_functions.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/backends/jax/jitted_functions.py b/tensornetwork/backends/jax/jitted_functions.py
index 9d7ede1..4a4c90a 100644
--- a/tensornetwork/backends/jax/jitted_functions.py
+++ b/tensornetwork/backends/jax/jitted_functions.py
@@ -1130,8 +1130,6 @@ def gmres_wrapper(jax: types.ModuleType):
       x0: Initial guess solution.
       tol, atol: Solution tolerance to achieve,
         norm(residual) <= max(tol * norm(b), atol).
-        tol is also used to set the threshold at which the Arnoldi factorization
-        terminates.
       num_krylov_vectors: Size of the Krylov space to build at each restart.
       maxiter: The Krylov space will be repeatedly rebuilt up to this many
         times.
@@ -1290,9 +1288,11 @@ def gmres_wrapper(jax: types.ModuleType):
       """
       gmres_variables, gmres_constants = gmres_carry
       k, V, R, beta_vec, err, givens = gmres_variables
-      tol, A_mv, A_args, b_norm, _ = gmres_constants
+      tol, A_mv, A_args, _, _ = gmres_constants
 
-      V, H = kth_arnoldi_step(k, A_mv, A_args, V, R, tol, precision)
+      # `tol` is measured in units of b, the breakdown threshold is relative
+      threshold = 10 * jnp.finfo(V.dtype).eps
+      V, H = kth_arnoldi_step(k, A_mv, A_args, V, R, threshold, precision)
       R_col, givens = apply_givens_rotation(H[:, k], givens, k)
       R = jax.ops.index_update(R, jax.ops.index[:, k], R_col[:])
 
@@ -1300,7 +1300,7 @@ def gmres_wrapper(jax: types.ModuleType):
       cs, sn = givens[:, k] * beta_vec[k]
       beta_vec = jax.ops.index_update(beta_vec, jax.ops.index[k], cs)
       beta_vec = jax.ops.index_update(beta_vec, jax.ops.index[k + 1], sn)
-      err = jnp.abs(sn) / b_norm
+      err = jnp.abs(sn)  # the residual norm; `tol` is absolute, too
       gmres_variables = (k + 1, V, R, beta_vec, err, givens)
       return (gmres_variables, gmres_constants)
 
@@ -1391,7 +1391,7 @@ def gmres_wrapper(jax: types.ModuleType):
     v_norm = jnp.linalg.norm(v_new)
     r_new = v_new / v_norm
     #  Normalize v unless it is the zero vector.
-    r_new = jax.lax.cond(v_norm > tol,
+    r_new = jax.lax.cond(v_norm > tol * jnp.linalg.norm(v),
                          lambda x: x[0] / x[1],
                          lambda x: 0.*x[0],
                          (v_new, v_norm)
-- 
2.43.0


From 1f7d637fa0a920e0a34fdbd862658f40ae482246 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:59 +0000
Subject: [PATCH 50/65] fix: GMRES of the jax backend uses unitary rotations
 for complex matrices

The Givens factors were those of a complex orthogonal rotation: the residual
was not minimised, its estimate was wrong, and it divided by zero for
A = [[1j, 0], [1, 1]], b = [1, 0].
---
 tensornetwork/backends/jax/jitted_functions.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/tensornetwork/backends/jax/jitted_functions.py b/tensornetwork/backends/jax/jitted_functions.py
index 4a4c90a..ef8339a 100644
--- a/tensornetwork/backends/jax/jitted_functions.py
+++ b/tensornetwork/backends/jax/jitted_functions.py
@@ -1297,7 +1297,8 @@ def gmres_wrapper(jax: types.ModuleType):
       R = jax.ops.index_update(R, jax.ops.index[:, k], R_col[:])
 
       # Update the residual vector.
-      cs, sn = givens[:, k] * beta_vec[k]
+      cs = givens[0, k] * beta_vec[k]
+      sn = givens[1, k].conj() * beta_vec[k]
       beta_vec = jax.ops.index_update(beta_vec, jax.ops.index[k], cs)
       beta_vec = jax.ops.index_update(beta_vec, jax.ops.index[k + 1], sn)
       err = jnp.abs(sn)  # the residual norm; `tol` is absolute, too
@@ -1429,7 +1430,7 @@ def gmres_wrapper(jax: types.ModuleType):
       cs = givens[0, i]
       sn = givens[1, i]
       H_i = cs * H_col[i] - sn * H_col[i + 1]
-      H_ip1 = sn * H_col[i] + cs * H_col[i + 1]
+      H_ip1 = sn.conj() * H_col[i] + cs.conj() * H_col[i + 1]
       H_col = jax.ops.index_update(H_col, jax.ops.index[i], H_i)
       H_col = jax.ops.index_update(H_col, jax.ops.index[i + 1], H_ip1)
       return (H_col, i + 1, k, givens)
@@ -1478,16 +1479,17 @@ def gmres_wrapper(jax: types.ModuleType):
   def givens_rotation(v1: float, v2: float) -> Tuple[float, float]:
     """
     Given scalars v1 and v2, computes cs = cos(theta) and sn = sin(theta)
-    so that   [cs  -sn]  @ [v1] = [r]
-              [sn   cs]    [v2]   [0]
+    so that   [cs   -sn ]  @ [v1] = [r]
+              [sn*   cs*]    [v2]   [0]
+    is a unitary rotation.
     Args:
       v1, v2: The scalars.
     Returns:
       cs, sn: The rotation factors.
     """
-    t = jnp.sqrt(v1**2 + v2**2)
-    cs = v1 / t
-    sn = -v2 / t
+    t = jnp.sqrt(jnp.abs(v1)**2 + jnp.abs(v2)**2)
+    cs = jnp.conj(v1) / t
+    sn = -jnp.conj(v2) / t
     return cs, sn
 
   fnames = [
-- 
2.43.0


From 33f3b54a87394d0a158071bfacb5868564fb7113 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:40 +0000
Subject: [PATCH 51/65] fix: charges derived from a charge keep its integer
 dtype

Fusing, dualising, indexing, uniquifying, reducing or intersecting a charge
built with a wide charge_dtype silently narrowed the result to int16, so
large charges wrapped around and wide symmetric tensors could not be
transposed or contracted.
---
 .../block_sparse/blocksparse_utils.py         | 60 +++++++++++++------
 tensornetwork/block_sparse/charge.py          | 54 +++++++++++++----
 2 files changed, 83 insertions(+), 31 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparse_utils.py b/tensornetwork/block_sparse/blocksparse_utils.py
index 496f2fe..c3f8ce4 100644
--- a/tensornetwork/block_sparse/blocksparse_utils.py
+++ b/tensornetwork/block_sparse/blocksparse_utils.py
@@ -109,7 +109,8 @@ def compute_sparse_lookup(
   obj.__init__(
       charges=unique_charges,
       charge_labels=None,
-      charge_types=charges[0].charge_types)
+      charge_types=charges[0].charge_types,
+      charge_dtype=unique_charges.dtype)
 
   tmp[label_to_unique] = label_to_unique
   lookup = tmp[inverse]
@@ -267,7 +268,9 @@ def reduce_charges(charges: List[BaseCharge],
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(
         np.empty((0, charges[0].num_symmetries), dtype=charges[0].dtype),
-        np.empty(0, dtype=charges[0].label_dtype), charges[0].charge_types)
+        np.empty(0, dtype=charges[0].label_dtype),
+        charges[0].charge_types,
+        charge_dtype=charges[0].dtype)
     if return_locations:
       return obj, np.empty(0, dtype=SIZE_T)
     return obj
@@ -296,7 +299,11 @@ def reduce_charges(charges: List[BaseCharge],
   reduced_labels = np.concatenate(
       [reduced_rows[n] for n in left_ind.charge_labels])
   obj = charges[0].__new__(type(charges[0]))
-  obj.__init__(reduced_qnums, reduced_labels, charges[0].charge_types)
+  obj.__init__(
+      reduced_qnums,
+      reduced_labels,
+      charges[0].charge_types,
+      charge_dtype=comb_qnums.dtype)
 
   if return_locations:
     row_locs = [0] * left_ind.num_unique
@@ -369,8 +376,11 @@ def _find_diagonal_sparse_blocks(
       block_dims = np.flipud(block_dims)
 
     obj = charges[0].__new__(type(charges[0]))
-    obj.__init__(block_qnums, np.arange(1, dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+    obj.__init__(
+        block_qnums,
+        np.arange(1, dtype=charges[0].label_dtype),
+        charges[0].charge_types,
+        charge_dtype=block_qnums.dtype)
 
     return block_maps, obj, block_dims
 
@@ -390,7 +400,9 @@ def _find_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(
         np.zeros((0, charges[0].num_symmetries), dtype=charges[0].dtype),
-        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types)
+        np.arange(0, dtype=charges[0].label_dtype),
+        charges[0].charge_types,
+        charge_dtype=charges[0].dtype)
 
     return [], obj, np.empty((2, 0), dtype=SIZE_T)
 
@@ -420,9 +432,11 @@ def _find_diagonal_sparse_blocks(
                np.arange(block_dims[1, n])[None, :]) for n in range(num_blocks)
   ]
   obj = charges[0].__new__(type(charges[0]))
-  obj.__init__(block_qnums,
-               np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-               charges[0].charge_types)
+  obj.__init__(
+      block_qnums,
+      np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
+      charges[0].charge_types,
+      charge_dtype=block_qnums.dtype)
   if cacher.do_caching:
     cacher.cache[hash_val] = (block_maps, obj, block_dims, charge_data)
   return block_maps, obj, block_dims
@@ -495,7 +509,9 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(
         np.empty((0, charges[0].num_symmetries), dtype=charges[0].dtype),
-        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types)
+        np.arange(0, dtype=charges[0].label_dtype),
+        charges[0].charge_types,
+        charge_dtype=charges[0].dtype)
 
     return [], obj, np.empty((2, 0), dtype=SIZE_T)
 
@@ -551,9 +567,11 @@ def _find_transposed_diagonal_sparse_blocks(
     block_maps = [(all_cumul_degens[orig_row_posR] +
                    dense_to_sparse[orig_col_posR]).ravel()]
     obj = charges[0].__new__(type(charges[0]))
-    obj.__init__(block_qnums,
-                 np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+    obj.__init__(
+        block_qnums,
+        np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
+        charges[0].charge_types,
+        charge_dtype=block_qnums.dtype)
 
   elif tr_partition == len(charges):
     # special case: reshape into col vector
@@ -583,9 +601,11 @@ def _find_transposed_diagonal_sparse_blocks(
     block_maps = [(all_cumul_degens[orig_row_posL] +
                    dense_to_sparse[orig_col_posL]).ravel()]
     obj = charges[0].__new__(type(charges[0]))
-    obj.__init__(block_qnums,
-                 np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+    obj.__init__(
+        block_qnums,
+        np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
+        charges[0].charge_types,
+        charge_dtype=block_qnums.dtype)
   else:
 
     unique_row_qnums, new_row_degen = compute_fused_charge_degeneracies(
@@ -627,9 +647,11 @@ def _find_transposed_diagonal_sparse_blocks(
           all_cumul_degens[np.add.outer(orig_row_posL, orig_row_posR)] +
           dense_to_sparse[np.add.outer(orig_col_posL, orig_col_posR)]).ravel()
     obj = charges[0].__new__(type(charges[0]))
-    obj.__init__(block_qnums,
-                 np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+    obj.__init__(
+        block_qnums,
+        np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
+        charges[0].charge_types,
+        charge_dtype=block_qnums.dtype)
 
   if cacher.do_caching:
     cacher.cache[hash_val] = (block_maps, obj, block_dims, charge_data)
diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index 237b30d..833cddb 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -202,7 +202,10 @@ class BaseCharge:
         axis=0)
     obj = self.__new__(type(self))
     obj.__init__(
-        charges=charges, charge_labels=None, charge_types=self.charge_types)
+        charges=charges,
+        charge_labels=None,
+        charge_types=self.charge_types,
+        charge_dtype=self.dtype)
     return obj
 
   def __add__(self, other: "BaseCharge") -> "BaseCharge":
@@ -217,7 +220,10 @@ class BaseCharge:
     fused_charges = fuse_ndarray_charges(self.charges, other.charges,
                                          self.charge_types)
     obj = self.__new__(type(self))
-    obj.__init__(fused_charges, charge_types=self.charge_types)
+    obj.__init__(
+        fused_charges,
+        charge_types=self.charge_types,
+        charge_dtype=fused_charges.dtype)
     return obj
 
   def dual(self, take_dual: Optional[bool] = False) -> "BaseCharge":
@@ -241,7 +247,8 @@ class BaseCharge:
         obj.__init__(
             unique_dual_charges,
             charge_labels=self.charge_labels,
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
         return obj
       dual_charges = np.stack([
           self.charge_types[n].dual_charges(self._charges[:, n])
@@ -251,7 +258,10 @@ class BaseCharge:
 
       obj = self.__new__(type(self))
       obj.__init__(
-          dual_charges, charge_labels=None, charge_types=self.charge_types)
+          dual_charges,
+          charge_labels=None,
+          charge_types=self.charge_types,
+          charge_dtype=self.dtype)
       return obj
 
     return self
@@ -264,7 +274,10 @@ class BaseCharge:
     charges = np.concatenate([self.charges, other.charges], axis=1)
     charge_types = self.charge_types + other.charge_types
     return BaseCharge(
-        charges=charges, charge_labels=None, charge_types=charge_types)
+        charges=charges,
+        charge_labels=None,
+        charge_types=charge_types,
+        charge_dtype=charges.dtype)
 
   def __mul__(self, number: bool) -> "BaseCharge":
     if not isinstance(number, (bool, np.bool_)):
@@ -313,12 +326,14 @@ class BaseCharge:
           charges=out[0],
           charge_labels=np.arange(out[0].shape[0], dtype=self.label_dtype),
           charge_types=self.charge_types,
+          charge_dtype=self.dtype,
       )
       return obj, out[1], out[2]
     obj.__init__(
         charges=out,
         charge_labels=np.arange(out.shape[0], dtype=self.label_dtype),
         charge_types=self.charge_types,
+        charge_dtype=self.dtype,
     )
     return obj
 
@@ -367,13 +382,15 @@ class BaseCharge:
             charges=unique_charges,
             charge_labels=np.arange(
                 unique_charges.shape[0], dtype=self.label_dtype),
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
         tmp[0] = obj
       else:
         obj.__init__(
             charges=tmp,
             charge_labels=np.arange(tmp.shape[0], dtype=self.label_dtype),
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
         tmp = obj
       return tmp
 
@@ -383,7 +400,8 @@ class BaseCharge:
             charges=self._unique_charges,
             charge_labels=np.arange(
                 self._unique_charges.shape[0], dtype=self.label_dtype),
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
 
         out = [obj]
         if return_inverse:
@@ -406,7 +424,8 @@ class BaseCharge:
           charges=unique_charges,
           charge_labels=np.arange(
               unique_charges.shape[0], dtype=self.label_dtype),
-          charge_types=self.charge_types)
+          charge_types=self.charge_types,
+          charge_dtype=self.dtype)
       tmp[0] = obj
       return tmp
 
@@ -447,7 +466,11 @@ class BaseCharge:
     reduced_locs = reduced_ind_labels >= 0
     new_ind_labels = reduced_ind_labels[reduced_locs].astype(self.label_dtype)
     obj = self.__new__(type(self))
-    obj.__init__(reduced_charges, new_ind_labels, self.charge_types)
+    obj.__init__(
+        reduced_charges,
+        new_ind_labels,
+        self.charge_types,
+        charge_dtype=self.dtype)
 
     if return_locations:
       return obj, strides * np.flatnonzero(reduced_locs).astype(np.uint32)
@@ -471,10 +494,17 @@ class BaseCharge:
       labels = self.charge_labels[n]
       unique_labels, new_labels = unique(labels, return_inverse=True)
       unique_charges = self.unique_charges[unique_labels, :]
-      obj.__init__(unique_charges, new_labels, self.charge_types)
+      obj.__init__(
+          unique_charges,
+          new_labels,
+          self.charge_types,
+          charge_dtype=self.dtype)
       return obj
     obj.__init__(
-        self._charges[n, :], charge_labels=None, charge_types=self.charge_types)
+        self._charges[n, :],
+        charge_labels=None,
+        charge_types=self.charge_types,
+        charge_dtype=self.dtype)
     return obj
 
   @property
-- 
2.43.0


From a18066e81d4ee4419073607d70f2cea34543b7b4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:31 +0000
Subject: [PATCH 52/65] fix: charge_equal compares charges, not their storage

Two equal charges whose unique charges are stored in a different order
(for example a dual and a directly built charge) compared as different.
---
 tensornetwork/block_sparse/charge.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index 833cddb..413c83d 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -682,13 +682,11 @@ def charge_equal(c1: BaseCharge, c2: BaseCharge) -> bool:
 
   res = True      
   if c1._unique_charges is not None and c2._unique_charges is not None:
-    if c1._unique_charges.shape != c2._unique_charges.shape:
-      res = False
-    elif not np.all(c1._unique_charges == c2._unique_charges):
-      res = False
-    elif not np.all(c1.charge_labels == c2.charge_labels):
-      res = False
-    return res
+    # equal charges can be stored with differently ordered unique charges,
+    # so only a match of both arrays is conclusive.
+    if (np.array_equal(c1._unique_charges, c2._unique_charges) and
+        np.array_equal(c1._charge_labels, c2._charge_labels)):
+      return True
 
   if c1._charges is not None and c2._charges is not None:
     if c1._charges.shape != c2._charges.shape:
-- 
2.43.0


From 3bf18f599cd705d11230521355a9a8e7c484ecae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:26 +0000
Subject: [PATCH 53/65] fix: symmetric outer product keeps the dtype of both
 operands

The result took the dtype of the first operand, so the imaginary part of a
complex second operand was dropped.
---
 tensornetwork/block_sparse/blocksparsetensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index a939a7a..8acf744 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -903,7 +903,8 @@ def outerproduct(tensor1: BlockSparseTensor,
   order2 = [list(np.asarray(s) + len(tensor1._charges)) for s in tensor2._order]
 
   data = np.zeros(
-      compute_num_nonzero(final_charges, final_flows), dtype=tensor1.dtype)
+      compute_num_nonzero(final_charges, final_flows),
+      dtype=np.result_type(tensor1.dtype, tensor2.dtype))
   if ((len(tensor1.data) > 0) and (len(tensor2.data) > 0)) and (len(data) > 0):
     # find the location of the zero block in the output
     final_block_maps, final_block_charges, _ = _find_diagonal_sparse_blocks(
-- 
2.43.0


From 921a7ef0055276cd773e693f8764258b58b19a8e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:26 +0000
Subject: [PATCH 54/65] fix: trace of merged symmetric legs pairs them in order

argsort of a leg order is only its rank for involutions, so legs merged in
another order were paired with the wrong partners.
---
 tensornetwork/block_sparse/linalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index da2bf6d..e7d00d3 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -626,8 +626,9 @@ def trace(tensor: BlockSparseTensor,
     _, _, labels1 = np.intersect1d(
         tensor._order[axes[1]], flatten(out._order), return_indices=True)
 
-    a0 = list(labels0[np.argsort(tensor._order[axes[0]])])
-    a1 = list(labels1[np.argsort(tensor._order[axes[1]])])
+    # `labels` follow the sorted orders, look up the rank of each leg.
+    a0 = list(labels0[np.argsort(np.argsort(tensor._order[axes[0]]))])
+    a1 = list(labels1[np.argsort(np.argsort(tensor._order[axes[1]]))])
 
     while len(a0) > 0:
       i = a0.pop(0)
-- 
2.43.0


From bb5e56e9d97d9705753851d428e9c423b6647a03 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:26 +0000
Subject: [PATCH 55/65] fix: diag of a ChargeArray keeps all charges of a
 merged leg

Only the first charge of the leg was put on the diagonal matrix.
---
 tensornetwork/block_sparse/linalg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index e7d00d3..a0edbe5 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -59,6 +59,8 @@ def diag(tensor: ChargeArray) -> Any:
       raise ValueError(
           "`diag` currently only implemented for `ChargeArray` with ndim=1, "
           "found `ndim={}`".format(tensor.ndim))
+    # merged legs have to be stored in their leg order
+    tensor = tensor.contiguous()
     flat_charges = tensor._charges + tensor._charges
     flat_flows = list(tensor._flows) + list(np.logical_not(tensor._flows))
     flat_order = list(tensor.flat_order) + list(
@@ -79,7 +81,7 @@ def diag(tensor: ChargeArray) -> Any:
         tensor._order[0],
         list(np.asarray(tensor._order[0]) + len(tensor._charges))
     ]
-    new_charges = [tensor._charges[0].copy(), tensor._charges[0].copy()]
+    new_charges = [c.copy() for c in flat_charges]
     return BlockSparseTensor(
         data,
         charges=new_charges,
-- 
2.43.0


From 5bd7ad64c6a0ef4deb256e481826d191e9a60c8a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:41 +0000
Subject: [PATCH 56/65] fix: symmetric tensordot handles negative and refuses
 repeated axes

A negative axis was contracted and kept as a free leg at the same time,
which gave a wrong result without an error.
---
 tensornetwork/block_sparse/blocksparsetensor.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 8acf744..5b6f10b 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -969,7 +969,15 @@ def tensordot(
   if len(axes1) == 0:
     return outerproduct(tensor1, tensor2)
 
+  # negative axes count from the end
+  axes1 = [a + tensor1.ndim if a < 0 else a for a in axes1]
+  axes2 = [a + tensor2.ndim if a < 0 else a for a in axes2]
+
   #more checks
+  if min(axes1) < 0 or min(axes2) < 0:
+    raise ValueError("axes = {} are out of range for tensors with {} and {} "
+                     "dimensions".format(axes, tensor1.ndim, tensor2.ndim))
+
   if max(axes1) >= len(tensor1.shape):
     raise ValueError(
         "rank of `tensor1` is smaller than `max(axes1) = {}.`".format(
@@ -1015,6 +1023,9 @@ def tensordot(
             np.array(axes2)[inds], [contr_charges_1[i] for i in inds],
             [contr_charges_2[i] for i in inds]))
 
+  if len(set(axes1)) != len(axes1) or len(set(axes2)) != len(axes2):
+    raise ValueError("axes = {} contain repeated values".format(axes))
+
   #checks finished
 
   #special case inner product (returns an ndim=0 tensor)
-- 
2.43.0


From c53a985c187adcf8f4480b5038e5236008427132 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:41 +0000
Subject: [PATCH 57/65] fix: Index equality compares charges, not their storage

Equal indices whose unique charges are stored in a different order compared
as different, so adding such tensors was refused.
---
 tensornetwork/block_sparse/index.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/block_sparse/index.py b/tensornetwork/block_sparse/index.py
index 6d0aa68..8144934 100644
--- a/tensornetwork/block_sparse/index.py
+++ b/tensornetwork/block_sparse/index.py
@@ -12,7 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 import numpy as np
-from tensornetwork.block_sparse.charge import BaseCharge, fuse_charges
+from tensornetwork.block_sparse.charge import BaseCharge, charge_equal, fuse_charges
 import copy
 from typing import List, Union
 
@@ -55,11 +55,7 @@ class Index:
     if len(other._charges) != len(self._charges):
       return False
     for n in range(len(self._charges)):
-      if not np.array_equal(self._charges[n].unique_charges,
-                            other._charges[n].unique_charges):
-        return False
-      if not np.array_equal(self._charges[n].charge_labels,
-                            other._charges[n].charge_labels):
+      if not charge_equal(self._charges[n], other._charges[n]):
         return False
     if not np.all(np.asarray(self.flow) == np.asarray(other.flow)):
       return False
-- 
2.43.0


From a7faa94a2584fa315a449b2b892f0bd12b31ae17 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:03 +0000
Subject: [PATCH 58/65] fix: symmetric transpose refuses repeated axes

A repeated axis gave a malformed tensor listing one leg twice and losing
another.
---
 tensornetwork/block_sparse/blocksparsetensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 5b6f10b..11f26d7 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -354,6 +354,10 @@ class ChargeArray:
           "`len(order)={}` is different form `self.ndim={}`".format(
               len(order), self.ndim))
 
+    axes = np.arange(self.ndim)[list(order)]
+    if len(set(axes)) != len(axes):
+      raise ValueError("`order={}` contains repeated axes".format(order))
+
     order = [self._order[o] for o in order]
     tensor = self.__new__(type(self))
     tensor.__init__(
-- 
2.43.0


From 5259a298bdb1f63c85875f1e414f7261d5cb5f39 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:28 +0000
Subject: [PATCH 59/65] fix: compare_shapes compares legs in leg order

It compared the order of storage, so a tensor was equal in shape to its
transpose and different from an equal tensor stored in another order.
---
 tensornetwork/block_sparse/blocksparsetensor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 11f26d7..e04b3d4 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -460,11 +460,15 @@ def compare_shapes(tensor1: ChargeArray, tensor2: ChargeArray) -> bool:
     return False
   if len(tensor1._charges) != len(tensor2._charges):
     return False
+  if [len(o) for o in tensor1._order] != [len(o) for o in tensor2._order]:
+    return False
+  # compare in leg order: the order of storage is irrelevant
   if not all(
       charge_equal(c1, c2)
-      for c1, c2 in zip(tensor1._charges, tensor2._charges)):
+      for c1, c2 in zip(tensor1.flat_charges, tensor2.flat_charges)):
     return False
-  if not all(f1 == f2 for f1, f2 in zip(tensor1._flows, tensor2._flows)):
+  if not all(
+      f1 == f2 for f1, f2 in zip(tensor1.flat_flows, tensor2.flat_flows)):
     return False
   return True
 
-- 
2.43.0


From 618b749222a8609a7bd712ed846939829858c7e1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:51 +0000
Subject: [PATCH 60/65] fix: symmetric eigs and gmres keep merged legs of the
 initial state

---
 tensornetwork/backends/symmetric/symmetric_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index ce0478e..5a83d9d 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -251,6 +251,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
         numpy.empty(0, dtype=initial_state.dtype),
         initial_state._charges,
         initial_state._flows,
+        initial_state._order,
         check_consistency=False)
     lop = sp.sparse.linalg.LinearOperator(
         dtype=initial_state.dtype, shape=(dim, dim), matvec=matvec)
@@ -279,6 +280,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
             U[:, n],
             initial_state._charges,
             initial_state._flows,
+            initial_state._order,
             check_consistency=False) for n in range(numeig)
     ]
 
@@ -577,6 +579,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
         numpy.empty(0, dtype=x0.dtype),
         x0._charges,
         x0._flows,
+        x0._order,
         check_consistency=False)
     def matvec(vector):
       tmp.data = vector
-- 
2.43.0


From 1517d2bed1bded3c2ddef0eebf93806a4d160241 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:10 +0000
Subject: [PATCH 61/65] fix: symmetric svd keeps the dtype of tensors without
 blocks

---
 tensornetwork/backends/symmetric/decompositions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/backends/symmetric/decompositions.py b/tensornetwork/backends/symmetric/decompositions.py
index 3bd437a..20483e3 100644
--- a/tensornetwork/backends/symmetric/decompositions.py
+++ b/tensornetwork/backends/symmetric/decompositions.py
@@ -162,8 +162,8 @@ def svd(
     all_singvals = np.empty(0, dtype=get_real_dtype(tensor.dtype))
     left_charge_labels = np.empty(0, dtype=np.int16)
     right_charge_labels = np.empty(0, dtype=np.int16)
-    all_ublocks = np.empty(0, dtype=get_real_dtype(tensor.dtype))
-    all_vblocks = np.empty(0, dtype=get_real_dtype(tensor.dtype))
+    all_ublocks = np.empty(0, dtype=tensor.dtype)
+    all_vblocks = np.empty(0, dtype=tensor.dtype)
 
   if len(discarded_singvals) > 0:
     tmp_labels = [
-- 
2.43.0


From 581577c10b6fc10bdcdc22931a79cad8d20bcdb1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:53 +0000
Subject: [PATCH 62/65] fix: eliminate_identities follows replacements of
 replaced edges in chains

---
 tensornetwork/quantum/quantum.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensornetwork/quantum/quantum.py b/tensornetwork/quantum/quantum.py
index 1dc7981..929640b 100644
--- a/tensornetwork/quantum/quantum.py
+++ b/tensornetwork/quantum/quantum.py
@@ -140,6 +140,12 @@ def eliminate_identities(nodes: Collection[AbstractNode]) -> Tuple[dict, dict]:
         dangling_edges_dict[e] = e
       nodes_dict[n] = n
 
+  # With chained identities a replacement can itself have been replaced.
+  for e, new_e in dangling_edges_dict.items():
+    while dangling_edges_dict.get(new_e, new_e) is not new_e:
+      new_e = dangling_edges_dict[new_e]
+    dangling_edges_dict[e] = new_e
+
   return nodes_dict, dangling_edges_dict
 
 
-- 
2.43.0


From bde6c7cc58e629dfdf0f347660e5d516bf58a39d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:53 +0000
Subject: [PATCH 63/65] fix: QuOperator.contract keeps its network when all
 reference nodes were identities

---
 tensornetwork/quantum/quantum.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/quantum/quantum.py b/tensornetwork/quantum/quantum.py
index 929640b..97bc3ea 100644
--- a/tensornetwork/quantum/quantum.py
+++ b/tensornetwork/quantum/quantum.py
@@ -452,8 +452,8 @@ class QuOperator():
     self.in_edges = [dangling_edges_dict[e] for e in self.in_edges]
     self.out_edges = [dangling_edges_dict[e] for e in self.out_edges]
     self.ignore_edges = set(dangling_edges_dict[e] for e in self.ignore_edges)
-    self.ref_nodes = set(
-        nodes_dict[n] for n in self.ref_nodes if n in nodes_dict)
+    # the reference nodes themselves may have been eliminated
+    self.ref_nodes = set(nodes_dict.values())
     self.check_network()
 
     if final_edge_order:
-- 
2.43.0


From ac1e40029923b5fd94e9bbdc6d4394dad7607080 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:45 +0000
Subject: [PATCH 64/65] fix: InfiniteMPS.transfer_matrix_eigs accepts an
 initial state

An initial state with more than one element was tested for its truth value,
which numpy and the other backends refuse.
---
 tensornetwork/matrixproductstates/infinite_mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/infinite_mps.py b/tensornetwork/matrixproductstates/infinite_mps.py
index a539069..8a81cf8 100644
--- a/tensornetwork/matrixproductstates/infinite_mps.py
+++ b/tensornetwork/matrixproductstates/infinite_mps.py
@@ -131,7 +131,7 @@ class InfiniteMPS(BaseMPS):
           direction, self.backend.reshape(vector, (D, D)))
       return self.backend.reshape(result, (D * D,))
 
-    if not initial_state:
+    if initial_state is None:
       initial_state = self.backend.randn((self.bond_dimensions[0]**2,),
                                          dtype=self.dtype)
     else:
-- 
2.43.0


From fa72bf8e941a44eadbc34f390f1316a2e3fbcfa1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:27:45 +0000
Subject: [PATCH 65/65] fix: pytorch eye keeps an explicit M of zero

A number of columns of zero was taken for a missing one, so a square matrix
was returned instead of an N x 0 one.
---
 tensornetwork/backends/pytorch/pytorch_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/pytorch/pytorch_backend.py b/tensornetwork/backends/pytorch/pytorch_backend.py
index 4ae6f48..f6d2246 100644
--- a/tensornetwork/backends/pytorch/pytorch_backend.py
+++ b/tensornetwork/backends/pytorch/pytorch_backend.py
@@ -134,7 +134,7 @@ class PyTorchBackend(abstract_backend.AbstractBackend):
           dtype: Optional[Any] = None,
           M: Optional[int] = None) -> Tensor:
     dtype = dtype if dtype is not None else torchlib.float64
-    if not M:
+    if M is None:
       M = N  #torch crashes if one passes M = None with dtype!=None
     return torchlib.eye(n=N, m=M, dtype=dtype)
 
-- 
2.43.0

