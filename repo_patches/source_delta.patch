From 373911995876d390012421280163917812ac0213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:27 +0000
Subject: [PATCH 01/63] fix: ncon sums closed labels that appear once on
 several tensors

---
 tensornetwork/ncon_interface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index ab70948..ccbf8f5 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -414,7 +414,9 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
 
   for loc in locs:
     labels = network_structure[loc]
-    contractable_inds = [labels.index(l) for l in contractable_labels]
+    contractable_inds = [
+        labels.index(l) for l in contractable_labels if l in labels
+    ]
     network_structure[loc] = [l for l in labels if l not in contractable_labels]
     tensors[loc] = backend_obj.sum(tensors[loc], tuple(contractable_inds))
 
-- 
2.43.0


From ff36a871e1cc51a438c325f73b68f60d81049e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:27 +0000
Subject: [PATCH 02/63] fix: ncon takes the diagonal of batch labels repeated
 on one tensor

---
 tensornetwork/ncon_interface.py | 34 +++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index ccbf8f5..8ec2b87 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -277,6 +277,35 @@ def _partial_trace(
   return tensor, labels, []
 
 
+def _collapse_repeated_batch_labels(
+    tensor: Tensor, labels: List, flat_labels: List,
+    backend_obj: AbstractBackend) -> Tuple[Tensor, List]:
+  """
+  Replace axes of `tensor` sharing a batch label by their diagonal.
+  Closed labels appearing exactly twice in the network are left untouched
+  (see `_partial_trace`).
+  Args:
+    tensor: A tensor.
+    labels: The canonical labels of `tensor`.
+    flat_labels: All canonical labels of the network.
+    backend_obj: A backend object.
+  Returns:
+    Tensor: The tensor with each batch label appearing at most once.
+    List: Its labels.
+  """
+  for label in sorted(set(labels)):
+    if label > 0 and flat_labels.count(label) == 2:
+      continue
+    while labels.count(label) > 1:
+      first = labels.index(label)
+      second = labels.index(label, first + 1)
+      rest = [n for n in range(len(labels)) if n not in (first, second)]
+      tensor = backend_obj.diagonal(
+          backend_obj.transpose(tensor, tuple(rest + [first, second])))
+      labels = [labels[n] for n in rest] + [label]
+  return tensor, labels
+
+
 def _batch_cont(
     t1: Tensor, t2: Tensor, tensors: List[Tensor],
     network_structure: List[List], con_order: List, common_batch_labels: Set,
@@ -391,6 +420,11 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
   init_con_order = [c for c in con_order]
   init_network_structure = [c for c in network_structure]
 
+  # diagonals of batch labels repeated on a single tensor
+  for n, tensor in enumerate(tensors):
+    tensors[n], network_structure[n] = _collapse_repeated_batch_labels(
+        tensor, network_structure[n], flat_labels, backend_obj)
+
   # partial trace
   for n, tensor in enumerate(tensors):
     tensors[n], network_structure[n], contracted_labels = _partial_trace(
-- 
2.43.0


From 94b37a31df296b4f6f1f7c9c38ba962e26844456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:27 +0000
Subject: [PATCH 03/63] fix: ncon contracts networks in which only batch labels
 are left

---
 tensornetwork/ncon_interface.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index 8ec2b87..d90f276 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -472,12 +472,19 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
       con_order.append(con_order.pop(0))
       skip_counter += 1
       # avoid being stuck in an infinite loop
-      if skip_counter > len(con_order):
+      if skip_counter <= len(con_order):
+        continue
+      # only batch indices are left: sum over one of them, unless `con_order`
+      # misses some of the contracted labels
+      if any(
+          l > 0 and l not in con_order
+          for labels in network_structure
+          for l in labels):
         raise ValueError(f"ncon seems stuck in an infinite loop. \n"
                          f"Please check if `con_order` = {init_con_order} is "
                          f"a valid contraction order for \n"
                          f"`network_structure` = {init_network_structure}")
-      continue
+      cont_ind = con_order[0]
 
     # find locations of `cont_ind` in `network_structure`
     locs = [
-- 
2.43.0


From fe2544e3dfee42fad0517dd8624f1dadd1ac768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:18 +0000
Subject: [PATCH 04/63] fix: slice_edge with a start index counted from the end

---
 tensornetwork/network_components.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index d8125e8..e12a4a9 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1657,7 +1657,11 @@ def slice_edge(edge: Edge, start_index: int, length: int) -> Edge:
   """
   if length <= 0:
     raise ValueError("Length of slice must be positive.")
-  if ((start_index + length > edge.dimension) or (-length < start_index < 0)):
+  start = start_index
+  if start < 0:
+    # A negative `start_index` counts from the end.
+    start += edge.dimension
+  if start < 0 or start + length > edge.dimension:
     raise ValueError("Length {} slice beginning at {} is invalid for edge of "
                      "dimension {}".format(length, start_index, edge.dimension))
 
@@ -1671,7 +1675,7 @@ def slice_edge(edge: Edge, start_index: int, length: int) -> Edge:
     if node is not None:
       tensor = node.get_tensor()
       start_indices = [0] * node.get_rank()
-      start_indices[axis] = start_index
+      start_indices[axis] = start
       start_indices = tuple(start_indices)
       slice_sizes = list(node.shape)
       slice_sizes[axis] = length
-- 
2.43.0


From d60bf95990af5fd31f2dfa4e3bd1c70ac9aa132d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:29 +0000
Subject: [PATCH 05/63] fix: reorder_edges rejects repeated edges before
 touching the node

---
 tensornetwork/network_components.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index e12a4a9..6fb27fb 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -234,6 +234,8 @@ class AbstractNode(ABC):
       if edge.node1 == edge.node2:
         raise ValueError("Edge reordering does not support trace edges. "
                          "Found trace edge: '{}'".format(edge))
+    if len(edge_order) != len(self.edges):
+      raise ValueError("Given edge order contains an edge more than once.")
 
     permutation = []
     for i, edge in enumerate(edge_order):
-- 
2.43.0


From f34cdbe8cd3e83e5b784f07d653122571dd4fc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:10 +0000
Subject: [PATCH 06/63] fix: keep axis names in step when trace edges are split
 or flattened

---
 tensornetwork/network_components.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 6fb27fb..25812a0 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1360,6 +1360,9 @@ def _flatten_trace_edges(edges: List[Edge],
   edge1 = Edge(node1=node, axis1=len(perm_front), name="TraceFront")
   edge2 = Edge(node1=node, axis1=len(perm_front) + 1, name="TraceBack")
   node.edges = node.edges[:len(perm_front)] + [edge1, edge2]
+  node.axis_names = node.axis_names[:len(perm_front)] + [
+      str(n) for n in range(len(perm_front), len(node.edges))
+  ]
   new_edge = connect(edge1, edge2, new_edge_name)
   # pylint: disable=expression-not-assigned
   [edge.disable() for edge in edges]  #disable edges!
@@ -1523,6 +1526,9 @@ def _split_trace_edge(
   node.tensor = backend.reshape(node.tensor, new_shape)
   # Trim edges and add placeholder edges for new axes.
   node.edges = node.edges[:len(perm_front)] + 2 * len(shape) * [None]
+  node.axis_names = node.axis_names[:len(perm_front)] + [
+      str(n) for n in range(len(perm_front), len(node.edges))
+  ]
   # Create new dangling edges and connect them to each other.
   new_edges = []
   for idx in range(len(shape)):
-- 
2.43.0


From a0ef44bce40d1461b9b193252d833ee431584794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:48 +0000
Subject: [PATCH 07/63] fix: connect, disconnect and contract reject edges that
 were replaced on their nodes

---
 tensornetwork/network_components.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 25812a0..d07be97 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1249,6 +1249,7 @@ class Edge:
     """
     if self.is_dangling():
       raise ValueError("Cannot break dangling edge {}.".format(self))
+    _check_attached(self)
     if not edge1_name:
       edge1_name = '__disconnected_edge1_of_{}__'.format(self.name)
     if not edge2_name:
@@ -1281,6 +1282,14 @@ class Edge:
     return edge_dict
 
 
+def _check_attached(edge: Edge) -> None:
+  """Raise a ValueError if `edge` was replaced on one of its nodes."""
+  for node, axis in [(edge.node1, edge.axis1), (edge.node2, edge.axis2)]:
+    if axis >= len(node.edges) or node.edges[axis] is not edge:
+      raise ValueError("Edge '{}' is no longer part of node '{}'.".format(
+          edge, node))
+
+
 def get_shared_edges(node1: AbstractNode, node2: AbstractNode) -> Set[Edge]:
   """Get all edges shared between two nodes.
 
@@ -1865,6 +1874,7 @@ def contract(edge: Edge,
   """
   if edge.is_dangling():
     raise ValueError("Attempting to contract dangling edge")
+  _check_attached(edge)
 
   for node in [edge.node1, edge.node2]:
     if (node is not None) and (not hasattr(node, 'backend')):
@@ -1954,7 +1964,11 @@ def connect(edge1: Edge, edge2: Edge, name: Optional[Text] = None) -> Edge:
       raise ValueError("Edge '{}' is not a dangling edge. "
                        "This edge points to nodes: '{}' and '{}'".format(
                            edge, edge.node1, edge.node2))
-  if edge1 is edge2:
+    if not edge.node1.edges[edge.axis1].is_dangling():
+      raise ValueError("Axis {} of node '{}' is already connected.".format(
+          edge.axis1, edge.node1))
+  if edge1 is edge2 or (edge1.node1 is edge2.node1 and
+                        edge1.axis1 == edge2.axis1):
     raise ValueError("Cannot connect edge '{}' to itself.".format(edge1))
 
   if edge1.dimension != edge2.dimension:
-- 
2.43.0


From a1df16b2bcd1c8c29b2d6106d4d708c3a857fb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:03 +0000
Subject: [PATCH 08/63] fix: contract_between checks output_edge_order before
 contracting

---
 tensornetwork/network_components.py | 38 ++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index d07be97..6e1950c 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -2007,6 +2007,29 @@ def disconnect(edge,
   return edge.disconnect(edge1_name, edge2_name)
 
 
+def _check_output_edge_order(output_edge_order: Sequence[Edge],
+                             node1: AbstractNode, node2: AbstractNode,
+                             shared_edges: Set[Edge]) -> None:
+  """Raise a ValueError unless `output_edge_order` lists exactly the edges that
+  remain when `node1` and `node2` are contracted over `shared_edges`."""
+  remaining = (set(node1.edges) | set(node2.edges)) - shared_edges
+  for edge in output_edge_order:
+    if edge in shared_edges:
+      raise ValueError(
+          "Edge '{}' in output_edge_order is shared by the nodes to be "
+          "contracted: '{}' and '{}'.".format(edge, node1, node2))
+    if edge not in remaining:
+      raise ValueError(
+          "Edge '{}' in output_edge_order is not connected to node '{}' or "
+          "node '{}'".format(edge, node1, node2))
+    if edge.is_trace():
+      raise ValueError("Trace edge '{}' in output_edge_order.".format(edge))
+  if len(output_edge_order) != len(remaining) or set(
+      output_edge_order) != remaining:
+    raise ValueError("output_edge_order does not contain every remaining edge "
+                     "of node '{}' and node '{}' once.".format(node1, node2))
+
+
 def contract_between(
     node1: AbstractNode,
     node2: AbstractNode,
@@ -2055,6 +2078,8 @@ def contract_between(
 
   backend = node1.backend
   shared_edges = get_shared_edges(node1, node2)
+  if output_edge_order:
+    _check_output_edge_order(output_edge_order, node1, node2, shared_edges)
   # Trace edges cannot be contracted using tensordot.
   if node1 is node2:
     flat_edge = flatten_edges_between(node1, node2)
@@ -2087,19 +2112,10 @@ def contract_between(
       node1_output_axes = []
       node2_output_axes = []
       for (i, edge) in enumerate(output_edge_order):
-        if edge in shared_edges:
-          raise ValueError(
-              "Edge '{}' in output_edge_order is shared by the nodes to be "
-              "contracted: '{}' and '{}'.".format(edge, node1, node2))
-        edge_nodes = set(edge.get_nodes())
-        if node1 in edge_nodes:
+        if node1 in edge.get_nodes():
           node1_output_axes.append(i)
-        elif node2 in edge_nodes:
-          node2_output_axes.append(i)
         else:
-          raise ValueError(
-              "Edge '{}' in output_edge_order is not connected to node '{}' or "
-              "node '{}'".format(edge, node1, node2))
+          node2_output_axes.append(i)
       if node1_output_axes and node2_output_axes and (
           np.mean(node1_output_axes) > np.mean(node2_output_axes)):
         node1, node2 = node2, node1
-- 
2.43.0


From 2f034af2e1c45cd79625d8ffb81393ecd7734010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:22 +0000
Subject: [PATCH 09/63] fix: slice, split and flatten reject edges that were
 replaced on their nodes

---
 tensornetwork/network_components.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 6e1950c..8b3e703 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1285,6 +1285,8 @@ class Edge:
 def _check_attached(edge: Edge) -> None:
   """Raise a ValueError if `edge` was replaced on one of its nodes."""
   for node, axis in [(edge.node1, edge.axis1), (edge.node2, edge.axis2)]:
+    if node is None:
+      continue
     if axis >= len(node.edges) or node.edges[axis] is not edge:
       raise ValueError("Edge '{}' is no longer part of node '{}'.".format(
           edge, node))
@@ -1414,6 +1416,8 @@ def flatten_edges(edges: List[Edge],
   backend = backends[0]
   if len(edges) == 1:
     return edges[0]  # Don't bother with reshaping.
+  for edge in edges:
+    _check_attached(edge)
   # Set equality is transitive (a=b, b=c, therefore a=c) so it is only
   # necessary to compare the first edge against the rest.
   expected_nodes = set(edges[0].get_nodes())
@@ -1585,6 +1589,7 @@ def split_edge(edge: Edge,
   # Check if possible reshape operation is trivial.
   if len(shape) == 1:
     return [edge]
+  _check_attached(edge)
 
   # Handle trace edge case separately.
   if edge.is_trace():
@@ -1674,6 +1679,7 @@ def slice_edge(edge: Edge, start_index: int, length: int) -> Edge:
   """
   if length <= 0:
     raise ValueError("Length of slice must be positive.")
+  _check_attached(edge)
   start = start_index
   if start < 0:
     # A negative `start_index` counts from the end.
-- 
2.43.0


From 38c898f65b042c817192b9b5a0951e657247ae67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:06 +0000
Subject: [PATCH 10/63] fix: auto contracts a single node like the other
 contractors

---
 .../opt_einsum_paths/path_contractors.py      | 22 -------------------
 1 file changed, 22 deletions(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index 764f2e8..1e5f9a0 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -217,30 +217,8 @@ def auto(nodes: Iterable[AbstractNode],
   """
 
   n = len(list(nodes))  #pytype thing
-  _nodes = nodes
   if n <= 0:
     raise ValueError("Cannot contract empty tensor network.")
-  if n == 1:
-    if not ignore_edge_order:
-      if output_edge_order is None:
-        output_edge_order = list(
-            (get_all_edges(_nodes) - get_all_nondangling(_nodes)))
-        if len(output_edge_order) > 1:
-          raise ValueError(
-              "The final node after contraction has more than "
-              "one dangling edge. In this case `output_edge_order` "
-              "has to be provided.")
-
-    edges = get_all_nondangling(_nodes)
-    if edges:
-      final_node = contract_parallel(edges.pop())
-    else:
-      final_node = list(_nodes)[0]
-    final_node.reorder_edges(output_edge_order)
-    if not ignore_edge_order:
-      final_node.reorder_edges(output_edge_order)
-    return final_node
-
   if n < 5:
     return optimal(nodes, output_edge_order, memory_limit, ignore_edge_order)
   if n < 7:
-- 
2.43.0


From b8590f327ae89581a19f038f2c88fe39fe015f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:06 +0000
Subject: [PATCH 11/63] fix: contract_path keeps the nodes left by contracting
 trace edges

---
 .../contractors/opt_einsum_paths/path_contractors.py        | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index 1e5f9a0..6aa3123 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -343,11 +343,7 @@ def contract_path(path: Tuple[List[Tuple[int,
   Returns:
     Final node after full contraction.
   """
-  edges = get_all_edges(nodes)
-  for edge in edges:
-    if not edge.is_disabled:  #if its disabled we already contracted it
-      if edge.is_trace():
-        contract_parallel(edge)
+  nodes = [contract_trace_edges(node) for node in nodes]
 
   if len(nodes) == 1:
     newnode = nodes[0].copy()
-- 
2.43.0


From eb1c7dc3501c5e52c6995f980fec87054a76c652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:13 +0000
Subject: [PATCH 12/63] fix: svd, qr and rq with no axes on one side of the
 pivot

---
 tensornetwork/backends/numpy/decompositions.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/backends/numpy/decompositions.py b/tensornetwork/backends/numpy/decompositions.py
index 29feb63..a601ecb 100644
--- a/tensornetwork/backends/numpy/decompositions.py
+++ b/tensornetwork/backends/numpy/decompositions.py
@@ -32,7 +32,9 @@ def svd(
   left_dims = tensor.shape[:pivot_axis]
   right_dims = tensor.shape[pivot_axis:]
 
-  tensor = np.reshape(tensor, [numpy.prod(left_dims), numpy.prod(right_dims)])
+  tensor = np.reshape(
+      tensor,
+      [int(numpy.prod(left_dims)), int(numpy.prod(right_dims))])
   u, s, vh = np.linalg.svd(tensor, full_matrices=False)
 
   if max_singular_values is None:
@@ -86,7 +88,9 @@ def qr(
   """
   left_dims = tensor.shape[:pivot_axis]
   right_dims = tensor.shape[pivot_axis:]
-  tensor = np.reshape(tensor, [numpy.prod(left_dims), numpy.prod(right_dims)])
+  tensor = np.reshape(
+      tensor,
+      [int(numpy.prod(left_dims)), int(numpy.prod(right_dims))])
   q, r = np.linalg.qr(tensor)
   if non_negative_diagonal:
     phases = np.sign(np.diagonal(r))
@@ -110,7 +114,9 @@ def rq(
   """
   left_dims = tensor.shape[:pivot_axis]
   right_dims = tensor.shape[pivot_axis:]
-  tensor = np.reshape(tensor, [numpy.prod(left_dims), numpy.prod(right_dims)])
+  tensor = np.reshape(
+      tensor,
+      [int(numpy.prod(left_dims)), int(numpy.prod(right_dims))])
   q, r = np.linalg.qr(np.conj(np.transpose(tensor)))
   if non_negative_diagonal:
     phases = np.sign(np.diagonal(r))
-- 
2.43.0


From 08477059c7b62e4a8243f3490b7273554178cdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:35 +0000
Subject: [PATCH 13/63] fix: qr and rq with non_negative_diagonal of
 rank-deficient tensors

---
 tensornetwork/backends/numpy/decompositions.py      | 4 ++++
 tensornetwork/backends/pytorch/decompositions.py    | 4 ++++
 tensornetwork/backends/tensorflow/decompositions.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/tensornetwork/backends/numpy/decompositions.py b/tensornetwork/backends/numpy/decompositions.py
index a601ecb..ea606ae 100644
--- a/tensornetwork/backends/numpy/decompositions.py
+++ b/tensornetwork/backends/numpy/decompositions.py
@@ -94,6 +94,8 @@ def qr(
   q, r = np.linalg.qr(tensor)
   if non_negative_diagonal:
     phases = np.sign(np.diagonal(r))
+    # Zeros on the diagonal must not remove rows of `r`.
+    phases = np.where(phases == 0, np.ones_like(phases), phases)
     q = q * phases
     r = phases.conj()[:, None] * r
   center_dim = q.shape[1]
@@ -120,6 +122,8 @@ def rq(
   q, r = np.linalg.qr(np.conj(np.transpose(tensor)))
   if non_negative_diagonal:
     phases = np.sign(np.diagonal(r))
+    # Zeros on the diagonal must not remove rows of `r`.
+    phases = np.where(phases == 0, np.ones_like(phases), phases)
     q = q * phases
     r = phases.conj()[:, None] * r
   r, q = np.conj(np.transpose(r)), np.conj(
diff --git a/tensornetwork/backends/pytorch/decompositions.py b/tensornetwork/backends/pytorch/decompositions.py
index 773902e..de08416 100644
--- a/tensornetwork/backends/pytorch/decompositions.py
+++ b/tensornetwork/backends/pytorch/decompositions.py
@@ -162,6 +162,8 @@ def qr(
   q, r = torch.qr(tensor)
   if non_negative_diagonal:
     phases = torch.sign(torch.diagonal(r))
+    # Zeros on the diagonal must not remove rows of `r`.
+    phases = torch.where(phases == 0, torch.ones_like(phases), phases)
     q = q * phases
     r = phases[:, None] * r
   center_dim = q.shape[1]
@@ -211,6 +213,8 @@ def rq(
   q, r = torch.qr(torch.transpose(tensor, 0, 1))
   if non_negative_diagonal:
     phases = torch.sign(torch.diagonal(r))
+    # Zeros on the diagonal must not remove rows of `r`.
+    phases = torch.where(phases == 0, torch.ones_like(phases), phases)
     q = q * phases
     r = phases[:, None] * r
   r, q = torch.transpose(r, 0, 1), torch.transpose(q, 0,
diff --git a/tensornetwork/backends/tensorflow/decompositions.py b/tensornetwork/backends/tensorflow/decompositions.py
index dcc5bba..06b48b4 100644
--- a/tensornetwork/backends/tensorflow/decompositions.py
+++ b/tensornetwork/backends/tensorflow/decompositions.py
@@ -168,6 +168,8 @@ def qr(
   q, r = tf.linalg.qr(tensor)
   if non_negative_diagonal:
     phases = tf.math.sign(tf.linalg.diag_part(r))
+    # Zeros on the diagonal must not remove rows of `r`.
+    phases = tf.where(phases == 0, tf.ones_like(phases), phases)
     q = q * phases
     r = phases[:, None] * r
   center_dim = tf.shape(q)[1]
@@ -218,6 +220,8 @@ def rq(
   q, r = tf.linalg.qr(tf.math.conj(tf.transpose(tensor)))
   if non_negative_diagonal:
     phases = tf.math.sign(tf.linalg.diag_part(r))
+    # Zeros on the diagonal must not remove rows of `r`.
+    phases = tf.where(phases == 0, tf.ones_like(phases), phases)
     q = q * phases
     r = phases[:, None] * r
   r, q = tf.math.conj(tf.transpose(r)), tf.math.conj(
-- 
2.43.0


From 8855dcbc5dc6a8faf4f21079c6cddc5693e9715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:41 +0000
Subject: [PATCH 14/63] fix: copy, replicate_nodes and reduced_density accept
 iterators

---
 tensornetwork/network_operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index 9817511..552b4d3 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -49,6 +49,7 @@ def copy(nodes: Iterable[AbstractNode],
       edge_dict:
         A dictionary mapping the edges to their copies.
   """
+  nodes = list(nodes)
   node_dict = {}
   for node in nodes:
     node_dict[node] = node.copy(conjugate)
@@ -99,6 +100,7 @@ def replicate_nodes(nodes: Iterable[AbstractNode],
   Returns:
     A list containing the copies of the nodes.
   """
+  nodes = list(nodes)
   new_nodes, _ = copy(nodes, conjugate=conjugate)
   return [new_nodes[node] for node in nodes]
 
@@ -776,6 +778,7 @@ def reduced_density(traced_out_edges: Iterable[Edge]) -> Tuple[dict, dict]:
         conjugate copies.
   """
 
+  traced_out_edges = list(traced_out_edges)
   if list(filter(lambda x: not x.is_dangling(), traced_out_edges)):
     raise ValueError("traced_out_edges must only include dangling edges!")
 
-- 
2.43.0


From d968efca4061673f034e937cad69fa6be4e7aff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:41 +0000
Subject: [PATCH 15/63] fix: copy maps trace edges to the edges of the copied
 nodes

---
 tensornetwork/network_operations.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index 552b4d3..8a50f54 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -73,11 +73,15 @@ def copy(nodes: Iterable[AbstractNode],
       edge_dict[edge] = new_edge
       continue
 
+    # trace edges were copied with their node
+    if edge.is_trace():
+      edge_dict[edge] = node_dict[node1].edges[axis1]
+      continue
+
     # both nodes should be copied
     new_edge = Edge(node_dict[node1], axis1, edge.name, node_dict[node2], axis2)
-    if not edge.is_trace():
-      node_dict[node2].add_edge(new_edge, axis2)
-      node_dict[node1].add_edge(new_edge, axis1)
+    node_dict[node2].add_edge(new_edge, axis2)
+    node_dict[node1].add_edge(new_edge, axis1)
 
     edge_dict[edge] = new_edge
 
-- 
2.43.0


From 0a29dba0a58a4f10c8cea751631487fca4e49931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:03 +0000
Subject: [PATCH 16/63] fix: copying a CopyNode with a trace edge connected in
 reverse order

---
 tensornetwork/network_components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 8b3e703..a69f09b 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -814,11 +814,11 @@ class CopyNode(AbstractNode):
       visited_edges.add(edge)
       if edge.node1 == edge.node2:
         new_edge = Edge(new_node,
-                        i,
+                        edge.axis1,
                         name=edge.name,
                         node2=new_node,
                         axis2=edge.axis2)
-        new_node.add_edge(new_edge, i)
+        new_node.add_edge(new_edge, edge.axis1)
         new_node.add_edge(new_edge, edge.axis2)
       else:
         new_node.add_edge(Edge(new_node, i, name=edge.name), i)
-- 
2.43.0


From 011e913f3334706a5da43dcf7bb99b4d9fd8a43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:48 +0000
Subject: [PATCH 17/63] fix: position does not normalise the user's arrays in
 place

---
 tensornetwork/matrixproductstates/base_mps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index c8500cb..62f7b59 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -169,7 +169,9 @@ class BaseMPS:
     if site == self.center_position:
       Z = self.norm(self.tensors[self.center_position])
       if normalize:
-        self.tensors[self.center_position] /= Z
+        # not in place: the array may belong to the user
+        self.tensors[self.center_position] = (
+            self.tensors[self.center_position] / Z)
       return Z
 
     #shift center_position to the right using QR or SV decomposition
-- 
2.43.0


From 05a59942aa57af2d3cc52c90724e7c0202c8b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:38 +0000
Subject: [PATCH 18/63] fix: apply_two_site_gate without truncation puts the
 centre where it records it

---
 tensornetwork/matrixproductstates/base_mps.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 62f7b59..ac8cd87 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -583,14 +583,14 @@ class BaseMPS:
     else:
       tw = self.backend.zeros(1, dtype=self.dtype)
       if center_position == site2:
-        R, Q = self.backend.rq(tensor, pivot_axis=2)
-        left_tensor = R
-        right_tensor = Q
-        set_center_position(site2)
-      else:
         Q, R = self.backend.qr(tensor, pivot_axis=2)
         left_tensor = Q
         right_tensor = R
+        set_center_position(site2)
+      else:
+        R, Q = self.backend.rq(tensor, pivot_axis=2)
+        left_tensor = R
+        right_tensor = Q
         set_center_position(site1)
 
     self.tensors[site1] = left_tensor
-- 
2.43.0


From 95ac30a45a30458580aa7c051c3109ec25327080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:49 +0000
Subject: [PATCH 19/63] fix: measure_two_body_correlator returns the values in
 the order of sites2

---
 tensornetwork/matrixproductstates/base_mps.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index ac8cd87..22dd66b 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -365,7 +365,7 @@ class BaseMPS:
     ls = self.left_envs(
         np.append(np.mod(left_sites, N), site1).astype(np.int64))
 
-    c = []
+    c = {}
     if len(left_sites) > 0:
 
       A = Node(self.tensors[site1], backend=self.backend)
@@ -406,14 +406,12 @@ class BaseMPS:
           R[1] ^ conj_A[2]
 
           res = (((L @ A) @ O2) @ conj_A) @ R
-          c.append(res.tensor)
+          c[n] = res.tensor
         if n > n1:
           R = Node(
               self.apply_transfer_operator(n % N, 'right', R.tensor),
               backend=self.backend)
 
-      c = list(reversed(c))
-
     # compute <op2(site1)op1(site1)>
     if site1 in sites2:
       O1 = Node(op1, backend=self.backend)
@@ -432,7 +430,7 @@ class BaseMPS:
       conj_A[1] ^ O1[0]
       O = O1 @ O2
       res = (((L @ A) @ O) @ conj_A) @ R
-      c.append(res.tensor)
+      c[site1] = res.tensor
 
     # compute <op1(site1) op2(site2)> for site1 < site2
     if len(right_sites) > 0:
@@ -472,13 +470,14 @@ class BaseMPS:
           R[0] ^ A[2]
           R[1] ^ conj_A[2]
           res = L @ A @ O2 @ conj_A @ R
-          c.append(res.tensor)
+          c[n] = res.tensor
 
         if n < n2:
           L = Node(
               self.apply_transfer_operator(n % N, 'left', L.tensor),
               backend=self.backend)
-    return [self.backend.item(o) for o in c]
+    # one value for each element of `sites2`, in the given order
+    return [self.backend.item(c[s]) for s in sites2.tolist()]
 
   def apply_two_site_gate(self,
                           gate: Tensor,
-- 
2.43.0


From f5e5de2376eb1ef55e76b67eb8cf4875e49f850c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:24 +0000
Subject: [PATCH 20/63] fix: compute_energy works on backends whose tensors
 have no item method

---
 tensornetwork/matrixproductstates/dmrg.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/matrixproductstates/dmrg.py b/tensornetwork/matrixproductstates/dmrg.py
index 647e333..479008e 100644
--- a/tensornetwork/matrixproductstates/dmrg.py
+++ b/tensornetwork/matrixproductstates/dmrg.py
@@ -561,12 +561,13 @@ class BaseDMRG:
   def compute_energy(self):
     self.mps.position(0)  #move center position to the left end
     self.compute_right_envs()
-    return ncon([
-        self.add_right_layer(self.right_envs[0], self.mps.tensors[0],
-                             self.mpo.tensors[0]),
-        self.left_envs[0],
-    ], [[1, 2, 3], [1, 2, 3]],
-                backend=self.backend.name).item()
+    return self.backend.item(
+        ncon([
+            self.add_right_layer(self.right_envs[0], self.mps.tensors[0],
+                                 self.mpo.tensors[0]),
+            self.left_envs[0],
+        ], [[1, 2, 3], [1, 2, 3]],
+             backend=self.backend.name))
 
 
 class FiniteDMRG(BaseDMRG):
-- 
2.43.0


From 95468911d58a1e54f1ef13d9aeac5965f7ab2d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:29 +0000
Subject: [PATCH 21/63] fix: NumPy tensordot over all axes with negative axes
 or scalars

---
 tensornetwork/backends/numpy/numpy_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 2d37539..0ce90e7 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -39,6 +39,9 @@ class NumPyBackend(abstract_backend.AbstractBackend):
       if (len(axes[0]) == a.ndim) and (len(axes[1]) == b.ndim):
         if not len(axes[0]) == len(axes[1]):
           raise ValueError("shape-mismatch for sum")
+        if a.ndim == 0 or a.ndim > len(int_to_string):
+          return np.tensordot(a, b, axes)
+        axes = [[ax + a.ndim if ax < 0 else ax for ax in axs] for axs in axes]
         u, pos1, _ = np.intersect1d(axes[0],
                                     axes[1],
                                     return_indices=True,
-- 
2.43.0


From f5b36c3ab7a9a9baa57d18226c7c02890ac207d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:29 +0000
Subject: [PATCH 22/63] fix: NumPy backend sum without axis

---
 tensornetwork/backends/numpy/numpy_backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 0ce90e7..bfa5c4b 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -607,7 +607,8 @@ class NumPyBackend(abstract_backend.AbstractBackend):
           tensor: Tensor,
           axis: Optional[Sequence[int]] = None,
           keepdims: bool = False) -> Tensor:
-    return np.sum(tensor, axis=tuple(axis), keepdims=keepdims)
+    axis = tuple(axis) if axis is not None else None
+    return np.sum(tensor, axis=axis, keepdims=keepdims)
 
   def matmul(self, tensor1: Tensor, tensor2: Tensor) -> Tensor:
     if (tensor1.ndim <= 1) or (tensor2.ndim <= 1):
-- 
2.43.0


From 8399c5653538d00e871dc935eee5878f456547c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:29 +0000
Subject: [PATCH 23/63] fix: JAX index_update without the removed jax.ops

---
 tensornetwork/backends/jax/jax_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/jax/jax_backend.py b/tensornetwork/backends/jax/jax_backend.py
index 447cb56..c7c48a2 100644
--- a/tensornetwork/backends/jax/jax_backend.py
+++ b/tensornetwork/backends/jax/jax_backend.py
@@ -725,7 +725,7 @@ class JaxBackend(abstract_backend.AbstractBackend):
 
   def index_update(self, tensor: Tensor, mask: Tensor,
                    assignee: Tensor) -> Tensor:
-    return libjax.ops.index_update(tensor, mask, assignee)
+    return jnp.where(mask, assignee, tensor)
 
   def inv(self, matrix: Tensor) -> Tensor:
     if len(matrix.shape) > 2:
-- 
2.43.0


From 4f302b9cf67b3095f1fadbee9be72991ead437cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:29 +0000
Subject: [PATCH 24/63] fix: TensorFlow diagflat flattens its argument

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index d0d2463..446aa89 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -312,7 +312,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
       tensor: A new tensor with all zeros save the specified diagonal.
     """
     #pylint: disable=unexpected-keyword-arg
-    return tf.linalg.diag(tensor, k=k)
+    return tf.linalg.diag(tf.reshape(tensor, [-1]), k=k)
 
   def trace(self, tensor: Tensor, offset: int = 0, axis1: int = -2,
             axis2: int = -1) -> Tensor:
-- 
2.43.0


From 68eddcc89bc4e90fcc6e71e109ef50ad65c10f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:29 +0000
Subject: [PATCH 25/63] fix: TensorFlow item of one-element tensors of any rank

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index 446aa89..58b00e4 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -394,7 +394,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
                          f"got {tensor.shape}")
 
     if numel == 1:
-      return tensor[0]
+      return tf.reshape(tensor, [])
     return tensor
 
   def power(self, a: Tensor, b: Union[Tensor, float]) -> Tensor:
-- 
2.43.0


From 7c60624b54012dd82feed38f230b66f9c90d3a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:39 +0000
Subject: [PATCH 26/63] fix: save_nodes accepts any iterable of nodes

---
 tensornetwork/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/utils.py b/tensornetwork/utils.py
index b91dd8c..f190cc8 100644
--- a/tensornetwork/utils.py
+++ b/tensornetwork/utils.py
@@ -33,16 +33,16 @@ def save_nodes(nodes: List[AbstractNode], path: Union[str, BinaryIO]) -> None:
       `nodes`.
     path: path to file where network is saved.
   """
+  #we need to iterate several times and order matters
+  nodes = list(nodes)
   if reachable(nodes) > set(nodes):
     raise ValueError(
         "Some nodes in `nodes` are connected to nodes not contained in `nodes`."
         " Saving not possible.")
-  if len(set(nodes)) < len(list(nodes)):
+  if len(set(nodes)) < len(nodes):
     raise ValueError(
         'Some nodes in `nodes` appear more than once. This is not supported')
-  #we need to iterate twice and order matters
   edges = list(get_all_edges(nodes))
-  nodes = list(nodes)
 
   old_edge_names = {n: edge.name for n, edge in enumerate(edges)}
   old_node_names = {n: node.name for n, node in enumerate(nodes)}
-- 
2.43.0


From 1204be29e5028b1ff4ff377a458d257aeafc5a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:39 +0000
Subject: [PATCH 27/63] fix: save_nodes restores the names of edges, and all
 names when writing fails

---
 tensornetwork/utils.py | 72 ++++++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 35 deletions(-)

diff --git a/tensornetwork/utils.py b/tensornetwork/utils.py
index f190cc8..c81af06 100644
--- a/tensornetwork/utils.py
+++ b/tensornetwork/utils.py
@@ -49,42 +49,44 @@ def save_nodes(nodes: List[AbstractNode], path: Union[str, BinaryIO]) -> None:
 
   #generate unique names for nodes and edges
   #for saving them
-  for n, node in enumerate(nodes):
-    node.set_name('node{}'.format(n))
-
-  for e, edge in enumerate(edges):
-    edge.set_name('edge{}'.format(e))
-
-  with h5py.File(path, 'w') as net_file:
-    nodes_group = net_file.create_group('nodes')
-    node_names_group = net_file.create_group('node_names')
-    node_names_group.create_dataset(
-        'names',
-        dtype=string_type,
-        data=np.array(list(old_node_names.values()), dtype=object))
-
-    edges_group = net_file.create_group('edges')
-    edge_names_group = net_file.create_group('edge_names')
-    edge_names_group.create_dataset(
-        'names',
-        dtype=string_type,
-        data=np.array(list(old_edge_names.values()), dtype=object))
-
+  try:
+    for n, node in enumerate(nodes):
+      node.set_name('node{}'.format(n))
+
+    for e, edge in enumerate(edges):
+      edge.set_name('edge{}'.format(e))
+
+    with h5py.File(path, 'w') as net_file:
+      nodes_group = net_file.create_group('nodes')
+      node_names_group = net_file.create_group('node_names')
+      node_names_group.create_dataset(
+          'names',
+          dtype=string_type,
+          data=np.array(list(old_node_names.values()), dtype=object))
+
+      edges_group = net_file.create_group('edges')
+      edge_names_group = net_file.create_group('edge_names')
+      edge_names_group.create_dataset(
+          'names',
+          dtype=string_type,
+          data=np.array(list(old_edge_names.values()), dtype=object))
+
+      unsaved_edges = set(edges)
+      for node in nodes:
+        node_group = nodes_group.create_group(node.name)
+        node._save_node(node_group)
+        for edge in node.edges:
+          if edge.node1 == node and edge in unsaved_edges:
+            edge_group = edges_group.create_group(edge.name)
+            edge._save_edge(edge_group)
+            unsaved_edges.remove(edge)
+  finally:
+    #name edges and nodes back  to their original names
     for n, node in enumerate(nodes):
-      node_group = nodes_group.create_group(node.name)
-      node._save_node(node_group)
-      for edge in node.edges:
-        if edge.node1 == node and edge in edges:
-          edge_group = edges_group.create_group(edge.name)
-          edge._save_edge(edge_group)
-          edges.remove(edge)
-
-  #name edges and nodes back  to their original names
-  for n, node in enumerate(nodes):
-    nodes[n].set_name(old_node_names[n])
-
-  for n, edge in enumerate(edges):
-    edges[n].set_name(old_edge_names[n])
+      node.set_name(old_node_names[n])
+
+    for n, edge in enumerate(edges):
+      edge.set_name(old_edge_names[n])
 
 
 def load_nodes(path: str) -> List[AbstractNode]:
-- 
2.43.0


From c6f83cbac790226ec2a0c3937b27d65e3dcad11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:39 +0000
Subject: [PATCH 28/63] fix: load_nodes keeps the order in which the nodes were
 saved

---
 tensornetwork/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/utils.py b/tensornetwork/utils.py
index c81af06..abb19ac 100644
--- a/tensornetwork/utils.py
+++ b/tensornetwork/utils.py
@@ -100,7 +100,8 @@ def load_nodes(path: str) -> List[AbstractNode]:
   nodes_list = []
   edges_list = []
   with h5py.File(path, 'r') as net_file:
-    nodes = list(net_file["nodes"].keys())
+    #groups are listed alphabetically; restore the order of saving
+    nodes = ['node{}'.format(n) for n in range(len(net_file["nodes"]))]
     node_names = {
         'node{}'.format(n): v for n, v in enumerate(
             net_file["node_names"]['names'].asstr(STRING_ENCODING)[()])#pylint: disable=no-member
-- 
2.43.0


From de3d198b70540cf8946fb5169b36d05e10a07e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:39 +0000
Subject: [PATCH 29/63] fix: load_nodes restores nodes without axes

---
 tensornetwork/network_components.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index a69f09b..7b1ad6e 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -464,7 +464,11 @@ class AbstractNode(ABC):
     name = node_data['name'].asstr(STRING_ENCODING)[()]
     backend = node_data['backend'].asstr(STRING_ENCODING)[()]
     shape = node_data['shape'][()]
-    axis_names = node_data['axis_names'].asstr(STRING_ENCODING)[()]
+    if h5py.check_string_dtype(node_data['axis_names'].dtype) is None:
+      # nodes without axis names are saved with a placeholder
+      axis_names = [str(i) for i in range(len(shape))]
+    else:
+      axis_names = node_data['axis_names'].asstr(STRING_ENCODING)[()]
     return name, shape, axis_names, backend
 
   @abstractmethod
-- 
2.43.0


From 274430ccaba75ca6dcaf118f0cda732c0d69ab7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:39 +0000
Subject: [PATCH 30/63] fix: nodes_from_json attaches dangling edges to their
 node

---
 tensornetwork/network_operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index 8a50f54..2c50230 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -974,6 +974,9 @@ def nodes_from_json(json_str: str) -> Tuple[List[AbstractNode],
   for e in network_dict['edges']:
     e_nodes = [node_ids.get(n_id) for n_id in e['node_ids']]
     axes = e['attributes']['axes']
+    if e_nodes[0] is None:
+      # the edge is dangling: its only node has to come first
+      e_nodes, axes = e_nodes[::-1], axes[::-1]
     edge = Edge(node1=e_nodes[0],
                 axis1=axes[0],
                 node2=e_nodes[1],
-- 
2.43.0


From c85c4f47854b045dc9287cf4aae9798892c50b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:47 +0000
Subject: [PATCH 31/63] fix: kron rejects Tensors of different backends

---
 tensornetwork/linalg/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/linalg/operations.py b/tensornetwork/linalg/operations.py
index d8c484f..139323f 100644
--- a/tensornetwork/linalg/operations.py
+++ b/tensornetwork/linalg/operations.py
@@ -322,7 +322,7 @@ def kron(tensorA: Tensor, tensorB: Tensor) -> Tensor:
     ValueError: - If backends, are not matching.
                 - If ndims of the input tensors are not even.
   """
-  tensors = [tensorA, tensorA]
+  tensors = [tensorA, tensorB]
   all_backends_same, errstr = _check_backends(tensors, "kron")
   if not all_backends_same:
     raise ValueError(errstr)
-- 
2.43.0


From 7f62b6d523047070b826b0b2d2a595c1a77a2d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:47 +0000
Subject: [PATCH 32/63] fix: node initialization works with the default backend

---
 tensornetwork/linalg/node_linalg.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/linalg/node_linalg.py b/tensornetwork/linalg/node_linalg.py
index 67e414c..3a3527a 100644
--- a/tensornetwork/linalg/node_linalg.py
+++ b/tensornetwork/linalg/node_linalg.py
@@ -55,9 +55,8 @@ def initialize_node(fname: Text,
           axis of data.
   """
   if backend is None:
-    backend_obj = backend_contextmanager.get_default_backend()
-  else:
-    backend_obj = backends.backend_factory.get_backend(backend)
+    backend = backend_contextmanager.get_default_backend()
+  backend_obj = backends.backend_factory.get_backend(backend)
   func = getattr(backend_obj, fname)
   data = func(*fargs, **fkwargs)
   node = Node(data, name=name, axis_names=axis_names, backend=backend)
-- 
2.43.0


From c4ab702c273afcd50e4fa367c24bc1eb06237549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:47 +0000
Subject: [PATCH 33/63] fix: node_linalg.transpose uses the axis names it is
 given

---
 tensornetwork/linalg/node_linalg.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/linalg/node_linalg.py b/tensornetwork/linalg/node_linalg.py
index 3a3527a..a662f95 100644
--- a/tensornetwork/linalg/node_linalg.py
+++ b/tensornetwork/linalg/node_linalg.py
@@ -285,12 +285,12 @@ def transpose(node: AbstractNode,
         node, type(node)))
 
   perm = [node.get_axis_number(p) for p in permutation]
-  if not axis_names:
-    axis_names = node.axis_names
-
   new_node = Node(
       node.tensor, name=name, axis_names=node.axis_names, backend=node.backend)
-  return new_node.reorder_axes(perm)
+  new_node.reorder_axes(perm)
+  if axis_names:
+    new_node.add_axis_names(axis_names)
+  return new_node
 
 
 def kron(nodes: Sequence[AbstractNode]) -> AbstractNode:
-- 
2.43.0


From ab34f1331ffe43d92c6a245190feed6f87afbca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:47 +0000
Subject: [PATCH 34/63] fix: ones_like and zeros_like of arrays

---
 tensornetwork/linalg/initialization.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/linalg/initialization.py b/tensornetwork/linalg/initialization.py
index a0e4340..8359a24 100644
--- a/tensornetwork/linalg/initialization.py
+++ b/tensornetwork/linalg/initialization.py
@@ -116,8 +116,7 @@ def ones_like(tensor: Union[Any],
      backend(optional): The backend or its name."""
   if backend is None:
     backend = backend_contextmanager.get_default_backend()
-  else:
-    backend = backend_contextmanager.backend_factory.get_backend(backend)
+  backend = backends.backend_factory.get_backend(backend)
   if isinstance(tensor, Tensor):
     the_tensor = initialize_tensor("ones", tensor.shape,
                                    backend=tensor.backend, dtype=tensor.dtype)
@@ -128,7 +127,7 @@ def ones_like(tensor: Union[Any],
       error = "Input to zeros_like has invalid type causing " \
               "error massage: \n" + str(e)
       raise TypeError(error) from e
-    the_tensor = initialize_tensor("ones", tensor.get_shape().as_list(),
+    the_tensor = initialize_tensor("ones", backend.shape_tuple(tensor),
                                    backend=backend, dtype=dtype)
   return the_tensor
 
@@ -144,8 +143,7 @@ def zeros_like(tensor: Union[Any],
      backend(optional): The backend or its name."""
   if backend is None:
     backend = backend_contextmanager.get_default_backend()
-  else:
-    backend = backend_contextmanager.backend_factory.get_backend(backend)
+  backend = backends.backend_factory.get_backend(backend)
   if isinstance(tensor, Tensor):
     the_tensor = initialize_tensor("zeros", tensor.shape,
                                    backend=tensor.backend, dtype=tensor.dtype)
@@ -156,7 +154,7 @@ def zeros_like(tensor: Union[Any],
       error = "Input to zeros_like has invalid " \
                     "type causing error massage: \n" + str(e)
       raise TypeError(error) from e
-    the_tensor = initialize_tensor("zeros", tensor.shape,
+    the_tensor = initialize_tensor("zeros", backend.shape_tuple(tensor),
                                    backend=backend, dtype=dtype)
   return the_tensor
 
-- 
2.43.0


From ed25c4d653dcbf2ddcc228643ab628fa66fc459d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:58 +0000
Subject: [PATCH 35/63] fix: size of Tensors without axes is an integer

---
 tensornetwork/tensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/tensor.py b/tensornetwork/tensor.py
index 7c39448..1cff4e4 100644
--- a/tensornetwork/tensor.py
+++ b/tensornetwork/tensor.py
@@ -32,7 +32,8 @@ class Tensor():
     self.backend = backend_obj
     self.array = self.backend.convert_to_tensor(array)
     self.shape = array.shape
-    self.size = np.prod(self.shape)
+    # np.prod of no dimensions is a float, which is not a valid dimension.
+    self.size = int(np.prod(self.shape))
     self.ndim = len(self.shape)
 
   @property
-- 
2.43.0


From 983c27d6373a8332d3ab83bd5d02411e09d9b3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:49 +0000
Subject: [PATCH 36/63] fix: chains of identities are eliminated completely

---
 tensornetwork/quantum/quantum.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tensornetwork/quantum/quantum.py b/tensornetwork/quantum/quantum.py
index 1dc7981..d7f9434 100644
--- a/tensornetwork/quantum/quantum.py
+++ b/tensornetwork/quantum/quantum.py
@@ -140,6 +140,13 @@ def eliminate_identities(nodes: Collection[AbstractNode]) -> Tuple[dict, dict]:
         dangling_edges_dict[e] = e
       nodes_dict[n] = n
 
+  # The edge that replaced a dangling edge may have been replaced itself if it
+  # belonged to another identity.
+  for old_edge, new_edge in dangling_edges_dict.items():
+    while dangling_edges_dict.get(new_edge, new_edge) is not new_edge:
+      new_edge = dangling_edges_dict[new_edge]
+    dangling_edges_dict[old_edge] = new_edge
+
   return nodes_dict, dangling_edges_dict
 
 
-- 
2.43.0


From 87b643555b3554506336ab7f39ab22c4bd6cc4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:14 +0000
Subject: [PATCH 37/63] fix: unique charges of arrays with a single entry are
 one-dimensional

---
 tensornetwork/block_sparse/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/block_sparse/utils.py b/tensornetwork/block_sparse/utils.py
index b1caad7..f100d06 100644
--- a/tensornetwork/block_sparse/utils.py
+++ b/tensornetwork/block_sparse/utils.py
@@ -205,7 +205,7 @@ def collapse(array: np.ndarray) -> np.ndarray:
         np.concatenate(
             [array, np.zeros((array.shape[0], width), dtype=array.dtype)],
             axis=1).view(newdtype))
-  return np.squeeze(tmparray)
+  return np.ravel(tmparray)
 
 
 def expand(array: np.ndarray, original_dtype: Type[np.number],
@@ -226,7 +226,7 @@ def expand(array: np.ndarray, original_dtype: Type[np.number],
   """
   if original_ndim <= 1:
     #nothing to expand
-    return np.squeeze(array)
+    return np.ravel(array)
   if array.ndim == 1:
     #the array has been collapsed
     #now we uncollapse it
-- 
2.43.0


From 31399a0e4276b3fe9f2b67be9e1c518b20f78a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:04 +0000
Subject: [PATCH 38/63] fix: negative axes in tensordot of block-sparse tensors

---
 tensornetwork/block_sparse/blocksparsetensor.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 771aa1b..d17b51b 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -946,8 +946,9 @@ def tensordot(
     if len(axes) > 1:
       raise ValueError("invalid input `axes = {}` to tensordot".format(axes))
     axes = [np.array(axes, dtype=np.int16), np.array(axes, dtype=np.int16)]
-  axes1 = axes[0]
-  axes2 = axes[1]
+  #negative axes count from the end
+  axes1 = [a + tensor1.ndim if a < 0 else a for a in axes[0]]
+  axes2 = [a + tensor2.ndim if a < 0 else a for a in axes[1]]
 
   if len(axes1) != len(axes2):
     raise ValueError(
@@ -969,12 +970,12 @@ def tensordot(
     return outerproduct(tensor1, tensor2)
 
   #more checks
-  if max(axes1) >= len(tensor1.shape):
+  if min(axes1) < 0 or max(axes1) >= len(tensor1.shape):
     raise ValueError(
         "rank of `tensor1` is smaller than `max(axes1) = {}.`".format(
             max(axes1)))
 
-  if max(axes2) >= len(tensor2.shape):
+  if min(axes2) < 0 or max(axes2) >= len(tensor2.shape):
     raise ValueError(
         "rank of `tensor2` is smaller than `max(axes2) = {}`".format(
             max(axes1)))
-- 
2.43.0


From b29491c9db05ba575fcd29483e9c02fed73bc8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:04 +0000
Subject: [PATCH 39/63] fix: dtype of the outer product of block-sparse tensors

---
 tensornetwork/block_sparse/blocksparsetensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index d17b51b..c1d2904 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -903,7 +903,8 @@ def outerproduct(tensor1: BlockSparseTensor,
   order2 = [list(np.asarray(s) + len(tensor1._charges)) for s in tensor2._order]
 
   data = np.zeros(
-      compute_num_nonzero(final_charges, final_flows), dtype=tensor1.dtype)
+      compute_num_nonzero(final_charges, final_flows),
+      dtype=np.result_type(tensor1.dtype, tensor2.dtype))
   if ((len(tensor1.data) > 0) and (len(tensor2.data) > 0)) and (len(data) > 0):
     # find the location of the zero block in the output
     final_block_maps, final_block_charges, _ = _find_diagonal_sparse_blocks(
-- 
2.43.0


From 07ae80222413061b21b10cbbd2ebf13c89b6f666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:25 +0000
Subject: [PATCH 40/63] fix: outer product of block-sparse scalars

---
 tensornetwork/block_sparse/blocksparsetensor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index c1d2904..e397d1a 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -900,6 +900,14 @@ def outerproduct(tensor1: BlockSparseTensor,
 
   final_charges = tensor1._charges + tensor2._charges
   final_flows = list(tensor1._flows) + list(tensor2._flows)
+  if len(final_charges) == 0:
+    #both tensors are scalars
+    return BlockSparseTensor(
+        np.multiply(tensor1.data, tensor2.data),
+        charges=[],
+        flows=[],
+        order=[],
+        check_consistency=False)
   order2 = [list(np.asarray(s) + len(tensor1._charges)) for s in tensor2._order]
 
   data = np.zeros(
-- 
2.43.0


From a9928240063e6f65cbad2885f50db876e56ce585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:25 +0000
Subject: [PATCH 41/63] fix: order of elementary legs in the trace over fused
 legs

---
 tensornetwork/block_sparse/linalg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index da2bf6d..7469b93 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -626,8 +626,9 @@ def trace(tensor: BlockSparseTensor,
     _, _, labels1 = np.intersect1d(
         tensor._order[axes[1]], flatten(out._order), return_indices=True)
 
-    a0 = list(labels0[np.argsort(tensor._order[axes[0]])])
-    a1 = list(labels1[np.argsort(tensor._order[axes[1]])])
+    #`labels0` and `labels1` belong to the sorted elementary legs
+    a0 = list(labels0[np.argsort(np.argsort(tensor._order[axes[0]]))])
+    a1 = list(labels1[np.argsort(np.argsort(tensor._order[axes[1]]))])
 
     while len(a0) > 0:
       i = a0.pop(0)
-- 
2.43.0


From 92859e8481acd5b67be1bd33ba64ec159e08701c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:25 +0000
Subject: [PATCH 42/63] fix: diagonal matrix of a vector with several
 elementary legs

---
 tensornetwork/block_sparse/linalg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index 7469b93..def72ae 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -79,7 +79,7 @@ def diag(tensor: ChargeArray) -> Any:
         tensor._order[0],
         list(np.asarray(tensor._order[0]) + len(tensor._charges))
     ]
-    new_charges = [tensor._charges[0].copy(), tensor._charges[0].copy()]
+    new_charges = [c.copy() for c in tensor._charges + tensor._charges]
     return BlockSparseTensor(
         data,
         charges=new_charges,
-- 
2.43.0


From e453006669acb978feb52864445ddb9c289a628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:25 +0000
Subject: [PATCH 43/63] fix: compare charges and indices by their charges

---
 tensornetwork/block_sparse/charge.py | 25 ++-----------------------
 tensornetwork/block_sparse/index.py  |  7 ++-----
 2 files changed, 4 insertions(+), 28 deletions(-)

diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index 237b30d..07690e3 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -646,28 +646,7 @@ def charge_equal(c1: BaseCharge, c2: BaseCharge) -> bool:
   Compare two BaseCharges `c1` and `c2`.
   Return `True` if they are equal, else `False`.
   """
-  res = True
   if c1.dim != c2.dim:
     return False
-
-  res = True      
-  if c1._unique_charges is not None and c2._unique_charges is not None:
-    if c1._unique_charges.shape != c2._unique_charges.shape:
-      res = False
-    elif not np.all(c1._unique_charges == c2._unique_charges):
-      res = False
-    elif not np.all(c1.charge_labels == c2.charge_labels):
-      res = False
-    return res
-
-  if c1._charges is not None and c2._charges is not None:
-    if c1._charges.shape != c2._charges.shape:
-      res = False
-    elif not np.all(c1._charges == c2._charges):
-      res = False
-    return res
-  if c1.charges.shape != c2.charges.shape:
-    res = False
-  elif not np.all(c1.charges == c2.charges):
-    res = False
-  return res
+  # the same charges can have different internal representations
+  return np.array_equal(c1.charges, c2.charges)
diff --git a/tensornetwork/block_sparse/index.py b/tensornetwork/block_sparse/index.py
index 6d0aa68..47c9245 100644
--- a/tensornetwork/block_sparse/index.py
+++ b/tensornetwork/block_sparse/index.py
@@ -55,11 +55,8 @@ class Index:
     if len(other._charges) != len(self._charges):
       return False
     for n in range(len(self._charges)):
-      if not np.array_equal(self._charges[n].unique_charges,
-                            other._charges[n].unique_charges):
-        return False
-      if not np.array_equal(self._charges[n].charge_labels,
-                            other._charges[n].charge_labels):
+      if not np.array_equal(self._charges[n].charges,
+                            other._charges[n].charges):
         return False
     if not np.all(np.asarray(self.flow) == np.asarray(other.flow)):
       return False
-- 
2.43.0


From 53ea755dddf5e91b2cb265aa1a580fd3ca5c753a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:25 +0000
Subject: [PATCH 44/63] fix: flows of the hermitian conjugate of block-sparse
 matrices

---
 tensornetwork/block_sparse/blocksparsetensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index e397d1a..fe92011 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -388,7 +388,7 @@ class ChargeArray:
     tensor.__init__(
         data=np.conj(self.data),
         charges=self._charges,
-        flows=self._flows,
+        flows=np.logical_not(self._flows),
         order=order,
         check_consistency=False)
 
-- 
2.43.0


From f2e111f5f31702e2b60e03548a43929979e114f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:25 +0000
Subject: [PATCH 45/63] fix: conversion of scalars to symmetric tensors

---
 tensornetwork/backends/symmetric/symmetric_backend.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index 8cedc6d..f94a436 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -101,7 +101,11 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
   def convert_to_tensor(self, tensor: Tensor) -> Tensor:
     if numpy.isscalar(tensor):
       tensor = BlockSparseTensor(
-          data=tensor, charges=[], flows=[], order=[], check_consistency=False)
+          data=numpy.asarray(tensor),
+          charges=[],
+          flows=[],
+          order=[],
+          check_consistency=False)
 
     if not isinstance(tensor, ChargeArray):
       raise TypeError(
-- 
2.43.0


From 8df9684eda606582a9704868c145ea041f1c9e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:02 +0000
Subject: [PATCH 46/63] fix: symmetric decompositions of tensors with legs of
 dimension one

---
 .../backends/symmetric/decompositions.py      | 68 ++++++++++++-------
 1 file changed, 44 insertions(+), 24 deletions(-)

diff --git a/tensornetwork/backends/symmetric/decompositions.py b/tensornetwork/backends/symmetric/decompositions.py
index 3bd437a..81b617e 100644
--- a/tensornetwork/backends/symmetric/decompositions.py
+++ b/tensornetwork/backends/symmetric/decompositions.py
@@ -14,7 +14,7 @@
 """Tensor Decomposition Implementations."""
 import numpy as np
 import warnings
-from typing import Optional, Any, Tuple
+from typing import Optional, Any, Tuple, List
 from tensornetwork.block_sparse.blocksparse_utils import (
     _find_transposed_diagonal_sparse_blocks)
 from tensornetwork.block_sparse.utils import get_real_dtype
@@ -24,6 +24,39 @@ from tensornetwork.block_sparse.blocksparsetensor import (BlockSparseTensor,
 Tensor = Any
 
 
+def _matricize(tensor: BlockSparseTensor, pivot_axis: int) -> BlockSparseTensor:
+  """
+  Combine the axes of `tensor` left and right of `pivot_axis`.
+  """
+  return BlockSparseTensor(
+      tensor.data,
+      charges=tensor._charges,
+      flows=tensor._flows,
+      order=[
+          [n for o in tensor._order[:pivot_axis] for n in o],
+          [n for o in tensor._order[pivot_axis:] for n in o],
+      ],
+      check_consistency=False)
+
+
+def _split(matrix: BlockSparseTensor, axis: int,
+           axes: List[List[int]]) -> BlockSparseTensor:
+  """
+  Split `axis` of `matrix` into axes with the numbers of elementary legs
+  found in `axes`. The dimensions of `axes` are not sufficient in the presence
+  of legs of dimension 1.
+  """
+  legs = list(matrix._order[axis])
+  ends = np.cumsum([len(o) for o in axes])
+  order = [legs[end - len(o):end] for end, o in zip(ends, axes)]
+  return BlockSparseTensor(
+      matrix.data,
+      charges=matrix._charges,
+      flows=matrix._flows,
+      order=matrix._order[:axis] + order + matrix._order[axis + 1:],
+      check_consistency=False)
+
+
 def svd(
     bt,
     tensor: BlockSparseTensor,
@@ -36,10 +69,7 @@ def svd(
   See tensornetwork.backends.tensorflow.decompositions for details.
   """
 
-  left_dims = tensor.shape[:pivot_axis]
-  right_dims = tensor.shape[pivot_axis:]
-
-  matrix = bt.reshape(tensor, [np.prod(left_dims), np.prod(right_dims)])
+  matrix = _matricize(tensor, pivot_axis)
 
   flat_charges = matrix._charges
   flat_flows = matrix._flows
@@ -211,9 +241,8 @@ def svd(
       flows=flows_v,
       order=order_v,
       check_consistency=False)
-  left_shape = left_dims + (S.shape[0],)
-  right_shape = (S.shape[0],) + right_dims
-  return U.reshape(left_shape), S, V.reshape(right_shape), Sdisc
+  return (_split(U, 0, tensor._order[:pivot_axis]), S,
+          _split(V, 1, tensor._order[pivot_axis:]), Sdisc)
 
 
 def qr(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
@@ -221,14 +250,9 @@ def qr(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
 
   See tensornetwork.backends.tensorflow.decompositions for details.
   """
-  left_dims = tensor.shape[:pivot_axis]
-  right_dims = tensor.shape[pivot_axis:]
-  tensor = bt.reshape(tensor, [np.prod(left_dims), np.prod(right_dims)])
-  q, r = bt.qr(tensor)
-  center_dim = q.shape[1]
-  q = bt.reshape(q, list(left_dims) + [center_dim])
-  r = bt.reshape(r, [center_dim] + list(right_dims))
-  return q, r
+  q, r = bt.qr(_matricize(tensor, pivot_axis))
+  return (_split(q, 0, tensor._order[:pivot_axis]),
+          _split(r, 1, tensor._order[pivot_axis:]))
 
 
 def rq(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
@@ -236,13 +260,9 @@ def rq(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
 
   See tensornetwork.backends.tensorflow.decompositions for details.
   """
-  left_dims = tensor.shape[:pivot_axis]
-  right_dims = tensor.shape[pivot_axis:]
-  tensor = bt.reshape(tensor, [np.prod(left_dims), np.prod(right_dims)])
-  q, r = bt.qr(bt.conj(bt.transpose(tensor, (1, 0))))
+  matrix = _matricize(tensor, pivot_axis)
+  q, r = bt.qr(bt.conj(bt.transpose(matrix, (1, 0))))
   r, q = bt.conj(bt.transpose(r, (1, 0))), bt.conj(bt.transpose(
       q, (1, 0)))  #M=r*q at this point
-  center_dim = r.shape[1]
-  r = bt.reshape(r, list(left_dims) + [center_dim])
-  q = bt.reshape(q, [center_dim] + list(right_dims))
-  return r, q
+  return (_split(r, 0, tensor._order[:pivot_axis]),
+          _split(q, 1, tensor._order[pivot_axis:]))
-- 
2.43.0


From 4322d796c23819437c3c15a8db0256c55389d5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:02 +0000
Subject: [PATCH 47/63] fix: padding is not part of the spectrum in the
 truncated symmetric svd

---
 tensornetwork/backends/symmetric/decompositions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/backends/symmetric/decompositions.py b/tensornetwork/backends/symmetric/decompositions.py
index 81b617e..61f6524 100644
--- a/tensornetwork/backends/symmetric/decompositions.py
+++ b/tensornetwork/backends/symmetric/decompositions.py
@@ -111,8 +111,10 @@ def svd(
       extended_singvals = np.empty((0, 0), dtype=get_real_dtype(tensor.dtype))
 
     extended_flat_singvals = np.ravel(extended_singvals)
-    #sort singular values
+    #sort singular values; the padding does not belong to the spectrum
     inds = np.argsort(extended_flat_singvals, kind='stable')
+    is_singval = np.arange(max_D)[:, None] < np.array(orig_block_size)[None, :]
+    inds = inds[np.ravel(is_singval)[inds]]
     discarded_inds = np.zeros(0, dtype=SIZE_T)
     if max_truncation_error is not None:
       if relative and (len(singvals) > 0):
-- 
2.43.0


From 51e7a7f8606787d8add6d60a085a01e63f927951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:02 +0000
Subject: [PATCH 48/63] fix: symmetric svd truncated to zero singular values

---
 tensornetwork/backends/symmetric/decompositions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/backends/symmetric/decompositions.py b/tensornetwork/backends/symmetric/decompositions.py
index 61f6524..f14e01f 100644
--- a/tensornetwork/backends/symmetric/decompositions.py
+++ b/tensornetwork/backends/symmetric/decompositions.py
@@ -136,9 +136,9 @@ def svd(
       if max_singular_values > orig_num_singvals:
         max_singular_values = orig_num_singvals
       if max_singular_values < len(inds):
-        discarded_inds = np.append(discarded_inds,
-                                   inds[:(-1) * max_singular_values])
-        inds = inds[(-1) * max_singular_values::]
+        num_discarded = len(inds) - max_singular_values
+        discarded_inds = np.append(discarded_inds, inds[:num_discarded])
+        inds = inds[num_discarded:]
 
     if len(inds) == 0:
       #special case of truncation to 0 dimension;
-- 
2.43.0


From 108c0da6c722d15d662e255bdddada329e11199d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:21 +0000
Subject: [PATCH 49/63] fix: cached block data is only used for charges of the
 same types

---
 tensornetwork/block_sparse/blocksparse_utils.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparse_utils.py b/tensornetwork/block_sparse/blocksparse_utils.py
index 9285632..70b00a3 100644
--- a/tensornetwork/block_sparse/blocksparse_utils.py
+++ b/tensornetwork/block_sparse/blocksparse_utils.py
@@ -352,7 +352,7 @@ def _find_diagonal_sparse_blocks(
   cacher = get_cacher()
   if cacher.do_caching:
     hash_val = _to_string(charges, flows, partition, list(range(len(charges))))
-    if hash_val in cacher.cache:
+    if _is_cached(hash_val, charges):
       return cacher.cache[hash_val]
 
   num_inds = len(charges)
@@ -459,7 +459,7 @@ def _find_transposed_diagonal_sparse_blocks(
   cacher = get_cacher()
   if cacher.do_caching:
     hash_val = _to_string(charges, flows, tr_partition, order)
-    if hash_val in cacher.cache:
+    if _is_cached(hash_val, charges):
       return cacher.cache[hash_val]
 
   if np.array_equal(order, None) or (np.array_equal(
@@ -633,6 +633,15 @@ def _find_transposed_diagonal_sparse_blocks(
     return cacher.cache[hash_val]
   return block_maps, obj, block_dims
 
+def _is_cached(hash_val: str, charges: List[BaseCharge]) -> bool:
+  """
+  Check if the cache has an entry at `hash_val` that can be used for `charges`.
+  `hash_val` does not contain the types of the charges.
+  """
+  cache = get_cacher().cache
+  return (hash_val in cache and
+          cache[hash_val][1].charge_types == charges[0].charge_types)
+
 def _to_string(charges: List[BaseCharge], flows: Union[np.ndarray, List],
                tr_partition: int, order: List[int]) -> str:
   """
-- 
2.43.0


From 8ecdda730b88bf64e9a3fcfbb01ca50983739cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:15 +0000
Subject: [PATCH 50/63] fix: ZN charges fuse without integer overflow

---
 tensornetwork/block_sparse/charge.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index 07690e3..67a2f53 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -575,7 +575,9 @@ def ZNCharge(n: int) -> Callable:
 
     @staticmethod
     def fuse(charge1: np.ndarray, charge2: np.ndarray) -> np.ndarray:
-      return np.add.outer(charge1, charge2).ravel() % n
+      # `charge1 + charge2` can exceed the largest integer of the dtype,
+      # `charge1 - (n - charge2)` cannot
+      return np.subtract.outer(charge1, n - charge2).ravel() % n
 
     @staticmethod
     def dual_charges(charges: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 4e5cd86bf9591f7bc7c6b113059dd2834ba212e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:56 +0000
Subject: [PATCH 51/63] fix: charge operations keep the dtype of their charges

---
 .../block_sparse/blocksparse_utils.py         | 33 ++++++++----
 tensornetwork/block_sparse/charge.py          | 54 ++++++++++++++-----
 2 files changed, 65 insertions(+), 22 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparse_utils.py b/tensornetwork/block_sparse/blocksparse_utils.py
index 70b00a3..463a8d2 100644
--- a/tensornetwork/block_sparse/blocksparse_utils.py
+++ b/tensornetwork/block_sparse/blocksparse_utils.py
@@ -109,7 +109,8 @@ def compute_sparse_lookup(
   obj.__init__(
       charges=unique_charges,
       charge_labels=None,
-      charge_types=charges[0].charge_types)
+      charge_types=charges[0].charge_types,
+      charge_dtype=unique_charges.dtype)
 
   tmp[label_to_unique] = label_to_unique
   lookup = tmp[inverse]
@@ -267,7 +268,8 @@ def reduce_charges(charges: List[BaseCharge],
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(
         np.empty((0, charges[0].num_symmetries), dtype=charges[0].dtype),
-        np.empty(0, dtype=charges[0].label_dtype), charges[0].charge_types)
+        np.empty(0, dtype=charges[0].label_dtype), charges[0].charge_types,
+        charge_dtype=charges[0].dtype)
     if return_locations:
       return obj, np.empty(0, dtype=SIZE_T)
     return obj
@@ -296,7 +298,11 @@ def reduce_charges(charges: List[BaseCharge],
   reduced_labels = np.concatenate(
       [reduced_rows[n] for n in left_ind.charge_labels])
   obj = charges[0].__new__(type(charges[0]))
-  obj.__init__(reduced_qnums, reduced_labels, charges[0].charge_types)
+  obj.__init__(
+      reduced_qnums,
+      reduced_labels,
+      charges[0].charge_types,
+      charge_dtype=reduced_qnums.dtype)
 
   if return_locations:
     row_locs = [0] * left_ind.num_unique
@@ -368,7 +374,8 @@ def _find_diagonal_sparse_blocks(
 
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums, np.arange(1, dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types,
+                 charge_dtype=block_qnums.dtype)
 
     return block_maps, obj, block_dims
 
@@ -388,7 +395,8 @@ def _find_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(
         np.zeros((0, charges[0].num_symmetries), dtype=charges[0].dtype),
-        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types)
+        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types,
+        charge_dtype=charges[0].dtype)
 
     return [], obj, np.empty((2, 0), dtype=SIZE_T)
 
@@ -420,7 +428,8 @@ def _find_diagonal_sparse_blocks(
   obj = charges[0].__new__(type(charges[0]))
   obj.__init__(block_qnums,
                np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-               charges[0].charge_types)
+               charges[0].charge_types,
+               charge_dtype=block_qnums.dtype)
   if cacher.do_caching:
     cacher.cache[hash_val] = (block_maps, obj, block_dims)
     return cacher.cache[hash_val]
@@ -492,7 +501,8 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(
         np.empty((0, charges[0].num_symmetries), dtype=charges[0].dtype),
-        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types)
+        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types,
+        charge_dtype=charges[0].dtype)
 
     return [], obj, np.empty((2, 0), dtype=SIZE_T)
 
@@ -550,7 +560,8 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums,
                  np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types,
+                 charge_dtype=block_qnums.dtype)
 
   elif tr_partition == len(charges):
     # special case: reshape into col vector
@@ -582,7 +593,8 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums,
                  np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types,
+                 charge_dtype=block_qnums.dtype)
   else:
 
     unique_row_qnums, new_row_degen = compute_fused_charge_degeneracies(
@@ -626,7 +638,8 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums,
                  np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types,
+                 charge_dtype=block_qnums.dtype)
 
   if cacher.do_caching:
     cacher.cache[hash_val] = (block_maps, obj, block_dims)
diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index 67a2f53..dd61d7a 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -202,7 +202,10 @@ class BaseCharge:
         axis=0)
     obj = self.__new__(type(self))
     obj.__init__(
-        charges=charges, charge_labels=None, charge_types=self.charge_types)
+        charges=charges,
+        charge_labels=None,
+        charge_types=self.charge_types,
+        charge_dtype=self.dtype)
     return obj
 
   def __add__(self, other: "BaseCharge") -> "BaseCharge":
@@ -217,7 +220,10 @@ class BaseCharge:
     fused_charges = fuse_ndarray_charges(self.charges, other.charges,
                                          self.charge_types)
     obj = self.__new__(type(self))
-    obj.__init__(fused_charges, charge_types=self.charge_types)
+    obj.__init__(
+        fused_charges,
+        charge_types=self.charge_types,
+        charge_dtype=fused_charges.dtype)
     return obj
 
   def dual(self, take_dual: Optional[bool] = False) -> "BaseCharge":
@@ -241,7 +247,8 @@ class BaseCharge:
         obj.__init__(
             unique_dual_charges,
             charge_labels=self.charge_labels,
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
         return obj
       dual_charges = np.stack([
           self.charge_types[n].dual_charges(self._charges[:, n])
@@ -251,7 +258,10 @@ class BaseCharge:
 
       obj = self.__new__(type(self))
       obj.__init__(
-          dual_charges, charge_labels=None, charge_types=self.charge_types)
+          dual_charges,
+          charge_labels=None,
+          charge_types=self.charge_types,
+          charge_dtype=self.dtype)
       return obj
 
     return self
@@ -264,7 +274,10 @@ class BaseCharge:
     charges = np.concatenate([self.charges, other.charges], axis=1)
     charge_types = self.charge_types + other.charge_types
     return BaseCharge(
-        charges=charges, charge_labels=None, charge_types=charge_types)
+        charges=charges,
+        charge_labels=None,
+        charge_types=charge_types,
+        charge_dtype=charges.dtype)
 
   def __mul__(self, number: bool) -> "BaseCharge":
     if not isinstance(number, (bool, np.bool_)):
@@ -313,12 +326,14 @@ class BaseCharge:
           charges=out[0],
           charge_labels=np.arange(out[0].shape[0], dtype=self.label_dtype),
           charge_types=self.charge_types,
+          charge_dtype=self.dtype,
       )
       return obj, out[1], out[2]
     obj.__init__(
         charges=out,
         charge_labels=np.arange(out.shape[0], dtype=self.label_dtype),
         charge_types=self.charge_types,
+        charge_dtype=self.dtype,
     )
     return obj
 
@@ -367,13 +382,15 @@ class BaseCharge:
             charges=unique_charges,
             charge_labels=np.arange(
                 unique_charges.shape[0], dtype=self.label_dtype),
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
         tmp[0] = obj
       else:
         obj.__init__(
             charges=tmp,
             charge_labels=np.arange(tmp.shape[0], dtype=self.label_dtype),
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
         tmp = obj
       return tmp
 
@@ -383,7 +400,8 @@ class BaseCharge:
             charges=self._unique_charges,
             charge_labels=np.arange(
                 self._unique_charges.shape[0], dtype=self.label_dtype),
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
 
         out = [obj]
         if return_inverse:
@@ -406,7 +424,8 @@ class BaseCharge:
           charges=unique_charges,
           charge_labels=np.arange(
               unique_charges.shape[0], dtype=self.label_dtype),
-          charge_types=self.charge_types)
+          charge_types=self.charge_types,
+          charge_dtype=self.dtype)
       tmp[0] = obj
       return tmp
 
@@ -447,7 +466,11 @@ class BaseCharge:
     reduced_locs = reduced_ind_labels >= 0
     new_ind_labels = reduced_ind_labels[reduced_locs].astype(self.label_dtype)
     obj = self.__new__(type(self))
-    obj.__init__(reduced_charges, new_ind_labels, self.charge_types)
+    obj.__init__(
+        reduced_charges,
+        new_ind_labels,
+        self.charge_types,
+        charge_dtype=self.dtype)
 
     if return_locations:
       return obj, strides * np.flatnonzero(reduced_locs).astype(np.uint32)
@@ -471,10 +494,17 @@ class BaseCharge:
       labels = self.charge_labels[n]
       unique_labels, new_labels = unique(labels, return_inverse=True)
       unique_charges = self.unique_charges[unique_labels, :]
-      obj.__init__(unique_charges, new_labels, self.charge_types)
+      obj.__init__(
+          unique_charges,
+          new_labels,
+          self.charge_types,
+          charge_dtype=self.dtype)
       return obj
     obj.__init__(
-        self._charges[n, :], charge_labels=None, charge_types=self.charge_types)
+        self._charges[n, :],
+        charge_labels=None,
+        charge_types=self.charge_types,
+        charge_dtype=self.dtype)
     return obj
 
   @property
-- 
2.43.0


From 766af584f68afa6ea62ee93889415e1e1b66da6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:36 +0000
Subject: [PATCH 52/63] fix: blocks without a transposition order can be cached

---
 tensornetwork/block_sparse/blocksparse_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparse_utils.py b/tensornetwork/block_sparse/blocksparse_utils.py
index 463a8d2..14a6452 100644
--- a/tensornetwork/block_sparse/blocksparse_utils.py
+++ b/tensornetwork/block_sparse/blocksparse_utils.py
@@ -465,14 +465,15 @@ def _find_transposed_diagonal_sparse_blocks(
     block_dims (np.ndarray): 2-by-m array of matrix dimensions of each block.
   """
   flows = np.asarray(flows)
+  if order is None:
+    order = list(range(len(charges)))
   cacher = get_cacher()
   if cacher.do_caching:
     hash_val = _to_string(charges, flows, tr_partition, order)
     if _is_cached(hash_val, charges):
       return cacher.cache[hash_val]
 
-  if np.array_equal(order, None) or (np.array_equal(
-      np.array(order), np.arange(len(charges)))):
+  if np.array_equal(np.array(order), np.arange(len(charges))):
     # no transpose order
     return _find_diagonal_sparse_blocks(charges, flows, tr_partition)
 
-- 
2.43.0


From e427a589f4b3699e783d1ddf6a6ccc80a4ef33a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:32 +0000
Subject: [PATCH 53/63] fix: cached block data is only used for charges of the
 same dtype

---
 tensornetwork/block_sparse/blocksparse_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparse_utils.py b/tensornetwork/block_sparse/blocksparse_utils.py
index 14a6452..a0a8a6e 100644
--- a/tensornetwork/block_sparse/blocksparse_utils.py
+++ b/tensornetwork/block_sparse/blocksparse_utils.py
@@ -650,11 +650,12 @@ def _find_transposed_diagonal_sparse_blocks(
 def _is_cached(hash_val: str, charges: List[BaseCharge]) -> bool:
   """
   Check if the cache has an entry at `hash_val` that can be used for `charges`.
-  `hash_val` does not contain the types of the charges.
+  `hash_val` does not contain the types and the dtype of the charges.
   """
   cache = get_cacher().cache
   return (hash_val in cache and
-          cache[hash_val][1].charge_types == charges[0].charge_types)
+          cache[hash_val][1].charge_types == charges[0].charge_types and
+          cache[hash_val][1].dtype == charges[0].dtype)
 
 def _to_string(charges: List[BaseCharge], flows: Union[np.ndarray, List],
                tr_partition: int, order: List[int]) -> str:
-- 
2.43.0


From 6e15412b58b2ddbdc605c083adb4c0d1f7fb0f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:41 +0000
Subject: [PATCH 54/63] fix: ncon_cost_check does not use the removed np.float

---
 tensornetwork/contractors/custom_path_solvers/nconinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/contractors/custom_path_solvers/nconinterface.py b/tensornetwork/contractors/custom_path_solvers/nconinterface.py
index 1ddd52d..f63975c 100644
--- a/tensornetwork/contractors/custom_path_solvers/nconinterface.py
+++ b/tensornetwork/contractors/custom_path_solvers/nconinterface.py
@@ -140,7 +140,7 @@ def ncon_cost_check(tensors: List[np.ndarray],
     float: the cost of the network contraction, given as log10(total_FLOPS).
   """
 
-  total_cost = np.float('-inf')
+  total_cost = float('-inf')
   N = len(tensors)
   tensor_dims = [np.array(np.log10(ele.shape)) for ele in tensors]
   connect_list = [np.array(ele) for ele in labels]
-- 
2.43.0


From aae08bc96a7acc7d8929219192fb0e1d374bc14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:41 +0000
Subject: [PATCH 55/63] fix: greedy_cost_solve does not contract a tensor with
 itself

---
 tensornetwork/contractors/custom_path_solvers/pathsolvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
index 9a96bdc..f23c30f 100644
--- a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
+++ b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
@@ -117,7 +117,8 @@ def greedy_cost_solve(log_adj_in: np.ndarray):
     # penalize trivial contractions and self-contractions
     triv_conts = (log_adj < tol)
     trimmed_costs = single_cost + np.max(single_cost.flatten()) * triv_conts
-    trimmed_costs = trimmed_costs + np.max(trimmed_costs.flatten()) * np.eye(N)
+    trimmed_costs = trimmed_costs + (np.max(trimmed_costs.flatten()) +
+                                     1) * np.eye(N)
 
     # find best contraction
     tensors_to_contract = np.divmod(np.argmin(trimmed_costs), N)
-- 
2.43.0


From 872528161f3fa92bdd004ebf30fa3ae70fc6aaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:26 +0000
Subject: [PATCH 56/63] fix: eigsh_lanczos modifies neither its initial state
 nor what the operator returns

---
 tensornetwork/backends/numpy/numpy_backend.py         | 8 ++++----
 tensornetwork/backends/symmetric/symmetric_backend.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index bfa5c4b..aa76777 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -484,7 +484,7 @@ class NumPyBackend(abstract_backend.AbstractBackend):
 
     vector_n = initial_state
     Z = self.norm(vector_n)
-    vector_n /= Z
+    vector_n = vector_n / Z
     norms_vector_n = []
     diag_elements = []
     krylov_vecs = []
@@ -517,10 +517,10 @@ class NumPyBackend(abstract_backend.AbstractBackend):
         first = False
         eigvalsold = eigvals[0:numeig]
       if it > 0:
-        A_vector_n -= (krylov_vecs[-1] * diag_elements[-1])
-        A_vector_n -= (krylov_vecs[-2] * norms_vector_n[-1])
+        A_vector_n = A_vector_n - (krylov_vecs[-1] * diag_elements[-1])
+        A_vector_n = A_vector_n - (krylov_vecs[-2] * norms_vector_n[-1])
       else:
-        A_vector_n -= (krylov_vecs[-1] * diag_elements[-1])
+        A_vector_n = A_vector_n - (krylov_vecs[-1] * diag_elements[-1])
       vector_n = A_vector_n
 
     A_tridiag = np.diag(diag_elements) + np.diag(
diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index f94a436..6ac640e 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -376,7 +376,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
       vector_n.contiguous(inplace=True)  # bring into contiguous memory layout
 
       Z = self.norm(vector_n)
-      vector_n /= Z
+      vector_n = vector_n / Z
       norms_vector_n = []
       diag_elements = []
       krylov_vecs = []
@@ -423,10 +423,10 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
           first = False
           eigvalsold = eigvals[0:numeig]
         if it > 0:
-          A_vector_n -= (krylov_vecs[-1] * diag_elements[-1])
-          A_vector_n -= (krylov_vecs[-2] * norms_vector_n[-1])
+          A_vector_n = A_vector_n - (krylov_vecs[-1] * diag_elements[-1])
+          A_vector_n = A_vector_n - (krylov_vecs[-2] * norms_vector_n[-1])
         else:
-          A_vector_n -= (krylov_vecs[-1] * diag_elements[-1])
+          A_vector_n = A_vector_n - (krylov_vecs[-1] * diag_elements[-1])
         vector_n = A_vector_n
 
       A_tridiag = numpy.diag(diag_elements) + numpy.diag(
-- 
2.43.0


From c4aea186def3918181aecca29b04132744e8ac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:26 +0000
Subject: [PATCH 57/63] fix: transfer_matrix_eigs accepts an initial state

---
 tensornetwork/matrixproductstates/infinite_mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/infinite_mps.py b/tensornetwork/matrixproductstates/infinite_mps.py
index ff7d4ed..3b396da 100644
--- a/tensornetwork/matrixproductstates/infinite_mps.py
+++ b/tensornetwork/matrixproductstates/infinite_mps.py
@@ -131,7 +131,7 @@ class InfiniteMPS(BaseMPS):
           direction, self.backend.reshape(vector, (D, D)))
       return self.backend.reshape(result, (D * D,))
 
-    if not initial_state:
+    if initial_state is None:
       initial_state = self.backend.randn((self.bond_dimensions[0]**2,),
                                          dtype=self.dtype)
     else:
-- 
2.43.0


From cb995e24e517e68ab6209a7a3ab0e137bc239c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:26 +0000
Subject: [PATCH 58/63] fix: compare_shapes compares the legs in their current
 order

---
 tensornetwork/block_sparse/blocksparsetensor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index fe92011..d90cdf6 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -456,11 +456,13 @@ def compare_shapes(tensor1: ChargeArray, tensor2: ChargeArray) -> bool:
     return False
   if len(tensor1._charges) != len(tensor2._charges):
     return False
+  # compare the legs in the order of the current index positions
+  legs = list(zip(tensor1.flat_order, tensor2.flat_order))
   if not all(
-      charge_equal(c1, c2)
-      for c1, c2 in zip(tensor1._charges, tensor2._charges)):
+      charge_equal(tensor1._charges[o1], tensor2._charges[o2])
+      for o1, o2 in legs):
     return False
-  if not all(f1 == f2 for f1, f2 in zip(tensor1._flows, tensor2._flows)):
+  if not all(tensor1._flows[o1] == tensor2._flows[o2] for o1, o2 in legs):
     return False
   return True
 
-- 
2.43.0


From c427fd01d080aacb7363e03b0eb69a076f1242b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:58 +0000
Subject: [PATCH 59/63] fix: MPO layers round the leg dimension

---
 tensornetwork/tn_keras/conv2d_mpo.py | 4 ++--
 tensornetwork/tn_keras/mpo.py        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/tn_keras/conv2d_mpo.py b/tensornetwork/tn_keras/conv2d_mpo.py
index 2382833..a2a481a 100644
--- a/tensornetwork/tn_keras/conv2d_mpo.py
+++ b/tensornetwork/tn_keras/conv2d_mpo.py
@@ -161,8 +161,8 @@ class Conv2DMPO(Layer):
 
     super().build(input_shape)
 
-    in_leg_dim = math.ceil(channels**(1. / self.num_nodes))
-    out_leg_dim = math.ceil(self.filters**(1. / self.num_nodes))
+    in_leg_dim = round(channels**(1. / self.num_nodes))
+    out_leg_dim = round(self.filters**(1. / self.num_nodes))
 
     self.nodes.append(
         self.add_weight(name='end_node_first',
diff --git a/tensornetwork/tn_keras/mpo.py b/tensornetwork/tn_keras/mpo.py
index a7247bb..8599b4a 100644
--- a/tensornetwork/tn_keras/mpo.py
+++ b/tensornetwork/tn_keras/mpo.py
@@ -108,8 +108,8 @@ class DenseMPO(Layer):
 
     super().build(input_shape)
 
-    self.in_leg_dim = math.ceil(input_dim**(1. / self.num_nodes))
-    self.out_leg_dim = math.ceil(self.output_dim**(1. / self.num_nodes))
+    self.in_leg_dim = round(input_dim**(1. / self.num_nodes))
+    self.out_leg_dim = round(self.output_dim**(1. / self.num_nodes))
 
     self.nodes.append(
         self.add_weight(name='end_node_first',
-- 
2.43.0


From 25e670b63e740f39c6fbce71ed236ba6c4c415db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:58 +0000
Subject: [PATCH 60/63] fix: Conv2DMPO adds the bias to the channel axis for
 channels_first

---
 tensornetwork/tn_keras/conv2d_mpo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/tn_keras/conv2d_mpo.py b/tensornetwork/tn_keras/conv2d_mpo.py
index a2a481a..c4d7bed 100644
--- a/tensornetwork/tn_keras/conv2d_mpo.py
+++ b/tensornetwork/tn_keras/conv2d_mpo.py
@@ -219,7 +219,10 @@ class Conv2DMPO(Layer):
                           dilations=self.dilation_rate)
 
     if self.use_bias:
-      bias = tf.reshape(self.bias_var, (1, self.filters,))
+      if self.data_format == 'channels_first':
+        bias = tf.reshape(self.bias_var, (1, self.filters, 1, 1))
+      else:
+        bias = tf.reshape(self.bias_var, (1, self.filters,))
       result += bias
 
     if self.activation is not None:
-- 
2.43.0


From a1f9dbd45f670ebbcf21250a16df35fecefed3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:06 +0000
Subject: [PATCH 61/63] fix: include the connector matrix in the MPS transfer
 operator

InfiniteMPS.canonicalize leaves a connector matrix between unit cells; the
transfer operator ignored it, so canonicalizing the MPS again produced
tensors which were not canonical.
---
 tensornetwork/matrixproductstates/base_mps.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 22dd66b..4c425b8 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -278,12 +278,14 @@ class BaseMPS:
     Returns:
       `Tensor`: The result of applying the MPS transfer-operator to `matrix`
     """
+    # `get_tensor` absorbs the connector matrix into the last tensor
+    tensor = self.get_tensor(range(len(self))[site])
     if direction in (1, 'l', 'left'):
-      return self.left_transfer_operator(self.tensors[site], matrix,
-                                         self.backend.conj(self.tensors[site]))
+      return self.left_transfer_operator(tensor, matrix,
+                                         self.backend.conj(tensor))
     if direction in (-1, 'r', 'right'):
-      return self.right_transfer_operator(self.tensors[site], matrix,
-                                          self.backend.conj(self.tensors[site]))
+      return self.right_transfer_operator(tensor, matrix,
+                                          self.backend.conj(tensor))
     raise ValueError(f'unknown value {direction} for direction')
 
   def measure_local_operator(self, ops: List[Tensor],
-- 
2.43.0


From f86bb02f13d680c534bdd591eb345ead757eb8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:42 +0000
Subject: [PATCH 62/63] fix: untruncated two-site gates on symmetric MPS

---
 tensornetwork/matrixproductstates/base_mps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 4c425b8..3ce3c9c 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -582,7 +582,8 @@ class BaseMPS:
         set_center_position(site1)
 
     else:
-      tw = self.backend.zeros(1, dtype=self.dtype)
+      # nothing is discarded
+      tw = 0 * self.backend.norm(tensor)
       if center_position == site2:
         Q, R = self.backend.qr(tensor, pivot_axis=2)
         left_tensor = Q
-- 
2.43.0


From 61374d94fe643d391b57da90e4c6a1e2e693ca45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:12 +0000
Subject: [PATCH 63/63] fix: outer products with rank-0 symmetric tensors

---
 tensornetwork/backends/symmetric/symmetric_backend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index 6ac640e..0fd87ac 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -626,6 +626,11 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
     return tensor1 - tensor2
 
   def multiply(self, tensor1: Tensor, tensor2: Tensor) -> Tensor:
+    # tensors of rank 0 act as numbers
+    if isinstance(tensor2, BlockSparseTensor) and tensor2.ndim == 0:
+      tensor2 = tensor2.item()
+    elif isinstance(tensor1, BlockSparseTensor) and tensor1.ndim == 0:
+      tensor1 = tensor1.item()
     return tensor1 * tensor2
 
   def divide(self, tensor1: Tensor, tensor2: Tensor) -> Tensor:
-- 
2.43.0

