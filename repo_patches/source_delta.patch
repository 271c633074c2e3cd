From e3a68d34a87fb035afc6bbe3d5288a9b3f26d7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 01/59] fix: import python % on symbolic scalars as
 aten.remainder, not fmod

---
 python/torch_mlir/extras/fx_importer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index e760500..3d62017 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -292,7 +292,8 @@ PY_BUILTIN_TO_TORCH_OP = {
     "ge": torch.ops.aten.ge,
     "ne": torch.ops.aten.ne,
     "gt": torch.ops.aten.gt,
-    "mod": torch.ops.aten.fmod,
+    # Python `%` rounds the quotient towards negative infinity, as remainder does.
+    "mod": torch.ops.aten.remainder,
     "eq": torch.ops.aten.eq,
     "floordiv": torch.ops.aten.floordiv,
     "neg": torch.ops.aten.neg,
-- 
2.43.0


From 400a197169364b0863841e6ee74e5f62df6944c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 02/59] fix: keep operand order when importing int/float
 symbolic comparisons

---
 python/torch_mlir/extras/fx_importer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 3d62017..099b8ec 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1677,7 +1677,11 @@ class GraphNodeImporter:
             if all(is_int):
                 op_overload = "int"
             elif any(is_int):
-                if target.__name__ in ("add", "lt", "ge", "ne", "gt"):
+                # float_int overloads take the float first: only commutative
+                # operators may exchange their operands to get there.
+                if target.__name__ in ("add", "ne") or (
+                    target.__name__ in ("lt", "ge", "gt") and arg_types[0] == float
+                ):
                     op_overload = "float_int"
                     # put float arg first, as expected in signature
                     if arg_types[1] == float:
-- 
2.43.0


From e78cd74c08607d897dc580ed00e0dee0987348f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 03/59] fix: complex dtype codes in the FX importer follow
 c10::ScalarType

---
 python/torch_mlir/extras/fx_importer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 099b8ec..da2f48e 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -244,9 +244,9 @@ TORCH_DTYPE_TO_INT = {
     torch.float16: 5,
     torch.float32: 6,
     torch.float64: 7,
-    # torch.complex_half 8
-    torch.complex32: 9,
-    torch.complex64: 10,
+    torch.complex32: 8,
+    torch.complex64: 9,
+    torch.complex128: 10,
     torch.bool: 11,
     # torch.qint8: 12, # quantized dtypes are not supported in all backends, currently we do not support them
     # torch.quint8: 13,
-- 
2.43.0


From f9024aae84754bd95ef4cce3d2030fe02e8f19ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 04/59] fix: sparse layout codes in the FX importer follow
 c10::Layout

---
 python/torch_mlir/extras/fx_importer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index da2f48e..3e96b97 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -277,9 +277,10 @@ TORCH_LAYOUT_TO_INT = {
     torch.strided: 0,
     torch.sparse_coo: 1,
     torch.sparse_csr: 2,
-    torch.sparse_csc: 3,
-    torch.sparse_bsr: 4,
-    torch.sparse_bsc: 5,
+    # 3 is c10::Layout::Mkldnn
+    torch.sparse_csc: 4,
+    torch.sparse_bsr: 5,
+    torch.sparse_bsc: 6,
 }
 
 PY_BUILTIN_TO_TORCH_OP = {
-- 
2.43.0


From 25847b32529ae4c2186e444afae6b44d05a81ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 05/59] fix: RefTracker must not return the mapping of a dead
 object with the same id

---
 python/torch_mlir/extras/fx_importer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 3e96b97..4299d5d 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -2721,7 +2721,8 @@ class RefTracker:
     def track(self, referrent: Any) -> RefMapping:
         ref_id = id(referrent)
         existing = self._refs.get(ref_id)
-        if existing:
+        # The id of a dead object may be reused by a new one.
+        if existing and existing._referrent() is referrent:
             return existing
         info = RefMapping(referrent)
         # Finalizer is removed due to a memory leak
-- 
2.43.0


From c52e86fbb66c13fc8362bf6b4693f49be24416da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 06/59] fix: constant outputs of programs that also mutate
 inputs or buffers

---
 python/torch_mlir/extras/fx_importer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 4299d5d..3d00092 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -696,7 +696,7 @@ class FxImporter:
         # producer for the output.
         user_outputs: List[Optional[Node]] = []
         user_output_types: List[IrType] = []
-        for i, output_spec in enumerate(sig.output_specs):
+        for output_spec in sig.output_specs:
             kind = output_spec.kind
             arg = output_spec.arg
             if kind == OutputKind.USER_OUTPUT:
@@ -714,7 +714,8 @@ class FxImporter:
                     )
                 elif isinstance(arg, ConstantArgument):
                     # Constant Outputs don't have a node so we will only store their values
-                    constant_output_values[i] = arg.value
+                    # (keyed by position among the user outputs).
+                    constant_output_values[len(user_outputs)] = arg.value
                     # Placeholder for constant outputs in the node list
                     user_outputs.append(None)
                     user_output_types.append(self._cc.value_info_to_type(arg.value))
-- 
2.43.0


From 203abe102ed34db6081333bf3cc850ef6f3f6846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 07/59] fix: _local_scalar_dense of a bool tensor is a bool

---
 python/torch_mlir/extras/fx_importer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 3d00092..2d8bb3b 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -2907,6 +2907,8 @@ def aten__local_scalar_dense_default(node: torch_fx.Node):
     input_type = node.args[0].meta["tensor_meta"].dtype
     if input_type.is_floating_point:
         node.target = torch.ops.aten.Float.Tensor
+    elif input_type == torch.bool:
+        node.target = torch.ops.aten.Bool.Tensor
     else:
         node.target = torch.ops.aten.Int.Tensor
     node.args = (node.args[0],)
-- 
2.43.0


From 4937dce43f0e34ecb457f65aa630a5c753e8158e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:56 +0000
Subject: [PATCH 08/59] fix: negative padding_idx of
 _embedding_bag_forward_only means no padding

---
 python/torch_mlir/extras/fx_importer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 2d8bb3b..4a5c10e 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -2942,6 +2942,13 @@ def aten__embedding_bag_forward_only_default(node: torch_fx.Node):
     for k, v in embedding_bag_args[len(node.args) - 3 :]:
         if k not in node_kwargs:
             node_kwargs[k] = v
+    # _embedding_bag_forward_only says "no padding index" with a negative number,
+    # which embedding_bag.padding_idx would count from the last row.
+    if len(node.args) > 8:
+        if isinstance(node.args[8], int) and node.args[8] < 0:
+            node.args = (*node.args[:8], None)
+    elif isinstance(node_kwargs["padding_idx"], int) and node_kwargs["padding_idx"] < 0:
+        node_kwargs["padding_idx"] = None
     node.kwargs = node_kwargs
     return node
 
-- 
2.43.0


From 5391c9a6fe53804240ac6deb6f5c9924659d1e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:56 +0000
Subject: [PATCH 09/59] fix: import_frozen_program finds non-persistent buffers

---
 python/torch_mlir/extras/fx_importer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 4a5c10e..53c2eac 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -965,6 +965,12 @@ class FxImporter:
 
         # Always lift buffers.
         for input_name, state_name in sig.inputs_to_buffers.items():
+            # Non-persistent buffers are not part of the state_dict.
+            if state_name not in state_dict and state_name in getattr(
+                prog, "constants", {}
+            ):
+                arg_replacements[input_name] = prog.constants[state_name]
+                continue
             try:
                 state_value = state_dict[state_name]
             except KeyError as e:
-- 
2.43.0


From ca88f7ae011e0a1113dc6cd0eeba2cdaf612ac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 10/59] fix: load a mutated buffer before its new value is
 stored

---
 python/torch_mlir/extras/fx_importer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 53c2eac..6cee0aa 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1569,6 +1569,10 @@ class GraphNodeImporter:
         if info.store_producer_node is not None:
 
             def on_produced(value: Value):
+                # Uses of the buffer's node refer to its value before the
+                # mutation: make sure that it is loaded before the store.
+                if node.users:
+                    self.resolve_node_value(node)
                 with loc, InsertionPoint(self._b):
                     self.fx_importer._hooks.store_produced_value(
                         self, buffer_value, value, info
-- 
2.43.0


From e9ede096a98acdab36d2f70a9ca40ac5fcb28880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 11/59] fix: run mutation hooks whose new value is a graph
 input

---
 python/torch_mlir/extras/fx_importer.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 6cee0aa..d3b5a97 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -857,6 +857,7 @@ class FxImporter:
             node_importer.lazy_import_parameter(loc, node, parameter_value, info)
         for node, (buffer_value, info) in buffer_bindings.items():
             node_importer.lazy_import_buffer(loc, node, buffer_value, info)
+        node_importer.notify_input_producers(placeholder_nodes.values())
 
         # Import all child graph modules recursively for HOPs BEFORE importing nodes
         # This is necessary because HOP nodes need to reference these functions.
@@ -1459,9 +1460,19 @@ class GraphNodeImporter:
         assert key not in self._v, f"Node already has a value: {node}"
         self._v[key] = value
 
-        producer_callback = self._on_node_produced.get(node.name)
-        if producer_callback is not None:
-            producer_callback(value)
+        # Lazily bound inputs are announced by notify_input_producers.
+        if isinstance(value, Value):
+            producer_callback = self._on_node_produced.pop(node.name, None)
+            if producer_callback is not None:
+                producer_callback(value)
+
+    def notify_input_producers(self, nodes: Iterable[Node]):
+        """Announces bound inputs which are themselves the new value of a mutated
+        input or buffer, and which were bound before that was known."""
+        for node in nodes:
+            producer_callback = self._on_node_produced.pop(node.name, None)
+            if producer_callback is not None:
+                producer_callback(self.resolve_node_value(node))
 
     def resolve_node_value(self, node: Node, result_index: int = 0) -> Value:
         """Resolves a node to a value."""
-- 
2.43.0


From 2f34f4d7c647926cedc6dd5bc85b56de02005b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:27 +0000
Subject: [PATCH 12/59] fix: import while_loop nodes with a single carry

---
 python/torch_mlir/extras/fx_importer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index d3b5a97..6dd667f 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1282,7 +1282,7 @@ class ContextCache:
 
         raise NotImplementedError(
             f"Could not deduce type from value info: "
-            f"tensor_meta={tensor_meta}, val={val} {type(val)}, sparsity={sparsity}"
+            f"tensor_meta={tensor_meta}, val={val} {type(val)}"
         )
 
     def tensor_metadata_to_type(
@@ -1809,7 +1809,9 @@ class GraphNodeImporter:
 
         # Determine result types from node metadata
         node_val = node.meta.get("val")
-        if isinstance(node_val, (list, tuple)) and len(node_val) > 1:
+        # A loop with a single carry still has a 1-tuple as its value.
+        is_multi_result = isinstance(node_val, (list, tuple))
+        if is_multi_result:
             result_types = [self._cc.value_info_to_type(v) for v in node_val]
             self._multi_result_nodes.add(node)
         else:
@@ -1896,8 +1898,7 @@ class GraphNodeImporter:
             )
 
         # Bind the loop results to the node
-        if len(result_types) > 1:
-            self._multi_result_nodes.add(node)
+        if is_multi_result:
             for i, value in enumerate(loop_op.results):
                 self.bind_node_value(node, value, i)
         else:
-- 
2.43.0


From e9c6ece6c6214a33de9a60883d130236acf32bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:27 +0000
Subject: [PATCH 13/59] fix: additional inputs of while_loop are not carried

---
 python/torch_mlir/extras/fx_importer.py | 34 +++++++++++++++----------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 6dd667f..3d565c3 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1772,15 +1772,15 @@ class GraphNodeImporter:
     ):
         """Imports the torch._higher_order_ops.while_loop HOP.
 
-        Args format: (cond_fn, body_fn, carries)
+        Args format: (cond_fn, body_fn, carries, additional_inputs)
         The cond_fn and body_fn are get_attr nodes pointing to submodule graphs
         that have already been imported by import_program().
 
         Emits torch.prim.Loop with proper control flow structure.
         """
-        # while_loop HOP args: (cond_fn, body_fn, car`ries...)
-        # Unpack the first two args and the rest as carries
-        cond_fn_node, body_fn_node, *carries = node.args
+        # while_loop HOP args: (cond_fn, body_fn, carries, additional_inputs)
+        # The additional inputs are read by both functions, but not carried.
+        cond_fn_node, body_fn_node, carries, *additional_inputs = node.args
 
         # Extract function names from get_attr nodes
         assert (
@@ -1799,13 +1799,18 @@ class GraphNodeImporter:
         body_fn_name = self.fx_importer._graph_module_to_func_name[id(body_fn_module)]
 
         # Import the carries (loop state variables)
-        carry_values = []
-        for carry in carries:
-            if isinstance(carry, tuple):
-                # Handle tuple carries by importing each element
-                carry_values.extend(self._import_tuple_argument(loc, carry, None))
-            else:
-                carry_values.append(self._import_argument(loc, carry))
+        def import_values(args):
+            values = []
+            for arg in args:
+                if isinstance(arg, tuple):
+                    # Handle tuples by importing each element
+                    values.extend(self._import_tuple_argument(loc, arg, None))
+                else:
+                    values.append(self._import_argument(loc, arg))
+            return values
+
+        carry_values = import_values([carries])
+        additional_values = import_values(additional_inputs)
 
         # Determine result types from node metadata
         node_val = node.meta.get("val")
@@ -1824,7 +1829,7 @@ class GraphNodeImporter:
             "func.call",
             attributes={"callee": FlatSymbolRefAttr.get(cond_fn_name)},
             results=[cond_result_type],
-            operands=carry_values,
+            operands=carry_values + additional_values,
             loc=loc,
         )
 
@@ -1867,7 +1872,8 @@ class GraphNodeImporter:
                 name="func.call",
                 attributes={"callee": FlatSymbolRefAttr.get(body_fn_name)},
                 results=result_types,
-                operands=list(loop_block.arguments[1:]),  # Skip iteration counter
+                # Skip iteration counter
+                operands=list(loop_block.arguments[1:]) + additional_values,
                 loc=loc,
             )
             body_results = list(body_results_op.results)
@@ -1877,7 +1883,7 @@ class GraphNodeImporter:
                 name="func.call",
                 attributes={"callee": FlatSymbolRefAttr.get(cond_fn_name)},
                 results=[IrType.parse("!torch.vtensor<[],i1>", context=self._c)],
-                operands=body_results,
+                operands=body_results + additional_values,
                 loc=loc,
             ).result
 
-- 
2.43.0


From 64fa48d678eadc0292346bb94eb3a8af94a87a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 14/59] fix: while_loop conditions may be python bools

---
 python/torch_mlir/extras/fx_importer.py | 41 ++++++++++++++-----------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 3d565c3..98b6e68 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1822,9 +1822,26 @@ class GraphNodeImporter:
         else:
             result_types = [self._cc.node_val_to_type(node)]
 
-        # Call the condition function with initial carries to get initial condition
-        cond_result_type = self._cc.get_vtensor_type(torch.Size([]), torch.bool)
+        # The condition function returns either a boolean tensor or a python bool.
+        (cond_output,) = [n for n in cond_fn_module.graph.nodes if n.op == "output"]
+        cond_result = cond_output.args[0]
+        if isinstance(cond_result, (list, tuple)):
+            (cond_result,) = cond_result
+        cond_result_type = self._cc.node_val_to_type(cond_result)
+        cond_is_tensor = cond_result_type != self._cc.torch_bool_type
+
+        def convert_condition(value):
+            # Convert vtensor<bool> to torch.bool
+            if not cond_is_tensor:
+                return value
+            return Operation.create(
+                name="torch.aten.Bool.Tensor",
+                results=[self._cc.torch_bool_type],
+                operands=[value],
+                loc=loc,
+            ).result
 
+        # Call the condition function with initial carries to get initial condition
         initial_cond_call = Operation.create(
             "func.call",
             attributes={"callee": FlatSymbolRefAttr.get(cond_fn_name)},
@@ -1833,13 +1850,7 @@ class GraphNodeImporter:
             loc=loc,
         )
 
-        # Convert vtensor<bool> to torch.bool
-        bool_conv = Operation.create(
-            name="torch.aten.Bool.Tensor",
-            results=[self._cc.torch_bool_type],
-            operands=[initial_cond_call.results[0]],
-            loc=loc,
-        )
+        initial_cond = convert_condition(initial_cond_call.results[0])
 
         # Create max iterations constant (INT64_MAX)
         with loc:
@@ -1853,7 +1864,7 @@ class GraphNodeImporter:
         loop_op = Operation.create(
             name="torch.prim.Loop",
             results=result_types,
-            operands=[max_iter.results[0], bool_conv.results[0]] + carry_values,
+            operands=[max_iter.results[0], initial_cond] + carry_values,
             regions=1,
             loc=loc,
         )
@@ -1882,18 +1893,12 @@ class GraphNodeImporter:
             cond_result_loop = Operation.create(
                 name="func.call",
                 attributes={"callee": FlatSymbolRefAttr.get(cond_fn_name)},
-                results=[IrType.parse("!torch.vtensor<[],i1>", context=self._c)],
+                results=[cond_result_type],
                 operands=body_results + additional_values,
                 loc=loc,
             ).result
 
-            # Convert to bool
-            cond_bool = Operation.create(
-                name="torch.aten.Bool.Tensor",
-                results=[self._cc.torch_bool_type],
-                operands=[cond_result_loop],
-                loc=loc,
-            ).result
+            cond_bool = convert_condition(cond_result_loop)
 
             # Emit loop condition with updated carries
             Operation.create(
-- 
2.43.0


From 5097d46e60024e2664bc2b4ee06079bb55f27d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 15/59] fix: child function names made unique may still collide

---
 python/torch_mlir/extras/fx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 98b6e68..f7d0f69 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1036,7 +1036,7 @@ class FxImporter:
         if module_id not in self._graph_module_to_func_name:
             # Ensure the func_name is unique
             final_func_name = func_name
-            if func_name in self._graph_module_to_func_name.values():
+            while final_func_name in self._graph_module_to_func_name.values():
                 final_func_name = f"{func_name}_{self._func_name_counter}"
                 self._func_name_counter += 1
             self._graph_module_to_func_name[module_id] = final_func_name
-- 
2.43.0


From cd00ce3d65275eb1d85a7f1608d4b9518cd24548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:43 +0000
Subject: [PATCH 16/59] fix: function names of child modules must not follow
 reused ids

---
 python/torch_mlir/extras/fx_importer.py | 32 ++++++++++++-------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index f7d0f69..04bf2ac 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -563,6 +563,7 @@ class FxImporter:
         "symbol_table",
         "_graph_module_to_func_name",
         "_func_name_counter",
+        "_func_names",
     ]
 
     def __init__(
@@ -590,8 +591,11 @@ class FxImporter:
         self._hooks = hooks or FxImporterHooks()
         self.symbol_table = SymbolTable(self._m.operation)
         self._hooks.prepare_module(self._m.operation)
-        # Used specifically in HOPs to map module IDs to function names
-        self._graph_module_to_func_name: Dict[int, str] = {}
+        # Used specifically in HOPs to map modules to function names. The keys are
+        # weak references rather than ids, which may be reused by later modules.
+        self._graph_module_to_func_name = weakref.WeakKeyDictionary()
+        # Names given to the functions of all modules imported so far
+        self._func_names: Set[str] = set()
         # Handles collision of function names in the same module
         self._func_name_counter: int = 0
 
@@ -1032,17 +1036,17 @@ class FxImporter:
         it should be removed when no longer required for backwards compatibility.
         """
         # Store the mapping for this module itself (HOPs will need to look this up)
-        module_id = id(gm)
-        if module_id not in self._graph_module_to_func_name:
+        if gm not in self._graph_module_to_func_name:
             # Ensure the func_name is unique
             final_func_name = func_name
-            while final_func_name in self._graph_module_to_func_name.values():
+            while final_func_name in self._func_names:
                 final_func_name = f"{func_name}_{self._func_name_counter}"
                 self._func_name_counter += 1
-            self._graph_module_to_func_name[module_id] = final_func_name
+            self._func_names.add(final_func_name)
+            self._graph_module_to_func_name[gm] = final_func_name
         else:
             # Module already imported, use existing name
-            final_func_name = self._graph_module_to_func_name[module_id]
+            final_func_name = self._graph_module_to_func_name[gm]
 
         self._import_all_child_modules(gm, func_name, import_symbolic_shape_expressions)
         # Then import this module's own graph
@@ -1795,14 +1799,14 @@ class GraphNodeImporter:
         body_fn_module = getattr(root_module, body_fn_node.target, None)
 
         # Generate function names with module IDs for uniqueness
-        cond_fn_name = self.fx_importer._graph_module_to_func_name[id(cond_fn_module)]
-        body_fn_name = self.fx_importer._graph_module_to_func_name[id(body_fn_module)]
+        cond_fn_name = self.fx_importer._graph_module_to_func_name[cond_fn_module]
+        body_fn_name = self.fx_importer._graph_module_to_func_name[body_fn_module]
 
         # Import the carries (loop state variables)
         def import_values(args):
             values = []
             for arg in args:
-                if isinstance(arg, tuple):
+                if isinstance(arg, (tuple, list)):
                     # Handle tuples by importing each element
                     values.extend(self._import_tuple_argument(loc, arg, None))
                 else:
@@ -2013,9 +2017,7 @@ class GraphNodeImporter:
             root_module = node.graph.owning_module
             score_mod_module = getattr(root_module, score_mod_arg.target, None)
             if score_mod_module is not None:
-                score_mod_func_name = self.fx_importer._graph_module_to_func_name[
-                    id(score_mod_module)
-                ]
+                score_mod_func_name = self.fx_importer._graph_module_to_func_name[score_mod_module]
                 score_mod_ref = FlatSymbolRefAttr.get(score_mod_func_name)
 
         # Handle block_mask: extract only mask_mod function reference
@@ -2032,9 +2034,7 @@ class GraphNodeImporter:
                 ), f"Expected get_attr for mask_mod, got {mask_mod_arg.op}"
                 mask_mod_module = getattr(root_module, mask_mod_arg.target, None)
                 if mask_mod_module is not None:
-                    mask_mod_func_name = self.fx_importer._graph_module_to_func_name[
-                        id(mask_mod_module)
-                    ]
+                    mask_mod_func_name = self.fx_importer._graph_module_to_func_name[mask_mod_module]
                     mask_mod_ref = FlatSymbolRefAttr.get(mask_mod_func_name)
 
         # Import scale (float or None)
-- 
2.43.0


From a4ba4760cf9c67398af75c32475819d3b5e8f7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 17/59] fix: sparse encoding of BSC tensors

---
 python/torch_mlir/extras/fx_importer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 04bf2ac..873ff9f 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -435,15 +435,18 @@ def sparsity_encoding(t: torch.Tensor) -> str:
         assert sparse_dim == 2
         blocksize = t.values().shape[batch_dim + 1 : batch_dim + 3]
         if t.layout is torch.sparse_bsr:
-            i, j = batch_dim, batch_dim + 1
             idx_dtype = t.col_indices().dtype
         else:
             assert t.layout is torch.sparse_bsc
-            j, i = batch_dim, batch_dim + 1
             idx_dtype = t.row_indices().dtype
+        # BSC traverses the blocks by column, but both layouts store the elements
+        # of a block in row-major order.
+        i, j = batch_dim, batch_dim + 1
         m, n = blocksize
+        rows, cols = f"d{i} floordiv {m}", f"d{j} floordiv {n}"
+        outer, inner = (rows, cols) if t.layout is torch.sparse_bsr else (cols, rows)
         lvls = (
-            f"d{i} floordiv {m}:dense,d{j} floordiv {n}:compressed,"
+            f"{outer}:dense,{inner}:compressed,"
             f"d{i} mod {m}:dense,d{j} mod {n}:dense"
         )
 
-- 
2.43.0


From 49c3cc24c04a0f5c8fbfde6eb8f43b3dfa0f7e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 18/59] fix: a get_attr node may be used as an argument more
 than once

---
 python/torch_mlir/extras/fx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 873ff9f..4d90e36 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -2264,7 +2264,7 @@ class GraphNodeImporter:
                 raise RuntimeError(f"Attempt to de-reference a multi-result node")
 
             # catch references to dynamically created constant attributes and make sure they have an origin in our module
-            if arg.op == "get_attr" and (arg.target, 0) not in self._v:
+            if arg.op == "get_attr" and (arg, 0) not in self._v:
                 gm = arg.graph.owning_module
                 assert hasattr(
                     gm, arg.target
-- 
2.43.0


From 8e6e1d2fd52cf43b4401be4779da03ecf6f2e5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 19/59] fix: ONNX tensors without a shape are unranked, not of
 rank 0

---
 python/torch_mlir/extras/onnx_importer.py | 34 ++++++++++++++---------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index 1597a8f..f5eea99 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -647,15 +647,20 @@ class ContextCache:
             self._optional_type_map[key] = t
         return t
 
+    def _get_shape_asm(self, tt: onnx.TypeProto.Tensor) -> str:
+        # An absent shape means that not even the rank is known.
+        if not tt.HasField("shape"):
+            return "*"
+        dims = tuple(
+            (d.dim_value if d.HasField("dim_value") else None) for d in tt.shape.dim
+        )
+        return "[" + ",".join("?" if d is None else str(d) for d in dims) + "]"
+
     def get_list_element_type(self, tp: onnx.TypeProto) -> IrType:
         tt = tp.tensor_type
         if tt.elem_type:
             element_type = self.tensor_element_type(tt.elem_type)
-            dims = tuple(
-                (d.dim_value if d.HasField("dim_value") else None) for d in tt.shape.dim
-            )
-            shape_asm = ",".join("?" if d is None else str(d) for d in dims)
-            return f"vtensor<[{shape_asm}],{element_type}>"
+            return f"vtensor<{self._get_shape_asm(tt)},{element_type}>"
 
         raise OnnxImportError(f"Unsupport list element type")
 
@@ -664,11 +669,7 @@ class ContextCache:
         tt = tp.tensor_type
         if tt.elem_type:
             element_type = self.tensor_element_type(tt.elem_type)
-            dims = tuple(
-                (d.dim_value if d.HasField("dim_value") else None) for d in tt.shape.dim
-            )
-            shape_asm = ",".join("?" if d is None else str(d) for d in dims)
-            return f"vtensor<[{shape_asm}],{element_type}>"
+            return f"vtensor<{self._get_shape_asm(tt)},{element_type}>"
 
         if st.elem_type:
             element_type = self.get_list_element_type(st.elem_type)
@@ -677,13 +678,17 @@ class ContextCache:
         raise OnnxImportError(f"Unsupport optional element type")
 
     def get_vtensor_type(
-        self, dims: Tuple[Optional[int]], element_type: IrType
+        self, dims: Optional[Tuple[Optional[int]]], element_type: IrType
     ) -> IrType:
         key = (dims, element_type)
         t = self._vtensor_type_map.get(key)
         if t is None:
-            shape_asm = ",".join("?" if d is None else str(d) for d in dims)
-            asm = f"!torch.vtensor<[{shape_asm}],{str(element_type)}>"
+            if dims is None:
+                shape_asm = "*"
+            else:
+                shape_asm = ",".join("?" if d is None else str(d) for d in dims)
+                shape_asm = f"[{shape_asm}]"
+            asm = f"!torch.vtensor<{shape_asm},{str(element_type)}>"
             try:
                 t = IrType.parse(asm, context=self._c)
             except MLIRError as e:
@@ -717,6 +722,9 @@ class ContextCache:
         tt = tp.tensor_type
         if tt.elem_type:
             element_type = self.tensor_element_type(tt.elem_type)
+            # An absent shape means that not even the rank is known.
+            if not tt.HasField("shape"):
+                return self.get_vtensor_type(None, element_type)
             dims = tuple(
                 # NOTE: dynamic dimension can either be denoted by d.dim_param being set
                 #       (and d.dim_value consequently not set) or
-- 
2.43.0


From 886eefb897693d6d9c9bcf7440d3f737e8b55daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 20/59] fix: accept ai.onnx as the name of ONNX's default
 domain

---
 python/torch_mlir/extras/onnx_importer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index f5eea99..a909445 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -317,7 +317,7 @@ class NodeImporter:
             default_opset_version = 0
             opset_versions: Dict[str, IntegerAttr] = {}
             for opset_import in m.opset_import:
-                if opset_import.domain:
+                if opset_import.domain and opset_import.domain != "ai.onnx":
                     opset_versions[opset_import.domain] = IntegerAttr.get(
                         i64_type, opset_import.version
                     )
@@ -383,7 +383,8 @@ class NodeImporter:
     def import_node(self, node: onnx.NodeProto):
         with InsertionPoint(self._b), Location.name(node.name):
             op_type = node.op_type
-            op_domain = node.domain
+            # ONNX's default domain has two names.
+            op_domain = "" if node.domain == "ai.onnx" else node.domain
 
             # Handle special op types that materialize to non-op IR constructs.
             # Handlers return True if the op was handled, else this function
@@ -425,7 +426,9 @@ class NodeImporter:
                 output_types.append(self._cc.type_proto_to_type(type_proto))
 
             for opset_import in self._gi.model_info.model_proto.opset_import:
-                if opset_import.domain == op_domain:
+                if opset_import.domain == op_domain or (
+                    op_domain == "" and opset_import.domain == "ai.onnx"
+                ):
                     opset_version = opset_import.version
                     break
             operator_func_op = self._mc.get_operator_function(
-- 
2.43.0


From 4413a382ea54bf86519921836c07faf1285bef1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 21/59] fix: expand ONNX functions that have no inputs

---
 python/torch_mlir/extras/onnx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index a909445..4031b81 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -924,11 +924,11 @@ def _specialize_function_and_create_model(
         input_proto.name = input_name
         input_proto.type.CopyFrom(input_type_proto)
         graph_proto.input.append(input_proto)
-        output_proto = onnx.ValueInfoProto()
 
     for output_name, output_type_proto in zip(
         function_proto.output, output_type_protos
     ):
+        output_proto = onnx.ValueInfoProto()
         output_proto.name = output_name
         output_proto.type.CopyFrom(output_type_proto)
         graph_proto.output.append(output_proto)
-- 
2.43.0


From db587843ff94711c2d6801dc1a7ffc7d84a6b6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 22/59] fix: bind function attributes referenced inside
 subgraphs

---
 python/torch_mlir/extras/onnx_importer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index 4031b81..479464d 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -817,6 +817,7 @@ def _bind_attributes_on_node(
         """
         Recurse to bind attributes in a subgraph.
         """
+        new_subgraph = onnx.GraphProto()
         new_subgraph.CopyFrom(old_subgraph)
         old_nodes = _shallow_copy_and_clear_protobuf_list(new_subgraph.node)
         for old_node in old_nodes:
@@ -841,7 +842,7 @@ def _bind_attributes_on_node(
 
         ref_name = old_attribute.ref_attr_name
         if not ref_name:
-            if not old_attribute.g or len(old_attribute.graphs) == 0:
+            if not old_attribute.HasField("g") and len(old_attribute.graphs) == 0:
                 return old_attribute
 
             # Recurse to bind attributes on subgraphs. ONNX's implementation of
@@ -849,9 +850,11 @@ def _bind_attributes_on_node(
             # from a referenced attribute value, so this code doesn't either.
             new_attribute = onnx.AttributeProto()
             new_attribute.CopyFrom(old_attribute)
-            if new_attribute.g:
-                new_attribute.g = _bind_attributes_in_subgraph(
-                    new_attribute.g, caller_node, op_schema
+            if new_attribute.HasField("g"):
+                new_attribute.g.CopyFrom(
+                    _bind_attributes_in_subgraph(
+                        old_attribute.g, caller_node, op_schema
+                    )
                 )
             if new_attribute.graphs:
                 old_subgraphs = _shallow_copy_and_clear_protobuf_list(
-- 
2.43.0


From d77d302b41743139f2f325c6b2aec41a88e420f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:42 +0000
Subject: [PATCH 23/59] fix: functions called in a subgraph get the types of
 outer values

---
 python/torch_mlir/extras/onnx_importer.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index 479464d..3e40f66 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -157,8 +157,10 @@ class GraphInfo:
         model_info: ModelInfo,
         graph_proto: onnx.GraphProto,
         is_subgraph: bool = False,
+        outer_graph_info: Optional["GraphInfo"] = None,
     ):
         self.model_info = model_info
+        self.outer_graph_info = outer_graph_info
         self.graph_proto = graph_proto
         self.initializer_map: Dict[str, onnx.TensorProto] = {
             n.name: n for n in graph_proto.initializer
@@ -213,6 +215,10 @@ class GraphInfo:
                 tensor_proto.data_type, tensor_proto.dims
             )
 
+        # A subgraph can use the values of the graphs around it.
+        if self.outer_graph_info is not None:
+            return self.outer_graph_info.find_type_proto_for_name(name)
+
         # No type information is associated, this can occur when the value is unused:
         return ""
 
@@ -514,7 +520,12 @@ class NodeImporter:
                 *block_types, arg_locs=[op.location] * len(block_types)
             )
             block = region.blocks[0]
-            graph_info = GraphInfo(self._gi.model_info, attr.g, is_subgraph=True)
+            graph_info = GraphInfo(
+                self._gi.model_info,
+                attr.g,
+                is_subgraph=True,
+                outer_graph_info=self._gi,
+            )
             imp = NodeImporter(
                 graph_info,
                 parent_op=op,
-- 
2.43.0


From ced802d01bf3dd19de6db79087c677a374fae41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 24/59] fix: e2e reports: compare float results by distance,
 not signed ratio

`abs(value - golden) / golden > 1e-4` never fails for a negative, NaN or
infinite golden value (or a NaN result) and divides by zero for a golden
value of 0.0.
---
 projects/pt1/python/torch_mlir_e2e_test/reporting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/pt1/python/torch_mlir_e2e_test/reporting.py b/projects/pt1/python/torch_mlir_e2e_test/reporting.py
index a59fc7e..c79e7cd 100644
--- a/projects/pt1/python/torch_mlir_e2e_test/reporting.py
+++ b/projects/pt1/python/torch_mlir_e2e_test/reporting.py
@@ -10,6 +10,7 @@ from typing import Any, List, Optional, Set
 
 import collections
 import io
+import math
 import textwrap
 
 import torch
@@ -82,7 +83,8 @@ class ValueReport:
         if isinstance(golden, float):
             if not isinstance(value, float):
                 return self._record_mismatch_type_failure("float", value)
-            if abs(value - golden) / golden > 1e-4:
+            both_nan = math.isnan(value) and math.isnan(golden)
+            if not both_nan and not math.isclose(value, golden, rel_tol=1e-4):
                 return self._record_failure(
                     f"value ({value!r}) is not close to golden value ({golden!r})"
                 )
-- 
2.43.0


From 3e78089f2990e2359e74c49472f7c566edb9e3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 25/59] fix: e2e reports: fail a test whose trace has missing
 or extra items

The traces were zipped, so items beyond the shorter one were never compared
and a backend that dropped calls passed.
---
 projects/pt1/python/torch_mlir_e2e_test/reporting.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/projects/pt1/python/torch_mlir_e2e_test/reporting.py b/projects/pt1/python/torch_mlir_e2e_test/reporting.py
index c79e7cd..bccd727 100644
--- a/projects/pt1/python/torch_mlir_e2e_test/reporting.py
+++ b/projects/pt1/python/torch_mlir_e2e_test/reporting.py
@@ -248,7 +248,12 @@ class SingleTestReport:
         self.result = result
         self.context = context
         self.item_reports = None
+        self.length_error = None
         if result.compilation_error is None and result.runtime_error is None:
+            if len(result.trace) != len(result.golden_trace):
+                self.length_error = context.format_error(
+                    f"trace has {len(result.trace)} items, but the golden trace has {len(result.golden_trace)}"
+                )
             self.item_reports = []
             for i, (item, golden_item) in enumerate(
                 zip(result.trace, result.golden_trace)
@@ -267,6 +272,8 @@ class SingleTestReport:
             return True
         elif self.result.runtime_error is not None:
             return True
+        elif self.length_error is not None:
+            return True
         return any(r.failed for r in self.item_reports)
 
     def error_str(self):
@@ -277,6 +284,8 @@ class SingleTestReport:
             return "Compilation error: " + self.result.compilation_error
         elif self.result.runtime_error is not None:
             return "Runtime error: " + self.result.runtime_error
+        if self.length_error is not None:
+            p(self.length_error)
         for report in self.item_reports:
             if report.failed:
                 p(report.error_str())
-- 
2.43.0


From f827ef534f12fb24f841a06b68bfb13c2b92a422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 26/59] fix: e2e traces: record the output of a call as it is
 when the call returns

An output that aliases an input or a buffer was recorded by reference, so
later in-place mutation changed the golden (and the actual) output and a
wrong intermediate result could not be noticed.
---
 .../torch_mlir_e2e_test/configs/native_torch.py    | 14 ++++++++++++--
 .../torch_mlir_e2e_test/configs/torchscript.py     | 14 ++++++++++++--
 .../pt1/python/torch_mlir_e2e_test/framework.py    |  4 +++-
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/projects/pt1/python/torch_mlir_e2e_test/configs/native_torch.py b/projects/pt1/python/torch_mlir_e2e_test/configs/native_torch.py
index 7ab251f..8a8ca87 100644
--- a/projects/pt1/python/torch_mlir_e2e_test/configs/native_torch.py
+++ b/projects/pt1/python/torch_mlir_e2e_test/configs/native_torch.py
@@ -5,7 +5,12 @@
 
 import torch
 
-from torch_mlir_e2e_test.framework import TestConfig, Trace, TraceItem
+from torch_mlir_e2e_test.framework import (
+    TestConfig,
+    Trace,
+    TraceItem,
+    clone_torch_script_value,
+)
 
 
 class NativeTorchTestConfig(TestConfig):
@@ -26,6 +31,11 @@ class NativeTorchTestConfig(TestConfig):
         for item in trace:
             output = getattr(artifact, item.symbol)(*item.inputs)
             result.append(
-                TraceItem(symbol=item.symbol, inputs=item.inputs, output=output)
+                TraceItem(
+                    symbol=item.symbol,
+                    inputs=item.inputs,
+                    # The output might alias state that later calls mutate.
+                    output=clone_torch_script_value(output),
+                )
             )
         return result
diff --git a/projects/pt1/python/torch_mlir_e2e_test/configs/torchscript.py b/projects/pt1/python/torch_mlir_e2e_test/configs/torchscript.py
index 7057a01..97f74c6 100644
--- a/projects/pt1/python/torch_mlir_e2e_test/configs/torchscript.py
+++ b/projects/pt1/python/torch_mlir_e2e_test/configs/torchscript.py
@@ -8,7 +8,12 @@ from typing import Any
 
 import torch
 
-from torch_mlir_e2e_test.framework import TestConfig, Trace, TraceItem
+from torch_mlir_e2e_test.framework import (
+    TestConfig,
+    Trace,
+    TraceItem,
+    clone_torch_script_value,
+)
 
 
 class TorchScriptTestConfig(TestConfig):
@@ -33,6 +38,11 @@ class TorchScriptTestConfig(TestConfig):
                 attr = getattr(attr, part)
             output = attr(*item.inputs)
             result.append(
-                TraceItem(symbol=item.symbol, inputs=item.inputs, output=output)
+                TraceItem(
+                    symbol=item.symbol,
+                    inputs=item.inputs,
+                    # The output might alias state that later calls mutate.
+                    output=clone_torch_script_value(output),
+                )
             )
         return result
diff --git a/projects/pt1/python/torch_mlir_e2e_test/framework.py b/projects/pt1/python/torch_mlir_e2e_test/framework.py
index c24af96..bcfb598 100644
--- a/projects/pt1/python/torch_mlir_e2e_test/framework.py
+++ b/projects/pt1/python/torch_mlir_e2e_test/framework.py
@@ -282,7 +282,9 @@ class _Tracer:
             TraceItem(
                 symbol=".".join(self.__property_base_path__),
                 inputs=inputs,
-                output=output,
+                # Clone the output as well: it might alias an input or a buffer
+                # which is mutated in place later on.
+                output=clone_torch_script_value(output),
             )
         )
         return output
-- 
2.43.0


From 87c2a5a59bdebb2bef7f878cae7501855ef7341e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 27/59] fix: native torch e2e config: resolve symbols of
 submodules

Trace symbols such as "submodule.forward" were looked up as a single
attribute name, so tests that call into a submodule could not run.
---
 .../pt1/python/torch_mlir_e2e_test/configs/native_torch.py   | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/projects/pt1/python/torch_mlir_e2e_test/configs/native_torch.py b/projects/pt1/python/torch_mlir_e2e_test/configs/native_torch.py
index 8a8ca87..d95b0ab 100644
--- a/projects/pt1/python/torch_mlir_e2e_test/configs/native_torch.py
+++ b/projects/pt1/python/torch_mlir_e2e_test/configs/native_torch.py
@@ -29,7 +29,10 @@ class NativeTorchTestConfig(TestConfig):
         # stateful then it does not mutate the original compiled program.
         result: Trace = []
         for item in trace:
-            output = getattr(artifact, item.symbol)(*item.inputs)
+            attr = artifact
+            for part in item.symbol.split("."):
+                attr = getattr(attr, part)
+            output = attr(*item.inputs)
             result.append(
                 TraceItem(
                     symbol=item.symbol,
-- 
2.43.0


From 2ad69bd4f67d44ad147f166ff94c51cc7fc3aa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:52 +0000
Subject: [PATCH 28/59] fix: e2e framework: name the time limit in the
 execution timeout error

---
 projects/pt1/python/torch_mlir_e2e_test/framework.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/pt1/python/torch_mlir_e2e_test/framework.py b/projects/pt1/python/torch_mlir_e2e_test/framework.py
index bcfb598..9c855aa 100644
--- a/projects/pt1/python/torch_mlir_e2e_test/framework.py
+++ b/projects/pt1/python/torch_mlir_e2e_test/framework.py
@@ -361,7 +361,7 @@ def compile_and_run_test(test: Test, config: TestConfig, verbose=False) -> Any:
             return TestResult(
                 unique_name=test.unique_name,
                 compilation_error=None,
-                runtime_error="Test timed out during execution (timeout={test.timeout}s)",
+                runtime_error=f"Test timed out during execution (timeout={test.timeout_seconds}s)",
                 trace=None,
                 golden_trace=None,
             )
-- 
2.43.0


From 3d9235da91c026cb1a97f85d4e6b2535641fee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:37 +0000
Subject: [PATCH 29/59] fix: lockstep debug backend: support operations that
 use a value twice

The single-operation module had two parameters of the same name, which is a
SyntaxError for operations such as mul(x, x).
---
 projects/pt1/python/torch_mlir_e2e_test/debug/lockstep.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/projects/pt1/python/torch_mlir_e2e_test/debug/lockstep.py b/projects/pt1/python/torch_mlir_e2e_test/debug/lockstep.py
index f560ceb..bde43af 100644
--- a/projects/pt1/python/torch_mlir_e2e_test/debug/lockstep.py
+++ b/projects/pt1/python/torch_mlir_e2e_test/debug/lockstep.py
@@ -16,8 +16,9 @@ def _make_single_op_gm(node) -> torch.fx.GraphModule:
     env = {}
     # TODO: Handle kwargs.
     assert not node.kwargs, "kwargs not supported yet"
-    for arg in node.args:
-        env[arg.name] = g.placeholder(arg.name)
+    for i, arg in enumerate(node.args):
+        # Number the placeholders, since the same node can be used repeatedly.
+        env[arg.name] = g.placeholder(f"{arg.name}_{i}")
     call = g.node_copy(node, lambda n: env[n.name])
     g.output(call)
     g.lint()
-- 
2.43.0


From f6cb75215c0d954bb1f680918afd3078588fc6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 30/59] fix: TensorPlaceholder.like: honour negative dynamic
 axes

An axis counted from the end, such as dynamic_axes=[-1], was silently
ignored and the dimension stayed static.
---
 python/torch_mlir/compiler_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/compiler_utils.py b/python/torch_mlir/compiler_utils.py
index fa056e5..e405555 100644
--- a/python/torch_mlir/compiler_utils.py
+++ b/python/torch_mlir/compiler_utils.py
@@ -56,7 +56,7 @@ class TensorPlaceholder:
             dynamic_axes = []
         shape = []
         for i, dim in enumerate(tensor.shape):
-            if i in dynamic_axes:
+            if i in dynamic_axes or i - tensor.dim() in dynamic_axes:
                 shape.append(-1)
             else:
                 shape.append(dim)
-- 
2.43.0


From 16bb78d7d6a5d2a7396f0249ac18d70b5085211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:24 +0000
Subject: [PATCH 31/59] fix: torchscript: trace rank-0 placeholders with their
 own dtype

A rank-0 TensorPlaceholder was replaced by an int64 tensor for tracing, so
the trace recorded the dtypes of a different program.
---
 projects/pt1/python/torch_mlir/torchscript.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/projects/pt1/python/torch_mlir/torchscript.py b/projects/pt1/python/torch_mlir/torchscript.py
index cf97983..df82b05 100644
--- a/projects/pt1/python/torch_mlir/torchscript.py
+++ b/projects/pt1/python/torch_mlir/torchscript.py
@@ -132,7 +132,9 @@ class ExampleArgs:
                         # correct for any specific concrete size.
                         shape = [s if s != -1 else 7 for s in arg.shape]
                         if len(shape) == 0:
-                            example_args_for_trace.append(torch.tensor(1))
+                            example_args_for_trace.append(
+                                torch.tensor(1, dtype=arg.dtype)
+                            )
                         else:
                             example_args_for_trace.append(
                                 torch.ones(*shape, dtype=arg.dtype)
-- 
2.43.0


From 72d12c41be6d7fcd6da8989b3c0a46468b2d64d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 32/59] fix: dynamo fx importer: do not drop parameters passed
 by keyword

A parameter that is not keyword-only but was passed by keyword was silently
replaced by its default value (None if it has none).
---
 projects/pt1/python/torch_mlir/_dynamo_fx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
index 81908d8..8acd9ac 100644
--- a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
+++ b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
@@ -318,7 +318,7 @@ class _FXGraphImporter:
         # `Argument` is the term that FX uses analogous to mlir "Value". It is
         # more precise to call them "formal parameters".
         for i, parameter in enumerate(node.target._schema.arguments):
-            if parameter.kwarg_only and parameter.name in node.kwargs:
+            if parameter.name in node.kwargs:
                 arg = node.kwargs[parameter.name]
             elif i < len(node.args):
                 arg = node.args[i]
-- 
2.43.0


From e15178f3abdb04b666326c34cf706f48c0e52240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:18 +0000
Subject: [PATCH 33/59] fix: dynamo fx importer: use the codes of c10::Layout

Code 3 is Mkldnn, so sparse_csc, sparse_bsr and sparse_bsc were each imported
as another layout.
---
 projects/pt1/python/torch_mlir/_dynamo_fx_importer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
index 8acd9ac..e07fc6a 100644
--- a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
+++ b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
@@ -228,9 +228,10 @@ LAYOUT_TO_INT = {
     torch.strided: 0,
     torch.sparse_coo: 1,
     torch.sparse_csr: 2,
-    torch.sparse_csc: 3,
-    torch.sparse_bsr: 4,
-    torch.sparse_bsc: 5,
+    # Mkldnn 3
+    torch.sparse_csc: 4,
+    torch.sparse_bsr: 5,
+    torch.sparse_bsc: 6,
 }
 
 
-- 
2.43.0


From 21d58ed4d505d1638b0f408fc5171c9944550d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:07 +0000
Subject: [PATCH 34/59] Revert "fix: lockstep debug backend: support operations
 that use a value twice"

This reverts commit 3d9235da91c026cb1a97f85d4e6b2535641fee1f.
---
 projects/pt1/python/torch_mlir_e2e_test/debug/lockstep.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/projects/pt1/python/torch_mlir_e2e_test/debug/lockstep.py b/projects/pt1/python/torch_mlir_e2e_test/debug/lockstep.py
index bde43af..f560ceb 100644
--- a/projects/pt1/python/torch_mlir_e2e_test/debug/lockstep.py
+++ b/projects/pt1/python/torch_mlir_e2e_test/debug/lockstep.py
@@ -16,9 +16,8 @@ def _make_single_op_gm(node) -> torch.fx.GraphModule:
     env = {}
     # TODO: Handle kwargs.
     assert not node.kwargs, "kwargs not supported yet"
-    for i, arg in enumerate(node.args):
-        # Number the placeholders, since the same node can be used repeatedly.
-        env[arg.name] = g.placeholder(f"{arg.name}_{i}")
+    for arg in node.args:
+        env[arg.name] = g.placeholder(arg.name)
     call = g.node_copy(node, lambda n: env[n.name])
     g.output(call)
     g.lint()
-- 
2.43.0


From e1f848d045c2e1548b38a4cfebff1fb6a36397e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:07 +0000
Subject: [PATCH 35/59] Revert "fix: e2e framework: name the time limit in the
 execution timeout error"

This reverts commit 2ad69bd4f67d44ad147f166ff94c51cc7fc3aa3b.
---
 projects/pt1/python/torch_mlir_e2e_test/framework.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/projects/pt1/python/torch_mlir_e2e_test/framework.py b/projects/pt1/python/torch_mlir_e2e_test/framework.py
index 9c855aa..bcfb598 100644
--- a/projects/pt1/python/torch_mlir_e2e_test/framework.py
+++ b/projects/pt1/python/torch_mlir_e2e_test/framework.py
@@ -361,7 +361,7 @@ def compile_and_run_test(test: Test, config: TestConfig, verbose=False) -> Any:
             return TestResult(
                 unique_name=test.unique_name,
                 compilation_error=None,
-                runtime_error=f"Test timed out during execution (timeout={test.timeout_seconds}s)",
+                runtime_error="Test timed out during execution (timeout={test.timeout}s)",
                 trace=None,
                 golden_trace=None,
             )
-- 
2.43.0


From f10d9ff5532521dadd56f9355248e19ba83b5ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:07 +0000
Subject: [PATCH 36/59] Revert "fix: native torch e2e config: resolve symbols
 of submodules"

This reverts commit 87c2a5a59bdebb2bef7f878cae7501855ef7341e.
---
 .../pt1/python/torch_mlir_e2e_test/configs/native_torch.py   | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/projects/pt1/python/torch_mlir_e2e_test/configs/native_torch.py b/projects/pt1/python/torch_mlir_e2e_test/configs/native_torch.py
index d95b0ab..8a8ca87 100644
--- a/projects/pt1/python/torch_mlir_e2e_test/configs/native_torch.py
+++ b/projects/pt1/python/torch_mlir_e2e_test/configs/native_torch.py
@@ -29,10 +29,7 @@ class NativeTorchTestConfig(TestConfig):
         # stateful then it does not mutate the original compiled program.
         result: Trace = []
         for item in trace:
-            attr = artifact
-            for part in item.symbol.split("."):
-                attr = getattr(attr, part)
-            output = attr(*item.inputs)
+            output = getattr(artifact, item.symbol)(*item.inputs)
             result.append(
                 TraceItem(
                     symbol=item.symbol,
-- 
2.43.0


From a8dab77eab9c46cba8807a4c5294ab077c7627c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:07 +0000
Subject: [PATCH 37/59] Revert "fix: e2e traces: record the output of a call as
 it is when the call returns"

This reverts commit f827ef534f12fb24f841a06b68bfb13c2b92a422.
---
 .../torch_mlir_e2e_test/configs/native_torch.py    | 14 ++------------
 .../torch_mlir_e2e_test/configs/torchscript.py     | 14 ++------------
 .../pt1/python/torch_mlir_e2e_test/framework.py    |  4 +---
 3 files changed, 5 insertions(+), 27 deletions(-)

diff --git a/projects/pt1/python/torch_mlir_e2e_test/configs/native_torch.py b/projects/pt1/python/torch_mlir_e2e_test/configs/native_torch.py
index 8a8ca87..7ab251f 100644
--- a/projects/pt1/python/torch_mlir_e2e_test/configs/native_torch.py
+++ b/projects/pt1/python/torch_mlir_e2e_test/configs/native_torch.py
@@ -5,12 +5,7 @@
 
 import torch
 
-from torch_mlir_e2e_test.framework import (
-    TestConfig,
-    Trace,
-    TraceItem,
-    clone_torch_script_value,
-)
+from torch_mlir_e2e_test.framework import TestConfig, Trace, TraceItem
 
 
 class NativeTorchTestConfig(TestConfig):
@@ -31,11 +26,6 @@ class NativeTorchTestConfig(TestConfig):
         for item in trace:
             output = getattr(artifact, item.symbol)(*item.inputs)
             result.append(
-                TraceItem(
-                    symbol=item.symbol,
-                    inputs=item.inputs,
-                    # The output might alias state that later calls mutate.
-                    output=clone_torch_script_value(output),
-                )
+                TraceItem(symbol=item.symbol, inputs=item.inputs, output=output)
             )
         return result
diff --git a/projects/pt1/python/torch_mlir_e2e_test/configs/torchscript.py b/projects/pt1/python/torch_mlir_e2e_test/configs/torchscript.py
index 97f74c6..7057a01 100644
--- a/projects/pt1/python/torch_mlir_e2e_test/configs/torchscript.py
+++ b/projects/pt1/python/torch_mlir_e2e_test/configs/torchscript.py
@@ -8,12 +8,7 @@ from typing import Any
 
 import torch
 
-from torch_mlir_e2e_test.framework import (
-    TestConfig,
-    Trace,
-    TraceItem,
-    clone_torch_script_value,
-)
+from torch_mlir_e2e_test.framework import TestConfig, Trace, TraceItem
 
 
 class TorchScriptTestConfig(TestConfig):
@@ -38,11 +33,6 @@ class TorchScriptTestConfig(TestConfig):
                 attr = getattr(attr, part)
             output = attr(*item.inputs)
             result.append(
-                TraceItem(
-                    symbol=item.symbol,
-                    inputs=item.inputs,
-                    # The output might alias state that later calls mutate.
-                    output=clone_torch_script_value(output),
-                )
+                TraceItem(symbol=item.symbol, inputs=item.inputs, output=output)
             )
         return result
diff --git a/projects/pt1/python/torch_mlir_e2e_test/framework.py b/projects/pt1/python/torch_mlir_e2e_test/framework.py
index bcfb598..c24af96 100644
--- a/projects/pt1/python/torch_mlir_e2e_test/framework.py
+++ b/projects/pt1/python/torch_mlir_e2e_test/framework.py
@@ -282,9 +282,7 @@ class _Tracer:
             TraceItem(
                 symbol=".".join(self.__property_base_path__),
                 inputs=inputs,
-                # Clone the output as well: it might alias an input or a buffer
-                # which is mutated in place later on.
-                output=clone_torch_script_value(output),
+                output=output,
             )
         )
         return output
-- 
2.43.0


From ef32187b16e2e0f0f21c8ff697edb30da1d2fce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:07 +0000
Subject: [PATCH 38/59] Revert "fix: e2e reports: fail a test whose trace has
 missing or extra items"

This reverts commit 3e78089f2990e2359e74c49472f7c566edb9e3f0.
---
 projects/pt1/python/torch_mlir_e2e_test/reporting.py | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/projects/pt1/python/torch_mlir_e2e_test/reporting.py b/projects/pt1/python/torch_mlir_e2e_test/reporting.py
index bccd727..c79e7cd 100644
--- a/projects/pt1/python/torch_mlir_e2e_test/reporting.py
+++ b/projects/pt1/python/torch_mlir_e2e_test/reporting.py
@@ -248,12 +248,7 @@ class SingleTestReport:
         self.result = result
         self.context = context
         self.item_reports = None
-        self.length_error = None
         if result.compilation_error is None and result.runtime_error is None:
-            if len(result.trace) != len(result.golden_trace):
-                self.length_error = context.format_error(
-                    f"trace has {len(result.trace)} items, but the golden trace has {len(result.golden_trace)}"
-                )
             self.item_reports = []
             for i, (item, golden_item) in enumerate(
                 zip(result.trace, result.golden_trace)
@@ -272,8 +267,6 @@ class SingleTestReport:
             return True
         elif self.result.runtime_error is not None:
             return True
-        elif self.length_error is not None:
-            return True
         return any(r.failed for r in self.item_reports)
 
     def error_str(self):
@@ -284,8 +277,6 @@ class SingleTestReport:
             return "Compilation error: " + self.result.compilation_error
         elif self.result.runtime_error is not None:
             return "Runtime error: " + self.result.runtime_error
-        if self.length_error is not None:
-            p(self.length_error)
         for report in self.item_reports:
             if report.failed:
                 p(report.error_str())
-- 
2.43.0


From 2d77165d47a9b818e856fa74f9cf2cbce11dda8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:07 +0000
Subject: [PATCH 39/59] Revert "fix: e2e reports: compare float results by
 distance, not signed ratio"

This reverts commit ced802d01bf3dd19de6db79087c677a374fae41a.
---
 projects/pt1/python/torch_mlir_e2e_test/reporting.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/projects/pt1/python/torch_mlir_e2e_test/reporting.py b/projects/pt1/python/torch_mlir_e2e_test/reporting.py
index c79e7cd..a59fc7e 100644
--- a/projects/pt1/python/torch_mlir_e2e_test/reporting.py
+++ b/projects/pt1/python/torch_mlir_e2e_test/reporting.py
@@ -10,7 +10,6 @@ from typing import Any, List, Optional, Set
 
 import collections
 import io
-import math
 import textwrap
 
 import torch
@@ -83,8 +82,7 @@ class ValueReport:
         if isinstance(golden, float):
             if not isinstance(value, float):
                 return self._record_mismatch_type_failure("float", value)
-            both_nan = math.isnan(value) and math.isnan(golden)
-            if not both_nan and not math.isclose(value, golden, rel_tol=1e-4):
+            if abs(value - golden) / golden > 1e-4:
                 return self._record_failure(
                     f"value ({value!r}) is not close to golden value ({golden!r})"
                 )
-- 
2.43.0


From 676c1de330f27f3f4727b9cb7dfe5178a5ec966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:24 +0000
Subject: [PATCH 40/59] fix: fold aten.remainder.int with the sign of the
 divisor

The fold used the C++ remainder: -3 % 5 became -3 instead of 2, and a
remainder by zero crashed the compiler.
---
 lib/Dialect/Torch/IR/TorchOps.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index bda1d0f..b8da70f 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -4076,8 +4076,18 @@ void AtenFloordivIntOp::getCanonicalizationPatterns(RewritePatternSet &patterns,
 //===----------------------------------------------------------------------===//
 
 OpFoldResult AtenRemainderIntOp::fold(FoldAdaptor adaptor) {
+  // Leave a remainder by zero to raise at runtime.
+  auto divisor = dyn_cast_or_null<IntegerAttr>(adaptor.getB());
+  if (!divisor || divisor.getValue().isZero())
+    return nullptr;
+  // The remainder has the sign of the divisor, unlike that of C++.
   return atenBinaryIntOperatorFoldHelper(
-      adaptor.getOperands(), [](int64_t a, int64_t b) { return a % b; });
+      adaptor.getOperands(), [](int64_t a, int64_t b) -> int64_t {
+        if (b == -1)
+          return 0;
+        int64_t rem = a % b;
+        return (rem != 0 && ((rem < 0) != (b < 0))) ? rem + b : rem;
+      });
 }
 
 // ===----------------------------------------------------------------------===//
-- 
2.43.0


From 6ae1c798865759e962d229f80f795d0b5b72f076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:24 +0000
Subject: [PATCH 41/59] fix: fold aten.floordiv.int without going through
 double

Operands above 2^53 lost their low bits, and a division by zero was folded
to an unspecified integer.
---
 lib/Dialect/Torch/IR/TorchOps.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index b8da70f..524dc04 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -4028,9 +4028,18 @@ OpFoldResult AtenAliasOp::fold(FoldAdaptor adaptor) {
 //===----------------------------------------------------------------------===//
 
 OpFoldResult AtenFloordivIntOp::fold(FoldAdaptor adaptor) {
+  // Leave a division by zero to raise at runtime.
+  auto divisor = dyn_cast_or_null<IntegerAttr>(adaptor.getB());
+  if (!divisor || divisor.getValue().isZero())
+    return nullptr;
   return atenBinaryIntOperatorFoldHelper(
-      adaptor.getOperands(),
-      [](int64_t a, int64_t b) { return std::floor(a / (double)b); });
+      adaptor.getOperands(), [](int64_t a, int64_t b) -> int64_t {
+        // The quotient of the smallest integer and -1 does not fit.
+        if (b == -1)
+          return static_cast<int64_t>(-static_cast<uint64_t>(a));
+        int64_t quotient = a / b;
+        return (a % b != 0 && ((a < 0) != (b < 0))) ? quotient - 1 : quotient;
+      });
 }
 
 void AtenFloordivIntOp::getCanonicalizationPatterns(RewritePatternSet &patterns,
-- 
2.43.0


From 23c73e36eb8830e59d2b4f26d0e75acb1a973f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:24 +0000
Subject: [PATCH 42/59] fix: canonicalize aten.floordiv.int only when the
 constant divides

`c // (x * c)` was replaced by `x` just like `(x * c) // c`.
---
 lib/Dialect/Torch/IR/TorchOps.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 524dc04..3287984 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -4050,9 +4050,10 @@ void AtenFloordivIntOp::getCanonicalizationPatterns(RewritePatternSet &patterns,
     bool rConstant = matchPattern(op.getB(), m_TorchConstantInt(&rhs));
     if (lConstant && rConstant)
       return failure();
-    if (lConstant || rConstant) {
-      int64_t firstConstant = lConstant ? lhs : rhs;
-      Value firstOperand = lConstant ? op.getB() : op.getA();
+    // Only `(x * c) // c` simplifies, and only for a nonzero `c`.
+    if (rConstant && rhs != 0) {
+      int64_t firstConstant = rhs;
+      Value firstOperand = op.getA();
       if (firstOperand.getDefiningOp() &&
           firstOperand.getDefiningOp<AtenMulIntOp>()) {
         auto prevMulIntOp = firstOperand.getDefiningOp<AtenMulIntOp>();
-- 
2.43.0


From 31ddaa8ef1c632b6c27a9ccc123c283e7dd57f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:24 +0000
Subject: [PATCH 43/59] fix: fold aten.__range_length of empty ranges to zero

A range that ends before it starts got a negative length, and a step of
zero divided by zero.
---
 lib/Dialect/Torch/IR/TorchOps.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 3287984..ac4d798 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -773,8 +773,12 @@ OpFoldResult Aten__RangeLengthOp::fold(FoldAdaptor adaptor) {
   auto hiInt = dyn_cast_or_null<IntegerAttr>(hi).getValue();
   auto stepInt = dyn_cast_or_null<IntegerAttr>(step).getValue();
   // TODO: Implement folding for negative steps.
-  if (stepInt.isNegative())
+  // A step of zero raises at runtime.
+  if (stepInt.isNegative() || stepInt.isZero())
     return nullptr;
+  // The range is empty when it ends before it starts.
+  if (hiInt.sle(loInt))
+    return IntegerAttr::get(cast<TypedAttr>(lo).getType(), 0);
   // From Python language spec:
   // r[i] = lo + step*i such that i >= 0 and r[i] < hi
   // So maximize `i` such that lo + step * i < hi
-- 
2.43.0


From bcb5c2e067877c65cb7fae34421ecbd4419a2ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:24 +0000
Subject: [PATCH 44/59] fix: do not fold aten.div.float of a zero by an unknown
 divisor

The quotient is zero only for a nonzero divisor, and has its sign.
---
 lib/Dialect/Torch/IR/TorchOps.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index ac4d798..79a08d4 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -4961,8 +4961,6 @@ OpFoldResult AtenDivFloatOp::fold(FoldAdaptor adaptor) {
   double lhs, rhs;
   bool lConstant = matchPattern(getOperand(0), m_TorchConstantFloat(&lhs));
   bool rConstant = matchPattern(getOperand(1), m_TorchConstantFloat(&rhs));
-  if (lConstant && lhs == 0.0)
-    return getF64FloatAttr(getContext(), 0.0);
   if (lConstant && rConstant && rhs == 1.0)
     return getF64FloatAttr(getContext(), lhs);
   if (lConstant && rConstant)
-- 
2.43.0


From 4dae1c4848c20a6f02a3ebe4859a2f15c887d4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:24 +0000
Subject: [PATCH 45/59] fix: canonicalize aten.slice.t of empty lists and of
 nonpositive steps

An empty list literal was read out of bounds for its element type, a step of
zero did not terminate and a negative step read out of bounds.
---
 lib/Dialect/Torch/IR/TorchOps.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 79a08d4..d5cf874 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -3713,6 +3713,10 @@ void AtenSliceTOp::getCanonicalizationPatterns(RewritePatternSet &patterns,
       return failure();
     }
 
+    // TODO: Support negative steps. A step of zero raises at runtime.
+    if (step <= 0)
+      return rewriter.notifyMatchFailure(op, "step is not positive");
+
     start = start >= 0 ? start : start + size;
     start = start >= 0 ? start : 0;
     end = end >= 0 ? end : end + size;
@@ -3724,7 +3728,7 @@ void AtenSliceTOp::getCanonicalizationPatterns(RewritePatternSet &patterns,
     }
 
     rewriter.replaceOpWithNewOp<PrimListConstructOp>(
-        op, Torch::ListType::get(listElements[0].getType()), newListElements);
+        op, op.getType(), newListElements);
     return success();
   });
 }
-- 
2.43.0


From 684d1af7a3f99876e92f7f54281bd26068061e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:24 +0000
Subject: [PATCH 46/59] fix: do not fold aten.eq.int_list of mutated lists

The literals were compared although an operation between them and the
comparison may have changed either list.
---
 lib/Dialect/Torch/IR/TorchOps.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index d5cf874..42aa47b 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -3744,6 +3744,10 @@ OpFoldResult AtenEqIntListOp::fold(FoldAdaptor adaptor) {
   auto rhsLiteral = getB().getDefiningOp<Torch::PrimListConstructOp>();
   if (!rhsLiteral)
     return nullptr;
+  // A list always equals itself; others must not have changed since.
+  if (getA() != getB() && (isListPotentiallyMutated(lhsLiteral) ||
+                           isListPotentiallyMutated(rhsLiteral)))
+    return nullptr;
 
   // If the sizes don't match, then we know the lists aren't equal.
   if (lhsLiteral.getNumOperands() != rhsLiteral.getNumOperands())
-- 
2.43.0


From 68133c4cbfe87c10a143f7dc9cddd4623265d8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:24 +0000
Subject: [PATCH 47/59] fix: do not fold prim.min.self_int of a mutated list

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 42aa47b..b951d71 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -5457,6 +5457,8 @@ OpFoldResult PrimMinSelfIntOp::fold(FoldAdaptor adaptor) {
   auto list = getOperand().getDefiningOp<PrimListConstructOp>();
   if (!list)
     return nullptr;
+  if (isListPotentiallyMutated(list))
+    return nullptr;
   // TODO: What does it return for an empty list?
   if (list->getNumOperands() == 0)
     return nullptr;
-- 
2.43.0


From 37d48614943a7ccbdf7004ae3a9a7a70bd852792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:24 +0000
Subject: [PATCH 48/59] fix: canonicalize prim.TupleIndex with negative indices

A negative index was used unadjusted to read the tuple's elements.
---
 lib/Dialect/Torch/IR/TorchOps.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index b951d71..2e6d4fd 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -3796,7 +3796,9 @@ void PrimTupleIndexOp::getCanonicalizationPatterns(RewritePatternSet &patterns,
     if (!matchPattern(op.getI(), m_TorchConstantInt(&i)))
       return failure();
 
-    if (i >= (int64_t)tupleConstruct.getElements().size())
+    int64_t numElements = tupleConstruct.getElements().size();
+    i = toPositiveDim(i, numElements);
+    if (!isValidDim(i, numElements))
       return failure();
 
     // TODO: We should have a clear picture of whether we want to consistently
-- 
2.43.0


From 1c844df62b03d12d6222c9333a2ad8eb31fc423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:36 +0000
Subject: [PATCH 49/59] fix: keep the value semantics in the meet of unranked
 tensor types

meetTensorTypes returned a value tensor type for two non-value tensor types
without sizes.
---
 lib/Dialect/Torch/IR/TorchTypes.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/Torch/IR/TorchTypes.cpp b/lib/Dialect/Torch/IR/TorchTypes.cpp
index 51315a8..d5ae312 100644
--- a/lib/Dialect/Torch/IR/TorchTypes.cpp
+++ b/lib/Dialect/Torch/IR/TorchTypes.cpp
@@ -535,8 +535,8 @@ Type Torch::meetTensorTypes(BaseTensorType lhs, BaseTensorType rhs) {
 
   // If neither has sizes, we have nothing left to do.
   if (!lhs.hasSizes() && !rhs.hasSizes()) {
-    return ValueTensorType::get(lhs.getContext(),
-                                /*optionalSizes=*/std::nullopt, dtype);
+    return cast<BaseTensorType>(
+        lhs.getWithSizesAndDtype(/*optionalSizes=*/std::nullopt, dtype));
   }
 
   // If the number of sizes is different, the two types are contradictory.
-- 
2.43.0


From 75aae34d637121554803afe51761fa244f8f9c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:36 +0000
Subject: [PATCH 50/59] fix: promote complex half with real types

The promotion table left ComplexHalf with real types undefined, which dropped
the complex operand: promoting (c2, f4, f4) gave f4. The entries are those of
c10/core/ScalarType.cpp.
---
 lib/Dialect/Torch/Utils/TorchUpstream.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/lib/Dialect/Torch/Utils/TorchUpstream.cpp b/lib/Dialect/Torch/Utils/TorchUpstream.cpp
index 0136ed0..faa3835 100644
--- a/lib/Dialect/Torch/Utils/TorchUpstream.cpp
+++ b/lib/Dialect/Torch/Utils/TorchUpstream.cpp
@@ -64,22 +64,22 @@ static inline ScalarType promoteTypes(ScalarType a, ScalarType b) {
   static constexpr ScalarType _promoteTypesLookup[static_cast<int>(
       ScalarType::NumOptions)][static_cast<int>(ScalarType::NumOptions)] = {
       /*        u1  i1  i2  i4  i8  f2  f4  f8  c2  c4  c8  b1  q1  q2  q3  bf*/
-      /* u1 */ {u1, i2, i2, i4, i8, f2, f4, f8, ud, c4, c8, u1, ud, ud, ud, bf},
-      /* i1 */ {i2, i1, i2, i4, i8, f2, f4, f8, ud, c4, c8, i1, ud, ud, ud, bf},
-      /* i2 */ {i2, i2, i2, i4, i8, f2, f4, f8, ud, c4, c8, i2, ud, ud, ud, bf},
-      /* i4 */ {i4, i4, i4, i4, i8, f2, f4, f8, ud, c4, c8, i4, ud, ud, ud, bf},
-      /* i8 */ {i8, i8, i8, i8, i8, f2, f4, f8, ud, c4, c8, i8, ud, ud, ud, bf},
-      /* f2 */ {f2, f2, f2, f2, f2, f2, f4, f8, ud, c4, c8, f2, ud, ud, ud, f4},
-      /* f4 */ {f4, f4, f4, f4, f4, f4, f4, f8, ud, c4, c8, f4, ud, ud, ud, f4},
-      /* f8 */ {f8, f8, f8, f8, f8, f8, f8, f8, ud, c8, c8, f8, ud, ud, ud, f8},
-      /* c2 */ {ud, ud, ud, ud, ud, ud, ud, ud, c2, c4, c8, ud, ud, ud, ud, ud},
+      /* u1 */ {u1, i2, i2, i4, i8, f2, f4, f8, c2, c4, c8, u1, ud, ud, ud, bf},
+      /* i1 */ {i2, i1, i2, i4, i8, f2, f4, f8, c2, c4, c8, i1, ud, ud, ud, bf},
+      /* i2 */ {i2, i2, i2, i4, i8, f2, f4, f8, c2, c4, c8, i2, ud, ud, ud, bf},
+      /* i4 */ {i4, i4, i4, i4, i8, f2, f4, f8, c2, c4, c8, i4, ud, ud, ud, bf},
+      /* i8 */ {i8, i8, i8, i8, i8, f2, f4, f8, c2, c4, c8, i8, ud, ud, ud, bf},
+      /* f2 */ {f2, f2, f2, f2, f2, f2, f4, f8, c2, c4, c8, f2, ud, ud, ud, f4},
+      /* f4 */ {f4, f4, f4, f4, f4, f4, f4, f8, c4, c4, c8, f4, ud, ud, ud, f4},
+      /* f8 */ {f8, f8, f8, f8, f8, f8, f8, f8, c8, c8, c8, f8, ud, ud, ud, f8},
+      /* c2 */ {c2, c2, c2, c2, c2, c2, c4, c8, c2, c4, c8, c2, ud, ud, ud, c4},
       /* c4 */ {c4, c4, c4, c4, c4, c4, c4, c8, c4, c4, c8, c4, ud, ud, ud, c4},
       /* c8 */ {c8, c8, c8, c8, c8, c8, c8, c8, c8, c8, c8, c8, ud, ud, ud, c8},
-      /* b1 */ {u1, i1, i2, i4, i8, f2, f4, f8, ud, c4, c8, b1, ud, ud, ud, bf},
+      /* b1 */ {u1, i1, i2, i4, i8, f2, f4, f8, c2, c4, c8, b1, ud, ud, ud, bf},
       /* q1 */ {ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud},
       /* q2 */ {ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud},
       /* q3 */ {ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud, ud},
-      /* bf */ {bf, bf, bf, bf, bf, f4, f4, f8, ud, c4, c8, bf, ud, ud, ud, bf},
+      /* bf */ {bf, bf, bf, bf, bf, f4, f4, f8, c4, c4, c8, bf, ud, ud, ud, bf},
   };
   return _promoteTypesLookup[static_cast<int>(a)][static_cast<int>(b)];
 }
-- 
2.43.0


From bdbb908f34c5d6ecc69a0fd402a10fd43c5892bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:36 +0000
Subject: [PATCH 51/59] fix: promote float8 types with themselves only

The promotion table ends at BFloat16: two operands of the same float8 type got
the zero-initialized entry, Byte.
---
 lib/Dialect/Torch/Utils/TorchUpstream.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/Dialect/Torch/Utils/TorchUpstream.cpp b/lib/Dialect/Torch/Utils/TorchUpstream.cpp
index faa3835..a3c8361 100644
--- a/lib/Dialect/Torch/Utils/TorchUpstream.cpp
+++ b/lib/Dialect/Torch/Utils/TorchUpstream.cpp
@@ -48,6 +48,16 @@ static inline ScalarType promoteTypes(ScalarType a, ScalarType b) {
     return ScalarType::Undefined;
   }
 
+  if (a == b) {
+    return a;
+  }
+
+  // The lookup table has no entries for the types that follow BFloat16. They
+  // only promote with themselves.
+  if (a > ScalarType::BFloat16 || b > ScalarType::BFloat16) {
+    return ScalarType::Undefined;
+  }
+
   // For QInt types, we only allow exact match
   if (isQIntType(a) && a == b) {
     return a;
-- 
2.43.0


From 3708c6968a92e9c30332eb6a71d641daaed88465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:36 +0000
Subject: [PATCH 52/59] fix: promote a float tensor with a complex tensor
 without dimensions

The result keeps the width of the floating type, as at::result_type does:
float32 with a zero-dimensional complex128 is complex64.
---
 lib/Dialect/Torch/Utils/TorchUpstream.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/Utils/TorchUpstream.cpp b/lib/Dialect/Torch/Utils/TorchUpstream.cpp
index a3c8361..621538c 100644
--- a/lib/Dialect/Torch/Utils/TorchUpstream.cpp
+++ b/lib/Dialect/Torch/Utils/TorchUpstream.cpp
@@ -104,12 +104,32 @@ static inline bool isComplexType(ScalarType t) {
           t == ScalarType::ComplexDouble);
 }
 
+static inline ScalarType toComplexType(ScalarType t) {
+  switch (t) {
+  case ScalarType::Half:
+    return ScalarType::ComplexHalf;
+  case ScalarType::Float:
+    return ScalarType::ComplexFloat;
+  case ScalarType::Double:
+    return ScalarType::ComplexDouble;
+  default:
+    return ScalarType::Undefined;
+  }
+}
+
 static inline ScalarType combine_categories(ScalarType higher,
                                             ScalarType lower) {
   // NOLINTNEXTLINE(bugprone-branch-clone)
   if (isComplexType(higher)) {
     return higher;
-  } else if (!isComplexType(lower) && isFloatingType(higher)) {
+  } else if (isFloatingType(higher)) {
+    // Preserve the value type of `higher` if it is a floating type.
+    if (isComplexType(lower)) {
+      ScalarType complexType = toComplexType(higher);
+      return complexType != ScalarType::Undefined
+                 ? complexType
+                 : promote_skip_undefined(higher, lower);
+    }
     return higher;
   }
   if (higher == ScalarType::Bool || isFloatingType(lower) ||
-- 
2.43.0


From 92047401a4196c4d4381fa6dfa7eec705a0ff6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:02 +0000
Subject: [PATCH 53/59] fix: treat float8 and float4 as floating types in
 promotion

A float8 tensor keeps its type next to a tensor without dimensions or a number
of another floating type, as in at::result_type.
---
 lib/Dialect/Torch/Utils/TorchUpstream.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/Utils/TorchUpstream.cpp b/lib/Dialect/Torch/Utils/TorchUpstream.cpp
index 621538c..d96634b 100644
--- a/lib/Dialect/Torch/Utils/TorchUpstream.cpp
+++ b/lib/Dialect/Torch/Utils/TorchUpstream.cpp
@@ -96,7 +96,12 @@ static inline ScalarType promoteTypes(ScalarType a, ScalarType b) {
 
 static inline bool isFloatingType(ScalarType t) {
   return (t == ScalarType::Double || t == ScalarType::Float ||
-          t == ScalarType::Half || t == ScalarType::BFloat16);
+          t == ScalarType::Half || t == ScalarType::BFloat16 ||
+          t == ScalarType::Float8_e5m2 || t == ScalarType::Float8_e4m3fn ||
+          t == ScalarType::Float8_e5m2fnuz ||
+          t == ScalarType::Float8_e4m3fnuz ||
+          t == ScalarType::Float8_e8m0fnu ||
+          t == ScalarType::Float4_e2m1fn_x2);
 }
 
 static inline bool isComplexType(ScalarType t) {
-- 
2.43.0


From 245c86c2d5d71f8911553311df70e47c06edc513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:59 +0000
Subject: [PATCH 54/59] fix: fold tensor operations to their operand only when
 the types agree

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 2e6d4fd..82255d4 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -1297,7 +1297,9 @@ OpFoldResult AtenViewOp::fold(FoldAdaptor adaptor) {
 //===----------------------------------------------------------------------===//
 
 OpFoldResult PrimsViewOfOp::fold(FoldAdaptor adaptor) {
-  // Always fold the op with its only input operand.
+  // Fold the op with its only input operand.
+  if (getOperand().getType() != getResult().getType())
+    return nullptr;
   return getOperand();
 }
 
@@ -2182,7 +2184,8 @@ OpFoldResult AtenLogOp::fold(FoldAdaptor adaptor) {
 
 OpFoldResult AtenFloorOp::fold(FoldAdaptor adaptor) {
   auto resultType = dyn_cast<ValueTensorType>(getType());
-  if (resultType && resultType.hasDtype() &&
+  if (resultType && resultType == getSelf().getType() &&
+      resultType.hasDtype() &&
       isa<mlir::IntegerType>(resultType.getDtype())) {
     return getSelf();
   }
@@ -2195,7 +2198,8 @@ OpFoldResult AtenFloorOp::fold(FoldAdaptor adaptor) {
 
 OpFoldResult AtenCeilOp::fold(FoldAdaptor adaptor) {
   auto resultType = dyn_cast<ValueTensorType>(getType());
-  if (resultType && resultType.hasDtype() &&
+  if (resultType && resultType == getSelf().getType() &&
+      resultType.hasDtype() &&
       isa<mlir::IntegerType>(resultType.getDtype())) {
     return getSelf();
   }
@@ -2208,7 +2212,8 @@ OpFoldResult AtenCeilOp::fold(FoldAdaptor adaptor) {
 
 OpFoldResult AtenRoundDecimalsOp::fold(FoldAdaptor adaptor) {
   auto resultType = dyn_cast<ValueTensorType>(getType());
-  if (resultType && resultType.hasDtype() &&
+  if (resultType && resultType == getSelf().getType() &&
+      resultType.hasDtype() &&
       isa<mlir::IntegerType>(resultType.getDtype())) {
     return getSelf();
   }
@@ -2221,7 +2226,8 @@ OpFoldResult AtenRoundDecimalsOp::fold(FoldAdaptor adaptor) {
 
 OpFoldResult AtenRoundOp::fold(FoldAdaptor adaptor) {
   auto resultType = dyn_cast<ValueTensorType>(getType());
-  if (resultType && resultType.hasDtype() &&
+  if (resultType && resultType == getSelf().getType() &&
+      resultType.hasDtype() &&
       isa<mlir::IntegerType>(resultType.getDtype())) {
     return getSelf();
   }
@@ -2234,7 +2240,8 @@ OpFoldResult AtenRoundOp::fold(FoldAdaptor adaptor) {
 
 OpFoldResult AtenTruncOp::fold(FoldAdaptor adaptor) {
   auto resultType = dyn_cast<ValueTensorType>(getType());
-  if (resultType && resultType.hasDtype() &&
+  if (resultType && resultType == getSelf().getType() &&
+      resultType.hasDtype() &&
       isa<mlir::IntegerType>(resultType.getDtype())) {
     return getSelf();
   }
@@ -4191,7 +4198,7 @@ OpFoldResult AtenTransposeIntOp::fold(FoldAdaptor adaptor) {
     return nullptr;
   // if dims are the same, return self
   if (_dim0 == _dim1)
-    return getSelf();
+    return selfTy == getType() ? OpFoldResult(getSelf()) : nullptr;
 
   // We set a maximum folding size of 16. This is a reasonable upper limit
   // for shape computations.
@@ -4355,7 +4362,7 @@ OpFoldResult AtenBroadcastToOp::fold(FoldAdaptor adaptor) {
     for (int i = 0, s = inSizes.size(); i < s; ++i)
       sameSizes &= inSizes[i] == outSizes[i];
 
-    if (sameSizes)
+    if (sameSizes && inType == outType)
       return getOperand(0);
   }
 
-- 
2.43.0


From fa592ca962537280edf1afbb8492afca6d740a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:59 +0000
Subject: [PATCH 55/59] fix: AtenReshapeOp::fold crashed on tensors without a
 dtype

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 82255d4..67f5aeb 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -2649,8 +2649,7 @@ void AtenUnflattenIntOp::getCanonicalizationPatterns(
 OpFoldResult AtenReshapeOp::fold(FoldAdaptor adaptor) {
   auto selfTy = dyn_cast<ValueTensorType>(getSelf().getType());
   auto opTy = dyn_cast<ValueTensorType>(getType());
-  if (selfTy && selfTy == opTy && selfTy.hasSizes() &&
-      selfTy.toBuiltinTensor().hasStaticShape())
+  if (selfTy && selfTy == opTy && selfTy.areAllSizesKnown())
     return getSelf();
   return nullptr;
 }
-- 
2.43.0


From 328c0155b92e53915aac2d663660401f4005f6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:59 +0000
Subject: [PATCH 56/59] fix: AtenAnyDimsOp::fold dropped reductions of unknown
 and uint8 elements

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 67f5aeb..b180bbf 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -1321,15 +1321,14 @@ OpFoldResult AtenDimOp::fold(FoldAdaptor adaptor) {
 //===----------------------------------------------------------------------===//
 
 OpFoldResult AtenAnyDimsOp::fold(FoldAdaptor adaptor) {
+  // Reducing dimensions of size one of a boolean tensor keeps its elements. An
+  // unknown size may be reduced, and other dtypes are converted to truth values.
   auto resultType = dyn_cast<ValueTensorType>(getResult().getType());
-  auto resultShape = resultType.toBuiltinTensor().getShape();
-  auto inputType = dyn_cast<ValueTensorType>(getOperand(0).getType());
-  auto inputShape = inputType.toBuiltinTensor().getShape();
-  if ((inputType.getDtype() == resultType.getDtype()) &&
-      (inputShape == resultShape)) {
-    return getSelf();
-  }
-  return {};
+  if (!resultType || getSelf().getType() != resultType ||
+      !resultType.areAllSizesKnown() || !resultType.hasDtype() ||
+      !resultType.getDtype().isSignlessInteger(1))
+    return {};
+  return getSelf();
 }
 
 //===----------------------------------------------------------------------===//
-- 
2.43.0


From b8d7355d3ddc438393fd75a2d7f22c2ee51c7bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:59 +0000
Subject: [PATCH 57/59] fix: AtenToDtypeLayoutOp canonicalization without a
 dtype created invalid ops

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index b180bbf..5035f8f 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -1174,6 +1174,10 @@ void AtenToDtypeLayoutOp::getCanonicalizationPatterns(
   // `to.dtype_layout` -> `to.device/to.dtype` if layout is none and pin memory
   // is false
   patterns.add(+[](AtenToDtypeLayoutOp op, PatternRewriter &rewriter) {
+    // Both require a dtype.
+    if (isa<Torch::NoneType>(op.getDtype().getType()))
+      return failure();
+
     // The pin_memory arg should be either constant `False` or `none`.
     if (!isa<Torch::NoneType>(op.getPinMemory().getType())) {
       bool pinMemory;
-- 
2.43.0


From 5b2c9b4789ecd10b24e536472fee67c00572c71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:59 +0000
Subject: [PATCH 58/59] fix: AtenCatOp canonicalization dropped the operands of
 an empty result

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 5035f8f..c2a4dfb 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -4332,7 +4332,8 @@ void AtenCatOp::getCanonicalizationPatterns(RewritePatternSet &patterns,
         filtered.push_back(operand);
     }
 
-    if (filtered.size() == list.getNumOperands())
+    // At least one tensor is required, also when all of them are empty.
+    if (filtered.empty() || filtered.size() == list.getNumOperands())
       return failure();
 
     auto newlist = PrimListConstructOp::create(rewriter, op.getLoc(),
-- 
2.43.0


From e56977904c3f894579f15fb00df17e0d995d9ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:59 +0000
Subject: [PATCH 59/59] fix: AtenCatOp canonicalization read past the sizes of
 possibly empty operands

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index c2a4dfb..ab8b787 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -4327,8 +4327,10 @@ void AtenCatOp::getCanonicalizationPatterns(RewritePatternSet &patterns,
       if (sizes.size() == 1 && sizes[0] == 0)
         continue;
 
-      int64_t adim = dim < 0 ? dim + sizes.size() : dim;
-      if (operandTy.getSizes()[adim] != 0)
+      // A 1-D operand of unknown size may be such a tensor: it has no `dim`.
+      int64_t rank = sizes.size();
+      int64_t adim = dim < 0 ? dim + rank : dim;
+      if (adim < 0 || adim >= rank || sizes[adim] != 0)
         filtered.push_back(operand);
     }
 
-- 
2.43.0

