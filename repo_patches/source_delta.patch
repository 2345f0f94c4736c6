From 4437021a79886d8e74936bfd26bc85d84c2bd4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 01/65] fix: a variable assigned both inside and outside of an
 if statement was summed with itself

---
 numerous/engine/model/ast_parser/ast_visitor.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index 4a63abe..f1d4911 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -277,6 +277,11 @@ class AstVisitor(ast.NodeVisitor):
 
 def connect_equation_node(equation_graph, mappings_graph, node, is_set, include_local=False):
     eq_node_idx = mappings_graph.add_node(node)
+    # the same variable can be represented by several nodes when it is used both inside and outside of if statements
+    target_variables = {equation_graph.nodes[n].scope_var.id for n in range(equation_graph.node_counter)
+                        if equation_graph.nodes[n].node_type == NodeTypes.VAR and equation_graph.nodes[n].scope_var
+                        and any(True for _ in equation_graph.get_edges_for_node(end_node=n))}
+    connected_targets = set()
     for n in range(equation_graph.node_counter):
         if equation_graph.nodes[n].node_type == NodeTypes.VAR:
             if equation_graph.nodes[n].scope_var:
@@ -292,11 +297,13 @@ def connect_equation_node(equation_graph, mappings_graph, node, is_set, include_
 
                 try:
                     next(end_edges)
-                    mappings_graph.add_edge(
-                        Edge(start=eq_node_idx, end=neq, e_type=EdgeType.TARGET, arg_local=sv.id))
-                    targeted = True
+                    if sv.id not in connected_targets:
+                        mappings_graph.add_edge(
+                            Edge(start=eq_node_idx, end=neq, e_type=EdgeType.TARGET, arg_local=sv.id))
+                        connected_targets.add(sv.id)
                 except StopIteration:
                     pass
+                targeted = sv.id in target_variables
 
                 if not targeted and not read:
                     start_edges = equation_graph.get_edges_for_node(start_node=n)
-- 
2.43.0


From 9770c1b81609573c6127292124f76525cad084f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:05 +0000
Subject: [PATCH 02/65] fix: comparison nested in the test of an if statement
 was emitted twice

---
 numerous/engine/model/ast_parser/equation_from_graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/model/ast_parser/equation_from_graph.py b/numerous/engine/model/ast_parser/equation_from_graph.py
index f2dabee..7bd84a4 100644
--- a/numerous/engine/model/ast_parser/equation_from_graph.py
+++ b/numerous/engine/model/ast_parser/equation_from_graph.py
@@ -176,7 +176,9 @@ def compare_expresion_from_graph(g, var_def_, lineno_count=1):
     body = []
     for n in top_nodes:
         lineno_count += 1
-        if g.nodes[n].ast_type == ast.Compare:
+        # comparisons nested inside of the test are converted as a part of it
+        is_nested = any(True for _ in g.get_edges_for_node(start_node=n))
+        if g.nodes[n].ast_type == ast.Compare and not is_nested:
             body.append(node_to_ast(n, g, var_def, ctxread=True))
     return body
 
-- 
2.43.0


From d634e74bcd445b0d6aa902c7a15d512d7a581400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 03/65] fix: repeated assignment of a variable with a mapped
 source was added instead of assigned

---
 numerous/engine/model/ast_parser/equation_from_graph.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/numerous/engine/model/ast_parser/equation_from_graph.py b/numerous/engine/model/ast_parser/equation_from_graph.py
index 7bd84a4..8536562 100644
--- a/numerous/engine/model/ast_parser/equation_from_graph.py
+++ b/numerous/engine/model/ast_parser/equation_from_graph.py
@@ -129,12 +129,9 @@ def process_assign_node(target_nodes, g, var_def, value_ast, na, targets):
         target_node = target_nodes[0][1]
         target_ast = node_to_ast(target_node, g, var_def, read=False)
         if value_ast and target_ast:
-            if na == ast.Assign or target_node not in targets:
-                targets.append(target_node)
-                ast_assign = ast.Assign(targets=[target_ast], value=value_ast, lineno=0, col_offset=0)
-            else:
-                ast_assign = ast.AugAssign(target=target_ast, value=value_ast, lineno=0, col_offset=0, op=ast.Add())
-            return ast_assign
+            # the sources mapped to the target are added outside of the equation, so it is a plain assignment for all targets
+            targets.append(target_node)
+            return ast.Assign(targets=[target_ast], value=value_ast, lineno=0, col_offset=0)
 
 
 def generate_return_statement(var_def_, g):
-- 
2.43.0


From fad08baa5af5a9d4d4501b694af946eb0f758d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 04/65] fix: only the last of several set variables summed into
 a scalar was kept

---
 numerous/engine/model/lowering/equations_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/model/lowering/equations_generator.py b/numerous/engine/model/lowering/equations_generator.py
index 1aec9da..a31c9e5 100644
--- a/numerous/engine/model/lowering/equations_generator.py
+++ b/numerous/engine/model/lowering/equations_generator.py
@@ -365,7 +365,7 @@ class EquationGenerator:
                             mapping_dict[target_var] = [VariableArgument(var_name, False)]
                     else:
                         if var_name in self.set_variables:
-                            if var_name in mapping_dict:
+                            if target_var in mapping_dict:
                                 mapping_dict[target_var].append(
                                     VariableArgument(self.set_variables[var_name].get_var_by_idx(v[1]).id, False))
                             else:
-- 
2.43.0


From 6c676b1f24a7999188c35cc4d81cbc13a4dd2f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:02 +0000
Subject: [PATCH 05/65] fix: mappings onto variables of a set failed

---
 numerous/engine/model/lowering/equations_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/model/lowering/equations_generator.py b/numerous/engine/model/lowering/equations_generator.py
index a31c9e5..38dfa86 100644
--- a/numerous/engine/model/lowering/equations_generator.py
+++ b/numerous/engine/model/lowering/equations_generator.py
@@ -328,7 +328,8 @@ class EquationGenerator:
                             else:
                                 raise ValueError(f'Variable  {m_ix[0]} mapping not found')
             for k, v in mappings_llvm.items():
-                self.generated_program.add_mapping(v, [k])
+                self.generated_program.add_mapping([VariableArgument(d_u(source), False) for source in v],
+                                                   [VariableArgument(d_u(k), False)])
         else:
             # Register targeted variables
             is_set_var = self.equation_graph.nodes[t].is_set_var
-- 
2.43.0


From 579774e3d58713ca2fade4a55d4b7eb0342c368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 06/65] fix: only one of several sets of the same class was
 evaluated

---
 numerous/engine/model/ast_parser/parser_ast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numerous/engine/model/ast_parser/parser_ast.py b/numerous/engine/model/ast_parser/parser_ast.py
index 267076c..02ec460 100644
--- a/numerous/engine/model/ast_parser/parser_ast.py
+++ b/numerous/engine/model/ast_parser/parser_ast.py
@@ -1,7 +1,7 @@
 import ast
 from textwrap import dedent
 
-from numerous.engine.variables import Variable
+from numerous.engine.variables import Variable, SetOfVariables
 from numerous.engine.model.ast_parser.ast_visitor import ast_to_graph, connect_equation_node
 from numerous.engine.model.graph_representation import Graph, EdgeType, Node, Edge
 from numerous.engine.model.utils import NodeTypes
@@ -76,7 +76,7 @@ def qualify_equation(prefix, g, tag_vars, eq_class, eq_current):
     g_qual.node_map = {q(k): v for k, v in g_qual.node_map.items()}
     g_qual.key_map = {k: q(v) for k, v in g_qual.key_map.items()}
 
-    scope_vars_qual = [tag_vars[sv.tag] if isinstance(sv := g.nodes[n].scope_var, Variable) else sv
+    scope_vars_qual = [tag_vars[sv.tag] if isinstance(sv := g.nodes[n].scope_var, (Variable, SetOfVariables)) else sv
                        for n in g.node_map.values()]
 
     for i in range(g_qual.node_counter):
-- 
2.43.0


From 99a36dde09b635b8a670f725130932b89bbe4df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 07/65] fix: equations of a set failed unless they used all the
 variables of the namespace

---
 .../model/lowering/equations_generator.py     | 29 +++++++++++++++++--
 numerous/engine/variables.py                  |  1 +
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/model/lowering/equations_generator.py b/numerous/engine/model/lowering/equations_generator.py
index 38dfa86..efb2cea 100644
--- a/numerous/engine/model/lowering/equations_generator.py
+++ b/numerous/engine/model/lowering/equations_generator.py
@@ -174,6 +174,19 @@ class EquationGenerator:
                 return var_id
         raise ValueError("No variable found for id {}", var_id)
 
+    def _is_contiguous(self, llvm_args):
+        idxs = [self.values_order[d_u(var_id)] for row in llvm_args for var_id in row]
+        return idxs == list(range(idxs[0], idxs[0] + len(idxs)))
+
+    def search_in_set_scope(self, set_var_id, known_set_var_id):
+        tag = self.set_variables[set_var_id].tag
+        known = self.set_variables[known_set_var_id]
+        known = next(iter(known.variables.values()))
+        for var in self.scope_variables.values():
+            if var.tag == tag and var.set_var and not var.temporary_variable and var.namespace is known.namespace:
+                return var.set_var
+        raise ValueError("No variable found for id {}", set_var_id)
+
     def _process_equation_node(self, n):
         eq_name = self.equation_graph.nodes[n].name
 
@@ -230,14 +243,24 @@ class EquationGenerator:
             for t in vardef.args_order:
                 if not t.is_global_var:
                     llvm_args_ = []
-                    set_var = self.set_variables[scope_vars[t[0]]]
+                    if t.name in scope_vars:
+                        set_var = self.set_variables[scope_vars[t.name]]
+                    else:
+                        # the equation does not use this variable
+                        set_var = self.search_in_set_scope(t.name, next(iter(scope_vars.values())))
                     for i in range(set_var.get_size()):
                         llvm_args_.append(set_var.get_var_by_idx(i).id)
                     llvm_args.append(llvm_args_)
             # reshape to correct format
             llvm_args = [list(x) for x in zip(*llvm_args)]
-            self.generated_program.add_set_call(self.get_external_function_name(ext_func), llvm_args,
-                                                vardef.llvm_target_ids)
+            if self._is_contiguous(llvm_args):
+                self.generated_program.add_set_call(self.get_external_function_name(ext_func), llvm_args,
+                                                    vardef.llvm_target_ids)
+            else:
+                for row in llvm_args:
+                    self.generated_program.add_call(self.get_external_function_name(ext_func),
+                                                    [VariableArgument(d_u(var_id), False) for var_id in row],
+                                                    vardef.llvm_target_ids)
         else:
             # Generate llvm arguments
             args = []
diff --git a/numerous/engine/variables.py b/numerous/engine/variables.py
index 8e3d885..9105165 100644
--- a/numerous/engine/variables.py
+++ b/numerous/engine/variables.py
@@ -144,6 +144,7 @@ class SetOfVariables:
         self.global_var = False
         self.global_var_idx = False
         self.eq_used = []
+        self.used_in_equation_graph = False
 
     def get_size(self):
         return self.size
-- 
2.43.0


From f819808035430617206b4a9d2afccfc18452976f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 08/65] fix: temporary variables of several set variables with
 mapped sources shared their names

---
 numerous/engine/model/graph_representation/mappings_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/model/graph_representation/mappings_graph.py b/numerous/engine/model/graph_representation/mappings_graph.py
index 43d3eed..425b069 100644
--- a/numerous/engine/model/graph_representation/mappings_graph.py
+++ b/numerous/engine/model/graph_representation/mappings_graph.py
@@ -116,7 +116,7 @@ class MappingsGraph(Graph):
                         tsv = TemporarySetVar(tmp_key, sv)
                         for svi in sv.variables.values():
                             tmp_var_counter += 1
-                            svf = TemporaryVar('tmp_var_' + str(tmp_var_counter), svi,
+                            svf = TemporaryVar('tmp_var_' + str(sv.id) + '_' + str(tmp_var_counter), svi,
                                                svi.tag + '_' + str(sv.id), svi.set_var, svi.set_var_ix)
                             tsv.tmp_vars.append(svf)
                         fake_sv[tsv.id] = tsv
-- 
2.43.0


From b16f79d6758c62ef9af0774fc0dcfa6dc3aebf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 09/65] fix: LLVM code of an equation called after a set
 equation was added to a finished block

---
 numerous/engine/model/lowering/llvm_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/model/lowering/llvm_builder.py b/numerous/engine/model/lowering/llvm_builder.py
index 2772bf4..93d4497 100644
--- a/numerous/engine/model/lowering/llvm_builder.py
+++ b/numerous/engine/model/lowering/llvm_builder.py
@@ -263,6 +263,7 @@ class LLVMBuilder:
         self.builder.position_at_end(_block)
 
     def add_call(self, external_function_name: str, args: list[VariableArgument], target_ids: list[int]):
+        self.builder.position_at_end(self.bb_loop)
         arg_pointers = []
         for i1, arg in enumerate(args):
             if i1 in target_ids:
@@ -274,7 +275,6 @@ class LLVMBuilder:
                     arg_pointers.append(*self._load_args([arg]))
                 else:
                     arg_pointers.append(*self._load_args([arg]))
-        self.builder.position_at_end(self.bb_loop)
         self.builder.call(self.ext_funcs[external_function_name], arg_pointers)
 
     def _build_var_r(self):
-- 
2.43.0


From 2429988f7de6ec26c0bc59179a800d8a9415f061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:36 +0000
Subject: [PATCH 10/65] fix: LLVM set equations were evaluated with the states
 of the previous call

---
 numerous/engine/model/lowering/llvm_builder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/numerous/engine/model/lowering/llvm_builder.py b/numerous/engine/model/lowering/llvm_builder.py
index 93d4497..5d6287c 100644
--- a/numerous/engine/model/lowering/llvm_builder.py
+++ b/numerous/engine/model/lowering/llvm_builder.py
@@ -95,9 +95,10 @@ class LLVMBuilder:
         for idx, g_var in enumerate(self.global_names.keys()):
             self.load_global_arguments(idx, g_var, 1)
 
-        # go through all states to put them in store block
+        # go through all states to put them in store block, and in load block as set calls read model variables
         for state in self.states:
-            self.store_variable(state)
+            self.store_variable(state, self.bb_entry)
+            self.store_variable(state, self.bb_store)
 
         self.builder.position_at_end(self.bb_entry)
         self.builder.branch(self.bb_loop)
@@ -252,9 +253,9 @@ class LLVMBuilder:
 
         self.builder.store(self.builder.load(self.values[global_arg_name]), eptr)
 
-    def store_variable(self, variable_name: str):
+    def store_variable(self, variable_name: str, store_block):
         _block = self.builder.block
-        self.builder.position_at_end(self.bb_store)
+        self.builder.position_at_end(store_block)
         index = ll.IntType(64)(self.variable_names[variable_name])
         ptr = self.model_variables
         indices = [self.index0, index]
-- 
2.43.0


From 16b90f43acf52b1d7d81136ca7d4ca927d8b36db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:05 +0000
Subject: [PATCH 11/65] fix: building a model replaced the kernel functions of
 all models built before

---
 numerous/engine/model/model.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 6b97b0b..117041b 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -474,9 +474,7 @@ class Model:
         def c3(self, value, idx):
             return var_write(value, idx)
 
-        setattr(CompiledModel, "compiled_compute", c1)
-        setattr(CompiledModel, "read_variables", c2)
-        setattr(CompiledModel, "write_variables", c3)
+        self._kernel_methods = {"compiled_compute": c1, "read_variables": c2, "write_variables": c3}
 
         self.compiled_compute, self.var_func, self.var_write = compiled_compute, var_func, var_write
         self.init_values = np.ascontiguousarray(
@@ -740,7 +738,8 @@ class Model:
 
         # Creating a copy of CompiledModel class so it is possible
         # to creat instance detached from muttable type of CompiledModel
-        tmp = type(f'{CompiledModel.__name__}' + self.system.id, CompiledModel.__bases__, dict(CompiledModel.__dict__))
+        tmp = type(f'{CompiledModel.__name__}' + self.system.id, CompiledModel.__bases__,
+                   dict(CompiledModel.__dict__, **self._kernel_methods))
         if self.use_llvm:
             @jitclass(numba_model_spec)
             class CompiledModel_instance(tmp):
@@ -823,9 +822,7 @@ class Model:
         def c3(self, value, idx):
             return var_write(value, idx)
 
-        setattr(CompiledModel, "compiled_compute", c1)
-        setattr(CompiledModel, "read_variables", c2)
-        setattr(CompiledModel, "write_variables", c3)
+        self._kernel_methods = {"compiled_compute": c1, "read_variables": c2, "write_variables": c3}
 
         for varname, ix in self.vars_ordered_values.items():
             var = self.variables[varname]
-- 
2.43.0


From 2db428a3b250ac2cbcb668e28df5a133c56a7e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 12/65] fix: event functions with closure variables used those
 of the last event

---
 numerous/engine/model/events.py | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/numerous/engine/model/events.py b/numerous/engine/model/events.py
index 50612b8..d95c780 100644
--- a/numerous/engine/model/events.py
+++ b/numerous/engine/model/events.py
@@ -1,4 +1,5 @@
 import ast
+import copy
 import inspect
 
 import numpy.typing as npt
@@ -7,7 +8,22 @@ from numba.core.registry import CPUDispatcher
 from typing import Union, Tuple
 
 from numerous.engine.model.utils import njit_and_compile_function
-from numerous.engine.numerous_event import NumerousEvent, StateEvent, TimestampEvent
+from numerous.engine.numerous_event import NumerousEvent, ParsedEventFunction, StateEvent, TimestampEvent
+
+
+def _bind_closure_variables(event_function: ParsedEventFunction, idx: int, closurevariables: dict) -> ast.FunctionDef:
+    """
+    Adds the closure variables of an event function to closurevariables, under names which are unique for the event,
+    and returns the function which uses these names.
+    """
+    func = copy.deepcopy(event_function.ast_func)
+    names = {name: f"{name}_{idx}_" for name in event_function.closure_variables or {}}
+    for node in ast.walk(func):
+        if isinstance(node, ast.Name) and node.id in names:
+            node.id = names[node.id]
+    for name, unique_name in names.items():
+        closurevariables[unique_name] = event_function.closure_variables[name]
+    return func
 
 
 def generate_event_condition_ast(event_functions: list[Union[StateEvent, TimestampEvent]],
@@ -17,12 +33,11 @@ def generate_event_condition_ast(event_functions: list[Union[StateEvent, Timesta
     body = [ast.Assign(targets=[ast.Name(id=array_label)], lineno=0,
                        value=ast.List(elts=[], ctx=ast.Load()))]
     compiled_functions = {}
-    closurevariables = None
-    for event in event_functions:
+    closurevariables = {}
+    for idx, event in enumerate(event_functions):
         if event.compiled_functions:
             compiled_functions.update(event.compiled_functions)
-        condition = event.condition.ast_func
-        closurevariables = event.condition.closure_variables
+        condition = _bind_closure_variables(event.condition, idx, closurevariables)
 
         directions_array.append(event.direction)
         body.append(condition)
@@ -149,15 +164,14 @@ def generate_event_action_ast(event_functions: list[NumerousEvent],
                               from_imports: list[tuple[str, str]]) -> CPUDispatcher:
     body = []
     compiled_functions = {}
-    closurevariables = None
+    closurevariables = {}
 
     for idx, event in enumerate(event_functions):
         if event.compiled_functions:
             compiled_functions.update(event.compiled_functions)
         if event.is_external:
             continue
-        action = event.action.ast_func
-        closurevariables = event.action.closure_variables
+        action = _bind_closure_variables(event.action, idx, closurevariables)
 
         body.append(action)
         body.append(ast.If(test=ast.Compare(left=ast.Name(id='a_idx', ctx=ast.Load()), ops=[ast.Eq()],
-- 
2.43.0


From bdf70a9e1e92d2ff41189040ad2f34c6faa6893e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 13/65] fix: assigning a constant to a variable in an event
 function raised AttributeError

---
 numerous/engine/model/events.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/model/events.py b/numerous/engine/model/events.py
index d95c780..24536c8 100644
--- a/numerous/engine/model/events.py
+++ b/numerous/engine/model/events.py
@@ -116,7 +116,9 @@ class VariablesVisitor(ast.NodeVisitor):
 
     def visit_Assign(self, node: ast.Assign):
         evaluated = None
-        if isinstance(node.value, ast.BinOp):
+        if not isinstance(node.targets[0], ast.Name):
+            self.generic_visit(node)
+        elif isinstance(node.value, ast.BinOp):
             operator = node.value.op
             left = node.value.left
 
-- 
2.43.0


From 748baac6341cdff781a853397b9d0c41185325e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 14/65] fix: internal events wrote changed variables to the
 position they have without the states

---
 numerous/engine/simulation/solver_interface.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 638899a..247fddd 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -217,9 +217,8 @@ class EventFactory:
                 else:
                     modified_variables = interface.model.time_event_actions(t, vars, ix)
                 states = modified_variables[interface.model.numba_model.state_idx]
-                variables = np.delete(modified_variables, interface.model.numba_model.state_idx)
-                original_variables = np.delete(interface._get_variables(), interface.model.numba_model.state_idx)
-                modified_mask = (variables != original_variables)
+                modified_mask = (modified_variables != interface._get_variables())
+                modified_mask[interface.model.numba_model.state_idx] = False
                 for idx in np.argwhere(modified_mask):
                     interface._write_variables(modified_variables[idx[0]], idx[0])
                 return states
-- 
2.43.0


From 615f7c8dff4531c60519c4bc31a3bac02a13b0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 15/65] fix: external events of items which are not the top
 system raised KeyError

---
 numerous/engine/model/model.py                 |  2 ++
 numerous/engine/simulation/solver_interface.py | 11 +++++------
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 117041b..a2d03cc 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -416,12 +416,14 @@ class Model:
                                                                                        item.path)
                             event.action = Action(event.action.func, action_ast, action_closurevariables)
 
+                    event.parent_path = item.path
                     self.events.append(event)
             if item.timestamp_events:
                 for event in item.timestamp_events:
                     if not event.is_external:
                         action_ast, action_closurevariables = replace_path_strings(self, event.action.func, "var", item.path)
                         event.action = Action(event.action.func, action_ast, action_closurevariables)
+                    event.parent_path = item.path
                     self.timestamp_events.append(event)
 
         self.info.update({"Number of items": len(self.model_items)})
diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 247fddd..8e9a495 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -229,14 +229,13 @@ class EventFactory:
         class BaseExternalEvent(SolverEvent):
             def run_event_action(self, interface: NumerousEngineModelInterface, t: float, y: np.array) -> np.array:
                 model.update_local_variables()
-                variables = {tag: var.value for tag, var in model.path_to_variable.items()}
-                path_ = ""
-                if parent_path:
-                    path_ = ".".join(parent_path) + "."
-                    variables = {tag.replace(path_, ""): value for tag, value in variables.items()}
+                path_ = ".".join(parent_path) + "." if parent_path else ""
+                tags = {(path[len(path_):] if path.startswith(path_) else path): path
+                        for path in model.path_to_variable}
+                variables = {tag: model.path_to_variable[path].value for tag, path in tags.items()}
                 external_action_function(t, variables)
                 for tag, value in variables.items():
-                    model.path_to_variable[path_ + tag].value = value
+                    model.path_to_variable[tags[tag]].value = value
                 model.update_all_variables()
                 states = interface.get_states()
                 return states
-- 
2.43.0


From 00bc54a473b90cedde4f436b5abac40c7f009591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 16/65] fix: external data equal to zero was not written until
 one of the values changed

---
 numerous/engine/model/compiled_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/model/compiled_model.py b/numerous/engine/model/compiled_model.py
index 0818809..dae9f1b 100644
--- a/numerous/engine/model/compiled_model.py
+++ b/numerous/engine/model/compiled_model.py
@@ -76,7 +76,7 @@ class CompiledModel:
         self.historian_data = np.empty(
             (len(init_vars) + 1, self.historian_max_size), dtype=np.float64)
         self.historian_data.fill(np.nan)
-        self.previous_external_mappings = np.zeros(self.number_of_external_mappings)
+        self.previous_external_mappings = np.full(self.number_of_external_mappings, np.nan)
 
     def vectorized_full_jacobian(self, t, y, dt):
         h = 1e-8
-- 
2.43.0


From 77c589d4e8ffe6303c9c95d4f49d0c90ff5392c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 17/65] fix: external data which does not change was not
 written again after a reset

---
 numerous/engine/model/compiled_model.py  | 3 +++
 numerous/engine/simulation/simulation.py | 1 +
 2 files changed, 4 insertions(+)

diff --git a/numerous/engine/model/compiled_model.py b/numerous/engine/model/compiled_model.py
index dae9f1b..a75587f 100644
--- a/numerous/engine/model/compiled_model.py
+++ b/numerous/engine/model/compiled_model.py
@@ -93,6 +93,9 @@ class CompiledModel:
         jac = diff.T
         return np.ascontiguousarray(jac)
 
+    def reset_external_data(self):
+        self.previous_external_mappings = np.full(self.number_of_external_mappings, np.nan)
+
     def map_external_data(self, t):
 
         if not self.is_external_data:
diff --git a/numerous/engine/simulation/simulation.py b/numerous/engine/simulation/simulation.py
index 6ba5cfc..f1104d6 100644
--- a/numerous/engine/simulation/simulation.py
+++ b/numerous/engine/simulation/simulation.py
@@ -92,6 +92,7 @@ class Simulation:
         self.model.historian_df = None
         self.model.numba_model.historian_reinit()
 
+        self.model.numba_model.reset_external_data()
         self.model.numba_model.map_external_data(t_start)
         self.model.numba_model.func(t_start, self.model.numba_model.get_states())
 
-- 
2.43.0


From ef9fe3c87c568dee412542b10d0229e1bda4c407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 18/65] fix: external data columns were matched to every
 variable whose path contains theirs

---
 numerous/engine/system/external_mappings/external_mappings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/system/external_mappings/external_mappings.py b/numerous/engine/system/external_mappings/external_mappings.py
index 193e801..bd498db 100644
--- a/numerous/engine/system/external_mappings/external_mappings.py
+++ b/numerous/engine/system/external_mappings/external_mappings.py
@@ -73,7 +73,7 @@ class ExternalMapping:
         for i, external_column in enumerate(self.external_columns):
             for path in variables[var_id].path.path[system_id]:
                 for index, column in enumerate(external_column):
-                    if column in path:
+                    if column == path:
                         self.external_df_idx.append((i, index))
                         self.interpolation_info.append(
                             self.interpolation_type[index].value == InterpolationType.LINEAR.value)
-- 
2.43.0


From 6cda422ec27610de5421419e00083f7efe7adf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:00 +0000
Subject: [PATCH 19/65] fix: external data of a second data frame was
 interpolated as that of the first

---
 numerous/engine/system/external_mappings/external_mappings.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/numerous/engine/system/external_mappings/external_mappings.py b/numerous/engine/system/external_mappings/external_mappings.py
index bd498db..48513d3 100644
--- a/numerous/engine/system/external_mappings/external_mappings.py
+++ b/numerous/engine/system/external_mappings/external_mappings.py
@@ -32,7 +32,6 @@ class ExternalMapping:
 
         self.external_mappings_numpy = np.array(self.external_mappings_numpy, dtype=np.float64)
         self.external_mappings_time = np.array(self.external_mappings_time, dtype=np.float64)
-        self.interpolation_type = [item for sublist in self.interpolation_type for item in sublist]
         self.external_df_idx = []
         self.interpolation_info = []
 
@@ -76,7 +75,7 @@ class ExternalMapping:
                     if column == path:
                         self.external_df_idx.append((i, index))
                         self.interpolation_info.append(
-                            self.interpolation_type[index].value == InterpolationType.LINEAR.value)
+                            self.interpolation_type[i][index].value == InterpolationType.LINEAR.value)
 
     def is_mapped_var(self, variables, var_id, system_id):
         if not variables[var_id].global_var:
-- 
2.43.0


From 6c1377d39b170c6d3721181e38c2332d132e3c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 20/65] fix: get_variables raised KeyError for models with
 temporary variables

---
 numerous/engine/model/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index a2d03cc..80ca28f 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -494,7 +494,8 @@ class Model:
 
         def c5():
             vals = var_func()
-            return {self.inverse_aliases[k]: v for k, v in zip(self.vars_ordered_values.keys(), vals)}
+            return {self.inverse_aliases[k]: v for k, v in zip(self.vars_ordered_values.keys(), vals)
+                    if k in self.inverse_aliases}
 
         setattr(self, "update_variables", c4)
         setattr(self, "get_variables", c5)
@@ -840,7 +841,8 @@ class Model:
 
         def c5():
             vals = var_func()
-            return {self.inverse_aliases[k]: v for k, v in zip(self.vars_ordered_values.keys(), vals)}
+            return {self.inverse_aliases[k]: v for k, v in zip(self.vars_ordered_values.keys(), vals)
+                    if k in self.inverse_aliases}
 
         setattr(self, "update_variables", c4)
         setattr(self, "get_variables", c5)
-- 
2.43.0


From f87b69cd4a34b55eaf15b15b904a5f3cf683cf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 21/65] fix: historian rows in which any variable is NaN were
 dropped

---
 numerous/engine/model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 80ca28f..2859ae1 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -858,7 +858,7 @@ class Model:
         return data
 
     def generate_not_nan_history_array(self):
-        return self.numba_model.historian_data[:, ~np.isnan(self.numba_model.historian_data).any(axis=0)]
+        return self.numba_model.historian_data[:, ~np.isnan(self.numba_model.historian_data[0])]
 
     def create_historian_df(self):
         if self.historian_df is not None:
-- 
2.43.0


From 1650325bab757fee8888d86990c6af54cfb93b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 22/65] fix: LocalHistorian could not store results and got all
 rows again with every chunk

---
 numerous/engine/model/model.py | 9 ++++-----
 numerous/utils/historian.py    | 4 ++--
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 2859ae1..38a6bb5 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -861,17 +861,16 @@ class Model:
         return self.numba_model.historian_data[:, ~np.isnan(self.numba_model.historian_data[0])]
 
     def create_historian_df(self):
+        new_rows = self._generate_history_df(self.generate_not_nan_history_array())
         if self.historian_df is not None:
             import pandas as pd
-            self.historian_df = AliasedDataFrame(pd.concat([self.historian_df.df,
-                                                            self._generate_history_df(
-                                                                self.generate_not_nan_history_array()).df],
+            self.historian_df = AliasedDataFrame(pd.concat([self.historian_df.df, new_rows.df],
                                                            axis=0, sort=False, ignore_index=True),
                                                  aliases=self.aliases, rename_columns=True)
 
         else:
-            self.historian_df = self._generate_history_df(self.generate_not_nan_history_array())
-        self.historian.store(self.historian_df)
+            self.historian_df = new_rows
+        self.historian.store(new_rows.df.rename(columns=self.inverse_aliases))
 
     def _generate_history_df(self, historian_data):
         data = self.create_historian_dict(historian_data)
diff --git a/numerous/utils/historian.py b/numerous/utils/historian.py
index 31faca1..cffbde4 100644
--- a/numerous/utils/historian.py
+++ b/numerous/utils/historian.py
@@ -70,6 +70,6 @@ class LocalHistorian(Historian):
 
         """
         if os.path.isfile(self.filename):
-            df.dropna().to_csv(self.filename, mode='a', header=False)
+            df.to_csv(self.filename, mode='a', header=False)
         else:
-            df.dropna().to_csv(self.filename)
\ No newline at end of file
+            df.to_csv(self.filename)
\ No newline at end of file
-- 
2.43.0


From ac89b5ededbee05399dfded42db2f22d752ed095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 23/65] fix: bilinear_interpolation returned a corner value on
 the grid lines

---
 .../utils/interpolation/bilinear_interpolation.py     | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/numerous/utils/interpolation/bilinear_interpolation.py b/numerous/utils/interpolation/bilinear_interpolation.py
index dcabae8..2cc19d4 100644
--- a/numerous/utils/interpolation/bilinear_interpolation.py
+++ b/numerous/utils/interpolation/bilinear_interpolation.py
@@ -101,16 +101,13 @@ def bilinear_interpolation(ix, x, y, data_def, data):
     # if not x1 <= x <= x2 or not y1 <= y <= y2:
     #     raise ValueError('(x, y) not within the rectangle')
 
-    if x == x2 or x == x1 or x1 == x2:
-        if y == y1 or y == y2 or y1 == y2:
+    if x1 == x2:
+        if y1 == y2:
             return q11
         else:
             z = (q11 * (y2 - y) + q12 * (y - y1)) / (y2 - y1)
-    elif y == y1 or y == y2 or y1 == y2:
-        if x == x1 or x == x2 or x1 == x2:
-            return q11
-        else:
-            z = (q11 * (x2 - x) + q21 * (x - x1)) / (x2 - x1)
+    elif y1 == y2:
+        z = (q11 * (x2 - x) + q21 * (x - x1)) / (x2 - x1)
     else:
         z = (q11 * (x2 - x) * (y2 - y) +
              q21 * (x - x1) * (y2 - y) +
-- 
2.43.0


From 9f9f99c71593a14cf26d642b3bc62f0c21f43697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 24/65] fix: stored variables were not always those of the
 stored time and states

---
 numerous/engine/simulation/solver_interface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 8e9a495..1b6c41e 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -93,6 +93,8 @@ class NumerousEngineModelInterface(Interface):
         return self.model.numba_model.map_external_data(t)
 
     def historian_update(self, t: float, y: np.array) -> SolveEvent:
+        # the solver last evaluated the equations wherever it needed their derivatives, which may be elsewhere
+        self.model.numba_model.func(t, self.model.numba_model.get_states())
         self.model.numba_model.historian_update(t)
         if self._is_store_required():
             return SolveEvent.Historian
-- 
2.43.0


From 997ccc43f11c18254e63c8a8a8628457f920cb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:05 +0000
Subject: [PATCH 25/65] fix: mappings from binding variables were only resolved
 for copies within the same namespace

---
 numerous/engine/system/connector_item.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/numerous/engine/system/connector_item.py b/numerous/engine/system/connector_item.py
index da3fd85..ebc24f0 100644
--- a/numerous/engine/system/connector_item.py
+++ b/numerous/engine/system/connector_item.py
@@ -30,15 +30,20 @@ class ConnectorItem(Item, Connector):
         return new_namespace
 
     def __bind_mappings(self, binding, binded_item):
-        for ns in self.registered_namespaces:
+        def binded_variable(variable):
+            if isinstance(variable, _BindingVariable) and variable.namespace.binding is binding:
+                return binded_item.registered_namespaces[variable.namespace.tag].get_variable(
+                    variable.detailed_description.tag)
+            return variable
+
+        namespaces = list(self.registered_namespaces)
+        for b in self.bindings:
+            namespaces.extend(b.ns)
+        for ns in namespaces:
             for f_var in ns.variables:
                 if f_var.mapping:
-                    b_fvar=f_var.mapping
-                    if isinstance(b_fvar, _BindingVariable):
-                        if b_fvar.namespace.binding.name == binding.name:
-                            bv = binded_item.registered_namespaces[ns.tag].get_variable(
-                                b_fvar.detailed_description.tag)
-                            f_var.mapping = bv
+                    f_var.mapping = binded_variable(f_var.mapping)
+                f_var.sum_mapping = [binded_variable(variable) for variable in f_var.sum_mapping]
 
     def bind(self, **kwargs):
         """
-- 
2.43.0


From 01a66769d997b919770d8d5bef66b9cc36982f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 26/65] fix: CSVDataLoader failed on later chunks if time is
 the first column, and shared its position between files

---
 numerous/utils/data_loader.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/numerous/utils/data_loader.py b/numerous/utils/data_loader.py
index bbee08c..dbfe3cf 100644
--- a/numerous/utils/data_loader.py
+++ b/numerous/utils/data_loader.py
@@ -22,40 +22,39 @@ class CSVDataLoader(DataLoader):
         super(CSVDataLoader, self).__init__()
         self.chunksize = chunksize
         self.is_chunks = False
-        self._skiprows = 0
-        self.df = pd.DataFrame()
-        self.t_ix = None
+        # first data row and first time of the rows loaded last, for each file
+        self._skiprows = {}
+        self._first_time = {}
         if self.chunksize:
             self.is_chunks = True
 
-    def _valid(self, chunks, t):
+    def _valid(self, df_id, chunks, t):
         for i, chunk in enumerate(chunks):
-            if not self.t_ix:
-                self.t_ix = np.where(chunk.columns == 'time')[0][0]
-            mask = chunk.iloc[:, self.t_ix] <= t
+            mask = chunk['time'] <= t
 
             if mask.all():
                 yield chunk
             else:
-                self._skiprows += i * self.chunksize
+                self._skiprows[df_id] = self._skiprows.get(df_id, 0) + i * self.chunksize
                 yield chunk
                 break
 
     def load(self, df_id: str, t: float) -> DataFrame:
-        if not self.df.empty and t < min(self.df.iloc[:, self.t_ix]):
-            self._skiprows = 0
+        if df_id in self._first_time and t < self._first_time[df_id]:
+            self._skiprows[df_id] = 0
 
         if self.is_chunks:
-            chunks = pd.read_csv(df_id, header=0, skiprows=self._skiprows, chunksize=self.chunksize)
-            df = pd.concat(self._valid(chunks, t))
+            chunks = pd.read_csv(df_id, header=0, skiprows=range(1, self._skiprows.get(df_id, 0) + 1),
+                                 chunksize=self.chunksize)
+            df = pd.concat(self._valid(df_id, chunks, t))
+            if not df.empty:
+                self._first_time[df_id] = df['time'].min()
         else:
             df = pd.read_csv(df_id, header=0)
 
-        self.df = df
         return df
 
 
-
 class InMemoryDataLoader(DataLoader):
 
     def __init__(self, df):
-- 
2.43.0


From b03d5e5d899145ac2fa4bd64ce659b7f78210519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 27/65] fix: external data loader was asked for the simulation
 time, not for the time of the data

---
 numerous/engine/system/external_mappings/external_mappings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/system/external_mappings/external_mappings.py b/numerous/engine/system/external_mappings/external_mappings.py
index 48513d3..f9fc912 100644
--- a/numerous/engine/system/external_mappings/external_mappings.py
+++ b/numerous/engine/system/external_mappings/external_mappings.py
@@ -42,7 +42,7 @@ class ExternalMapping:
         for external_mapping in self.external_mappings:
             for element in external_mapping.external_mappings:
                 # TODO division round bugs? we can skip a row here
-                df = external_mapping.data_loader.load(element.data_frame_id, t)
+                df = external_mapping.data_loader.load(element.data_frame_id, t / element.time_multiplier)
 
                 if df.empty:
                     return False
-- 
2.43.0


From aefed204e598c56874c7cc22780bada431e49b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 28/65] fix: first stored values were those of the first chunk
 of external data wherever the simulation starts

---
 numerous/engine/model/model.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 38a6bb5..3bc0db6 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -772,6 +772,12 @@ class Model:
                                              self.post_step
                                              )
 
+        if NM_instance.is_external_data_update_needed(start_time):
+            NM_instance.is_external_data = self.external_mappings.load_new_external_data_batch(start_time)
+            NM_instance.update_external_data(self.external_mappings.external_mappings_numpy,
+                                             self.external_mappings.external_mappings_time,
+                                             self.external_mappings.t_max, self.external_mappings.t_min)
+
         # NM_instance.run_init_callbacks(start_time)
         NM_instance.map_external_data(start_time)
 
-- 
2.43.0


From 21acd5f979c19a8b276693529a0edb6c0f5e7296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 29/65] fix: simulations up to the last external data failed if
 the time of the solver was rounded up

---
 numerous/engine/model/compiled_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/model/compiled_model.py b/numerous/engine/model/compiled_model.py
index a75587f..9c660c6 100644
--- a/numerous/engine/model/compiled_model.py
+++ b/numerous/engine/model/compiled_model.py
@@ -134,7 +134,9 @@ class CompiledModel:
         self.min_external_t = min_external_t
 
     def is_external_data_update_needed(self, t):
-        if self.is_external_data and (t > self.max_external_t or t < self.min_external_t):
+        # the time of the solver may exceed the time of the last data by rounding
+        tolerance = 100 * FEPS * max(1.0, abs(t))
+        if self.is_external_data and (t > self.max_external_t + tolerance or t < self.min_external_t - tolerance):
             return True
         return False
 
-- 
2.43.0


From 036702e5cf92ce0f5436f5b2cd0fc09172dd682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:39 +0000
Subject: [PATCH 30/65] fix: conditions and actions of events used computed
 variables of an earlier evaluation

---
 numerous/engine/simulation/solver_interface.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 1b6c41e..865a2dd 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -213,6 +213,8 @@ class EventFactory:
 
         class BaseInternalEvent(SolverEvent):
             def run_event_action(self, interface: NumerousEngineModelInterface, t: float, y: np.array) -> np.array:
+                # actions may depend on variables which are computed from the states
+                interface.model.numba_model.func(t, interface.get_states())
                 vars = interface._get_variables()
                 if event_type == 'state':
                     modified_variables = interface.model.state_event_actions(t, vars, ix)
@@ -230,6 +232,8 @@ class EventFactory:
         # Use closure to wrap external event class
         class BaseExternalEvent(SolverEvent):
             def run_event_action(self, interface: NumerousEngineModelInterface, t: float, y: np.array) -> np.array:
+                # actions may depend on variables which are computed from the states
+                interface.model.numba_model.func(t, interface.get_states())
                 model.update_local_variables()
                 path_ = ".".join(parent_path) + "." if parent_path else ""
                 tags = {(path[len(path_):] if path.startswith(path_) else path): path
@@ -256,6 +260,8 @@ class EventFactory:
             def _get_variables_modified(self, interface: NumerousEngineModelInterface, t, y_) -> np.array:
                 old_states = interface.get_states()
                 interface.set_states(y_)
+                # conditions may depend on variables which are computed from the states
+                interface.model.numba_model.func(t, y_)
 
                 vars = interface.model.numba_model.read_variables().copy()
                 interface.set_states(old_states)
-- 
2.43.0


From e1bf1d0f9f9a30d14c3a3145a0d17c786bb2c807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 31/65] fix: only the last of several external events with the
 same key was run

---
 numerous/engine/simulation/solver_interface.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/simulation/solver_interface.py b/numerous/engine/simulation/solver_interface.py
index 865a2dd..1d7f3af 100644
--- a/numerous/engine/simulation/solver_interface.py
+++ b/numerous/engine/simulation/solver_interface.py
@@ -282,19 +282,22 @@ class EventFactory:
         :return:
 
         """
+        # the solver finds external events by their id, and items may use the same key
+        id_ = f"{type(event_).__name__}_{ix}_{event_.key}"
+
         if type(event_) == TimestampEvent:
             event_type = 'time'
             if event_.periodicity:
                 baseclass = SolverPeriodicTimeEvent
-                kwargs = dict(id=event_.key, period=event_.periodicity, is_external=event_.is_external)
+                kwargs = dict(id=id_, period=event_.periodicity, is_external=event_.is_external)
             else:
                 baseclass = SolverTimestampedEvent
-                kwargs = dict(id=event_.key, timestamps=event_.timestamps, is_external=event_.is_external)
+                kwargs = dict(id=id_, timestamps=event_.timestamps, is_external=event_.is_external)
 
         else:
             event_type = 'state'
             baseclass = self._wrap_state_event(ix)
-            kwargs = dict(id=event_.key, is_external=event_.is_external)
+            kwargs = dict(id=id_, is_external=event_.is_external)
 
         new_event: type = self._new_event(ix, model, baseclass,
                                           is_external=event_.is_external,
-- 
2.43.0


From c38d731c63a63e608a3d49fb4552ebbc4129027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:46 +0000
Subject: [PATCH 32/65] fix: no rows were reserved for the events at
 timestamps, so that external events happened early

---
 numerous/engine/model/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 3bc0db6..05f1855 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -759,7 +759,8 @@ class Model:
                                              number_of_timesteps,
                                              start_time,
                                              self.historian.get_historian_max_size(number_of_timesteps,
-                                                                                   len(self.events)),
+                                                                                   len(self.events) +
+                                                                                   len(self.timestamp_events)),
                                              self.external_mappings.external_mappings_time,
                                              self.number_of_external_mappings,
                                              self.external_mappings.external_mappings_numpy,
-- 
2.43.0


From bbc794d288272c4c8f049bb70e348d2f0e7af6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:13 +0000
Subject: [PATCH 33/65] fix: timestamps of an event could not be an array

---
 numerous/engine/numerous_event.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/numerous_event.py b/numerous/engine/numerous_event.py
index 2cbf3b0..4d5f4a6 100644
--- a/numerous/engine/numerous_event.py
+++ b/numerous/engine/numerous_event.py
@@ -83,11 +83,13 @@ class TimestampEvent(NumerousEvent):
         self.action = action
         self.compiled_functions = compiled_functions
 
-        assert not (periodicity and timestamps), "you cannot specify both timestamps and periodicity for a " \
+        has_timestamps = timestamps is not None and len(timestamps) > 0
+
+        assert not (periodicity and has_timestamps), "you cannot specify both timestamps and periodicity for a " \
                                                  "time-stamp event"
 
-        assert not (not timestamps and not periodicity), "you must specify at least timestamps or periodicity"
-        assert isinstance(timestamps, list) or isinstance(timestamps, np.ndarray) or not timestamps, \
+        assert has_timestamps or periodicity, "you must specify at least timestamps or periodicity"
+        assert isinstance(timestamps, list) or isinstance(timestamps, np.ndarray) or not has_timestamps, \
             "timestamps must be list or np array"
 
         self.timestamps = np.array(timestamps) if isinstance(timestamps, list) else timestamps
-- 
2.43.0


From 4a15a61bc20d769b9fbe7168a303626c449995c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:45 +0000
Subject: [PATCH 34/65] fix: event functions failed on products and differences
 of constants

---
 numerous/engine/model/events.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/numerous/engine/model/events.py b/numerous/engine/model/events.py
index 24536c8..79f6f76 100644
--- a/numerous/engine/model/events.py
+++ b/numerous/engine/model/events.py
@@ -125,14 +125,12 @@ class VariablesVisitor(ast.NodeVisitor):
             right = node.value.right
             left_val, left_has_val = self._get_value(left)
             right_val, right_has_val = self._get_value(right)
-            if not left_has_val or not right_has_val:
+            if not left_has_val or not right_has_val or not isinstance(operator, ast.Add):
+                # not a path
                 self.generic_visit(node)
                 return
 
-            if isinstance(operator, ast.Add):
-                evaluated = left_val + right_val
-            else:
-                raise NotImplementedError(f"{type(operator)} not yet implemented")
+            evaluated = left_val + right_val
             self.assigned_variables.update({node.targets[0].id: evaluated})
         elif isinstance(node.value, ast.Constant):
             self.assigned_variables.update({node.targets[0].id: node.value.value})
-- 
2.43.0


From 7b77a92dfe86ae576bd8a69fa75b54ca35a86958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 35/65] fix: event functions failed on elements of anything but
 a local variable

---
 numerous/engine/model/events.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/numerous/engine/model/events.py b/numerous/engine/model/events.py
index 79f6f76..39d4f1f 100644
--- a/numerous/engine/model/events.py
+++ b/numerous/engine/model/events.py
@@ -78,7 +78,7 @@ class VariablesVisitor(ast.NodeVisitor):
             self.variables_name = node.args.args[1].arg
 
         if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Constant):
-            if node.value.id != self.variables_name:
+            if getattr(node.value, 'id', None) != self.variables_name:
                 return ast.NodeVisitor.generic_visit(self, node)
 
             if isinstance(node.slice.value, str):
@@ -92,7 +92,7 @@ class VariablesVisitor(ast.NodeVisitor):
                 raise KeyError(f'No such variable: {node.slice.value}')
 
         elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Name):
-            if node.value.id != self.variables_name:
+            if getattr(node.value, 'id', None) != self.variables_name:
                 return ast.NodeVisitor.generic_visit(self, node)
 
             found = False
-- 
2.43.0


From 64335b5543146726d01e800a5c901fa981963e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:47 +0000
Subject: [PATCH 36/65] fix: a simulation with more steps than the first one of
 the model overflowed the historian

---
 numerous/engine/model/model.py           | 7 ++++---
 numerous/engine/simulation/simulation.py | 2 ++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 05f1855..9c044a5 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -734,6 +734,9 @@ class Model:
         return namespaces_list
 
     # Method that generates numba_model
+    def get_historian_max_size(self, number_of_timesteps: int) -> int:
+        return self.historian.get_historian_max_size(number_of_timesteps, len(self.events) + len(self.timestamp_events))
+
     def _generate_compiled_model(self, start_time, number_of_timesteps):
         for spec_dict in self.numba_callbacks_variables:
             for item in spec_dict.items():
@@ -758,9 +761,7 @@ class Model:
                                                       dtype=np.float),
                                              number_of_timesteps,
                                              start_time,
-                                             self.historian.get_historian_max_size(number_of_timesteps,
-                                                                                   len(self.events) +
-                                                                                   len(self.timestamp_events)),
+                                             self.get_historian_max_size(number_of_timesteps),
                                              self.external_mappings.external_mappings_time,
                                              self.number_of_external_mappings,
                                              self.external_mappings.external_mappings_numpy,
diff --git a/numerous/engine/simulation/simulation.py b/numerous/engine/simulation/simulation.py
index f1104d6..9e4285c 100644
--- a/numerous/engine/simulation/simulation.py
+++ b/numerous/engine/simulation/simulation.py
@@ -46,6 +46,8 @@ class Simulation:
         self.model = model
 
         if model.numba_model:
+            # the model was compiled for a simulation which may have had less time steps
+            model.numba_model.historian_max_size = model.get_historian_max_size(len(self.time))
             self.reset(t_start)
 
         log.info(f'Number of steps: {len(self.time)}')
-- 
2.43.0


From 90d7f86ff53b9fbd4b6e95bf75dc6c9203a6054f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:01 +0000
Subject: [PATCH 37/65] fix: events of a reset simulation went on where they
 were

---
 numerous/engine/simulation/simulation.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/numerous/engine/simulation/simulation.py b/numerous/engine/simulation/simulation.py
index 9e4285c..1f82c1b 100644
--- a/numerous/engine/simulation/simulation.py
+++ b/numerous/engine/simulation/simulation.py
@@ -44,6 +44,8 @@ class Simulation:
         time_, delta_t = np.linspace(t_start, t_stop, num + 1, retstep=True)
         self.time = time_
         self.model = model
+        self.solver = None
+        self.solver_options = kwargs
 
         if model.numba_model:
             # the model was compiled for a simulation which may have had less time steps
@@ -59,12 +61,7 @@ class Simulation:
             generation_finish = time.time()
             log.info(f"Numba model generation finished, generation time: {generation_finish - generation_start}")
 
-        numerous_engine_model, numerous_engine_event_handler = \
-            generate_numerous_engine_solver_model(model)
-
-        self.solver = NumerousSolver(model=numerous_engine_model,
-                                     use_jit=model.use_llvm, event_handler=numerous_engine_event_handler,
-                                     **kwargs)
+        self._create_solver()
 
         self.start_datetime = start_datetime
         self.info = model.info["Solver"]
@@ -76,6 +73,14 @@ class Simulation:
         log.info(
             f"Numba equations compiled, historian initizalized, compilation time: {compilation_finished - compilation_start}")
 
+    def _create_solver(self):
+        numerous_engine_model, numerous_engine_event_handler = \
+            generate_numerous_engine_solver_model(self.model)
+
+        self.solver = NumerousSolver(model=numerous_engine_model,
+                                     use_jit=self.model.use_llvm, event_handler=numerous_engine_event_handler,
+                                     **self.solver_options)
+
     def solve(self):
 
         self.solver.solve(self.time)
@@ -106,6 +111,10 @@ class Simulation:
                                                         self.model.external_mappings.t_max,
                                                         self.model.external_mappings.t_min)
 
+        if self.solver is not None:
+            # the solver and its events remember how far they got
+            self._create_solver()
+
     def _complete(self):
 
         list(map(lambda x: x.restore_variables_from_numba(self.model.numba_model,
-- 
2.43.0


From cc9665493788abb8cb45ba882bb9639ae6041e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:39 +0000
Subject: [PATCH 38/65] fix: get_states of a model failed

---
 numerous/engine/model/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 9c044a5..6e008c4 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -551,7 +551,8 @@ class Model:
         states : list of states
             list of all states.
         """
-        return self.variables[self.states]
+        ids = {ix: var_id for var_id, ix in self.vars_ordered_values.items()}
+        return [self.variables[ids[ix]] for ix in self.state_idx]
 
 
     def history_as_dataframe(self):
-- 
2.43.0


From 78dec23889991a24ab5763791bd47ce088f26f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:39 +0000
Subject: [PATCH 39/65] fix: validate_bindings failed on items which are no
 connectors

---
 numerous/engine/model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 6e008c4..a5db519 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -573,7 +573,7 @@ class Model:
         """
         valid = True
         for item in self.model_items.values():
-            for binding in item.bindings:
+            for binding in getattr(item, 'bindings', []):
                 if binding.is_bindend():
                     pass
                 else:
-- 
2.43.0


From 1698ed769f5082526a517f85b6f33874e5b02d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:02 +0000
Subject: [PATCH 40/65] fix: events of the items of a set were ignored

---
 numerous/engine/model/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index a5db519..302dba1 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -206,6 +206,9 @@ class Model:
         self.model_items.update({item.id: item})
         model_namespaces[item.id] = self._create_model_namespaces(item)
         if isinstance(item, ItemSet):
+            # the namespaces of the items belong to those of the set
+            for set_item in item.registered_items.values():
+                self.model_items.update({set_item.id: set_item})
             return model_namespaces
         if isinstance(item, Connector):
             for binded_item in item.get_binded_items():
-- 
2.43.0


From c732d88d675b0942b06bb6026679fb9f2a74ee17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:28 +0000
Subject: [PATCH 41/65] fix: registering a subsystem before its own items
 failed

---
 numerous/engine/system/subsystem.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/numerous/engine/system/subsystem.py b/numerous/engine/system/subsystem.py
index 2e08ce9..e3e5e16 100644
--- a/numerous/engine/system/subsystem.py
+++ b/numerous/engine/system/subsystem.py
@@ -132,12 +132,10 @@ class Subsystem(ConnectorItem):
         for ns in item.registered_namespaces.values():
             for var in ns.variables.values():
                 var.path.extend_path(item.id, self.id, self.tag)
-                if len(tail) == 1:
-                    var.path.extend_path(self.id, tail[0].id, tail[0].tag)
-                if len(tail) > 1:
-                    t1 = tail[0::2][0]
-                    t2 = tail[1::2][0]
-                    var.path.extend_path(t2.id, t1.id, t1.tag)
+                child = self
+                for parent in reversed(tail):
+                    var.path.extend_path(child.id, parent.id, parent.tag)
+                    child = parent
         if isinstance(item, Subsystem):
             for item_ in item.registered_items.values():
                 item.update_variables_path(item_, tail + [self])
@@ -153,7 +151,14 @@ class Subsystem(ConnectorItem):
         if item.tag in [x.tag for x in self.registered_items.values()]:
             raise ValueError('Item with tag {} is already registered in system {}'.format(item.tag, self.tag))
         item._increase_level()
-        self.update_variables_path(item)
+        item.parent_item = self
+        # this subsystem itself may already be registered in others
+        tail = []
+        parent = self.parent_item
+        while parent is not None:
+            tail.insert(0, parent)
+            parent = parent.parent_item
+        self.update_variables_path(item, tail)
         self.registered_items.update({item.id: item})
 
     def _find_variable(self, item, varname):
-- 
2.43.0


From b471065a4bd24db6274e8a78062fd1aa82975ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:15 +0000
Subject: [PATCH 42/65] fix: variables of namespaces created after the
 registration of their item had no path in the system

---
 numerous/engine/system/namespace.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/numerous/engine/system/namespace.py b/numerous/engine/system/namespace.py
index 65d46e1..c406560 100644
--- a/numerous/engine/system/namespace.py
+++ b/numerous/engine/system/namespace.py
@@ -120,6 +120,11 @@ class VariableNamespaceBase:
 
             variable.path.extend_path(variable.id, self.id, self.tag)
             variable.path.extend_path(self.id, self.item.id, self.item.tag)
+            # the item may already be registered in a subsystem
+            item = self.item
+            while item.parent_item is not None:
+                variable.path.extend_path(item.id, item.parent_item.id, item.parent_item.tag)
+                item = item.parent_item
 
         else:
             logging.warning("Variable {0} is already in namespace {1} of item {2}".format(variable.tag,
-- 
2.43.0


From 059effa1b2a964cca2b921bbc1059c8dc9cef3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:32 +0000
Subject: [PATCH 43/65] fix: variables of a namespace with several equations,
 or of none, were lost

---
 numerous/engine/model/model.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 302dba1..82f871b 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -77,13 +77,11 @@ class ModelNamespace:
 
         variables__ = [list(x) for x in zip(*variables__)]
         variables__ = list(itertools.chain(*variables__))
-        variables_ordered = [None] * len(variables__)
         if self.is_set:
             for i, v in enumerate(variables__):
                 v.detailed_description.variable_idx = i
-        for variable in variables__:
-            variables_ordered[variable.detailed_description.variable_idx] = variable
-        return variables_ordered
+        # variables of several equations, or of none, can have the same index
+        return sorted(variables__, key=lambda v: v.detailed_description.variable_idx)
 
 
 class ModelAssembler:
-- 
2.43.0


From 2c41e767710f8e21fc20e4823727c94acd270742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:09 +0000
Subject: [PATCH 44/65] fix: a variable declared again with a greater value in
 another equation of the namespace failed

---
 numerous/engine/system/namespace.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/numerous/engine/system/namespace.py b/numerous/engine/system/namespace.py
index c406560..73c60a9 100644
--- a/numerous/engine/system/namespace.py
+++ b/numerous/engine/system/namespace.py
@@ -115,25 +115,22 @@ class VariableNamespaceBase:
             Variable to be registered.
 
         """
-        if (variable.tag + tag_count) not in self.variables.keys():
-            self.variables[variable.tag + tag_count] = variable
-
-            variable.path.extend_path(variable.id, self.id, self.tag)
-            variable.path.extend_path(self.id, self.item.id, self.item.tag)
-            # the item may already be registered in a subsystem
-            item = self.item
-            while item.parent_item is not None:
-                variable.path.extend_path(item.id, item.parent_item.id, item.parent_item.tag)
-                item = item.parent_item
-
-        else:
+        if (variable.tag + tag_count) in self.variables.keys():
             logging.warning("Variable {0} is already in namespace {1} of item {2}".format(variable.tag,
                                                                                           self.tag, self.item.tag))
             # we overwrite constant < parameters < state
-            if self.variables[variable.tag].value < variable.value:
-                self.variables[variable.tag] = variable
-                variable.extend_path(self.tag)
-                variable.extend_path(self.item.tag)
+            if self.variables[variable.tag + tag_count].type.value >= variable.type.value:
+                return
+
+        self.variables[variable.tag + tag_count] = variable
+
+        variable.path.extend_path(variable.id, self.id, self.tag)
+        variable.path.extend_path(self.id, self.item.id, self.item.tag)
+        # the item may already be registered in a subsystem
+        item = self.item
+        while item.parent_item is not None:
+            variable.path.extend_path(item.id, item.parent_item.id, item.parent_item.tag)
+            item = item.parent_item
 
     def update_set_var(self):
         pass
-- 
2.43.0


From b095a32da1921ca04074e3ab433a3cdfe2fe0898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 45/65] fix: equations of a set failed if another namespace
 with the same equation has more variables

---
 numerous/engine/model/lowering/equations_generator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/model/lowering/equations_generator.py b/numerous/engine/model/lowering/equations_generator.py
index efb2cea..983d222 100644
--- a/numerous/engine/model/lowering/equations_generator.py
+++ b/numerous/engine/model/lowering/equations_generator.py
@@ -180,12 +180,13 @@ class EquationGenerator:
 
     def search_in_set_scope(self, set_var_id, known_set_var_id):
         tag = self.set_variables[set_var_id].tag
-        known = self.set_variables[known_set_var_id]
-        known = next(iter(known.variables.values()))
+        known_set_var = self.set_variables[known_set_var_id]
+        known = next(iter(known_set_var.variables.values()))
         for var in self.scope_variables.values():
             if var.tag == tag and var.set_var and not var.temporary_variable and var.namespace is known.namespace:
                 return var.set_var
-        raise ValueError("No variable found for id {}", set_var_id)
+        # there is no such variable in this namespace, any will do as it is not used
+        return known_set_var
 
     def _process_equation_node(self, n):
         eq_name = self.equation_graph.nodes[n].name
-- 
2.43.0


From a0a5d9e9bfd6203ed857037876afa49d94ce52dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:29 +0000
Subject: [PATCH 46/65] fix: get_value lost sources which are added in several
 ways

---
 numerous/engine/variables.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/numerous/engine/variables.py b/numerous/engine/variables.py
index 9105165..5e9c9fe 100644
--- a/numerous/engine/variables.py
+++ b/numerous/engine/variables.py
@@ -91,8 +91,7 @@ class MappedValue(object):
             if self.mapping:
                 return self.mapping.get_value()
             if self.sum_mapping:
-                ids.append(self.id)
-                return reduce(add, [x.__get_value(ids) for x in self.sum_mapping])
+                return reduce(add, [x.__get_value(ids + [self.id]) for x in self.sum_mapping])
 
             else:
                 return self.value
-- 
2.43.0


From 2745189ad58b7ffdeec51751a5f47ef1f08e99bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:08 +0000
Subject: [PATCH 47/65] fix: get_variables_initial_values raised KeyError for
 models with temporary variables

---
 numerous/engine/model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 82f871b..01f203b 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -445,7 +445,7 @@ class Model:
             self.var_write(v, self.vars_ordered_values[var_id])
 
     def get_variables_initial_values(self):
-        return {self.inverse_aliases[k]: v for k, v in self._initial_variables_dict.items()}
+        return {self.inverse_aliases[k]: v for k, v in self._initial_variables_dict.items() if k in self.inverse_aliases}
 
     def lower_model_codegen(self, tmp_vars):
 
-- 
2.43.0


From 649ba30b8c4a16e6cca82ad8bcdef7f7e793e7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:40 +0000
Subject: [PATCH 48/65] fix: derivatives declared in another order than their
 states were taken for those of other states

---
 .../engine/model/lowering/equations_generator.py  | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/numerous/engine/model/lowering/equations_generator.py b/numerous/engine/model/lowering/equations_generator.py
index 983d222..6759492 100644
--- a/numerous/engine/model/lowering/equations_generator.py
+++ b/numerous/engine/model/lowering/equations_generator.py
@@ -34,6 +34,7 @@ class EquationGenerator:
                 self.states.append(full_tag)
             elif sv.type == VariableType.DERIVATIVE:
                 self.deriv.append(full_tag)
+        self._sort_derivatives()
 
         for k, var in temporary_variables.items():
             if var.type == VariableType.TMP_PARAMETER_SET:
@@ -98,6 +99,20 @@ class EquationGenerator:
                 used_eq[eq_key] = eq
         self._parse_equations(used_eq)
 
+    def _sort_derivatives(self):
+        """
+        The derivatives are returned in the order of their states.
+        """
+        state_ix = {}
+        deriv_ix = {}
+        for sv in self.scope_variables.values():
+            if sv.type == VariableType.STATE:
+                state_ix[(sv.item.id, sv.namespace.tag, sv.tag + '_dot')] = len(state_ix)
+        for sv in self.scope_variables.values():
+            if sv.type == VariableType.DERIVATIVE:
+                deriv_ix[d_u(sv.id)] = state_ix.get((sv.item.id, sv.namespace.tag, sv.tag), len(state_ix))
+        self.deriv.sort(key=lambda full_tag: deriv_ix[full_tag])
+
     def _parse_variable(self, full_tag, sv):
         # If a scope_variable is part of a set it should be referenced alone
         if sv.set_var:
-- 
2.43.0


From 26d49f6b3427410e54c16f6024e298ffa61f7560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:31 +0000
Subject: [PATCH 49/65] fix: values of a tuple assignment were computed after
 its first targets had changed

---
 numerous/engine/model/ast_parser/ast_visitor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index f1d4911..ffee580 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -139,6 +139,14 @@ class AstVisitor(ast.NodeVisitor):
         start = self.node_number_stack.pop()
         end = self.node_number_stack.pop()
         en = 0
+        if len(start) > 1 and len(start) == len(end):
+            # all values are evaluated before any of the targets is assigned
+            values = self.graph.add_node(Node(ao=node.value, file=self.eq_file, name=self.eq_key, ln=self.eq_lineno,
+                                              label="iterable_node", ctx=ast.Load(), node_type=NodeTypes.OP,
+                                              ast_type=ast.Tuple))
+            for s in start:
+                self.graph.add_edge(Edge(start=s, end=values, e_type=EdgeType.ELEMENT, branches=self.branches.copy()))
+            start = [values]
         for s, e, m in zip_longest(start, end, mapped):
             if e is not None and s is not None:
                 en = self.graph.add_node(Node(ao=node, file=self.eq_file, name=self.eq_key, ln=self.eq_lineno,
-- 
2.43.0


From 3c8108d42b7b785162a5a62c6a7b3c98a3ecd04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:26 +0000
Subject: [PATCH 50/65] fix: else branches of if statements in equations were
 dropped

---
 numerous/engine/model/ast_parser/ast_visitor.py         | 6 +++++-
 numerous/engine/model/ast_parser/equation_from_graph.py | 9 ++++++---
 numerous/engine/model/graph_representation/graph.py     | 3 ++-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index ffee580..d53880b 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -274,10 +274,14 @@ class AstVisitor(ast.NodeVisitor):
     def visit_If(self, node: ast.If) -> Any:
         subgraph_body = ast_to_graph(node.body, self.eq_key, self.eq_file, self.eq_lineno, self.scope_variables)
         subgraph_test = ast_to_graph(node.test, self.eq_key, self.eq_file, self.eq_lineno, self.scope_variables)
+        subgraph_orelse = ast_to_graph(node.orelse, self.eq_key, self.eq_file, self.eq_lineno, self.scope_variables) \
+            if node.orelse else None
         node = Node(ao=node, file=self.eq_file, name=self.eq_key,
                     ln=self.eq_lineno, label="IF", ast_type=ast.If, node_type=NodeTypes.IF, subgraph_body=subgraph_body,
-                    subgraph_test=subgraph_test)
+                    subgraph_test=subgraph_test, subgraph_orelse=subgraph_orelse)
         subgraph_node_idx = connect_equation_node(subgraph_body, self.graph, node, is_set=False, include_local=True)
+        if subgraph_orelse:
+            connect_equation_node(subgraph_orelse, self.graph, node, is_set=False, include_local=True)
         connect_equation_node(subgraph_test, self.graph, node, is_set=False, include_local=True)
         self.mapped_stack.append([None])
         self.node_number_stack.append(subgraph_node_idx)
diff --git a/numerous/engine/model/ast_parser/equation_from_graph.py b/numerous/engine/model/ast_parser/equation_from_graph.py
index 8536562..d5b4ea9 100644
--- a/numerous/engine/model/ast_parser/equation_from_graph.py
+++ b/numerous/engine/model/ast_parser/equation_from_graph.py
@@ -112,8 +112,8 @@ def node_to_ast(n: int, g: MappingsGraph, var_def, ctxread=False, read=True):
         raise
 
 
-def process_if_node(func_body, func_test):
-    return ast.If(body=func_body, test=func_test, orelse=[], lineno=0, col_offset=0)
+def process_if_node(func_body, func_test, func_orelse):
+    return ast.If(body=func_body, test=func_test, orelse=func_orelse, lineno=0, col_offset=0)
 
 
 def process_assign_node(target_nodes, g, var_def, value_ast, na, targets):
@@ -198,9 +198,12 @@ def function_body_from_graph(g, var_def_, lineno_count=1, level=0):
         if g.nodes[n].ast_type == ast.If:
             func_body = function_body_from_graph(g.nodes[n].subgraph_body, var_def_,
                                                  lineno_count=lineno_count, level=level + 1)
+            func_orelse = function_body_from_graph(g.nodes[n].subgraph_orelse, var_def_,
+                                                   lineno_count=lineno_count, level=level + 1) \
+                if g.nodes[n].subgraph_orelse else []
             func_test = compare_expresion_from_graph(g.nodes[n].subgraph_test, var_def_,
                                                      lineno_count=lineno_count)
-            body.append(process_if_node(func_body, func_test))
+            body.append(process_if_node(func_body, func_test, func_orelse))
     return body
 
 
diff --git a/numerous/engine/model/graph_representation/graph.py b/numerous/engine/model/graph_representation/graph.py
index 4572eb5..dee3bd0 100644
--- a/numerous/engine/model/graph_representation/graph.py
+++ b/numerous/engine/model/graph_representation/graph.py
@@ -15,7 +15,7 @@ class Node:
                  label=None, ast_type=None, vectorized=None, item_id=None, node_type=None, ops=None, func=None,
                  id=None, local_id=None, scope_var=None,
                  ast_op=None, value=None, is_set_var=None, set_var_ix=None, subgraph_test=None,
-                 subgraph_body=None, ctx=None):
+                 subgraph_body=None, subgraph_orelse=None, ctx=None):
         self.key = key
         self.ao = ao
         self.file = file
@@ -38,6 +38,7 @@ class Node:
         self.deleted = False
         self.subgraph_test = subgraph_test
         self.subgraph_body = subgraph_body
+        self.subgraph_orelse = subgraph_orelse
         self.node_n = -1
         self.ctx = ctx
 
-- 
2.43.0


From 24983f93635add492c46b42b834291aaa2957e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:02 +0000
Subject: [PATCH 51/65] fix: keyword arguments of functions called in equations
 were dropped

---
 numerous/engine/model/ast_parser/ast_visitor.py         | 4 +++-
 numerous/engine/model/ast_parser/equation_from_graph.py | 7 ++++++-
 numerous/engine/model/graph_representation/graph.py     | 3 ++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index d53880b..aade3bf 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -56,7 +56,9 @@ class AstVisitor(ast.NodeVisitor):
         self._process_named_node(node.func, ast_type=ast.Call, node_type=NodeTypes.OP, func=node.func)
         self.mapped_stack.pop()
         en = self.node_number_stack.pop()
-        for sa in node.args:
+        # the last arguments of the node are those given by keyword
+        self.graph.nodes[en[0]].keywords = [keyword.arg for keyword in node.keywords]
+        for sa in node.args + [keyword.value for keyword in node.keywords]:
             self.traverse(sa)
             start = self.node_number_stack.pop()
             self.mapped_stack.pop()
diff --git a/numerous/engine/model/ast_parser/equation_from_graph.py b/numerous/engine/model/ast_parser/equation_from_graph.py
index d5b4ea9..e4b1c7b 100644
--- a/numerous/engine/model/ast_parser/equation_from_graph.py
+++ b/numerous/engine/model/ast_parser/equation_from_graph.py
@@ -52,7 +52,12 @@ def node_to_ast(n: int, g: MappingsGraph, var_def, ctxread=False, read=True):
                 a_ast = node_to_ast(a, g, var_def, ctxread=ctxread)
                 args_ast.append(a_ast)
 
-            ast_Call = ast.Call(args=args_ast, func=g.nodes[n].func, keywords=[], lineno=0, col_offset=0)
+            names = g.nodes[n].keywords or []
+            n_args = len(args_ast) - len(names)
+            keywords = [ast.keyword(arg=name, value=value) for name, value in zip(names, args_ast[n_args:])]
+
+            ast_Call = ast.Call(args=args_ast[:n_args], func=g.nodes[n].func, keywords=keywords, lineno=0,
+                                col_offset=0)
 
             return ast_Call
 
diff --git a/numerous/engine/model/graph_representation/graph.py b/numerous/engine/model/graph_representation/graph.py
index dee3bd0..36aa4c1 100644
--- a/numerous/engine/model/graph_representation/graph.py
+++ b/numerous/engine/model/graph_representation/graph.py
@@ -15,7 +15,7 @@ class Node:
                  label=None, ast_type=None, vectorized=None, item_id=None, node_type=None, ops=None, func=None,
                  id=None, local_id=None, scope_var=None,
                  ast_op=None, value=None, is_set_var=None, set_var_ix=None, subgraph_test=None,
-                 subgraph_body=None, subgraph_orelse=None, ctx=None):
+                 subgraph_body=None, subgraph_orelse=None, ctx=None, keywords=None):
         self.key = key
         self.ao = ao
         self.file = file
@@ -41,6 +41,7 @@ class Node:
         self.subgraph_orelse = subgraph_orelse
         self.node_n = -1
         self.ctx = ctx
+        self.keywords = keywords
 
 
 class Edge:
-- 
2.43.0


From d468de52bd67b5f39f35bdeae3afb33b7d7bfdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:02 +0000
Subject: [PATCH 52/65] fix: statements which equations do not support were
 taken for others without an error

Only the last target of a chained assignment was assigned, which now is supported.
---
 .../engine/model/ast_parser/ast_visitor.py    | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index aade3bf..d7f8920 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -35,6 +35,9 @@ class AstVisitor(ast.NodeVisitor):
         self.node_number_stack = []
         self.scope_variables = scope_variables
         self._supported_assign_target = (ast.Attribute, ast.Name, ast.Tuple)
+        self._unsupported = (ast.For, ast.While, ast.Try, ast.Return, ast.Raise, ast.Break, ast.Continue, ast.Match,
+                             ast.FunctionDef, ast.ClassDef, ast.AnnAssign, ast.BoolOp, ast.NamedExpr, ast.ListComp, ast.SetComp,
+                             ast.DictComp, ast.GeneratorExp, ast.Lambda, ast.Dict, ast.Starred)
 
     def traverse(self, node: ast.AST):
         if isinstance(node, list):
@@ -46,11 +49,19 @@ class AstVisitor(ast.NodeVisitor):
     def visit(self, node: ast.AST):
         self.traverse(node)
 
-    def visit_Module(self, node: ast.Module):
-        self.traverse(node.body)
+    def generic_visit(self, node: ast.AST):
+        # these would be taken for something else, which computes other values
+        if isinstance(node, self._unsupported):
+            raise NotImplementedError(f'{type(node).__name__} is not supported in equations, used in line '
+                                      f'{node.lineno} of the equation {self.eq_key}')
+        super().generic_visit(node)
 
-    def visit_FunctionDef(self, node: ast.FunctionDef):
-        self.traverse(node.body)
+    def visit_Module(self, node: ast.Module):
+        for function in node.body:
+            body = function.body
+            if isinstance(body[-1], ast.Return) and body[-1].value is None:
+                body = body[:-1]
+            self.traverse(body)
 
     def visit_Call(self, node: ast.Call) -> Any:
         self._process_named_node(node.func, ast_type=ast.Call, node_type=NodeTypes.OP, func=node.func)
@@ -130,6 +141,15 @@ class AstVisitor(ast.NodeVisitor):
         self.visit_Assign(new_assign)
 
     def visit_Assign(self, node: ast.Assign):
+        if len(node.targets) > 1:
+            if any(isinstance(target, ast.Tuple) for target in node.targets):
+                raise NotImplementedError('Chained assignments of tuples are not supported in equations')
+            # all but the first target of a chained assignment are assigned the value of the target before
+            values = [node.value] + node.targets[:-1]
+            for target, value in zip(node.targets, values):
+                self.visit_Assign(ast.Assign(targets=[target], value=value))
+            return
+
         for target in node.targets:
             if self._is_assign_target_supported(target):
                 self.traverse(target)
-- 
2.43.0


From 55602e46928b9236ef46e97222873b11a28fe2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:41 +0000
Subject: [PATCH 53/65] fix: tuple assignments with other targets than values
 were assigned one after the other

---
 numerous/engine/model/ast_parser/ast_visitor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index d7f8920..d9c49c2 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -169,6 +169,8 @@ class AstVisitor(ast.NodeVisitor):
             for s in start:
                 self.graph.add_edge(Edge(start=s, end=values, e_type=EdgeType.ELEMENT, branches=self.branches.copy()))
             start = [values]
+        elif len(start) > 1:
+            raise NotImplementedError('Targets and values of a tuple assignment in an equation do not match')
         for s, e, m in zip_longest(start, end, mapped):
             if e is not None and s is not None:
                 en = self.graph.add_node(Node(ao=node, file=self.eq_file, name=self.eq_key, ln=self.eq_lineno,
-- 
2.43.0


From 995c2b3f15010020d80821364c388393b5e6ca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:23 +0000
Subject: [PATCH 54/65] fix: tuples as values of equations were taken for their
 first element

---
 .../engine/model/ast_parser/ast_visitor.py    | 34 +++++++++++++------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/numerous/engine/model/ast_parser/ast_visitor.py b/numerous/engine/model/ast_parser/ast_visitor.py
index d9c49c2..261d75f 100644
--- a/numerous/engine/model/ast_parser/ast_visitor.py
+++ b/numerous/engine/model/ast_parser/ast_visitor.py
@@ -84,8 +84,11 @@ class AstVisitor(ast.NodeVisitor):
     def visit_Set(self, node: ast.Set) -> Any:
         self._visit_iterable(node=node, ast_type=ast.Set)
 
-# TODO rewrite tuple as set and list
     def visit_Tuple(self, node: ast.Tuple):
+        if isinstance(node.ctx, ast.Load):
+            self._visit_iterable(node=node, ast_type=ast.Tuple, ctx=node.ctx)
+            return
+        # targets of an assignment
         en = []
         mapped = []
         for el in node.elts:
@@ -140,6 +143,17 @@ class AstVisitor(ast.NodeVisitor):
 
         self.visit_Assign(new_assign)
 
+    def _nested_targets(self, target: ast.expr, value: ast.expr):
+        if not isinstance(target, ast.Tuple):
+            yield target, value
+        elif isinstance(value, ast.Tuple) and len(value.elts) == len(target.elts):
+            for target_, value_ in zip(target.elts, value.elts):
+                yield from self._nested_targets(target_, value_)
+        elif not any(isinstance(target_, ast.Tuple) for target_ in target.elts):
+            yield target, value
+        else:
+            raise NotImplementedError('Nested targets which are assigned the value of a function are not supported')
+
     def visit_Assign(self, node: ast.Assign):
         if len(node.targets) > 1:
             if any(isinstance(target, ast.Tuple) for target in node.targets):
@@ -150,6 +164,14 @@ class AstVisitor(ast.NodeVisitor):
                 self.visit_Assign(ast.Assign(targets=[target], value=value))
             return
 
+        pairs = list(self._nested_targets(node.targets[0], node.value))
+        if len(pairs) == 1:
+            target, value = pairs[0]
+        else:
+            target = ast.Tuple(elts=[target for target, _ in pairs], ctx=ast.Store())
+            value = ast.Tuple(elts=[value for _, value in pairs], ctx=ast.Load())
+        node = ast.Assign(targets=[target], value=value)
+
         for target in node.targets:
             if self._is_assign_target_supported(target):
                 self.traverse(target)
@@ -161,16 +183,6 @@ class AstVisitor(ast.NodeVisitor):
         start = self.node_number_stack.pop()
         end = self.node_number_stack.pop()
         en = 0
-        if len(start) > 1 and len(start) == len(end):
-            # all values are evaluated before any of the targets is assigned
-            values = self.graph.add_node(Node(ao=node.value, file=self.eq_file, name=self.eq_key, ln=self.eq_lineno,
-                                              label="iterable_node", ctx=ast.Load(), node_type=NodeTypes.OP,
-                                              ast_type=ast.Tuple))
-            for s in start:
-                self.graph.add_edge(Edge(start=s, end=values, e_type=EdgeType.ELEMENT, branches=self.branches.copy()))
-            start = [values]
-        elif len(start) > 1:
-            raise NotImplementedError('Targets and values of a tuple assignment in an equation do not match')
         for s, e, m in zip_longest(start, end, mapped):
             if e is not None and s is not None:
                 en = self.graph.add_node(Node(ao=node, file=self.eq_file, name=self.eq_key, ln=self.eq_lineno,
-- 
2.43.0


From f8a1e0fe6171441f93bb168f73a0585720873107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:14 +0000
Subject: [PATCH 55/65] fix: systems of mappings without equations failed

---
 numerous/engine/model/graph_representation/graph.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/numerous/engine/model/graph_representation/graph.py b/numerous/engine/model/graph_representation/graph.py
index 36aa4c1..217ead0 100644
--- a/numerous/engine/model/graph_representation/graph.py
+++ b/numerous/engine/model/graph_representation/graph.py
@@ -208,14 +208,14 @@ class Graph:
 
     def has_edge_for_nodes(self, start_node=None, end_node=None):
 
-        if start_node and end_node:
+        if start_node is not None and end_node is not None:
             return np.where(
                 (self.edges[:self.edge_counter, 0] == start_node) & (self.edges[:self.edge_counter, 1] == end_node))[0]
 
-        if start_node:
+        if start_node is not None:
             return start_node in self.edges[:, 0]
 
-        if end_node:
+        if end_node is not None:
             return end_node in self.edges[:, 1]
 
     def clone(self):
-- 
2.43.0


From 71434fde32563ddf8224851e9ead627d1e2842e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:15 +0000
Subject: [PATCH 56/65] fix: paths of items with another delimiter were not
 found below the second level

---
 numerous/engine/system/item_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/system/item_path.py b/numerous/engine/system/item_path.py
index b03bd74..62bbdeb 100644
--- a/numerous/engine/system/item_path.py
+++ b/numerous/engine/system/item_path.py
@@ -36,7 +36,7 @@ class ItemPath:
         """
         next_part = self.path_parsed[1:]
         if next_part:
-            return ItemPath(self.delimiter.join(next_part))
+            return ItemPath(self.delimiter.join(next_part), self.delimiter)
 
     def __str__(self):
         return self.path
-- 
2.43.0


From d258a2607f463a17a60023886402abd0542735e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:36 +0000
Subject: [PATCH 57/65] fix: events of several FMUs in one system used the
 functions of the last one

---
 numerous/engine/model/events.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/numerous/engine/model/events.py b/numerous/engine/model/events.py
index 39d4f1f..92aca28 100644
--- a/numerous/engine/model/events.py
+++ b/numerous/engine/model/events.py
@@ -11,18 +11,20 @@ from numerous.engine.model.utils import njit_and_compile_function
 from numerous.engine.numerous_event import NumerousEvent, ParsedEventFunction, StateEvent, TimestampEvent
 
 
-def _bind_closure_variables(event_function: ParsedEventFunction, idx: int, closurevariables: dict) -> ast.FunctionDef:
+def _bind_closure_variables(event_function: ParsedEventFunction, idx: int, closurevariables: dict,
+                            compiled_functions: dict = None) -> ast.FunctionDef:
     """
-    Adds the closure variables of an event function to closurevariables, under names which are unique for the event,
-    and returns the function which uses these names.
+    Adds the closure variables and the compiled functions of an event function to closurevariables, under names which
+    are unique for the event, and returns the function which uses these names.
     """
     func = copy.deepcopy(event_function.ast_func)
-    names = {name: f"{name}_{idx}_" for name in event_function.closure_variables or {}}
+    values = {**(compiled_functions or {}), **(event_function.closure_variables or {})}
+    names = {name: f"{name}_{idx}_" for name in values}
     for node in ast.walk(func):
         if isinstance(node, ast.Name) and node.id in names:
             node.id = names[node.id]
     for name, unique_name in names.items():
-        closurevariables[unique_name] = event_function.closure_variables[name]
+        closurevariables[unique_name] = values[name]
     return func
 
 
@@ -32,12 +34,9 @@ def generate_event_condition_ast(event_functions: list[Union[StateEvent, Timesta
     directions_array = []
     body = [ast.Assign(targets=[ast.Name(id=array_label)], lineno=0,
                        value=ast.List(elts=[], ctx=ast.Load()))]
-    compiled_functions = {}
     closurevariables = {}
     for idx, event in enumerate(event_functions):
-        if event.compiled_functions:
-            compiled_functions.update(event.compiled_functions)
-        condition = _bind_closure_variables(event.condition, idx, closurevariables)
+        condition = _bind_closure_variables(event.condition, idx, closurevariables, event.compiled_functions)
 
         directions_array.append(event.direction)
         body.append(condition)
@@ -59,8 +58,7 @@ def generate_event_condition_ast(event_functions: list[Union[StateEvent, Timesta
                                                 kwonlyargs=[], kw_defaults=[], defaults=[]),
                              body=body, decorator_list=[], lineno=0)
 
-    return njit_and_compile_function(body_r, from_imports, compiled_functions=compiled_functions,
-                                     closurevariables=closurevariables), np.array(
+    return njit_and_compile_function(body_r, from_imports, closurevariables=closurevariables), np.array(
         directions_array, dtype=np.float)
 
 
@@ -163,15 +161,12 @@ def replace_path_strings(model, function, idx_type, path_to_root=[]) -> Tuple:
 def generate_event_action_ast(event_functions: list[NumerousEvent],
                               from_imports: list[tuple[str, str]]) -> CPUDispatcher:
     body = []
-    compiled_functions = {}
     closurevariables = {}
 
     for idx, event in enumerate(event_functions):
-        if event.compiled_functions:
-            compiled_functions.update(event.compiled_functions)
         if event.is_external:
             continue
-        action = _bind_closure_variables(event.action, idx, closurevariables)
+        action = _bind_closure_variables(event.action, idx, closurevariables, event.compiled_functions)
 
         body.append(action)
         body.append(ast.If(test=ast.Compare(left=ast.Name(id='a_idx', ctx=ast.Load()), ops=[ast.Eq()],
@@ -189,6 +184,5 @@ def generate_event_action_ast(event_functions: list[NumerousEvent],
                                                 kwonlyargs=[], kw_defaults=[], defaults=[]),
                              body=body, decorator_list=[], lineno=0)
 
-    internal_functions = njit_and_compile_function(body_r, from_imports, compiled_functions=compiled_functions,
-                                                   closurevariables=closurevariables)
+    internal_functions = njit_and_compile_function(body_r, from_imports, closurevariables=closurevariables)
     return internal_functions
-- 
2.43.0


From 157a65624e94fbdd86a9ff3f9981a50ea4ca3d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:36 +0000
Subject: [PATCH 58/65] fix: FMUs wrote to released memory and beyond the event
 info

---
 numerous/engine/system/fmu_subsystem.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/numerous/engine/system/fmu_subsystem.py b/numerous/engine/system/fmu_subsystem.py
index 301a4a3..8bf58c2 100644
--- a/numerous/engine/system/fmu_subsystem.py
+++ b/numerous/engine/system/fmu_subsystem.py
@@ -276,15 +276,17 @@ class FMU_Subsystem(Subsystem, EquationBase):
 
         class EventInfo(ctypes.Structure):
 
-            _fields_ = [('newDiscreteStatesNeeded', ctypes.c_int8),
-                        ('terminateSimulation', ctypes.c_int8),
-                        ('nominalsOfContinuousStatesChanged', ctypes.c_int8),
-                        ('valuesOfContinuousStatesChanged', ctypes.c_int8),
-                        ('nextEventTimeDefined', ctypes.c_int8),
+            _fields_ = [('newDiscreteStatesNeeded', ctypes.c_int),
+                        ('terminateSimulation', ctypes.c_int),
+                        ('nominalsOfContinuousStatesChanged', ctypes.c_int),
+                        ('valuesOfContinuousStatesChanged', ctypes.c_int),
+                        ('nextEventTimeDefined', ctypes.c_int),
                         ('nextEventTime', ctypes.c_double)]
 
         event_info = EventInfo()
         q_ptr = ctypes.addressof(event_info)
+        # the generated functions only know the addresses of these
+        self._written_by_fmu = (event_info, event_1, term_1)
 
         a, b = generate_action_event(len_q, var_order)
         module_func = ast.Module(body=[a, b], type_ignores=[])
-- 
2.43.0


From 8128b1703e1856f1573b1699239280901708e971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:58 +0000
Subject: [PATCH 59/65] fix: writing to a model with clones wrote to the last
 clone

The clones shared the variables of the original, so that values set in any of
them (or by its external events) went to the memory of the one made last.
---
 numerous/engine/model/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 01f203b..835a8fc 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -1,3 +1,4 @@
+import copy
 import itertools
 import os
 import pickle
@@ -954,7 +955,10 @@ class Model:
         use_llvm = self.use_llvm
         model = Model(system=system_, assemble=False, logger_level=logger_level,
                       use_llvm=use_llvm)
-        model.variables = self.variables
+        # every model writes to a memory of its own through its variables
+        model.variables = {k: copy.copy(v) for k, v in self.variables.items()}
+        for k, v in self._initial_variables_dict.items():
+            model.variables[k].update_value(v)
         model.imports = self.imports
         model.vars_ordered_values = self.vars_ordered_values
         model.state_idx = self.state_idx
-- 
2.43.0


From c63d07e6d0a0890cf8f6d340720693c0329254e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:52 +0000
Subject: [PATCH 60/65] fix: clones and exported models lost their global
 variables

Their equations read beyond the global variables passed to them.
---
 numerous/engine/model/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 835a8fc..53ae7f7 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -513,7 +513,7 @@ class Model:
                              self.imports, self.use_llvm, self.vars_ordered_values, self.variables,
                              self.state_idx, self.derivatives_idx, self.init_values, self.aliases,
                              eq_gen.generated_program.equations_llvm_opt, eq_gen.generated_program.max_var,
-                             eq_gen.generated_program.n_deriv), handle, protocol=pickle.HIGHEST_PROTOCOL)
+                             eq_gen.generated_program.n_deriv, self.global_variables), handle, protocol=pickle.HIGHEST_PROTOCOL)
             log.info('Model successfully exported to ' + filename)
 
         if self.clonable:
@@ -931,10 +931,11 @@ class Model:
     def from_file(cls, filename: str):
 
         system_, logger_level, imports, use_llvm, vars_ordered_values, variables, state_idx, \
-            derivatives_idx, init_values, aliases, equations_llvm_opt, max_var, n_deriv = pickle.load(
+            derivatives_idx, init_values, aliases, equations_llvm_opt, max_var, n_deriv, global_variables = pickle.load(
             open(filename, "rb"))
         model = Model(system=system_, assemble=False, logger_level=logger_level,
                       use_llvm=use_llvm)
+        model.global_variables = global_variables
         model.variables = variables
         model.imports = imports
         model.vars_ordered_values = vars_ordered_values
@@ -955,6 +956,7 @@ class Model:
         use_llvm = self.use_llvm
         model = Model(system=system_, assemble=False, logger_level=logger_level,
                       use_llvm=use_llvm)
+        model.global_variables = self.global_variables
         # every model writes to a memory of its own through its variables
         model.variables = {k: copy.copy(v) for k, v in self.variables.items()}
         for k, v in self._initial_variables_dict.items():
-- 
2.43.0


From ff8422500e16f2938e1be283a4b6479d7b372a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:52 +0000
Subject: [PATCH 61/65] fix: clones and exported models could not be reset

---
 numerous/engine/model/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 53ae7f7..9f3c460 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -944,6 +944,8 @@ class Model:
         model.init_values = init_values
         model.aliases = aliases
 
+        model._initial_variables_dict = {k: v.value for k, v in variables.items() if not v.global_var}
+
         model._set_functions(equations_llvm_opt, n_deriv, max_var)
         return model
 
@@ -967,6 +969,7 @@ class Model:
         model.derivatives_idx = self.derivatives_idx
         model.init_values = self.init_values
         model.aliases = self.aliases
+        model._initial_variables_dict = self._initial_variables_dict
 
         model._set_functions(self.equations_llvm_opt, self.n_deriv, self.max_var)
 
-- 
2.43.0


From 4e191e0587353a61a3d4cf2be71aba04c201a284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:52 +0000
Subject: [PATCH 62/65] fix: clones and exported models lost their events

---
 numerous/engine/model/model.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/numerous/engine/model/model.py b/numerous/engine/model/model.py
index 9f3c460..b012715 100644
--- a/numerous/engine/model/model.py
+++ b/numerous/engine/model/model.py
@@ -513,7 +513,7 @@ class Model:
                              self.imports, self.use_llvm, self.vars_ordered_values, self.variables,
                              self.state_idx, self.derivatives_idx, self.init_values, self.aliases,
                              eq_gen.generated_program.equations_llvm_opt, eq_gen.generated_program.max_var,
-                             eq_gen.generated_program.n_deriv, self.global_variables), handle, protocol=pickle.HIGHEST_PROTOCOL)
+                             eq_gen.generated_program.n_deriv, self.global_variables, self.model_items), handle, protocol=pickle.HIGHEST_PROTOCOL)
             log.info('Model successfully exported to ' + filename)
 
         if self.clonable:
@@ -931,11 +931,12 @@ class Model:
     def from_file(cls, filename: str):
 
         system_, logger_level, imports, use_llvm, vars_ordered_values, variables, state_idx, \
-            derivatives_idx, init_values, aliases, equations_llvm_opt, max_var, n_deriv, global_variables = pickle.load(
+            derivatives_idx, init_values, aliases, equations_llvm_opt, max_var, n_deriv, global_variables, model_items = pickle.load(
             open(filename, "rb"))
         model = Model(system=system_, assemble=False, logger_level=logger_level,
                       use_llvm=use_llvm)
         model.global_variables = global_variables
+        model.model_items = model_items
         model.variables = variables
         model.imports = imports
         model.vars_ordered_values = vars_ordered_values
@@ -971,7 +972,11 @@ class Model:
         model.aliases = self.aliases
         model._initial_variables_dict = self._initial_variables_dict
 
+        model.model_items = self.model_items
         model._set_functions(self.equations_llvm_opt, self.n_deriv, self.max_var)
+        # with the events added to the model itself
+        model.events = list(self.events)
+        model.timestamp_events = list(self.timestamp_events)
 
         if clonable:
             model.clonable = True
-- 
2.43.0


From b5bf77c11a42a130a02ddae0a79da26c23cf907c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:25 +0000
Subject: [PATCH 63/65] fix: two mappings from the same chunks of a CSV file
 failed

What the loader returned for a time depended on what it was asked for before: when
the same time was asked for again (by a second mapping from the file, or by a clone
of the model), the rows before this time were missing.
---
 numerous/utils/data_loader.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/numerous/utils/data_loader.py b/numerous/utils/data_loader.py
index dbfe3cf..0ed85e8 100644
--- a/numerous/utils/data_loader.py
+++ b/numerous/utils/data_loader.py
@@ -29,15 +29,16 @@ class CSVDataLoader(DataLoader):
             self.is_chunks = True
 
     def _valid(self, df_id, chunks, t):
+        # the last chunk which begins at or before t, and the next one if it also ends there
+        valid = []
         for i, chunk in enumerate(chunks):
-            mask = chunk['time'] <= t
-
-            if mask.all():
-                yield chunk
-            else:
-                self._skiprows[df_id] = self._skiprows.get(df_id, 0) + i * self.chunksize
-                yield chunk
+            begins_before = (chunk['time'].iloc[:1] <= t).all()
+            valid = [chunk] if begins_before else valid + [chunk]
+            if not (chunk['time'] <= t).all():
                 break
+        self._skiprows[df_id] = self._skiprows.get(df_id, 0) + (i + 1 - len(valid)) * self.chunksize
+        self._first_time[df_id] = valid[0]['time'].min()
+        return valid
 
     def load(self, df_id: str, t: float) -> DataFrame:
         if df_id in self._first_time and t < self._first_time[df_id]:
@@ -47,8 +48,6 @@ class CSVDataLoader(DataLoader):
             chunks = pd.read_csv(df_id, header=0, skiprows=range(1, self._skiprows.get(df_id, 0) + 1),
                                  chunksize=self.chunksize)
             df = pd.concat(self._valid(df_id, chunks, t))
-            if not df.empty:
-                self._first_time[df_id] = df['time'].min()
         else:
             df = pd.read_csv(df_id, header=0)
 
-- 
2.43.0


From 8611c6fa98c673663853ba5e2b8f2aa13b34d031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:30 +0000
Subject: [PATCH 64/65] fix: binding an item to a binding which does not exist
 was ignored

---
 numerous/engine/system/connector_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerous/engine/system/connector_item.py b/numerous/engine/system/connector_item.py
index ebc24f0..5ec944a 100644
--- a/numerous/engine/system/connector_item.py
+++ b/numerous/engine/system/connector_item.py
@@ -62,7 +62,7 @@ class ConnectorItem(Item, Connector):
                 self.bindings[key].add_binding(value)
                 self.__bind_mappings(self.bindings[key], value)
             else:
-                ValueError("Binding {} is not exist in item {}".format(key, self.tag))
+                raise ValueError("Binding {} is not exist in item {}".format(key, self.tag))
 
 
 class ConnectorTwoWay(ConnectorItem):
-- 
2.43.0


From f630ad0852055c4bfa2541a6a25ee09f6320595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:32 +0000
Subject: [PATCH 65/65] fix: a second simulation of a model with FMUs used
 released instances

---
 numerous/engine/system/fmu_subsystem.py | 32 ++++++++++++++-----------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/numerous/engine/system/fmu_subsystem.py b/numerous/engine/system/fmu_subsystem.py
index 8bf58c2..06086db 100644
--- a/numerous/engine/system/fmu_subsystem.py
+++ b/numerous/engine/system/fmu_subsystem.py
@@ -1,6 +1,7 @@
 import types as ptypes
 import ctypes
 import ast
+import weakref
 
 import pandas
 from fmpy import read_model_description, extract
@@ -50,7 +51,7 @@ class FMU_Subsystem(Subsystem, EquationBase):
         namespace_ = "t1"
         debug_logging = False
         visible = False
-        self.run_after_solve = ['fmi2Terminate_', 'fmi2FreeInstance_']
+        self.run_after_solve = ['fmi2Terminate_', 'fmi2Reset_']
         # self.post_step = ['completedIntegratorStep_']
         self.fmu_input = pandas.read_csv(fmu_in) if fmu_in is not None else None
         self.dataframe_aliases = {}
@@ -95,6 +96,7 @@ class FMU_Subsystem(Subsystem, EquationBase):
         fmu = FMU2Model(**fmu_args)
         self.fmu = fmu
         fmu.instantiate(visible=visible, callbacks=callbacks, loggingOn=debug_logging)
+        weakref.finalize(self, fmu.fmi2FreeInstance, fmu.component)
 
         if output_interval is None:
             if step_size is None:
@@ -110,15 +112,18 @@ class FMU_Subsystem(Subsystem, EquationBase):
             while step_size > max_step:
                 step_size /= 2
 
-        fmu.setupExperiment(startTime=start_time, stopTime=stop_time)
-
         input = Input(fmu, model_description, input)
 
-        apply_start_values(fmu, model_description, start_values, apply_default_start_values)
+        def initialize():
+            fmu.setupExperiment(startTime=start_time, stopTime=stop_time)
+
+            apply_start_values(fmu, model_description, start_values, apply_default_start_values)
 
-        fmu.enterInitializationMode()
-        input.apply(start_time)
-        fmu.exitInitializationMode()
+            fmu.enterInitializationMode()
+            input.apply(start_time)
+            fmu.exitInitializationMode()
+
+        initialize()
 
         component = fmu.component
 
@@ -130,10 +135,6 @@ class FMU_Subsystem(Subsystem, EquationBase):
         fmi2Terminate.argtypes = [ctypes.c_void_p]
         fmi2Terminate.restype = ctypes.c_uint
 
-        fmi2FreeInstance = getattr(fmu.dll, "fmi2FreeInstance")
-        fmi2FreeInstance.argtypes = [ctypes.c_void_p]
-        fmi2FreeInstance.restype = ctypes.c_uint
-
         @njit()
         def completedIntegratorStep_():
             completedIntegratorStep(component, 1, 0, 0)
@@ -141,12 +142,15 @@ class FMU_Subsystem(Subsystem, EquationBase):
         def fmi2Terminate_():
             fmi2Terminate(component)
 
-        def fmi2FreeInstance_():
-            fmi2FreeInstance(component)
+        def fmi2Reset_():
+            # the model may be simulated again
+            fmu.reset()
+            initialize()
+            fmu.enterContinuousTimeMode()
 
         self.fmi2Terminate_ = fmi2Terminate_
         self.completedIntegratorStep_ = completedIntegratorStep_
-        self.fmi2FreeInstance_ = fmi2FreeInstance_
+        self.fmi2Reset_ = fmi2Reset_
 
         len_q = len(self.value_ref_used)
         var_order = [x.valueReference for x in model_description.modelVariables
-- 
2.43.0

