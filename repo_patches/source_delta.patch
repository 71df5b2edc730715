From 445ad0c4f55570a6da7f755df9d3beff785f98bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 001/106] fix: do not share default containers between analysis
 states

---
 metalift/frontend/python.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 3f75076..622736e 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -106,15 +106,15 @@ class State:
 
     def __init__(
         self,
-        precond: List[Bool] = list(),
-        vars: Dict[str, Object] = dict(),
-        asserts: List[Bool] = list(),
+        precond: Optional[List[Bool]] = None,
+        vars: Optional[Dict[str, Object]] = None,
+        asserts: Optional[List[Bool]] = None,
         has_returned: bool = False,
     ) -> None:
-        self.precond = precond
-        self.vars = vars
-        self.asserts = asserts
-        self.has_returned = has_returned if not has_returned else has_returned
+        self.precond = precond if precond is not None else []
+        self.vars = vars if vars is not None else {}
+        self.asserts = asserts if asserts is not None else []
+        self.has_returned = has_returned
 
     def read(self, var: str) -> Object:
         if var in self.vars:
-- 
2.43.0


From 01d85e49a4716bfcb491b1a78c8ebe23704e04b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:02 +0000
Subject: [PATCH 002/106] fix: keep every link of a chained comparison

---
 metalift/frontend/python.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 622736e..0f2a719 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -686,8 +686,9 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         operands = [e.accept(self) for e in o.operands]
         e = self.process_comparison(o.operators[0], operands[0], operands[1])
         for i in range(1, len(o.operators)):
-            e = e and self.process_comparison(
-                o.operators[i], operands[i], operands[i + 1]
+            e = and_objects(
+                e,
+                self.process_comparison(o.operators[i], operands[i], operands[i + 1]),
             )
         return e
 
-- 
2.43.0


From d05b0cf6c9a35ea85a2877a618aa50e29afd5de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 003/106] fix: merge list and set values structurally where
 branches join

---
 metalift/frontend/python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 0f2a719..7162834 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -647,7 +647,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             # at this point we know that all vars exist in both c_state and a_state
             for v, c_e in c_state.vars.items():
                 a_e = a_state.vars[v]
-                if c_e != a_e:
+                if not Object.__eq__(c_e, a_e):
                     self.state.vars[v] = ite(cond, c_e, a_e)
                 else:
                     self.state.vars[v] = c_e
-- 
2.43.0


From 5674c58e5da761599d89ae074ddf2d31b8f71b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 004/106] fix: keep the asserts of both branches of a
 conditional

---
 metalift/frontend/python.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 7162834..5fdfb57 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -626,9 +626,10 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         c_state = consequent.state
         a_state = alternate.state
 
-        for e in c_state.asserts + a_state.asserts:
-            if e not in self.state.asserts:
-                self.state.asserts.append(e)
+        # both branches start with a copy of the asserts collected so far
+        num_asserts = len(self.state.asserts)
+        self.state.asserts += c_state.asserts[num_asserts:]
+        self.state.asserts += a_state.asserts[num_asserts:]
 
         if c_state.has_returned and a_state.has_returned:
             return
-- 
2.43.0


From e79aad98faf77529cae5672e58eb3dec62d40de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 005/106] fix: continue after a conditional only with the paths
 that have not returned

---
 metalift/frontend/python.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 5fdfb57..445327a 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -435,6 +435,8 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
 
     def visit_block(self, o: Block) -> None:
         for s in o.body:
+            if self.state.has_returned:  # the rest of the block is unreachable
+                return
             s.accept(self)
 
     def visit_expression_stmt(self, o: ExpressionStmt) -> None:
@@ -631,13 +633,26 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         self.state.asserts += c_state.asserts[num_asserts:]
         self.state.asserts += a_state.asserts[num_asserts:]
 
+        num_preconds = len(self.state.precond)
         if c_state.has_returned and a_state.has_returned:
+            self.state.has_returned = True
             return
         elif c_state.has_returned and not a_state.has_returned:
+            # only the executions that took the other branch continue from here
             self.state.vars = a_state.vars
+            self.state.precond = a_state.precond
         elif not c_state.has_returned and a_state.has_returned:
             self.state.vars = c_state.vars
+            self.state.precond = c_state.precond
         else:  # both have not returned, need to merge
+            c_precond = c_state.precond[num_preconds:]
+            a_precond = a_state.precond[num_preconds:]
+            if len(c_precond) > 1 or len(a_precond) > 1:
+                # a branch learned more than the condition itself, e.g., from a loop
+                self.state.precond.append(
+                    or_objects(and_objects(*c_precond), and_objects(*a_precond))
+                )
+
             for v in set().union(c_state.vars, a_state.vars):
                 if v not in self.state.vars and (
                     (v not in c_state.vars and v in a_state.vars)
-- 
2.43.0


From ee06fb18143177608b336abe1b26c14f888990ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 006/106] fix: keep the conditions of nested loops and of
 returns inside a loop body

---
 metalift/frontend/python.py | 40 +++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 445327a..f2c800c 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -509,6 +509,14 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             self.driver.add_var_object(new_value)
             self.state.write(var[0], new_value)
 
+        # the body runs from any state that satisfies the invariant and the loop condition
+        cond = cast(Bool, o.expr.accept(self))
+        # if not isinstance(cond, Bool):
+        #     raise Exception(
+        #         "The condition of a while loop must evaluate to a boolean object!"
+        #     )
+        body_state = copy.deepcopy(self.state)
+        body_state.precond += [cond, inv.call(self.state)]
         body_visitor = VCVisitor(  # type: ignore  # ignore the abstract expr visit methods that aren't implemented for now in VCVisitor
             self.driver,
             self.fn_name,
@@ -516,7 +524,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             self.ast,
             self.args,
             self.ret_val,
-            copy.deepcopy(self.state),
+            body_state,
             self.invariants,
             self.var_tracker,
             self.pred_tracker,
@@ -527,24 +535,22 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         )
         o.body.accept(body_visitor)
 
-        # inv is preserved
-        cond = o.expr.accept(self)
-        # if not isinstance(cond, Bool):
-        #     raise Exception(
-        #         "The condition of a while loop must evaluate to a boolean object!"
-        #     )
-        c = (
-            and_objects(*self.state.precond, cast(Bool, cond), inv.call(self.state))
-            if self.state.precond
-            else and_objects(cast(Bool, cond), inv.call(self.state))
-        )
-        self.state.asserts.append(implies(c, inv.call(body_visitor.state)))
-        print(f"inv is preserved: {self.state.asserts[-1]}")
+        # keep what the body itself has to prove: the conditions of nested loops and returns
+        num_asserts = len(self.state.asserts)
+        self.state.asserts += body_visitor.state.asserts[num_asserts:]
+
+        # inv is preserved, unless the body always returns
+        if not body_visitor.state.has_returned:
+            self.state.asserts.append(
+                implies(
+                    and_objects(*body_visitor.state.precond),
+                    inv.call(body_visitor.state),
+                )
+            )
+            print(f"inv is preserved: {self.state.asserts[-1]}")
 
         # the invariant is true from this point on
-        self.state.precond.append(
-            and_objects(cast(Bool, cond).Not(), inv.call(self.state))
-        )
+        self.state.precond.append(and_objects(cond.Not(), inv.call(self.state)))
 
     def visit_return_stmt(self, o: ReturnStmt) -> None:
         assert o.expr is not None
-- 
2.43.0


From a253d4e0092c89e049e7deba6575bfea070b2137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 007/106] fix: collect the variables in scope from the analyzed
 function only

---
 metalift/frontend/python.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index f2c800c..cb27ccf 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -201,6 +201,16 @@ class RWVarsVisitor(TraverserVisitor):
             a.accept(self)
 
 
+class NamesVisitor(TraverserVisitor):
+    names: List[NameExpr]
+
+    def __init__(self) -> None:
+        self.names = []
+
+    def visit_name_expr(self, o: NameExpr) -> None:
+        self.names.append(o)
+
+
 class Predicate:
     args: List[Object]
     writes: List[Object]
@@ -448,11 +458,15 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
     def in_scope_vars(
         self, vars: Dict[str, Object], types: Dict[MypyExpr, MypyType]
     ) -> Set[MypyVar]:
+        # types covers every module mypy has seen, so only look at the names that appear in
+        # the function under analysis
+        names = NamesVisitor()
+        self.ast.body.accept(names)
         r = set()
-        for v in vars.keys():
-            for k, t in types.items():
-                if isinstance(k, NameExpr) and k.name == v:
-                    r.add((v, t))
+        for k in names.names:
+            t = types.get(k)
+            if k.name in vars and t is not None:
+                r.add((k.name, t))
         return r
 
     def visit_while_stmt(self, o: WhileStmt) -> None:
-- 
2.43.0


From 9fa080aeda1bf5afe95aaaa0adbd8b1b7af90094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 008/106] fix: support appending to a list more than once and
 to a list argument

---
 metalift/frontend/python.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index cb27ccf..a977948 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -399,7 +399,8 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
                     raise RuntimeError(
                         f"expect {actual} to have type {to_object_type(formal[1])} rather than {actual.type}"
                     )
-                self.state.write(formal[0], actual)
+                # lists are updated in place, which must not change the caller's object
+                self.state.write(formal[0], copy.copy(actual))
 
             if fn_type.ret_type is None:
                 raise RuntimeError(f"fn must return a value: {fn_type}")
@@ -819,10 +820,8 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
                 raise Exception(".append only supported on lists!")
             assert len(o.args) == 1
             elem_to_append = o.args[0].accept(self)
-            var_name = callee_expr.var_name()
-            list_after_append = callee_expr.append(elem_to_append)
-            self.state.write(var_name, list_after_append)
-            return list_after_append
+            # append updates the object in place, which every alias of the list shares
+            return callee_expr.append(elem_to_append)
         elif is_method_call_with_name(o, "add") or is_method_call_with_name(
             o, "remove"
         ):
-- 
2.43.0


From c6ed7a339a5d40a7839717f43b364c718ec0785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 009/106] fix: support modifying a set whose value is not a
 variable

---
 metalift/frontend/python.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index a977948..0f4cc7a 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -840,8 +840,9 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             set_after_modification = call(
                 func_call_name, callee_expr.type, callee_expr, singleton_set
             )
-            self.state.write(callee_expr.var_name(), set_after_modification)
-            return set_after_modification
+            # update the object in place, which every alias of the set shares
+            callee_expr.src = set_after_modification.src
+            return callee_expr
         elif is_func_call(o) and get_fn_name(o) in self.uninterp_fns:
             # Uninterpreted functions
             args = [a.accept(self) for a in o.args]
-- 
2.43.0


From ef8890463a56a412a17b4ecf11b2bfa898882c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:28 +0000
Subject: [PATCH 010/106] fix: havoc the variables a loop modifies to fresh
 variables

---
 metalift/frontend/python.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 0f4cc7a..a9d3466 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -470,6 +470,17 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
                 r.add((k.name, t))
         return r
 
+    # a name for the unknown value of a variable that is not yet used in the VC, as the value
+    # must be unrelated to the arguments and to the values after other loops
+    def fresh_name(self, name: str) -> str:
+        used = {var.name() for var in self.var_tracker.all()}
+        used.update(arg.var_name() for arg in self.args)
+        fresh, num = name, 0
+        while fresh in used:
+            num += 1
+            fresh = f"{name}_{num}"
+        return fresh
+
     def visit_while_stmt(self, o: WhileStmt) -> None:
         v = RWVarsVisitor(self.types)
         o.accept(v)
@@ -519,10 +530,10 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         print(f"inv is init true: {self.state.asserts[-1]}")
 
         # havoc the modified vars
-        for var in v.writes:
-            new_value = create_object(to_object_type(var[1]), var[0])
+        for name, type in writes:
+            new_value = create_object(to_object_type(type), self.fresh_name(name))
             self.driver.add_var_object(new_value)
-            self.state.write(var[0], new_value)
+            self.state.write(name, new_value)
 
         # the body runs from any state that satisfies the invariant and the loop condition
         cond = cast(Bool, o.expr.accept(self))
-- 
2.43.0


From 81822c9de562a3f4ce4840d5ccd8b4b15b99f37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 011/106] fix: pass arguments to the postcondition in the order
 it is declared with

---
 metalift/frontend/python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index a9d3466..9af7de5 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -1030,7 +1030,7 @@ class MetaliftFunc:
         ret_val = create_object(object_type, f"{self.name}_rv")
         self.driver.add_var_object(ret_val)
 
-        ps = call(f"{self.name}_ps", Bool, ret_val, *args)
+        ps = call(f"{self.name}_ps", Bool, *args, ret_val)
 
         self.driver.postconditions.append(cast(Bool, ps))
 
-- 
2.43.0


From 5de0abceea4e7de52b4b482be9dea39c3b324dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 012/106] fix: call grammars with the relaxed flag they take

---
 metalift/frontend/python.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 9af7de5..55aa9cb 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -217,7 +217,7 @@ class Predicate:
     reads: List[Object]
     in_scope: List[Object]
     name: str
-    grammar: Callable[[List[Object], List[Object], List[Object]], Bool]
+    grammar: Callable[[List[Object], List[Object], List[Object], bool], Bool]
     ast: Union[WhileStmt, FuncDef]
     synth: Optional[Synth]
 
@@ -232,7 +232,7 @@ class Predicate:
         reads: List[Object],
         in_scope: List[Object],
         name: str,
-        grammar: Callable[[List[Object], List[Object], List[Object]], Bool],
+        grammar: Callable[[List[Object], List[Object], List[Object], bool], Bool],
     ) -> None:
         self.args = args
         self.writes = writes
@@ -248,7 +248,7 @@ class Predicate:
         return cast(Bool, call_ret)
 
     def gen_Synth(self) -> Synth:
-        body = self.grammar(self.writes, self.reads, self.in_scope).src
+        body = self.grammar(self.writes, self.reads, self.in_scope, False).src
         return Synth(self.name, body, *get_object_exprs(*self.args))
 
 
@@ -270,7 +270,7 @@ class PredicateTracker:
         writes: List[Object],
         reads: List[Object],
         in_scope: List[Object],
-        grammar: Callable[[List[Object], List[Object], List[Object]], Bool],
+        grammar: Callable[[List[Object], List[Object], List[Object], bool], Bool],
     ) -> Predicate:
         if o in self.predicates:
             return self.predicates[o]
@@ -292,7 +292,7 @@ class PredicateTracker:
         o: FuncDef,
         outs: List[Object],
         ins: List[Object],
-        grammar: Callable[[List[Object], List[Object], List[Object]], Bool],
+        grammar: Callable[[List[Object], List[Object], List[Object], bool], Bool],
     ) -> Predicate:
         if o in self.predicates:
             return self.predicates[o]
@@ -319,8 +319,8 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
     var_tracker: VariableTracker
     pred_tracker: PredicateTracker
 
-    inv_grammar: Callable[[List[Object], List[Object], List[Object]], Bool]
-    ps_grammar: Callable[[List[Object], List[Object], List[Object]], Bool]
+    inv_grammar: Callable[[List[Object], List[Object], List[Object], bool], Bool]
+    ps_grammar: Callable[[List[Object], List[Object], List[Object], bool], Bool]
 
     types: Dict[MypyExpr, MypyType]
 
@@ -338,8 +338,8 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         invariants: Dict[WhileStmt, Predicate],
         var_tracker: VariableTracker,
         pred_tracker: PredicateTracker,
-        inv_grammar: Callable[[List[Object], List[Object], List[Object]], Bool],
-        ps_grammar: Callable[[List[Object], List[Object], List[Object]], Bool],
+        inv_grammar: Callable[[List[Object], List[Object], List[Object], bool], Bool],
+        ps_grammar: Callable[[List[Object], List[Object], List[Object], bool], Bool],
         types: Dict[MypyExpr, MypyType],
         uninterp_fns: List[str],
     ) -> None:
@@ -899,8 +899,8 @@ class Driver:
         filepath: str,
         fn_name: str,
         target_lang_fn: Callable[[], List[Union[FnDecl, FnDeclRecursive]]],
-        inv_grammar: Callable[[List[Object], List[Object], List[Object]], Bool],
-        ps_grammar: Callable[[List[Object], List[Object], List[Object]], Bool],
+        inv_grammar: Callable[[List[Object], List[Object], List[Object], bool], Bool],
+        ps_grammar: Callable[[List[Object], List[Object], List[Object], bool], Bool],
         uninterp_fns: List[str] = [],
     ) -> "MetaliftFunc":
         f = MetaliftFunc(
@@ -960,8 +960,8 @@ class MetaliftFunc:
     types: Dict[MypyExpr, MypyType]
     name: str
     target_lang_fn: Callable[[], List[Union[FnDecl, FnDeclRecursive]]]
-    inv_grammar: Callable[[List[Object], List[Object], List[Object]], Bool]
-    ps_grammar: Callable[[List[Object], List[Object], List[Object]], Bool]
+    inv_grammar: Callable[[List[Object], List[Object], List[Object], bool], Bool]
+    ps_grammar: Callable[[List[Object], List[Object], List[Object], bool], Bool]
     synthesized: Optional[Expr]
     uninterp_fns: List[str]
 
@@ -971,8 +971,8 @@ class MetaliftFunc:
         filepath: str,
         name: str,
         target_lang_fn: Callable[[], List[Union[FnDecl, FnDeclRecursive]]],
-        inv_grammar: Callable[[List[Object], List[Object], List[Object]], Bool],
-        ps_grammar: Callable[[List[Object], List[Object], List[Object]], Bool],
+        inv_grammar: Callable[[List[Object], List[Object], List[Object], bool], Bool],
+        ps_grammar: Callable[[List[Object], List[Object], List[Object], bool], Bool],
         uninterp_fns: List[str],
     ) -> None:
         self.driver = driver
-- 
2.43.0


From c8eac160f60acef3bc066252fda1b72cd92c38e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:43 +0000
Subject: [PATCH 013/106] fix: name the parameters of predicates after the
 formal parameters

---
 metalift/frontend/python.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 55aa9cb..b085594 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -410,7 +410,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             self.pred_tracker.postcondition(
                 o,
                 [return_arg],
-                self.args,
+                [create_object(to_object_type(type), name) for name, type in formals],
                 self.ps_grammar,
             )
 
@@ -474,7 +474,9 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
     # must be unrelated to the arguments and to the values after other loops
     def fresh_name(self, name: str) -> str:
         used = {var.name() for var in self.var_tracker.all()}
-        used.update(arg.var_name() for arg in self.args)
+        for arg in self.args:
+            if isinstance(arg.src, Var):
+                used.add(arg.var_name())
         fresh, num = name, 0
         while fresh in used:
             num += 1
@@ -513,7 +515,7 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
         inv = self.pred_tracker.invariant(
             fn_name=self.fn_name,
             o=o,
-            args=self.args,
+            args=[create_object(to_object_type(type), name) for name, type in formals],
             writes=write_objects,
             reads=read_objects,
             in_scope=in_scope_objects,
-- 
2.43.0


From 8fd0e31b54a130cf6b75ec92c8e098108ef32f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 014/106] fix: give every call of an analyzed function its own
 return value

---
 metalift/frontend/python.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index b085594..9ae26cd 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -1029,7 +1029,13 @@ class MetaliftFunc:
         self.driver.asserts += v.state.asserts
 
         object_type = to_object_type(cast(CallableType, self.ast.type).ret_type)
-        ret_val = create_object(object_type, f"{self.name}_rv")
+        # each call returns a value of its own
+        used = {var.name() for var in self.driver.var_tracker.all()}
+        rv_name, num = f"{self.name}_rv", 0
+        while rv_name in used:
+            num += 1
+            rv_name = f"{self.name}_rv_{num}"
+        ret_val = create_object(object_type, rv_name)
         self.driver.add_var_object(ret_val)
 
         ps = call(f"{self.name}_ps", Bool, *args, ret_val)
-- 
2.43.0


From d10ac8523283b98d4de0adeb2b00a691f725bb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:48 +0000
Subject: [PATCH 015/106] fix: FnDecl.toSMT calls toSMT on the types of its
 parameters, which have none

---
 metalift/ir.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 5d91056..ab718ec 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -3229,8 +3229,6 @@ class FnDecl(Expr):
                 else:
                     declarations.append((a.args[0], a.type))
 
-            args = " ".join("(%s %s)" % (d[0], d[1].toSMT()) for d in declarations)  # type: ignore
-
             args = " ".join(
                 "(%s %s)" % (d[0], d[1].toSMTType(get_args(d[1]))) for d in declarations  # type: ignore
             )
-- 
2.43.0


From 3ae28fa74ae22c286d1d9004644386f6c12de241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:16 +0000
Subject: [PATCH 016/106] fix: TupleGet and tupleGet take the element types
 from the tuple's type

---
 metalift/ir.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index ab718ec..aa32db6 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -762,6 +762,10 @@ def make_tuple_type(*containedT: Union[type, _GenericAlias]) -> Type["Tuple"]:
     return Tuple[tuple[containedT]]  # type: ignore
 
 
+def get_tuple_element_types(t: ObjectT) -> pyTuple[ObjectT, ...]:
+    return get_args(get_args(t)[0])
+
+
 def make_fn_type(*containedT: ObjectT) -> Type["Fn"]:  # type: ignore
     return Fn[tuple[containedT]]  # type: ignore
 
@@ -2532,11 +2536,8 @@ class Call(Expr):
                     )
                 elif isinstance(self.args[idx + 1], Tuple):
                     retVal.append(f"tuple{self.args[idx + 1].length}_get{index}")
-                elif (
-                    isinstance(self.args[idx + 1], Var)
-                    and get_origin(self.args[idx + 1].type) == Tuple
-                ):
-                    length = len(get_args(get_args(self.args[idx + 1].type)[0]))
+                elif get_origin(self.args[idx + 1].type) == Tuple:
+                    length = len(get_tuple_element_types(self.args[idx + 1].type))
                     retVal.append(f"tuple{length}_get{index}")
                 else:
                     # HACK: if function argument is a tuple, count I's in the mangled names of args to get number of elements in tuple
@@ -2778,8 +2779,7 @@ class TupleExpr(Expr):
 
 class TupleGet(Expr):
     def __init__(self, t: Expr, i: Expr) -> None:
-        # TODO: type.args no longer exist. need proper fix
-        Expr.__init__(self, t.type.args[i.args[0]], [t, i])  # type: ignore
+        Expr.__init__(self, get_tuple_element_types(t.type)[i.args[0]], [t, i])
 
     def t(self) -> Expr:
         return self.args[0]  # type: ignore
@@ -2797,7 +2797,7 @@ class TupleGet(Expr):
     def toSMT(self) -> str:
         # example: generate (tuple2_get0 t)
         return "(tuple%d_get%d %s)" % (
-            len(self.args[0].type.args),
+            len(get_tuple_element_types(self.args[0].type)),
             self.args[1].args[0],
             self.args[0].toSMT(),
         )  # args[1] must be an int literal
-- 
2.43.0


From 6ed19c15e402be0ffde8cd32b86a1ebcf55c4c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:39 +0000
Subject: [PATCH 017/106] fix: negative literals are not SMT-LIB numerals

---
 metalift/ir.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index aa32db6..ae982cd 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1914,6 +1914,9 @@ class Lit(Expr):
     def toSMT(self) -> str:
         if self.type == Bool:
             return "true" if self.args[0] else "false"
+        elif isinstance(self.args[0], int) and self.args[0] < 0:
+            # SMT-LIB has no negative numerals
+            return f"(- {-self.args[0]})"
         else:
             return str(self.args[0])
 
-- 
2.43.0


From e44b218cb8f48c1d93070773b8dc3036f7decc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:47 +0000
Subject: [PATCH 018/106] fix: calls to user functions whose name starts with
 integer are emitted to Rosette

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index ae982cd..71c1687 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -370,7 +370,7 @@ class Expr:
             return "integer-sqrt-noerr"
         elif fn_name == "integer_exp":
             return "integer-exp-noerr"
-        raise Exception(f"Unsupported integer function {fn_name}")
+        return None
 
     @staticmethod
     def get_list_fn(expr: Union["Call", "CallValue"]) -> Optional[str]:
-- 
2.43.0


From 40873acc1cbb7d5e22dd5b4ce3ba39d023e64e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:54 +0000
Subject: [PATCH 019/106] fix: to_python keeps the grouping of nested operators

---
 metalift/ir.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 71c1687..fecf7c7 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1955,7 +1955,7 @@ class Add(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{' + '.join([arg.to_python() for arg in self.args])}"
+        return f"({' + '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Add(self)
@@ -2011,7 +2011,7 @@ class Mul(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{' * '.join([arg.to_python() for arg in self.args])}"
+        return f"({' * '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Mul(self)
@@ -2106,7 +2106,7 @@ class Eq(Expr):
 
     def to_python(self) -> str:
         # TODO: might need more handling for lists
-        return f"{self.e1().to_python()} == {self.e2().to_python()}"
+        return f"({self.e1().to_python()} == {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Eq(self)
@@ -2137,7 +2137,7 @@ class Lt(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} < {self.e2().to_python()}"
+        return f"({self.e1().to_python()} < {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Lt(self)
@@ -2168,7 +2168,7 @@ class Le(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} <= {self.e2().to_python()}"
+        return f"({self.e1().to_python()} <= {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Le(self)
@@ -2199,7 +2199,7 @@ class Gt(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} > {self.e2().to_python()}"
+        return f"({self.e1().to_python()} > {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Gt(self)
@@ -2230,7 +2230,7 @@ class Ge(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"{self.e1().to_python()} >= {self.e2().to_python()}"
+        return f"({self.e1().to_python()} >= {self.e2().to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Ge(self)
@@ -2257,7 +2257,7 @@ class And(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return " and ".join([arg.to_python() for arg in self.args])
+        return f"({' and '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_And(self)
@@ -2285,7 +2285,7 @@ class Or(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return " or ".join([arg.to_python() for arg in self.args])
+        return f"({' or '.join([arg.to_python() for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Or(self)
@@ -2309,7 +2309,7 @@ class Not(Expr):
         return Expr.toSMTSimple(self, self.SMTName)
 
     def to_python(self) -> str:
-        return f"not {self.args[0].to_python()}"
+        return f"(not {self.args[0].to_python()})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Not(self)
-- 
2.43.0


From c7ba1f49ba484f91cd511bbd94fba22cd164897f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:09 +0000
Subject: [PATCH 020/106] fix: tupleGet has a Python form

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index fecf7c7..54c174d 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -2567,7 +2567,7 @@ class Call(Expr):
         processed_args = [arg.to_python() for arg in self.arguments()]
         if self.name() in {"list_length", "matrix_length"}:
             return f"len({processed_args[0]})"
-        elif self.name() in {"list_get", "matrix_get"}:
+        elif self.name() in {"list_get", "matrix_get", "tupleGet"}:
             return f"{processed_args[0]}[{processed_args[1]}]"
         elif self.name() in {"list_prepend", "matrix_prepend"}:
             return f"[{processed_args[0]}, *{processed_args[1]}]"
-- 
2.43.0


From fc7eac0a5684c6ba93f611bd0f5f3afcc8e2113b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:45 +0000
Subject: [PATCH 021/106] fix: a tuple of one element stays a tuple in Python

---
 metalift/ir.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 54c174d..a842799 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -2774,7 +2774,8 @@ class TupleExpr(Expr):
         return "(tuple%d %s)" % (len(self.args), args)
 
     def to_python(self) -> str:
-        return f"({', '.join([arg.to_python() for arg in self.args])})"
+        # the trailing comma keeps a tuple of one element a tuple
+        return f"({''.join([arg.to_python() + ', ' for arg in self.args])})"
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_TupleExpr(self)
-- 
2.43.0


From 3f040ccf3f65b15b116bd06977b3be31ab06a1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:57 +0000
Subject: [PATCH 022/106] fix: matrix_transpose in the SMT prelude recursed
 forever, which made every goal provable

---
 metalift/utils/list-axioms.smt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/utils/list-axioms.smt b/metalift/utils/list-axioms.smt
index dccd1be..4c35d4e 100644
--- a/metalift/utils/list-axioms.smt
+++ b/metalift/utils/list-axioms.smt
@@ -199,4 +199,4 @@
 (ite (< (matrix_length matrix) 1) matrix_empty (matrix_col_slice matrix 1 (list_length (matrix_get matrix 0)))))
 
 (define-fun-rec matrix_transpose ((matrix (MLList (MLList Int)))) (MLList (MLList Int))
-(ite (< (matrix_length matrix) 1) matrix_empty (matrix_prepend (firsts matrix) (matrix_transpose (rests matrix)))))
+(ite (or (< (matrix_length matrix) 1) (< (list_length (matrix_get matrix 0)) 1)) matrix_empty (matrix_prepend (firsts matrix) (matrix_transpose (rests matrix)))))
-- 
2.43.0


From e41310f86548c59693c17b6c6bc9e46224918980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:57 +0000
Subject: [PATCH 023/106] fix: matrix_transpose of the tensor DSL ends when the
 columns run out

---
 llmlift_scripts/dsl.py                       | 6 +++++-
 metalift/utils/tenspiler/tenspiler_common.py | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/llmlift_scripts/dsl.py b/llmlift_scripts/dsl.py
index e55ab78..3472e10 100644
--- a/llmlift_scripts/dsl.py
+++ b/llmlift_scripts/dsl.py
@@ -141,7 +141,11 @@ def matrix_selection_two_args(
 
 
 def matrix_transpose(matrix: List[List[int]]) -> List[List[int]]:
-    return [] if len(matrix) < 1 else [firsts(matrix), *matrix_transpose(rests(matrix))]
+    return (
+        []
+        if len(matrix) < 1 or len(matrix[0]) < 1
+        else [firsts(matrix), *matrix_transpose(rests(matrix))]
+    )
 
 
 def matrix_vec_mul(matrix_x: List[List[int]], x: List[int]) -> List[int]:
diff --git a/metalift/utils/tenspiler/tenspiler_common.py b/metalift/utils/tenspiler/tenspiler_common.py
index f3a18e9..41eac5c 100644
--- a/metalift/utils/tenspiler/tenspiler_common.py
+++ b/metalift/utils/tenspiler/tenspiler_common.py
@@ -2232,7 +2232,7 @@ rests_body = ite(
 )
 rests_fn_decl = fn_decl_recursive("rests", Matrix[Int], rests_body, matrix)
 matrix_transpose_body = ite(
-    matrix.len() < 1,
+    or_objects(matrix.len() < 1, matrix[0].len() < 1),
     Matrix.empty(Int),
     call("rests", Matrix[Int], matrix)
     .transpose()
-- 
2.43.0


From f9b393c2eeea86e6ac18809085bafe769828a7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 024/106] fix: parenthesise the Newton step of
 integer_sqrt_helper in dsl.py

---
 llmlift_scripts/dsl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llmlift_scripts/dsl.py b/llmlift_scripts/dsl.py
index 3472e10..6ebc586 100644
--- a/llmlift_scripts/dsl.py
+++ b/llmlift_scripts/dsl.py
@@ -20,7 +20,7 @@ def integer_sqrt_helper(n: int, guess: int) -> int:
         else (
             guess
             if guess == (n // guess)
-            else integer_sqrt_helper(n, (guess + (n // guess) // 2))
+            else integer_sqrt_helper(n, (guess + (n // guess)) // 2)
         )
     )
 
-- 
2.43.0


From 8e111fae841797a7baaea0c5652ac781353eb4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 025/106] fix: tenspiler axioms claimed false facts about empty
 prefixes and out-of-range elements

---
 metalift/utils/tenspiler/axioms.py | 44 ++++++++++++++++--------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/metalift/utils/tenspiler/axioms.py b/metalift/utils/tenspiler/axioms.py
index aa2324e..9f2ec1a 100644
--- a/metalift/utils/tenspiler/axioms.py
+++ b/metalift/utils/tenspiler/axioms.py
@@ -40,7 +40,7 @@ rand = Int("rand")
 
 def vec_elemwise_add_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_add(a[:index], b[:index])
         == call_vec_elemwise_add(a[1:index], b[1:index]).prepend(a[0] + b[0]),
     )
@@ -48,7 +48,7 @@ def vec_elemwise_add_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def vec_elemwise_mul_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_mul(a[:index], b[:index])
         == call_vec_elemwise_mul(a[1:index], b[1:index]).prepend(a[0] * b[0]),
     )
@@ -56,7 +56,7 @@ def vec_elemwise_mul_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def scalar_vec_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_scalar_vec_sub(i, a[:index])
         == call_scalar_vec_sub(i, a[1:index]).prepend(i - a[0]),
     )
@@ -64,7 +64,7 @@ def scalar_vec_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_scalar_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_sub(i, a[:index])
         == call_vec_scalar_sub(i, a[1:index]).prepend(a[0] - i),
     )
@@ -72,7 +72,7 @@ def vec_scalar_sub_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_scalar_add_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_add(i, a[:index])
         == call_vec_scalar_add(i, a[1:index]).prepend(i + a[0]),
     )
@@ -80,7 +80,7 @@ def vec_scalar_add_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def scalar_vec_div_axiom(i: int, a: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_scalar_vec_div(i, a[:index])
         == call_scalar_vec_div(i, a[1:index]).prepend(i // a[0]),
     )
@@ -88,7 +88,7 @@ def scalar_vec_div_axiom(i: int, a: mlList[int], index: int) -> Bool:
 
 def vec_scalar_mul_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_mul(i, a[:index])
         == call_vec_scalar_mul(i, a[1:index]).prepend(i * a[0]),
     )
@@ -96,7 +96,7 @@ def vec_scalar_mul_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_elemwise_sub_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_sub(a[:index], b[:index])
         == call_vec_elemwise_sub(a[1:index], b[1:index]).prepend(a[0] - b[0]),
     )
@@ -104,7 +104,7 @@ def vec_elemwise_sub_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def reduce_sum_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index <= max_pos, max_pos >= 0),
+        and_objects(index >= 0, index < data.len(), index <= max_pos, max_pos >= 0),
         call_reduce_sum(data[: index + 1])
         == call_reduce_sum(data[:index]) + data[index],
     )
@@ -112,7 +112,7 @@ def reduce_sum_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
 
 def reduce_max_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index <= max_pos, max_pos >= 0),
+        and_objects(index > 0, index < data.len(), index <= max_pos, max_pos >= 0),
         call_reduce_max(data[: index + 1])
         == ite(
             data[index] > (call_reduce_max(data[:index])),
@@ -124,7 +124,7 @@ def reduce_max_axiom(data: mlList[int], index: int, max_pos: int) -> Bool:
 
 def vec_scalar_div_axiom(a: mlList[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len()),
+        and_objects(index > 0, index < a.len()),
         call_vec_scalar_div(i, a[:index])
         == call_vec_scalar_div(i, a[1:index]).prepend(a[0] // i),
     )
@@ -132,7 +132,7 @@ def vec_scalar_div_axiom(a: mlList[int], i: int, index: int) -> Bool:
 
 def vec_elemwise_div_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < a.len(), a.len() == b.len()),
+        and_objects(index > 0, index < a.len(), a.len() == b.len()),
         call_vec_elemwise_div(a[:index], b[:index])
         == call_vec_elemwise_div(a[1:index], b[1:index]).prepend(a[0] // b[0]),
     )
@@ -140,7 +140,7 @@ def vec_elemwise_div_axiom(a: mlList[int], b: mlList[int], index: int) -> Bool:
 
 def matrix_elemwise_add_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_elemwise_add(x[:index], y[:index])
         == call_matrix_elemwise_add(x[1:index], y[1:index]).prepend(
             call_vec_elemwise_add(x[0], y[0])
@@ -150,7 +150,7 @@ def matrix_elemwise_add_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 
 def matrix_elemwise_sub_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_elemwise_sub(x[:index], y[:index])
         == call_matrix_elemwise_sub(x[1:index], y[1:index]).prepend(
             call_vec_elemwise_sub(x[0], y[0])
@@ -160,7 +160,7 @@ def matrix_elemwise_sub_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 
 def matrix_scalar_mul_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_scalar_mul(i, x[:index])
         == call_matrix_scalar_mul(i, x[1:index]).prepend(call_vec_scalar_mul(i, x[0])),
     )
@@ -168,7 +168,9 @@ def matrix_scalar_mul_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_vec_mul_axiom(x: Matrix[int], b: mlList[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(
+            index > 0, index < x.len(), b.len() > 0, x[0].len() == b.len()
+        ),
         call_matrix_vec_mul(x[:index], b)
         == call_matrix_vec_mul(x[1:index], b).prepend(
             call_reduce_sum(call_vec_elemwise_mul(x[0], b))
@@ -178,7 +180,7 @@ def matrix_vec_mul_axiom(x: Matrix[int], b: mlList[int], index: int) -> Bool:
 
 def matrix_elemwise_mul_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_elemwise_mul(x[:index], y[:index])
         == call_matrix_elemwise_mul(x[1:index], y[1:index]).prepend(
             call_vec_elemwise_mul(x[0], y[0])
@@ -188,7 +190,7 @@ def matrix_elemwise_mul_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Boo
 
 def matrix_scalar_div_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_scalar_div(i, x[:index])
         == call_matrix_scalar_div(i, x[1:index]).prepend(call_vec_scalar_div(i, x[0])),
     )
@@ -196,7 +198,7 @@ def matrix_scalar_div_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_scalar_sub_axiom(x: Matrix[int], i: int, index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len()),
+        and_objects(index > 0, index < x.len()),
         call_matrix_scalar_sub(i, x[:index])
         == call_matrix_scalar_sub(i, x[1:index]).prepend(call_vec_scalar_sub(i, x[0])),
     )
@@ -204,7 +206,7 @@ def matrix_scalar_sub_axiom(x: Matrix[int], i: int, index: int) -> Bool:
 
 def matrix_selection_two_args_axiom(x: Matrix[int], y: Matrix[int], index: int) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_matrix_selection(x[:index], y[:index])
         == call_matrix_selection(x[1:index], y[1:index]).prepend(
             call_selection(x[0], y[0])
@@ -216,7 +218,7 @@ def dissolve_matrix_selection_two_args_axiom(
     x: Matrix[int], y: Matrix[int], opacity: int, rand: int, index: int
 ) -> Bool:
     return implies(
-        and_objects(index >= 0, index < x.len(), x.len() == y.len()),
+        and_objects(index > 0, index < x.len(), x.len() == y.len()),
         call_dissolve_matrix_selection(x[:index], y[:index], opacity, rand)
         == call_dissolve_matrix_selection(
             x[1:index], y[1:index], opacity, rand
-- 
2.43.0


From 24734731b91074aed76a614dc9386f7d1df385f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:08 +0000
Subject: [PATCH 026/106] fix: != on List and Set objects builds an expression
 instead of being False

---
 metalift/ir.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index a842799..41513a1 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1215,6 +1215,9 @@ class List(Generic[T], Object):
         else:
             return cast(Bool, call("list_eq", Bool, self, other))
 
+    def __ne__(self, other: "List") -> Bool:  # type: ignore
+        return (self == other).Not()
+
     def __repr__(self) -> str:
         return f"{self.src}"
 
@@ -1673,6 +1676,9 @@ class Set(Generic[T], Object):
         return Bool(Eq(self.src, s.src))
         # return cast(Bool, call("set-eq", Bool, self, s))
 
+    def __ne__(self, s: "Set") -> Bool:  # type: ignore
+        return Bool(Not(Eq(self.src, s.src)))
+
     @staticmethod
     def empty(containedT: ObjectContainedT) -> "Set":  # type: ignore
         return Set(containedT, Call("set-create", Set[containedT]))  # type: ignore
-- 
2.43.0


From 8023a7515ad33ef35454a9c8b93da9c35764e5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:27 +0000
Subject: [PATCH 027/106] fix: Bool.And and Bool.Or accept Python booleans as
 declared

---
 metalift/ir.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 41513a1..5ab821c 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -872,11 +872,13 @@ class Bool(Object):
     def And(self, *args: Union["Bool", bool]) -> "Bool":
         if len(args) == 0:
             raise Exception(f"Arg list must be non-empty: {args}")
+        args = tuple(Bool(arg) if isinstance(arg, bool) else arg for arg in args)
         return Bool(And(*get_object_exprs(self, *args)))  # type: ignore
 
     def Or(self, *args: Union["Bool", bool]) -> "Bool":
         if len(args) == 0:
             raise Exception(f"Arg list must be non-empty: {args}")
+        args = tuple(Bool(arg) if isinstance(arg, bool) else arg for arg in args)
         return Bool(Or(*get_object_exprs(self, *args)))  # type: ignore
 
     def Not(self) -> "Bool":
-- 
2.43.0


From 71d61c3b0a4487d695a15e2b628f8b15d56893cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:27 +0000
Subject: [PATCH 028/106] fix: create_object makes Tuple objects with their
 element types

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 5ab821c..58ec82e 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -660,7 +660,7 @@ def create_object(
         if len(contained_types) != 1:
             raise Exception("NYI: multiple contained types")
 
-        if object_cls is Fn:
+        if object_cls is Fn or object_cls is Tuple:
             return object_cls(get_args(contained_types[0]), value)  # type: ignore
         else:
             return object_cls(*contained_types, value)  # type: ignore
-- 
2.43.0


From 605b6585ce090c19c414f1583aae6e1573319e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:27 +0000
Subject: [PATCH 029/106] fix: Set.remove and Set.singleton take the item's IR
 type, not its Python class

---
 metalift/ir.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 58ec82e..2491668 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1643,16 +1643,16 @@ class Set(Generic[T], Object):
         return call("set-insert", self.type, value, self)  # type: ignore
 
     def remove(self, item: Object) -> "Set":  # type: ignore
-        if type(item) != self.containedT:
+        if item.type != self.containedT:
             raise TypeError(
-                f"Trying to remove element of type: {type(item)} from set containing: {self.containedT}"
+                f"Trying to remove element of type: {item.type} from set containing: {self.containedT}"
             )
         singleton_s = Set.singleton(item)
         return call("set-minus", self.type, self, singleton_s)  # type: ignore
 
     @staticmethod
     def singleton(item: Object) -> "Set":  # type: ignore
-        return call("set-singleton", Set[type(item)], item)  # type: ignore
+        return call("set-singleton", Set[item.type], item)  # type: ignore
 
     def union(self, s: "Set") -> "Set":  # type: ignore
         if self.type != s.type:
-- 
2.43.0


From 50d2df5b93aea5c9adb457439717f679654363e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:27 +0000
Subject: [PATCH 030/106] fix: Set.__contains__ builds a set-member call

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 2491668..51e6ade 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1672,7 +1672,7 @@ class Set(Generic[T], Object):
     def __contains__(self, value: Object) -> Bool:
         if value.type != self.containedT:
             return Bool(False)
-        return cast(Bool, call("set-pointer_varsber", Bool, self, value))
+        return cast(Bool, call("set-member", Bool, value, self))
 
     def __eq__(self, s: "Set") -> Bool:  # type: ignore
         return Bool(Eq(self.src, s.src))
-- 
2.43.0


From e22f2fcf12e9cc44608166bb48008a23fe0dcedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:27 +0000
Subject: [PATCH 031/106] fix: subtracting from a difference of expressions

---
 metalift/ir.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 51e6ade..46ba732 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -590,10 +590,7 @@ class Expr:
             return Add(self, other)
 
     def __sub__(self, other: "Expr") -> "Sub":
-        if isinstance(self, Sub):
-            return Sub(*self.args, other)
-        else:
-            return Sub(self, other)
+        return Sub(self, other)
 
     def __mul__(self, other: "Expr") -> "Mul":
         if isinstance(self, Mul):
-- 
2.43.0


From 5007ee13608111d6dd6f1e8ffa4b8b08e5a038bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:11 +0000
Subject: [PATCH 032/106] fix: len, append and prepend of a list of lists use
 the matrix operations like its other methods

---
 metalift/ir.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 46ba732..0b3b668 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1105,7 +1105,8 @@ class List(Generic[T], Object):
         raise NotImplementedError("len must return an int, call len() instead")
 
     def len(self) -> Int:
-        return Int(Call("list_length", Int, self.src))
+        fn_name = "matrix_length" if self.is_matrix else "list_length"
+        return Int(Call(fn_name, Int, self.src))
 
     def __getitem__(self, index: Union[Int, int, slice]) -> Object:
         if isinstance(index, int):
@@ -1171,7 +1172,8 @@ class List(Generic[T], Object):
             raise TypeError(
                 f"Trying to append element of type: {value.type} to list containing: {self.containedT}"
             )
-        self.src = call("list_append", self.type, self, value).src
+        fn_name = "matrix_append" if self.is_matrix else "list_append"
+        self.src = call(fn_name, self.type, self, value).src
         return self
 
     # in place prepend
@@ -1180,7 +1182,8 @@ class List(Generic[T], Object):
             raise TypeError(
                 f"Trying to append element of type: {value.type} to list containing: {self.containedT}"
             )
-        self.src = call("list_prepend", self.type, value, self).src
+        fn_name = "matrix_prepend" if self.is_matrix else "list_prepend"
+        self.src = call(fn_name, self.type, value, self).src
         return self
 
     def slice_with_length(
-- 
2.43.0


From f34b8ea2210872feb8e9384b238619d92902588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:11 +0000
Subject: [PATCH 033/106] fix: lists, matrices and tensors are different types
 in type checks

---
 metalift/ir.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 0b3b668..da76b1f 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -1547,9 +1547,9 @@ class Matrix(List[T], Generic[T], Object):
     def cls_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
         contained_type = type_args[0]
         if isinstance(contained_type, _GenericAlias):
-            return f"List {get_origin(contained_type).cls_str(get_args(contained_type))}"  # type: ignore
+            return f"Matrix {get_origin(contained_type).cls_str(get_args(contained_type))}"  # type: ignore
         else:
-            return f"List {contained_type.cls_str()}"
+            return f"Matrix {contained_type.cls_str()}"
 
 
 class Tensor3D(List[T], Generic[T], Object):
@@ -1607,6 +1607,10 @@ class Tensor3D(List[T], Generic[T], Object):
         self.src = call("tensor3d_append", self.type, self, value).src
         return self
 
+    @staticmethod
+    def cls_str(type_args: pyTuple[ObjectContainedT] = ()) -> str:  # type: ignore
+        return f"Tensor3D {get_type_str(type_args[0])}"
+
 
 class Set(Generic[T], Object):
     def __init__(
-- 
2.43.0


From 60b92f3d6277418aa1f7c2d4bcf2890e537ac35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:56 +0000
Subject: [PATCH 034/106] fix: Lambda expressions have a function type

---
 metalift/ir.py               | 8 +++++---
 metalift/synthesis_common.py | 3 +--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index da76b1f..1aa328c 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -151,7 +151,7 @@ class Expr:
         elif isinstance(self, Let):
             return Let(*[f(a) for a in self.args])
         elif isinstance(self, Lambda):
-            return Lambda(self.type.args[0], *[f(a) for a in self.args])  # type: ignore
+            return Lambda(get_fn_return_type(self.type), *[f(a) for a in self.args])
         elif isinstance(self, Choose):
             return Choose(*[f(a) for a in self.args])
         elif isinstance(self, TupleGet):
@@ -267,7 +267,7 @@ class Expr:
                 elif isinstance(e, Let):
                     return Let(*newArgs)
                 elif isinstance(e, Lambda):
-                    return Lambda(e.type.args[0], *newArgs)  # type: ignore
+                    return Lambda(get_fn_return_type(e.type), *newArgs)
                 elif isinstance(e, CallValue):
                     return CallValue(*newArgs)
                 else:
@@ -3133,7 +3133,9 @@ class FnDeclRecursive(Expr):
 
 class Lambda(Expr):
     def __init__(self, returnT: ObjectT, body: Expr, *args: Expr) -> None:
-        Expr.__init__(self, FnT(returnT, *[a.type for a in args]), [body, *args])  # type: ignore
+        Expr.__init__(
+            self, make_fn_type(returnT, *[a.type for a in args]), [body, *args]
+        )
 
     def body(self) -> Expr:
         return self.args[0]  # type: ignore
diff --git a/metalift/synthesis_common.py b/metalift/synthesis_common.py
index 4f93ffb..8b88195 100644
--- a/metalift/synthesis_common.py
+++ b/metalift/synthesis_common.py
@@ -130,9 +130,8 @@ def parse_candidates(
                         lambda_name = f"lambda_{len(extracted_lambdas)}"
                         extracted_lambdas.append(
                             FnDecl(
-                                # TODO: ar.type no longer has args, find proper substitution
                                 lambda_name,
-                                ar.type.args[0],  # type: ignore
+                                get_fn_return_type(ar.type),
                                 ar.args[0],
                                 *ar.args[1:],
                             )
-- 
2.43.0


From 36952895e8257daf6446c9dc45e29bce439dceea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:56 +0000
Subject: [PATCH 035/106] fix: the literals 1 and True are different
 expressions

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 1aa328c..8f5bd45 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -317,7 +317,7 @@ class Expr:
                         if not Expr.__eq__(a1, a2):
                             return False
                         continue
-                    elif a1 != a2:
+                    elif type(a1) != type(a2) or a1 != a2:
                         return False
                 return True
         return NotImplemented
-- 
2.43.0


From 89b70a012ba6b0b065244763ca9c601b10b3ba2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:00 +0000
Subject: [PATCH 036/106] fix: a third equality about the same variable crashed
 equality elimination

---
 metalift/ir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 8f5bd45..d3b3b0b 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -512,7 +512,7 @@ class Expr:
             ):
                 if self.args[0].args[0] in into or self.args[0].args[0] in conflicts:
                     conflicts[self.args[0].args[0]] = True
-                    del into[self.args[0].args[0]]
+                    into.pop(self.args[0].args[0], None)
                 else:
                     into[self.args[0].args[0]] = self.args[1]
             elif isinstance(self.args[1], Var) and (
@@ -520,7 +520,7 @@ class Expr:
             ):
                 if self.args[1].args[0] in into or self.args[1].args[0] in conflicts:
                     conflicts[self.args[1].args[0]] = True
-                    del into[self.args[1].args[0]]
+                    into.pop(self.args[1].args[0], None)
                 else:
                     into[self.args[1].args[0]] = self.args[0]
         elif isinstance(self, And):
-- 
2.43.0


From a69d9f5cec8846d5fa9c88cf48fe6def3c188ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:00 +0000
Subject: [PATCH 037/106] fix: equality elimination loops on equalities that
 define variables by each other

---
 metalift/ir.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index d3b3b0b..2d5adc7 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -574,6 +574,13 @@ class Expr:
                     if rewrite_var in counts_rhs and counts_rhs[rewrite_var] > 1:
                         del rewrites[rewrite_var]
 
+            # variables that define each other are eliminated one after the other
+            for rewrite_var in list(rewrites.keys()):
+                used: Dict[str, int] = {}
+                rewrites[rewrite_var].count_variable_uses(used)
+                if any(name in rewrites for name in used):
+                    del rewrites[rewrite_var]
+
             self = self.rewrite(rewrites)
 
         return self.map_args(
-- 
2.43.0


From 352586008b35ac424e0525e1f01f097c8662ba12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:01 +0000
Subject: [PATCH 038/106] fix: equality elimination counts variable uses after
 rewriting

---
 metalift/ir.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 2d5adc7..3679a5a 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -583,6 +583,16 @@ class Expr:
 
             self = self.rewrite(rewrites)
 
+            # the uses outside of this expression are still the same
+            rewritten_counts: Dict[str, int] = {}
+            self.count_variable_uses(rewritten_counts)
+            counts = {
+                name: counts[name]
+                - local_counts.get(name, 0)
+                + rewritten_counts.get(name, 0)
+                for name in counts
+            }
+
         return self.map_args(
             lambda a: a.optimize_useless_equality(counts, new_vars)
             if isinstance(a, Expr)
-- 
2.43.0


From fb135946fb933425e8208d08e1261af58d1c004d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:01 +0000
Subject: [PATCH 039/106] fix: equality elimination substitutes only in
 implications that have to hold

---
 metalift/ir.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 3679a5a..016cb5d 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -542,7 +542,10 @@ class Expr:
             )
 
     def optimize_useless_equality(
-        self, counts: Dict[str, int], new_vars: typing.Set["Var"]
+        self,
+        counts: Dict[str, int],
+        new_vars: typing.Set["Var"],
+        has_to_hold: bool = True,
     ) -> "Expr":
         if isinstance(self, Eq):
             replacement_var = Var("useless_equality_%d" % len(new_vars), Bool)
@@ -555,7 +558,7 @@ class Expr:
             elif isinstance(self.args[0], Var) and isinstance(self.args[1], Var):
                 if self.args[0].args[0] == self.args[1].args[0]:
                     return BoolLit(True)
-        elif isinstance(self, Implies):
+        elif isinstance(self, Implies) and has_to_hold:
             local_counts: Dict[str, int] = {}
             self.count_variable_uses(local_counts)
 
@@ -593,8 +596,15 @@ class Expr:
                 for name in counts
             }
 
+        # substituting an equality is only an instance of the whole condition
+        # where the implication is a conclusion, not a hypothesis
+        def arg_has_to_hold(a: "Expr") -> bool:
+            if isinstance(self, (And, Or)):
+                return has_to_hold
+            return has_to_hold and isinstance(self, Implies) and a is self.args[1]
+
         return self.map_args(
-            lambda a: a.optimize_useless_equality(counts, new_vars)
+            lambda a: a.optimize_useless_equality(counts, new_vars, arg_has_to_hold(a))
             if isinstance(a, Expr)
             else a
         ).simplify()
-- 
2.43.0


From 5377f36e55253b6623fe703110ea5d206af9279d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:09 +0000
Subject: [PATCH 040/106] fix: chooseArbitrarily also decides the choices
 inside the alternative it picks

---
 metalift/ir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 016cb5d..03b3c6b 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -3045,7 +3045,7 @@ class Choose(Expr):
         return retT
 
     def chooseArbitrarily(self) -> "Expr":
-        return self.args[0]  # type: ignore
+        return self.args[0].chooseArbitrarily()  # type: ignore
 
     # def accept(self, v: "Visitor[T]") -> T:
     #     return v.visit_Choose(self)
-- 
2.43.0


From 90ccab826d64bf169ad8cf46c42899440816a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:30 +0000
Subject: [PATCH 041/106] fix: a matrix bounded to one row has its one row
 among the Rosette inputs

---
 metalift/rosette_translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/rosette_translator.py b/metalift/rosette_translator.py
index 8d41724..8e2e10e 100644
--- a/metalift/rosette_translator.py
+++ b/metalift/rosette_translator.py
@@ -51,7 +51,7 @@ def gen_var(v: Expr, decls: List[str], vars_all: List[str], list_bound: int) ->
             gen_var(Var(t, element_type), decls, vars_all, list_bound)
         lsts: List[str] = [
             f"(list {' '.join(tmp[i : i + list_bound])})"
-            for i in range(0, len(tmp) - 1, list_bound)
+            for i in range(0, len(tmp), list_bound)
         ]
         decl = f"(define {v.args[0]} (take (list {' '.join(lsts)}) {len_name}))"
         decls.append(decl)
-- 
2.43.0


From 5812bf11b321dba2038aad47c6258190b17487da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:30 +0000
Subject: [PATCH 042/106] fix: declare tuple-valued inputs for Rosette

---
 metalift/rosette_translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/rosette_translator.py b/metalift/rosette_translator.py
index 8e2e10e..f926362 100644
--- a/metalift/rosette_translator.py
+++ b/metalift/rosette_translator.py
@@ -98,7 +98,7 @@ def gen_var(v: Expr, decls: List[str], vars_all: List[str], list_bound: int) ->
             )
     elif is_tuple_type(v.type):
         elem_names = []
-        for i, t in enumerate(typing.get_args(v.type)):
+        for i, t in enumerate(typing.get_args(typing.get_args(v.type)[0])):
             elem_name = v.args[0] + "_TUPLE-" + str(i)
             gen_var(Var(elem_name, t), decls, vars_all, list_bound)
             elem_names.append(elem_name)
-- 
2.43.0


From 852a081a5eb53ef77cd7da9ae6872f9a48ccb3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:22 +0000
Subject: [PATCH 043/106] fix: read list-append back from a Rosette solution

---
 metalift/synthesize_rosette.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 475f9cb..90397c9 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -170,7 +170,7 @@ def to_expr(
             return Call(
                 "list_append",
                 mlList[elem.type],  # type: ignore
-                toExpr(ast[1], fnsType, varType, choices),
+                list_expr,
                 elem,
             )
         elif ast[0] == "matrix-append":
-- 
2.43.0


From ab907b34d36a953ae6f5630603ab5bd859fe3957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:22 +0000
Subject: [PATCH 044/106] fix: a matrix row read back from a Rosette solution
 is a list

---
 metalift/synthesize_rosette.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 90397c9..c9b3021 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -45,6 +45,7 @@ from metalift.ir import (
     Var,
     get_fn_return_type,
     get_list_element_type,
+    is_matrix_type,
 )
 from metalift.rosette_translator import to_rosette
 from metalift.synthesis_common import (
@@ -228,9 +229,10 @@ def to_expr(
             )
         elif ast[0] == "matrix-ref-noerr":
             list_expr = to_expr(ast[1], fnsType, varType, choices)
+            element_type = get_list_element_type(list_expr.type)
             return Call(
                 "matrix_get",
-                get_list_element_type(list_expr.type),
+                mlList[element_type] if is_matrix_type(list_expr.type) else element_type,  # type: ignore
                 list_expr,
                 to_expr(ast[2], fnsType, varType, choices),
             )
-- 
2.43.0


From e83075ce6d26679ed2e6d7e7ee265a86be8a89e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:22 +0000
Subject: [PATCH 045/106] fix: an empty matrix or tensor read back from a
 Rosette solution has its own type

---
 metalift/synthesize_rosette.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index c9b3021..aef186c 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -40,6 +40,7 @@ from metalift.ir import (
     Sub,
     Synth,
     Target,
+    Tensor3D,
     TupleExpr,
     TupleGet,
     Var,
@@ -162,9 +163,9 @@ def to_expr(
         elif ast[0] == "list-empty":
             return Call("list_empty", mlList[Int])
         elif ast[0] == "matrix-empty":
-            return Call("matrix_empty", mlList[mlList[Int]])
+            return Call("matrix_empty", Matrix[Int])
         elif ast[0] == "tensor3d-empty":
-            return Call("tensor3d_empty", mlList[mlList[mlList[Int]]])
+            return Call("tensor3d_empty", Tensor3D[Int])
         elif ast[0] == "list-append":
             list_expr = to_expr(ast[1], fnsType, varType, choices)
             elem = to_expr(ast[2], fnsType, varType, choices)
-- 
2.43.0


From a5e05f8bdd24b89eef22e3d1f02262fd6a52dc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:49 +0000
Subject: [PATCH 046/106] fix: read tensor slices back from a Rosette solution

---
 metalift/synthesize_rosette.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index aef186c..ca2210d 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -299,6 +299,24 @@ def to_expr(
                 tensor_expr,
                 to_expr(ast[2], fnsType, varType, choices),
             )
+        elif ast[0] == "tensor3d-slice-noerr":
+            tensor_expr = to_expr(ast[1], fnsType, varType, choices)
+            return Call(
+                "tensor3d_slice",
+                tensor_expr.type,
+                tensor_expr,
+                to_expr(ast[2], fnsType, varType, choices),
+                to_expr(ast[3], fnsType, varType, choices),
+            )
+        elif ast[0] == "tensor3d-slice-with-length-noerr":
+            tensor_expr = to_expr(ast[1], fnsType, varType, choices)
+            return Call(
+                "tensor3d_slice_with_length",
+                tensor_expr.type,
+                tensor_expr,
+                to_expr(ast[2], fnsType, varType, choices),
+                to_expr(ast[3], fnsType, varType, choices),
+            )
         elif ast[0] == "vec-slice-noerr":
             list_expr = to_expr(ast[1], fnsType, varType, choices)
             return Call(
-- 
2.43.0


From c704eafcacacb4e498f3fd1e72f892812cfb5e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:33 +0000
Subject: [PATCH 047/106] fix: grammar symbols do not collide with the
 program's own names

---
 metalift/ir.py | 72 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 57 insertions(+), 15 deletions(-)

diff --git a/metalift/ir.py b/metalift/ir.py
index 03b3c6b..791faf0 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -215,13 +215,17 @@ class Expr:
         commonExprs: typing.List[Union["Expr", Any]],
         mode: PrintMode,
         skipTop: bool = False,
+        prefix: str = "v",
     ) -> Union["Expr", ValueRef]:
         # skipTop is used to ignore the top-level match when simplifying a common expr
         if all([not Expr.__eq__(e, expr) for expr in commonExprs]) or skipTop:  # type: ignore
             if isinstance(e, Expr):
-                newArgs = [Expr.replaceExprs(arg, commonExprs, mode) for arg in e.args]
+                newArgs = [
+                    Expr.replaceExprs(arg, commonExprs, mode, prefix=prefix)
+                    for arg in e.args
+                ]
                 if isinstance(e, Object):
-                    return Expr.replaceExprs(e.src, commonExprs, mode)
+                    return Expr.replaceExprs(e.src, commonExprs, mode, prefix=prefix)
                 if isinstance(e, Var):
                     return Var(typing.cast(str, newArgs[0]), e.type)
                 elif isinstance(e, Lit):
@@ -277,9 +281,9 @@ class Expr:
         else:
             assert isinstance(e, Expr)
             if mode == PrintMode.Rosette:
-                return Var("(v%d)" % commonExprs.index(e), e.type)
+                return Var("(%s%d)" % (prefix, commonExprs.index(e)), e.type)
             else:
-                return Var("v%d" % commonExprs.index(e), e.type)
+                return Var("%s%d" % (prefix, commonExprs.index(e)), e.type)
 
     def __repr__(self) -> str:
         fn: Callable[[Union[ValueRef, Var]], Any] = (
@@ -2894,9 +2898,36 @@ class Synth(Expr):
     def set_body(self, body: Expr) -> None:
         self.args[1] = body
 
+    def nonterminal_prefixes(self) -> pyTuple[str, str]:
+        """Prefixes of the grammar's start symbol and of its other symbols that keep
+        them different from every name used in the grammar."""
+        names: typing.Set[str] = set()
+
+        def collect(e: Any) -> None:
+            if isinstance(e, ValueRef):
+                names.add(e.name)
+            elif isinstance(e, str):
+                names.add(e)
+            elif isinstance(e, Object):
+                collect(e.src)
+            elif isinstance(e, Expr):
+                for arg in e.args:
+                    collect(arg)
+
+        collect(self)
+        start, prefix = "rv", "v"
+        while start in names:
+            start = "_" + start
+        while any(
+            n.startswith(prefix) and n[len(prefix) :].isdigit() for n in names
+        ):
+            prefix = "_" + prefix
+        return start, prefix
+
     def to_rosette(
         self, writeChoicesTo: typing.Optional[Dict[str, "Expr"]] = None
     ) -> str:
+        start, prefix = self.nonterminal_prefixes()
         cnts = Expr.findCommonExprs(self.args[1], [])
         commonExprs = list(
             filter(
@@ -2904,11 +2935,15 @@ class Synth(Expr):
                 [expr_cnt_tup[0] for expr_cnt_tup in cnts],
             )
         )
-        rewritten = Expr.replaceExprs(self.args[1], commonExprs, PrintMode.Rosette)
+        rewritten = Expr.replaceExprs(
+            self.args[1], commonExprs, PrintMode.Rosette, prefix=prefix
+        )
 
         # rewrite common exprs to use each other
         commonExprs = [
-            Expr.replaceExprs(e, commonExprs, PrintMode.Rosette, skipTop=True)
+            Expr.replaceExprs(
+                e, commonExprs, PrintMode.Rosette, skipTop=True, prefix=prefix
+            )
             for e in commonExprs
         ]
 
@@ -2921,20 +2956,21 @@ class Synth(Expr):
             for a in self.args[2:]
         )
 
-        defs = "[rv (choose %s)]\n" % rewritten.to_rosette()
+        defs = "[%s (choose %s)]\n" % (start, rewritten.to_rosette())
 
         if writeChoicesTo != None:
             for i, e in enumerate(commonExprs):
-                writeChoicesTo[f"v{i}"] = e  # type: ignore
+                writeChoicesTo[f"{prefix}{i}"] = e  # type: ignore
 
         defs = defs + "\n".join(
-            "%s %s)]" % ("[v%d (choose" % i, e.to_rosette())
+            "%s %s)]" % ("[%s%d (choose" % (prefix, i), e.to_rosette())
             for i, e in enumerate(commonExprs)
         )
 
         return "(define-grammar (%s_gram %s)\n %s\n)" % (self.args[0], args, defs)
 
     def toSMT(self) -> str:
+        start, prefix = self.nonterminal_prefixes()
         cnts = Expr.findCommonExprs(self.args[1], [])
         commonExprs = list(
             filter(
@@ -2942,11 +2978,15 @@ class Synth(Expr):
                 [expr_cnt_tup[0] for expr_cnt_tup in cnts],
             )
         )
-        rewritten = Expr.replaceExprs(self.args[1], commonExprs, PrintMode.SMT)
+        rewritten = Expr.replaceExprs(
+            self.args[1], commonExprs, PrintMode.SMT, prefix=prefix
+        )
 
         # rewrite common exprs to use each other
         commonExprs = [
-            Expr.replaceExprs(e, commonExprs, PrintMode.SMT, skipTop=True)
+            Expr.replaceExprs(
+                e, commonExprs, PrintMode.SMT, skipTop=True, prefix=prefix
+            )
             for e in commonExprs
         ]
 
@@ -2957,14 +2997,16 @@ class Synth(Expr):
             expr_smt_type = expr_type.toSMTType(get_args(expr_type))  # type: ignore
             common_exprs_types.append(expr_smt_type)
 
-        decls = "((rv %s) %s)" % (
+        decls = "((%s %s) %s)" % (
+            start,
             return_type,
             " ".join(
-                "(%s %s)" % ("v%d" % i, smt_type)
+                "(%s %s)" % ("%s%d" % (prefix, i), smt_type)
                 for i, smt_type in enumerate(common_exprs_types)
             ),
         )
-        defs = "(rv %s %s)\n" % (
+        defs = "(%s %s %s)\n" % (
+            start,
             return_type,
             rewritten.toSMT()
             if isinstance(rewritten, Choose)
@@ -2973,7 +3015,7 @@ class Synth(Expr):
         defs = defs + "\n".join(
             "(%s %s %s)"
             % (
-                "v%d" % i,
+                "%s%d" % (prefix, i),
                 common_exprs_types[i],
                 e.toSMT() if isinstance(e, Choose) else f"({e.toSMT()})",
             )
-- 
2.43.0


From a50b6208af90d3f0cda42439d68e84fb6b01542b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:40 +0000
Subject: [PATCH 048/106] fix: stop when Rosette ends without writing a
 solution

---
 metalift/synthesize_rosette.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index ca2210d..3b81fda 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -658,6 +658,9 @@ def synthesize(
         curr_sol_file = Path(f"{synth_dir}/{basename}_sol{curr_sol_idx}")
         curr_sol_exists = curr_sol_file.is_file()
         if not curr_sol_exists:
+            if exit_code is not None:
+                # Rosette has ended, no further solution will appear
+                break
             continue
 
         with open(curr_sol_file, "r") as f:
@@ -817,10 +820,5 @@ def synthesize(
         # exit_code = proc_synthesis.poll()
 
     # Now we have exited out of the while loop
-    if exit_code != 0:
-        if len(result_synth) > 0 and result_synth[0] == "#f":
-            raise SynthesisFailed(f"Synthesis failed: exit code {exit_code}")
-        else:
-            raise Exception(
-                f"Rosette failed: exit code {exit_code}\n" + "\n".join(err_synth)
-            )
+    err_synth = proc_synthesis.stderr.read().decode("utf-8")  # type: ignore
+    raise SynthesisFailed(f"Rosette failed: exit code {exit_code}\n{err_synth}")
-- 
2.43.0


From e95e456693e3b392bdee48bf317fbd08854d2703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:40 +0000
Subject: [PATCH 049/106] fix: end the Rosette process when synthesis fails

---
 metalift/synthesize_rosette.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 3b81fda..7edbadb 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -700,6 +700,7 @@ def synthesize(
                             choices[n] if n in choices else {},
                         )
         else:
+            proc_synthesis.terminate()
             raise SynthesisFailed("Synthesis failed")
         #####candidateDict --> definitions of all functions to be synthesized#####
 
@@ -813,6 +814,7 @@ def synthesize(
                 print("\n".join(verify_logs))
                 print("\nProceeding to verifying the next solution")
             if last_processed_sol_idx + 1 == rounds_to_guess:
+                proc_synthesis.terminate()
                 raise VerificationFailed("Verification failed")
 
         last_processed_sol_idx = curr_sol_idx
-- 
2.43.0


From 5f4d5c23727f02349d9175e39b8754818d7b5148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:02 +0000
Subject: [PATCH 050/106] fix: a solution file appears only once it is complete

---
 metalift/rosette_translator.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/metalift/rosette_translator.py b/metalift/rosette_translator.py
index f926362..33bd272 100644
--- a/metalift/rosette_translator.py
+++ b/metalift/rosette_translator.py
@@ -184,7 +184,7 @@ def generate_synth(
     )
     (sat? sol0)
     (with-output-to-file
-        "synthesisLogs/{basename}_sol0"
+        "synthesisLogs/{basename}_sol0.part"
         (lambda ()
             (begin
                 (printf (~a (sat? sol0)))
@@ -193,6 +193,10 @@ def generate_synth(
             )
         )
     )
+    (rename-file-or-directory
+        "synthesisLogs/{basename}_sol0.part"
+        "synthesisLogs/{basename}_sol0"
+    )
     (print-forms sol0)
     """
     all_synth_funs.append(synth_fun)
@@ -221,7 +225,7 @@ def generate_synth(
         )
         (sat? sol{i})
         (with-output-to-file
-            "synthesisLogs/{basename}_sol{i}"
+            "synthesisLogs/{basename}_sol{i}.part"
             (lambda ()
                 (begin
                     (printf (~a (sat? sol{i})))
@@ -230,6 +234,10 @@ def generate_synth(
                 )
             )
         )
+        (rename-file-or-directory
+            "synthesisLogs/{basename}_sol{i}.part"
+            "synthesisLogs/{basename}_sol{i}"
+        )
         (print-forms sol{i})
         """
         all_synth_funs.append(synth_fun)
-- 
2.43.0


From 1e894bdc37c2b019c6d366597abd6bcdf80d170b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 051/106] fix: resolve chains of choice-free non-terminals in
 Rosette solutions

---
 metalift/synthesize_rosette.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 7edbadb..6aa84be 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -516,7 +516,7 @@ def to_expr(
 
                 if isinstance(expr, Var):
                     if expr.name().startswith("(") and expr.name()[1:-1] in choices:
-                        return choices[expr.name()[1:-1]].args[0]
+                        return replace_choices(choices[expr.name()[1:-1]].args[0])
                     return expr
                 return expr.map_args(replace_choices)
 
-- 
2.43.0


From ed4faa00e0776cba3cd1ec60e2680cdd5c9b3ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 052/106] fix: declare uninterpreted functions of either kind
 in SMT files

---
 metalift/smt_util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index 56ddef2..51061f5 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -451,10 +451,14 @@ def toSMT(
                     )
             in_calls_to_renamed_fn_name = new_in_calls_to_renamed_fn_name
 
+        candidate_names = {cand.name() for cand in inv_and_ps}
         for t in target_lang:
             if t in rewritten_fn_decls:
                 continue
-            if (isinstance(t, FnDecl) or isinstance(t, FnDecl)) and t.body() is None:
+            if (
+                isinstance(t, FnDeclRecursive) or isinstance(t, FnDecl)
+            ) and t.name() in candidate_names:
+                # Defined (or to be synthesized) below
                 continue
             elif isinstance(t, Axiom):
                 axioms.append(t)
-- 
2.43.0


From 8aee4071eb2274d375f2b858db0354ef9a3bf4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 053/106] fix: writing an SMT file does not rename calls in the
 candidates

---
 metalift/smt_util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index 51061f5..fa41748 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -1,3 +1,4 @@
+import copy
 import importlib.resources as resources
 import typing
 from typing import Any, Union, get_args
@@ -379,6 +380,10 @@ def toSMT(
                             )
                         )
         # Now, we start iteratively replacing function calls with the inlined-function-rewritten versions.
+        # The candidates belong to the caller, so we work on copies.
+        inv_and_ps = [copy.copy(cand) for cand in inv_and_ps]
+        for cand in inv_and_ps:
+            cand.args = [*cand.args]
         while len(in_calls_to_renamed_fn_name) > 0:
             # We need to rename all such functions in the synthesized ones.
             for idx, cand in enumerate(inv_and_ps):
-- 
2.43.0


From 733abcdbc6567dcbb48138c2174e54857153c23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 054/106] fix: specialize a function once for each function
 passed to it

---
 metalift/smt_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index fa41748..499df67 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -97,7 +97,8 @@ def get_direct_in_calls(
                     direct_in_calls=direct_in_calls,
                 )
             )
-    return direct_in_calls
+    # A function can call its argument several times
+    return list(dict.fromkeys(direct_in_calls))
 
 
 def get_dependent_fn_names(
-- 
2.43.0


From aa785b4b6940ee0566a1697e5277d42cfe7d21fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 055/106] fix: define synthesized functions before the target
 functions that call them

---
 metalift/smt_util.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index 499df67..16852cd 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -458,6 +458,7 @@ def toSMT(
             in_calls_to_renamed_fn_name = new_in_calls_to_renamed_fn_name
 
         candidate_names = {cand.name() for cand in inv_and_ps}
+        target_fn_decls: list[FnDecl | FnDeclRecursive] = []
         for t in target_lang:
             if t in rewritten_fn_decls:
                 continue
@@ -469,7 +470,7 @@ def toSMT(
             elif isinstance(t, Axiom):
                 axioms.append(t)
             else:
-                out.write("\n" + t.toSMT() + "\n")
+                target_fn_decls.append(t)
 
         vc = filter_fn_args(vc)
 
@@ -481,11 +482,12 @@ def toSMT(
                 early_candidates.append(cand)
             else:
                 candidates.append(cand)
-        candidates = topological_sort(candidates)
-        out.write("\n\n".join(["\n%s\n" % cand.toSMT() for cand in early_candidates]))
-        out.write("\n\n".join(["\n%s\n" % inlined.toSMT() for inlined in fn_decls]))
+        # Target functions can call candidates and the other way round
+        definitions = topological_sort(
+            [*target_fn_decls, *early_candidates, *fn_decls, *candidates]
+        )
+        out.write("\n\n".join(["\n%s\n" % defn.toSMT() for defn in definitions]))
         out.write("\n\n".join(["\n%s\n" % axiom.toSMT() for axiom in axioms]))
-        out.write("\n\n".join(["\n%s\n" % cand.toSMT() for cand in candidates]))
 
         declarations: typing.List[tuple[str, ObjectT]] = []
         for v in vars:
-- 
2.43.0


From b7991cc10f036860ac45b123838fd14c00cdcf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 056/106] fix: a variable named like a function is not a call
 of it

---
 metalift/smt_util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index 16852cd..61109cf 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -104,6 +104,8 @@ def get_direct_in_calls(
 def get_dependent_fn_names(
     expr: Any, all_fn_names: List[str], dependent_fn_names: List[str]
 ) -> None:
+    if isinstance(expr, Var) and not is_fn_decl_type(expr.type):
+        return
     if isinstance(expr, str) and expr in all_fn_names:
         dependent_fn_names.append(expr)
         return
-- 
2.43.0


From f3ecc687d7234948c0673a179209313572d1872b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 057/106] fix: SyGuS files can be written again: map_args
 covers functions to synthesize

---
 metalift/ir.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metalift/ir.py b/metalift/ir.py
index 791faf0..dec6ec4 100644
--- a/metalift/ir.py
+++ b/metalift/ir.py
@@ -178,6 +178,8 @@ class Expr:
                 f(self.body()),
                 *[f(a) for a in self.arguments()],
             )
+        elif isinstance(self, Synth):
+            return Synth(self.name(), f(self.body()), *[f(a) for a in self.arguments()])
         elif isinstance(self, Axiom):
             return Axiom(f(self.e()), *[f(var) for var in self.vars()])
         else:
-- 
2.43.0


From 813283a703645f584b2af4d0a05986493142b5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 058/106] fix: the cvc5 synthesizer takes the arguments the
 drivers pass

---
 metalift/synthesize_cvc5.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 7aaeb2a..0077a3c 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -230,20 +230,23 @@ def toExpr(
 
 def synthesize(
     basename: str,
-    targetLang: typing.Sequence[Union[FnDeclRecursive, FnDecl, Axiom]],
+    target_lang: typing.Sequence[Union[FnDeclRecursive, FnDecl, Axiom]],
     vars: typing.Set[Var],
-    invAndPs: typing.List[Synth],
+    inv_and_ps: typing.List[Synth],
     preds: typing.List[Expr],
     vc: Expr,
-    loopAndPsInfo: typing.Sequence[Union[CodeInfo, Expr]],
-    cvcPath: str,
+    loop_and_ps_info: typing.Sequence[Union[CodeInfo, Expr]],
+    cvc_path: str,
     uid: int = 0,
-    noVerify: bool = False,  # currently ignored
-    unboundedInts: bool = False,  # currently ignored
+    no_verify: bool = False,  # currently ignored
+    unbounded_ints: bool = False,  # currently ignored
     optimize_vc_equality: bool = False,
-    listBound: int = 2,  # currently ignored
+    list_bound: int = 2,  # currently ignored
     log: bool = True,  # currently ignored
     uninterp_fns: List[str] = [],  # currently ignored
+    rounds_to_guess: int = 0,  # currently ignored
+    fns_to_guess: List[FnDeclRecursive] = [],  # currently ignored
+    fn_defs_to_exclude: List[FnDeclRecursive] = [],  # currently ignored
 ) -> typing.List[FnDeclRecursive]:
     synthDir = "./synthesisLogs/"
     if not os.path.exists(synthDir):
@@ -273,20 +276,20 @@ def synthesize(
 
     # Generate sygus file for synthesis
     toSMT(
-        targetLang,
+        target_lang,
         vars,
-        invAndPs,
+        inv_and_ps,
         preds,
         vc,
         sygusFile,
         [],
-        [f.name() for f in targetLang],
+        [f.name() for f in target_lang],
         True,
     )
 
     # Run synthesis subprocess
     proc = subprocess.Popen(
-        [cvcPath, "--lang=sygus2", "--output=sygus", "--no-sygus-pbe", sygusFile],
+        [cvc_path, "--lang=sygus2", "--output=sygus", "--no-sygus-pbe", sygusFile],
         stdout=subprocess.PIPE,
         stderr=subprocess.PIPE,
     )
@@ -294,7 +297,7 @@ def synthesize(
     process_tracker.all_processes.append(proc)
 
     try:
-        funName, returnType = extractFuns(targetLang)
+        funName, returnType = extractFuns(target_lang)
         logfileVerif = typing.cast(IO[bytes], proc.stdout)
         while True:
             line = logfileVerif.readline().decode("utf-8")
@@ -303,19 +306,19 @@ def synthesize(
             elif "sygus-candidate" in line:
                 print("Current PS and INV Guess:", line.strip())
                 candidatesSMT, candidateDict = generateCandidates(
-                    invAndPs, line, funName, returnType
+                    inv_and_ps, line, funName, returnType
                 )
             elif line.strip() == "(":
-                fnsType = generate_types(targetLang)
+                fnsType = generate_types(target_lang)
 
                 resultVerify, verifyLogs = verify_synth_result(
                     basename,
-                    targetLang,
+                    target_lang,
                     vars,
                     preds,
                     vc,
-                    loopAndPsInfo,
-                    cvcPath,
+                    loop_and_ps_info,
+                    cvc_path,
                     synthDir,
                     candidatesSMT,
                     candidateDict,
-- 
2.43.0


From cb2395733a968127dd8275c6fa4592dc1158694f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 059/106] fix: cvc5 synthesis ends when cvc5 has nothing more
 to say

---
 metalift/synthesize_cvc5.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 0077a3c..5b2ae34 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -298,17 +298,18 @@ def synthesize(
 
     try:
         funName, returnType = extractFuns(target_lang)
+        candidatesSMT: typing.List[FnDeclRecursive] = []
         logfileVerif = typing.cast(IO[bytes], proc.stdout)
         while True:
             line = logfileVerif.readline().decode("utf-8")
-            if "fail" in line:
+            if line == "" or line.strip() == "fail":
                 break
             elif "sygus-candidate" in line:
                 print("Current PS and INV Guess:", line.strip())
                 candidatesSMT, candidateDict = generateCandidates(
                     inv_and_ps, line, funName, returnType
                 )
-            elif line.strip() == "(":
+            elif line.strip() == "(" and len(candidatesSMT) > 0:
                 fnsType = generate_types(target_lang)
 
                 resultVerify, verifyLogs = verify_synth_result(
@@ -340,10 +341,6 @@ def synthesize(
                     )
                     print("\n".join(verifyLogs))
                     raise VerificationFailed("Verification failed")
-            else:
-                code = proc.poll()
-                if code is not None and code > 0:
-                    break
 
         raise SynthesisFailed("SyGuS failed")
     finally:
-- 
2.43.0


From 49ceafb37d2f8fdf52bd5d48ec51c1c4746d26da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 060/106] fix: read n-ary operators, div, mod and lets with
 several bindings from cvc5

---
 metalift/synthesize_cvc5.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 5b2ae34..29981ea 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -14,6 +14,7 @@ from metalift.ir import (
     Bool,
     BoolLit,
     Call,
+    Div,
     Eq,
     Expr,
     FnDecl,
@@ -26,6 +27,7 @@ from metalift.ir import (
     Ite,
     Le,
     Lt,
+    Mod,
     Mul,
     Not,
     ObjectT,
@@ -118,6 +120,8 @@ def toExpr(
         "<=": Le,
         ">": Gt,
         ">=": Ge,
+        "div": Div,
+        "mod": Mod,
         "and": And,
         "or": Or,
         "=>": Implies,
@@ -125,10 +129,14 @@ def toExpr(
     expr_uni = {"not": Not}
     if isinstance(ast, list):
         if ast[0] in expr_bi.keys():
-            if len(ast) == 3:
+            if len(ast) == 3 or (
+                len(ast) > 3 and ast[0] in ("+", "*", "and", "or")
+            ):
                 return expr_bi[ast[0]](
-                    toExpr(ast[1], funName, returnType, varType, letVars),
-                    toExpr(ast[2], funName, returnType, varType, letVars),
+                    *[
+                        toExpr(arg, funName, returnType, varType, letVars)
+                        for arg in ast[1:]
+                    ]
                 )
             elif len(ast) == 2 and ast[0] == "-":
                 return expr_bi[ast[0]](
@@ -153,9 +161,10 @@ def toExpr(
             )
         elif ast[0] == "let":
             newLetVars = dict(letVars)
-            newLetVars[ast[1][0][0]] = toExpr(
-                ast[1][0][1], funName, returnType, varType, letVars
-            )
+            for let_var, let_value in ast[1]:
+                newLetVars[let_var] = toExpr(
+                    let_value, funName, returnType, varType, letVars
+                )
             return toExpr(ast[2], funName, returnType, varType, newLetVars)
         elif ast[0] == "ite":
             return Ite(
-- 
2.43.0


From 88308c0dc267eca12e5cb71103f3986ea0d2ab16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 061/106] fix: find the candidates of a SyGuS answer by the
 functions' own names

---
 metalift/synthesize_cvc5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 29981ea..0cd4ef4 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -86,8 +86,8 @@ def generateCandidates(
     ast = generateAST(line)
     for ce in invAndPs:
         name = ce.name()
-        for a in ast[0]:
-            if name in a:
+        for a in ast[0][1:]:
+            if a[0] == name:
                 args = {}
                 for v in ce.arguments():
                     args[v.args[0]] = v.type
-- 
2.43.0


From b27f2c9624dc3aa5699055b52937df9013cb9ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:18 +0000
Subject: [PATCH 062/106] fix: read tuples of one element and functions without
 parameters from cvc5

---
 metalift/synthesize_cvc5.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/metalift/synthesize_cvc5.py b/metalift/synthesize_cvc5.py
index 0cd4ef4..d82e802 100644
--- a/metalift/synthesize_cvc5.py
+++ b/metalift/synthesize_cvc5.py
@@ -187,11 +187,7 @@ def toExpr(
                     )
                 return Call(
                     "tuple%d" % (len(ast) - 1),
-                    make_tuple_type(
-                        arg_eval[0].type,
-                        arg_eval[1].type,
-                        *[e.type for e in arg_eval[2:]],
-                    ),
+                    make_tuple_type(*[e.type for e in arg_eval]),
                     *arg_eval,
                 )
         elif ast[0] == "as" and ast[1] == "set.empty":
@@ -233,6 +229,8 @@ def toExpr(
             return BoolLit(True)
         elif ast in letVars:
             return letVars[ast]
+        elif ast not in varType and ast in funName:
+            return Call(ast, get_fn_return_type(returnType[funName.index(ast)]))
         else:
             return Var(ast, varType[ast])
 
-- 
2.43.0


From f59e86529769e439f54b486a0e97fd715d804173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:10 +0000
Subject: [PATCH 063/106] fix: optimize_vc_equality works with Rosette

---
 metalift/synthesize_rosette.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/synthesize_rosette.py b/metalift/synthesize_rosette.py
index 6aa84be..6408bec 100644
--- a/metalift/synthesize_rosette.py
+++ b/metalift/synthesize_rosette.py
@@ -599,9 +599,9 @@ def synthesize(
         while True:
             expr_count: Dict[str, int] = {}
 
-            vc.src.count_variable_uses(expr_count)  # type: ignore
+            vc.count_variable_uses(expr_count)
 
-            vc = vc.src.optimize_useless_equality(expr_count, new_vars)  # type: ignore
+            vc = vc.optimize_useless_equality(expr_count, new_vars)
 
             if vc.toSMT() == prev_vc:
                 break  # run to fixpoint
-- 
2.43.0


From fc002e9ab7bcfa1996e6fc1f8db7d9e245c833fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:44 +0000
Subject: [PATCH 064/106] fix: loops of the LLVM frontend havoc to fresh
 variables

---
 metalift/frontend/llvm.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 6cdb40b..a4be5bf 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1016,6 +1016,19 @@ class VCVisitor:
         pointer_havocs.sort(key=lambda obj: obj.var_name())
         return primitive_havocs, pointer_havocs
 
+    def fresh_value(self, havoc: Object) -> Object:
+        # An unknown value must be unrelated to the values the variable had before, which the
+        # preconditions and other variables may still refer to, so it needs a name of its own.
+        used = {var.name() for var in self.var_tracker.all()}
+        used.update(arg.var_name() for arg in self.fn_args)
+        name, num = havoc.var_name(), 0
+        while name in used:
+            num += 1
+            name = f"{havoc.var_name()}_{num}"
+        value = create_object(havoc.type, name)
+        self.driver.add_var_object(value)
+        return value
+
     # Functions to step through the blocks
     def preprocess(self, block: ValueRef) -> None:
         """Preprocess the entry block of the entire function. This includes setting up the postcondition, as well as writing all the arguments to the state of the entry block."""
@@ -1182,11 +1195,12 @@ class VCVisitor:
         for loop in header_loops:
             primitive_havocs, pointer_havocs = self.get_havocs(block.name, loop)
             for havoc in primitive_havocs:
-                self.write_var_to_block(block.name, havoc.var_name(), havoc)
+                value = self.fresh_value(havoc)
+                self.write_var_to_block(block.name, havoc.var_name(), value)
             for havoc in pointer_havocs:
-                self.store_var_to_block(block.name, havoc.var_name(), havoc)
+                value = self.fresh_value(havoc)
+                self.store_var_to_block(block.name, havoc.var_name(), value)
             havocs = primitive_havocs + pointer_havocs
-            self.driver.add_var_objects(havocs)
             inv_name = f"{self.fn_name}_inv{self.loops.index(loop)}"
 
             # TODO: extract this logic to be better
-- 
2.43.0


From e196fd3dc92fb0a9ee4a086d2014cf4127a3a5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:41 +0000
Subject: [PATCH 065/106] fix: return the current value of the sret argument

---
 metalift/frontend/llvm.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index a4be5bf..f8dde57 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1418,14 +1418,12 @@ class VCVisitor:
         ret_void = len(ops) == 0
         ret_val: Optional[Object] = None
         if ret_void and self.fn_sret_arg is not None:
-            # We have to fetch the current type because the return type might have changed from the
-            # beginning.
+            # This is also the current type, which might have changed from the beginning.
             # This is because for list type, at first we assume it's an int list. We only infer the
             # corret type later on after we parse the functions.
-            ret_val_type = self.load_var_from_block(
+            ret_val = self.load_var_from_block(
                 block_name, self.fn_sret_arg.var_name()
-            ).type
-            ret_val = create_object(ret_val_type, self.fn_sret_arg.var_name())
+            )
         elif not ret_void:
             if not ops[0].type.is_pointer:
                 ret_val = self.read_operand_from_block(block_name, ops[0])
-- 
2.43.0


From 79952bb09326f97ad6c2232867bfa92031e039a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:41 +0000
Subject: [PATCH 066/106] fix: use the default of the invariant grammars a
 driver passes

---
 metalift/frontend/llvm.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index f8dde57..34c935d 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1029,6 +1029,13 @@ class VCVisitor:
         self.driver.add_var_object(value)
         return value
 
+    def get_inv_grammar(self, inv_name: str) -> Optional[InvGrammar]:
+        # Unlike get, this also finds the default value of a defaultdict
+        try:
+            return self.inv_grammars[inv_name]
+        except KeyError:
+            return None
+
     # Functions to step through the blocks
     def preprocess(self, block: ValueRef) -> None:
         """Preprocess the entry block of the entire function. This includes setting up the postcondition, as well as writing all the arguments to the state of the entry block."""
@@ -1209,7 +1216,7 @@ class VCVisitor:
                 in_scope_objs.append(create_object(var_obj.type, var_name))
             for var_name, var_obj in blk_state.pointer_vars.items():
                 in_scope_objs.append(create_object(var_obj.type, var_name))
-            inv_grammar = self.inv_grammars.get(inv_name)
+            inv_grammar = self.get_inv_grammar(inv_name)
             if inv_grammar is not None:
                 in_scope_objs = [
                     obj
@@ -1246,7 +1253,7 @@ class VCVisitor:
                 in_scope_objs.append(create_object(var_obj.type, var_name))
             for var_name, var_obj in blk_state.pointer_vars.items():
                 in_scope_objs.append(create_object(var_obj.type, var_name))
-            inv_grammar = self.inv_grammars.get(inv_name)
+            inv_grammar = self.get_inv_grammar(inv_name)
             if inv_grammar is not None:
                 in_scope_objs = [
                     obj
-- 
2.43.0


From 1513bffe1e6a92f55d9b388a2fec367625f5184d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:03 +0000
Subject: [PATCH 067/106] fix: reject calls that the LLVM frontend has no model
 for

---
 metalift/frontend/llvm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 34c935d..e9d4d3f 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1507,6 +1507,9 @@ class VCVisitor:
             ret_type = parse_type_ref_to_obj(o.type)
             ret_val = call(fn_name, ret_type, *ops_objs)
             self.write_or_store_operand_to_block(block_name, o, ret_val)
+        elif not fn_name.startswith("~"):
+            # The call may change anything it can reach, only destructors can be skipped
+            raise Exception(f"Unsupported function call {fn_name}")
 
     def visit_trunc_instruction(self, block_name: str, o: ValueRef) -> None:
         ops = list(o.operands)
-- 
2.43.0


From aeb5260a3e250941ea70d9b66ae68ba21e8e3d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:03 +0000
Subject: [PATCH 068/106] fix: reject writes through pointers in the LLVM
 frontend

---
 metalift/frontend/llvm.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index e9d4d3f..725dcb2 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -213,6 +213,8 @@ def vector_append(
     *args: ValueRef,
 ) -> ReturnValue:
     assert len(args) == 2
+    if not is_variable(args[0]):
+        raise Exception(f"Cannot append to a vector through a pointer: {args[0]}")
     assign_var_name: str = args[0].name
 
     lst = state.read_or_load_operand(args[0])
@@ -423,6 +425,23 @@ RawLoopInfo = NamedTuple(
 )
 
 
+# Whether an operand is the storage of a variable itself, rather than a pointer that was loaded
+# or computed. Pointers are modeled as copies of what they point to, so the variable would not
+# see a write through a pointer, and the pointer would not see a write to the variable.
+def is_variable(op: ValueRef) -> bool:
+    return get_defining_opcode(op) in {None, "alloca"}
+
+
+def is_local_variable(op: ValueRef) -> bool:
+    return get_defining_opcode(op) == "alloca"
+
+
+# The opcode of the instruction that computes an operand, if there is one
+def get_defining_opcode(op: ValueRef) -> Optional[str]:
+    match = re.match("%\\S+ = (\\w+)", str(op).strip())
+    return None if match is None else match.group(1)
+
+
 class LoopInfo:
     header: Block
     body: List[Block]
@@ -1311,6 +1330,10 @@ class VCVisitor:
 
     def visit_store_instruction(self, block_name: str, o: ValueRef) -> None:
         ops = list(o.operands)
+        if not is_variable(ops[1]):
+            raise Exception(f"Cannot store through a pointer: {o}")
+        if is_local_variable(ops[0]):
+            raise Exception(f"Cannot store the address of a variable: {o}")
         value_to_store = None
         if not ops[0].type.is_pointer:
             value_to_store = self.read_operand_from_block(block_name, ops[0])
-- 
2.43.0


From 5f88a99fadd2dccf81d6964406199bf01ecb8fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:40 +0000
Subject: [PATCH 069/106] fix: appending to a vector keeps its type

---
 metalift/frontend/llvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 725dcb2..978a70c 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -228,7 +228,7 @@ def vector_append(
 
     assign_val = call(
         fn_name,
-        parse_type_ref_to_obj(args[0].type),
+        lst.type,
         lst,
         value,
     )
-- 
2.43.0


From 61d8642fb1d6e1379995b761a5849d0d6d0f6149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 070/106] fix: listConcat has a model but was not registered

---
 metalift/frontend/llvm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 978a70c..6982fd3 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -390,6 +390,7 @@ fn_models: Dict[str, Callable[..., ReturnValue]] = {
     "listLength": list_length,
     "listAppend": list_append,
     "listGet": list_get,
+    "listConcat": list_concat,
     # vector methods
     "vector": new_vector,
     "size": vector_length,
-- 
2.43.0


From 05ea22ca1d0948c8e14d4827a5def0a882c3c604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:58 +0000
Subject: [PATCH 071/106] fix: the sret argument keeps its name when a loop
 havocs it

---
 metalift/frontend/llvm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 6982fd3..ce53fb7 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1041,6 +1041,8 @@ class VCVisitor:
         # preconditions and other variables may still refer to, so it needs a name of its own.
         used = {var.name() for var in self.var_tracker.all()}
         used.update(arg.var_name() for arg in self.fn_args)
+        if self.fn_sret_arg is not None:
+            used.add(self.fn_sret_arg.var_name())
         name, num = havoc.var_name(), 0
         while name in used:
             num += 1
-- 
2.43.0


From e24cd618eafb80a08c049022ca483deb16be0e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:30 +0000
Subject: [PATCH 072/106] fix: listAppend does not modify its argument

listAppend returns a new list; its model appended to the argument object in
place, so every variable holding that list changed as well.
---
 metalift/frontend/llvm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index ce53fb7..45b39b1 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -153,8 +153,9 @@ def list_append(
     assert len(args) == 2
     lst = state.read_or_load_operand(args[0])
     value = state.read_or_load_operand(args[1])
+    # append works in place, listAppend does not
     return ReturnValue(
-        lst.append(value),  # type: ignore
+        copy.copy(lst).append(value),  # type: ignore
         None,
     )
 
-- 
2.43.0


From c014f4a64db2990df781e24c04f143b610b73892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:56 +0000
Subject: [PATCH 073/106] fix: functions of one LLVM driver do not assume each
 other's returns

The summary fact of every return was added to the driver's preconditions
without the path condition of that return and over the first function's
variables; the next function analyzed on the driver was only checked for
inputs that satisfy it.  Nothing refers to the fact: calling a function of
this frontend yields no value.
---
 metalift/frontend/llvm.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index 45b39b1..d4b1ac5 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1490,7 +1490,6 @@ class VCVisitor:
             blk_state.asserts.append(implies(and_objects(*blk_state.precond), ps))
         else:
             blk_state.asserts.append(ps)
-        self.driver.postconditions.append(ps)
         print(f"ps: {blk_state.asserts[-1]}")
         blk_state.has_returned = True
 
-- 
2.43.0


From 8dc9cea520b1f5c9ae11cf843d3ca72872f696f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 074/106] fix: a loop block whose label contains "latch"
 belongs to the body

Blocks were taken for latches if their name contained the word, so what they
modify was not havocked.
---
 metalift/analysis.py      | 2 +-
 metalift/frontend/llvm.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metalift/analysis.py b/metalift/analysis.py
index 2d11089..23d25c3 100644
--- a/metalift/analysis.py
+++ b/metalift/analysis.py
@@ -146,7 +146,7 @@ def parseLoops(filename: str, fnName: str, log: bool = True) -> List[LoopInfo]:
                     exits.append(name)
                 if "<latch>" in b:
                     latches.append(name)
-                if "<header>" not in b and "<exiting>" not in b and "latch" not in b:
+                if "<header>" not in b and "<exiting>" not in b and "<latch>" not in b:
                     body.append(name)
 
             loops.append(LoopInfo(header, body, exits, latches))
diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index d4b1ac5..cf44baa 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -552,7 +552,7 @@ def parse_loops(loops_filepath: str, raw_fn_name: str) -> List[RawLoopInfo]:
                     exit_names.append(name)
                 if "<latch>" in b:
                     latch_names.append(name)
-                if "<header>" not in b and "<exiting>" not in b and "latch" not in b:
+                if "<header>" not in b and "<exiting>" not in b and "<latch>" not in b:
                     body_names.append(name)
             if len(header_names) > 1:
                 raise Exception(f"Detected more than one header block! {header_names}")
-- 
2.43.0


From fa71578bf2fd34a080268fbc3c69aa2a8cce6a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:05 +0000
Subject: [PATCH 075/106] fix: addEmptyBlock gives each new block its own phi
 entry when both successors are one block

---
 llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp b/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp
index dcb6007..68f7288 100644
--- a/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp
+++ b/llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp
@@ -42,6 +42,17 @@ namespace
       return bb;
     }
 
+    // PHI nodes have one entry per edge: if both successors are the same block, each new block takes one of them
+    void replaceOnePhiUse(BasicBlock * succ, BasicBlock * oldPred, BasicBlock * newPred)
+    {
+      for (auto &phi : succ->phis())
+      {
+        int i = phi.getBasicBlockIndex(oldPred);
+        if (i >= 0)
+          phi.setIncomingBlock(i, newPred);
+      }
+    }
+
     virtual bool runOnFunction(Function &F)
     {
       std::map<BranchInst*, BranchInst*> toReplace;
@@ -57,8 +68,8 @@ namespace
               BasicBlock * trueBB = createBB(F, op->getSuccessor(0));
               BasicBlock * falseBB = createBB(F, op->getSuccessor(1));
 
-              op->getSuccessor(0)->replacePhiUsesWith(&B, trueBB);
-              op->getSuccessor(1)->replacePhiUsesWith(&B, falseBB);
+              replaceOnePhiUse(op->getSuccessor(0), &B, trueBB);
+              replaceOnePhiUse(op->getSuccessor(1), &B, falseBB);
 
               BranchInst *br = BranchInst::Create(trueBB, falseBB, op->getCondition());
               toReplace.insert(std::pair<BranchInst*, BranchInst*>(op, br));
-- 
2.43.0


From c249de4219362a4d390f5170b4dfb4daa5bc4add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 076/106] fix: True and False in LLM solutions are literals,
 not variables

---
 llmlift_scripts/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 05ee5c5..11e0403 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -376,6 +376,11 @@ def mypy_node_to_ir(
                         f"Expected return type {func_type.ret_type} but got {types[node]} for {func_name}"
                     )
                 return call(func_name, ret_ir_type, *arg_exprs).src
+        elif isinstance(node, NameExpr) and node.fullname in {
+            "builtins.True",
+            "builtins.False",
+        }:
+            return create_object(Bool, node.name == "True").src
         elif isinstance(node, NameExpr):
             # Nothing can go wrong with a name expression (which are basically variables)
             ir_type = mypy_type_to_ir_type(types[node])
-- 
2.43.0


From f55dc999748a6accc5084bf285b874d83927fa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 077/106] fix: list literals in LLM solutions keep their
 elements

---
 llmlift_scripts/parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 11e0403..0778228 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -440,7 +440,13 @@ def mypy_node_to_ir(
             return create_object(Int, node.value).src
         elif isinstance(node, ListExpr):
             node_type = mypy_type_to_ir_type(types[node])
-            return node_type.empty(get_args(node_type)[0]).src
+            list_object = node_type.empty(get_args(node_type)[0])
+            for item in node.items:
+                item_expr = parse_node(item)
+                list_object = list_object.append(
+                    create_object(item_expr.type, item_expr)
+                )
+            return list_object.src
         elif isinstance(node, ConditionalExpr):
             return ite(
                 parse_node(node.cond),
-- 
2.43.0


From 2261e3722d554703f52cbc6632388da43541ff03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 078/106] fix: slices with a stride in LLM solutions are
 rejected

---
 llmlift_scripts/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 0778228..57d7b8a 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -490,6 +490,9 @@ def mypy_node_to_ir(
             base_expr = parse_node(node.base)
             base_object = create_object(base_expr.type, base_expr)
             if isinstance(node.index, SliceExpr):
+                if node.index.stride is not None:
+                    raise Exception("Slices with a stride are not supported")
+
                 # Parse begin index
                 if node.index.begin_index is None:
                     begin_index = None
-- 
2.43.0


From 4521115ecdeb04089ecf25d12175403443a4f1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 079/106] fix: keyword and star arguments in LLM solutions are
 rejected

---
 llmlift_scripts/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 57d7b8a..3618abd 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -9,6 +9,7 @@ from mypy import build
 from mypy.defaults import PYTHON3_VERSION
 from mypy.modulefinder import BuildSource
 from mypy.nodes import (
+    ARG_POS,
     AssignmentStmt,
     Block,
     CallExpr,
@@ -324,6 +325,12 @@ def mypy_node_to_ir(
                 ret_ir_type = func_ir_type.return_type(get_args(func_ir_type))
                 arguments_ir_types = func_ir_type.argument_types(get_args(func_ir_type))
 
+                # Arguments are matched by position
+                if any(kind != ARG_POS for kind in node.arg_kinds):
+                    raise Exception(
+                        f"Only positional arguments are supported for function {func_name}"
+                    )
+
                 # Check number of arguments
                 actual_num_args = len(node.args)
                 expected_num_args = len(func_type.arg_names)
-- 
2.43.0


From 9b01700d2a9a8d72540a411c5984466531a874fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 080/106] fix: LLM solutions without argument type information
 are rejected

---
 llmlift_scripts/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 3618abd..c7ffcb2 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -181,7 +181,7 @@ def mypy_parse(
 
         arg_ir_types = func_ir_type.argument_types(get_args(func_ir_type))
         ret_ir_type = func_ir_type.return_type(get_args(func_ir_type))
-        if any(arg_ir_types) is None:
+        if any(arg_ir_type is None for arg_ir_type in arg_ir_types):
             raise Exception(
                 f"Function {func_def.name} has arguments with no type information"
             )
-- 
2.43.0


From 6f91065e915b5e246c2af161b13bc42367915489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 081/106] fix: the signatures of the DSL are read again when
 the DSL changes

---
 llmlift_scripts/parser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index c7ffcb2..c3e9e9b 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -118,10 +118,10 @@ def _get_func_def_arg_names(func_def: FuncDef) -> list[str]:
 
 
 @lru_cache(maxsize=None)
-def get_dsl_func_defs() -> List[FuncDef]:
+def get_dsl_func_defs(dsl_code: str) -> List[FuncDef]:
     """
-    Get the function definitions of the python dsl module.
-    This is cached because the dsl file never changes.
+    Get the function definitions of the python dsl module, whose content is dsl_code.
+    This is cached because the dsl file rarely changes.
     """
     options = Options()
     options.incremental = False  # turn off caching of previously typed results
@@ -174,7 +174,8 @@ def mypy_parse(
 
     # We reject functions that don't have type information in the signature
     func_sign: dict[str, tuple[Type | None, ObjectT | None, list[str]]] = {}
-    for func_def in [*target_func_defs, *get_dsl_func_defs()]:
+    dsl_code = (LLMLIFT_SCRIPTS_PATH / "dsl.py").read_text()
+    for func_def in [*target_func_defs, *get_dsl_func_defs(dsl_code)]:
         func_ir_type = mypy_type_to_ir_type(func_def.type)
         if func_ir_type is None:
             raise Exception(f"Function {func_def.name} has no type information")
-- 
2.43.0


From 93f340486e0a15965cfd5ea5b353d8153e45a914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 082/106] fix: calls of the functions of an LLM solution follow
 the sorted order of their parameters

---
 llmlift_scripts/parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index c3e9e9b..030601f 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -239,6 +239,7 @@ def mypy_node_to_ir(
     in_calls: list[tuple[str, str]],
     lambda_exprs: dict[Expr, str],
     arg_name_to_count: dict[str, int],
+    target_func_names: list[str],
 ) -> Expr:
     def parse_node(node: Node) -> Expr:
         # TODO: add support for non-lambda inline functions
@@ -383,6 +384,10 @@ def mypy_node_to_ir(
                     raise Exception(
                         f"Expected return type {func_type.ret_type} but got {types[node]} for {func_name}"
                     )
+                if func_name in target_func_names:
+                    # Same order as the sorted variables of its definition
+                    order = sorted(range(len(arg_names)), key=lambda i: arg_names[i])
+                    arg_exprs = [arg_exprs[i] for i in order]
                 return call(func_name, ret_ir_type, *arg_exprs).src
         elif isinstance(node, NameExpr) and node.fullname in {
             "builtins.True",
@@ -559,6 +564,7 @@ def check_solution(
     fn_decls: list[FnDeclRecursive] = []
     in_calls: list[tuple[str, str]] = []
 
+    target_func_names = [func_def.name for func_def in target_func_defs]
     for target_func_def in target_func_defs:
         mypy_node_to_ir(
             target_func_def,
@@ -568,6 +574,6 @@ def check_solution(
             in_calls,
             lambda_exprs,
             arg_name_to_count,
+            target_func_names,
         )
-    target_func_names = [func_def.name for func_def in target_func_defs]
     return target_func_names, fn_decls, in_calls
-- 
2.43.0


From 3d60329aed408e625a0b49ac5a13efc8f65ffc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 083/106] fix: a DSL function passed by name in an LLM solution
 is not defined a second time

---
 llmlift_scripts/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 030601f..c6d752a 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -368,13 +368,17 @@ def mypy_node_to_ir(
                                 lambda_exprs[arg_expr] = arg_fn_name
                             arg_expr = copy.deepcopy(arg_expr)
                             arg_expr.set_name(arg_fn_name)
+                            fn_decls.append(arg_expr)
                         elif isinstance(arg, NameExpr):
                             arg_fn_name = cast(NameExpr, arg).name
+                            if arg_fn_name in target_func_names:
+                                raise Exception(
+                                    f"Function {arg_fn_name} cannot be passed as an argument"
+                                )
                         else:
                             raise Exception(
                                 f"Function argument must be a lambda expression or a function name, but {arg.name} is of type {arg.type}"
                             )
-                        fn_decls.append(arg_expr)
                         in_calls.append((func_name, arg_fn_name))
                     arg_exprs.append(arg_expr)
 
-- 
2.43.0


From 6297a41b5f4121cc555ee1eb5aa45e475de39ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 084/106] fix: LLM solutions that call anything but a named
 function are rejected

---
 llmlift_scripts/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index c6d752a..1bffade 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -393,6 +393,8 @@ def mypy_node_to_ir(
                     order = sorted(range(len(arg_names)), key=lambda i: arg_names[i])
                     arg_exprs = [arg_exprs[i] for i in order]
                 return call(func_name, ret_ir_type, *arg_exprs).src
+            else:
+                raise Exception("Only calls of named functions are supported")
         elif isinstance(node, NameExpr) and node.fullname in {
             "builtins.True",
             "builtins.False",
-- 
2.43.0


From bc165b9bb8403f189d6df166ef2f445fc5cb53fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 085/106] fix: LLM solutions that use module-level variables
 are rejected

---
 llmlift_scripts/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 1bffade..c5876a8 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -10,6 +10,7 @@ from mypy.defaults import PYTHON3_VERSION
 from mypy.modulefinder import BuildSource
 from mypy.nodes import (
     ARG_POS,
+    GDEF,
     AssignmentStmt,
     Block,
     CallExpr,
@@ -31,6 +32,7 @@ from mypy.nodes import (
     SliceExpr,
     UnaryExpr,
 )
+from mypy.nodes import Var as MypyVar
 from mypy.options import Options
 from mypy.types import AnyType, CallableType, Instance
 from mypy.types import Type as MypyType
@@ -401,7 +403,9 @@ def mypy_node_to_ir(
         }:
             return create_object(Bool, node.name == "True").src
         elif isinstance(node, NameExpr):
-            # Nothing can go wrong with a name expression (which are basically variables)
+            if node.kind == GDEF and isinstance(node.node, MypyVar):
+                raise Exception(f"Global variable {node.name} is not supported")
+            # Nothing else can go wrong with a name expression (which are basically variables)
             ir_type = mypy_type_to_ir_type(types[node])
             return create_object(ir_type, node.name).src
         # TODO: check not
-- 
2.43.0


From 5488bd8a8c55260fa6d6a9f846345c4864f9f6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 086/106] fix: LLM solutions that redefine a DSL function are
 rejected

---
 llmlift_scripts/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index c5876a8..0ca2ec7 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -177,7 +177,12 @@ def mypy_parse(
     # We reject functions that don't have type information in the signature
     func_sign: dict[str, tuple[Type | None, ObjectT | None, list[str]]] = {}
     dsl_code = (LLMLIFT_SCRIPTS_PATH / "dsl.py").read_text()
-    for func_def in [*target_func_defs, *get_dsl_func_defs(dsl_code)]:
+    dsl_func_defs = get_dsl_func_defs(dsl_code)
+    dsl_func_names = {func_def.name for func_def in dsl_func_defs}
+    for func_def in target_func_defs:
+        if func_def.name in dsl_func_names:
+            raise Exception(f"Function {func_def.name} is already defined")
+    for func_def in [*target_func_defs, *dsl_func_defs]:
         func_ir_type = mypy_type_to_ir_type(func_def.type)
         if func_ir_type is None:
             raise Exception(f"Function {func_def.name} has no type information")
-- 
2.43.0


From cd11df5995ee3785cc2d219f447aa879534deca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 087/106] fix: booleans that mypy narrows to a literal are
 booleans in LLM solutions

---
 llmlift_scripts/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 0ca2ec7..93ab25c 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -34,7 +34,7 @@ from mypy.nodes import (
 )
 from mypy.nodes import Var as MypyVar
 from mypy.options import Options
-from mypy.types import AnyType, CallableType, Instance
+from mypy.types import AnyType, CallableType, Instance, LiteralType
 from mypy.types import Type as MypyType
 from mypy.types import TypeList, UnboundType
 
@@ -107,6 +107,8 @@ def mypy_type_to_ir_type(mypy_type: Optional[MypyType]) -> Optional[ObjectT]:
         arg_types = (mypy_type_to_ir_type(arg) for arg in mypy_type.arg_types)
         ret_type = mypy_type_to_ir_type(mypy_type.ret_type)
         return make_fn_type(ret_type, *arg_types)
+    elif isinstance(mypy_type, LiteralType):
+        return mypy_type_to_ir_type(mypy_type.fallback)
     elif isinstance(mypy_type, AnyType):
         return None
     elif mypy_type is None:
-- 
2.43.0


From f6d8e67dfa7cb24df8c2ee45e92472b2dbe0b566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 088/106] fix: list concatenation in LLM solutions is an
 expression

---
 llmlift_scripts/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llmlift_scripts/parser.py b/llmlift_scripts/parser.py
index 93ab25c..87da3b7 100644
--- a/llmlift_scripts/parser.py
+++ b/llmlift_scripts/parser.py
@@ -440,7 +440,7 @@ def mypy_node_to_ir(
                 and not is_nested_list_type(right_expr.type)
             ):
                 if op == "+":
-                    return call("list_concat", List[Int], left_expr, right_expr)
+                    return call("list_concat", List[Int], left_expr, right_expr).src
                 else:
                     raise Exception(
                         f"Binary operation is not supported {op} on types {types[node.left]} and {types[node.right]}"
-- 
2.43.0


From e338ebdfdcae8f4da7ffa382be9b95fbe58f603c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 089/106] fix: LLM solutions are only accepted if cvc5 answers
 unsat

---
 llmlift_scripts/synthesis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index a08cf27..8acaebe 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -296,7 +296,7 @@ def verify_benchmark_smt(
     dsl_fns: list[FnDecl | FnDeclRecursive],
     vc: Expr,
     dsl_fn_name_to_axioms: dict[str, list[Axiom]],
-) -> None:
+) -> bool:
     """Verify the benchmark using SMT."""
     SYNTHESIS_LOGS_DIR.mkdir(exist_ok=True)
     verify_file = SYNTHESIS_LOGS_DIR / f"verify_{benchmark_name}.smt"
@@ -341,7 +341,7 @@ def verify_benchmark_smt(
         proc_output = verify_proc.stdout
         result_verify = proc_output.decode("utf-8").split("\n")[0]
         print(result_verify)
-        return True
+        return result_verify == "unsat"
 
 
 def run_llm_synthesis_algorithm(
-- 
2.43.0


From 5729b3e2c1a61c3caeb9533d9c72ab728015b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 090/106] fix: VerificationMethod.NONE accepts the first parsed
 solution

---
 llmlift_scripts/synthesis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index 8acaebe..657307e 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -549,6 +549,7 @@ def run_llm_synthesis_algorithm(
                 )
             elif verification_method == VerificationMethod.NONE:
                 print("Skpping verification...")
+                verified = True
             else:
                 raise Exception(
                     f"Unsupported verification method {verification_method}"
-- 
2.43.0


From 5ed53b268b189ef347b5cdb27724cbf0a5ce736b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 091/106] fix: solutions of Claude are one program like those
 of GPT

---
 llmlift_scripts/synthesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index 657307e..691ff6c 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -581,7 +581,7 @@ def get_solution_from_claude(messages: list[dict[str, Any]]) -> str:
         messages=messages,
     )
     raw_solutions = extract_all_python_functions(message.content[0].text)
-    return [replace_ite(raw_solution) for raw_solution in raw_solutions]
+    return replace_ite("\n\n".join(raw_solutions))
 
 
 def get_solution_from_gpt(messages: list[dict[str, Any]]) -> str:
-- 
2.43.0


From cfa304c6f3ee512caa5190e5eec4b60613eac345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 092/106] fix: Gemini replies with no or several code blocks
 are one program like those of GPT

---
 llmlift_scripts/synthesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index 691ff6c..132630d 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -623,7 +623,7 @@ def get_solution_from_gemini(messages: list[dict[str, Any]]) -> str:
 
     chat_session = model.start_chat(history=messages_copy[:-1])
     response = chat_session.send_message(messages_copy[-1]["parts"])
-    raw_solution = extract_all_python_functions(response.text)[0]
+    raw_solution = "\n\n".join(extract_all_python_functions(response.text))
     extracted_solution = replace_ite(raw_solution)
     return extracted_solution
 
-- 
2.43.0


From 56d7802aaddd4bf5f22ebe1f8853df5977d7696d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:07 +0000
Subject: [PATCH 093/106] fix: LLM solutions must be a function with the name
 and parameters of the benchmark

---
 llmlift_scripts/synthesis.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index 132630d..ee6991d 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -183,6 +183,27 @@ def process_dsl_fns_for_rosette(
     return final_dsl_fns
 
 
+def check_ps_signature(
+    driver: Driver,
+    benchmark_name: str,
+    ps_fn_decls: list[FnDecl | FnDeclRecursive],
+) -> None:
+    """The PS function is applied to the arguments of the benchmark by position, in sorted order, so it needs to have the same parameter names."""
+    predicate = driver.pred_tracker.predicates[benchmark_name]
+    expected_args = [
+        arg.var_name() for arg in predicate.args[: -len(predicate.writes)]
+    ]
+    for fn_decl in ps_fn_decls:
+        if fn_decl.name() == benchmark_name:
+            args = [arg.name() for arg in fn_decl.arguments()]
+            if args != expected_args:
+                raise Exception(
+                    f"Function {benchmark_name} must have parameters {expected_args} but has {args}"
+                )
+            return
+    raise Exception(f"Function {benchmark_name} not found")
+
+
 def process_synthesized_fn_decls(
     *,
     output_var: Object,
@@ -403,6 +424,7 @@ def run_llm_synthesis_algorithm(
                 lambda_exprs=lambda_exprs,
                 arg_name_to_count=arg_name_to_count,
             )
+            check_ps_signature(driver, benchmark_name, ps_fn_decls)
             print("Passed the parser, continuing to invariant generation")
         except Exception as e:
             print("Failed to pass the parser", e)
@@ -416,7 +438,11 @@ def run_llm_synthesis_algorithm(
         )
 
         # Generate the invariant
-        ps_fn_decl = next(fn_decl for fn_decl in ps_fn_decls if "ps" in fn_decl.name())
+        ps_fn_decl = next(
+            fn_decl
+            for fn_decl in ps_fn_decls
+            if fn_decl.name() == f"{benchmark_name}_ps"
+        )
         inv_prompt = get_inv_prompt(
             source_code=source_code,
             ps_fn_decl=ps_fn_decl,
-- 
2.43.0


From 79fbb53857dacf79932edb8ff9524dd1df87f37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:26 +0000
Subject: [PATCH 094/106] fix: replace_ite keeps the arguments of nested calls
 and of operators around ite

---
 llmlift_scripts/utils.py | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/llmlift_scripts/utils.py b/llmlift_scripts/utils.py
index ec4fd2b..07b46d5 100644
--- a/llmlift_scripts/utils.py
+++ b/llmlift_scripts/utils.py
@@ -35,15 +35,32 @@ def extract_all_python_functions(s: str) -> list[str]:
 
 def replace_ite(ps_sol: str) -> str:
     """Replace ite() with the Python ternary operator."""
+    match = re.search(r"\bite\(", ps_sol)
+    if match is None:
+        return ps_sol
 
-    def repl_func(match):
-        cond = match.group(1).strip()
-        a = match.group(2).strip()
-        b = match.group(3).strip()
-        return f"{a} if {cond} else {b}"
+    # Split the arguments at the commas that are not nested in brackets.
+    args = [""]
+    depth = 1
+    end = match.end()
+    while end < len(ps_sol) and depth > 0:
+        char = ps_sol[end]
+        if char in "([{":
+            depth += 1
+        elif char in ")]}":
+            depth -= 1
+        if depth == 1 and char == ",":
+            args.append("")
+        elif depth > 0:
+            args[-1] += char
+        end += 1
 
-    ite_pattern = r"ite\(([^,]+),\s*([^,]+),\s*([^)]+)\)"
-    return re.sub(ite_pattern, repl_func, ps_sol)
+    prefix, suffix = ps_sol[: match.start()], replace_ite(ps_sol[end:])
+    args = [replace_ite(arg).strip() for arg in args]
+    if depth > 0 or len(args) != 3:
+        return f"{prefix}ite({replace_ite(ps_sol[match.end():])}"
+    cond, a, b = args
+    return f"{prefix}(({a}) if ({cond}) else ({b})){suffix}"
 
 
 def get_inv_args(
-- 
2.43.0


From 0a5a986be612f6778b60f3f0394b20e0f050b6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:37 +0000
Subject: [PATCH 095/106] fix: lambdas of LLM solutions only use variables that
 keep their value

---
 llmlift_scripts/synthesis.py | 46 ++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index ee6991d..8b59e5c 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -204,6 +204,50 @@ def check_ps_signature(
     raise Exception(f"Function {benchmark_name} not found")
 
 
+def get_captured_vars(fn_decl: FnDecl | FnDeclRecursive) -> set[str]:
+    """Names of the variables that the given function uses but does not define."""
+    captured_vars: set[str] = set()
+
+    def visit(expr: Any) -> None:
+        if isinstance(expr, (FnDecl, FnDeclRecursive)):
+            captured_vars.update(get_captured_vars(expr))
+        elif isinstance(expr, Var):
+            if not is_fn_decl_type(expr.type):
+                captured_vars.add(expr.name())
+        elif isinstance(expr, Expr):
+            for arg in expr.args:
+                visit(arg)
+
+    visit(fn_decl.body())
+    return captured_vars - {arg.name() for arg in fn_decl.arguments()}
+
+
+def check_captured_vars(
+    driver: Driver,
+    benchmark_name: str,
+    loop_info: SingleLoopInfo | DoubleLoopInfo,
+    fn_decls: list[FnDecl | FnDeclRecursive],
+) -> None:
+    """Lambdas are verified as global functions, so they can only use variables that have the same value wherever the solution is used, namely arguments of the benchmark that no loop modifies."""
+    if isinstance(loop_info, SingleLoopInfo):
+        modified_vars = loop_info.modified_vars
+    else:
+        modified_vars = [
+            *loop_info.outer_loop_modified_vars,
+            *loop_info.inner_loop_modified_vars,
+        ]
+    predicate = driver.pred_tracker.predicates[benchmark_name]
+    constants = {arg.var_name() for arg in predicate.reads} - {
+        var.var_name() for var in modified_vars
+    }
+    for fn_decl in fn_decls:
+        captured_vars = get_captured_vars(fn_decl) - constants
+        if captured_vars:
+            raise Exception(
+                f"Function {fn_decl.name()} cannot use the variables {captured_vars}"
+            )
+
+
 def process_synthesized_fn_decls(
     *,
     output_var: Object,
@@ -425,6 +469,7 @@ def run_llm_synthesis_algorithm(
                 arg_name_to_count=arg_name_to_count,
             )
             check_ps_signature(driver, benchmark_name, ps_fn_decls)
+            check_captured_vars(driver, benchmark_name, loop_info, ps_fn_decls)
             print("Passed the parser, continuing to invariant generation")
         except Exception as e:
             print("Failed to pass the parser", e)
@@ -476,6 +521,7 @@ def run_llm_synthesis_algorithm(
                     lambda_exprs=lambda_exprs,
                     arg_name_to_count=arg_name_to_count,
                 )
+                check_captured_vars(driver, benchmark_name, loop_info, inv_fn_decls)
                 print("Passed the parser, continuing to verification")
             except Exception as e:
                 print("Failed to pass the parser", e)
-- 
2.43.0


From af5265fb2d2ce543e30e7a18242fb67a42c14b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:16 +0000
Subject: [PATCH 096/106] fix: every caller of a specialised function is
 written with its own specialisation

---
 metalift/smt_util.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index 61109cf..568661c 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -431,27 +431,29 @@ def toSMT(
                         in_call=None,
                     )
 
-                    new_fn_name = f"{t.name()}_{new_fn_name}"
+                    caller_fn_name = f"{t.name()}_{new_fn_name}"
                     new_body = filter_body(
                         fun_def=new_body,
-                        new_fn_call=new_fn_name,
+                        new_fn_call=caller_fn_name,
                         fn_call=t.name(),
                         in_call=None,
                     )
                     new_args = filter_args(t.arguments())
 
-                    new_in_calls_to_renamed_fn_name[(t.name(), in_call)] = new_fn_name
+                    new_in_calls_to_renamed_fn_name[
+                        (t.name(), in_call)
+                    ] = caller_fn_name
                     rewritten_fn_decls.add(t)
                     fn_decls.append(
                         FnDeclRecursive(
-                            new_fn_name,
+                            caller_fn_name,
                             t.return_type(),
                             new_body,
                             *new_args,
                         )
                         if isinstance(t, FnDeclRecursive)
                         else FnDecl(
-                            new_fn_name,
+                            caller_fn_name,
                             t.return_type(),
                             new_body,
                             *new_args,
-- 
2.43.0


From be8cd600bf6d7e0e433eba8d46a81bd4d90655ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:02 +0000
Subject: [PATCH 097/106] fix: the Rosette verification file does not redefine
 rests

utils.rkt provides both firsts and rests, and a module cannot define what it requires.
---
 llmlift_scripts/synthesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llmlift_scripts/synthesis.py b/llmlift_scripts/synthesis.py
index 8b59e5c..6b9ea7f 100644
--- a/llmlift_scripts/synthesis.py
+++ b/llmlift_scripts/synthesis.py
@@ -174,7 +174,7 @@ def process_dsl_fns_for_rosette(
         # TODO(jie): this is a bit hacky. We could remove all these functions in utils.rkt, but then we need to make sure that they are added to perspective driver files.
         if fn_decl.name().startswith("integer"):
             continue
-        if fn_decl.name() in {"firsts"}:
+        if fn_decl.name() in {"firsts", "rests"}:
             continue
         if fn_decl.body() is None:
             continue
-- 
2.43.0


From 378910d1ee7ee1d95a01b55c60d93ccd92cc1818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:40 +0000
Subject: [PATCH 098/106] fix: a C function has no generated code before it is
 synthesized

---
 metalift/frontend/llvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index cf44baa..c0b9ec3 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1742,7 +1742,7 @@ class MetaliftFunc:
         self.target_lang_fn = target_lang_fn
         self.inv_grammars = inv_grammars
         self.ps_grammar = ps_grammar
-        self.synthesized = []
+        self.synthesized = None
 
         # Parse and process loops
         raw_loops: List[RawLoopInfo] = parse_loops(loops_filepath, fn_ref.name)
-- 
2.43.0


From 2acbebd6c70836b5997b3e35027b3642401b1ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:00 +0000
Subject: [PATCH 099/106] fix: an invariant of a function with _ps in its name
 is not a solution

---
 metalift/frontend/llvm.py   | 4 ++--
 metalift/frontend/python.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/metalift/frontend/llvm.py b/metalift/frontend/llvm.py
index c0b9ec3..6213eda 100644
--- a/metalift/frontend/llvm.py
+++ b/metalift/frontend/llvm.py
@@ -1613,7 +1613,7 @@ class Driver:
         We want to rewrite it in a way suitable for code generation, which includes extracting the actual return type and the body.
         """
         for fname, f in self.synthesized_fns.items():
-            m = re.match("(\w+)_ps", fname)  # ignore the invariants
+            m = re.fullmatch("(\w+)_ps", fname)  # ignore the invariants
             if m:
                 if isinstance(f.body(), Eq):
                     body = cast(Eq, f.body()).e2()
@@ -1663,7 +1663,7 @@ class Driver:
             self.synthesized_fns[name] = f
 
             # TODO: added back for codegen
-            m = re.match("(\w+)_ps", f.name())  # ignore the invariants
+            m = re.fullmatch("(\w+)_ps", f.name())  # ignore the invariants
             if m:
                 name = m.groups()[0]
                 if isinstance(f.body(), Eq):
diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 9ae26cd..3d0b97a 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -940,7 +940,7 @@ class Driver:
         )
 
         for f in synthesized:
-            m = re.match("(\w+)_ps", f.name())  # ignore the invariants
+            m = re.fullmatch("(\w+)_ps", f.name())  # ignore the invariants
             if m:
                 name = m.groups()[0]
                 if isinstance(f.body(), Eq):
-- 
2.43.0


From 81a2ed1243dfe8c9fc75978ca0b1252c1fb9a0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:00 +0000
Subject: [PATCH 100/106] fix: Python programs can have a list summary without
 choices

---
 metalift/frontend/python.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 3d0b97a..8161268 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -54,7 +54,7 @@ from mypy.visitor import ExpressionVisitor, StatementVisitor
 
 from metalift.analysis import VariableTracker
 from metalift.frontend.utils import ObjectSet
-from metalift.ir import Bool, Eq, Expr, FnDecl, FnDeclRecursive, Int
+from metalift.ir import Bool, Call, Eq, Expr, FnDecl, FnDeclRecursive, Int
 from metalift.ir import List as mlList
 from metalift.ir import Object, ObjectT
 from metalift.ir import Set as mlSet
@@ -946,6 +946,11 @@ class Driver:
                 if isinstance(f.body(), Eq):
                     self.fns[name].synthesized = cast(Eq, f.body()).e2()
                     print(f"{name} synthesized: {self.fns[name].synthesized}")
+                elif (
+                    isinstance(f.body(), Call)
+                    and cast(Call, f.body()).name() == "list_eq"
+                ):
+                    self.fns[name].synthesized = cast(Call, f.body()).arguments()[1]
                 else:
                     raise Exception(
                         f"synthesized fn body doesn't have form val = ...: {f.body()}"
-- 
2.43.0


From 441f3f13021d62c5788a2fd158c205aa5eb1986e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:00 +0000
Subject: [PATCH 101/106] fix: the name of a Python function is not a variable
 of the query

---
 metalift/frontend/python.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/metalift/frontend/python.py b/metalift/frontend/python.py
index 8161268..44c48eb 100644
--- a/metalift/frontend/python.py
+++ b/metalift/frontend/python.py
@@ -383,7 +383,6 @@ class VCVisitor(StatementVisitor[None], ExpressionVisitor[Object]):
             # print(f"analyze fn {o.name} type: {o.type}")
             self.fn_type = fn_type
             self.ret_val = create_object(to_object_type(fn_type.ret_type), self.fn_name)
-            self.driver.add_var_object(self.ret_val)
             self.ast = o
 
             arg_names = cast(List[str], fn_type.arg_names)
-- 
2.43.0


From e7ea5161d6d4a1d7c843803c83417c86864df93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:11 +0000
Subject: [PATCH 102/106] fix: tenspiler's search spaces of depth three and
 more can be built

---
 metalift/utils/tenspiler/tenspiler_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metalift/utils/tenspiler/tenspiler_common.py b/metalift/utils/tenspiler/tenspiler_common.py
index 41eac5c..3b4cf42 100644
--- a/metalift/utils/tenspiler/tenspiler_common.py
+++ b/metalift/utils/tenspiler/tenspiler_common.py
@@ -1999,7 +1999,7 @@ def get_matrix_or_vec_expr_eq_or_below_depth_with_sym_grammar(
             call_scalar_rsub(scalar, matrix_or_vec),
             call_scalar_rdiv(scalar, matrix_or_vec),
         )
-        if not matrix_or_vec.is_nested:
+        if not matrix_or_vec.is_matrix:
             matrix_or_vec = choose(matrix_or_vec, vec_to_vec(matrix_or_vec))
             if additional_matrix is not None:
                 matrix_or_vec = choose(
-- 
2.43.0


From 9cf338f007760758c8895d85b99969001b4774c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:11 +0000
Subject: [PATCH 103/106] fix: a matrix-vector product is a choice in
 tenspiler's deep search spaces

---
 metalift/utils/tenspiler/tenspiler_common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metalift/utils/tenspiler/tenspiler_common.py b/metalift/utils/tenspiler/tenspiler_common.py
index 3b4cf42..f27a2a3 100644
--- a/metalift/utils/tenspiler/tenspiler_common.py
+++ b/metalift/utils/tenspiler/tenspiler_common.py
@@ -2003,7 +2003,8 @@ def get_matrix_or_vec_expr_eq_or_below_depth_with_sym_grammar(
             matrix_or_vec = choose(matrix_or_vec, vec_to_vec(matrix_or_vec))
             if additional_matrix is not None:
                 matrix_or_vec = choose(
-                    call_matrix_vec_mul(additional_matrix, matrix_or_vec)
+                    matrix_or_vec,
+                    call_matrix_vec_mul(additional_matrix, matrix_or_vec),
                 )
     return matrix_or_vec
 
-- 
2.43.0


From db7900fd005d752e334a85337910c6997a98d88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:49 +0000
Subject: [PATCH 104/106] fix: functions that take functions can be in a target
 language without being used

---
 metalift/smt_util.py | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/metalift/smt_util.py b/metalift/smt_util.py
index 568661c..b5108be 100644
--- a/metalift/smt_util.py
+++ b/metalift/smt_util.py
@@ -36,6 +36,22 @@ def get_direct_calls(
     return direct_calls
 
 
+def get_called_fn_names(exprs: typing.Sequence[Expr]) -> set[str]:
+    """Names of the functions that are called in any of the given expressions."""
+    names: set[str] = set()
+
+    def collect(expr: Expr | Any) -> Expr | Any:
+        if not isinstance(expr, Expr):
+            return expr
+        if isinstance(expr, Call):
+            names.add(expr.name())
+        return expr.map_args(collect)
+
+    for expr in exprs:
+        collect(expr)
+    return names
+
+
 def get_direct_in_calls(
     fn_decls: list[FnDecl | FnDeclRecursive],
     in_calls: list[tuple[str, str]],
@@ -476,6 +492,28 @@ def toSMT(
             else:
                 target_fn_decls.append(t)
 
+        # A function that takes functions can only be written for the functions it is called
+        # with, so those that nothing calls are left out.
+        takes_fns = {
+            t.name()
+            for t in target_fn_decls
+            if any(is_fn_decl_type(arg.type) for arg in t.arguments())
+        }
+        called_names = get_called_fn_names(
+            [
+                vc,
+                *axioms,
+                *inv_and_ps,
+                *fn_decls,
+                *[t for t in target_fn_decls if t.name() not in takes_fns],
+            ]
+        )
+        target_fn_decls = [
+            t
+            for t in target_fn_decls
+            if t.name() not in takes_fns or t.name() in called_names
+        ]
+
         vc = filter_fn_args(vc)
 
         early_candidates: list[FnDeclRecursive | Synth] = []
-- 
2.43.0


From a11463341171837829cec4975e4913f48b247039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:11 +0000
Subject: [PATCH 105/106] fix: outer invariants of tenspiler's general spaces
 can keep all columns

---
 metalift/utils/tenspiler/tenspiler_common.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/metalift/utils/tenspiler/tenspiler_common.py b/metalift/utils/tenspiler/tenspiler_common.py
index f27a2a3..0c66786 100644
--- a/metalift/utils/tenspiler/tenspiler_common.py
+++ b/metalift/utils/tenspiler/tenspiler_common.py
@@ -1188,9 +1188,9 @@ def get_matrix_computation_general_search_space(
         base, active = reads
         lower_bound = Int(0)
         upper_bound = base.len()
-        int_var = choose(lower_bound, upper_bound, row, *int_vars).maybe_relaxed(
-            relaxed
-        )
+        int_var = choose(
+            lower_bound, upper_bound, base[0].len(), row, *int_vars
+        ).maybe_relaxed(relaxed)
         slice_index = get_int_expr_eq_or_below_depth(int_var, depth)
         matrix = choose(base, active)
         matrix = matrix[slice_index:slice_index].col_slice(slice_index, slice_index)
@@ -1806,7 +1806,9 @@ def get_dissolve_general_search_space(
         matrix = choose(base, active)
         lower_bound = Int(0)
         upper_bound = base.len()
-        slice_index = choose(lower_bound, upper_bound, row).maybe_relaxed(relaxed)
+        slice_index = choose(
+            lower_bound, upper_bound, base[0].len(), row
+        ).maybe_relaxed(relaxed)
         matrix = matrix[slice_index:slice_index].col_slice(slice_index, slice_index)
         matrix = choose(matrix, matrix.transpose())
         return and_objects(
-- 
2.43.0


From 48966a0df553aeca15684520b97f8710eb5c787a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:45 +0000
Subject: [PATCH 106/106] fix: variables of a tracker's groups are new ones

---
 metalift/analysis.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/metalift/analysis.py b/metalift/analysis.py
index 23d25c3..7d68750 100644
--- a/metalift/analysis.py
+++ b/metalift/analysis.py
@@ -457,12 +457,12 @@ class VariableGroup(object):
 
     def variable(self, name: str, type: ObjectT) -> Var:
         my_name = f"{self.name}_{name}"
-        if my_name in self.tracker.existing:
-            self.tracker.existing[my_name] += 1
-        else:
-            self.tracker.existing[my_name] = 0
-
-        self.tracker.var_to_type[
-            format_with_index(my_name, self.tracker.existing[my_name])
-        ] = type
-        return Var(format_with_index(my_name, self.tracker.existing[my_name]), type)
+        index = self.tracker.existing.get(my_name, -1) + 1
+        # Another group's variable, or a variable that was named, may have this name
+        while format_with_index(my_name, index) in self.tracker.var_to_type:
+            index += 1
+        self.tracker.existing[my_name] = index
+
+        unique_name = format_with_index(my_name, index)
+        self.tracker.var_to_type[unique_name] = type
+        return Var(unique_name, type)
-- 
2.43.0

