From 9508d2389ada89610fa9fffa42f0abfa0745dc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 01/91] fix: gc: do not trace or sweep blocks that are already
 free

---
 src/c/gc.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index e105de5..2438e6f 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -447,6 +447,9 @@ static void sweep_phase() {
         if (tag < GC_TYPE_COUNT && sweep_fns[tag]) {
           sweep_fns[tag](block);
         }
+        // A free block has no type: a stale pointer to it (the stack scan is
+        // conservative) must not be traced, nor its resources freed twice.
+        block->type_tag = GC_TYPE_COUNT;
         free_to_list(block);
       }
 
-- 
2.43.0


From 1fd84a582390559ca348b3af082620b745e7f480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 02/91] verif: guarded (PSCM_VERIF) collector schedule,
 poisoning, counters and depth accessors

---
 src/c/error.cc     |  5 +++
 src/c/gc.cc        | 17 +++++++++
 src/c/throw.cc     |  5 +++
 src/c/verif_gc.inc | 89 ++++++++++++++++++++++++++++++++++++++++++++++
 4 files changed, 116 insertions(+)
 create mode 100644 src/c/verif_gc.inc

diff --git a/src/c/error.cc b/src/c/error.cc
index ca81d7e..3e169bf 100644
--- a/src/c/error.cc
+++ b/src/c/error.cc
@@ -293,3 +293,8 @@ SCM *scm_api_catch_handler(void *data, SCM *tag, SCM *args) {
 
   return nullptr;
 }
+
+#ifdef PSCM_VERIF
+// Verification hook: recorded depth of the evaluation call stack.
+int pscm_verif_eval_stack_depth() { return g_stack_depth; }
+#endif
diff --git a/src/c/gc.cc b/src/c/gc.cc
index 2438e6f..56b24b4 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -207,12 +207,19 @@ static void *bump_allocate(size_t total_size) {
   return bump;
 }
 
+#ifdef PSCM_VERIF
+#include "verif_gc.inc"
+#endif
+
 // =========================================================================
 // gc_alloc
 // =========================================================================
 
 void *gc_alloc(TypeTag tag, size_t size) {
   size_t total_size = sizeof(GCBlock) + size;
+#ifdef PSCM_VERIF
+  verif_before_alloc();
+#endif
 
   // Trigger GC if threshold exceeded.
   if (g_allocated_since_gc >= g_gc_threshold) {
@@ -274,6 +281,10 @@ void *gc_alloc(TypeTag tag, size_t size) {
     }
   }
 
+#ifdef PSCM_VERIF
+  verif_on_alloc(block, size);
+#endif
+
   // Initialise the header.
   block->mark     = 0;
   block->age      = 0;
@@ -450,6 +461,9 @@ static void sweep_phase() {
         // A free block has no type: a stale pointer to it (the stack scan is
         // conservative) must not be traced, nor its resources freed twice.
         block->type_tag = GC_TYPE_COUNT;
+#ifdef PSCM_VERIF
+        verif_on_free(block);
+#endif
         free_to_list(block);
       }
 
@@ -473,6 +487,9 @@ void run_gc() {
   mark_phase();
   sweep_phase();
   g_allocated_since_gc = 0;
+#ifdef PSCM_VERIF
+  verif_after_gc();
+#endif
 }
 
 SCM *scm_gc() {
diff --git a/src/c/throw.cc b/src/c/throw.cc
index 24aa4e3..d31224a 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -567,3 +567,8 @@ void init_throw() {
   scm_define_vararg_function("throw", scm_c_throw_scheme);
 }
 
+
+#ifdef PSCM_VERIF
+// Verification hook: number of catches currently registered.
+int pscm_verif_catch_depth() { return g_catch_stack_top; }
+#endif
diff --git a/src/c/verif_gc.inc b/src/c/verif_gc.inc
new file mode 100644
index 0000000..f4be984
--- /dev/null
+++ b/src/c/verif_gc.inc
@@ -0,0 +1,89 @@
+// Verification hooks for the collector. Included by gc.cc only when PSCM_VERIF
+// is defined; nothing here changes what the collector keeps or frees.
+//
+//  - a schedule: collect at allocations chosen by the harness, so that any
+//    allocation can be the one that triggers a collection;
+//  - poisoning: the payload of a reclaimed block is overwritten (and, under
+//    ASan, made inaccessible), so that a later use of it is observable;
+//  - counters: what the monitors report as observed.
+
+#if defined(__has_feature)
+#if __has_feature(address_sanitizer)
+#include <sanitizer/asan_interface.h>
+#define VERIF_ASAN 1
+#endif
+#endif
+
+struct pscm_verif_gc_stats_t {
+  uint64_t allocs;        // gc_alloc calls
+  uint64_t alloc_bytes;   // bytes asked for
+  uint64_t collections;   // completed collections
+  uint64_t forced;        // collections started by the schedule
+  uint64_t reclaimed;     // live blocks turned into free blocks
+  uint64_t reused;        // allocations served from a reclaimed block
+  uint64_t live_bytes;    // live bytes after the last collection
+  uint64_t heap_bytes;    // bytes of all heap segments
+};
+pscm_verif_gc_stats_t g_verif_gc_stats;
+
+static uint64_t v_gc_period = 0; // 0: no schedule
+static uint64_t v_gc_rng = 0;    // 0: exactly every v_gc_period allocations
+static uint64_t v_gc_left = 0;
+static bool     v_gc_poison = false;
+
+static uint64_t verif_next_gap() {
+  if (!v_gc_rng) return v_gc_period;
+  v_gc_rng ^= v_gc_rng << 13;
+  v_gc_rng ^= v_gc_rng >> 7;
+  v_gc_rng ^= v_gc_rng << 17;
+  return 1 + v_gc_rng % (2 * v_gc_period);
+}
+
+// period: mean number of allocations between forced collections (0 = none);
+// seed: 0 for an exact period, otherwise gaps are drawn from 1..2*period.
+void pscm_verif_gc_schedule(uint64_t period, uint64_t seed, bool poison) {
+  v_gc_period = period;
+  v_gc_rng = seed;
+  v_gc_poison = poison;
+  v_gc_left = period ? verif_next_gap() : 0;
+}
+
+static void verif_before_alloc() {
+  if (v_gc_period && g_gc_stack_top && --v_gc_left == 0) {
+    v_gc_left = verif_next_gap();
+    g_verif_gc_stats.forced++;
+    run_gc();
+  }
+}
+
+static void verif_on_alloc(GCBlock *block, size_t size) {
+  g_verif_gc_stats.allocs++;
+  g_verif_gc_stats.alloc_bytes += size;
+  if (block->age == 3) {
+    g_verif_gc_stats.reused++;
+    block->age = 0;
+#ifdef VERIF_ASAN
+    __asan_unpoison_memory_region(block_to_obj(block), block->size);
+#endif
+  }
+}
+
+static void verif_on_free(GCBlock *block) {
+  if (!v_gc_poison) return;
+  if (block->age != 3) {
+    block->age = 3; // "reclaimed": the collector itself never uses this field
+    g_verif_gc_stats.reclaimed++;
+    memset(block_to_obj(block), 0xDB, block->size);
+#ifdef VERIF_ASAN
+    __asan_poison_memory_region(block_to_obj(block), block->size);
+#endif
+  }
+}
+
+static void verif_after_gc() {
+  g_verif_gc_stats.collections++;
+  g_verif_gc_stats.live_bytes = g_last_live_bytes;
+  g_verif_gc_stats.heap_bytes = 0;
+  for (HeapSegment *seg = g_segments; seg; seg = seg->next)
+    g_verif_gc_stats.heap_bytes += seg->size;
+}
-- 
2.43.0


From 31e967bbe69dc99e0b4e270a0df9390feb94808d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 03/91] fix: named let: evaluate every body expression, not
 only the first

---
 src/c/let.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/c/let.cc b/src/c/let.cc
index e669c74..435e22d 100644
--- a/src/c/let.cc
+++ b/src/c/let.cc
@@ -43,7 +43,7 @@ SCM *expand_let(SCM *expr) {
     */
     assert(l->next->next->next);
     auto argl = l->next->next->data;
-    auto body = l->next->next->next->data;
+    auto body = l->next->next->next; // all the body expressions
     
     // Handle empty bindings list for named let: (let name () body)
     SCM *params = scm_nil();
@@ -67,10 +67,13 @@ SCM *expand_let(SCM *expr) {
       printf("args ");
       print_ast(args);
       printf("\n");
-      print_ast(body);
+      print_list(body);
       printf("\n");
     }
-    auto val = scm_list3(scm_sym_lambda(), params, body);
+    auto lambda_list = make_list(scm_sym_lambda());
+    lambda_list->next = make_list(params);
+    lambda_list->next->next = body;
+    auto val = wrap(lambda_list);
     auto letrec_arg = scm_list2(func_args, val);
     
     // For empty args, just call the function: (name)
-- 
2.43.0


From 7e2337f7374f2a52cb980a5ef2af96c0b0ea0fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:38 +0000
Subject: [PATCH 04/91] fix: cond: a clause with only a test yields the value
 of the test

---
 src/c/cond.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/cond.cc b/src/c/cond.cc
index a637543..a7cb033 100644
--- a/src/c/cond.cc
+++ b/src/c/cond.cc
@@ -26,7 +26,7 @@ SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
       continue;
     }
     if (!clause->next) {
-      return scm_bool_true();
+      return pred; // (cond (test)): the value of the test
     }
     // Check for => syntax BEFORE evaluating clause->next->data
     // Similar to Guile's approach: check if => is a literal (not bound)
-- 
2.43.0


From 6fbe1c1f9d3f116b54a7ef44731ce6a709aaf4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:03 +0000
Subject: [PATCH 05/91] fix: define: a procedure defined inside a body is local
 to that body

---
 src/c/define.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/c/define.cc b/src/c/define.cc
index d1133b4..3163854 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -118,9 +118,11 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
     }
     auto proc = make_proc(proc_name, proc_sig->next, l->next->next, env);
     SCM *ret = wrap(proc);
-    // If current module exists, define in module
+    // Inside a lambda/let body the binding is local; otherwise, if current module exists, define in module
     SCM *current_mod = scm_current_module();
-    if (current_mod && is_module(current_mod)) {
+    if (env->parent && !env->module) {
+      scm_env_insert(env, proc_name, ret, /*search_parent=*/false);
+    } else if (current_mod && is_module(current_mod)) {
       SCM_Module *module = cast<SCM_Module>(current_mod);
       scm_c_hash_set_eq(wrap(module->obarray), wrap(proc_name), ret);
     } else {
@@ -156,9 +158,11 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
         SCM_DEBUG_EVAL("define proc from lambda\n");
       }
     }
-    // If current module exists, define in module
+    // Inside a lambda/let body the binding is local; otherwise, if current module exists, define in module
     SCM *current_mod = scm_current_module();
-    if (current_mod && is_module(current_mod)) {
+    if (env->parent && !env->module) {
+      scm_env_insert(env, proc_name, val, /*search_parent=*/false);
+    } else if (current_mod && is_module(current_mod)) {
       SCM_Module *module = cast<SCM_Module>(current_mod);
       scm_c_hash_set_eq(wrap(module->obarray), wrap(proc_name), val);
     } else {
-- 
2.43.0


From 4fc8c1764ad918e6ba344c74f7a62cfdb8df137f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 06/91] fix: do: loop variables are local, they do not
 overwrite same-named outer variables

---
 src/c/do.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/do.cc b/src/c/do.cc
index a3f296a..37afb79 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -79,7 +79,7 @@ void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
   // This happens AFTER all update expressions have been evaluated
   // This implements parallel binding: all variables are updated simultaneously
   for (int i = 0; i < count; i++) {
-    scm_env_insert(do_env, updates[i].var_name, updates[i].new_val);
+    scm_env_insert(do_env, updates[i].var_name, updates[i].new_val, /*search_parent=*/false);
   }
   
   delete[] updates;
@@ -145,7 +145,7 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     }
 
     // Insert variable into do environment
-    scm_env_insert(do_env, var_name, var_init_val);
+    scm_env_insert(do_env, var_name, var_init_val, /*search_parent=*/false);
     
     // Store update step if provided
     if (var_update_step) {
-- 
2.43.0


From 29e099f3515cb16630c174c42f4cabca10300c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 07/91] fix: gc: keep the working values of map and do on the C
 stack, not in untraced heap arrays

---
 src/c/do.cc  | 12 ++++--------
 src/c/map.cc |  8 ++++----
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/c/do.cc b/src/c/do.cc
index 37afb79..e502b7d 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include <alloca.h>
 
 // Helper function to update do loop variables
 // All update expressions are evaluated first (in parallel), then all variables are updated
@@ -23,8 +24,9 @@ void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
     return;  // No variables to update
   }
   
-  // Allocate array to store variable names and new values
-  UpdatePair *updates = new UpdatePair[count];
+  // Store variable names and new values on the C stack, where the collector and
+  // continuations see them
+  UpdatePair *updates = (UpdatePair *)alloca(count * sizeof(UpdatePair));
   int idx = 0;
   
   // First pass: evaluate ALL update expressions BEFORE updating any variables
@@ -36,19 +38,16 @@ void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
     auto list_wrapped = it->data;
     if (!is_pair(list_wrapped)) {
       eval_error("do: internal error - update list must be a pair");
-      delete[] updates;
       return;
     }
     // list_wrapped is (var_name var_update_step)
     auto var_update_expr = cast<SCM_List>(list_wrapped);
     if (!var_update_expr->next) {
       eval_error("do: internal error - update list must have two elements");
-      delete[] updates;
       return;
     }
     if (!is_sym(var_update_expr->data)) {
       eval_error("do: internal error - first element of update list must be a symbol");
-      delete[] updates;
       return;
     }
     auto var_name = cast<SCM_Symbol>(var_update_expr->data);
@@ -59,7 +58,6 @@ void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
     auto new_var_val = eval_with_env(do_env, var_update_step);
     if (!new_var_val) {
       // Evaluation error occurred, clean up and return
-      delete[] updates;
       return;
     }
     
@@ -81,8 +79,6 @@ void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
   for (int i = 0; i < count; i++) {
     scm_env_insert(do_env, updates[i].var_name, updates[i].new_val, /*search_parent=*/false);
   }
-  
-  delete[] updates;
 }
 
 // Helper function for do special form
diff --git a/src/c/map.cc b/src/c/map.cc
index 51be5b2..76361b4 100644
--- a/src/c/map.cc
+++ b/src/c/map.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include <alloca.h>
 
 // Wrapper function for map as a builtin function
 // This function is called when map is used as a value (not as a special form)
@@ -53,8 +54,9 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
     eval_error("map: requires at least one list argument");
   }
   
-  // Evaluate all list arguments and store them
-  SCM_List **list_ptrs = new SCM_List*[num_lists];
+  // Evaluate all list arguments and store them on the C stack, where the collector
+  // and continuations see them
+  SCM_List **list_ptrs = (SCM_List **)alloca(num_lists * sizeof(SCM_List *));
   temp = list_args_head;
   for (int i = 0; i < num_lists; i++) {
     // Always evaluate list arguments
@@ -126,8 +128,6 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
     }
   }
   
-  delete[] list_ptrs;
-  
   if (dummy.next) {
     return wrap(dummy.next);
   }
-- 
2.43.0


From a83022e69f393bf9554361c9cc851e9f56215d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 08/91] fix: for-each: rest-argument procedures and empty-list
 elements

---
 src/c/for_each.cc | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index 40170ef..78dd168 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -11,9 +11,9 @@ static int count_list_length(SCM_List *l) {
   return count;
 }
 
-// Helper function to check if a list node is exhausted (nil or null)
+// Helper function to check if a list is exhausted (an element may itself be nil)
 static inline bool is_list_exhausted(SCM_List *list) {
-  return list == nullptr || is_nil(list->data);
+  return list == nullptr;
 }
 
 // Helper function for for-each special form
@@ -34,24 +34,18 @@ static inline bool is_list_exhausted(SCM_List *list) {
 SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
   assert(l->next);
   auto f = eval_with_env(env, l->next->data);
-  int arg_count;
-  
-  // Determine argument count based on procedure/function type
-  if (is_proc(f)) {
-    auto proc = cast<SCM_Procedure>(f);
-    arg_count = count_list_length(proc->args);
-  } else if (is_func(f)) {
-    auto func = cast<SCM_Function>(f);
-    // Count the number of argument lists provided
-    int list_count = count_list_length(l->next->next);
-    // For variable-arg functions (n_args < 0), use list_count
-    // Otherwise use the function's expected argument count
-    arg_count = (func->n_args < 0) ? list_count : func->n_args;
-  } else {
+  if (!is_proc(f) && !is_func(f)) {
     eval_error("for-each: first argument must be a procedure or function");
     return nullptr;
   }
   
+  // One argument per list; the call itself checks the arity of the procedure
+  int arg_count = count_list_length(l->next->next);
+  if (arg_count == 0) {
+    eval_error("for-each: requires at least one list argument");
+    return nullptr;
+  }
+  
   l = l->next->next;
 
   // Evaluate all argument lists and store them
-- 
2.43.0


From 61bf8343fe11dc6a0cc97eab98f0ee7d2554c12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 09/91] fix: define-macro: a macro with exactly one parameter
 receives its argument, not a list of it

---
 src/c/macro.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/c/macro.cc b/src/c/macro.cc
index 7751eac..bfed5c5 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -304,14 +304,8 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
   }
   SCM_Symbol *name = cast<SCM_Symbol>(proc_sig->data);
 
-  // Check if proc_sig->next is a single symbol (rest parameter like (test . args))
-  // In this case, we need to convert it to a dotted pair structure
+  // A rest parameter, (test . args), is already marked as dotted
   SCM_List *args_list = proc_sig->next;
-  if (args_list && is_sym(args_list->data) && !args_list->next) {
-    // This is a rest parameter: (test . args) -> args_list is just (args)
-    // We need to mark it as a dotted pair
-    args_list->is_dotted = true;
-  }
 
   SCM_Procedure *transformer = make_proc(name, args_list, l->next->next, env);
 
-- 
2.43.0


From ba0a57a476145031ca4e8f8ea53a1a7abb0975b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:03 +0000
Subject: [PATCH 10/91] fix: macro calls: evaluate the expansion in place,
 without rewriting quoted data in it

---
 src/c/eval.cc | 30 +++++-------------------------
 1 file changed, 5 insertions(+), 25 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 3a15e19..c5326bb 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -334,23 +334,10 @@ entry:
       // Found a macro, expand it and continue evaluation
       SCM_Macro *macro = cast<SCM_Macro>(val);
       SCM *expanded = expand_macro_call(env, macro, l->next, ast);
-      // Recursively expand the result, then evaluate
-      ast = expand_macros(env, expanded);
-      // If macro expansion returns a non-pair value (e.g., a number), 
-      // we need to handle it directly instead of trying to evaluate it as a list
-      if (!is_pair(ast)) {
-        RETURN_WITH_CONTEXT(ast);
-      }
-      // After macro expansion, we need to re-check the structure
-      // If ast is a pair but l->data is not a symbol/proc/func, it might be
-      // a self-evaluating value wrapped in a list, which should be evaluated directly
-      // We need to recast l since ast might have changed
-      l = cast<SCM_List>(ast);
-      if (l && l->data && !is_sym(l->data) && !is_proc(l->data) && !is_func(l->data) && !is_cont(l->data) && !is_pair(l->data) && !l->next) {
-        // This is a self-evaluating value (number, string, etc.) wrapped in a single-element list
-        // Return it directly
-        RETURN_WITH_CONTEXT(l->data);
-      }
+      // Evaluate the expansion in place of the call. Macro calls inside it are
+      // expanded when they are evaluated: expanding them now would also rewrite
+      // quoted data and locally shadowed names.
+      ast = expanded;
       goto entry;
     }
 
@@ -700,14 +687,7 @@ entry:
     // Macro object in expression position — expand it
     SCM_Macro *macro = cast<SCM_Macro>(l->data);
     SCM *expanded = expand_macro_call(env, macro, l->next, ast);
-    ast = expand_macros(env, expanded);
-    if (!is_pair(ast)) {
-      RETURN_WITH_CONTEXT(ast);
-    }
-    l = cast<SCM_List>(ast);
-    if (l && l->data && !is_sym(l->data) && !is_proc(l->data) && !is_func(l->data) && !is_cont(l->data) && !is_pair(l->data) && !l->next) {
-      RETURN_WITH_CONTEXT(l->data);
-    }
+    ast = expanded;
     goto entry;
   }
   else {
-- 
2.43.0


From 8d72fb0cd6b78bd1d029224fdfe74012a33d46c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:27 +0000
Subject: [PATCH 11/91] fix: eval: calling a builtin does not overwrite the
 arguments in the expression

---
 src/c/eval.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index c5326bb..22a36aa 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -660,8 +660,12 @@ entry:
       print_list(func_argl);
       printf("\n");
     }
-    l->next = func_argl;
-    SCM *result = eval_with_func(func, l);
+    // Do not store the values into the expression itself: it may be user data
+    // or code that is evaluated again
+    SCM_List func_call = make_list_dummy();
+    func_call.data = l->data;
+    func_call.next = func_argl;
+    SCM *result = eval_with_func(func, &func_call);
     RETURN_WITH_CONTEXT(result);
   }
   else if (is_pair(l->data)) {
-- 
2.43.0


From 53c4ab583dc7ac933ecded3db15f9549a67c5320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 12/91] fix: apply and scm_call_N: arguments that are values
 already are not evaluated again

---
 src/c/apply.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index 8fdb07a..b7f4e62 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -22,7 +22,7 @@ SCM *scm_call_0(SCM *proc) {
   if (is_proc(proc)) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    return apply_procedure(env, proc_obj, nullptr);
+    return apply_procedure_with_values(env, proc_obj, nullptr);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -47,7 +47,7 @@ SCM *scm_call_1(SCM *proc, SCM *arg1) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
     SCM_List *args = make_list(arg1);
-    return apply_procedure(env, proc_obj, args);
+    return apply_procedure_with_values(env, proc_obj, args);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -74,7 +74,7 @@ SCM *scm_call_2(SCM *proc, SCM *arg1, SCM *arg2) {
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
     SCM_List *args = make_list(arg1);
     args->next = make_list(arg2);
-    return apply_procedure(env, proc_obj, args);
+    return apply_procedure_with_values(env, proc_obj, args);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -103,7 +103,7 @@ SCM *scm_call_3(SCM *proc, SCM *arg1, SCM *arg2, SCM *arg3) {
     SCM_List *args = make_list(arg1);
     args->next = make_list(arg2);
     args->next->next = make_list(arg3);
-    return apply_procedure(env, proc_obj, args);
+    return apply_procedure_with_values(env, proc_obj, args);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -139,7 +139,7 @@ SCM *scm_apply_0(SCM *proc, SCM *args) {
   if (is_proc(proc)) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    return apply_procedure(env, proc_obj, args_list);
+    return apply_procedure_with_values(env, proc_obj, args_list);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -290,7 +290,8 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
     if (args_evaluated) {
       arg_val = current->data; // Already evaluated
     } else {
-      arg_val = eval_with_env(env, current->data);
+      // Quoted, like the elements of the last list, to prevent double evaluation
+      arg_val = scm_list2(scm_sym_quote(), eval_with_env(env, current->data));
     }
     SCM_List *node = make_list(arg_val);
     args_tail->next = node;
-- 
2.43.0


From 9416047725b8ed60ab1069abf846d355de1249a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 13/91] fix: procedures and macros with a rest parameter
 require the parameters before it

---
 src/c/macro.cc     | 5 +++--
 src/c/procedure.cc | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/c/macro.cc b/src/c/macro.cc
index bfed5c5..0cdc481 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -125,8 +125,9 @@ SCM *expand_macro_call(SCM_Environment *env, SCM_Macro *macro, SCM_List *args, S
     }
   }
   
-  // Check for argument mismatch (only if no rest parameter)
-  if (!has_rest_param && (actual_args || current_param)) {
+  // Check for argument mismatch: with a rest parameter, only the parameters before it are required
+  bool missing_before_rest = has_rest_param && !only_rest_param && !current_param->is_dotted;
+  if (missing_before_rest || (!has_rest_param && (actual_args || current_param))) {
     report_arg_mismatch(macro->transformer->args, args, "Macro", original_call, macro->name);
     return nullptr;
   }
diff --git a/src/c/procedure.cc b/src/c/procedure.cc
index a4ea8ab..4edd46c 100644
--- a/src/c/procedure.cc
+++ b/src/c/procedure.cc
@@ -239,8 +239,9 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
     }
   }
   
-  // Check for argument mismatch (only if no rest parameter)
-  if (!has_rest_param && (args_iter || current_param)) {
+  // Check for argument mismatch: with a rest parameter, only the parameters before it are required
+  bool missing_before_rest = has_rest_param && !only_rest_param && !current_param->is_dotted;
+  if (missing_before_rest || (!has_rest_param && (args_iter || current_param))) {
     // Construct the call expression for better error reporting
     SCM *call_expr = nullptr;
     if (proc->name) {
-- 
2.43.0


From 30f298d0b411b1a3ff6b87038740db6dddd761c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 14/91] fix: do: each iteration has its own bindings, closures
 keep theirs

---
 src/c/do.cc | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/c/do.cc b/src/c/do.cc
index e502b7d..fd0625e 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -5,7 +5,9 @@
 // Helper function to update do loop variables
 // All update expressions are evaluated first (in parallel), then all variables are updated
 // This implements Scheme's parallel binding semantics for do loops
-void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
+// Each iteration has its own bindings, so that closures created in an earlier iteration keep theirs:
+// returns the environment of the next iteration
+SCM_Environment *update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
   struct UpdatePair {
     SCM_Symbol *var_name;
     SCM *new_val;
@@ -21,7 +23,7 @@ void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
   }
   
   if (count == 0) {
-    return;  // No variables to update
+    return do_env;  // No variables to update
   }
   
   // Store variable names and new values on the C stack, where the collector and
@@ -38,17 +40,17 @@ void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
     auto list_wrapped = it->data;
     if (!is_pair(list_wrapped)) {
       eval_error("do: internal error - update list must be a pair");
-      return;
+      return nullptr;
     }
     // list_wrapped is (var_name var_update_step)
     auto var_update_expr = cast<SCM_List>(list_wrapped);
     if (!var_update_expr->next) {
       eval_error("do: internal error - update list must have two elements");
-      return;
+      return nullptr;
     }
     if (!is_sym(var_update_expr->data)) {
       eval_error("do: internal error - first element of update list must be a symbol");
-      return;
+      return nullptr;
     }
     auto var_name = cast<SCM_Symbol>(var_update_expr->data);
     auto var_update_step = var_update_expr->next->data;
@@ -58,7 +60,7 @@ void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
     auto new_var_val = eval_with_env(do_env, var_update_step);
     if (!new_var_val) {
       // Evaluation error occurred, clean up and return
-      return;
+      return nullptr;
     }
     
     if (debug_enabled) {
@@ -76,9 +78,16 @@ void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
   // Second pass: update all variables with the pre-computed values
   // This happens AFTER all update expressions have been evaluated
   // This implements parallel binding: all variables are updated simultaneously
+  auto next_env = make_env(do_env->parent);
+  // Variables without a step keep their current value
+  for (auto entry = do_env->dummy.next; entry; entry = entry->next) {
+    SCM_Symbol *var_name = make_sym(entry->data->key);
+    scm_env_insert(next_env, var_name, entry->data->value, /*search_parent=*/false);
+  }
   for (int i = 0; i < count; i++) {
-    scm_env_insert(do_env, updates[i].var_name, updates[i].new_val, /*search_parent=*/false);
+    scm_env_insert(next_env, updates[i].var_name, updates[i].new_val, /*search_parent=*/false);
   }
+  return next_env;
 }
 
 // Helper function for do special form
@@ -199,7 +208,10 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     }
     
     // Update all variables (parallel binding)
-    update_do_variables(do_env, &var_update_dummy);
+    do_env = update_do_variables(do_env, &var_update_dummy);
+    if (!do_env) {
+      return nullptr;  // Evaluation error
+    }
     
     // Re-evaluate test condition
     ret = eval_with_env(do_env, car(test_clause));
-- 
2.43.0


From 61d4220cf81dbe0c43e39aeb5ecb74b2cc56b8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 15/91] fix: define: a body inside a module file defines
 locally, not in the module

---
 src/c/define.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/c/define.cc b/src/c/define.cc
index 3163854..38a6ad8 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -1,6 +1,12 @@
 #include "pscm.h"
 #include "eval.h"
 
+// Is env the environment of a lambda/let body (as opposed to the global or a module's own environment)?
+// Body environments inherit the module of the environment around them.
+static bool is_body_env(SCM_Environment *env) {
+  return env->parent && (!env->module || env->parent->module == env->module);
+}
+
 SCM *eval_define(SCM_Environment *env, SCM_List *l) {
   if (l->next && is_sym(l->next->data)) {
     // Define variable: (define var value)
@@ -24,7 +30,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
     // This ensures define creates local bindings in let/lambda contexts
     if (env->parent) {
       // Check if this is a module environment (env->module from scm_resolve_module)
-      if (env->module) {
+      if (!is_body_env(env)) {
         scm_c_hash_set_eq(wrap(env->module->obarray), wrap(varname), val);
       } else {
         // We're in a nested environment (lambda/let), create local binding
@@ -120,7 +126,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
     SCM *ret = wrap(proc);
     // Inside a lambda/let body the binding is local; otherwise, if current module exists, define in module
     SCM *current_mod = scm_current_module();
-    if (env->parent && !env->module) {
+    if (is_body_env(env)) {
       scm_env_insert(env, proc_name, ret, /*search_parent=*/false);
     } else if (current_mod && is_module(current_mod)) {
       SCM_Module *module = cast<SCM_Module>(current_mod);
@@ -160,7 +166,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
     }
     // Inside a lambda/let body the binding is local; otherwise, if current module exists, define in module
     SCM *current_mod = scm_current_module();
-    if (env->parent && !env->module) {
+    if (is_body_env(env)) {
       scm_env_insert(env, proc_name, val, /*search_parent=*/false);
     } else if (current_mod && is_module(current_mod)) {
       SCM_Module *module = cast<SCM_Module>(current_mod);
-- 
2.43.0


From a9c6219b05bd169d46368ff1d0934525a0b8759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 16/91] fix: gc: trace the stack captured by a continuation

---
 src/c/gc.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index 56b24b4..084b751 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -340,6 +340,13 @@ static void mark_if_valid_block(void *ptr, MarkStack *stack) {
   }
 }
 
+// Marks every block that a word of [start, start + size) points to.
+static void mark_conservative_range(void *start, size_t size, MarkStack *stack) {
+  for (size_t i = 0; i + sizeof(void *) <= size; i += sizeof(void *)) {
+    mark_if_valid_block(*(void **)((char *)start + i), stack);
+  }
+}
+
 static void scan_conservative_roots(MarkStack *stack) {
   // 1. Registered roots.
   for (int i = 0; i < g_num_roots; i++) {
@@ -568,7 +575,12 @@ static void trace_cont(GCBlock *block, MarkStack *stack) {
   trace_ptr(cont->arg,          stack); // SCM*
   trace_ptr(cont->saved_module, stack); // SCM*
   trace_ptr(cont->wind_chain,   stack); // SCM_List*
-  // stack_data / dst / stack_src are internal C data -- not traced.
+  // The captured C stack and registers come back to life when the continuation is
+  // invoked: scan them conservatively, like the live stack.
+  mark_conservative_range(&cont->cont_jump_buffer, sizeof(cont->cont_jump_buffer), stack);
+  if (cont->stack_data) {
+    mark_conservative_range(cont->stack_data, cont->stack_len * sizeof(long), stack);
+  }
 }
 
 // --- GC_MODULE --------------------------------------------------------
-- 
2.43.0


From 2598e15acb26b45c3742392d410e3c4947976634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:43 +0000
Subject: [PATCH 17/91] fix: dynamic-wind: run guards innermost first on the
 way out, outermost first on the way in

---
 src/c/dynwind.cc | 135 +++++++++++++----------------------------------
 1 file changed, 36 insertions(+), 99 deletions(-)

diff --git a/src/c/dynwind.cc b/src/c/dynwind.cc
index 0cf4cb0..bb9611f 100644
--- a/src/c/dynwind.cc
+++ b/src/c/dynwind.cc
@@ -24,86 +24,43 @@ SCM_List *copy_wind_chain(SCM_List *chain) {
   return new_chain;
 }
 
-// Helper function to find common prefix of two wind chains
-// Compares entries by their data pointer (the (in_guard . out_guard) pair)
-SCM_List *find_common_prefix(SCM_List *chain1, SCM_List *chain2) {
-  if (!chain1 || !chain2) {
-    return nullptr;  // If either is empty, no common prefix
+static int wind_chain_length(SCM_List *chain) {
+  int n = 0;
+  for (; chain; chain = chain->next) {
+    n++;
   }
-  
-  // Compare entries by their data pointer
-  SCM_List *c1 = chain1;
-  SCM_List *c2 = chain2;
-  int common_count = 0;
-  
-  while (c1 && c2 && c1->data == c2->data) {
-    common_count++;
-    c1 = c1->next;
-    c2 = c2->next;
+  return n;
+}
+
+// The wind entries that two chains have in common. The chains grow at the head (innermost entry
+// first), so this is their longest common tail. Entries are compared by their data pointer
+// (the (in_guard . out_guard) pair), because chains are copied.
+static SCM_List *common_wind_tail(SCM_List *chain1, SCM_List *chain2) {
+  int n1 = wind_chain_length(chain1);
+  int n2 = wind_chain_length(chain2);
+  for (; n1 > n2; n1--) {
+    chain1 = chain1->next;
   }
-  
-  if (common_count == 0) {
-    return nullptr;  // No common prefix
+  for (; n2 > n1; n2--) {
+    chain2 = chain2->next;
   }
-  
-  // Build the common prefix list
-  SCM_List *common = nullptr;
-  SCM_List **tail = &common;
-  SCM_List *c = chain1;
-  for (int i = 0; i < common_count; i++) {
-    *tail = make_list(c->data);
-    tail = &((*tail)->next);
-    c = c->next;
+  // An entry has one identity and one surrounding chain: once two entries are the same, the rest is too
+  while (chain1 && chain1->data != chain2->data) {
+    chain1 = chain1->next;
+    chain2 = chain2->next;
   }
-  
-  return common;
+  return chain1;
 }
 
-// Unwind wind chain: call out_guard for each entry from current to target
-// Returns the common prefix
+// Unwind wind chain: leave the dynamic extents that target is not in, innermost first, calling the
+// out_guard of each one outside of it
+// Returns the common part of the current chain and target
 SCM_List *unwind_wind_chain(SCM_List *target) {
-  SCM_List *current = g_wind_chain;
-  
-  // Find common prefix
-  SCM_List *common = find_common_prefix(current, target);
-  
-  // Unwind from current to common (call out_guard for each entry not in common)
-  // Build a list of entries to unwind (in reverse order, so we unwind in correct order)
-  SCM_List *to_unwind = nullptr;
-  SCM_List *c = current;
-  
-  // Collect entries that need to be unwound
-  while (c) {
-    // Check if this entry is in common
-    bool in_common = false;
-    if (common) {
-      SCM_List *check = common;
-      while (check) {
-        if (check->data == c->data) {
-          in_common = true;
-          break;
-        }
-        check = check->next;
-      }
-    }
-    
-    if (!in_common) {
-      // Add to unwind list (in reverse order)
-      auto new_entry = make_list(c->data);
-      new_entry->next = to_unwind;
-      to_unwind = new_entry;
-    }
-    else {
-      // We've reached the common prefix, stop
-      break;
-    }
-    
-    c = c->next;
-  }
-  
-  // Now unwind in reverse order (which is the correct order)
-  while (to_unwind) {
-    SCM *entry = to_unwind->data;
+  SCM_List *common = common_wind_tail(g_wind_chain, target);
+
+  while (g_wind_chain != common) {
+    SCM *entry = g_wind_chain->data;
+    g_wind_chain = g_wind_chain->next;
     if (is_pair(entry)) {
       SCM_List *pair = cast<SCM_List>(entry);
       if (pair->next && pair->next->data) {
@@ -115,42 +72,22 @@ SCM_List *unwind_wind_chain(SCM_List *target) {
         }
       }
     }
-    to_unwind = to_unwind->next;
   }
-  
-  // Update wind chain to common prefix
-  g_wind_chain = common;
   return common;
 }
 
-// Rewind wind chain: call in_guard for each entry from common to target
+// Rewind wind chain: enter the dynamic extents of target that are not in common, outermost first,
+// calling the in_guard of each one outside of it
 void rewind_wind_chain(SCM_List *common, SCM_List *target) {
-  // Build list of entries to rewind (from target, excluding common)
+  // Build list of entries to rewind, outermost first (from target, excluding common)
   SCM_List *to_rewind = nullptr;
-  SCM_List *target_current = target;
-  
-  // Count how many entries in common
-  int common_count = 0;
-  SCM_List *c = common;
-  while (c) {
-    common_count++;
-    c = c->next;
-  }
-  
-  // Skip common entries in target
-  c = target;
-  for (int i = 0; i < common_count && c; i++) {
-    c = c->next;
-  }
-  
-  // Collect entries to rewind (in reverse order)
-  while (c) {
+  int count = wind_chain_length(target) - wind_chain_length(common);
+  for (SCM_List *c = target; count > 0; count--, c = c->next) {
     auto new_entry = make_list(c->data);
     new_entry->next = to_rewind;
     to_rewind = new_entry;
-    c = c->next;
   }
-  
+
   // Rewind entries (call in_guard) and add to wind chain
   while (to_rewind) {
     SCM *entry = to_rewind->data;
-- 
2.43.0


From 80d1532118cfa287dd8d1264bd2ec2f3abe76285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:33 +0000
Subject: [PATCH 18/91] fix: throw: leave the inner catches and dynamic extents
 that the throw passes

---
 src/c/throw.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/c/throw.cc b/src/c/throw.cc
index d31224a..2691949 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -27,8 +27,12 @@ struct catch_info {
   struct jmp_buf_and_retval *jbr;  // Jump buffer and return value
   scm_t_catch_handler handler;     // Handler function
   void *handler_data;     // Handler data
+  SCM_List *wind_chain;   // Dynamic extents that the catch is in
 };
 
+// From dynwind.cc
+SCM_List *unwind_wind_chain(SCM_List *target);
+
 // Structure to hold lazy catch handler information
 struct lazy_catch_data {
   SCM *tag;
@@ -70,6 +74,7 @@ SCM *scm_c_catch(SCM *tag,
   info.jbr = &jbr;
   info.handler = handler;
   info.handler_data = handler_data;
+  info.wind_chain = g_wind_chain;
   
   // Create a pair (tag . catch_info) to store in wind chain
   // We'll use a special marker to distinguish catch entries from wind entries
@@ -104,12 +109,14 @@ SCM *scm_c_catch(SCM *tag,
   }
 
   // Push catch_info onto stack
+  const int catch_index = g_catch_stack_top;
   g_catch_stack[g_catch_stack_top++] = &info;
   
   // Set up jump buffer
   if (setjmp(jbr.buf)) {
     // Exception was thrown - we're in the catch handler
-    g_catch_stack_top--;  // Pop from stack
+    // Pop this catch, and the inner ones that the throw passed
+    g_catch_stack_top = catch_index;
     
     SCM *throw_tag = jbr.throw_tag;
     SCM *throw_args = jbr.throw_args;
@@ -124,7 +131,7 @@ SCM *scm_c_catch(SCM *tag,
     jbr.active = false;
     
     // Pop from stack
-    g_catch_stack_top--;
+    g_catch_stack_top = catch_index;
     
     return result;
   }
@@ -178,7 +185,9 @@ SCM *scm_throw(SCM *key, SCM *args) {
     struct catch_info *info = g_catch_stack[i];
     
     if (info && info->jbr && info->jbr->active && tags_match(info->tag, key)) {
-      // Found matching catch - set throw info and jump
+      // Found matching catch - leave the inner catches and dynamic extents, then set throw info and jump
+      g_catch_stack_top = i + 1;
+      unwind_wind_chain(info->wind_chain);
       info->jbr->throw_tag = key;
       info->jbr->throw_args = args;
       longjmp(info->jbr->buf, 1);
-- 
2.43.0


From 0e8a1b52a434eb2f51ee6330d54a29f5e06c9465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 19/91] fix: continuations restore the catches that were active
 when they were captured

---
 src/c/continuation.cc |  6 ++++++
 src/c/pscm.h          |  1 +
 src/c/pscm_types.h    |  1 +
 src/c/throw.cc        | 37 ++++++++++++++++++++++++-------------
 src/c/throw.h         |  4 ++++
 5 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/c/continuation.cc b/src/c/continuation.cc
index ae5ebda..c0e5006 100644
--- a/src/c/continuation.cc
+++ b/src/c/continuation.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include "throw.h"
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -51,6 +52,9 @@ SCM *scm_make_continuation(int *first) {
   // Save current wind chain
   cont->wind_chain = copy_wind_chain(g_wind_chain);
   
+  // Save the active catches (their frames are part of the captured stack)
+  cont->catch_top = scm_catch_top();
+  
   // Save current module (needed for variable lookup after continuation restore)
   cont->saved_module = scm_current_module();
   
@@ -59,6 +63,8 @@ SCM *scm_make_continuation(int *first) {
     return data;
   }
   else {
+    // The catches around the continuation are active again, and no others
+    scm_restore_catch_top(cont->catch_top);
     // Restore current module when continuation is invoked
     if (cont->saved_module) {
       scm_set_current_module(cont->saved_module);
diff --git a/src/c/pscm.h b/src/c/pscm.h
index c0dc6f9..5bd787d 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -194,6 +194,7 @@ inline SCM_Continuation *make_cont(size_t stack_len, void *stack_data, long *src
   cont->wind_chain = nullptr;
   cont->saved_module = nullptr;
   cont->stack_src = src_addr;
+  cont->catch_top = nullptr;
   return cont;
 }
 
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index b063ed3..2944040 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -96,6 +96,7 @@ struct SCM_Continuation {
   SCM_List *wind_chain; // Saved wind chain when continuation was created
   SCM *saved_module;    // Saved current module when continuation was created
   long *stack_src;      // Saved stack source address at capture time (cont_base - stack_size)
+  struct catch_info *catch_top; // Innermost catch when continuation was created
 };
 
 struct SCM_Macro {
diff --git a/src/c/throw.cc b/src/c/throw.cc
index 2691949..c88cc8e 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -10,8 +10,10 @@
 // Standard error key is now in throw.h as inline variable
 
 // Global catch stack (shared between scm_c_catch and scm_throw)
-static struct catch_info *g_catch_stack[100];
-static int g_catch_stack_top = 0;
+// The entries live in the C stack frames of scm_c_catch and are linked from the innermost one outwards,
+// so a continuation restores them with its stack and only has to remember the innermost one
+static struct catch_info *g_catch_top = nullptr;
+static const int MAX_CATCH_DEPTH = 100;
 
 // Jump buffer and return value structure
 struct jmp_buf_and_retval {
@@ -28,8 +30,18 @@ struct catch_info {
   scm_t_catch_handler handler;     // Handler function
   void *handler_data;     // Handler data
   SCM_List *wind_chain;   // Dynamic extents that the catch is in
+  struct catch_info *outer; // Next enclosing catch
+  int depth;              // Number of enclosing catches
 };
 
+struct catch_info *scm_catch_top() {
+  return g_catch_top;
+}
+
+void scm_restore_catch_top(struct catch_info *top) {
+  g_catch_top = top;
+}
+
 // From dynwind.cc
 SCM_List *unwind_wind_chain(SCM_List *target);
 
@@ -103,20 +115,21 @@ SCM *scm_c_catch(SCM *tag,
   // Actually, let's use a different approach: store catch_info in the wind chain
   // by creating a special marker. We can use a special symbol or a special list structure.
   
-  if (g_catch_stack_top >= 100) {
+  info.outer = g_catch_top;
+  info.depth = g_catch_top ? g_catch_top->depth + 1 : 0;
+  if (info.depth >= MAX_CATCH_DEPTH) {
     eval_error("catch: too many nested catches");
     return nullptr;
   }
 
   // Push catch_info onto stack
-  const int catch_index = g_catch_stack_top;
-  g_catch_stack[g_catch_stack_top++] = &info;
+  g_catch_top = &info;
   
   // Set up jump buffer
   if (setjmp(jbr.buf)) {
     // Exception was thrown - we're in the catch handler
     // Pop this catch, and the inner ones that the throw passed
-    g_catch_stack_top = catch_index;
+    g_catch_top = info.outer;
     
     SCM *throw_tag = jbr.throw_tag;
     SCM *throw_args = jbr.throw_args;
@@ -131,7 +144,7 @@ SCM *scm_c_catch(SCM *tag,
     jbr.active = false;
     
     // Pop from stack
-    g_catch_stack_top = catch_index;
+    g_catch_top = info.outer;
     
     return result;
   }
@@ -181,12 +194,10 @@ SCM *scm_throw(SCM *key, SCM *args) {
   
   // Then, find matching catch in the catch stack (normal catch with stack unwinding)
   // Search from top to bottom (most recent catch first)
-  for (int i = g_catch_stack_top - 1; i >= 0; i--) {
-    struct catch_info *info = g_catch_stack[i];
-    
-    if (info && info->jbr && info->jbr->active && tags_match(info->tag, key)) {
+  for (struct catch_info *info = g_catch_top; info; info = info->outer) {
+    if (info->jbr && info->jbr->active && tags_match(info->tag, key)) {
       // Found matching catch - leave the inner catches and dynamic extents, then set throw info and jump
-      g_catch_stack_top = i + 1;
+      g_catch_top = info;
       unwind_wind_chain(info->wind_chain);
       info->jbr->throw_tag = key;
       info->jbr->throw_args = args;
@@ -579,5 +590,5 @@ void init_throw() {
 
 #ifdef PSCM_VERIF
 // Verification hook: number of catches currently registered.
-int pscm_verif_catch_depth() { return g_catch_stack_top; }
+int pscm_verif_catch_depth() { return g_catch_top ? g_catch_top->depth + 1 : 0; }
 #endif
diff --git a/src/c/throw.h b/src/c/throw.h
index 96388a8..e93dcad 100644
--- a/src/c/throw.h
+++ b/src/c/throw.h
@@ -16,6 +16,10 @@ SCM *scm_c_catch(SCM *tag,
                  scm_t_catch_body body, void *body_data,
                  scm_t_catch_handler handler, void *handler_data);
 
+// Innermost active catch, saved and restored by continuations
+struct catch_info *scm_catch_top();
+void scm_restore_catch_top(struct catch_info *top);
+
 // Throw exception
 SCM *scm_throw(SCM *key, SCM *args);
 
-- 
2.43.0


From 04f6ce9883c61fb0bb6ff697727726bd908eb1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 20/91] fix: catch: a throw without arguments calls the handler
 with the key only

---
 src/c/throw.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/throw.cc b/src/c/throw.cc
index c88cc8e..75b8494 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -475,7 +475,7 @@ static SCM *scm_handle_by_proc(void *handler_data, SCM *tag, SCM *args) {
         if (!current->next) break;
         current = current->next;
       }
-    } else {
+    } else if (!is_nil(args)) {
       arg_list->next = make_list(args);
     }
   }
-- 
2.43.0


From e6530c16293fee71e975d59ce178f1dd3b9ebabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 21/91] fix: catch: return to the catch's error context, do not
 leak call trace frames

---
 src/c/error.cc | 10 ++++++++++
 src/c/error.h  |  4 ++++
 src/c/eval.cc  |  3 ++-
 src/c/throw.cc |  6 ++++++
 4 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/c/error.cc b/src/c/error.cc
index 3e169bf..d76f3c3 100644
--- a/src/c/error.cc
+++ b/src/c/error.cc
@@ -107,6 +107,16 @@ void pop_eval_stack() {
   }
 }
 
+int eval_stack_depth() {
+  return g_stack_depth;
+}
+
+void restore_eval_stack(int depth) {
+  while (g_stack_depth > depth) {
+    pop_eval_stack();
+  }
+}
+
 // Print the evaluation call stack
 void print_eval_stack() {
   if (!g_eval_stack) {
diff --git a/src/c/error.h b/src/c/error.h
index 1fd7776..c426c3d 100644
--- a/src/c/error.h
+++ b/src/c/error.h
@@ -17,6 +17,10 @@ inline EvalStackFrame *g_eval_stack = nullptr;
 void push_eval_stack(SCM *expr);
 void pop_eval_stack();
 
+// Current depth of the evaluation call stack, and leaving frames until it is back at a depth
+int eval_stack_depth();
+void restore_eval_stack(int depth);
+
 // Print evaluation call stack (for debugging)
 void print_eval_stack();
 
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 22a36aa..e70556e 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -259,6 +259,7 @@ SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
   assert(ast);
 
   // Push onto evaluation stack for call trace
+  int eval_depth = eval_stack_depth();
   push_eval_stack(ast);
 
   // Save current context for error reporting
@@ -269,7 +270,7 @@ SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
 #define RETURN_WITH_CONTEXT(val)                                                                                       \
   do {                                                                                                                 \
     g_current_eval_context = old_context;                                                                              \
-    pop_eval_stack();                                                                                                  \
+    restore_eval_stack(eval_depth);                                                                                    \
     return (val);                                                                                                      \
   } while (0)
 
diff --git a/src/c/throw.cc b/src/c/throw.cc
index 75b8494..b1bb115 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -124,12 +124,18 @@ SCM *scm_c_catch(SCM *tag,
 
   // Push catch_info onto stack
   g_catch_top = &info;
+
+  // Error reporting context to return to when something is thrown
+  SCM *eval_context = g_current_eval_context;
+  int eval_depth = eval_stack_depth();
   
   // Set up jump buffer
   if (setjmp(jbr.buf)) {
     // Exception was thrown - we're in the catch handler
     // Pop this catch, and the inner ones that the throw passed
     g_catch_top = info.outer;
+    g_current_eval_context = eval_context;
+    restore_eval_stack(eval_depth);
     
     SCM *throw_tag = jbr.throw_tag;
     SCM *throw_args = jbr.throw_args;
-- 
2.43.0


From b45592e640eeb6f2a5c6d2024e07eb0b448792dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 22/91] fix: gc: scan the host's stack when the library is
 embedded without a stack marker

---
 src/c/gc.cc | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index 084b751..1ba0e29 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -1,6 +1,7 @@
 #include "pscm.h"
 #include "gc.h"
 
+#include <pthread.h>
 #include <sys/mman.h>
 #include <unistd.h>
 
@@ -787,7 +788,29 @@ static void trace_smob(GCBlock *, MarkStack *) {
 // gc_init
 // =========================================================================
 
+// Highest address of this thread's stack: a host of the library has no
+// frame of ours above its own, so without a marker the whole stack is scanned.
+static char *thread_stack_end() {
+#ifdef __APPLE__
+  return (char *)pthread_get_stackaddr_np(pthread_self());
+#else
+  pthread_attr_t attr;
+  void *addr = nullptr;
+  size_t size = 0;
+  if (pthread_getattr_np(pthread_self(), &attr) != 0) {
+    return nullptr;
+  }
+  pthread_attr_getstack(&attr, &addr, &size);
+  pthread_attr_destroy(&attr);
+  return addr ? (char *)addr + size : nullptr;
+#endif
+}
+
 void gc_init() {
+  if (!g_gc_stack_top) {
+    g_gc_stack_top = thread_stack_end();
+  }
+
   // 1. Allocate the initial heap segment.
   long page_size = sysconf(_SC_PAGESIZE);
   size_t seg_size = (INITIAL_HEAP_SIZE + page_size - 1) & ~(size_t)(page_size - 1);
-- 
2.43.0


From c4a11abb8e14fc2d5d89f9ccd319c25fb5c9beff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:25 +0000
Subject: [PATCH 23/91] fix: gc: a stack word that points between heap segments
 is not a block

---
 src/c/gc.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index 1ba0e29..c1855de 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -323,6 +323,14 @@ void gc_register_root(SCM **ptr, const char *name) {
 // Conservative root scanning
 // =========================================================================
 
+// The segments need not be adjacent: what lies between them is not ours, or not mapped at all.
+static bool in_heap_segment(char *ptr) {
+  for (HeapSegment *seg = g_segments; seg; seg = seg->next) {
+    if (ptr >= seg->start && ptr < seg->bump) return true;
+  }
+  return false;
+}
+
 static void mark_if_valid_block(void *ptr, MarkStack *stack) {
   if (!ptr) return;
   char *cptr = (char *)ptr;
@@ -335,6 +343,8 @@ static void mark_if_valid_block(void *ptr, MarkStack *stack) {
   // Block header must be 16-byte aligned.
   if (block_addr & (sizeof(GCBlock) - 1)) return;
 
+  if (!in_heap_segment((char *)block_addr)) return;
+
   GCBlock *block = (GCBlock *)block_addr;
   if (block->gc_magic == GC_MAGIC) {
     push_if_unmarked(block, stack);
-- 
2.43.0


From d2329e68a985b46bd7f5d925af0ac2351c45650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 24/91] fix: append: share the last argument, which may be
 improper or not a list; keep all of its elements

---
 src/c/list.cc | 132 +++++++++++---------------------------------------
 1 file changed, 28 insertions(+), 104 deletions(-)

diff --git a/src/c/list.cc b/src/c/list.cc
index 073800a..96b13e7 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -89,123 +89,47 @@ SCM *scm_cons(SCM *car_val, SCM *cdr_val) {
   return wrap(l);
 }
 
-// Helper function to copy a list element
-static SCM_List *_copy_list_element(SCM *data) {
-  return make_list(data);
-}
-
-// Helper function to check if a list is a dotted pair by checking is_dotted flag
-static bool _is_dotted_pair(SCM_List *l) {
-  if (!l || !l->next) {
-    return false;
-  }
-  // Find the last node and check its is_dotted flag
-  SCM_List *last = l;
-  while (last->next) {
-    last = last->next;
-  }
-  return last->is_dotted;
-}
-
 // append function: (append list1 list2 ...) -> concatenated list
-// If the last argument is a dotted pair, the result will also be a dotted pair
+// The elements of all lists but the last are copied; the last argument is the tail of the
+// result as it is, so it is shared, and need not be a list
 SCM *scm_append(SCM_List *args) {
   if (!args) {
     return scm_nil();
   }
-  
-  // If only one argument, return it
-  if (!args->next) {
-    return args->data;
-  }
-  
-  // Special case: (append '() non-list) -> non-list
-  // Check if first argument is nil and second is not a list
-  if (is_nil(args->data) && args->next) {
-    if (!args->next->next) {
-      // Only two arguments: (append '() x) -> x
-      return args->next->data;
-    }
-  }
-  
-  // Find the last argument to check if it's a dotted pair
-  // We need to check the actual value, not the expression, so we check after
-  // processing all arguments
-  SCM_List *last_arg = args;
-  while (last_arg->next) {
-    last_arg = last_arg->next;
-  }
-  // Check if the last argument evaluates to a dotted pair
-  // This is done after we've processed all arguments, so we can check the actual value
-  bool last_is_dotted_pair = false;
-  SCM *last_cdr = nullptr;
-  if (is_pair(last_arg->data)) {
-    SCM_List *last_list = cast<SCM_List>(last_arg->data);
-    if (_is_dotted_pair(last_list)) {
-      last_is_dotted_pair = true;
-      // Find the last node to get the cdr
-      SCM_List *last_node = last_list;
-      while (last_node->next) {
-        last_node = last_node->next;
-      }
-      last_cdr = last_node->data;
-    }
-  }
-  
-  // Build result by concatenating all lists
+
   SCM_List dummy = make_list_dummy();
   SCM_List *tail = &dummy;
-  
+
   SCM_List *current = args;
-  while (current) {
-    if (is_pair(current->data)) {
-      SCM_List *src = cast<SCM_List>(current->data);
-      if (current == last_arg && last_is_dotted_pair) {
-        // Last argument is a dotted pair: copy car, but preserve the cdr
-        // For (c . d), src points to the pair, src->data is c, src->next->data is d
-        // We copy c, but not d (which will be the final cdr)
-        if (src) {
-          SCM_List *node = _copy_list_element(src->data);
-          tail->next = node;
-          tail = node;
-        }
-        // The cdr (d) will be appended below, creating the dotted pair structure
-      } else {
-        // Regular list: copy all elements
-        while (src) {
-          SCM_List *node = _copy_list_element(src->data);
-          tail->next = node;
-          tail = node;
-          src = src->next;
-        }
+  for (; current->next; current = current->next) {
+    if (is_nil(current->data)) {
+      continue;
+    }
+    if (!is_pair(current->data)) {
+      eval_error("append: argument must be a list");
+      return nullptr;
+    }
+    for (SCM_List *src = cast<SCM_List>(current->data); src; src = src->next) {
+      if (src->is_dotted) {
+        eval_error("append: argument must be a proper list");
+        return nullptr;
       }
-    } else if (!is_nil(current->data)) {
-      // Non-list, non-nil: just add it
-      SCM_List *node = _copy_list_element(current->data);
-      tail->next = node;
-      tail = node;
+      tail->next = make_list(src->data);
+      tail = tail->next;
     }
-    current = current->next;
   }
-  
-  // If last argument was a dotted pair, append its cdr as the final cdr
-  // This creates a dotted pair structure: the last node's next points to a node with the cdr,
-  // and that node's next is nullptr, and is_dotted = true
-  if (last_is_dotted_pair && last_cdr) {
-    // Create a node for the cdr, but don't update tail
-    // This makes tail->next point to a node with data=cdr and next=nullptr
-    // which is the structure for a dotted pair
-    SCM_List *node = _copy_list_element(last_cdr);
-    node->is_dotted = true;  // Mark as dotted pair's cdr
-    tail->next = node;
-    // tail remains pointing to the previous node, so tail->next->next == nullptr
-    // This creates the dotted pair structure
+
+  SCM *last = current->data;
+  if (!dummy.next) {
+    return last;
   }
-  
-  if (dummy.next) {
-    return wrap(dummy.next);
+  if (is_pair(last)) {
+    tail->next = cast<SCM_List>(last);
+  } else if (!is_nil(last)) {
+    tail->next = make_list(last);
+    tail->next->is_dotted = true;
   }
-  return scm_nil();
+  return wrap(dummy.next);
 }
 
 // list-head: Copy the first k elements from lst into a new list
-- 
2.43.0


From a6f50d00284297470d21d4bd326be36a6d836397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 25/91] fix: last-pair: return the last pair for odd lengths
 and for improper lists

---
 src/c/list.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/c/list.cc b/src/c/list.cc
index 96b13e7..2f73e4c 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -248,26 +248,26 @@ SCM *scm_c_last_pair(SCM *lst) {
     return nullptr;
   }
   
+  // The last pair is the one before the end, or before the node that holds an improper tail
+  auto is_last = [](SCM_List *l) { return !l->next || l->next->is_dotted; };
   SCM_List *tortoise = cast<SCM_List>(lst);
-  SCM_List *hare = cast<SCM_List>(lst);
-  
+  SCM_List *hare = tortoise;
+
   // Floyd's cycle detection algorithm
   while (true) {
     // Move hare two steps
-    if (!hare->next || is_nil(wrap(hare->next))) {
-      // Reached end, return tortoise (last pair)
-      return wrap(tortoise);
+    if (is_last(hare)) {
+      return wrap(hare);
     }
     hare = hare->next;
-    if (!hare->next || is_nil(wrap(hare->next))) {
-      // Reached end, return hare (last pair)
+    if (is_last(hare)) {
       return wrap(hare);
     }
     hare = hare->next;
-    
+
     // Move tortoise one step
     tortoise = tortoise->next;
-    
+
     // Check for cycle
     if (hare == tortoise) {
       eval_error("last-pair: circular structure detected");
-- 
2.43.0


From 55633d7e7a626aaaa8713e9ecab3fb50de2374af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:24 +0000
Subject: [PATCH 26/91] fix: eq? and eqv? compare the objects, not the wrappers
 car and cdr make

---
 src/c/eq.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/c/eq.cc b/src/c/eq.cc
index 4724daf..1b80078 100644
--- a/src/c/eq.cc
+++ b/src/c/eq.cc
@@ -238,7 +238,8 @@ SCM *scm_c_is_eq(SCM *lhs, SCM *rhs) {
   case SCM::HASH_TABLE:
   case SCM::PORT:
     // For compound types, eq? uses pointer equality
-    return scm_bool_false();
+    // (the object is what the wrapper points to: car, cdr and the like make new wrappers)
+    return lhs->value == rhs->value ? scm_bool_true() : scm_bool_false();
   case SCM::NUM:
   case SCM::FLOAT:
   case SCM::RATIO:
@@ -257,7 +258,7 @@ SCM *scm_c_is_eq(SCM *lhs, SCM *rhs) {
     // For symbols and strings, compare by content (they are interned)
     return _sym_eq(lhs, rhs) ? scm_bool_true() : scm_bool_false();
   default:
-    return scm_bool_false();
+    return lhs->value == rhs->value ? scm_bool_true() : scm_bool_false();
   }
 }
 
@@ -292,7 +293,8 @@ SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs) {
   case SCM::HASH_TABLE:
   case SCM::PORT:
     // For compound types, eqv? uses pointer equality (same as eq?)
-    return scm_bool_false();
+    // (the object is what the wrapper points to: car, cdr and the like make new wrappers)
+    return lhs->value == rhs->value ? scm_bool_true() : scm_bool_false();
   case SCM::NUM:
   case SCM::FLOAT:
   case SCM::RATIO:
@@ -311,7 +313,7 @@ SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs) {
     // For symbols and strings, compare by content (they are interned)
     return _sym_eq(lhs, rhs) ? scm_bool_true() : scm_bool_false();
   default:
-    return scm_bool_false();
+    return lhs->value == rhs->value ? scm_bool_true() : scm_bool_false();
   }
 }
 
@@ -345,7 +347,7 @@ static bool _equal_recursive(SCM *lhs, SCM *rhs) {
   case SCM::HASH_TABLE:
   case SCM::PORT:
     // For compound types, equal? uses pointer equality (same as eq?)
-    return false;
+    return lhs->value == rhs->value;
   case SCM::NUM:
   case SCM::FLOAT:
   case SCM::RATIO:
@@ -377,11 +379,11 @@ static bool _equal_recursive(SCM *lhs, SCM *rhs) {
         return is_true(result);
       } else {
         // Default: pointer equality (eq?)
-        return lhs == rhs;
+        return lhs->value == rhs->value;
       }
     }
   default:
-    return false;
+    return lhs->value == rhs->value;
   }
 }
 
-- 
2.43.0


From db3483a68a21fdc5e396f4e9f76ecd471ef93873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 27/91] fix: case, assv and memv compare by eqv?, assq by eq?,
 member and assoc by equal?

---
 src/c/alist.cc | 33 +++---------------
 src/c/case.cc  |  7 ++--
 src/c/eq.cc    | 95 ++------------------------------------------------
 src/c/list.cc  | 28 +--------------
 src/c/pscm.h   |  1 +
 5 files changed, 10 insertions(+), 154 deletions(-)

diff --git a/src/c/alist.cc b/src/c/alist.cc
index 27cf7ab..225a41d 100644
--- a/src/c/alist.cc
+++ b/src/c/alist.cc
@@ -2,37 +2,12 @@
 #include <type_traits>
 bool _eq(SCM *lhs, SCM *rhs);
 
-// Helper function for eq? comparison (pointer/identity equality)
-// This implements the eq? predicate semantics: two objects are eq? if they are the same object
-// For symbols, use content-based comparison (same as hash_table.cc scm_cmp_eq)
-// because in Guile, symbols are interned so eq? compares by content
+// eq?, except that strings are told apart by identity: equal literals are different keys
 static bool is_eq_pointer(SCM *lhs, SCM *rhs) {
-  if (lhs == rhs) {
-    return true;
-  }
-  if (lhs->type != rhs->type) {
-    return false;
-  }
-  // For symbols, compare by content (same as hash_table.cc scm_cmp_eq)
-  // This allows assq to work correctly with symbols
-  if (is_sym(lhs) && is_sym(rhs)) {
-    auto sym1 = cast<SCM_Symbol>(lhs);
-    auto sym2 = cast<SCM_Symbol>(rhs);
-    if (sym1->len != sym2->len) {
-      return false;
-    }
-    return memcmp(sym1->data, sym2->data, sym1->len) == 0;
-  }
-  // For strings, compare pointers (value field points to the same object)
-  if (is_str(lhs)) {
+  if (is_str(lhs) && is_str(rhs)) {
     return lhs->value == rhs->value;
   }
-  // For numbers, compare values
-  if (is_num(lhs)) {
-    return lhs->value == rhs->value;
-  }
-  // For other types, use pointer comparison
-  return lhs == rhs;
+  return is_true(scm_c_is_eq(lhs, rhs));
 }
 
 // acons: (acons key value alist) -> new alist with (key . value) prepended
@@ -254,7 +229,7 @@ SCM *scm_c_assv(SCM *key, SCM *alist) {
   while (it) {
     if (it->data && is_pair(it->data)) {
       auto pair = cast<SCM_List>(it->data);
-      if (pair->data && _eq(key, pair->data)) {
+      if (pair->data && is_true(scm_c_is_eqv(key, pair->data))) {
         return it->data;
       }
     }
diff --git a/src/c/case.cc b/src/c/case.cc
index ea4f418..316f779 100644
--- a/src/c/case.cc
+++ b/src/c/case.cc
@@ -1,18 +1,15 @@
 #include "pscm.h"
 #include "eval.h"
 
-// Forward declaration
-bool _eq(SCM *lhs, SCM *rhs);
-
 // Helper function to check if a value is in a list of datums
-// Uses eqv? for comparison (which is implemented as _eq in this codebase)
+// Uses eqv? for comparison
 static bool value_in_datums(SCM *value, SCM_List *datums) {
   if (!datums) {
     return false;
   }
   
   for (SCM_List *it = datums; it; it = it->next) {
-    if (it->data && _eq(value, it->data)) {
+    if (it->data && is_true(scm_c_is_eqv(value, it->data))) {
       return true;
     }
   }
diff --git a/src/c/eq.cc b/src/c/eq.cc
index 1b80078..aa22a03 100644
--- a/src/c/eq.cc
+++ b/src/c/eq.cc
@@ -91,23 +91,6 @@ static bool _list_equal(SCM *lhs, SCM *rhs) {
   return (!l1 && !l2);
 }
 
-// Legacy function for backward compatibility (used by _eq)
-bool _list_eq(SCM *lhs, SCM *rhs) {
-  auto l1 = cast<SCM_List>(lhs);
-  auto l2 = cast<SCM_List>(rhs);
-  while (l1 && l2) {
-    if (!_eq(l1->data, l2->data)) {
-      return false;
-    }
-    l1 = l1->next;
-    l2 = l2->next;
-  }
-  if (l1 || l2) {
-    return false;
-  }
-  return true;
-}
-
 // Helper function for equal? to compare vectors recursively
 static bool _vector_equal(SCM *lhs, SCM *rhs) {
   auto v1 = cast<SCM_Vector>(lhs);
@@ -128,83 +111,9 @@ static bool _vector_equal(SCM *lhs, SCM *rhs) {
   return true;
 }
 
-// Legacy function for backward compatibility (used by _eq)
-bool _vector_eq(SCM *lhs, SCM *rhs) {
-  auto v1 = cast<SCM_Vector>(lhs);
-  auto v2 = cast<SCM_Vector>(rhs);
-  
-  // Vectors must have the same length
-  if (v1->length != v2->length) {
-    return false;
-  }
-  
-  // Compare each element recursively
-  for (size_t i = 0; i < v1->length; i++) {
-    if (!_eq(v1->elements[i], v2->elements[i])) {
-      return false;
-    }
-  }
-  
-  return true;
-}
-
+// equal? for C callers
 bool _eq(SCM *lhs, SCM *rhs) {
-  assert(lhs);
-  assert(rhs);
-  // Special case: allow NUM <-> FLOAT comparison
-  if ((lhs->type == SCM::NUM && rhs->type == SCM::FLOAT) ||
-      (lhs->type == SCM::FLOAT && rhs->type == SCM::NUM)) {
-    return _number_eq(lhs, rhs);
-  }
-  
-  if (lhs->type != rhs->type) {
-    return false;
-  }
-
-  switch (lhs->type) {
-  case SCM::NONE:
-  case SCM::NIL:
-    return true;
-  case SCM::LIST:
-    // For backward compatibility with existing tests, use deep comparison for lists
-    // In strict R4RS, eq? should use pointer equality (lhs == rhs) for lists
-    return _list_eq(lhs, rhs);
-  case SCM::PROC:
-  case SCM::CONT:
-  case SCM::FUNC:
-    return lhs == rhs;
-  case SCM::NUM:
-  case SCM::FLOAT:
-    return _number_eq(lhs, rhs);
-  case SCM::CHAR:
-    // Character comparison
-    if (rhs->type == SCM::CHAR) {
-      char ch_lhs = ptr_to_char(lhs->value);
-      char ch_rhs = ptr_to_char(rhs->value);
-      return ch_lhs == ch_rhs;
-    }
-    return false;
-  case SCM::BOOL:
-    return is_true(lhs) == is_true(rhs);
-  case SCM::SYM:
-  case SCM::STR:
-    return _sym_eq(lhs, rhs);
-  case SCM::VECTOR:
-    return _vector_eq(lhs, rhs);
-  case SCM::MACRO:
-    // Macros are compared by reference (same as procedures)
-    return lhs == rhs;
-  case SCM::HASH_TABLE:
-    // Hash tables are compared by reference
-    return lhs == rhs;
-  case SCM::RATIO:
-    // Ratios are compared numerically
-    return _number_eq(lhs, rhs);
-  default:
-    SCM_ERROR_EVAL("unsupported scheme type %d", lhs->type);
-    eval_error("unsupported scheme type %d", lhs->type);
-    return false;
-  }
+  return _equal_recursive(lhs, rhs);
 }
 
 // eq?: Pointer equality (identity)
diff --git a/src/c/list.cc b/src/c/list.cc
index 2f73e4c..a6f40b6 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -374,32 +374,6 @@ SCM *scm_c_length(SCM *lst) {
   return result;
 }
 
-// Helper function for eqv? comparison (used by memv)
-static bool _eqv(SCM *lhs, SCM *rhs) {
-  if (lhs == rhs) return true;
-  if (!lhs || !rhs) return false;
-  
-  // Special case: allow NUM <-> FLOAT comparison (same as eq.cc)
-  if ((lhs->type == SCM::NUM && rhs->type == SCM::FLOAT) ||
-      (lhs->type == SCM::FLOAT && rhs->type == SCM::NUM)) {
-    return _number_eq(lhs, rhs);
-  }
-  
-  if (lhs->type != rhs->type) return false;
-  
-  // For numbers (both NUM and FLOAT), use _number_eq for proper comparison
-  if (is_num(lhs) || is_float(lhs)) {
-    return _number_eq(lhs, rhs);
-  }
-  if (is_char(lhs)) {
-    return ptr_to_char(lhs->value) == ptr_to_char(rhs->value);
-  }
-  if (is_bool(lhs)) {
-    return is_true(lhs) == is_true(rhs);
-  }
-  return lhs == rhs;
-}
-
 // memq: Return the first sublist of list whose car is obj (using eq? for comparison)
 // Returns #f if obj is not found
 // eq? uses pointer equality for lists and pairs, but value equality for numbers, symbols, etc.
@@ -447,7 +421,7 @@ SCM *scm_c_memv(SCM *obj, SCM *lst) {
   SCM_List *current = cast<SCM_List>(lst);
   
   while (current) {
-    if (current->data && _eqv(obj, current->data)) {
+    if (current->data && is_true(scm_c_is_eqv(obj, current->data))) {
       // Found a match, return the sublist starting from this element
       return wrap(current);
     }
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 5bd787d..81463ae 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -780,6 +780,7 @@ void init_apply();
  */
 bool _eq(SCM *lhs, SCM *rhs);
 SCM *scm_c_is_eq(SCM *lhs, SCM *rhs);
+SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs);
 SCM *scm_c_is_equal(SCM *lhs, SCM *rhs);
 
 /*
-- 
2.43.0


From 0e94e95d7026b5afa40985e7028619838aca5f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 28/91] fix: a dot followed by a list reads as the list itself

---
 src/c/parse.cc | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 242bce6..df355bd 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -1030,6 +1030,20 @@ static SCM *parse_unquote_in_list(Parser *p) {
   return scm;
 }
 
+// Ends the list under construction with what follows the dot. (a . (b c)) is the list (a b c) and
+// (a . ()) is (a); only an atom, or an unquote form a quasiquotation replaces, is kept in a dotted node
+static void append_dotted_tail(SCM_List *tail, SCM *cdr) {
+  if (is_nil(cdr)) {
+    return;
+  }
+  if (is_pair(cdr) && !is_sym_val(cast<SCM_List>(cdr)->data, "unquote")) {
+    tail->next = cast<SCM_List>(cdr);
+    return;
+  }
+  tail->next = make_list(cdr);
+  tail->next->is_dotted = true;
+}
+
 // Parse a list
 static SCM *parse_list(Parser *p) {
   if (*p->pos != '(') {
@@ -1118,20 +1132,7 @@ static SCM *parse_list(Parser *p) {
           parse_error(p, "expected expression after dot");
         }
         
-        // Create node for cdr and mark it as dotted pair
-        if (is_pair(cdr)) {
-          // When cdr is a pair, wrap it in a node to store it
-          // This allows us to mark the wrapper as dotted, while keeping the
-          // cdr list itself unmarked (if it's a proper list)
-          tail->next = make_list(cdr);
-          tail->next->is_dotted = true;  // Mark the wrapper node as dotted
-          // The cdr list itself (cdr) is not modified - its internal structure
-          // remains unchanged. The printing code will check if cdr is a proper
-          // list and expand it: (a b . (c d)) -> (a b c d)
-        } else {
-          tail->next = make_list(cdr);
-          tail->next->is_dotted = true;  // Mark as dotted pair's cdr
-        }
+        append_dotted_tail(tail, cdr);
         skip_whitespace(p);
         break;
       }
@@ -1152,14 +1153,7 @@ static SCM *parse_list(Parser *p) {
         parse_error(p, "expected expression after dot");
       }
       
-      // Create node for cdr and mark it as dotted pair
-      if (is_pair(cdr)) {
-        tail->next = make_list(cdr);
-        tail->next->is_dotted = true;
-      } else {
-        tail->next = make_list(cdr);
-        tail->next->is_dotted = true;
-      }
+      append_dotted_tail(tail, cdr);
       skip_whitespace(p);
       break;
     }
-- 
2.43.0


From 048f5300fecade47ad9a374954a09b5ecd48413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:30 +0000
Subject: [PATCH 29/91] fix: a dotted tail after a nested unquote-splicing
 stays a tail

---
 src/c/quasiquote.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/quasiquote.cc b/src/c/quasiquote.cc
index 243db69..a13a72d 100644
--- a/src/c/quasiquote.cc
+++ b/src/c/quasiquote.cc
@@ -299,7 +299,7 @@ static SCM *quasi(SCM_Environment *env, SCM *p, int depth) {
         SCM *expanded_car = quasi(env, p_list->data, depth - 1);
         if (rest_is_dotted && rest_cdr_data) {
           SCM *expanded_cdr = quasi(env, rest_cdr_data, depth);
-          return scm_list2(expanded_car, expanded_cdr);
+          return scm_cons(expanded_car, expanded_cdr);
         } else {
           SCM *rest = get_list_rest(p);
           SCM *expanded_cdr = quasi(env, rest, depth);
-- 
2.43.0


From f3ffd3e7a7a23c91e96240418d2be26aed10818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:47 +0000
Subject: [PATCH 30/91] fix: list procedures on improper and circular lists,
 alist procedures on other arguments

---
 src/c/alist.cc | 46 ++++++++++++++++++--------------
 src/c/list.cc  | 72 +++++++++++++++++++++++++++++++-------------------
 2 files changed, 71 insertions(+), 47 deletions(-)

diff --git a/src/c/alist.cc b/src/c/alist.cc
index 225a41d..6e3d815 100644
--- a/src/c/alist.cc
+++ b/src/c/alist.cc
@@ -1,4 +1,5 @@
 #include "pscm.h"
+#include "eval.h"
 #include <type_traits>
 bool _eq(SCM *lhs, SCM *rhs);
 
@@ -10,6 +11,18 @@ static bool is_eq_pointer(SCM *lhs, SCM *rhs) {
   return is_true(scm_c_is_eq(lhs, rhs));
 }
 
+// The list an alist argument is, or nullptr if it is empty
+static SCM_List *alist_nodes(SCM *alist, const char *func_name) {
+  if (is_nil(alist)) {
+    return nullptr;
+  }
+  if (!is_pair(alist)) {
+    eval_error("%s: argument must be an association list", func_name);
+    return nullptr;
+  }
+  return cast<SCM_List>(alist);
+}
+
 // acons: (acons key value alist) -> new alist with (key . value) prepended
 SCM *scm_c_acons(SCM *key, SCM *value, SCM *alist) {
   // Create a new pair (key . value)
@@ -26,8 +39,8 @@ SCM *scm_c_assq(SCM *key, SCM *alist) {
   if (is_nil(alist)) {
     return scm_bool_false();
   }
-  auto l = cast<SCM_List>(alist);
-  while (l) {
+  auto l = alist_nodes(alist, "assq");
+  while (l && !l->is_dotted) {
     if (is_pair(l->data)) {
       auto pair = cast<SCM_List>(l->data);
       if (pair->data && is_eq_pointer(key, pair->data)) {
@@ -44,8 +57,8 @@ SCM *scm_c_assoc(SCM *key, SCM *alist) {
   if (is_nil(alist)) {
     return scm_bool_false();
   }
-  auto l = cast<SCM_List>(alist);
-  while (l) {
+  auto l = alist_nodes(alist, "assoc");
+  while (l && !l->is_dotted) {
     if (is_pair(l->data)) {
       auto pair = cast<SCM_List>(l->data);
       if (pair->data && _eq(key, pair->data)) {
@@ -64,11 +77,7 @@ SCM *scm_c_assoc_ref(SCM *alist, SCM *key) {
     return scm_bool_false();
   }
   // Return the cdr of the pair
-  auto pair_list = cast<SCM_List>(pair);
-  if (pair_list->next) {
-    return pair_list->next->data;
-  }
-  return scm_bool_false();
+  return cdr(pair);
 }
 
 // assoc-set!: (assoc-set! alist key value) -> new alist
@@ -78,12 +87,12 @@ SCM *scm_c_assoc_set(SCM *alist, SCM *key, SCM *value) {
     return scm_c_acons(key, value, scm_nil());
   }
   
-  auto l = cast<SCM_List>(alist);
+  auto l = alist_nodes(alist, "assoc-set!");
   SCM_List dummy = make_list_dummy();
   SCM_List *tail = &dummy;
   bool found = false;
   
-  while (l) {
+  while (l && !l->is_dotted) {
     if (is_pair(l->data)) {
       auto pair = cast<SCM_List>(l->data);
       if (pair->data && _eq(key, pair->data)) {
@@ -132,12 +141,12 @@ SCM *scm_c_assq_set(SCM *alist, SCM *key, SCM *value) {
     return scm_c_acons(key, value, scm_nil());
   }
   
-  auto l = cast<SCM_List>(alist);
+  auto l = alist_nodes(alist, "assq-set!");
   SCM_List dummy = make_list_dummy();
   SCM_List *tail = &dummy;
   bool found = false;
   
-  while (l) {
+  while (l && !l->is_dotted) {
     if (is_pair(l->data)) {
       auto pair = cast<SCM_List>(l->data);
       if (pair->data && is_eq_pointer(key, pair->data)) {
@@ -185,12 +194,12 @@ SCM *scm_c_assoc_remove(SCM *alist, SCM *key) {
     return scm_nil();
   }
   
-  auto l = cast<SCM_List>(alist);
+  auto l = alist_nodes(alist, "assoc-remove!");
   SCM_List dummy = make_list_dummy();
   SCM_List *tail = &dummy;
   bool removed = false;
   
-  while (l) {
+  while (l && !l->is_dotted) {
     if (is_pair(l->data)) {
       auto pair = cast<SCM_List>(l->data);
       if (!removed && pair->data && _eq(key, pair->data)) {
@@ -218,15 +227,12 @@ SCM *scm_c_assoc_remove(SCM *alist, SCM *key) {
 }
 
 SCM *scm_c_assv(SCM *key, SCM *alist) {
-  assert(key);
-  assert(alist);
-  assert(is_pair(alist) || is_nil(alist));
   if (is_nil(alist)) {
     return scm_bool_false();
   }
-  auto l = cast<SCM_List>(alist);
+  auto l = alist_nodes(alist, "assv");
   auto it = l;
-  while (it) {
+  while (it && !it->is_dotted) {
     if (it->data && is_pair(it->data)) {
       auto pair = cast<SCM_List>(it->data);
       if (pair->data && is_true(scm_c_is_eqv(key, pair->data))) {
diff --git a/src/c/list.cc b/src/c/list.cc
index a6f40b6..b4f446e 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -38,6 +38,25 @@ SCM *scm_concat_list2(SCM *arg1, SCM *arg2) {
   return scm_nil();
 }
 
+// The number of elements, or -1 if the list is circular or does not end in the empty list
+static int64_t proper_length(SCM_List *l) {
+  int64_t count = 0;
+  SCM_List *tortoise = l;
+  for (; l; l = l->next) {
+    if (l->is_dotted) {
+      return -1;
+    }
+    count++;
+    if (count % 2 == 0) {
+      tortoise = tortoise->next;
+      if (tortoise == l->next) {
+        return -1;
+      }
+    }
+  }
+  return count;
+}
+
 // Generic list function that takes variable number of arguments
 static SCM *scm_list_impl(SCM_List *args) {
   if (!args) {
@@ -70,14 +89,6 @@ SCM *scm_cons(SCM *car_val, SCM *cdr_val) {
   if (is_pair(cdr_val)) {
     // If cdr is a list, append it
     l->next = cast<SCM_List>(cdr_val);
-    // Check if the appended list is a dotted pair
-    // If so, preserve the is_dotted flag
-    SCM_List *last = l->next;
-    while (last->next) {
-      last = last->next;
-    }
-    // If the last node of cdr is dotted, keep it dotted
-    // Otherwise, it's a proper list, so no change needed
   } else if (is_nil(cdr_val)) {
     // If cdr is nil, just return the list with car
     // (already done, l->next is nullptr)
@@ -138,6 +149,10 @@ SCM *scm_c_list_head(SCM *lst, SCM *k) {
     eval_error("list-head: second argument must be a number");
     return nullptr;
   }
+  if ((int64_t)k->value < 0) {
+    eval_error("list-head: index must be non-negative");
+    return nullptr;
+  }
   
   size_t count = (size_t)(int64_t)k->value;
   
@@ -156,7 +171,7 @@ SCM *scm_c_list_head(SCM *lst, SCM *k) {
   SCM_List *tail = &dummy;
   SCM_List *current = cast<SCM_List>(lst);
   
-  while (count > 0 && current) {
+  while (count > 0 && current && !current->is_dotted) {
     SCM_List *node = make_list(current->data);
     tail->next = node;
     tail = node;
@@ -185,12 +200,16 @@ SCM *scm_c_list_tail(SCM *lst, SCM *k) {
     eval_error("list-tail: second argument must be a number");
     return nullptr;
   }
+  if ((int64_t)k->value < 0) {
+    eval_error("list-tail: index must be non-negative");
+    return nullptr;
+  }
   
   size_t count = (size_t)(int64_t)k->value;
-  SCM_List *current = cast<SCM_List>(lst);
+  SCM_List *current = is_nil(lst) ? nullptr : cast<SCM_List>(lst);
   
   while (count > 0) {
-    if (!current || is_nil(wrap(current))) {
+    if (!current || current->is_dotted) {
       eval_error("list-tail: list too short");
       return nullptr;
     }
@@ -199,7 +218,7 @@ SCM *scm_c_list_tail(SCM *lst, SCM *k) {
   }
   
   if (current) {
-    return wrap(current);
+    return current->is_dotted ? current->data : wrap(current);
   }
   return scm_nil();
 }
@@ -284,6 +303,10 @@ SCM *scm_c_reverse(SCM *lst) {
     eval_error("reverse: argument must be a pair or nil");
     return nullptr;
   }
+  if (proper_length(cast<SCM_List>(lst)) < 0) {
+    eval_error("reverse: argument must be a proper list");
+    return nullptr;
+  }
   
   SCM_List *result = nullptr;
   SCM_List *current = cast<SCM_List>(lst);
@@ -293,7 +316,7 @@ SCM *scm_c_reverse(SCM *lst) {
     new_node->next = result;
     result = new_node;
     
-    if (!current->next || is_nil(wrap(current->next))) {
+    if (!current->next || current->next->is_dotted) {
       break;
     }
     current = current->next;
@@ -333,7 +356,7 @@ SCM *scm_c_list_ref(SCM *lst, SCM *k) {
       return current->data;
     }
     i++;
-    if (!current->next || is_nil(wrap(current->next))) {
+    if (!current->next || current->next->is_dotted) {
       break;
     }
     current = current->next;
@@ -356,20 +379,15 @@ SCM *scm_c_length(SCM *lst) {
     return nullptr;
   }
   
-  int count = 0;
-  SCM_List *current = cast<SCM_List>(lst);
-  
-  while (current) {
-    count++;
-    if (!current->next || is_nil(wrap(current->next))) {
-      break;
-    }
-    current = current->next;
+  int64_t count = proper_length(cast<SCM_List>(lst));
+  if (count < 0) {
+    eval_error("length: argument must be a proper list");
+    return nullptr;
   }
   
   SCM *result = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
   result->type = SCM::NUM;
-  result->value = (void *)(intptr_t)count;
+  result->value = (void *)count;
   result->source_loc = nullptr;
   return result;
 }
@@ -397,7 +415,7 @@ SCM *scm_c_memq(SCM *obj, SCM *lst) {
       // Found a match, return the sublist starting from this element
       return wrap(current);
     }
-    if (!current->next || is_nil(wrap(current->next))) {
+    if (!current->next || current->next->is_dotted) {
       break;
     }
     current = current->next;
@@ -425,7 +443,7 @@ SCM *scm_c_memv(SCM *obj, SCM *lst) {
       // Found a match, return the sublist starting from this element
       return wrap(current);
     }
-    if (!current->next || is_nil(wrap(current->next))) {
+    if (!current->next || current->next->is_dotted) {
       break;
     }
     current = current->next;
@@ -453,7 +471,7 @@ SCM *scm_c_member(SCM *obj, SCM *lst) {
       // Found a match, return the sublist starting from this element
       return wrap(current);
     }
-    if (!current->next || is_nil(wrap(current->next))) {
+    if (!current->next || current->next->is_dotted) {
       break;
     }
     current = current->next;
-- 
2.43.0


From eacf0a3f10615e9e65888debdf067f80023373c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 31/91] fix: hash tables hash alike what they hold equal, and
 values set through handles are read back

---
 src/c/hash_table.cc | 228 +++++++++++++++++++++++---------------------
 src/c/module.cc     |  22 +----
 src/c/pscm.h        |   1 +
 3 files changed, 124 insertions(+), 127 deletions(-)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index 8d2fddb..5d41540 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -11,23 +11,43 @@ static inline unsigned long hash_string_content(const char *data, int len) {
   return h;
 }
 
-// Hash function for eq? (pointer equality)
-static unsigned long scm_hash_code_eq(SCM *key) {
-  // For symbols, use content-based hash (same as equal?) to ensure compatibility
-  // This allows hash-set! and hashq-get-handle to work on the same table
-  // In Guile, symbols are interned so eq? and equal? hash to the same value
-  if (is_sym(key)) {
-    auto sym = cast<SCM_Symbol>(key);
-    return hash_string_content(sym->data, sym->len);
+// Hash functions. Whatever a comparison holds equal has to hash alike, and symbols (and everything
+// else eq?, eqv? and equal? agree on) hash alike under all three, so that hash-set! and
+// hashq-get-handle work on the same table.
+
+// Numbers: 1 and 1.0 are equal
+static unsigned long hash_number(SCM *key) {
+  if (is_float(key)) {
+    double d = ptr_to_double(key->value);
+    if (d >= -9.2e18 && d <= 9.2e18 && d == (double)(int64_t)d) {
+      return (unsigned long)(int64_t)d;
+    }
+    return hash_string_content((const char *)&d, sizeof(d));
+  }
+  if (is_ratio(key)) {
+    auto r = cast<SCM_Rational>(key);
+    return (unsigned long)r->numerator * 31 + (unsigned long)r->denominator;
+  }
+  // An integer beyond 2^53 can equal a float that is not exactly it
+  int64_t n = (int64_t)key->value;
+  if (n > (1LL << 53) || n < -(1LL << 53)) {
+    double d = (double)n;
+    if (d >= -9.2e18 && d <= 9.2e18) {
+      return (unsigned long)(int64_t)d;
+    }
+    return hash_string_content((const char *)&d, sizeof(d));
   }
-  // For eq?, use pointer address as hash
-  return (unsigned long)(uintptr_t)key;
+  return (unsigned long)n;
 }
 
-// Hash function for eqv? (value equality for numbers/chars)
+// Hash function for eqv?: value of numbers and characters, identity of objects
 static unsigned long scm_hash_code_eqv(SCM *key) {
-  if (is_num(key)) {
-    return (unsigned long)(int64_t)key->value;
+  if (is_sym(key)) {
+    auto sym = cast<SCM_Symbol>(key);
+    return hash_string_content(sym->data, sym->len);
+  }
+  if (is_num(key) || is_float(key) || is_ratio(key)) {
+    return hash_number(key);
   }
   if (is_char(key)) {
     return (unsigned char)ptr_to_char(key->value);
@@ -35,101 +55,90 @@ static unsigned long scm_hash_code_eqv(SCM *key) {
   if (is_bool(key)) {
     return is_true(key) ? 1 : 0;
   }
-  // Fallback to pointer hash
-  return scm_hash_code_eq(key);
+  if (is_nil(key) || key->type == SCM::NONE) {
+    return key->type;
+  }
+  // What the wrapper points to, as for eq?
+  return (unsigned long)(uintptr_t)key->value;
 }
 
-// Hash function for equal? (deep equality)
-// Helper function to compute hash code for a list recursively
-static unsigned long hash_list_content(SCM *list) {
-  if (!list || !is_pair(list)) {
-    return 0;
-  }
-  auto l = cast<SCM_List>(list);
-  unsigned long hash = 0;
-  while (l) {
-    // Hash the car
-    unsigned long car_hash = 0;
-    if (is_sym(l->data)) {
-      auto sym = cast<SCM_Symbol>(l->data);
-      car_hash = hash_string_content(sym->data, sym->len);
-    } else if (is_str(l->data)) {
-      auto str = cast<SCM_String>(l->data);
-      car_hash = hash_string_content(str->data, str->len);
-    } else if (is_num(l->data)) {
-      car_hash = (unsigned long)(int64_t)l->data->value;
-    } else if (is_pair(l->data)) {
-      car_hash = hash_list_content(l->data);
-    } else {
-      car_hash = (unsigned long)(uintptr_t)l->data;
-    }
-    // Combine hashes
-    hash = hash * 31 + car_hash;
-    l = l->next;
-  }
-  return hash;
+// Hash function for eq?: the same
+static unsigned long scm_hash_code_eq(SCM *key) {
+  return scm_hash_code_eqv(key);
 }
 
+// Hash function for equal?: content of strings, lists and vectors
 static unsigned long scm_hash_code_equal(SCM *key) {
-  // For symbols, use content-based hash (not pointer-based) for equal?
-  // This ensures that different symbol objects with the same name hash to the same value
-  if (is_sym(key)) {
-    auto sym = cast<SCM_Symbol>(key);
-    return hash_string_content(sym->data, sym->len);
-  }
-  // For strings, use content-based hash
   if (is_str(key)) {
     auto str = cast<SCM_String>(key);
     return hash_string_content(str->data, str->len);
   }
-  // For numbers, use value-based hash
-  if (is_num(key)) {
-    return (unsigned long)(int64_t)key->value;
-  }
-  // For lists, use content-based hash
   if (is_pair(key)) {
-    return hash_list_content(key);
+    unsigned long hash = 0;
+    for (auto l = cast<SCM_List>(key); l; l = l->next) {
+      if (l->is_dotted && is_pair(l->data)) {
+        // a tail that is a list is the rest of the list
+        l = cast<SCM_List>(l->data);
+      }
+      hash = hash * 31 + scm_hash_code_equal(l->data);
+    }
+    return hash;
+  }
+  if (is_vector(key)) {
+    auto vec = cast<SCM_Vector>(key);
+    unsigned long hash = vec->length;
+    for (size_t i = 0; i < vec->length; i++) {
+      hash = hash * 31 + scm_hash_code_equal(vec->elements[i]);
+    }
+    return hash;
   }
-  // Fallback to pointer hash
-  return scm_hash_code_eq(key);
+  if (key->type == SCM::SMOB) {
+    // equal? of smobs is up to their type
+    return SCM::SMOB;
+  }
+  return scm_hash_code_eqv(key);
 }
 
 // Comparison functions
+// Strings are told apart by identity under eq? and eqv?: equal literals are different keys
 static bool scm_cmp_eq(SCM *lhs, SCM *rhs) {
-  // For symbols, use content-based comparison (same as equal?) to ensure compatibility
-  // This allows hash-set! and hashq-get-handle to work on the same table
-  // In Guile, symbols are interned so eq? and equal? return the same value
-  if (is_sym(lhs) && is_sym(rhs)) {
-    auto sym1 = cast<SCM_Symbol>(lhs);
-    auto sym2 = cast<SCM_Symbol>(rhs);
-    if (sym1->len != sym2->len) {
-      return false;
-    }
-    // Use memcmp since we already know lengths are equal
-    return memcmp(sym1->data, sym2->data, sym1->len) == 0;
+  if (is_str(lhs) && is_str(rhs)) {
+    return lhs->value == rhs->value;
   }
-  return lhs == rhs;
+  return is_true(scm_c_is_eq(lhs, rhs));
 }
 
 static bool scm_cmp_eqv(SCM *lhs, SCM *rhs) {
-  if (lhs == rhs) return true;
-  if (lhs->type != rhs->type) return false;
-  if (is_num(lhs)) {
+  if (is_str(lhs) && is_str(rhs)) {
     return lhs->value == rhs->value;
   }
-  if (is_char(lhs)) {
-    return ptr_to_char(lhs->value) == ptr_to_char(rhs->value);
-  }
-  if (is_bool(lhs)) {
-    return is_true(lhs) == is_true(rhs);
-  }
-  return lhs == rhs;
+  return is_true(scm_c_is_eqv(lhs, rhs));
 }
 
 static bool scm_cmp_equal(SCM *lhs, SCM *rhs) {
   return _eq(lhs, rhs);
 }
 
+// The value of an entry, which a program may have changed through its handle
+static SCM *entry_value(SCM_List *entry) {
+  if (!entry->next) {
+    return scm_nil();
+  }
+  return entry->next->is_dotted ? entry->next->data : wrap(entry->next);
+}
+
+// The entry as the pair a program gets: a value that is a list is the rest of the pair
+static SCM *entry_handle(SCM_List *entry) {
+  if (entry->next && entry->next->is_dotted) {
+    if (is_nil(entry->next->data)) {
+      entry->next = nullptr;
+    } else if (is_pair(entry->next->data)) {
+      entry->next = cast<SCM_List>(entry->next->data);
+    }
+  }
+  return wrap(entry);
+}
+
 // Helper function to validate hash table and compute bucket index
 // Returns the hash table pointer, or nullptr if invalid
 static SCM_HashTable *validate_and_get_bucket_idx(SCM *table, SCM *key,
@@ -147,13 +156,9 @@ static SCM_HashTable *validate_and_get_bucket_idx(SCM *table, SCM *key,
 
 // Helper function to update existing entry's value
 static void update_entry_value(SCM_List *entry, SCM *value) {
-  if (entry->next) {
-    entry->next->data = value;
-    entry->next->is_dotted = true;  // Ensure it's marked as dotted pair
-  } else {
-    entry->next = make_list(value);
-    entry->next->is_dotted = true;  // Mark as dotted pair's cdr
-  }
+  // A fresh node: the present one may be shared with a list the program stored through the handle
+  entry->next = make_list(value);
+  entry->next->is_dotted = true;  // Mark as dotted pair's cdr
 }
 
 // Helper function to find entry in bucket
@@ -244,9 +249,14 @@ SCM *scm_c_make_hash_table(SCM *size_arg) {
       eval_error("make-hash-table: size must be an integer");
       return nullptr;
     }
-    capacity = (size_t)(int64_t)size_arg->value;
-    if (capacity == 0) {
-      capacity = 31;
+    int64_t size = (int64_t)size_arg->value;
+    if (size < 0) {
+      eval_error("make-hash-table: size must not be negative");
+      return nullptr;
+    }
+    if (size > 0) {
+      // The size is a hint
+      capacity = size < (1 << 20) ? (size_t)size : (1 << 20);
     }
   }
   
@@ -297,20 +307,23 @@ SCM *scm_c_hash_ref(SCM *table, SCM *key,
   
   auto entry = find_entry_in_bucket(hash_table->buckets[idx], key, cmp_func);
   if (entry) {
-    // entry is (key . value) pair
-    // If entry->next is nullptr, it means value is nil (from scm_cons when cdr is nil)
-    // If entry->next exists, entry->next->data is the value
-    if (entry->next) {
-      return entry->next->data;
-    } else {
-      // entry->next is nullptr means value is nil
-      return scm_nil();
-    }
+    return entry_value(entry);
   }
   
   return scm_bool_false();
 }
 
+// The value of a key compared by eq?, or nullptr if the table has no such key
+SCM *scm_c_hash_lookup_eq(SCM *table, SCM *key) {
+  size_t idx;
+  auto hash_table = validate_and_get_bucket_idx(table, key, scm_hash_code_eq, &idx, "hash-lookup");
+  if (!hash_table) {
+    return nullptr;
+  }
+  auto entry = find_entry_in_bucket(hash_table->buckets[idx], key, scm_cmp_eq);
+  return entry ? entry_value(entry) : nullptr;
+}
+
 // hash-get-handle: Get handle (key . value) pair from hash table
 SCM *scm_c_hash_get_handle(SCM *table, SCM *key,
                            unsigned long (*hash_func)(SCM *),
@@ -324,8 +337,7 @@ SCM *scm_c_hash_get_handle(SCM *table, SCM *key,
   auto entry = find_entry_in_bucket(hash_table->buckets[idx], key, cmp_func);
   if (entry) {
     // entry is SCM_List* representing (key . value)
-    // Return the entry pair directly (wrapped)
-    return wrap(entry);
+    return entry_handle(entry);
   }
   
   return scm_bool_false();
@@ -344,13 +356,13 @@ SCM *scm_c_hash_create_handle(SCM *table, SCM *key, SCM *value,
   // Check if key already exists
   auto entry = find_entry_in_bucket(hash_table->buckets[idx], key, cmp_func);
   if (entry) {
-    update_entry_value(entry, value);
-    // Return the entry pair (key . value)
-    return scm_cons(entry->data, entry->next->data);
+    // An existing entry keeps its value
+    return entry_handle(entry);
   }
   
   // Create new entry and insert at head of bucket
-  return insert_entry_to_bucket(hash_table, idx, key, value);
+  insert_entry_to_bucket(hash_table, idx, key, value);
+  return entry_handle(find_entry_in_bucket(hash_table->buckets[idx], key, cmp_func));
 }
 
 // hash-remove!: Remove a key from hash table
@@ -389,9 +401,9 @@ SCM *scm_c_hash_fold(SCM *proc, SCM *init, SCM *table,
       while (l) {
         if (is_pair(l->data)) {
           auto entry = cast<SCM_List>(l->data);
-          if (entry->data && entry->next) {
+          if (entry->data) {
             SCM *key = entry->data;
-            SCM *value = entry->next->data;
+            SCM *value = entry_value(entry);
             
             // Call proc with (key value result)
             // Build call expression: (proc key value result)
diff --git a/src/c/module.cc b/src/c/module.cc
index b0a61cb..a192844 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -68,23 +68,7 @@ SCM *scm_set_current_module(SCM *module) {
 // This allows us to distinguish between "not found" and "value is #f"
 SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym) {
   
-  SCM *handle = scm_c_hash_get_handle_eq(wrap(module->obarray), wrap(sym));
-  // hash-get-handle returns #f if key not found, or (key . value) if found
-  // We check if handle is #f (not found) vs. a pair (found, value could be #f)
-  if (handle && handle != scm_bool_false() && is_pair(handle)) {
-    // Handle exists (it's a pair, not #f)
-    // handle is the entry pair (key . value) wrapped
-    auto pair = cast<SCM_List>(handle);
-    // pair->data is the key, pair->next->data is the value
-    if (pair->next) {
-      return pair->next->data;  // Return value (can be #f)
-    } else {
-      // value is nil (entry->next is nullptr)
-      return scm_nil();
-    }
-  }
-  
-  return nullptr;  // Not found
+  return scm_c_hash_lookup_eq(wrap(module->obarray), wrap(sym));
 }
 
 // Helper function to search variable in module (obarray, uses list, root module, binder, and autoload)
@@ -996,9 +980,9 @@ SCM *scm_c_module_map(SCM_List *args) {
       while (l) {
         if (is_pair(l->data)) {
           auto entry = cast<SCM_List>(l->data);
-          if (entry->data && entry->next) {
+          if (entry->data) {
             SCM *key = entry->data;  // Symbol
-            SCM *value = entry->next->data;  // Variable value
+            SCM *value = cdr(l->data);  // Variable value
             
             // Call proc with (key value)
             // Build call expression: (proc key value)
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 81463ae..8a372b1 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -1012,6 +1012,7 @@ SCM *scm_c_hash_ref_eq(SCM *table, SCM *key);
 SCM *scm_c_hash_ref_eqv(SCM *table, SCM *key);
 SCM *scm_c_hash_ref_equal(SCM *table, SCM *key);
 SCM *scm_c_hash_get_handle_eq(SCM *table, SCM *key);
+SCM *scm_c_hash_lookup_eq(SCM *table, SCM *key);
 SCM *scm_c_hash_get_handle_eqv(SCM *table, SCM *key);
 SCM *scm_c_hash_get_handle_equal(SCM *table, SCM *key);
 
-- 
2.43.0


From aded715f7b4dfb84b970bf6071c44b2c37b80faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:48 +0000
Subject: [PATCH 32/91] fix: arithmetic is exact or an error: overflow, ratios,
 mixed comparison, wrong types

---
 src/c/number.cc    | 757 +++++++++++++++------------------------------
 src/c/predicate.cc |  18 +-
 2 files changed, 268 insertions(+), 507 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 8082c2e..3530595 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -1,247 +1,187 @@
 #include "pscm.h"
 #include "eval.h"
-#include <type_traits>
 #include <cmath>
 
 // Forward declaration
 SCM *scm_make_ratio(int64_t numerator, int64_t denominator);
 
-SCM *scm_c_is_negative(SCM *arg) {
-  if (!is_num(arg) && !is_float(arg)) {
-    eval_error("negative?: expected number");
-    return nullptr;
-  }
-  double val = scm_to_double(arg);
-  if (val < 0) {
-    return scm_bool_true();
-  }
-  return scm_bool_false();
+// Exact numbers are 64-bit integers and ratios of them. Results are computed in 128 bits and have to
+// fit: what does not is an error, never a wrapped-around value.
+static bool is_any_number(SCM *arg) {
+  return arg && (is_num(arg) || is_float(arg) || is_ratio(arg));
 }
 
-SCM *scm_c_is_positive(SCM *arg) {
-  if (!is_num(arg) && !is_float(arg)) {
-    eval_error("positive?: expected number");
-    return nullptr;
+static void check_number(SCM *arg, const char *op) {
+  if (!is_any_number(arg)) {
+    eval_error("%s: expected number", op);
   }
-  double val = scm_to_double(arg);
-  if (val > 0) {
-    return scm_bool_true();
-  }
-  return scm_bool_false();
 }
 
-SCM *scm_c_is_odd(SCM *arg) {
-  if (!is_num(arg) && !is_float(arg)) {
-    eval_error("odd?: expected number");
-    return nullptr;
-  }
-  double val = scm_to_double(arg);
-  // Check if it's an integer
-  if (val != (double)(int64_t)val) {
-    eval_error("odd?: expected integer");
-    return nullptr;
-  }
-  int64_t n = (int64_t)val;
-  if (n % 2 != 0) {
-    return scm_bool_true();
+// Numerator and denominator of an exact number
+static void exact_parts(SCM *arg, __int128 &num, __int128 &den) {
+  if (is_ratio(arg)) {
+    SCM_Rational *rat = cast<SCM_Rational>(arg);
+    num = rat->numerator;
+    den = rat->denominator;
+  } else {
+    num = (int64_t)arg->value;
+    den = 1;
   }
-  return scm_bool_false();
 }
 
-SCM *scm_c_is_even(SCM *arg) {
-  if (!is_num(arg) && !is_float(arg)) {
-    eval_error("even?: expected number");
-    return nullptr;
+static SCM *make_exact(__int128 num, __int128 den, const char *op) {
+  __int128 a = num < 0 ? -num : num;
+  __int128 b = den < 0 ? -den : den;
+  while (b != 0) {
+    __int128 t = a % b;
+    a = b;
+    b = t;
   }
-  double val = scm_to_double(arg);
-  // Check if it's an integer
-  if (val != (double)(int64_t)val) {
-    eval_error("even?: expected integer");
-    return nullptr;
+  if (a != 0) {
+    num /= a;
+    den /= a;
   }
-  int64_t n = (int64_t)val;
-  if (n % 2 == 0) {
-    return scm_bool_true();
+  if (den < 0) {
+    num = -num;
+    den = -den;
   }
-  return scm_bool_false();
-}
-
-SCM *scm_c_is_zero(SCM *arg) {
-  if (!is_num(arg) && !is_float(arg) && !is_ratio(arg)) {
-    eval_error("zero?: expected number");
+  if (num > INT64_MAX || num < INT64_MIN || den > INT64_MAX) {
+    eval_error("%s: numeric overflow", op);
     return nullptr;
   }
-  double val = scm_to_double(arg);
-  if (val == 0.0) {
-    return scm_bool_true();
-  }
-  return scm_bool_false();
-}
-
-// Type promotion: if either operand is float, promote both to float
-static bool needs_float_promotion(SCM *lhs, SCM *rhs) {
-  return is_float(lhs) || is_float(rhs);
-}
-
-template <typename Op>
-struct BinaryOperator {
-  static SCM *run(SCM *lhs, SCM *rhs) {
-    // Check if we need float promotion
-    if (needs_float_promotion(lhs, rhs)) {
-      // Float operation: convert both to double and use double arithmetic
-      double d_lhs = scm_to_double(lhs);
-      double d_rhs = scm_to_double(rhs);
-      // For floating point operations, we need to use double arithmetic
-      // Create a double version of the operation by calling the template with double types
-      // Since Op is templated, we can instantiate it with double
-      using DoubleRet = decltype(Op::run(0.0, 0.0));
-      auto ret = Op::run(d_lhs, d_rhs);
-      if constexpr (std::is_same_v<DoubleRet, bool>) {
-        return ret ? scm_bool_true() : scm_bool_false();
-      } else {
-        return scm_from_double(ret);
-      }
-    } else {
-      // Integer operation
-      assert(is_num(lhs));
-      assert(is_num(rhs));
-      int64_t n_lhs = (int64_t)lhs->value;
-      int64_t n_rhs = (int64_t)rhs->value;
-      auto ret = Op::run(n_lhs, n_rhs);
-      if constexpr (std::is_same_v<decltype(ret), bool>) {
-        return ret ? scm_bool_true() : scm_bool_false();
-      } else {
-        SCM *data = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
-        data->type = SCM::NUM;
-        data->value = (void *)ret;
-        return data;
-      }
+  return scm_make_ratio((int64_t)num, (int64_t)den);
+}
+
+// -1, 0 or 1 as lhs is less than, equal to or greater than rhs; 2 if they are not ordered (NaN)
+static int compare_numbers(SCM *lhs, SCM *rhs, const char *op) {
+  check_number(lhs, op);
+  check_number(rhs, op);
+  if (!is_float(lhs) && !is_float(rhs)) {
+    __int128 n1, d1, n2, d2;
+    exact_parts(lhs, n1, d1);
+    exact_parts(rhs, n2, d2);
+    __int128 l = n1 * d2, r = n2 * d1;
+    return l < r ? -1 : l > r ? 1 : 0;
+  }
+  if (is_num(rhs)) {
+    int c = compare_numbers(rhs, lhs, op);
+    return c == 2 ? 2 : -c;
+  }
+  double r = scm_to_double(rhs);
+  if (is_num(lhs) && r == r) {
+    // An integer need not have a double: compare with the integer part, then with the rest
+    if (r >= 9223372036854775808.0) {
+      return -1;
     }
+    if (r < -9223372036854775808.0) {
+      return 1;
+    }
+    double whole = std::floor(r);
+    int64_t n = (int64_t)lhs->value, w = (int64_t)whole;
+    return n < w ? -1 : n > w ? 1 : whole < r ? -1 : 0;
   }
-};
-
-template <typename Ret, typename T>
-struct AddOp {
-  static Ret run(T lhs, T rhs) {
-    return lhs + rhs;
-  }
-};
-
-// Specialization for double to ensure proper floating-point arithmetic
-template <>
-struct AddOp<double, double> {
-  static double run(double lhs, double rhs) {
-    return lhs + rhs;
-  }
-};
+  double l = scm_to_double(lhs);
+  return l < r ? -1 : l > r ? 1 : l == r ? 0 : 2;
+}
 
-template <typename Ret, typename T>
-struct MinusOp {
-  static Ret run(T lhs, T rhs) {
-    return lhs - rhs;
+static int sign_of(SCM *arg, const char *op) {
+  check_number(arg, op);
+  if (is_float(arg)) {
+    double val = ptr_to_double(arg->value);
+    return val < 0 ? -1 : val > 0 ? 1 : 0;
   }
-};
+  int64_t n = is_ratio(arg) ? cast<SCM_Rational>(arg)->numerator : (int64_t)arg->value;
+  return n < 0 ? -1 : n > 0 ? 1 : 0;
+}
 
-template <>
-struct MinusOp<double, double> {
-  static double run(double lhs, double rhs) {
-    return lhs - rhs;
-  }
-};
+SCM *scm_c_is_negative(SCM *arg) {
+  return sign_of(arg, "negative?") < 0 ? scm_bool_true() : scm_bool_false();
+}
 
-template <typename Ret, typename T>
-struct MulOp {
-  static Ret run(T lhs, T rhs) {
-    return lhs * rhs;
-  }
-};
+SCM *scm_c_is_positive(SCM *arg) {
+  return sign_of(arg, "positive?") > 0 ? scm_bool_true() : scm_bool_false();
+}
 
-template <>
-struct MulOp<double, double> {
-  static double run(double lhs, double rhs) {
-    return lhs * rhs;
+static bool is_odd(SCM *arg, const char *op) {
+  if (!is_num(arg) && !is_float(arg)) {
+    eval_error("%s: expected number", op);
   }
-};
-
-template <typename Ret, typename T>
-struct LtEqOp {
-  static Ret run(T lhs, T rhs) {
-    return lhs <= rhs;
+  if (is_float(arg)) {
+    double val = ptr_to_double(arg->value);
+    double rem = std::fmod(val, 2.0);
+    if (rem != 0.0 && rem != 1.0 && rem != -1.0) {
+      eval_error("%s: expected integer", op);
+    }
+    return rem != 0.0;
   }
-};
+  return (int64_t)arg->value % 2 != 0;
+}
 
-template <typename Ret, typename T>
-struct GtEqOp {
-  static Ret run(T lhs, T rhs) {
-    return lhs >= rhs;
-  }
-};
+SCM *scm_c_is_odd(SCM *arg) {
+  return is_odd(arg, "odd?") ? scm_bool_true() : scm_bool_false();
+}
 
-template <typename Ret, typename T>
-struct GtOp {
-  static Ret run(T lhs, T rhs) {
-    return lhs > rhs;
-  }
-};
+SCM *scm_c_is_even(SCM *arg) {
+  return is_odd(arg, "even?") ? scm_bool_false() : scm_bool_true();
+}
 
-template <typename Ret, typename T>
-struct LtOp {
-  static Ret run(T lhs, T rhs) {
-    return lhs < rhs;
+SCM *scm_c_is_zero(SCM *arg) {
+  check_number(arg, "zero?");
+  if (is_float(arg)) {
+    return ptr_to_double(arg->value) == 0.0 ? scm_bool_true() : scm_bool_false();
   }
-};
+  return sign_of(arg, "zero?") == 0 ? scm_bool_true() : scm_bool_false();
+}
 
-template <typename Ret, typename T>
-struct EqOp {
-  static Ret run(T lhs, T rhs) {
-    return lhs == rhs;
-  }
-};
+// Type promotion: if either operand is float, promote both to float
+static bool needs_float_promotion(SCM *lhs, SCM *rhs) {
+  return is_float(lhs) || is_float(rhs);
+}
 
 SCM *scm_c_eq_number(SCM *lhs, SCM *rhs) {
-  // Use double comparison for mixed types
-  if (needs_float_promotion(lhs, rhs)) {
-    double d_lhs = scm_to_double(lhs);
-    double d_rhs = scm_to_double(rhs);
-    return (d_lhs == d_rhs) ? scm_bool_true() : scm_bool_false();
-  }
-  return BinaryOperator<EqOp<bool, int64_t>>::run(lhs, rhs);
+  return compare_numbers(lhs, rhs, "=") == 0 ? scm_bool_true() : scm_bool_false();
 }
 
 SCM *scm_c_add_number(SCM *lhs, SCM *rhs) {
+  check_number(lhs, "+");
+  check_number(rhs, "+");
   // Handle float promotion directly
   if (needs_float_promotion(lhs, rhs)) {
     double d_lhs = scm_to_double(lhs);
     double d_rhs = scm_to_double(rhs);
     return scm_from_double(d_lhs + d_rhs);
   }
-  return BinaryOperator<AddOp<int64_t, int64_t>>::run(lhs, rhs);
+  __int128 n1, d1, n2, d2;
+  exact_parts(lhs, n1, d1);
+  exact_parts(rhs, n2, d2);
+  return make_exact(n1 * d2 + n2 * d1, d1 * d2, "+");
 }
 
 SCM *scm_c_minus_number(SCM *lhs, SCM *rhs) {
+  check_number(lhs, "-");
+  check_number(rhs, "-");
   // Handle float promotion directly
   if (needs_float_promotion(lhs, rhs)) {
     double d_lhs = scm_to_double(lhs);
     double d_rhs = scm_to_double(rhs);
     return scm_from_double(d_lhs - d_rhs);
   }
-  return BinaryOperator<MinusOp<int64_t, int64_t>>::run(lhs, rhs);
+  __int128 n1, d1, n2, d2;
+  exact_parts(lhs, n1, d1);
+  exact_parts(rhs, n2, d2);
+  return make_exact(n1 * d2 - n2 * d1, d1 * d2, "-");
 }
 
 // Unary minus: negate a number (supports both int and float)
 SCM *scm_c_negate_number(SCM *arg) {
+  check_number(arg, "-");
   if (is_float(arg)) {
     double val = ptr_to_double(arg->value);
     return scm_from_double(-val);
-  } else if (is_num(arg)) {
-    int64_t val = (int64_t)arg->value;
-    SCM *data = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
-    data->type = SCM::NUM;
-    data->value = (void *)(-val);
-    return data;
   }
-  eval_error("negate: expected number");
-  return nullptr;
+  __int128 num, den;
+  exact_parts(arg, num, den);
+  return make_exact(-num, den, "-");
 }
 
 // Wrapper for - that handles both unary and binary cases
@@ -273,11 +213,6 @@ SCM *scm_c_minus_wrapper(SCM_List *args) {
       eval_error("-: invalid argument");
       return nullptr;
     }
-    // Check if argument is a number
-    if (!is_num(args->data) && !is_float(args->data)) {
-      eval_error("-: expected number");
-      return nullptr;
-    }
     return scm_c_negate_number(args->data);
   } else {
     // Binary or more: subtract from first
@@ -292,86 +227,37 @@ SCM *scm_c_minus_wrapper(SCM_List *args) {
 }
 
 SCM *scm_c_mul_number(SCM *lhs, SCM *rhs) {
-  // Handle ratio (rational number) multiplication
-  if (is_ratio(lhs) || is_ratio(rhs)) {
-    // Convert both to numerator/denominator form
-    int64_t num1, den1, num2, den2;
-    
-    if (is_num(lhs)) {
-      num1 = (int64_t)lhs->value;
-      den1 = 1;
-    } else if (is_ratio(lhs)) {
-      SCM_Rational *rat = cast<SCM_Rational>(lhs);
-      num1 = rat->numerator;
-      den1 = rat->denominator;
-    } else {
-      // For floats, use float arithmetic
-      double d_lhs = scm_to_double(lhs);
-      double d_rhs = scm_to_double(rhs);
-      return scm_from_double(d_lhs * d_rhs);
-    }
-    
-    if (is_num(rhs)) {
-      num2 = (int64_t)rhs->value;
-      den2 = 1;
-    } else if (is_ratio(rhs)) {
-      SCM_Rational *rat = cast<SCM_Rational>(rhs);
-      num2 = rat->numerator;
-      den2 = rat->denominator;
-    } else {
-      // For floats, use float arithmetic
-      double d_lhs = scm_to_double(lhs);
-      double d_rhs = scm_to_double(rhs);
-      return scm_from_double(d_lhs * d_rhs);
-    }
-    
-    // Multiply: (a/b) * (c/d) = (a*c)/(b*d)
-    return scm_make_ratio(num1 * num2, den1 * den2);
-  }
-  
+  check_number(lhs, "*");
+  check_number(rhs, "*");
   // Handle float promotion directly
   if (needs_float_promotion(lhs, rhs)) {
     double d_lhs = scm_to_double(lhs);
     double d_rhs = scm_to_double(rhs);
     return scm_from_double(d_lhs * d_rhs);
   }
-  return BinaryOperator<MulOp<int64_t, int64_t>>::run(lhs, rhs);
+  // Multiply: (a/b) * (c/d) = (a*c)/(b*d)
+  __int128 n1, d1, n2, d2;
+  exact_parts(lhs, n1, d1);
+  exact_parts(rhs, n2, d2);
+  return make_exact(n1 * n2, d1 * d2, "*");
 }
 
 SCM *scm_c_lt_eq_number(SCM *lhs, SCM *rhs) {
-  if (needs_float_promotion(lhs, rhs)) {
-    double d_lhs = scm_to_double(lhs);
-    double d_rhs = scm_to_double(rhs);
-    return (d_lhs <= d_rhs) ? scm_bool_true() : scm_bool_false();
-  }
-  return BinaryOperator<LtEqOp<bool, int64_t>>::run(lhs, rhs);
+  int c = compare_numbers(lhs, rhs, "<=");
+  return c == -1 || c == 0 ? scm_bool_true() : scm_bool_false();
 }
 
 SCM *scm_c_gt_eq_number(SCM *lhs, SCM *rhs) {
-  if (needs_float_promotion(lhs, rhs)) {
-    double d_lhs = scm_to_double(lhs);
-    double d_rhs = scm_to_double(rhs);
-    return (d_lhs >= d_rhs) ? scm_bool_true() : scm_bool_false();
-  }
-  return BinaryOperator<GtEqOp<bool, int64_t>>::run(lhs, rhs);
+  int c = compare_numbers(lhs, rhs, ">=");
+  return c == 1 || c == 0 ? scm_bool_true() : scm_bool_false();
 }
 
 SCM *scm_c_lt_number(SCM *lhs, SCM *rhs) {
-  if (needs_float_promotion(lhs, rhs)) {
-    double d_lhs = scm_to_double(lhs);
-    double d_rhs = scm_to_double(rhs);
-    return (d_lhs < d_rhs) ? scm_bool_true() : scm_bool_false();
-  }
-  return BinaryOperator<LtOp<bool, int64_t>>::run(lhs, rhs);
+  return compare_numbers(lhs, rhs, "<") == -1 ? scm_bool_true() : scm_bool_false();
 }
 
 SCM *scm_c_gt_number(SCM *lhs, SCM *rhs) {
-  if (needs_float_promotion(lhs, rhs)) {
-    double d_lhs = scm_to_double(lhs);
-    double d_rhs = scm_to_double(rhs);
-    return (d_lhs > d_rhs) ? scm_bool_true() : scm_bool_false();
-  }
-  return BinaryOperator<GtOp<bool, int64_t>>::run(lhs, rhs);
+  return compare_numbers(lhs, rhs, ">") == 1 ? scm_bool_true() : scm_bool_false();
 }
 
 // Multi-argument comparison functions (chain comparisons)
@@ -492,13 +378,13 @@ SCM *scm_c_ge_chain(SCM_List *args) {
 }
 
 SCM *scm_c_abs(SCM *arg) {
-  assert(is_num(arg));
-  int64_t val = (int64_t)arg->value;
-  int64_t abs_val = val < 0 ? -val : val;
-  SCM *data = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
-  data->type = SCM::NUM;
-  data->value = (void *)abs_val;
-  return data;
+  check_number(arg, "abs");
+  if (is_float(arg)) {
+    return scm_from_double(std::fabs(ptr_to_double(arg->value)));
+  }
+  __int128 num, den;
+  exact_parts(arg, num, den);
+  return make_exact(num < 0 ? -num : num, den, "abs");
 }
 
 SCM *scm_c_sqrt(SCM *arg) {
@@ -516,34 +402,39 @@ SCM *scm_c_sqrt(SCM *arg) {
 }
 
 bool _number_eq(SCM *lhs, SCM *rhs) {
-  if (needs_float_promotion(lhs, rhs)) {
-    double d_lhs = scm_to_double(lhs);
-    double d_rhs = scm_to_double(rhs);
-    return d_lhs == d_rhs;
-  }
-  auto ret = BinaryOperator<EqOp<bool, int64_t>>::run(lhs, rhs);
-  return is_true(ret);
+  return compare_numbers(lhs, rhs, "=") == 0;
 }
 
 SCM *_create_num(int64_t val) {
   SCM *data = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
   data->type = SCM::NUM;
   data->value = (void *)val;
+  data->source_loc = nullptr;
   return data;
 }
 
 // Helper function to compute GCD
-static int64_t gcd(int64_t a, int64_t b) {
-  a = a < 0 ? -a : a;
-  b = b < 0 ? -b : b;
+static uint64_t magnitude(int64_t a) {
+  return a < 0 ? 0 - (uint64_t)a : (uint64_t)a;
+}
+
+static uint64_t gcd(uint64_t a, uint64_t b) {
   while (b != 0) {
-    int64_t temp = b;
+    uint64_t temp = b;
     b = a % b;
     a = temp;
   }
   return a;
 }
 
+static SCM *create_num_from_magnitude(uint64_t val, const char *op) {
+  if (val > INT64_MAX) {
+    eval_error("%s: numeric overflow", op);
+    return nullptr;
+  }
+  return _create_num((int64_t)val);
+}
+
 // gcd: Return the greatest common divisor of the arguments
 // R5RS: (gcd n1 ...) -> integer
 SCM *scm_c_gcd(SCM_List *args) {
@@ -558,8 +449,7 @@ SCM *scm_c_gcd(SCM_List *args) {
     return nullptr;
   }
   
-  int64_t result = (int64_t)first->value;
-  result = result < 0 ? -result : result;  // abs
+  uint64_t result = magnitude((int64_t)first->value);
   
   SCM_List *current = args->next;
   while (current) {
@@ -568,12 +458,11 @@ SCM *scm_c_gcd(SCM_List *args) {
       eval_error("gcd: expected integer");
       return nullptr;
     }
-    int64_t val = (int64_t)arg->value;
-    result = gcd(result, val);
+    result = gcd(result, magnitude((int64_t)arg->value));
     current = current->next;
   }
   
-  return _create_num(result);
+  return create_num_from_magnitude(result, "gcd");
 }
 
 // lcm: Return the least common multiple of the arguments
@@ -591,8 +480,7 @@ SCM *scm_c_lcm(SCM_List *args) {
     return nullptr;
   }
   
-  int64_t result = (int64_t)first->value;
-  result = result < 0 ? -result : result;  // abs
+  uint64_t result = magnitude((int64_t)first->value);
   
   SCM_List *current = args->next;
   while (current) {
@@ -601,20 +489,19 @@ SCM *scm_c_lcm(SCM_List *args) {
       eval_error("lcm: expected integer");
       return nullptr;
     }
-    int64_t val = (int64_t)arg->value;
-    val = val < 0 ? -val : val;  // abs
+    uint64_t val = magnitude((int64_t)arg->value);
     
     // lcm(a,b) = |a*b| / gcd(a,b)
     // But we need to avoid overflow, so compute as: (a / gcd(a,b)) * b
-    int64_t g = gcd(result, val);
-    if (g == 0) {
-      return _create_num(0);
+    uint64_t g = gcd(result, val);
+    if (g != 0 && __builtin_mul_overflow(result / g, val, &result)) {
+      eval_error("lcm: numeric overflow");
+      return nullptr;
     }
-    result = (result / g) * val;
     current = current->next;
   }
   
-  return _create_num(result);
+  return create_num_from_magnitude(result, "lcm");
 }
 
 // Create a rational number (fraction)
@@ -629,16 +516,18 @@ SCM *scm_make_ratio(int64_t numerator, int64_t denominator) {
     return _create_num(0);
   }
   
-  // Normalize sign: denominator should be positive
-  if (denominator < 0) {
-    numerator = -numerator;
-    denominator = -denominator;
+  // Normalize sign, denominator should be positive, and simplify the fraction using GCD
+  uint64_t num = magnitude(numerator), den = magnitude(denominator);
+  bool negative = (numerator < 0) != (denominator < 0);
+  uint64_t g = gcd(num, den);
+  num /= g;
+  den /= g;
+  if (den > INT64_MAX || num > (uint64_t)INT64_MAX + negative) {
+    eval_error("make-ratio: numeric overflow");
+    return nullptr;
   }
-  
-  // Simplify the fraction using GCD
-  int64_t g = gcd(numerator, denominator);
-  numerator /= g;
-  denominator /= g;
+  numerator = negative ? (int64_t)(0 - num) : (int64_t)num;
+  denominator = (int64_t)den;
   
   // If denominator is 1, return an integer
   if (denominator == 1) {
@@ -657,142 +546,101 @@ SCM *scm_make_ratio(int64_t numerator, int64_t denominator) {
   return data;
 }
 
-// max: Return the maximum of the arguments
-SCM *scm_c_max(SCM_List *args) {
+// The argument that compares as wanted (1: greatest, -1: least) with all others. If any argument is
+// inexact, so is the result
+static SCM *extremum(SCM_List *args, int wanted, const char *op) {
   if (!args || !args->data) {
-    eval_error("max: requires at least 1 argument");
+    eval_error("%s: requires at least 1 argument", op);
     return nullptr;
   }
   
-  SCM *first = args->data;
-  if (!is_num(first) && !is_float(first) && !is_ratio(first)) {
-    eval_error("max: expected number");
-    return nullptr;
-  }
-  
-  double max_val = scm_to_double(first);
-  bool all_int = is_num(first);
-  
-  SCM_List *current = args->next;
-  while (current) {
+  SCM *result = args->data;
+  check_number(result, op);
+  bool inexact = is_float(result);
+  for (SCM_List *current = args->next; current; current = current->next) {
     SCM *arg = current->data;
-    if (!is_num(arg) && !is_float(arg) && !is_ratio(arg)) {
-      eval_error("max: expected number");
-      return nullptr;
-    }
-    if (!is_num(arg)) {
-      all_int = false;
-    }
-    double val = scm_to_double(arg);
-    if (val > max_val) {
-      max_val = val;
+    if (compare_numbers(arg, result, op) == wanted) {
+      result = arg;
     }
-    if (!current->next || is_nil(wrap(current->next))) {
-      break;
-    }
-    current = current->next;
+    inexact = inexact || is_float(arg);
   }
   
-  if (all_int && max_val == (double)(int64_t)max_val) {
-    return _create_num((int64_t)max_val);
+  if (inexact && !is_float(result)) {
+    return scm_from_double(scm_to_double(result));
   }
-  return scm_from_double(max_val);
+  return result;
+}
+
+// max: Return the maximum of the arguments
+SCM *scm_c_max(SCM_List *args) {
+  return extremum(args, 1, "max");
 }
 
 // min: Return the minimum of the arguments
 SCM *scm_c_min(SCM_List *args) {
-  if (!args || !args->data) {
-    eval_error("min: requires at least 1 argument");
-    return nullptr;
-  }
-  
-  SCM *first = args->data;
-  if (!is_num(first) && !is_float(first) && !is_ratio(first)) {
-    eval_error("min: expected number");
-    return nullptr;
-  }
-  
-  double min_val = scm_to_double(first);
-  bool all_int = is_num(first);
-  
-  SCM_List *current = args->next;
-  while (current) {
-    SCM *arg = current->data;
-    if (!is_num(arg) && !is_float(arg) && !is_ratio(arg)) {
-      eval_error("min: expected number");
+  return extremum(args, -1, "min");
+}
+
+SCM *scm_c_expt(SCM *base, SCM *exp) {
+  check_number(base, "expt");
+  check_number(exp, "expt");
+  if (!is_num(exp) || is_float(base)) {
+    double result = std::pow(scm_to_double(base), scm_to_double(exp));
+    if (result != result) {
+      eval_error("expt: no real result");
       return nullptr;
     }
-    if (!is_num(arg)) {
-      all_int = false;
-    }
-    double val = scm_to_double(arg);
-    if (val < min_val) {
-      min_val = val;
-    }
-    if (!current->next || is_nil(wrap(current->next))) {
-      break;
-    }
-    current = current->next;
+    return scm_from_double(result);
   }
   
-  if (all_int && min_val == (double)(int64_t)min_val) {
-    return _create_num((int64_t)min_val);
-  }
-  return scm_from_double(min_val);
-}
-
-SCM *scm_c_expt(SCM *base, SCM *exp) {
-  assert(is_num(base));
-  assert(is_num(exp));
-  int64_t n1 = (int64_t)base->value;
   int64_t n2 = (int64_t)exp->value;
-  
-  // Handle special cases
-  if (n1 == 0 && n2 == 0) {
-    // 0^0 = 1
+  if (n2 == 0) {
+    // n^0 = 1, 0^0 too
     return _create_num(1);
   }
-  else if (n1 == 0) {
+  if (sign_of(base, "expt") == 0) {
     // 0^n = 0 (for n != 0)
     return _create_num(0);
   }
-  else if (n2 == 0) {
-    // n^0 = 1
-    return _create_num(1);
+  
+  // Calculate base^|n2| by squaring
+  SCM *result = nullptr;
+  SCM *square = base;
+  for (uint64_t n = magnitude(n2); ; ) {
+    if (n & 1) {
+      result = result ? scm_c_mul_number(result, square) : square;
+    }
+    n >>= 1;
+    if (!n) {
+      break;
+    }
+    square = scm_c_mul_number(square, square);
   }
   
-  // Handle negative exponent
-  bool is_negative = false;
   if (n2 < 0) {
-    is_negative = true;
-    n2 = -n2;
+    // For negative exponents, we return 1/result
+    __int128 num, den;
+    exact_parts(result, num, den);
+    return make_exact(den, num, "expt");
   }
-  
-  // Calculate base^n2
-  int64_t ret = n1;
-  for (int64_t i = 0; i < n2 - 1; ++i) {
-    ret *= n1;
+  return result;
+}
+
+static SCM *div_number(SCM *lhs, SCM *rhs) {
+  check_number(lhs, "/");
+  check_number(rhs, "/");
+  if (scm_to_double(rhs) == 0.0) {
+    eval_error("/: division by zero");
+    return nullptr;
   }
-  
-  // Handle negative exponent result
-  if (is_negative) {
-    // For negative exponents, we return 1/result
-    // But since we only support integers, we can only return exact results
-    // when result is 1 or -1
-    if (ret == 1) {
-      return _create_num(1);
-    }
-    else if (ret == -1) {
-      return _create_num(-1);
-    }
-    else {
-      // For other cases, we can't represent fractions, so return 0
-      // This is a limitation of integer-only arithmetic
-      return _create_num(0);
-    }
+  if (needs_float_promotion(lhs, rhs)) {
+    return scm_from_double(scm_to_double(lhs) / scm_to_double(rhs));
   }
-  
-  return _create_num(ret);
+  // (a/b) / (c/d) = (a*d)/(b*c)
+  __int128 n1, d1, n2, d2;
+  exact_parts(lhs, n1, d1);
+  exact_parts(rhs, n2, d2);
+  return make_exact(n1 * d2, d1 * n2, "/");
 }
 
 SCM *scm_c_div(SCM_List *args) {
@@ -801,111 +649,17 @@ SCM *scm_c_div(SCM_List *args) {
     return _create_num(1);
   }
   
-  SCM *first = args->data;
-  if (!is_num(first) && !is_float(first) && !is_ratio(first)) {
-    eval_error("/: expected number");
-    return nullptr;
-  }
-  
   // Single argument: (/ n) -> 1/n
   if (!args->next) {
-    if (is_num(first)) {
-      int64_t n = (int64_t)first->value;
-      if (n == 0) {
-        eval_error("/: division by zero");
-        return nullptr;
-      }
-      // (/ 2) = 1/2, so return scm_make_ratio(1, 2)
-      return scm_make_ratio(1, n);
-    } else if (is_ratio(first)) {
-      SCM_Rational *rat = cast<SCM_Rational>(first);
-      if (rat->numerator == 0) {
-        eval_error("/: division by zero");
-        return nullptr;
-      }
-      // (/ a/b) = 1/(a/b) = b/a
-      return scm_make_ratio(rat->denominator, rat->numerator);
-    } else {
-      double val = scm_to_double(first);
-      if (val == 0.0) {
-        eval_error("/: division by zero");
-        return nullptr;
-      }
-      return scm_from_double(1.0 / val);
-    }
+    return div_number(_create_num(1), args->data);
   }
   
   // Multiple arguments: (/ n1 n2 n3 ...) -> n1 / n2 / n3 / ...
-  // Start with the first argument as the result
-  int64_t result_num, result_den;
-  if (is_num(first)) {
-    result_num = (int64_t)first->value;
-    result_den = 1;
-  } else if (is_ratio(first)) {
-    SCM_Rational *rat = cast<SCM_Rational>(first);
-    result_num = rat->numerator;
-    result_den = rat->denominator;
-  } else {
-    // For floats, use float arithmetic throughout
-    double result = scm_to_double(first);
-    SCM_List *current = args->next;
-    while (current) {
-      SCM *arg = current->data;
-      if (!is_num(arg) && !is_float(arg) && !is_ratio(arg)) {
-        eval_error("/: expected number");
-        return nullptr;
-      }
-      double divisor = scm_to_double(arg);
-      if (divisor == 0.0) {
-        eval_error("/: division by zero");
-        return nullptr;
-      }
-      result /= divisor;
-      current = current->next;
-    }
-    return scm_from_double(result);
+  SCM *result = args->data;
+  for (SCM_List *current = args->next; current; current = current->next) {
+    result = div_number(result, current->data);
   }
-  
-  // Process remaining arguments: divide result by each
-  SCM_List *current = args->next;
-  while (current) {
-    SCM *arg = current->data;
-    if (!is_num(arg) && !is_float(arg) && !is_ratio(arg)) {
-      eval_error("/: expected number");
-      return nullptr;
-    }
-    
-    int64_t div_num, div_den;
-    if (is_num(arg)) {
-      div_num = (int64_t)arg->value;
-      div_den = 1;
-    } else if (is_ratio(arg)) {
-      SCM_Rational *rat = cast<SCM_Rational>(arg);
-      div_num = rat->numerator;
-      div_den = rat->denominator;
-    } else {
-      // For floats, switch to float arithmetic
-      double result = (double)result_num / (double)result_den;
-      while (current) {
-        result /= scm_to_double(current->data);
-        current = current->next;
-      }
-      return scm_from_double(result);
-    }
-    
-    if (div_num == 0) {
-      eval_error("/: division by zero");
-      return nullptr;
-    }
-    
-    // (result_num/result_den) / (div_num/div_den) = (result_num * div_den) / (result_den * div_num)
-    result_num = result_num * div_den;
-    result_den = result_den * div_num;
-    
-    current = current->next;
-  }
-  
-  return scm_make_ratio(result_num, result_den);
+  return result;
 }
 
 SCM *scm_c_quotient(SCM *n1, SCM *n2) {
@@ -926,6 +680,11 @@ SCM *scm_c_quotient(SCM *n1, SCM *n2) {
     return nullptr;
   }
   
+  if (num2 == -1) {
+    // The one quotient that can be out of range
+    return scm_c_negate_number(n1);
+  }
+  
   return _create_num(num1 / num2);
 }
 
@@ -947,8 +706,7 @@ SCM *scm_c_modulo(SCM *n1, SCM *n2) {
     return nullptr;
   }
   
-  int64_t m = num1 / num2;
-  int64_t ret = num1 - num2 * m;
+  int64_t ret = num2 == -1 ? 0 : num1 % num2;
   
   // Adjust sign according to Scheme's modulo semantics
   if (ret > 0 && num2 < 0) {
@@ -978,8 +736,7 @@ SCM *scm_c_remainder(SCM *n1, SCM *n2) {
     return nullptr;
   }
   
-  int64_t m = num1 / num2;
-  return _create_num(num1 - num2 * m);
+  return _create_num(num2 == -1 ? 0 : num1 % num2);
 }
 
 void init_number() {
diff --git a/src/c/predicate.cc b/src/c/predicate.cc
index cff7ad6..16fef99 100644
--- a/src/c/predicate.cc
+++ b/src/c/predicate.cc
@@ -90,15 +90,11 @@ SCM *scm_c_is_list(SCM *arg) {
   // A proper list ends with a node where next=nullptr and is_dotted=false
   // (cdr of the last node returns nil)
   SCM_List *l = cast<SCM_List>(arg);
-  // Use a simple cycle detection: limit traversal count
-  int count = 0;
-  const int MAX_COUNT = 10000;  // Reasonable limit for list length
+  // Cycle detection: the tortoise makes one step for every two of l
+  SCM_List *tortoise = l;
+  bool odd = false;
   
   while (l) {
-    if (count++ > MAX_COUNT) {
-      // Likely a circular list, return #f
-      return scm_bool_false();
-    }
     // Check if this node is a dotted pair marker
     if (l->is_dotted) {
       // This is a dotted pair, not a proper list
@@ -111,6 +107,14 @@ SCM *scm_c_is_list(SCM *arg) {
     }
     // Move to next node
     l = l->next;
+    if (odd) {
+      tortoise = tortoise->next;
+    }
+    odd = !odd;
+    if (l == tortoise) {
+      // A circular list
+      return scm_bool_false();
+    }
   }
   // Should not reach here, but if we do, it's not a proper list
   return scm_bool_false();
-- 
2.43.0


From ca313325c8e1a99bca9f82a0dca67f6031a4c087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 33/91] fix: reader: numbers are whole tokens, exact or an
 error; stale parse stack; columns after a newline in a string

---
 src/c/number.cc |  87 ++++++++++++++++++++++++++
 src/c/parse.cc  | 163 +++++++++++-------------------------------------
 src/c/pscm.h    |   1 +
 3 files changed, 126 insertions(+), 125 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 3530595..9f0a1d2 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -1,6 +1,8 @@
 #include "pscm.h"
 #include "eval.h"
 #include <cmath>
+#include <ctype.h>
+#include <string>
 
 // Forward declaration
 SCM *scm_make_ratio(int64_t numerator, int64_t denominator);
@@ -739,6 +741,91 @@ SCM *scm_c_remainder(SCM *n1, SCM *n2) {
   return _create_num(num2 == -1 ? 0 : num1 % num2);
 }
 
+static int digit_value(char c) {
+  if (c >= '0' && c <= '9') return c - '0';
+  if (c >= 'a' && c <= 'z') return c - 'a' + 10;
+  if (c >= 'A' && c <= 'Z') return c - 'A' + 10;
+  return 99;
+}
+
+// The digits at *s as an integer of the given sign; false if there are none. overflow is set if the
+// value does not fit
+static bool scan_integer(const char *&s, const char *end, int radix, bool negative, int64_t &val, bool &overflow) {
+  const char *start = s;
+  val = 0;
+  for (; s < end && digit_value(*s) < radix; s++) {
+    int d = digit_value(*s);
+    if (__builtin_mul_overflow(val, (int64_t)radix, &val) ||
+        __builtin_add_overflow(val, (int64_t)(negative ? -d : d), &val)) {
+      overflow = true;
+      val = 0;
+    }
+  }
+  return s > start;
+}
+
+// The number the characters spell, or nullptr if they do not spell one. out_of_range is set if they do
+// but it is not representable. Integers and ratios are in the given radix, decimals in radix 10
+SCM *scm_number_from_chars(const char *chars, size_t len, int radix, bool *out_of_range) {
+  const char *s = chars, *end = chars + len;
+  bool negative = s < end && *s == '-';
+  bool overflow = false;
+  *out_of_range = false;
+  if (s < end && (*s == '-' || *s == '+')) {
+    s++;
+  }
+  const char *digits = s;
+  int64_t num, den;
+  if (scan_integer(s, end, radix, negative, num, overflow)) {
+    if (s == end) {
+      *out_of_range = overflow;
+      return overflow ? nullptr : _create_num(num);
+    }
+    if (*s == '/') {
+      s++;
+      if (!scan_integer(s, end, radix, false, den, overflow) || s != end) {
+        return nullptr;
+      }
+      if (overflow || den == 0) {
+        *out_of_range = true;
+        return nullptr;
+      }
+      return scm_make_ratio(num, den);
+    }
+  }
+  if (radix != 10) {
+    return nullptr;
+  }
+  // digits [. digits] [e [sign] digits], with a digit before the exponent
+  s = digits;
+  int count = 0;
+  while (s < end && isdigit((unsigned char)*s)) s++, count++;
+  if (s < end && *s == '.') {
+    s++;
+    while (s < end && isdigit((unsigned char)*s)) s++, count++;
+  }
+  if (count == 0) {
+    return nullptr;
+  }
+  if (s < end && (*s == 'e' || *s == 'E')) {
+    s++;
+    if (s < end && (*s == '-' || *s == '+')) s++;
+    if (s == end) {
+      return nullptr;
+    }
+    while (s < end && isdigit((unsigned char)*s)) s++;
+  }
+  if (s != end) {
+    return nullptr;
+  }
+  double val = strtod(std::string(chars, len).c_str(), nullptr);
+  if (std::isinf(val)) {
+    *out_of_range = true;
+    return nullptr;
+  }
+  return scm_from_double(val);
+}
+
 void init_number() {
   scm_define_function("positive?", 1, 0, 0, scm_c_is_positive);
   scm_define_function("negative?", 1, 0, 0, scm_c_is_negative);
diff --git a/src/c/parse.cc b/src/c/parse.cc
index df355bd..6cbb654 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -66,6 +66,13 @@ static void pop_parse_stack() {
   }
 }
 
+// What a parse that ended in an error left: it refers to input that may be gone
+static void clear_parse_stack() {
+  while (g_parse_stack) {
+    pop_parse_stack();
+  }
+}
+
 // Print the parse stack
 static void print_parse_stack(Parser *p) {
   if (!g_parse_stack) {
@@ -308,121 +315,38 @@ static char consume(Parser *p) {
   return c;
 }
 
+// The characters symbols are made of
+static bool is_symbol_char(char c) {
+  return isalnum((unsigned char)c) || c == '\\' || strchr("!$%&*+-./:<=>?@^_~|", c) != nullptr;
+}
+
 // Parse a number (only if it starts with a digit, or +/- followed by a digit)
 static SCM *parse_number(Parser *p) {
   const char *start = p->pos;
   int start_line = p->line;
   int start_column = p->column;
-  bool negative = false;
   
   // Only parse as number if it starts with a digit, or +/- followed by a digit
-  if (*p->pos == '-') {
-    // Check if next char is a digit
-    if (!isdigit((unsigned char)p->pos[1])) {
-      return nullptr; // Not a number, let it be parsed as symbol
-    }
-    negative = true;
-    p->pos++;
-    p->column++;
-  } else if (*p->pos == '+') {
-    // Check if next char is a digit
-    if (!isdigit((unsigned char)p->pos[1])) {
-      return nullptr; // Not a number, let it be parsed as symbol
-    }
-    p->pos++;
-    p->column++;
-  } else if (!isdigit((unsigned char)*p->pos)) {
-    return nullptr;
+  if (!isdigit((unsigned char)start[0]) &&
+      !((start[0] == '-' || start[0] == '+') && isdigit((unsigned char)start[1]))) {
+    return nullptr; // Not a number, let it be parsed as symbol
   }
   
-  // Parse integer part
-  long int_part = 0;
-  while (isdigit((unsigned char)*p->pos)) {
-    int_part = int_part * 10 + (*p->pos - '0');
-    p->pos++;
-    p->column++;
-  }
-  
-  // Check for decimal point
-  bool is_float = false;
-  double float_value = (double)int_part;
-  
-  if (*p->pos == '.') {
-    is_float = true;
-    p->pos++;
-    p->column++;
-  
-    // Parse fractional part
-    double fractional = 0.0;
-    double divisor = 1.0;
-    while (isdigit((unsigned char)*p->pos)) {
-      fractional = fractional * 10 + (*p->pos - '0');
-      divisor *= 10;
-      p->pos++;
-      p->column++;
-    }
-    float_value += fractional / divisor;
-  }
-  
-  // Check for exponent (scientific notation)
-  if (*p->pos == 'e' || *p->pos == 'E') {
-    is_float = true;
-    p->pos++;
-    p->column++;
-    
-    // Parse exponent sign
-    bool exp_negative = false;
-    if (*p->pos == '-') {
-      exp_negative = true;
-      p->pos++;
-      p->column++;
-    } else if (*p->pos == '+') {
-      p->pos++;
-      p->column++;
-    }
-    
-    // Parse exponent value
-    long exp = 0;
-    if (!isdigit((unsigned char)*p->pos)) {
-      parse_error(p, "expected digit after exponent marker");
-    }
-    while (isdigit((unsigned char)*p->pos)) {
-      exp = exp * 10 + (*p->pos - '0');
-      p->pos++;
-      p->column++;
-    }
-    
-    // Apply exponent
-    double multiplier = 1.0;
-    for (long i = 0; i < exp; i++) {
-      multiplier *= 10.0;
-    }
-    if (exp_negative) {
-      float_value /= multiplier;
-    } else {
-      float_value *= multiplier;
-    }
+  // The token has to be a number as a whole; otherwise (1+, 3rd) it is a symbol
+  const char *end = start;
+  while (*end && is_symbol_char(*end)) {
+    end++;
   }
-  
-  // Apply sign
-  if (negative) {
-    if (is_float) {
-      float_value = -float_value;
-    } else {
-      int_part = -int_part;
+  bool out_of_range;
+  SCM *scm = scm_number_from_chars(start, end - start, 10, &out_of_range);
+  if (!scm) {
+    if (out_of_range) {
+      parse_error(p, "number out of range");
     }
+    return nullptr;
   }
-  
-  // Create SCM object
-  SCM *scm = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
-  if (is_float) {
-    scm->type = SCM::FLOAT;
-    scm->value = double_to_ptr(float_value);
-  } else {
-    scm->type = SCM::NUM;
-    scm->value = (void *)int_part;
-  }
-  scm->source_loc = nullptr;
+  p->pos = end;
+  p->column += end - start;
   set_source_location(scm, p->filename, start_line, start_column);
   return scm;
 }
@@ -636,6 +560,8 @@ static SCM *parse_vector(Parser *p) {
   p->pos++; // consume ')'
   p->column++;
   
+  pop_parse_stack();  // Successfully parsed vector
+  
   // Convert list to vector
   int count = 0;
   SCM_List *current = dummy.next;
@@ -682,6 +608,10 @@ static SCM *parse_string(Parser *p) {
   while (*p->pos) {
     if (escape) {
       escape = false;
+      if (*p->pos == '\n') {
+        p->line++;
+        p->column = 0;
+      }
       p->pos++;
       p->column++;
       continue;
@@ -697,7 +627,7 @@ static SCM *parse_string(Parser *p) {
     }
     if (*p->pos == '\n') {
       p->line++;
-      p->column = 1;
+      p->column = 0;
     }
     p->pos++;
     p->column++;
@@ -765,8 +695,6 @@ static SCM *parse_string(Parser *p) {
   s->data = str_data;  // Use the allocated buffer directly
   s->len = actual_len;
   
-  pop_parse_stack();  // Successfully parsed string
-  
   SCM *scm = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
   scm->type = SCM::STR;
   scm->value = s;
@@ -805,10 +733,7 @@ static SCM *parse_symbol(Parser *p) {
   
   // Parse regular symbol
   // Symbols can contain: letters, digits, and special characters
-  while (*p->pos &&
-         (isalnum((unsigned char)*p->pos) ||
-          *p->pos == '\\' ||
-          strchr("!$%&*+-./:<=>?@^_~|", *p->pos) != nullptr)) {
+  while (*p->pos && is_symbol_char(*p->pos)) {
     if (*p->pos == '\\') {
       // Guile 1.8 backslash escape: next character is part of the symbol literally
       len++; p->pos++; p->column++;  // consume backslash
@@ -1276,21 +1201,6 @@ static SCM *parse_expr(Parser *p) {
     return result;
   }
   
-  // Special case: check for 1+ and 1- symbols before parsing as number
-  // These are valid Scheme identifiers that start with a digit
-  if ((strncmp(p->pos, "1+", 2) == 0 && 
-       (p->pos[2] == '\0' || isspace((unsigned char)p->pos[2]) || 
-        p->pos[2] == ')' || p->pos[2] == '(' || p->pos[2] == ';')) ||
-      (strncmp(p->pos, "1-", 2) == 0 && 
-       (p->pos[2] == '\0' || isspace((unsigned char)p->pos[2]) || 
-        p->pos[2] == ')' || p->pos[2] == '(' || p->pos[2] == ';'))) {
-    // Parse as symbol instead of number
-    result = parse_symbol(p);
-    if (result) {
-      return result;
-    }
-  }
-  
   // Number
   result = parse_number(p);
   if (result) {
@@ -1324,6 +1234,7 @@ SCM *parse(const char *s) {
   p.filename = nullptr;
   p.line = 1;
   p.column = 1;
+  clear_parse_stack();
   
   SCM *result = parse_expr(&p);
   if (!result) {
@@ -1416,6 +1327,7 @@ SCM_List *parse_file(const char *filename) {
   p.filename = filename;
   p.line = 1;
   p.column = 1;
+  clear_parse_stack();
   
   SCM_List dummy = make_list_dummy();
   SCM_List *tail = &dummy;
@@ -1474,6 +1386,7 @@ SCM_List *parse_string(const char *str) {
   p.filename = nullptr;  // No filename for string input
   p.line = 1;
   p.column = 1;
+  clear_parse_stack();
   
   SCM_List dummy = make_list_dummy();
   SCM_List *tail = &dummy;
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 8a372b1..de77164 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -779,6 +779,7 @@ void init_apply();
  * Functions in eq.cc (internal comparison functions)
  */
 bool _eq(SCM *lhs, SCM *rhs);
+SCM *scm_number_from_chars(const char *chars, size_t len, int radix, bool *out_of_range);
 SCM *scm_c_is_eq(SCM *lhs, SCM *rhs);
 SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs);
 SCM *scm_c_is_equal(SCM *lhs, SCM *rhs);
-- 
2.43.0


From e9dc91ea0e0994bc51235c6b3c16850e6aef07bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:31 +0000
Subject: [PATCH 34/91] fix: string->number and number->string: ratios, range,
 radix, floats read back as the same number

---
 src/c/string.cc | 92 ++++++++++++-------------------------------------
 1 file changed, 22 insertions(+), 70 deletions(-)

diff --git a/src/c/string.cc b/src/c/string.cc
index 07ef9d1..739437c 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -405,8 +405,9 @@ SCM *scm_c_string_to_number(SCM_List *args) {
       eval_error("string->number: radix must be a number");
       return nullptr;
     }
-    radix = (int)(int64_t)radix_scm->value;
-    if (radix < 2 || radix > 36) {
+    int64_t radix_value = (int64_t)radix_scm->value;
+    radix = radix_value < 2 || radix_value > 36 ? 0 : (int)radix_value;
+    if (radix == 0) {
       eval_error("string->number: radix must be between 2 and 36");
       return nullptr;
     }
@@ -417,54 +418,10 @@ SCM *scm_c_string_to_number(SCM_List *args) {
     return scm_bool_false();
   }
   
-  // Create a null-terminated string for parsing
-  char *str = new char[s->len + 1];
-  memcpy(str, s->data, s->len);
-  str[s->len] = '\0';
-  
-  // Try to parse as number
-  // For now, we'll use a simple approach: try strtol/strtod
-  // This doesn't handle all Scheme number formats, but covers basic cases
-  char *endptr;
-  
-  // Check if it's a float (contains '.', 'e', or 'E')
-  bool is_float_str = false;
-  for (int i = 0; i < s->len; i++) {
-    if (str[i] == '.' || str[i] == 'e' || str[i] == 'E') {
-      is_float_str = true;
-      break;
-    }
-  }
-  
-  SCM *result = nullptr;
-  
-  if (is_float_str && radix == 10) {
-    // Parse as float
-    double val = strtod(str, &endptr);
-    if (endptr == str || *endptr != '\0') {
-      // Failed to parse
-      result = scm_bool_false();
-    } else {
-      result = scm_from_double(val);
-    }
-  } else {
-    // Parse as integer
-    long val = strtol(str, &endptr, radix);
-    if (endptr == str || *endptr != '\0') {
-      // Failed to parse
-      result = scm_bool_false();
-    } else {
-      // Create number directly
-      SCM *num = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
-      num->type = SCM::NUM;
-      num->value = (void *)(int64_t)val;
-      num->source_loc = nullptr;
-      result = num;
-    }
-  }
-  
-  delete[] str;
-  return result;
+  // What does not spell a number, or spells one that is not representable, is #f
+  bool out_of_range;
+  SCM *result = scm_number_from_chars(s->data, s->len, radix, &out_of_range);
+  return result ? result : scm_bool_false();
 }
 
 // Helper function to convert integer to string in given radix
@@ -478,16 +435,16 @@ static char* int_to_string_radix(int64_t val, int radix) {
   
   // Handle negative numbers
   bool negative = false;
-  int64_t uval;
+  uint64_t uval;
   if (val < 0) {
     negative = true;
-    uval = -val;
+    uval = 0 - (uint64_t)val;
   } else {
     uval = val;
   }
   
   // Calculate string length
-  int64_t temp = uval;
+  uint64_t temp = uval;
   int len = 0;
   while (temp > 0) {
     len++;
@@ -540,8 +497,9 @@ SCM *scm_c_number_to_string(SCM_List *args) {
       eval_error("number->string: radix must be a number");
       return nullptr;
     }
-    radix = (int)(int64_t)radix_scm->value;
-    if (radix < 2 || radix > 36) {
+    int64_t radix_value = (int64_t)radix_scm->value;
+    radix = radix_value < 2 || radix_value > 36 ? 0 : (int)radix_value;
+    if (radix == 0) {
       eval_error("number->string: radix must be between 2 and 36");
       return nullptr;
     }
@@ -567,7 +525,13 @@ SCM *scm_c_number_to_string(SCM_List *args) {
       // Integer value stored as float: print with .0 to show it's a float
       str_len = snprintf(str_data, 64, "%.1f", val);
     } else {
-      str_len = snprintf(str_data, 64, "%g", val);
+      // The shortest form that reads back as the same number
+      for (int digits = 6; digits <= 17; digits++) {
+        str_len = snprintf(str_data, 64, "%.*g", digits, val);
+        if (strtod(str_data, nullptr) == val) {
+          break;
+        }
+      }
     }
   } else if (is_ratio(num_scm)) {
     if (radix != 10) {
@@ -576,20 +540,8 @@ SCM *scm_c_number_to_string(SCM_List *args) {
     }
     SCM_Rational *rat = cast<SCM_Rational>(num_scm);
     // Format as "numerator/denominator"
-    // Calculate length needed
-    int num_len = 1, den_len = 1;
-    int64_t num = rat->numerator;
-    int64_t den = rat->denominator;
-    if (num < 0) num_len++;
-    if (num == 0) num_len = 1;
-    else {
-      while (num != 0) { num_len++; num /= 10; }
-    }
-    while (den != 0) { den_len++; den /= 10; }
-    
-    str_len = num_len + den_len + 1; // +1 for '/'
-    str_data = new char[str_len + 1];
-    snprintf(str_data, str_len + 1, "%lld/%lld", rat->numerator, rat->denominator);
+    str_data = new char[64];
+    snprintf(str_data, 64, "%lld/%lld", (long long)rat->numerator, (long long)rat->denominator);
     str_len = strlen(str_data);
   }
   
-- 
2.43.0


From b2bff8a5a938a5d7eb2e637b4411ba39507884a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:12 +0000
Subject: [PATCH 35/91] fix: printing and reading back: quote forms without
 exactly one operand, strings with NUL, octal escapes; cadr of a dotted pair

---
 src/c/parse.cc | 37 +++++++++++++------------------------
 src/c/print.cc |  7 ++++---
 src/c/pscm.h   |  2 +-
 3 files changed, 18 insertions(+), 28 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 6cbb654..b3fd3db 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -643,29 +643,9 @@ static SCM *parse_string(Parser *p) {
   
   pop_parse_stack();  // Successfully parsed string
   
-  // Second pass: process escape sequences and calculate actual length
+  // Second pass: build the actual string, which is at most as long as its spelling
+  char *str_data = new char[end - start + 1];
   const char *src = start;
-  int actual_len = 0;
-  escape = false;
-  
-  while (src < end) {
-    if (escape) {
-      escape = false;
-      // Escape sequence counts as one character
-      actual_len++;
-      src++;
-    } else if (*src == '\\') {
-      escape = true;
-      src++;
-    } else {
-      actual_len++;
-      src++;
-    }
-  }
-  
-  // Third pass: build the actual string
-  char *str_data = new char[actual_len + 1];
-  src = start;
   char *dst = str_data;
   escape = false;
   
@@ -678,7 +658,16 @@ static SCM *parse_string(Parser *p) {
         case 'r': *dst++ = '\r'; break;
         case '\\': *dst++ = '\\'; break;
         case '"': *dst++ = '"'; break;
-        default: *dst++ = *src; break;
+        default:
+          // Three octal digits are a character code, as write spells unprintable characters
+          if (end - src >= 3 && src[0] >= '0' && src[0] <= '3' && src[1] >= '0' && src[1] <= '7' &&
+              src[2] >= '0' && src[2] <= '7') {
+            *dst++ = (char)((src[0] - '0') * 64 + (src[1] - '0') * 8 + (src[2] - '0'));
+            src += 2;
+          } else {
+            *dst++ = *src;
+          }
+          break;
       }
       src++;
     } else if (*src == '\\') {
@@ -693,7 +682,7 @@ static SCM *parse_string(Parser *p) {
   // Create string object directly
   SCM_String *s = (SCM_String *)gc_alloc(GC_STRING, sizeof(SCM_String));
   s->data = str_data;  // Use the allocated buffer directly
-  s->len = actual_len;
+  s->len = dst - str_data;
   
   SCM *scm = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
   scm->type = SCM::STR;
diff --git a/src/c/print.cc b/src/c/print.cc
index 4e65af9..d5df0bf 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -155,7 +155,7 @@ static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContex
       printf("\"");
     } else {
       // Display format: without quotes
-      printf("%s", str->data);
+      fwrite(str->data, 1, str->len, stdout);
     }
     return;
   }
@@ -318,9 +318,10 @@ static bool _is_dotted_pair(SCM_List *l) {
   return last->is_dotted;
 }
 
-// Helper function to check if a list starts with a specific symbol
+// Helper function to check if a list is a form of a specific symbol with one operand
+// (anything else, like (quote a b) or (quote . a), is printed as the list it is)
 static bool _list_starts_with(SCM_List *l, const char *sym_name) {
-  if (!l || !l->data || !is_sym(l->data)) {
+  if (!l || !l->data || !is_sym(l->data) || !l->next || l->next->next || l->next->is_dotted) {
     return false;
   }
   SCM_Symbol *sym = cast<SCM_Symbol>(l->data);
diff --git a/src/c/pscm.h b/src/c/pscm.h
index de77164..465b530 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -636,7 +636,7 @@ inline SCM *cadr(SCM *data) {
   if (!l || !l->next) {
     type_error(data, "pair with at least 2 elements");
   }
-  SCM *result = l->next->data;
+  SCM *result = l->next->is_dotted ? car(l->next->data) : l->next->data;
   // Copy source location if result doesn't have one
   if (result && !result->source_loc && data->source_loc) {
     copy_source_location(result, data);
-- 
2.43.0


From 5fa8892bf6186db3ea0fe3dda1bec1adb4c1ad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:44 +0000
Subject: [PATCH 36/91] fix: make-vector and make-string: a length there is no
 memory for is an error, not an abort

---
 src/c/string.cc | 11 ++++++++++-
 src/c/vector.cc | 13 ++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/c/string.cc b/src/c/string.cc
index 739437c..d3992cc 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -2,6 +2,8 @@
 #include "eval.h"
 #include <cstring>
 #include <ctype.h>
+#include <limits.h>
+#include <new>
 
 // string-length: Return the number of characters in string
 SCM *scm_c_string_length(SCM *str) {
@@ -40,9 +42,16 @@ static SCM *scm_c_make_string_impl(SCM *len_scm, SCM *char_scm) {
     fill_char = scm_to_char(char_scm);
   }
   
+  // More than there is memory for is an error, not the end of the process
+  char *data = len >= INT_MAX ? nullptr : new (std::nothrow) char[len + 1];
+  if (!data) {
+    eval_error("make-string: length out of range");
+    return nullptr;
+  }
+  
   // Create string
   SCM_String *s = (SCM_String *)gc_alloc(GC_STRING, sizeof(SCM_String));
-  s->data = new char[len + 1];
+  s->data = data;
   for (int i = 0; i < len; i++) {
     s->data[i] = fill_char;
   }
diff --git a/src/c/vector.cc b/src/c/vector.cc
index ca25720..a71c36b 100644
--- a/src/c/vector.cc
+++ b/src/c/vector.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include <new>
 
 // Helper function for make-vector implementation
 static SCM *scm_c_make_vector_impl(SCM *len_scm, SCM *fill_scm) {
@@ -16,11 +17,21 @@ static SCM *scm_c_make_vector_impl(SCM *len_scm, SCM *fill_scm) {
   // Get optional fill value (default to unspecified/none)
   SCM *fill = fill_scm ? fill_scm : scm_none();
   
+  // More than there is memory for is an error, not the end of the process
+  SCM **elements = nullptr;
+  if (len > 0) {
+    elements = (uint64_t)len > PTRDIFF_MAX / sizeof(SCM *) ? nullptr : new (std::nothrow) SCM*[len];
+    if (!elements) {
+      eval_error("make-vector: length out of range");
+      return nullptr;
+    }
+  }
+  
   // Create vector
   SCM_Vector *vec = (SCM_Vector *)gc_alloc(GC_VECTOR, sizeof(SCM_Vector));
   vec->length = (size_t)len;
   if (len > 0) {
-    vec->elements = new SCM*[len];
+    vec->elements = elements;
     for (size_t i = 0; i < (size_t)len; i++) {
       vec->elements[i] = fill;
     }
-- 
2.43.0


From 8d5f1e8a8e59ce846391d5eedf14318047e4b3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 37/91] fix: #t and #f end where a symbol would

---
 src/c/parse.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index b3fd3db..e56bbea 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -700,9 +700,7 @@ static SCM *parse_symbol(Parser *p) {
   int len = 0;
   
   // Check for special literals first
-  if (strncmp(p->pos, "#t", 2) == 0 && 
-      (p->pos[2] == '\0' || isspace((unsigned char)p->pos[2]) || 
-       p->pos[2] == ')' || p->pos[2] == '(' || p->pos[2] == ';')) {
+  if (strncmp(p->pos, "#t", 2) == 0 && (p->pos[2] == '\0' || !is_symbol_char(p->pos[2]))) {
     p->pos += 2;
     p->column += 2;
     SCM *result = scm_bool_true();
@@ -710,9 +708,7 @@ static SCM *parse_symbol(Parser *p) {
     return result;
   }
   
-  if (strncmp(p->pos, "#f", 2) == 0 && 
-      (p->pos[2] == '\0' || isspace((unsigned char)p->pos[2]) || 
-       p->pos[2] == ')' || p->pos[2] == '(' || p->pos[2] == ';')) {
+  if (strncmp(p->pos, "#f", 2) == 0 && (p->pos[2] == '\0' || !is_symbol_char(p->pos[2]))) {
     p->pos += 2;
     p->column += 2;
     SCM *result = scm_bool_false();
-- 
2.43.0


From e7dfe2c8d056f25d4cca8721e6377063fa8ccf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 38/91] fix: read takes one datum and nothing after it; output
 to soft ports; strings with NUL to ports

---
 src/c/port.cc   | 277 ++++++++++++++++++++++++------------------------
 src/c/string.cc |  55 ++--------
 2 files changed, 147 insertions(+), 185 deletions(-)

diff --git a/src/c/port.cc b/src/c/port.cc
index c39c9a4..2fd5ba6 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -5,8 +5,9 @@
 #include <stdlib.h>
 #include <ctype.h>
 
-// Forward declaration
+// Forward declarations
 SCM *parse(const char *s);
+bool is_output_port(SCM_Port *port);
 
 // Helper function to create a port SCM object
 static SCM *wrap_port(SCM_Port *port) {
@@ -155,7 +156,7 @@ SCM *scm_c_close_output_port(SCM *port) {
   }
   
   SCM_Port *p = cast<SCM_Port>(port);
-  if (p->is_input) {
+  if (!is_output_port(p)) {
     eval_error("close-output-port: expected output port");
     return nullptr;
   }
@@ -346,7 +347,7 @@ static int peek_char_from_port(SCM_Port *port) {
 
 // Helper function to write a character to a port (exported for use in string.cc)
 void write_char_to_port_string(SCM_Port *port, char ch) {
-  if (port->is_closed) {
+  if (!port || port->is_closed) {
     return;
   }
   
@@ -361,7 +362,7 @@ void write_char_to_port_string(SCM_Port *port, char ch) {
     }
     port->output_buffer[port->output_len++] = ch;
     port->output_buffer[port->output_len] = '\0';
-  } else if (port->port_type == PORT_SOFT && !port->is_input) {
+  } else if (port->port_type == PORT_SOFT && is_output_port(port)) {
     // Call procedure at index 0 (accept one character for output)
     if (!port->soft_procedures || port->soft_procedures->length < 1) {
       return;
@@ -389,6 +390,21 @@ void write_char_to_port_string(SCM_Port *port, char ch) {
   }
 }
 
+// Whether a port takes output: for soft ports, the modes say so (exported for use in string.cc)
+bool is_output_port(SCM_Port *port) {
+  if (port->port_type == PORT_SOFT) {
+    return port->soft_modes && strchr(port->soft_modes, 'w') != nullptr;
+  }
+  return !port->is_input;
+}
+
+// Helper function to write a string to a port (exported for use in string.cc)
+void write_string_to_port(SCM_Port *port, const char *str, size_t len) {
+  for (size_t i = 0; i < len; i++) {
+    write_char_to_port_string(port, str[i]);
+  }
+}
+
 // Helper function to flush a port
 static void flush_port(SCM_Port *port) {
   if (port->is_closed) {
@@ -399,7 +415,7 @@ static void flush_port(SCM_Port *port) {
     if (port->file) {
       fflush(port->file);
     }
-  } else if (port->port_type == PORT_SOFT && !port->is_input) {
+  } else if (port->port_type == PORT_SOFT && is_output_port(port)) {
     // Call procedure at index 2 (flush output thunk)
     if (!port->soft_procedures || port->soft_procedures->length < 3) {
       return;
@@ -547,7 +563,7 @@ SCM *scm_force_output(SCM_List *args) {
   }
   
   SCM_Port *p = cast<SCM_Port>(port);
-  if (p->is_input) {
+  if (!is_output_port(p)) {
     eval_error("force-output: expected output port");
     return nullptr;
   }
@@ -556,144 +572,134 @@ SCM *scm_force_output(SCM_List *args) {
   return scm_none();
 }
 
-// Helper function to read a complete expression from port
-// This reads characters until we have a complete expression
-static SCM *read_expr_from_port(SCM_Port *port) {
-  if (port->is_closed) {
-    return scm_eof_object();
+// The text of one datum, as it is collected from a port
+struct DatumText {
+  char *data;
+  size_t len;
+  size_t capacity;
+};
+
+static void append_char(DatumText *text, int ch) {
+  if (text->len + 1 >= text->capacity) {
+    text->capacity = text->capacity ? text->capacity * 2 : 256;
+    text->data = (char *)realloc(text->data, text->capacity);
   }
-  
-  // Build a buffer with the expression
-  // Use dynamic allocation for large expressions
-  size_t buffer_size = 4096;
-  char *buffer = (char *)malloc(buffer_size);
-  if (!buffer) {
-    eval_error("read: out of memory");
-    return scm_eof_object();
+  text->data[text->len++] = (char)ch;
+  text->data[text->len] = '\0';
+}
+
+// Moves the next character of the port to the text. False at the end of the port
+static bool take_char(SCM_Port *port, DatumText *text) {
+  int ch = read_char_from_port(port);
+  if (ch == EOF) {
+    return false;
   }
-  int pos = 0;
-  int paren_depth = 0;
-  bool in_string = false;
-  bool escaped = false;
-  bool started = false;
-  
-  // Skip leading whitespace and comments
-  while (true) {
-    int ch = peek_char_from_port(port);
-    if (ch == EOF) {
-      if (!started) {
-        return scm_eof_object();
+  append_char(text, ch);
+  return true;
+}
+
+// Skip whitespace and comments (from ; to the end of the line)
+static void skip_atmosphere(SCM_Port *port) {
+  int ch = peek_char_from_port(port);
+  while (ch != EOF && (isspace(ch) || ch == ';')) {
+    if (ch == ';') {
+      while (ch != EOF && ch != '\n') {
+        read_char_from_port(port);
+        ch = peek_char_from_port(port);
       }
-      break;
+    } else {
+      read_char_from_port(port);
+      ch = peek_char_from_port(port);
     }
-    
-    // Skip whitespace
-    if (isspace(ch)) {
-      read_char_from_port(port);  // Consume whitespace
-      continue;
+  }
+}
+
+// The characters that end an atom
+static bool is_delimiter(int ch) {
+  return ch == EOF || isspace(ch) || (ch != 0 && strchr("()\"';`,", ch) != nullptr);
+}
+
+// Collects the characters of one datum, and none after it. Whether the text is a datum is for the parser to decide
+static void take_datum(SCM_Port *port, DatumText *text) {
+  int depth = 0;
+  while (true) {
+    skip_atmosphere(port);
+    int ch = peek_char_from_port(port);
+    if (!take_char(port, text)) {
+      return;
     }
-    
-    // Skip comments (lines starting with ;)
-    if (ch == ';') {
-      // Read until end of line
-      while (true) {
-        int comment_ch = read_char_from_port(port);
-        if (comment_ch == EOF || comment_ch == '\n' || comment_ch == '\r') {
-          // Skip the newline if we read it
-          if (comment_ch == '\r') {
-            int next_ch = peek_char_from_port(port);
-            if (next_ch == '\n') {
-              read_char_from_port(port);
-            }
-          }
+    bool prefix = false;
+    if (ch == '(') {
+      depth++;
+    } else if (ch == ')') {
+      depth--;
+    } else if (ch == '\'' || ch == '`' || ch == ',') {
+      prefix = true;
+      if (ch == ',' && peek_char_from_port(port) == '@') {
+        take_char(port, text);
+      }
+    } else if (ch == '"') {
+      while ((ch = peek_char_from_port(port)) != EOF) {
+        take_char(port, text);
+        if (ch == '"') {
           break;
         }
+        if (ch == '\\') {
+          take_char(port, text);
+        }
       }
-      continue;
-    }
-    
-    // Found non-whitespace, non-comment character
-    started = true;
-    break;
-  }
-  
-  if (!started) {
-    return scm_eof_object();
-  }
-  
-  // Read until we have a complete expression
-  while (pos < (int)buffer_size - 1) {
-    int ch = read_char_from_port(port);
-    if (ch == EOF) {
-      if (paren_depth == 0 && !in_string) {
-        break;
+    } else if (ch == '#' && peek_char_from_port(port) == '(') {
+      take_char(port, text);
+      depth++;
+    } else if (ch == '#' && peek_char_from_port(port) == '\\') {
+      take_char(port, text);
+      ch = peek_char_from_port(port);
+      take_char(port, text);
+      while (isalpha(ch) && isalpha(peek_char_from_port(port))) {
+        take_char(port, text);
       }
-      // Incomplete expression
-      free(buffer);
-      return scm_eof_object();
-    }
-    
-    // Resize buffer if needed
-    if (pos >= (int)buffer_size - 1) {
-      buffer_size *= 2;
-      char *new_buffer = (char *)realloc(buffer, buffer_size);
-      if (!new_buffer) {
-        free(buffer);
-        eval_error("read: out of memory");
-        return scm_eof_object();
+    } else if (ch == '#' && peek_char_from_port(port) == '{') {
+      while ((ch = peek_char_from_port(port)) != EOF && ch != '}') {
+        take_char(port, text);
       }
-      buffer = new_buffer;
-    }
-    
-    buffer[pos++] = (char)ch;
-    
-    if (escaped) {
-      escaped = false;
-      continue;
-    }
-    
-    if (ch == '\\' && in_string) {
-      escaped = true;
-      continue;
-    }
-    
-    if (ch == '"') {
-      in_string = !in_string;
-      continue;
-    }
-    
-    if (in_string) {
-      continue;
-    }
-    
-    if (ch == '(') {
-      paren_depth++;
-    } else if (ch == ')') {
-      paren_depth--;
-      if (paren_depth < 0) {
-        // Too many closing parens
-        break;
+      take_char(port, text);
+      if (peek_char_from_port(port) == '#') {
+        take_char(port, text);
       }
-      if (paren_depth == 0) {
-        // Complete expression
-        break;
+    } else {
+      while (true) {
+        if (ch == '\\' && !isspace(peek_char_from_port(port))) {
+          take_char(port, text);
+        }
+        ch = peek_char_from_port(port);
+        if (is_delimiter(ch)) {
+          break;
+        }
+        take_char(port, text);
       }
-    } else if (paren_depth == 0 && (ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r')) {
-      // End of expression at top level
-      pos--;  // Don't include the whitespace
-      break;
+    }
+    if (depth <= 0 && !prefix) {
+      return;
+    }
+    if (!prefix && depth > 0) {
+      append_char(text, ' ');
     }
   }
-  
-  buffer[pos] = '\0';
-  
-  // Parse the expression
-  SCM *result = parse(buffer);
-  
-  // Free the buffer
-  free(buffer);
-  
-  return result;
+}
+
+// Helper function to read a complete expression from port
+static SCM *read_expr_from_port(SCM_Port *port) {
+  skip_atmosphere(port);
+  if (peek_char_from_port(port) == EOF) {
+    return scm_eof_object();
+  }
+  DatumText text = {nullptr, 0, 0};
+  take_datum(port, &text);
+  // The parser does not return here on an error: the text is freed by the next read
+  static char *last_text = nullptr;
+  free(last_text);
+  last_text = text.data;
+  return parse(last_text);
 }
 
 // read-char: Read a character from a port
@@ -819,8 +825,7 @@ SCM *scm_c_is_output_port(SCM *obj) {
   if (!is_port(obj)) {
     return scm_bool_false();
   }
-  SCM_Port *port = cast<SCM_Port>(obj);
-  return port->is_input ? scm_bool_false() : scm_bool_true();
+  return is_output_port(cast<SCM_Port>(obj)) ? scm_bool_true() : scm_bool_false();
 }
 
 // write-char: Write a character to a port
@@ -849,13 +854,7 @@ SCM *scm_c_write_char(SCM_List *args) {
       return nullptr;
     }
     SCM_Port *port = cast<SCM_Port>(port_arg);
-    // For soft ports, check modes string instead of is_input
-    if (port->port_type == PORT_SOFT) {
-      if (!port->soft_modes || strchr(port->soft_modes, 'w') == nullptr) {
-        eval_error("write-char: expected output port");
-        return nullptr;
-      }
-    } else if (port->is_input) {
+    if (!is_output_port(port)) {
       eval_error("write-char: expected output port");
       return nullptr;
     }
diff --git a/src/c/string.cc b/src/c/string.cc
index d3992cc..d91550d 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -126,47 +126,10 @@ SCM *scm_c_string_set(SCM *str, SCM *k, SCM *chr) {
   return scm_none(); // Return unspecified value
 }
 
-// Helper function to write string to port
-static void write_string_to_port(SCM_Port *port, const char *str) {
-  if (!port || port->is_closed) {
-    return;
-  }
-  
-  if (port->port_type == PORT_FILE_OUTPUT) {
-    if (port->file) {
-      fputs(str, port->file);
-    }
-  } else if (port->port_type == PORT_STRING_OUTPUT) {
-    int len = strlen(str);
-    while (port->output_len + len + 1 >= port->output_capacity) {
-      port->output_capacity = port->output_capacity == 0 ? 256 : port->output_capacity * 2;
-      port->output_buffer = (char*)realloc(port->output_buffer, port->output_capacity);
-    }
-    memcpy(port->output_buffer + port->output_len, str, len);
-    port->output_len += len;
-    port->output_buffer[port->output_len] = '\0';
-  }
-}
-
-// Helper function to write character to port
-static void write_char_to_port_string(SCM_Port *port, char ch) {
-  if (!port || port->is_closed) {
-    return;
-  }
-  
-  if (port->port_type == PORT_FILE_OUTPUT) {
-    if (port->file) {
-      fputc(ch, port->file);
-    }
-  } else if (port->port_type == PORT_STRING_OUTPUT) {
-    if (port->output_len + 1 >= port->output_capacity) {
-      port->output_capacity = port->output_capacity == 0 ? 256 : port->output_capacity * 2;
-      port->output_buffer = (char*)realloc(port->output_buffer, port->output_capacity);
-    }
-    port->output_buffer[port->output_len++] = ch;
-    port->output_buffer[port->output_len] = '\0';
-  }
-}
+// Writing to ports (port.cc)
+bool is_output_port(SCM_Port *port);
+void write_string_to_port(SCM_Port *port, const char *str, size_t len);
+void write_char_to_port_string(SCM_Port *port, char ch);
 
 // display: Output the argument using display format (without quotes for strings)
 // display obj [port]
@@ -188,7 +151,7 @@ SCM *scm_c_display(SCM_List *args) {
       return nullptr;
     }
     SCM_Port *port = cast<SCM_Port>(port_arg);
-    if (port->is_input) {
+    if (!is_output_port(port)) {
       eval_error("display: expected output port");
       return nullptr;
     }
@@ -220,7 +183,7 @@ SCM *scm_c_display(SCM_List *args) {
     buffer[total] = '\0';
     stdout = old_stdout;
     fclose(tmp_file);
-    write_string_to_port(port, buffer);
+    write_string_to_port(port, buffer, total);
     free(buffer);
   } else {
     print_ast(obj, false); // Use display format (write_mode = false)
@@ -248,7 +211,7 @@ SCM *scm_c_write(SCM_List *args) {
       return nullptr;
     }
     SCM_Port *port = cast<SCM_Port>(port_arg);
-    if (port->is_input) {
+    if (!is_output_port(port)) {
       eval_error("write: expected output port");
       return nullptr;
     }
@@ -280,7 +243,7 @@ SCM *scm_c_write(SCM_List *args) {
     buffer[total] = '\0';
     stdout = old_stdout;
     fclose(tmp_file);
-    write_string_to_port(port, buffer);
+    write_string_to_port(port, buffer, total);
     free(buffer);
   } else {
     print_ast(obj, true); // Use write format (write_mode = true)
@@ -301,7 +264,7 @@ SCM *scm_c_newline(SCM_List *args) {
       return nullptr;
     }
     SCM_Port *port = cast<SCM_Port>(port_arg);
-    if (port->is_input) {
+    if (!is_output_port(port)) {
       eval_error("newline: expected output port");
       return nullptr;
     }
-- 
2.43.0


From 025cdb0d5291761b21e01517bad4bdd7a1ac19aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 39/91] fix: printing a float outside the fixnum range does not
 convert it to an integer

---
 src/c/print.cc  | 2 +-
 src/c/string.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/print.cc b/src/c/print.cc
index d5df0bf..5de5472 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -82,7 +82,7 @@ static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContex
     double val = ptr_to_double(ast->value);
     // Always show at least one decimal place for floats to preserve the float representation
     // Match Guile's precision: use %.14g for better precision (14 significant digits)
-    if (val == (double)(int64_t)val) {
+    if (val >= -0x1p63 && val < 0x1p63 && val == (double)(int64_t)val) {
       // Integer value stored as float: print with .0 to show it's a float
       printf("%.1f", val);
     } else {
diff --git a/src/c/string.cc b/src/c/string.cc
index d91550d..5a99881 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -493,7 +493,7 @@ SCM *scm_c_number_to_string(SCM_List *args) {
     // Use snprintf to format float
     // Allocate enough space (64 bytes should be enough for most floats)
     str_data = new char[64];
-    if (val == (double)(int64_t)val) {
+    if (val >= -0x1p63 && val < 0x1p63 && val == (double)(int64_t)val) {
       // Integer value stored as float: print with .0 to show it's a float
       str_len = snprintf(str_data, 64, "%.1f", val);
     } else {
-- 
2.43.0


From 89224ac49495e93f2f2620f7a48354924e2fdb5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:13 +0000
Subject: [PATCH 40/91] fix: hash-set! on an entry held as a handle leaves it a
 proper pair

---
 src/c/hash_table.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index 5d41540..ec34ef8 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -156,9 +156,9 @@ static SCM_HashTable *validate_and_get_bucket_idx(SCM *table, SCM *key,
 
 // Helper function to update existing entry's value
 static void update_entry_value(SCM_List *entry, SCM *value) {
-  // A fresh node: the present one may be shared with a list the program stored through the handle
-  entry->next = make_list(value);
-  entry->next->is_dotted = true;  // Mark as dotted pair's cdr
+  // As set-cdr! does: the program may hold the entry as a handle, and the present node may be
+  // shared with a list the program stored through it
+  scm_c_set_cdr(wrap(entry), value);
 }
 
 // Helper function to find entry in bucket
-- 
2.43.0


From 238a8ed9edf78e8e29ec5f42b28c1e913672f432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:43 +0000
Subject: [PATCH 41/91] fix: gc: a large block's size includes its padding, so
 that the sweep finds the next block

---
 src/c/gc.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index c1855de..65a74ef 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -268,8 +268,11 @@ void *gc_alloc(TypeTag tag, size_t size) {
 
     if (!block) {
       // No suitable free block -- bump-allocate fresh.
-      block = (GCBlock *)bump_allocate(sizeof(GCBlock) + size);
-      block->size = size;
+      // The sweep finds the next block by this block's size: it has to include
+      // the padding of bump_allocate.
+      size_t block_size = (size + 15) & ~(size_t)15;
+      block = (GCBlock *)bump_allocate(sizeof(GCBlock) + block_size);
+      block->size = block_size;
     } else {
       // Use the block as-is with its original size.  The sequential
       // layout during sweep depends on each block's size field
-- 
2.43.0


From beb1961d2786dfdc5616d4d841e38e5f88447747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:44 +0000
Subject: [PATCH 42/91] verif: reclaimed memory is overwritten, nothing else

---
 src/c/verif_gc.inc | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/c/verif_gc.inc b/src/c/verif_gc.inc
index f4be984..9033ca1 100644
--- a/src/c/verif_gc.inc
+++ b/src/c/verif_gc.inc
@@ -3,17 +3,10 @@
 //
 //  - a schedule: collect at allocations chosen by the harness, so that any
 //    allocation can be the one that triggers a collection;
-//  - poisoning: the payload of a reclaimed block is overwritten (and, under
-//    ASan, made inaccessible), so that a later use of it is observable;
+//  - poisoning: the payload of a reclaimed block is overwritten, so that a
+//    later use of it is observable;
 //  - counters: what the monitors report as observed.
 
-#if defined(__has_feature)
-#if __has_feature(address_sanitizer)
-#include <sanitizer/asan_interface.h>
-#define VERIF_ASAN 1
-#endif
-#endif
-
 struct pscm_verif_gc_stats_t {
   uint64_t allocs;        // gc_alloc calls
   uint64_t alloc_bytes;   // bytes asked for
@@ -62,9 +55,6 @@ static void verif_on_alloc(GCBlock *block, size_t size) {
   if (block->age == 3) {
     g_verif_gc_stats.reused++;
     block->age = 0;
-#ifdef VERIF_ASAN
-    __asan_unpoison_memory_region(block_to_obj(block), block->size);
-#endif
   }
 }
 
@@ -74,9 +64,6 @@ static void verif_on_free(GCBlock *block) {
     block->age = 3; // "reclaimed": the collector itself never uses this field
     g_verif_gc_stats.reclaimed++;
     memset(block_to_obj(block), 0xDB, block->size);
-#ifdef VERIF_ASAN
-    __asan_poison_memory_region(block_to_obj(block), block->size);
-#endif
   }
 }
 
-- 
2.43.0


From 6d6ae78ff5989a6827abef8aee3bbc8f5ba1dafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:08 +0000
Subject: [PATCH 43/91] fix: continuations capture the stack below the host's
 current call into the interpreter

---
 src/c/apply.cc        | 10 ++++++++++
 src/c/continuation.cc | 25 +++++++++++++++++++++++++
 src/c/eval.cc         |  6 ++----
 src/c/pscm.h          |  1 +
 src/c/pscm_api.cc     |  6 ++----
 src/c/pscm_types.h    |  3 +++
 6 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index b7f4e62..fd0d8ee 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -18,6 +18,8 @@ SCM *scm_call_0(SCM *proc) {
     eval_error("scm_call_0: procedure is null");
     return nullptr;
   }
+  long stack_base;
+  scm_enter_from_host(&stack_base);
   
   if (is_proc(proc)) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
@@ -42,6 +44,8 @@ SCM *scm_call_1(SCM *proc, SCM *arg1) {
     eval_error("scm_call_1: procedure is null");
     return nullptr;
   }
+  long stack_base;
+  scm_enter_from_host(&stack_base);
   
   if (is_proc(proc)) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
@@ -68,6 +72,8 @@ SCM *scm_call_2(SCM *proc, SCM *arg1, SCM *arg2) {
     eval_error("scm_call_2: procedure is null");
     return nullptr;
   }
+  long stack_base;
+  scm_enter_from_host(&stack_base);
   
   if (is_proc(proc)) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
@@ -96,6 +102,8 @@ SCM *scm_call_3(SCM *proc, SCM *arg1, SCM *arg2, SCM *arg3) {
     eval_error("scm_call_3: procedure is null");
     return nullptr;
   }
+  long stack_base;
+  scm_enter_from_host(&stack_base);
   
   if (is_proc(proc)) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
@@ -126,6 +134,8 @@ SCM *scm_apply_0(SCM *proc, SCM *args) {
     eval_error("scm_apply_0: procedure is null");
     return nullptr;
   }
+  long stack_base;
+  scm_enter_from_host(&stack_base);
   
   // args can be nil (empty list) or a pair (list)
   SCM_List *args_list = nullptr;
diff --git a/src/c/continuation.cc b/src/c/continuation.cc
index c0e5006..5c698df 100644
--- a/src/c/continuation.cc
+++ b/src/c/continuation.cc
@@ -12,6 +12,21 @@ long scm_stack_size(long *start) {
   return start - &stack;
 }
 
+static long *entry_base = nullptr;                   // cont_base as set below
+static void *cont_base_entry = nullptr;              // Function that cont_base is in
+static struct catch_info *cont_base_catch = nullptr; // Innermost catch above cont_base
+
+// Called with the address of a local variable wherever the host can enter the interpreter.
+// Continuations capture the stack below the outermost of these calls, unless the host
+// has set cont_base itself.
+void scm_enter_from_host(long *stack_base) {
+  if (eval_stack_depth() == 0 && cont_base == entry_base) {
+    cont_base = entry_base = stack_base;
+    cont_base_entry = __builtin_return_address(0);
+    cont_base_catch = scm_catch_top();
+  }
+}
+
 // Forward declaration
 SCM_List *copy_wind_chain(SCM_List *chain);
 SCM_List *unwind_wind_chain(SCM_List *target);
@@ -36,6 +51,9 @@ SCM *scm_make_continuation(int *first) {
   src -= stack_size;
   auto cont = make_cont(stack_size, (long *)malloc(sizeof(long) * stack_size), src);
   auto data = wrap(cont);
+  cont->stack_base = cont_base;
+  cont->base_entry = cont_base_entry;
+  cont->base_catch = cont_base_catch;
 #if defined(__has_feature) && __has_feature(address_sanitizer)
   {
     volatile char *dst_bytes = (volatile char *)cont->stack_data;
@@ -106,6 +124,13 @@ void copy_stack_and_call(SCM_Continuation *cont, SCM *args, long *dst) {
 void scm_dynthrow(SCM *cont, SCM *args) {
   auto continuation = cast<SCM_Continuation>(cont);
 
+  // The captured frames return into the frames above cont_base
+  if (continuation->stack_base != cont_base || continuation->base_entry != cont_base_entry ||
+      continuation->base_catch != cont_base_catch) {
+    eval_error("continuation invoked from a different top level");
+    return;
+  }
+
   // Handle wind chain: unwind current to common prefix, then rewind to continuation's wind chain
   SCM_List *common = unwind_wind_chain(continuation->wind_chain);
   rewind_wind_chain(common, continuation->wind_chain);
diff --git a/src/c/eval.cc b/src/c/eval.cc
index e70556e..ef474eb 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -45,10 +45,8 @@ SCM *scm_c_eval_string(const char *expr) {
   }
   
   // Evaluate all expressions, return the last result
-  if (!cont_base) {
-    long stack_base;
-    cont_base = &stack_base;
-  }
+  long stack_base;
+  scm_enter_from_host(&stack_base);
   SCM *last_result = nullptr;
   SCM_List *current = exprs;
   while (current) {
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 465b530..e3515f6 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -741,6 +741,7 @@ void repl();
  */
 SCM *scm_make_continuation(int *first);
 void scm_dynthrow(SCM *cont, SCM *args);
+void scm_enter_from_host(long *stack_base);
 
 /*
  * Functions in let.cc
diff --git a/src/c/pscm_api.cc b/src/c/pscm_api.cc
index c7f5354..d03bc92 100644
--- a/src/c/pscm_api.cc
+++ b/src/c/pscm_api.cc
@@ -30,10 +30,8 @@ SCM *pscm_eval(SCM *ast) {
   if (!ast) {
     return nullptr;
   }
-  if (!cont_base) {
-    long stack_base;
-    cont_base = &stack_base;
-  }
+  long stack_base;
+  scm_enter_from_host(&stack_base);
   return scm_c_catch(
       scm_bool_true(),
       [](void *data) -> SCM * {
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index 2944040..96d9c24 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -95,6 +95,9 @@ struct SCM_Continuation {
   SCM *arg;
   SCM_List *wind_chain; // Saved wind chain when continuation was created
   SCM *saved_module;    // Saved current module when continuation was created
+  long *stack_base;     // cont_base at capture time
+  void *base_entry;     // cont_base_entry at capture time
+  struct catch_info *base_catch; // cont_base_catch at capture time
   long *stack_src;      // Saved stack source address at capture time (cont_base - stack_size)
   struct catch_info *catch_top; // Innermost catch when continuation was created
 };
-- 
2.43.0


From bf14d36262b0ac6bc71be5324bb06122cbebaeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:01 +0000
Subject: [PATCH 44/91] fix: malformed special forms are errors instead of
 failed assertions or crashes

---
 src/c/case.cc     | 13 +++++++++++-
 src/c/cond.cc     | 14 +++++++++++--
 src/c/define.cc   |  4 ++++
 src/c/do.cc       |  6 +++++-
 src/c/dynwind.cc  |  5 ++++-
 src/c/eval.cc     | 24 ++++++++++++++++++----
 src/c/for_each.cc |  5 ++++-
 src/c/let.cc      | 51 +++++++++++++++++++++++++++++++++--------------
 8 files changed, 97 insertions(+), 25 deletions(-)

diff --git a/src/c/case.cc b/src/c/case.cc
index 316f779..1a1073a 100644
--- a/src/c/case.cc
+++ b/src/c/case.cc
@@ -19,7 +19,10 @@ static bool value_in_datums(SCM *value, SCM_List *datums) {
 // Helper function for case special form
 // Syntax: (case key ((datum1 ...) expr1 ...) ((datum2 ...) expr2 ...) ... (else expr ...))
 SCM *eval_case(SCM_Environment *env, SCM_List *l) {
-  assert(l->next);  // Must have at least key expression
+  if (!l->next) { // Must have at least key expression
+    eval_error("case: bad syntax");
+    return nullptr;
+  }
   
   // Evaluate the key expression
   SCM *key = eval_with_env(env, l->next->data);
@@ -32,6 +35,10 @@ SCM *eval_case(SCM_Environment *env, SCM_List *l) {
   
   // Process each clause
   for (SCM_List *clause_it = l->next->next; clause_it; clause_it = clause_it->next) {
+    if (!is_pair(clause_it->data)) {
+      eval_error("case: bad clause");
+      return nullptr;
+    }
     auto clause = cast<SCM_List>(clause_it->data);
     
     if (debug_enabled) {
@@ -48,6 +55,10 @@ SCM *eval_case(SCM_Environment *env, SCM_List *l) {
     
     // Regular clause: (datum1 datum2 ...)
     // Check if key matches any datum in this clause
+    if (!is_pair(clause->data) && !is_nil(clause->data)) {
+      eval_error("case: bad clause");
+      return nullptr;
+    }
     auto datums = cast<SCM_List>(clause->data);
     
     if (value_in_datums(key, datums)) {
diff --git a/src/c/cond.cc b/src/c/cond.cc
index a7cb033..8e1df23 100644
--- a/src/c/cond.cc
+++ b/src/c/cond.cc
@@ -9,8 +9,15 @@ static bool is_literal(SCM_Environment *env, SCM_Symbol *sym) {
 
 // Helper function for cond special form
 SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  if (!l->next) {
+    eval_error("cond: bad syntax");
+    return nullptr;
+  }
   for (auto it = l->next; it; it = it->next) {
+    if (!is_pair(it->data)) {
+      eval_error("cond: bad clause");
+      return nullptr;
+    }
     auto clause = cast<SCM_List>(it->data);
     if (debug_enabled) {
       SCM_DEBUG_EVAL("eval cond clause ");
@@ -35,7 +42,10 @@ SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
       SCM_Symbol *arrow_sym = cast<SCM_Symbol>(clause->next->data);
       // Check if => is literal (not bound in environment), similar to Guile's literal_p
       if (is_literal(env, arrow_sym)) {
-        assert(clause->next->next);
+        if (!clause->next->next) {
+          eval_error("cond: missing procedure after =>");
+          return nullptr;
+        }
         // First evaluate the procedure (clause->next->next->data) to get the actual procedure
         // Then call it with pred as argument
         // Build: (proc (quote pred))
diff --git a/src/c/define.cc b/src/c/define.cc
index 38a6ad8..ac39265 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -65,6 +65,10 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
   
   // Handle curried form: (define ((name args1...) args2...) body...)
   // Convert to: (define name (lambda (args1...) (lambda (args2...) body...)))
+  if (!l->next || !is_pair(l->next->data)) {
+    eval_error("define: bad syntax");
+    return nullptr;
+  }
   SCM *key = l->next->data;
   SCM_List *val_list = l->next->next;
   
diff --git a/src/c/do.cc b/src/c/do.cc
index fd0625e..23819e0 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -94,7 +94,11 @@ SCM_Environment *update_do_variables(SCM_Environment *do_env, SCM_List *var_upda
 SCM *eval_do(SCM_Environment *env, SCM_List *l) {
   assert(env);
   assert(l);
-  assert(l->next && l->next->next);
+  if (!l->next || !l->next->next || !is_pair(l->next->next->data) ||
+      (!is_pair(l->next->data) && !is_nil(l->next->data))) {
+    eval_error("do: bad syntax");
+    return nullptr;
+  }
   auto var_init_l = cast<SCM_List>(l->next->data);
   auto test_clause = l->next->next->data;
   auto body_clause = l->next->next->next;  // May be null if no body
diff --git a/src/c/dynwind.cc b/src/c/dynwind.cc
index bb9611f..30747a4 100644
--- a/src/c/dynwind.cc
+++ b/src/c/dynwind.cc
@@ -114,7 +114,10 @@ void rewind_wind_chain(SCM_List *common, SCM_List *target) {
 
 // Dynamic-wind special form handler
 SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l) {
-  assert(l->next && l->next->next && l->next->next->next);
+  if (!l->next || !l->next->next || !l->next->next->next) {
+    eval_error("dynamic-wind: requires 3 arguments");
+    return nullptr;
+  }
   
   // Evaluate the three arguments: in_guard, thunk, out_guard
   SCM *in_guard_val = eval_with_env(env, l->next->data);
diff --git a/src/c/eval.cc b/src/c/eval.cc
index ef474eb..4a81b83 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -8,7 +8,10 @@
 #include <cstdlib>
 
 SCM *eval_with_list(SCM_Environment *env, SCM_List *l) {
-  assert(l);
+  if (!l) {
+    eval_error("bad syntax: body without an expression");
+    return nullptr;
+  }
   SCM *ret = nullptr;
   while (l) {
     ret = eval_with_env(env, l->data);
@@ -68,7 +71,10 @@ static SCM *eval_quote(SCM_List *l) {
 SCM *eval_quasiquote(SCM_Environment *env, SCM_List *l);
 
 static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
-  assert(l->next && is_sym(l->next->data));
+  if (!l->next || !is_sym(l->next->data) || !l->next->next) {
+    eval_error("set!: bad syntax");
+    return nullptr;
+  }
   auto sym = cast<SCM_Symbol>(l->next->data);
   auto val = eval_with_env(env, l->next->next->data);
   
@@ -120,6 +126,10 @@ static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
 }
 
 SCM *eval_lambda(SCM_Environment *env, SCM_List *l) {
+  if (!l->next) {
+    eval_error("lambda: bad syntax");
+    return nullptr;
+  }
   SCM *param_spec = l->next->data;
   SCM_List *proc_sig = nullptr;
   
@@ -164,7 +174,10 @@ static SCM *lookup_symbol(SCM_Environment *env, SCM_Symbol *sym) {
 
 // Helper function for if special form
 static SCM *eval_if(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  if (!l->next || !l->next->next) {
+    eval_error("if: bad syntax");
+    return nullptr;
+  }
   auto pred = eval_with_env(env, l->next->data);
   // In Scheme, only #f is falsy, everything else is truthy
   if (is_truthy(pred)) {
@@ -230,7 +243,10 @@ static SCM *eval_or(SCM_Environment *env, SCM_List *l, SCM **ast) {
 
 // Helper function for call/cc special form
 static SCM *eval_call_cc(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  if (!l->next) {
+    eval_error("call-with-current-continuation: requires 1 argument (procedure)");
+    return nullptr;
+  }
   auto proc = eval_with_env(env, l->next->data);
   int first;
   auto cont = scm_make_continuation(&first);
diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index 78dd168..67cc571 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -32,7 +32,10 @@ static inline bool is_list_exhausted(SCM_List *list) {
 //   - list1, list2, ...: lists of arguments (must have same length)
 //
 SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
-  assert(l->next);
+  if (!l->next) {
+    eval_error("for-each: requires at least 2 arguments (procedure and list)");
+    return nullptr;
+  }
   auto f = eval_with_env(env, l->next->data);
   if (!is_proc(f) && !is_func(f)) {
     eval_error("for-each: first argument must be a procedure or function");
diff --git a/src/c/let.cc b/src/c/let.cc
index 435e22d..a3753d1 100644
--- a/src/c/let.cc
+++ b/src/c/let.cc
@@ -1,10 +1,19 @@
 #include "pscm.h"
 #include "eval.h"
 
+// A binding is (variable expression)
+static void check_binding(const char *form, SCM *binding) {
+  if (!is_pair(binding) || !is_sym(car(binding)) || !cast<SCM_List>(binding)->next) {
+    eval_error("%s: bad binding", form);
+  }
+}
+
 SCM *expand_let(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  if (!l->next || !l->next->next) {
+    eval_error("let: bad syntax");
+    return nullptr;
+  }
   SCM_List dummy_params = make_list_dummy();
   SCM_List dummy_args = make_list_dummy();
   auto params = &dummy_params;
@@ -41,7 +50,10 @@ SCM *expand_let(SCM *expr) {
     So if there's a variable shadowing issue, we need to evaluate the
     args in the outer environment first.
     */
-    assert(l->next->next->next);
+    if (!l->next->next->next) {
+      eval_error("let: bad syntax");
+      return nullptr;
+    }
     auto argl = l->next->next->data;
     auto body = l->next->next->next; // all the body expressions
     
@@ -55,6 +67,9 @@ SCM *expand_let(SCM *expr) {
         eval_error("let: bindings must be a list");
         return nullptr;
       }
+      for (auto it = cast<SCM_List>(argl); it; it = it->next) {
+        check_binding("let", it->data);
+      }
       params = map(argl, car);
       args = map(argl, cadr);
     }
@@ -190,13 +205,14 @@ SCM *expand_let(SCM *expr) {
         printf("\n");
       }
     }
-    assert(is_pair(func_args));
+    if (!is_pair(func_args)) {
+      eval_error("let: bindings must be a list");
+      return nullptr;
+    }
     auto argl = cast<SCM_List>(func_args);
     while (argl) {
-      assert(argl->data);
-      assert(is_pair(argl->data));
+      check_binding("let", argl->data);
       auto arg = cast<SCM_List>(argl->data);
-      assert(arg->next);
       auto new_param = make_list(arg->data);
       params->next = new_param;
       params = params->next;
@@ -248,8 +264,10 @@ SCM *expand_let(SCM *expr) {
 
 SCM *expand_letstar(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  if (!l->next || !l->next->next) {
+    eval_error("let*: bad syntax");
+    return nullptr;
+  }
   SCM *ast = nullptr;
   auto bindings = l->next->data;
   
@@ -357,8 +375,10 @@ expanded as
 */
 SCM *expand_letrec(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  if (!l->next || !l->next->next) {
+    eval_error("letrec: bad syntax");
+    return nullptr;
+  }
   SCM_List dummy_params = make_list_dummy();
   SCM_List dummy_args = make_list_dummy();
   auto params = &dummy_params;
@@ -380,13 +400,14 @@ SCM *expand_letrec(SCM *expr) {
     return ast;
   }
   else {
-    assert(is_pair(func_args));
+    if (!is_pair(func_args)) {
+      eval_error("letrec: bindings must be a list");
+      return nullptr;
+    }
     auto argl = cast<SCM_List>(func_args);
     while (argl) {
-      assert(argl->data);
-      assert(is_pair(argl->data));
+      check_binding("letrec", argl->data);
       auto arg = cast<SCM_List>(argl->data);
-      assert(arg->next);
 
       // Save arg->data and arg->next->data to avoid issues with temporary objects
       // These are SCM * pointers, so we can use them directly
-- 
2.43.0


From f8f73885726c13ee1d1daa97d88d6dc466f78493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:20 +0000
Subject: [PATCH 45/91] fix: a nested call from the host gives the continuation
 base back when it returns or throws

---
 src/c/apply.cc        | 55 +++++++++++++++++++++++++++++++------------
 src/c/continuation.cc | 28 +++++++++++++++-------
 src/c/eval.cc         |  3 ++-
 src/c/pscm.h          |  4 +++-
 src/c/pscm_api.cc     |  6 +++--
 src/c/pscm_types.h    | 11 ++++++---
 src/c/throw.cc        |  2 ++
 7 files changed, 78 insertions(+), 31 deletions(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index fd0d8ee..4a751f3 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -19,20 +19,25 @@ SCM *scm_call_0(SCM *proc) {
     return nullptr;
   }
   long stack_base;
-  scm_enter_from_host(&stack_base);
+  SCM_HostEntry outer = scm_enter_from_host(&stack_base);
   
   if (is_proc(proc)) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    return apply_procedure_with_values(env, proc_obj, nullptr);
+    SCM *result = apply_procedure_with_values(env, proc_obj, nullptr);
+    scm_return_to_host(outer);
+    return result;
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
     dummy_list.data = proc;
     dummy_list.next = nullptr;
     dummy_list.is_dotted = false;
-    return eval_with_func(func_obj, &dummy_list);
+    SCM *result = eval_with_func(func_obj, &dummy_list);
+    scm_return_to_host(outer);
+    return result;
   } else {
+    scm_return_to_host(outer);
     eval_error("scm_call_0: expected procedure or function");
     return nullptr;
   }
@@ -45,13 +50,15 @@ SCM *scm_call_1(SCM *proc, SCM *arg1) {
     return nullptr;
   }
   long stack_base;
-  scm_enter_from_host(&stack_base);
+  SCM_HostEntry outer = scm_enter_from_host(&stack_base);
   
   if (is_proc(proc)) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
     SCM_List *args = make_list(arg1);
-    return apply_procedure_with_values(env, proc_obj, args);
+    SCM *result = apply_procedure_with_values(env, proc_obj, args);
+    scm_return_to_host(outer);
+    return result;
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -59,8 +66,11 @@ SCM *scm_call_1(SCM *proc, SCM *arg1) {
     SCM_List *arg_list = make_list(arg1);
     dummy_list.next = arg_list;
     dummy_list.is_dotted = false;
-    return eval_with_func(func_obj, &dummy_list);
+    SCM *result = eval_with_func(func_obj, &dummy_list);
+    scm_return_to_host(outer);
+    return result;
   } else {
+    scm_return_to_host(outer);
     eval_error("scm_call_1: expected procedure or function");
     return nullptr;
   }
@@ -73,14 +83,16 @@ SCM *scm_call_2(SCM *proc, SCM *arg1, SCM *arg2) {
     return nullptr;
   }
   long stack_base;
-  scm_enter_from_host(&stack_base);
+  SCM_HostEntry outer = scm_enter_from_host(&stack_base);
   
   if (is_proc(proc)) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
     SCM_List *args = make_list(arg1);
     args->next = make_list(arg2);
-    return apply_procedure_with_values(env, proc_obj, args);
+    SCM *result = apply_procedure_with_values(env, proc_obj, args);
+    scm_return_to_host(outer);
+    return result;
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -89,8 +101,11 @@ SCM *scm_call_2(SCM *proc, SCM *arg1, SCM *arg2) {
     arg_list->next = make_list(arg2);
     dummy_list.next = arg_list;
     dummy_list.is_dotted = false;
-    return eval_with_func(func_obj, &dummy_list);
+    SCM *result = eval_with_func(func_obj, &dummy_list);
+    scm_return_to_host(outer);
+    return result;
   } else {
+    scm_return_to_host(outer);
     eval_error("scm_call_2: expected procedure or function");
     return nullptr;
   }
@@ -103,7 +118,7 @@ SCM *scm_call_3(SCM *proc, SCM *arg1, SCM *arg2, SCM *arg3) {
     return nullptr;
   }
   long stack_base;
-  scm_enter_from_host(&stack_base);
+  SCM_HostEntry outer = scm_enter_from_host(&stack_base);
   
   if (is_proc(proc)) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
@@ -111,7 +126,9 @@ SCM *scm_call_3(SCM *proc, SCM *arg1, SCM *arg2, SCM *arg3) {
     SCM_List *args = make_list(arg1);
     args->next = make_list(arg2);
     args->next->next = make_list(arg3);
-    return apply_procedure_with_values(env, proc_obj, args);
+    SCM *result = apply_procedure_with_values(env, proc_obj, args);
+    scm_return_to_host(outer);
+    return result;
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -121,8 +138,11 @@ SCM *scm_call_3(SCM *proc, SCM *arg1, SCM *arg2, SCM *arg3) {
     arg_list->next->next = make_list(arg3);
     dummy_list.next = arg_list;
     dummy_list.is_dotted = false;
-    return eval_with_func(func_obj, &dummy_list);
+    SCM *result = eval_with_func(func_obj, &dummy_list);
+    scm_return_to_host(outer);
+    return result;
   } else {
+    scm_return_to_host(outer);
     eval_error("scm_call_3: expected procedure or function");
     return nullptr;
   }
@@ -135,7 +155,7 @@ SCM *scm_apply_0(SCM *proc, SCM *args) {
     return nullptr;
   }
   long stack_base;
-  scm_enter_from_host(&stack_base);
+  SCM_HostEntry outer = scm_enter_from_host(&stack_base);
   
   // args can be nil (empty list) or a pair (list)
   SCM_List *args_list = nullptr;
@@ -149,7 +169,9 @@ SCM *scm_apply_0(SCM *proc, SCM *args) {
   if (is_proc(proc)) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    return apply_procedure_with_values(env, proc_obj, args_list);
+    SCM *result = apply_procedure_with_values(env, proc_obj, args_list);
+    scm_return_to_host(outer);
+    return result;
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -162,8 +184,11 @@ SCM *scm_apply_0(SCM *proc, SCM *args) {
     // Actually, eval_with_func expects arguments in a specific format
     // Let's check if we need to use apply_procedure_with_values for procedures
     // For now, use eval_with_func which should work if args are already evaluated
-    return eval_with_func(func_obj, &dummy_list);
+    SCM *result = eval_with_func(func_obj, &dummy_list);
+    scm_return_to_host(outer);
+    return result;
   } else {
+    scm_return_to_host(outer);
     eval_error("scm_apply_0: expected procedure or function");
     return nullptr;
   }
diff --git a/src/c/continuation.cc b/src/c/continuation.cc
index 5c698df..6bffeea 100644
--- a/src/c/continuation.cc
+++ b/src/c/continuation.cc
@@ -12,19 +12,31 @@ long scm_stack_size(long *start) {
   return start - &stack;
 }
 
-static long *entry_base = nullptr;                   // cont_base as set below
 static void *cont_base_entry = nullptr;              // Function that cont_base is in
 static struct catch_info *cont_base_catch = nullptr; // Innermost catch above cont_base
 
+SCM_HostEntry scm_host_entry() {
+  return { cont_base, cont_base_entry, cont_base_catch };
+}
+
 // Called with the address of a local variable wherever the host can enter the interpreter.
 // Continuations capture the stack below the outermost of these calls, unless the host
 // has set cont_base itself.
-void scm_enter_from_host(long *stack_base) {
-  if (eval_stack_depth() == 0 && cont_base == entry_base) {
-    cont_base = entry_base = stack_base;
+SCM_HostEntry scm_enter_from_host(long *stack_base) {
+  SCM_HostEntry outer = scm_host_entry();
+  if (!cont_base) {
+    cont_base = stack_base;
     cont_base_entry = __builtin_return_address(0);
     cont_base_catch = scm_catch_top();
   }
+  return outer;
+}
+
+// Called with what scm_enter_from_host returned, or with what scm_host_entry did when a catch was set up
+void scm_return_to_host(const SCM_HostEntry &outer) {
+  cont_base = outer.base;
+  cont_base_entry = outer.entry;
+  cont_base_catch = outer.catch_top;
 }
 
 // Forward declaration
@@ -51,9 +63,7 @@ SCM *scm_make_continuation(int *first) {
   src -= stack_size;
   auto cont = make_cont(stack_size, (long *)malloc(sizeof(long) * stack_size), src);
   auto data = wrap(cont);
-  cont->stack_base = cont_base;
-  cont->base_entry = cont_base_entry;
-  cont->base_catch = cont_base_catch;
+  cont->host_entry = scm_host_entry();
 #if defined(__has_feature) && __has_feature(address_sanitizer)
   {
     volatile char *dst_bytes = (volatile char *)cont->stack_data;
@@ -125,8 +135,8 @@ void scm_dynthrow(SCM *cont, SCM *args) {
   auto continuation = cast<SCM_Continuation>(cont);
 
   // The captured frames return into the frames above cont_base
-  if (continuation->stack_base != cont_base || continuation->base_entry != cont_base_entry ||
-      continuation->base_catch != cont_base_catch) {
+  const SCM_HostEntry &from = continuation->host_entry;
+  if (from.base != cont_base || from.entry != cont_base_entry || from.catch_top != cont_base_catch) {
     eval_error("continuation invoked from a different top level");
     return;
   }
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 4a81b83..ffd5cf6 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -49,7 +49,7 @@ SCM *scm_c_eval_string(const char *expr) {
   
   // Evaluate all expressions, return the last result
   long stack_base;
-  scm_enter_from_host(&stack_base);
+  SCM_HostEntry outer = scm_enter_from_host(&stack_base);
   SCM *last_result = nullptr;
   SCM_List *current = exprs;
   while (current) {
@@ -58,6 +58,7 @@ SCM *scm_c_eval_string(const char *expr) {
     }
     current = current->next;
   }
+  scm_return_to_host(outer);
   
   // Return last result, or unspecified if no expressions
   return last_result ? last_result : scm_none();
diff --git a/src/c/pscm.h b/src/c/pscm.h
index e3515f6..4ef7614 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -741,7 +741,9 @@ void repl();
  */
 SCM *scm_make_continuation(int *first);
 void scm_dynthrow(SCM *cont, SCM *args);
-void scm_enter_from_host(long *stack_base);
+SCM_HostEntry scm_host_entry();
+SCM_HostEntry scm_enter_from_host(long *stack_base);
+void scm_return_to_host(const SCM_HostEntry &outer);
 
 /*
  * Functions in let.cc
diff --git a/src/c/pscm_api.cc b/src/c/pscm_api.cc
index d03bc92..b68005f 100644
--- a/src/c/pscm_api.cc
+++ b/src/c/pscm_api.cc
@@ -31,8 +31,8 @@ SCM *pscm_eval(SCM *ast) {
     return nullptr;
   }
   long stack_base;
-  scm_enter_from_host(&stack_base);
-  return scm_c_catch(
+  SCM_HostEntry outer = scm_enter_from_host(&stack_base);
+  SCM *result = scm_c_catch(
       scm_bool_true(),
       [](void *data) -> SCM * {
         return eval_with_env(&g_env, (SCM *)data);
@@ -40,6 +40,8 @@ SCM *pscm_eval(SCM *ast) {
       (void *)ast,
       scm_api_catch_handler,
       nullptr);
+  scm_return_to_host(outer);
+  return result;
 }
 
 // Parse and evaluate a string
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index 96d9c24..5e25637 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -87,6 +87,13 @@ struct SCM_Function {
   SCM *generic;
 };
 
+// A call of the host into the interpreter
+struct SCM_HostEntry {
+  long *base;                   // cont_base of the call
+  void *entry;                  // Return address of the function it is in
+  struct catch_info *catch_top; // Innermost catch around the call
+};
+
 struct SCM_Continuation {
   jmp_buf cont_jump_buffer;
   size_t stack_len;
@@ -95,9 +102,7 @@ struct SCM_Continuation {
   SCM *arg;
   SCM_List *wind_chain; // Saved wind chain when continuation was created
   SCM *saved_module;    // Saved current module when continuation was created
-  long *stack_base;     // cont_base at capture time
-  void *base_entry;     // cont_base_entry at capture time
-  struct catch_info *base_catch; // cont_base_catch at capture time
+  SCM_HostEntry host_entry; // Call of the host that the continuation is in
   long *stack_src;      // Saved stack source address at capture time (cont_base - stack_size)
   struct catch_info *catch_top; // Innermost catch when continuation was created
 };
diff --git a/src/c/throw.cc b/src/c/throw.cc
index b1bb115..7da405a 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -128,6 +128,7 @@ SCM *scm_c_catch(SCM *tag,
   // Error reporting context to return to when something is thrown
   SCM *eval_context = g_current_eval_context;
   int eval_depth = eval_stack_depth();
+  SCM_HostEntry host_entry = scm_host_entry();
   
   // Set up jump buffer
   if (setjmp(jbr.buf)) {
@@ -136,6 +137,7 @@ SCM *scm_c_catch(SCM *tag,
     g_catch_top = info.outer;
     g_current_eval_context = eval_context;
     restore_eval_stack(eval_depth);
+    scm_return_to_host(host_entry);
     
     SCM *throw_tag = jbr.throw_tag;
     SCM *throw_args = jbr.throw_args;
-- 
2.43.0


From c09b1aa93ab38106403702c4a259a1dbba5c3a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:15 +0000
Subject: [PATCH 46/91] fix: recursion that exhausts the C stack is an error
 instead of a crash

---
 src/c/eq.cc              |  5 +++++
 src/c/error.cc           | 25 +++++++++++++++++++++++++
 src/c/eval.cc            |  5 +++++
 src/c/macro.cc           |  5 +++++
 src/c/parse.cc           |  5 +++++
 src/c/print.cc           | 10 ++++++++++
 src/c/pscm.h             |  5 +++++
 src/c/quasiquote.cc      |  5 +++++
 src/c/source_location.cc |  2 +-
 9 files changed, 66 insertions(+), 1 deletion(-)

diff --git a/src/c/eq.cc b/src/c/eq.cc
index aa22a03..eaf1229 100644
--- a/src/c/eq.cc
+++ b/src/c/eq.cc
@@ -232,6 +232,11 @@ static bool _equal_recursive(SCM *lhs, SCM *rhs) {
     return true;
   }
   
+  if (scm_stack_low()) {
+    eval_error("equal?: stack overflow");
+    return false;
+  }
+  
   if (lhs->type != rhs->type) {
     // Special case: allow NUM <-> FLOAT comparison
     if ((lhs->type == SCM::NUM && rhs->type == SCM::FLOAT) ||
diff --git a/src/c/error.cc b/src/c/error.cc
index d76f3c3..922d11f 100644
--- a/src/c/error.cc
+++ b/src/c/error.cc
@@ -4,6 +4,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <pthread.h>
 
 // External globals written by the catch-all handler for public API boundary
 extern char *g_last_error_message;
@@ -12,6 +13,30 @@ extern char *g_last_error_key;
 static const int MAX_STACK_DEPTH = 100;
 static int g_stack_depth = 0;
 
+// Lowest address of the C stack that evaluation may use. What is left below it is for
+// reporting the error.
+static char *find_stack_limit() {
+  char *limit = nullptr;
+#ifdef __linux__
+  pthread_attr_t attr;
+  if (pthread_getattr_np(pthread_self(), &attr) == 0) {
+    void *addr;
+    size_t size;
+    if (pthread_attr_getstack(&attr, &addr, &size) == 0) {
+      size_t reserve = 256 * 1024;
+      limit = (char *)addr + (size / 4 < reserve ? size / 4 : reserve);
+    }
+    pthread_attr_destroy(&attr);
+  }
+#endif
+  return limit;
+}
+
+bool scm_stack_low() {
+  static thread_local char *limit = find_stack_limit();
+  return (char *)__builtin_frame_address(0) < limit;
+}
+
 // Helper function to convert expression to string (with length limit)
 static char *expr_to_string(SCM *expr, size_t max_len = 200) {
   if (!expr) {
diff --git a/src/c/eval.cc b/src/c/eval.cc
index ffd5cf6..efce2cc 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -273,6 +273,11 @@ SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
   assert(env);
   assert(ast);
 
+  if (scm_stack_low()) {
+    eval_error("stack overflow");
+    return nullptr;
+  }
+
   // Push onto evaluation stack for call trace
   int eval_depth = eval_stack_depth();
   push_eval_stack(ast);
diff --git a/src/c/macro.cc b/src/c/macro.cc
index 0cdc481..cdd8d8f 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -175,6 +175,11 @@ SCM *expand_macros(SCM_Environment *env, SCM *ast) {
     return ast; // Atoms don't need expansion
   }
 
+  if (scm_stack_low()) {
+    eval_error("macroexpand: stack overflow");
+    return nullptr;
+  }
+
   SCM_List *l = cast<SCM_List>(ast);
   if (!l || !l->data) {
     return ast;
diff --git a/src/c/parse.cc b/src/c/parse.cc
index e56bbea..13fccc6 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -1093,6 +1093,11 @@ static SCM *parse_list(Parser *p) {
 
 // Parse an expression
 static SCM *parse_expr(Parser *p) {
+  if (scm_stack_low()) {
+    parse_error(p, "nested too deeply");
+    return nullptr;
+  }
+  
   skip_whitespace(p);
   
   if (*p->pos == '\0') {
diff --git a/src/c/print.cc b/src/c/print.cc
index 5de5472..ca5a282 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -43,6 +43,11 @@ static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContex
     return;
   }
   
+  if (scm_stack_low()) {
+    printf("..."); // Nested too deeply
+    return;
+  }
+  
   // Check if type is valid (within enum range)
   if (ast->type < SCM::NONE || ast->type > SCM::VARIABLE) {
     // Invalid type - print error message instead of crashing
@@ -334,6 +339,11 @@ static void _print_list(SCM_List *l, bool nested, bool write_mode, const PrintCo
     return;
   }
   
+  if (scm_stack_low()) {
+    printf("..."); // Nested too deeply
+    return;
+  }
+  
   PrintContext new_ctx = ctx;
   
   // Handle quasiquote special form
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 4ef7614..5575959 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -760,6 +760,11 @@ SCM *scm_env_search(SCM_Environment *env, SCM_Symbol *sym);
 SCM *scm_env_exist(SCM_Environment *env, SCM_Symbol *sym);
 SCM_Environment::Entry *scm_env_search_entry(SCM_Environment *env, SCM_Symbol *sym, bool search_parent = true);
 
+/*
+ * Functions in error.cc
+ */
+bool scm_stack_low(); // Is the C stack nearly used up?
+
 /*
  * Functions in eval.cc
  */
diff --git a/src/c/quasiquote.cc b/src/c/quasiquote.cc
index a13a72d..114769a 100644
--- a/src/c/quasiquote.cc
+++ b/src/c/quasiquote.cc
@@ -193,6 +193,11 @@ static SCM *append_two_lists(SCM *list1, SCM *list2) {
 // Main quasi function: expand quasiquote expression
 // Based on Guile 1.8's iqq function - direct evaluation approach
 static SCM *quasi(SCM_Environment *env, SCM *p, int depth) {
+  if (scm_stack_low()) {
+    quasiquote_error("stack overflow");
+    return nullptr;
+  }
+  
   // 1. Handle (unquote ...)
   if (is_unquote_form(p)) {
     SCM *arg = get_form_arg(p);
diff --git a/src/c/source_location.cc b/src/c/source_location.cc
index caec318..150cd31 100644
--- a/src/c/source_location.cc
+++ b/src/c/source_location.cc
@@ -37,7 +37,7 @@ void copy_source_location(SCM *dest, SCM *src) {
 
 // Helper function to recursively copy source location to all nodes in a tree
 void copy_source_location_recursive(SCM *dest, SCM *src) {
-  if (!dest || !src || !src->source_loc) return;
+  if (!dest || !src || !src->source_loc || scm_stack_low()) return;
   
   // Copy to current node
   copy_source_location(dest, src);
-- 
2.43.0


From 16b2cee01cb8d4d45faefa58c9be8a76b26b4cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:40 +0000
Subject: [PATCH 47/91] fix: catch leaves the inner dynamic extents on its own
 stack, not on top of the throw

---
 src/c/throw.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/c/throw.cc b/src/c/throw.cc
index 7da405a..f0b6a3f 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -133,11 +133,14 @@ SCM *scm_c_catch(SCM *tag,
   // Set up jump buffer
   if (setjmp(jbr.buf)) {
     // Exception was thrown - we're in the catch handler
-    // Pop this catch, and the inner ones that the throw passed
-    g_catch_top = info.outer;
     g_current_eval_context = eval_context;
     restore_eval_stack(eval_depth);
     scm_return_to_host(host_entry);
+    // Leave the inner dynamic extents, on the stack of this frame: a guard that throws again comes
+    // back here, however many there are
+    unwind_wind_chain(info.wind_chain);
+    // Pop this catch, and the inner ones that the throw passed
+    g_catch_top = info.outer;
     
     SCM *throw_tag = jbr.throw_tag;
     SCM *throw_args = jbr.throw_args;
@@ -204,9 +207,8 @@ SCM *scm_throw(SCM *key, SCM *args) {
   // Search from top to bottom (most recent catch first)
   for (struct catch_info *info = g_catch_top; info; info = info->outer) {
     if (info->jbr && info->jbr->active && tags_match(info->tag, key)) {
-      // Found matching catch - leave the inner catches and dynamic extents, then set throw info and jump
+      // Found matching catch - leave the inner catches, set throw info and jump
       g_catch_top = info;
-      unwind_wind_chain(info->wind_chain);
       info->jbr->throw_tag = key;
       info->jbr->throw_args = args;
       longjmp(info->jbr->buf, 1);
-- 
2.43.0


From dfc596ec4617b4b750351d425ddcdfeff6f0ea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:00 +0000
Subject: [PATCH 48/91] fix: hashing a deeply nested key is an error instead of
 a crash

---
 src/c/hash_table.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index ec34ef8..bf0a84f 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -69,6 +69,10 @@ static unsigned long scm_hash_code_eq(SCM *key) {
 
 // Hash function for equal?: content of strings, lists and vectors
 static unsigned long scm_hash_code_equal(SCM *key) {
+  if (scm_stack_low()) {
+    eval_error("hash: key nested too deeply");
+    return 0;
+  }
   if (is_str(key)) {
     auto str = cast<SCM_String>(key);
     return hash_string_content(str->data, str->len);
-- 
2.43.0


From dcb2f1404a805ccd83075f6f49ef83f50eb31876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 49/91] fix: define of a procedure at the top level replaces a
 built-in or macro of that name

---
 src/c/define.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/c/define.cc b/src/c/define.cc
index ac39265..3f93e7a 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -7,6 +7,16 @@ static bool is_body_env(SCM_Environment *env) {
   return env->parent && (!env->module || env->parent->module == env->module);
 }
 
+// A definition at the top level of the root module replaces what the global environment holds under
+// that name (a built-in or a macro), which would otherwise be found first
+static SCM_Environment::Entry *global_entry_to_redefine(SCM_Environment *env, SCM_Symbol *name) {
+  SCM *current_mod = scm_current_module();
+  if (env->parent || (current_mod && current_mod != g_root_module)) {
+    return nullptr;
+  }
+  return scm_env_search_entry(&g_env, name, /*search_parent=*/false);
+}
+
 SCM *eval_define(SCM_Environment *env, SCM_List *l) {
   if (l->next && is_sym(l->next->data)) {
     // Define variable: (define var value)
@@ -130,8 +140,11 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
     SCM *ret = wrap(proc);
     // Inside a lambda/let body the binding is local; otherwise, if current module exists, define in module
     SCM *current_mod = scm_current_module();
+    auto global_entry = global_entry_to_redefine(env, proc_name);
     if (is_body_env(env)) {
       scm_env_insert(env, proc_name, ret, /*search_parent=*/false);
+    } else if (global_entry) {
+      global_entry->value = ret;
     } else if (current_mod && is_module(current_mod)) {
       SCM_Module *module = cast<SCM_Module>(current_mod);
       scm_c_hash_set_eq(wrap(module->obarray), wrap(proc_name), ret);
@@ -170,8 +183,11 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
     }
     // Inside a lambda/let body the binding is local; otherwise, if current module exists, define in module
     SCM *current_mod = scm_current_module();
+    auto global_entry = global_entry_to_redefine(env, proc_name);
     if (is_body_env(env)) {
       scm_env_insert(env, proc_name, val, /*search_parent=*/false);
+    } else if (global_entry) {
+      global_entry->value = val;
     } else if (current_mod && is_module(current_mod)) {
       SCM_Module *module = cast<SCM_Module>(current_mod);
       scm_c_hash_set_eq(wrap(module->obarray), wrap(proc_name), val);
-- 
2.43.0


From e63d5e3a50e20bc4ad7af4b50f7735a486232d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:53 +0000
Subject: [PATCH 50/91] fix: unquotes are read wherever an expression is; a
 splice gives a nested unquote several operands

---
 src/c/parse.cc      | 7 +++++++
 src/c/quasiquote.cc | 5 ++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 13fccc6..c941ce8 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -781,6 +781,7 @@ static SCM *parse_quote(Parser *p) {
     if (!quoted) {
       parse_error(p, "expected character literal after '#\\");
     }
+    pop_parse_stack();
     
     // Build (quote char)
     SCM *quote_sym = scm_sym_quote();
@@ -976,6 +977,7 @@ static SCM *parse_list(Parser *p) {
   if (*p->pos == ')') {
     p->pos++; // consume ')'
     p->column++;
+    pop_parse_stack();
     SCM *result = scm_nil();
     set_source_location(result, p->filename, start_line, start_column);
     return result;
@@ -1117,6 +1119,11 @@ static SCM *parse_expr(Parser *p) {
     return parse_quasiquote(p);
   }
   
+  // Unquote and unquote-splicing
+  if (*p->pos == ',') {
+    return parse_unquote_in_list(p);
+  }
+  
   // List
   if (*p->pos == '(') {
     return parse_list(p);
diff --git a/src/c/quasiquote.cc b/src/c/quasiquote.cc
index 114769a..388b1c6 100644
--- a/src/c/quasiquote.cc
+++ b/src/c/quasiquote.cc
@@ -210,9 +210,8 @@ static SCM *quasi(SCM_Environment *env, SCM *p, int depth) {
       // Direct evaluation and return
       return eval_with_env(env, arg);
     } else {
-      // Nested: recursively process argument with reduced depth
-      SCM *expanded_arg = quasi(env, arg, depth - 1);
-      return scm_list2(scm_sym_unquote(), expanded_arg);
+      // Nested: recursively process the operands with reduced depth; a splice can make them several
+      return scm_cons(scm_sym_unquote(), quasi(env, get_list_rest(p), depth - 1));
     }
   }
   
-- 
2.43.0


From ef43eefefa47bf33fe8ec63f9e55b7d2b217c6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:45 +0000
Subject: [PATCH 51/91] fix: a symbol or list as the operator's value is an
 error, not code to evaluate

---
 src/c/eval.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index efce2cc..0f3a8b7 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -546,6 +546,12 @@ entry:
         return nullptr;
       }
       
+      // A symbol or list as the operator's value is data: it must not be evaluated again
+      if (is_sym(val) || is_pair(val)) {
+        eval_error("not a procedure: %s", sym->data);
+        return nullptr;
+      }
+
       auto new_list = make_list(val);
       new_list->next = l->next;
       ast = wrap(new_list);
@@ -692,6 +698,10 @@ entry:
   else if (is_pair(l->data)) {
     // Nested list: evaluate first element and continue
     auto f = eval_with_env(env, l->data);
+    if (is_sym(f) || is_pair(f)) {
+      eval_error("not a procedure");
+      return nullptr;
+    }
     auto new_l = make_list(f);
     new_l->next = l->next;
     ast = wrap(new_l);
-- 
2.43.0


From 17144128b9e48a2d67914c4d47fed083a9d6b3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:17 +0000
Subject: [PATCH 52/91] fix: macros are lexically scoped: local variables hide
 them, local definitions do not overwrite outer bindings

---
 src/c/define.cc |  2 +-
 src/c/eval.cc   |  8 +++++--
 src/c/eval.h    |  1 +
 src/c/macro.cc  | 55 +++++++++++++++++++++----------------------------
 4 files changed, 31 insertions(+), 35 deletions(-)

diff --git a/src/c/define.cc b/src/c/define.cc
index 3f93e7a..8993410 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -3,7 +3,7 @@
 
 // Is env the environment of a lambda/let body (as opposed to the global or a module's own environment)?
 // Body environments inherit the module of the environment around them.
-static bool is_body_env(SCM_Environment *env) {
+bool is_body_env(SCM_Environment *env) {
   return env->parent && (!env->module || env->parent->module == env->module);
 }
 
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 0f3a8b7..c71f153 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -317,8 +317,12 @@ entry:
   if (is_sym(l->data)) {
     SCM_Symbol *sym = cast<SCM_Symbol>(l->data);
 
-    // Check if this is a macro call (before checking special forms)
-    SCM *val = scm_env_exist(env, sym);
+    // Check if this is a macro call (before checking special forms). A binding in any
+    // enclosing scope hides the macros of the module and of the global environment.
+    SCM *val = nullptr;
+    for (SCM_Environment *scope = env; scope && !val && scope != &g_env; scope = scope->parent) {
+      val = scm_env_exist(scope, sym);
+    }
     if (!val) {
       // Search module obarray + use chain for macros imported via use-modules.
       // Only when we're in a non-root module (root has everything in g_env already).
diff --git a/src/c/eval.h b/src/c/eval.h
index 5e5ed95..1e15b60 100644
--- a/src/c/eval.h
+++ b/src/c/eval.h
@@ -39,6 +39,7 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l);
 
 // Define special form
 SCM *eval_define(SCM_Environment *env, SCM_List *l);
+bool is_body_env(SCM_Environment *env);
 
 // Lambda special form (used by define)
 SCM *eval_lambda(SCM_Environment *env, SCM_List *l);
diff --git a/src/c/macro.cc b/src/c/macro.cc
index cdd8d8f..5826e5a 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -249,6 +249,27 @@ SCM *expand_macros(SCM_Environment *env, SCM *ast) {
   return result;
 }
 
+// Binds a macro like define binds a variable: locally inside a lambda/let body, otherwise in the current
+// module, or else in the global environment
+static void insert_macro(SCM_Environment *env, SCM_Symbol *name, SCM *macro_scm) {
+  SCM *current_mod = scm_current_module();
+  if (is_body_env(env)) {
+    scm_env_insert(env, name, macro_scm, /*search_parent=*/false);
+  } else if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
+    SCM_Module *module = cast<SCM_Module>(current_mod);
+    scm_c_hash_set_eq(wrap(module->obarray), wrap(name), macro_scm);
+  } else if (env->parent) {
+    scm_env_insert(env, name, macro_scm);
+  } else {
+    auto global_entry = scm_env_search_entry(&g_env, name, /*search_parent=*/false);
+    if (global_entry) {
+      global_entry->value = macro_scm;
+    } else {
+      scm_env_insert(env, name, macro_scm);
+    }
+  }
+}
+
 // Helper function for define-macro special form
 SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
   if (!l->next) {
@@ -274,23 +295,7 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
 
     SCM *macro_scm = wrap(macro);
 
-    // Module-aware insertion: check module first (module-aware env has
-    // a parent chain, so env->parent alone doesn't distinguish module
-    // scope from lambda scope).
-    SCM *current_mod = scm_current_module();
-    if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
-      SCM_Module *module = cast<SCM_Module>(current_mod);
-      scm_c_hash_set_eq(wrap(module->obarray), wrap(name), macro_scm);
-    } else if (env->parent) {
-      scm_env_insert(env, name, macro_scm);
-    } else {
-      auto global_entry = scm_env_search_entry(&g_env, name, /*search_parent=*/false);
-      if (global_entry) {
-        global_entry->value = macro_scm;
-      } else {
-        scm_env_insert(env, name, macro_scm);
-      }
-    }
+    insert_macro(env, name, macro_scm);
 
     if (debug_enabled) {
       SCM_DEBUG_EVAL("define-macro ");
@@ -322,21 +327,7 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
 
   SCM *macro_scm = wrap(macro);
 
-  // Module-aware insertion: check module first
-  SCM *current_mod = scm_current_module();
-  if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
-    SCM_Module *module = cast<SCM_Module>(current_mod);
-    scm_c_hash_set_eq(wrap(module->obarray), wrap(name), macro_scm);
-  } else if (env->parent) {
-    scm_env_insert(env, name, macro_scm);
-  } else {
-    auto global_entry = scm_env_search_entry(&g_env, name, /*search_parent=*/false);
-    if (global_entry) {
-      global_entry->value = macro_scm;
-    } else {
-      scm_env_insert(env, name, macro_scm);
-    }
-  }
+  insert_macro(env, name, macro_scm);
 
   if (debug_enabled) {
     SCM_DEBUG_EVAL("define-macro ");
-- 
2.43.0


From d333f6c515d8fea9f02f03c5b6e193106c6535d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:52 +0000
Subject: [PATCH 53/91] fix: the message about an uncaught throw is not limited
 to a 1 KB buffer it overflowed

---
 src/c/throw.cc | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/c/throw.cc b/src/c/throw.cc
index f0b6a3f..108c1d6 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -1,3 +1,4 @@
+#include <string>
 #include "pscm.h"
 #include "eval.h"
 #include "throw.h"
@@ -254,19 +255,17 @@ static void handler_message(void *handler_data, SCM *tag, SCM *args) {
   const char *prog_name = handler_data ? (const char *)handler_data : "pscm";
   
   // Build message string
-  char msg[1024];
-  int pos = 0;
-  pos += snprintf(msg + pos, sizeof(msg) - pos, "%s: uncaught throw to ", prog_name);
+  std::string msg = std::string(prog_name) + ": uncaught throw to ";
   
   if (is_sym(tag)) {
     SCM_Symbol *sym = cast<SCM_Symbol>(tag);
-    pos += snprintf(msg + pos, sizeof(msg) - pos, "'%s", sym->data);
+    msg += std::string("'") + sym->data;
   } else {
     // For non-symbol tags, use a simple representation
-    pos += snprintf(msg + pos, sizeof(msg) - pos, "<non-symbol>");
+    msg += "<non-symbol>";
   }
   
-  pos += snprintf(msg + pos, sizeof(msg) - pos, ": ");
+  msg += ": ";
   
   // For args, we'll print a simplified version
   if (args) {
@@ -274,20 +273,20 @@ static void handler_message(void *handler_data, SCM *tag, SCM *args) {
       SCM_List *args_list = cast<SCM_List>(args);
       if (args_list->data && is_str(args_list->data)) {
         SCM_String *s = cast<SCM_String>(args_list->data);
-        pos += snprintf(msg + pos, sizeof(msg) - pos, "%s", s->data);
+        msg += s->data;
       } else {
-        pos += snprintf(msg + pos, sizeof(msg) - pos, "<args>");
+        msg += "<args>";
       }
     } else {
-      pos += snprintf(msg + pos, sizeof(msg) - pos, "<args>");
+      msg += "<args>";
     }
   } else {
-    pos += snprintf(msg + pos, sizeof(msg) - pos, "()");
+    msg += "()";
   }
   
-  pos += snprintf(msg + pos, sizeof(msg) - pos, "\n");
+  msg += "\n";
   
-  write_to_port(port, msg);
+  write_to_port(port, msg.c_str());
   
   // Flush the port
   if (port->port_type == PORT_FILE_OUTPUT && port->file) {
-- 
2.43.0


From f2b92108980becdd29cab3b067ce0e8bb043d8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:28 +0000
Subject: [PATCH 54/91] fix: exhausting the heap is an error instead of a null
 pointer

---
 src/c/error.cc | 10 +++++++++
 src/c/gc.cc    | 58 +++++++++++++++++++++++++++++++++-----------------
 src/c/init.cc  |  2 ++
 src/c/pscm.h   |  1 +
 src/c/throw.cc |  1 +
 src/c/throw.h  |  3 +++
 6 files changed, 55 insertions(+), 20 deletions(-)

diff --git a/src/c/error.cc b/src/c/error.cc
index 922d11f..0d63ff6 100644
--- a/src/c/error.cc
+++ b/src/c/error.cc
@@ -284,6 +284,16 @@ void eval_error(const char *format, ...) {
   fflush(stderr);
 }
 
+// An error the collector can raise: its arguments were allocated at the start
+void scm_memory_error() {
+  if (g_error_key && g_memory_error_args) {
+    scm_throw(g_error_key, g_memory_error_args);
+  }
+  fprintf(stderr, "FATAL: out of memory\n");
+  fflush(stderr);
+  abort();
+}
+
 // Catch-all handler for public API boundary.
 // Stores error details in globals so the host can retrieve them after
 // pscm_eval/pscm_parse returns NULL.
diff --git a/src/c/gc.cc b/src/c/gc.cc
index 65a74ef..05d39b4 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -22,6 +22,7 @@
 
 static const size_t INITIAL_HEAP_SIZE = 8 * 1024 * 1024; // 8 MB
 static const size_t GROWTH_SIZE       = 4 * 1024 * 1024; // 4 MB
+static const size_t MIN_GC_YIELD      = 1024 * 1024; // less than this reclaimed: out of memory
 
 // Size classes for fixed-size buckets (object data size in bytes).
 static const size_t SIZE_CLASSES[] = { 16, 32, 64, 128 };
@@ -163,6 +164,9 @@ static void *bump_allocate(size_t total_size) {
 
   // If not enough room, grow the heap.
   if (bump + total_size > g_current_seg->start + g_current_seg->size) {
+    if (g_next_seg >= MAX_SEGMENTS) {
+      return nullptr;
+    }
     size_t grow_sz = total_size > GROWTH_SIZE ? total_size : GROWTH_SIZE;
     // mmap a new segment
     long page_size = sysconf(_SC_PAGESIZE);
@@ -171,14 +175,6 @@ static void *bump_allocate(size_t total_size) {
     void *mem = mmap(nullptr, grow_sz, PROT_READ | PROT_WRITE,
                      MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
     if (mem == MAP_FAILED) {
-      fprintf(stderr, "FATAL: gc heap mmap failed\n");
-      fflush(stderr);
-      abort();
-    }
-
-    if (g_next_seg >= MAX_SEGMENTS) {
-      fprintf(stderr, "WARNING: gc heap segment pool exhausted (max %d), allocation failed\n", MAX_SEGMENTS);
-      fflush(stderr);
       return nullptr;
     }
     HeapSegment *seg = &g_seg_pool[g_next_seg++];
@@ -216,18 +212,8 @@ static void *bump_allocate(size_t total_size) {
 // gc_alloc
 // =========================================================================
 
-void *gc_alloc(TypeTag tag, size_t size) {
-  size_t total_size = sizeof(GCBlock) + size;
-#ifdef PSCM_VERIF
-  verif_before_alloc();
-#endif
-
-  // Trigger GC if threshold exceeded.
-  if (g_allocated_since_gc >= g_gc_threshold) {
-    run_gc();
-  }
-  g_allocated_since_gc += total_size;
-
+// A block from the free lists or from the segments, nullptr if the heap is exhausted.
+static GCBlock *take_block(size_t size) {
   GCBlock *block = nullptr;
 
   int bucket = size_to_bucket(size);
@@ -243,6 +229,9 @@ void *gc_alloc(TypeTag tag, size_t size) {
     } else {
       // Bump-allocate a new block of the appropriate fixed size.
       block = (GCBlock *)bump_allocate(sizeof(GCBlock) + class_size);
+      if (!block) {
+        return nullptr;
+      }
     }
 
     // Ensure the block header size field matches the class.
@@ -272,6 +261,9 @@ void *gc_alloc(TypeTag tag, size_t size) {
       // the padding of bump_allocate.
       size_t block_size = (size + 15) & ~(size_t)15;
       block = (GCBlock *)bump_allocate(sizeof(GCBlock) + block_size);
+      if (!block) {
+        return nullptr;
+      }
       block->size = block_size;
     } else {
       // Use the block as-is with its original size.  The sequential
@@ -284,6 +276,32 @@ void *gc_alloc(TypeTag tag, size_t size) {
       // block->size is NOT updated.
     }
   }
+  return block;
+}
+
+void *gc_alloc(TypeTag tag, size_t size) {
+  size_t total_size = sizeof(GCBlock) + size;
+#ifdef PSCM_VERIF
+  verif_before_alloc();
+#endif
+
+  // Trigger GC if threshold exceeded.
+  if (g_allocated_since_gc >= g_gc_threshold) {
+    run_gc();
+  }
+  g_allocated_since_gc += total_size;
+
+  GCBlock *block = take_block(size);
+  if (!block && g_allocated_since_gc >= MIN_GC_YIELD) {
+    // The heap is exhausted. Unless a collection has just found next to nothing, collect.
+    run_gc();
+    block = take_block(size);
+  }
+  if (!block) {
+    // The error leaves garbage behind: collect before the next allocation
+    g_allocated_since_gc = g_gc_threshold;
+    scm_memory_error();
+  }
 
 #ifdef PSCM_VERIF
   verif_on_alloc(block, size);
diff --git a/src/c/init.cc b/src/c/init.cc
index 7870fc8..b10e093 100644
--- a/src/c/init.cc
+++ b/src/c/init.cc
@@ -48,6 +48,8 @@ void init_scm() {
   gc_register_root(&g_current_eval_context, "g_current_eval_context");
   extern SCM *g_error_key;
   gc_register_root(&g_error_key, "g_error_key");
+  extern SCM *g_memory_error_args;
+  gc_register_root(&g_memory_error_args, "g_memory_error_args");
 
   // Register roots from other translation units
   register_module_roots();
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 5575959..a46b450 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -764,6 +764,7 @@ SCM_Environment::Entry *scm_env_search_entry(SCM_Environment *env, SCM_Symbol *s
  * Functions in error.cc
  */
 bool scm_stack_low(); // Is the C stack nearly used up?
+void scm_memory_error(); // Throws an error about exhausted memory
 
 /*
  * Functions in eval.cc
diff --git a/src/c/throw.cc b/src/c/throw.cc
index 108c1d6..6ae97b4 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -590,6 +590,7 @@ SCM *scm_c_throw_scheme(SCM_List *args) {
 void init_throw() {
   // Create standard error key
   g_error_key = wrap(make_sym("error"));
+  g_memory_error_args = scm_list1(scm_from_c_string("out of memory", 13));
   
   // Register Scheme functions
   scm_define_vararg_function("catch", scm_c_catch_scheme);
diff --git a/src/c/throw.h b/src/c/throw.h
index e93dcad..433b62a 100644
--- a/src/c/throw.h
+++ b/src/c/throw.h
@@ -53,6 +53,9 @@ void init_throw();
 // Standard error key (initialized in init_throw)
 inline SCM *g_error_key = nullptr;
 
+// Arguments of the throw when memory is exhausted (allocated in init_throw)
+inline SCM *g_memory_error_args = nullptr;
+
 // Handle by message without exiting (unless quit tag)
 SCM *scm_handle_by_message_noexit(void *handler_data, SCM *tag, SCM *args);
 
-- 
2.43.0


From 6b9e6afd1fc266cffd321a12bc8b74f476b21ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:31 +0000
Subject: [PATCH 55/91] fix: garbage strings, vectors and continuations cause
 collections; string-append of too long strings is an error

---
 src/c/gc.cc     |  4 ++++
 src/c/gc.h      |  3 +++
 src/c/port.cc   |  2 ++
 src/c/pscm.h    |  1 +
 src/c/string.cc | 17 +++++++++++++++--
 src/c/vector.cc |  3 +++
 6 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index 05d39b4..c23e1bf 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -279,6 +279,10 @@ static GCBlock *take_block(size_t size) {
   return block;
 }
 
+void gc_account_external(size_t size) {
+  g_allocated_since_gc += size;
+}
+
 void *gc_alloc(TypeTag tag, size_t size) {
   size_t total_size = sizeof(GCBlock) + size;
 #ifdef PSCM_VERIF
diff --git a/src/c/gc.h b/src/c/gc.h
index 0b0474d..272b117 100644
--- a/src/c/gc.h
+++ b/src/c/gc.h
@@ -54,6 +54,9 @@ using MarkStack = std::vector<GCBlock *>;
 // points to another GC-managed block.
 using TraceFn = void (*)(GCBlock *, MarkStack *);
 
+// Memory owned by an object but allocated elsewhere counts towards the next collection
+void gc_account_external(size_t size);
+
 // Sweep function pointer type.
 // Called when a block is about to be freed.  Frees any external resources
 // (C++ heap allocations, mmap'd data, etc.) that the block owns.
diff --git a/src/c/port.cc b/src/c/port.cc
index 2fd5ba6..8fe7ecd 100644
--- a/src/c/port.cc
+++ b/src/c/port.cc
@@ -196,6 +196,7 @@ SCM *scm_c_open_input_string(SCM *str) {
   port->is_closed = false;
   port->file = nullptr;
   port->string_data = new char[s->len + 1];
+  gc_account_external(s->len);
   memcpy(port->string_data, s->data, s->len);
   port->string_data[s->len] = '\0';
   port->string_pos = 0;
@@ -229,6 +230,7 @@ SCM *scm_c_open_output_string() {
 static SCM *scm_from_c_string_port(const char *data, int len) {
   SCM_String *s = (SCM_String *)gc_alloc(GC_STRING, sizeof(SCM_String));
   s->data = new char[len + 1];
+  gc_account_external(len);
   memcpy(s->data, data, len);
   s->data[len] = '\0';
   s->len = len;
diff --git a/src/c/pscm.h b/src/c/pscm.h
index a46b450..c78f2a5 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -191,6 +191,7 @@ inline SCM_Continuation *make_cont(size_t stack_len, void *stack_data, long *src
   auto cont = (SCM_Continuation *)gc_alloc(GC_CONT, sizeof(SCM_Continuation));
   cont->stack_len = stack_len;
   cont->stack_data = stack_data;
+  gc_account_external(stack_len * sizeof(long));
   cont->wind_chain = nullptr;
   cont->saved_module = nullptr;
   cont->stack_src = src_addr;
diff --git a/src/c/string.cc b/src/c/string.cc
index 5a99881..befb972 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -52,6 +52,7 @@ static SCM *scm_c_make_string_impl(SCM *len_scm, SCM *char_scm) {
   // Create string
   SCM_String *s = (SCM_String *)gc_alloc(GC_STRING, sizeof(SCM_String));
   s->data = data;
+  gc_account_external(len);
   for (int i = 0; i < len; i++) {
     s->data[i] = fill_char;
   }
@@ -333,6 +334,7 @@ SCM *scm_c_string(SCM_List *args) {
   // Create string from characters
   SCM_String *s = (SCM_String *)gc_alloc(GC_STRING, sizeof(SCM_String));
   s->data = new char[len + 1];
+  gc_account_external(len);
   s->len = len;
   current = args;
   int i = 0;
@@ -565,6 +567,7 @@ SCM *scm_c_substring(SCM *str, SCM *start, SCM *end) {
   int64_t len = end_idx - start_idx;
   SCM_String *result = (SCM_String *)gc_alloc(GC_STRING, sizeof(SCM_String));
   result->data = new char[len + 1];
+  gc_account_external(len);
   memcpy(result->data, s->data + start_idx, len);
   result->data[len] = '\0';
   result->len = len;
@@ -592,7 +595,7 @@ SCM *scm_c_string_append(SCM_List *args) {
   }
   
   // Calculate total length
-  int total_len = 0;
+  int64_t total_len = 0;
   SCM_List *current = args;
   while (current) {
     if (!is_str(current->data)) {
@@ -607,9 +610,17 @@ SCM *scm_c_string_append(SCM_List *args) {
     current = current->next;
   }
   
+  // More than there is memory for is an error, not the end of the process
+  char *data = total_len >= INT_MAX ? nullptr : new (std::nothrow) char[total_len + 1];
+  if (!data) {
+    eval_error("string-append: length out of range");
+    return nullptr;
+  }
+  
   // Create result string
   SCM_String *result = (SCM_String *)gc_alloc(GC_STRING, sizeof(SCM_String));
-  result->data = new char[total_len + 1];
+  result->data = data;
+  gc_account_external(total_len);
   result->len = total_len;
   
   // Copy strings
@@ -698,6 +709,7 @@ SCM *scm_c_list_to_string(SCM *lst) {
   // Create string
   SCM_String *s = (SCM_String *)gc_alloc(GC_STRING, sizeof(SCM_String));
   s->data = new char[len + 1];
+  gc_account_external(len);
   s->len = len;
   
   // Copy characters
@@ -962,6 +974,7 @@ SCM *scm_from_c_string(const char *data, int len) {
   }
   SCM_String *s = (SCM_String *)gc_alloc(GC_STRING, sizeof(SCM_String));
   s->data = new char[len + 1];
+  gc_account_external(len);
   memcpy(s->data, data, len);
   s->data[len] = '\0';
   s->len = len;
diff --git a/src/c/vector.cc b/src/c/vector.cc
index a71c36b..05d6eaf 100644
--- a/src/c/vector.cc
+++ b/src/c/vector.cc
@@ -32,6 +32,7 @@ static SCM *scm_c_make_vector_impl(SCM *len_scm, SCM *fill_scm) {
   vec->length = (size_t)len;
   if (len > 0) {
     vec->elements = elements;
+    gc_account_external(len * sizeof(SCM *));
     for (size_t i = 0; i < (size_t)len; i++) {
       vec->elements[i] = fill;
     }
@@ -69,6 +70,7 @@ SCM *scm_c_vector(SCM_List *args) {
   vec->length = count;
   if (count > 0) {
     vec->elements = new SCM*[count];
+    gc_account_external(count * sizeof(SCM *));
     current = args;
     size_t i = 0;
     while (current) {
@@ -198,6 +200,7 @@ SCM *scm_c_list_to_vector(SCM *list) {
   vec->length = count;
   if (count > 0) {
     vec->elements = new SCM*[count];
+    gc_account_external(count * sizeof(SCM *));
     current = cast<SCM_List>(list);
     size_t i = 0;
     while (current && i < count) {
-- 
2.43.0


From 012361c8b8a4abb9725278b1f2bc426cecd5f394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:11 +0000
Subject: [PATCH 56/91] fix: memory freed after the heap was exhausted is
 usable for objects of any size

---
 src/c/gc.cc | 94 ++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 65 insertions(+), 29 deletions(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index c23e1bf..e2ce4d1 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -77,6 +77,7 @@ static GCBlock *free_lists[NUM_BUCKETS] = { nullptr };
 static size_t g_allocated_since_gc = 0;  // bytes allocated since last GC
 static size_t g_last_live_bytes    = 0;  // live bytes after last GC
 static size_t g_gc_threshold       = 0;  // threshold to trigger next GC
+static bool   g_blocks_merged      = false; // free blocks merged since last GC?
 
 // =========================================================================
 // Forward declarations of trace functions
@@ -142,6 +143,9 @@ static int size_to_bucket(size_t size) {
 
 static void free_to_list(GCBlock *block) {
   int b = size_to_bucket(block->size);
+  if (b < NUM_FIXED_BUCKETS && block->size != SIZE_CLASSES[b]) {
+    b = LARGE_BUCKET; // made by merging or splitting: the fixed-size buckets hold one size each
+  }
   block->next_free = free_lists[b];
   free_lists[b] = block;
 }
@@ -212,6 +216,57 @@ static void *bump_allocate(size_t total_size) {
 // gc_alloc
 // =========================================================================
 
+// The first block of the large-object bucket that is large enough. What is left
+// over of it becomes a free block of its own.
+static GCBlock *split_block(size_t size) {
+  GCBlock **link = &free_lists[LARGE_BUCKET];
+  while (*link && (*link)->size < size) {
+    link = &(*link)->next_free;
+  }
+  GCBlock *block = *link;
+  if (!block) {
+    return nullptr;
+  }
+  *link = block->next_free;
+  if (block->size >= size + GC_HEADER_SIZE + SIZE_CLASSES[0]) {
+    GCBlock *rest   = (GCBlock *)((char *)block + GC_HEADER_SIZE + size);
+    rest->mark      = 0;
+    rest->age       = block->age;
+    rest->type_tag  = GC_TYPE_COUNT;
+    rest->gc_magic  = GC_MAGIC;
+    rest->size      = block->size - size - GC_HEADER_SIZE;
+    block->size     = size;
+    free_to_list(rest);
+  }
+  return block;
+}
+
+// Adjacent free blocks become one: what objects of one size have left behind
+// can then hold objects of any size.
+static void merge_free_blocks() {
+  for (int i = 0; i < NUM_BUCKETS; i++) {
+    free_lists[i] = nullptr;
+  }
+  for (HeapSegment *seg = g_segments; seg; seg = seg->next) {
+    char *ptr = seg->start;
+    while (ptr < seg->bump) {
+      GCBlock *block = (GCBlock *)ptr;
+      ptr += GC_HEADER_SIZE + block->size;
+      if (block->type_tag != GC_TYPE_COUNT) {
+        continue;
+      }
+      while (ptr < seg->bump && ((GCBlock *)ptr)->type_tag == GC_TYPE_COUNT) {
+        GCBlock *next = (GCBlock *)ptr;
+        ptr += GC_HEADER_SIZE + next->size;
+        next->gc_magic = 0;
+        block->size += GC_HEADER_SIZE + next->size;
+      }
+      free_to_list(block);
+    }
+  }
+  g_blocks_merged = true;
+}
+
 // A block from the free lists or from the segments, nullptr if the heap is exhausted.
 static GCBlock *take_block(size_t size) {
   GCBlock *block = nullptr;
@@ -230,7 +285,7 @@ static GCBlock *take_block(size_t size) {
       // Bump-allocate a new block of the appropriate fixed size.
       block = (GCBlock *)bump_allocate(sizeof(GCBlock) + class_size);
       if (!block) {
-        return nullptr;
+        return split_block(class_size);
       }
     }
 
@@ -239,41 +294,17 @@ static GCBlock *take_block(size_t size) {
 
   } else {
     // Large-object bucket (first-fit).
-    GCBlock *prev = nullptr;
-    block = free_lists[LARGE_BUCKET];
-    while (block) {
-      if (block->size >= size) {
-        // Found a suitable block.
-        if (prev)
-          prev->next_free = block->next_free;
-        else
-          free_lists[LARGE_BUCKET] = block->next_free;
-        block->next_free = nullptr;
-        break;
-      }
-      prev  = block;
-      block = block->next_free;
-    }
-
+    // The sweep finds the next block by this block's size: it has to include
+    // the padding of bump_allocate.
+    size_t block_size = (size + 15) & ~(size_t)15;
+    block = split_block(block_size);
     if (!block) {
       // No suitable free block -- bump-allocate fresh.
-      // The sweep finds the next block by this block's size: it has to include
-      // the padding of bump_allocate.
-      size_t block_size = (size + 15) & ~(size_t)15;
       block = (GCBlock *)bump_allocate(sizeof(GCBlock) + block_size);
       if (!block) {
         return nullptr;
       }
       block->size = block_size;
-    } else {
-      // Use the block as-is with its original size.  The sequential
-      // layout during sweep depends on each block's size field
-      // reflecting its original allocation extent; shrinking it here
-      // would create an untracked gap between this block and the next.
-      // The caller receives a pointer to the start of the data area
-      // and must only write up to SIZE bytes (the extra space is
-      // internal fragmentation, which is acceptable for this GC).
-      // block->size is NOT updated.
     }
   }
   return block;
@@ -301,6 +332,10 @@ void *gc_alloc(TypeTag tag, size_t size) {
     run_gc();
     block = take_block(size);
   }
+  if (!block && !g_blocks_merged) {
+    merge_free_blocks();
+    block = take_block(size);
+  }
   if (!block) {
     // The error leaves garbage behind: collect before the next allocation
     g_allocated_since_gc = g_gc_threshold;
@@ -530,6 +565,7 @@ void run_gc() {
   mark_phase();
   sweep_phase();
   g_allocated_since_gc = 0;
+  g_blocks_merged = false;
 #ifdef PSCM_VERIF
   verif_after_gc();
 #endif
-- 
2.43.0


From 66088ce8b744c538923bff1b6c6d26c017906aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:28 +0000
Subject: [PATCH 57/91] verif: under AddressSanitizer reclaimed blocks and
 block tails are inaccessible

---
 src/c/gc.cc        |  6 ++++++
 src/c/verif_gc.inc | 43 +++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index e2ce4d1..4ea33f7 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -230,6 +230,9 @@ static GCBlock *split_block(size_t size) {
   *link = block->next_free;
   if (block->size >= size + GC_HEADER_SIZE + SIZE_CLASSES[0]) {
     GCBlock *rest   = (GCBlock *)((char *)block + GC_HEADER_SIZE + size);
+#ifdef PSCM_VERIF
+    verif_unpoison(rest, GC_HEADER_SIZE);
+#endif
     rest->mark      = 0;
     rest->age       = block->age;
     rest->type_tag  = GC_TYPE_COUNT;
@@ -562,6 +565,9 @@ static void sweep_phase() {
 // =========================================================================
 
 void run_gc() {
+#ifdef PSCM_VERIF
+  verif_before_gc();
+#endif
   mark_phase();
   sweep_phase();
   g_allocated_since_gc = 0;
diff --git a/src/c/verif_gc.inc b/src/c/verif_gc.inc
index 9033ca1..81aacaa 100644
--- a/src/c/verif_gc.inc
+++ b/src/c/verif_gc.inc
@@ -4,9 +4,30 @@
 //  - a schedule: collect at allocations chosen by the harness, so that any
 //    allocation can be the one that triggers a collection;
 //  - poisoning: the payload of a reclaimed block is overwritten, so that a
-//    later use of it is observable;
+//    later use of it is observable; under AddressSanitizer it is inaccessible
+//    (outside of collections, which read the heap conservatively), and so is
+//    the memory between the end of an object and the end of its block;
 //  - counters: what the monitors report as observed.
 
+#if defined(__has_feature)
+#if __has_feature(address_sanitizer)
+#include <sanitizer/asan_interface.h>
+#define VERIF_ASAN 1
+#endif
+#endif
+
+static void verif_poison(void *p, size_t size) {
+#ifdef VERIF_ASAN
+  ASAN_POISON_MEMORY_REGION(p, size);
+#endif
+}
+
+static void verif_unpoison(void *p, size_t size) {
+#ifdef VERIF_ASAN
+  ASAN_UNPOISON_MEMORY_REGION(p, size);
+#endif
+}
+
 struct pscm_verif_gc_stats_t {
   uint64_t allocs;        // gc_alloc calls
   uint64_t alloc_bytes;   // bytes asked for
@@ -56,6 +77,15 @@ static void verif_on_alloc(GCBlock *block, size_t size) {
     g_verif_gc_stats.reused++;
     block->age = 0;
   }
+  if (v_gc_poison) {
+    verif_unpoison(block_to_obj(block), block->size);
+    verif_poison((char *)block_to_obj(block) + size, block->size - size);
+  }
+}
+
+static void verif_before_gc() {
+  for (HeapSegment *seg = g_segments; v_gc_poison && seg; seg = seg->next)
+    verif_unpoison(seg->start, seg->size);
 }
 
 static void verif_on_free(GCBlock *block) {
@@ -71,6 +101,15 @@ static void verif_after_gc() {
   g_verif_gc_stats.collections++;
   g_verif_gc_stats.live_bytes = g_last_live_bytes;
   g_verif_gc_stats.heap_bytes = 0;
-  for (HeapSegment *seg = g_segments; seg; seg = seg->next)
+  for (HeapSegment *seg = g_segments; seg; seg = seg->next) {
     g_verif_gc_stats.heap_bytes += seg->size;
+#ifdef VERIF_ASAN
+    for (char *p = seg->start; v_gc_poison && p < seg->bump;) {
+      GCBlock *block = (GCBlock *)p;
+      if (block->gc_magic != GC_MAGIC) break;
+      if (block->age == 3) verif_poison(block_to_obj(block), block->size);
+      p += GC_HEADER_SIZE + block->size;
+    }
+#endif
+  }
 }
-- 
2.43.0


From 7661df9cd6d40059ad06c4633edae9b7dea13999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:47 +0000
Subject: [PATCH 58/91] fix: a text of deeply nested unquotes is an error, not
 a crash

---
 src/c/parse.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index c941ce8..083d563 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -857,6 +857,11 @@ static SCM *parse_quasiquote(Parser *p) {
 // This is called when we encounter a comma in a list context
 // Handles nested unquotes: ,,name means (unquote (unquote name))
 static SCM *parse_unquote_in_list(Parser *p) {
+  if (scm_stack_low()) {
+    parse_error(p, "nested too deeply");
+    return nullptr;
+  }
+  
   if (*p->pos != ',') {
     return nullptr;
   }
-- 
2.43.0


From 817d9fdcd91e490cd819049e20a313a57b3ef93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:20 +0000
Subject: [PATCH 59/91] fix: loading a directory is an error, not the end of
 the process

---
 src/c/parse.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 083d563..160d3a1 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -6,6 +6,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <sys/stat.h>
 
 // Simple Scheme parser implementation from scratch
 
@@ -1307,6 +1308,14 @@ static char *read_file_content(const char *filename) {
   long size = ftell(f);
   fseek(f, 0, SEEK_SET);
   
+  // A directory can be opened, but has no such size, and a pipe has none at all
+  struct stat st;
+  if (size < 0 || fstat(fileno(f), &st) != 0 || S_ISDIR(st.st_mode)) {
+    fclose(f);
+    fprintf(stderr, "ERROR: cannot read file: %s\n", filename);
+    return nullptr;
+  }
+  
   // Allocate buffer
   char *buffer = new char[size + 1];
   size_t read = fread(buffer, 1, size, f);
-- 
2.43.0


From 267b2fa0e29479dae4997516fb2834792267b197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:41 +0000
Subject: [PATCH 60/91] verif: only the used part of a segment is made
 accessible for a collection

---
 src/c/verif_gc.inc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/verif_gc.inc b/src/c/verif_gc.inc
index 81aacaa..ce1d5a6 100644
--- a/src/c/verif_gc.inc
+++ b/src/c/verif_gc.inc
@@ -85,7 +85,7 @@ static void verif_on_alloc(GCBlock *block, size_t size) {
 
 static void verif_before_gc() {
   for (HeapSegment *seg = g_segments; v_gc_poison && seg; seg = seg->next)
-    verif_unpoison(seg->start, seg->size);
+    verif_unpoison(seg->start, seg->bump - seg->start);
 }
 
 static void verif_on_free(GCBlock *block) {
-- 
2.43.0


From 1ca5788b6f9baff9b7b5edada51dd054524b5fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:22 +0000
Subject: [PATCH 61/91] fix: set! in a module's code changes the module's
 variable, whatever module is current

---
 src/c/environment.cc | 24 ++++++++++++++----------
 src/c/eval.cc        | 12 ++++++++----
 src/c/pscm.h         |  1 +
 3 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/c/environment.cc b/src/c/environment.cc
index 98ccd7b..92bffd4 100644
--- a/src/c/environment.cc
+++ b/src/c/environment.cc
@@ -54,6 +54,16 @@ SCM *scm_env_exist(SCM_Environment *env, SCM_Symbol *sym) {
   return nullptr;
 }
 
+// The module whose file the code of this environment was loaded from, if any
+SCM_Module *scm_env_module(SCM_Environment *env) {
+  for (; env; env = env->parent) {
+    if (env->module) {
+      return env->module;
+    }
+  }
+  return nullptr;
+}
+
 SCM *scm_env_search(SCM_Environment *env, SCM_Symbol *sym) {
   // 1. First search in lexical environment (local bindings, no parent search)
   // This ensures local bindings in let/lambda take precedence
@@ -77,16 +87,10 @@ SCM *scm_env_search(SCM_Environment *env, SCM_Symbol *sym) {
   // We walk the parent chain to find the first non-null module pointer;
   // child environments inherit it from make_module_environment via make_env.
   {
-    SCM_Environment *e = env;
-    while (e) {
-      if (e->module) {
-        SCM *var = module_search_variable(e->module, sym);
-        if (var) {
-          return var;
-        }
-        break;  // found a module but symbol wasn't in it; don't check again
-      }
-      e = e->parent;
+    SCM_Module *module = scm_env_module(env);
+    SCM *var = module ? module_search_variable(module, sym) : nullptr;
+    if (var) {
+      return var;
     }
   }
 
diff --git a/src/c/eval.cc b/src/c/eval.cc
index c71f153..a399b81 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -97,11 +97,15 @@ static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
     if (entry) {
       entry->value = val;
     } else {
-      // Not found in environment, check if it's in the current module
+      // Not found in environment, check if it's in the module the code belongs to, or else in
+      // the current module
+      SCM_Module *env_module = scm_env_module(env);
       SCM *current_mod = scm_current_module();
-      if (current_mod && is_module(current_mod)) {
-        SCM_Module *module = cast<SCM_Module>(current_mod);
-        SCM_Module *var_module = module_find_variable_module(module, sym);
+      if (env_module || (current_mod && is_module(current_mod))) {
+        SCM_Module *var_module = env_module ? module_find_variable_module(env_module, sym) : nullptr;
+        if (!var_module && current_mod && is_module(current_mod)) {
+          var_module = module_find_variable_module(cast<SCM_Module>(current_mod), sym);
+        }
         if (var_module) {
           // Variable exists in a module, update it
           scm_c_hash_set_eq(wrap(var_module->obarray), wrap(sym), val);
diff --git a/src/c/pscm.h b/src/c/pscm.h
index c78f2a5..e9e630c 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -1038,6 +1038,7 @@ SCM *scm_resolve_module(SCM_List *name);
 void scm_module_export(SCM_Module *module, SCM_Symbol *sym);
 
 // Module helper functions (for internal use, but may be used by other modules)
+SCM_Module *scm_env_module(SCM_Environment *env);
 SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym);
 SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym);
 SCM_Module *module_find_variable_module(SCM_Module *module, SCM_Symbol *sym);
-- 
2.43.0


From f4b5882abdc8e01bb358e3fb87a9ce4948d69982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:51 +0000
Subject: [PATCH 62/91] fix: #:export lists are honoured, and users of a module
 see the current values of its exports

---
 src/c/define.cc     |  8 ++++----
 src/c/eval.cc       |  2 +-
 src/c/hash_table.cc | 24 ++++++++++++++++++++++++
 src/c/macro.cc      |  2 +-
 src/c/module.cc     | 40 ++++++++++++++++++++++++++++++++--------
 src/c/pscm.h        |  2 ++
 6 files changed, 64 insertions(+), 14 deletions(-)

diff --git a/src/c/define.cc b/src/c/define.cc
index 8993410..bb32983 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -41,7 +41,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
     if (env->parent) {
       // Check if this is a module environment (env->module from scm_resolve_module)
       if (!is_body_env(env)) {
-        scm_c_hash_set_eq(wrap(env->module->obarray), wrap(varname), val);
+        module_define(env->module, varname, val);
       } else {
         // We're in a nested environment (lambda/let), create local binding
         scm_env_insert(env, varname, val, /*search_parent=*/false);
@@ -60,7 +60,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
           if (current_mod && is_module(current_mod)) {
             SCM_Module *module = cast<SCM_Module>(current_mod);
             // Create binding in module's obarray
-            scm_c_hash_set_eq(wrap(module->obarray), wrap(varname), val);
+            module_define(module, varname, val);
           } else {
             // Otherwise define in environment
             scm_env_insert(env, varname, val, /*search_parent=*/false);
@@ -147,7 +147,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
       global_entry->value = ret;
     } else if (current_mod && is_module(current_mod)) {
       SCM_Module *module = cast<SCM_Module>(current_mod);
-      scm_c_hash_set_eq(wrap(module->obarray), wrap(proc_name), ret);
+      module_define(module, proc_name, ret);
     } else {
       scm_env_insert(env, proc_name, ret, /*search_parent=*/false);
     }
@@ -190,7 +190,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
       global_entry->value = val;
     } else if (current_mod && is_module(current_mod)) {
       SCM_Module *module = cast<SCM_Module>(current_mod);
-      scm_c_hash_set_eq(wrap(module->obarray), wrap(proc_name), val);
+      module_define(module, proc_name, val);
     } else {
       scm_env_insert(env, proc_name, val, /*search_parent=*/false);
     }
diff --git a/src/c/eval.cc b/src/c/eval.cc
index a399b81..03a6e63 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -108,7 +108,7 @@ static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
         }
         if (var_module) {
           // Variable exists in a module, update it
-          scm_c_hash_set_eq(wrap(var_module->obarray), wrap(sym), val);
+          module_define(var_module, sym, val);
         } else {
           // Variable not found in any module, create new binding in environment
           scm_env_insert(env, sym, val, /*search_parent=*/false);
diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index bf0a84f..fa4f09e 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -317,6 +317,30 @@ SCM *scm_c_hash_ref(SCM *table, SCM *key,
   return scm_bool_false();
 }
 
+// Makes the entry of a key compared by eq? in one table the entry of another one, too: what is stored
+// through either table is seen through both. Returns false if the first table has no such key.
+bool scm_c_hash_share_eq(SCM *from, SCM *to, SCM *key) {
+  size_t idx;
+  auto from_table = validate_and_get_bucket_idx(from, key, scm_hash_code_eq, &idx, "hash-share");
+  auto entry = from_table ? find_entry_in_bucket(from_table->buckets[idx], key, scm_cmp_eq) : nullptr;
+  auto to_table = validate_and_get_bucket_idx(to, key, scm_hash_code_eq, &idx, "hash-share");
+  if (!entry || !to_table) {
+    return false;
+  }
+  SCM *bucket = to_table->buckets[idx];
+  for (auto l = bucket && !is_nil(bucket) ? cast<SCM_List>(bucket) : nullptr; l; l = l->next) {
+    if (is_pair(l->data) && scm_cmp_eq(key, cast<SCM_List>(l->data)->data)) {
+      l->data = wrap(entry);
+      return true;
+    }
+  }
+  auto node = make_list(wrap(entry));
+  node->next = bucket && !is_nil(bucket) ? cast<SCM_List>(bucket) : nullptr;
+  to_table->buckets[idx] = wrap(node);
+  to_table->size++;
+  return true;
+}
+
 // The value of a key compared by eq?, or nullptr if the table has no such key
 SCM *scm_c_hash_lookup_eq(SCM *table, SCM *key) {
   size_t idx;
diff --git a/src/c/macro.cc b/src/c/macro.cc
index 5826e5a..58843ff 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -257,7 +257,7 @@ static void insert_macro(SCM_Environment *env, SCM_Symbol *name, SCM *macro_scm)
     scm_env_insert(env, name, macro_scm, /*search_parent=*/false);
   } else if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
     SCM_Module *module = cast<SCM_Module>(current_mod);
-    scm_c_hash_set_eq(wrap(module->obarray), wrap(name), macro_scm);
+    module_define(module, name, macro_scm);
   } else if (env->parent) {
     scm_env_insert(env, name, macro_scm);
   } else {
diff --git a/src/c/module.cc b/src/c/module.cc
index a192844..659333b 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -63,6 +63,8 @@ SCM *scm_set_current_module(SCM *module) {
   return old;
 }
 
+static SCM_Module *scm_ensure_public_interface(SCM_Module *module);
+
 // Helper function to lookup variable in module's obarray
 // Returns the value if found (can be #f), or nullptr if not found
 // This allows us to distinguish between "not found" and "value is #f"
@@ -71,6 +73,17 @@ SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym) {
   return scm_c_hash_lookup_eq(wrap(module->obarray), wrap(sym));
 }
 
+// Binds a name in a module. The public interface shares the binding of an exported name.
+void module_define(SCM_Module *module, SCM_Symbol *sym, SCM *val) {
+  scm_c_hash_set_eq(wrap(module->obarray), wrap(sym), val);
+  for (SCM_List *exp = module->exports; exp; exp = exp->next) {
+    if (exp->data && is_sym(exp->data) && is_true(scm_c_is_eq(exp->data, wrap(sym)))) {
+      scm_c_hash_share_eq(wrap(module->obarray), wrap(scm_ensure_public_interface(module)->obarray), wrap(sym));
+      return;
+    }
+  }
+}
+
 // Helper function to search variable in module (obarray, uses list, root module, binder, and autoload)
 // Returns the value if found (can be #f), or nullptr if not found
 // This allows us to distinguish between "not found" and "value is #f"
@@ -452,10 +465,7 @@ static SCM_Module *scm_ensure_public_interface(SCM_Module *module) {
   while (exp) {
     if (exp->data && is_sym(exp->data)) {
       SCM_Symbol *sym = cast<SCM_Symbol>(exp->data);
-      SCM *val = module_obarray_lookup(module, sym);
-      if (val) {
-        scm_c_hash_set_eq(wrap(iface->obarray), wrap(sym), val);
-      }
+      scm_c_hash_share_eq(wrap(module->obarray), wrap(iface->obarray), wrap(sym));
     }
     exp = exp->next;
   }
@@ -477,6 +487,11 @@ void scm_module_export(SCM_Module *module, SCM_Symbol *sym) {
   // Use module_search_variable instead of module_obarray_lookup so that
   // re-export after use-modules works: the symbol may live in a used
   // module's obarray, not the current module's own obarray.
+  SCM_Module *owner = module_find_variable_module(module, sym);
+  if (owner) {
+    scm_c_hash_share_eq(wrap(owner->obarray), wrap(iface->obarray), wrap(sym));
+    return;
+  }
   SCM *val = module_search_variable(module, sym);
   if (val) {
     scm_c_hash_set_eq(wrap(iface->obarray), wrap(sym), val);
@@ -508,7 +523,7 @@ SCM *scm_c_define(const char *name, SCM *val) {
   SCM *module = scm_current_module();
   SCM_Module *mod = cast<SCM_Module>(module);
 
-  scm_c_hash_set_eq(wrap(mod->obarray), wrap(sym), val);
+  module_define(mod, sym, val);
 
   return scm_make_variable(val);
 }
@@ -589,7 +604,7 @@ SCM *scm_c_module_define(SCM *module, const char *name, SCM *val) {
   }
   SCM_Symbol *sym = make_sym(name);
   SCM_Module *mod = cast<SCM_Module>(module);
-  scm_c_hash_set_eq(wrap(mod->obarray), wrap(sym), val);
+  module_define(mod, sym, val);
   return scm_make_variable(val);
 }
 
@@ -623,7 +638,7 @@ SCM *scm_module_define(SCM *module, SCM *sym, SCM *val) {
   }
   SCM_Module *mod = cast<SCM_Module>(module);
   SCM_Symbol *s = cast<SCM_Symbol>(sym);
-  scm_c_hash_set_eq(wrap(mod->obarray), wrap(s), val);
+  module_define(mod, s, val);
   return scm_make_variable(val);
 }
 
@@ -771,8 +786,17 @@ SCM *eval_define_module(SCM_Environment *env, SCM_List *l) {
         opts = opts->next;
       }
       else if (strcmp(kw_name, "export") == 0) {
-        // #:export sym ...
+        // #:export (sym ...) or #:export sym ...
         opts = opts->next;
+        if (opts && opts->data && is_pair(opts->data)) {
+          for (SCM_List *syms = cast<SCM_List>(opts->data); syms; syms = syms->next) {
+            if (syms->data && is_sym(syms->data)) {
+              scm_module_export(cast<SCM_Module>(module_scm), cast<SCM_Symbol>(syms->data));
+            }
+          }
+          opts = opts->next;
+          continue;
+        }
         while (opts && opts->data && is_sym(opts->data)) {
           scm_module_export(cast<SCM_Module>(module_scm),
                             cast<SCM_Symbol>(opts->data));
diff --git a/src/c/pscm.h b/src/c/pscm.h
index e9e630c..9f9cef9 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -1024,6 +1024,7 @@ SCM *scm_c_hash_ref_eqv(SCM *table, SCM *key);
 SCM *scm_c_hash_ref_equal(SCM *table, SCM *key);
 SCM *scm_c_hash_get_handle_eq(SCM *table, SCM *key);
 SCM *scm_c_hash_lookup_eq(SCM *table, SCM *key);
+bool scm_c_hash_share_eq(SCM *from, SCM *to, SCM *key);
 SCM *scm_c_hash_get_handle_eqv(SCM *table, SCM *key);
 SCM *scm_c_hash_get_handle_equal(SCM *table, SCM *key);
 
@@ -1039,6 +1040,7 @@ void scm_module_export(SCM_Module *module, SCM_Symbol *sym);
 
 // Module helper functions (for internal use, but may be used by other modules)
 SCM_Module *scm_env_module(SCM_Environment *env);
+void module_define(SCM_Module *module, SCM_Symbol *sym, SCM *val);
 SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym);
 SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym);
 SCM_Module *module_find_variable_module(SCM_Module *module, SCM_Symbol *sym);
-- 
2.43.0


From b51551e3234e6939c3f772175cb9bef9d1e29637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:56 +0000
Subject: [PATCH 63/91] fix: an error in a module's file restores the current
 module

---
 src/c/module.cc | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 659333b..04028ae 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include "throw.h"
 
 // Current module (using simple global variable, can be changed to fluid in the future)
 static SCM *g_current_module = nullptr;
@@ -290,6 +291,22 @@ static bool file_exists(const char *path) {
   return false;
 }
 
+struct ModuleLoad {
+  const char *path;
+  SCM_Environment *env;
+  SCM *old_module;
+};
+
+static SCM *load_module_file(void *data) {
+  auto load = (ModuleLoad *)data;
+  return scm_c_primitive_load_with_env(load->path, load->env);
+}
+
+static SCM *restore_module_and_rethrow(void *data, SCM *key, SCM *args) {
+  scm_set_current_module(((ModuleLoad *)data)->old_module);
+  return scm_throw(key, args);
+}
+
 // Resolve module name, return module object
 SCM *scm_resolve_module(SCM_List *name) {
   // Initialize registry if needed
@@ -410,8 +427,10 @@ SCM *scm_resolve_module(SCM_List *name) {
     // to decide where to insert bindings).
     scm_set_current_module(module);
 
-    // Load and evaluate file in module-aware environment
-    scm_c_primitive_load_with_env(found_path, module_env);
+    // Load and evaluate file in module-aware environment. The current module is restored in any case:
+    // an error is passed on after that.
+    ModuleLoad load = {found_path, module_env, old_module};
+    scm_c_catch(scm_bool_true(), load_module_file, &load, restore_module_and_rethrow, &load);
 
     // Restore current module
     scm_set_current_module(old_module);
-- 
2.43.0


From f5283e7d56d2a20c738efe93db52f7db706595d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:00 +0000
Subject: [PATCH 64/91] fix: module-bound? is true of a variable whose value is
 #f

---
 src/c/module.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 04028ae..79f15a2 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -729,9 +729,8 @@ SCM *scm_c_module_bound_p(SCM *module, SCM *symbol) {
   
   SCM_Module *mod = cast<SCM_Module>(module);
   SCM_Symbol *sym = cast<SCM_Symbol>(symbol);
-  SCM *var = scm_module_variable(mod, sym, false);
-  
-  return var && !is_falsy(var) ? scm_bool_true() : scm_bool_false();
+  // A variable may be bound to #f
+  return module_search_variable(mod, sym) ? scm_bool_true() : scm_bool_false();
 }
 
 SCM *scm_c_module_p(SCM *obj) {
-- 
2.43.0


From f4d351afc41cff5672ab3149a68fd95d5a368c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:58 +0000
Subject: [PATCH 65/91] fix: a dot that stands alone is a parse error, not a
 symbol

---
 src/c/parse.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 160d3a1..cc7e9e9 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -737,6 +737,11 @@ static SCM *parse_symbol(Parser *p) {
   if (len == 0) {
     return nullptr;
   }
+
+  if (len == 1 && *start == '.') {
+    parse_error(p, "unexpected dot");
+    return nullptr;
+  }
   
   // Build symbol name, filtering out backslash escape characters
   char *sym_data = new char[len + 1];
-- 
2.43.0


From b99b4caaa262022f91fbad45192d388fc03098ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:33 +0000
Subject: [PATCH 66/91] fix: a dot followed by an unquote form reads as the
 list itself, too

---
 src/c/parse.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index cc7e9e9..d6454d4 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -953,12 +953,12 @@ static SCM *parse_unquote_in_list(Parser *p) {
 }
 
 // Ends the list under construction with what follows the dot. (a . (b c)) is the list (a b c) and
-// (a . ()) is (a); only an atom, or an unquote form a quasiquotation replaces, is kept in a dotted node
+// (a . ()) is (a); only an atom is kept in a dotted node
 static void append_dotted_tail(SCM_List *tail, SCM *cdr) {
   if (is_nil(cdr)) {
     return;
   }
-  if (is_pair(cdr) && !is_sym_val(cast<SCM_List>(cdr)->data, "unquote")) {
+  if (is_pair(cdr)) {
     tail->next = cast<SCM_List>(cdr);
     return;
   }
-- 
2.43.0


From d6e311f2c6c99142e851dc7af3a697dfaa9a1f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:47 +0000
Subject: [PATCH 67/91] fix: calls in a module's procedures are looked up in
 that module, whatever module is current

---
 src/c/eval.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 03a6e63..69d7855 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -328,11 +328,15 @@ entry:
       val = scm_env_exist(scope, sym);
     }
     if (!val) {
-      // Search module obarray + use chain for macros imported via use-modules.
+      // Search module obarray + use chain for macros imported via use-modules: those of the module
+      // the code belongs to, whatever module is current, or else of the current module.
       // Only when we're in a non-root module (root has everything in g_env already).
       SCM *current_mod = scm_current_module();
-      if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
-        SCM_Module *module = cast<SCM_Module>(current_mod);
+      SCM_Module *module = scm_env_module(env);
+      if (!module && current_mod && is_module(current_mod) && current_mod != g_root_module) {
+        module = cast<SCM_Module>(current_mod);
+      }
+      if (module) {
         SCM *var = module_obarray_lookup(module, sym);
         if (!var) {
           // Search uses list
-- 
2.43.0


From d0a232c9a44e52c5a8ab535c6fa3cd48d4ca8cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:45 +0000
Subject: [PATCH 68/91] fix: copying a source location onto the object it comes
 from read freed memory

---
 src/c/source_location.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/source_location.cc b/src/c/source_location.cc
index 150cd31..b9c11b4 100644
--- a/src/c/source_location.cc
+++ b/src/c/source_location.cc
@@ -22,7 +22,7 @@ void set_source_location(SCM *scm, const char *filename, int line, int column) {
 
 // Helper function to copy source location from one node to another
 void copy_source_location(SCM *dest, SCM *src) {
-  if (!dest || !src || !src->source_loc) return;
+  if (!dest || !src || !src->source_loc || dest->source_loc == src->source_loc) return;
   if (!dest->source_loc) {
     dest->source_loc = new SCM_SourceLocation();
     dest->source_loc->filename = nullptr;
-- 
2.43.0


From 542b4cddca9efc2e238b0b6d868536b451f7750b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:45 +0000
Subject: [PATCH 69/91] fix: pscm_parse_file returns NULL for a file with a
 syntax error instead of ending the host

---
 src/c/pscm_api.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/c/pscm_api.cc b/src/c/pscm_api.cc
index b68005f..2310966 100644
--- a/src/c/pscm_api.cc
+++ b/src/c/pscm_api.cc
@@ -106,7 +106,21 @@ SCM_List *pscm_parse_file(const char *filename) {
   if (!filename) {
     return nullptr;
   }
-  return parse_file(filename);
+  struct ParseFileData {
+    const char *filename;
+    SCM_List *exprs;
+  } parse_data = { filename, nullptr };
+  scm_c_catch(
+      scm_bool_true(),
+      [](void *data) -> SCM * {
+        auto d = (ParseFileData *)data;
+        d->exprs = parse_file(d->filename);
+        return scm_none();
+      },
+      &parse_data,
+      scm_api_catch_handler,
+      nullptr);
+  return parse_data.exprs;
 }
 
 // Get the global environment
-- 
2.43.0


From f0fa15f4ffc79347f71e648ef0abb23cecd89ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:29 +0000
Subject: [PATCH 70/91] fix: the text of a file with a syntax error was never
 freed

---
 src/c/parse.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index d6454d4..b362033 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -1332,7 +1332,11 @@ static char *read_file_content(const char *filename) {
 
 // Parse file and return list of expressions
 SCM_List *parse_file(const char *filename) {
-  char *content = read_file_content(filename);
+  // A parse error leaves this function by a throw: that text is freed by the next call (reading does
+  // not evaluate, so there is only one text at a time)
+  static char *content = nullptr;
+  delete[] content;
+  content = read_file_content(filename);
   if (!content) {
     return nullptr;
   }
@@ -1386,6 +1390,7 @@ SCM_List *parse_file(const char *filename) {
   }
   
   delete[] content;
+  content = nullptr;
   return dummy.next;
 }
 
-- 
2.43.0


From 959fa27581c8015a442002fb39f17701f77ce6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:43 +0000
Subject: [PATCH 71/91] fix: a syntax error at the REPL ended it, and an
 unmatched ) blocked it

---
 src/c/repl.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/c/repl.cc b/src/c/repl.cc
index 50ea3cd..7acdec4 100644
--- a/src/c/repl.cc
+++ b/src/c/repl.cc
@@ -3,6 +3,7 @@
 #include <string.h>
 
 #include "pscm.h"
+#include "pscm_api.h"
 
 // Check if parentheses are balanced in the input string
 static bool is_balanced(const char *s) {
@@ -48,7 +49,7 @@ static bool is_balanced(const char *s) {
     } else if (*p == ')') {
       depth--;
       if (depth < 0) {
-        return false;  // Unmatched closing parenthesis
+        return true;  // Unmatched closing parenthesis: no more input can complete it, the parser reports it
       }
     }
   }
@@ -116,13 +117,15 @@ void repl() {
         // Only parse if there's actual content
         if (*p != '\0') {
           // Expression is complete, parse and evaluate
-          auto ast = parse(input_buffer);
-          print_ast(ast);
-          printf("\n");
-          auto val = eval(ast);
-          printf(" --> ");
-          print_ast(val);
-          printf("\n");
+          auto ast = pscm_parse(input_buffer);
+          if (ast) {
+            print_ast(ast);
+            printf("\n");
+            auto val = eval(ast);
+            printf(" --> ");
+            print_ast(val);
+            printf("\n");
+          }
         }
         
         // Reset buffer for next expression
-- 
2.43.0


From dbbf6a0ea0dc8c0008aa5dedb136c06cc0a852f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:46 +0000
Subject: [PATCH 72/91] fix: at the REPL a string could not continue on the
 next line

---
 src/c/repl.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/repl.cc b/src/c/repl.cc
index 7acdec4..c181ac5 100644
--- a/src/c/repl.cc
+++ b/src/c/repl.cc
@@ -54,7 +54,7 @@ static bool is_balanced(const char *s) {
     }
   }
   
-  return depth == 0;
+  return depth == 0 && !in_string;
 }
 
 
-- 
2.43.0


From cd37ee4399f4cdcea6976937640809a7b963f298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:21 +0000
Subject: [PATCH 73/91] fix: a comment that ends in a backslash hid the rest of
 the input from the REPL

---
 src/c/repl.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/c/repl.cc b/src/c/repl.cc
index c181ac5..7c2a301 100644
--- a/src/c/repl.cc
+++ b/src/c/repl.cc
@@ -18,11 +18,6 @@ static bool is_balanced(const char *s) {
       continue;
     }
     
-    if (*p == '\\') {
-      escaped = true;
-      continue;
-    }
-    
     if (in_comment) {
       if (*p == '\n') {
         in_comment = false;
@@ -30,6 +25,11 @@ static bool is_balanced(const char *s) {
       continue;
     }
     
+    if (*p == '\\') {
+      escaped = true;
+      continue;
+    }
+    
     if (*p == '"') {
       in_string = !in_string;
       continue;
-- 
2.43.0


From 82c12973588b5e5751561cad0e05dcbafeb2b6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:03 +0000
Subject: [PATCH 74/91] fix: an error in a function called with a C module
 current left that module current

---
 src/c/module.cc | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 79f15a2..a11655b 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -1128,6 +1128,22 @@ SCM *scm_c_module_use(SCM_List *args) {
   return scm_none();
 }
 
+struct ModuleCall {
+  SCM *(*func)(void *);
+  void *data;
+  SCM *old_module;
+};
+
+static SCM *call_in_module(void *data) {
+  auto call = (ModuleCall *)data;
+  return call->func(call->data);
+}
+
+static SCM *leave_module_and_rethrow(void *data, SCM *key, SCM *args) {
+  scm_set_current_module(((ModuleCall *)data)->old_module);
+  return scm_throw(key, args);
+}
+
 // Temporarily set current module, call func, restore on exit (Guile 1.8 compatible).
 SCM *scm_c_call_with_current_module(SCM *module,
                                     SCM *(*func)(void *), void *data) {
@@ -1135,14 +1151,25 @@ SCM *scm_c_call_with_current_module(SCM *module,
     eval_error("scm_c_call_with_current_module: expected module");
     return nullptr;
   }
-  SCM *old = scm_set_current_module(module);
+  ModuleCall call = {func, data, scm_set_current_module(module)};
 
-  SCM *result = func(data);
+  SCM *result = scm_c_catch(scm_bool_true(), call_in_module, &call, leave_module_and_rethrow, &call);
 
-  scm_set_current_module(old);
+  scm_set_current_module(call.old_module);
   return result;
 }
 
+struct ModuleInit {
+  void (*init)(void *);
+  void *data;
+};
+
+static SCM *init_module(void *data) {
+  auto call = (ModuleInit *)data;
+  call->init(call->data);
+  return scm_none();
+}
+
 // Create (or resolve) a module and optionally run an init function (Guile 1.8 compatible).
 SCM *scm_c_define_module(const char *name,
                          void (*init)(void *), void *data) {
@@ -1160,10 +1187,8 @@ SCM *scm_c_define_module(const char *name,
   }
 
   if (init) {
-    SCM *old = scm_current_module();
-    g_current_module = module;
-    init(data);
-    g_current_module = old;
+    ModuleInit call = {init, data};
+    scm_c_call_with_current_module(module, init_module, &call);
   }
 
   return module;
-- 
2.43.0


From cf9873b60c717f4910205b7b8c1700515919271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:03 +0000
Subject: [PATCH 75/91] fix: an error in a module's binder procedure turned off
 all binders

---
 src/c/module.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index a11655b..c4cb6da 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -85,6 +85,21 @@ void module_define(SCM_Module *module, SCM_Symbol *sym, SCM *val) {
   }
 }
 
+struct BinderCall {
+  SCM_Procedure *binder;
+  SCM_List *args;
+};
+
+static SCM *call_binder(void *data) {
+  auto call = (BinderCall *)data;
+  return apply_procedure_with_values(&g_env, call->binder, call->args);
+}
+
+static SCM *leave_binder_and_rethrow(void *, SCM *key, SCM *args) {
+  g_in_binder_call = false;
+  return scm_throw(key, args);
+}
+
 // Helper function to search variable in module (obarray, uses list, root module, binder, and autoload)
 // Returns the value if found (can be #f), or nullptr if not found
 // This allows us to distinguish between "not found" and "value is #f"
@@ -120,12 +135,13 @@ SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym) {
 
   // 4. Call binder (if exists), with recursion guard
   if (module->binder && !g_in_binder_call) {
-    g_in_binder_call = true;
     // Binder signature: (binder module sym definep) -> variable | #f
     // Arguments are already evaluated values, not AST nodes
     // Use apply_procedure_with_values to pass them directly without re-evaluation
     SCM *args = scm_list3(wrap(module), wrap(sym), scm_bool_true());
-    SCM *result = apply_procedure_with_values(&g_env, module->binder, cast<SCM_List>(args));
+    BinderCall call = {module->binder, cast<SCM_List>(args)};
+    g_in_binder_call = true;
+    SCM *result = scm_c_catch(scm_bool_true(), call_binder, &call, leave_binder_and_rethrow, nullptr);
     g_in_binder_call = false;
     if (result && !is_falsy(result)) {
       // Binder returns a variable object, unwrap it to get the value
-- 
2.43.0


From 90ab89e0ac23b77cbe1f2fef3c796b61cecf97eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:52 +0000
Subject: [PATCH 76/91] fix: the null character is written as #\nul, which
 reads back

---
 src/c/parse.cc | 2 ++
 src/c/print.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index b362033..8a84eb4 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -449,6 +449,8 @@ static SCM *parse_char(Parser *p) {
       name_lower[3] = '\0';
       if (strcmp(name_lower, "tab") == 0) {
         ch = '\t';
+      } else if (strcmp(name_lower, "nul") == 0) {
+        ch = '\0';
       } else {
         // Not a named character, treat the first character as the character value
         p->pos = name_start;
diff --git a/src/c/print.cc b/src/c/print.cc
index ca5a282..6883889 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -115,6 +115,8 @@ static void _print_ast_with_context(SCM *ast, bool write_mode, const PrintContex
         printf("#\\newline");
       } else if (ch == '\t') {
         printf("#\\ht");
+      } else if (ch == '\0') {
+        printf("#\\nul");
       } else {
         printf("#\\%c", ch);
       }
-- 
2.43.0


From 840a659a0af974eee975bf96a5f3afe943524a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:58 +0000
Subject: [PATCH 77/91] fix: re-entering a continuation captured while a
 module's file was evaluated freed its path twice

---
 src/c/module.cc | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index c4cb6da..bb80137 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -1,6 +1,7 @@
 #include "pscm.h"
 #include "eval.h"
 #include "throw.h"
+#include <alloca.h>
 
 // Current module (using simple global variable, can be changed to fluid in the future)
 static SCM *g_current_module = nullptr;
@@ -417,6 +418,14 @@ SCM *scm_resolve_module(SCM_List *name) {
   
   // Free module_path (no longer needed)
   free(module_path);
+
+  // Keep the path in this frame: a continuation captured while the file is evaluated may come back here
+  if (full_path) {
+    char *path = (char *)alloca(strlen(full_path) + 1);
+    strcpy(path, full_path);
+    free(full_path);
+    found_path = path;
+  }
   
   // Create module if it doesn't exist (before loading, so define-module can find it)
   if (!module_exists) {
@@ -450,10 +459,6 @@ SCM *scm_resolve_module(SCM_List *name) {
 
     // Restore current module
     scm_set_current_module(old_module);
-
-    if (full_path) {
-      free(full_path);
-    }
   } else {
     // File not found: warn if module was just created (no code for module)
     // This matches Guile 1.8's behavior: use-modules warns/errors when no code found
-- 
2.43.0


From 6a9eef7f56323bb10fbd40298df49b1440827e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:40 +0000
Subject: [PATCH 78/91] fix: the REPL reads on after a quote mark at the end of
 a line

---
 src/c/repl.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c/repl.cc b/src/c/repl.cc
index 7c2a301..58aa198 100644
--- a/src/c/repl.cc
+++ b/src/c/repl.cc
@@ -11,6 +11,7 @@ static bool is_balanced(const char *s) {
   bool in_string = false;
   bool escaped = false;
   bool in_comment = false;
+  bool prefix = false;  // after a quote, quasiquote, unquote or unquote-splicing mark: the datum is still to come
   
   for (const char *p = s; *p; p++) {
     if (escaped) {
@@ -25,6 +26,10 @@ static bool is_balanced(const char *s) {
       continue;
     }
     
+    if (!in_string && *p != ';' && !strchr(" \t\n\r\f\v", *p)) {
+      prefix = strchr("'`,", *p) || (prefix && *p == '@' && p[-1] == ',');
+    }
+    
     if (*p == '\\') {
       escaped = true;
       continue;
@@ -54,7 +59,7 @@ static bool is_balanced(const char *s) {
     }
   }
   
-  return depth == 0 && !in_string;
+  return depth == 0 && !in_string && !prefix;
 }
 
 
-- 
2.43.0


From 3b7e0ed2a960abc653ba8b689d908af0ce7076d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:57 +0000
Subject: [PATCH 79/91] fix: an error in a tail position is reported at its own
 place, not at that of the form around it

---
 src/c/eval.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 69d7855..f56f571 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -299,6 +299,10 @@ SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
   } while (0)
 
 entry:
+  // A tail position is evaluated in place: its errors are its own, not those of the form around it
+  if (ast->source_loc) {
+    g_current_eval_context = ast;
+  }
   SCM_DEBUG_EVAL("eval ");
   if (debug_enabled) {
     print_ast(ast);
-- 
2.43.0


From 42d2f8535508143e5410095cfa049e80a41a7d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:01 +0000
Subject: [PATCH 80/91] fix: the reader lost count of columns at #\ and #: (a
 comment ending in a backslash took the count with it)

---
 src/c/parse.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/c/parse.cc b/src/c/parse.cc
index 8a84eb4..cb26feb 100644
--- a/src/c/parse.cc
+++ b/src/c/parse.cc
@@ -363,7 +363,7 @@ static SCM *parse_char(Parser *p) {
   int start_line = p->line;
   int start_column = p->column;
   
-  p->pos += 2;  // Skip #\
+  p->pos += 2;  // Skip the #\ sign (a backslash at the end would go on with the comment)
   p->column += 2;
   
   if (*p->pos == '\0') {
@@ -382,7 +382,8 @@ static SCM *parse_char(Parser *p) {
     } else if (*p->pos == '\n') {
       ch = '\n';
       p->pos++;
-      p->column++;
+      p->line++;
+      p->column = 1;
     } else if (*p->pos == '\t') {
       ch = '\t';
       p->pos++;
@@ -1150,6 +1151,7 @@ static SCM *parse_expr(Parser *p) {
   // #:keyword syntax (Guile style keywords like #:use-module, #:export, etc.)
   if (p->pos[0] == '#' && p->pos[1] == ':') {
     p->pos += 2; // skip #:
+    p->column += 2;
     // Read the keyword name as a symbol
     SCM *result = parse_symbol(p);
     if (!result) {
-- 
2.43.0


From 739fb7b9ecf519e9cc1ea7cb3d0c2ee77f08a7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:01 +0000
Subject: [PATCH 81/91] fix: a file without expressions can be loaded

---
 src/c/load.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/load.cc b/src/c/load.cc
index 12cb3c8..49ca0bb 100644
--- a/src/c/load.cc
+++ b/src/c/load.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include <unistd.h>
 
 // Common function to evaluate a parsed expression list
 // Returns the result of the last expression evaluated, or scm_none() if no expressions
@@ -27,7 +28,7 @@ SCM *scm_c_primitive_load(const char *filename) {
   
   // Use existing parse_file helper to get list of expressions
   SCM_List *expr_list = parse_file(filename);
-  if (!expr_list) {
+  if (!expr_list && access(filename, R_OK) != 0) {  // a file may have no expressions
     eval_error("primitive-load: failed to load file: %s", filename);
   }
 
@@ -43,7 +44,7 @@ SCM *scm_c_primitive_load_with_env(const char *filename, SCM_Environment *env) {
   fprintf(stderr, "[load] Loading file: %s\n", filename);
 
   SCM_List *expr_list = parse_file(filename);
-  if (!expr_list) {
+  if (!expr_list && access(filename, R_OK) != 0) {  // a file may have no expressions
     eval_error("primitive-load: failed to load file: %s", filename);
     return nullptr;
   }
-- 
2.43.0


From 995b6e58f50c619a37b3d99b4ba1c505076ff12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:01 +0000
Subject: [PATCH 82/91] fix: an error in a call made by for-each is reported at
 the place of the for-each form

---
 src/c/eval.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index f56f571..b4aa75f 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -288,7 +288,6 @@ SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
 
   // Save current context for error reporting
   SCM *old_context = g_current_eval_context;
-  g_current_eval_context = ast;
 
 // Helper macro to restore context before returning
 #define RETURN_WITH_CONTEXT(val)                                                                                       \
@@ -299,7 +298,8 @@ SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
   } while (0)
 
 entry:
-  // A tail position is evaluated in place: its errors are its own, not those of the form around it
+  // A tail position is evaluated in place: its errors are its own, not those of the form around it.
+  // An expression made up on the way (a call by for-each) has no place of its own.
   if (ast->source_loc) {
     g_current_eval_context = ast;
   }
-- 
2.43.0


From 18e06f037a66b42a89b0eafce151e43027223ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:13 +0000
Subject: [PATCH 83/91] fix: errors in code from macro arguments were reported
 at the place of an unrelated () or #t

---
 src/c/source_location.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/c/source_location.cc b/src/c/source_location.cc
index b9c11b4..976cb18 100644
--- a/src/c/source_location.cc
+++ b/src/c/source_location.cc
@@ -3,9 +3,14 @@
 #include <stdlib.h>
 #include <string.h>
 
+// (), #t and #f are one object each, however often they are written: they have no place
+static bool has_no_place(SCM *scm) {
+  return is_nil(scm) || is_bool(scm);
+}
+
 // Helper function to set source location
 void set_source_location(SCM *scm, const char *filename, int line, int column) {
-  if (!scm) return;
+  if (!scm || has_no_place(scm)) return;
   if (!scm->source_loc) {
     scm->source_loc = new SCM_SourceLocation();
     scm->source_loc->filename = nullptr;
@@ -22,7 +27,7 @@ void set_source_location(SCM *scm, const char *filename, int line, int column) {
 
 // Helper function to copy source location from one node to another
 void copy_source_location(SCM *dest, SCM *src) {
-  if (!dest || !src || !src->source_loc || dest->source_loc == src->source_loc) return;
+  if (!dest || !src || !src->source_loc || dest->source_loc == src->source_loc || has_no_place(dest)) return;
   if (!dest->source_loc) {
     dest->source_loc = new SCM_SourceLocation();
     dest->source_loc->filename = nullptr;
-- 
2.43.0


From 7d8ea32bb3e74230f111c07c904c7bf5fd5b865e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:51 +0000
Subject: [PATCH 84/91] fix: dynamic-wind and call-with-values dropped surplus
 arguments silently

---
 src/c/dynwind.cc | 2 +-
 src/c/values.cc  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/dynwind.cc b/src/c/dynwind.cc
index 30747a4..375b63f 100644
--- a/src/c/dynwind.cc
+++ b/src/c/dynwind.cc
@@ -114,7 +114,7 @@ void rewind_wind_chain(SCM_List *common, SCM_List *target) {
 
 // Dynamic-wind special form handler
 SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l) {
-  if (!l->next || !l->next->next || !l->next->next->next) {
+  if (!l->next || !l->next->next || !l->next->next->next || l->next->next->next->next) {
     eval_error("dynamic-wind: requires 3 arguments");
     return nullptr;
   }
diff --git a/src/c/values.cc b/src/c/values.cc
index a7e255a..42b8b55 100644
--- a/src/c/values.cc
+++ b/src/c/values.cc
@@ -25,7 +25,7 @@ SCM *scm_c_values(SCM_List *args) {
 // (call-with-values producer consumer)
 // Calls producer, gets multiple values (as a list), then applies consumer to those values
 SCM *eval_call_with_values(SCM_Environment *env, SCM_List *l) {
-  if (!l->next || !l->next->next) {
+  if (!l->next || !l->next->next || l->next->next->next) {
     eval_error("call-with-values: requires 2 arguments (producer and consumer)");
     return nullptr;
   }
-- 
2.43.0


From 1db725c0e37ba0d5bcbc88235400801a28392e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:07 +0000
Subject: [PATCH 85/91] fix: a module binder left through a continuation was
 never called again

---
 src/c/continuation.cc | 2 ++
 src/c/module.cc       | 4 ----
 src/c/pscm.h          | 4 ++++
 src/c/pscm_types.h    | 1 +
 4 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/c/continuation.cc b/src/c/continuation.cc
index 6bffeea..87bb889 100644
--- a/src/c/continuation.cc
+++ b/src/c/continuation.cc
@@ -85,6 +85,7 @@ SCM *scm_make_continuation(int *first) {
   
   // Save current module (needed for variable lookup after continuation restore)
   cont->saved_module = scm_current_module();
+  cont->in_binder_call = g_in_binder_call;
   
   *first = !setjmp(cont->cont_jump_buffer);
   if (*first) {
@@ -93,6 +94,7 @@ SCM *scm_make_continuation(int *first) {
   else {
     // The catches around the continuation are active again, and no others
     scm_restore_catch_top(cont->catch_top);
+    g_in_binder_call = cont->in_binder_call;
     // Restore current module when continuation is invoked
     if (cont->saved_module) {
       scm_set_current_module(cont->saved_module);
diff --git a/src/c/module.cc b/src/c/module.cc
index bb80137..c4b02ee 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -7,10 +7,6 @@
 static SCM *g_current_module = nullptr;
 // g_root_module is now in pscm.h as inline variable
 
-// Recursion guard for binder calls to prevent infinite recursion
-// when the binder body triggers symbol lookup in the same module
-static bool g_in_binder_call = false;
-
 // Module registry: module name -> module object
 static SCM_HashTable *g_module_registry = nullptr;
 
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 9f9cef9..000952a 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -1009,6 +1009,10 @@ SCM *scm_variable_bound_p(SCM *var);  // Check if a variable is bound
 
 inline SCM_Environment g_env{};
 inline SCM_List *g_wind_chain = nullptr; // Global wind chain for dynamic-wind
+
+// Recursion guard for binder calls to prevent infinite recursion
+// when the binder body triggers symbol lookup in the same module
+inline bool g_in_binder_call = false;
 inline SCM *g_root_module = nullptr;     // Root module (pscm-user)
 inline long *cont_base = nullptr;        // Stack base pointer for continuations
 
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index 5e25637..149deef 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -105,6 +105,7 @@ struct SCM_Continuation {
   SCM_HostEntry host_entry; // Call of the host that the continuation is in
   long *stack_src;      // Saved stack source address at capture time (cont_base - stack_size)
   struct catch_info *catch_top; // Innermost catch when continuation was created
+  bool in_binder_call;  // Whether a module binder was being called
 };
 
 struct SCM_Macro {
-- 
2.43.0


From 4149715c6dcf93264261d47988db5de4ab066edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:00 +0000
Subject: [PATCH 86/91] fix: define-module: #:autoload and #:export without
 parentheses swallowed the options after them, #:autoload ignored a list of
 names

---
 src/c/module.cc | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index c4b02ee..6e4ff8e 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -754,6 +754,16 @@ SCM *scm_c_module_p(SCM *obj) {
   return is_module(obj) ? scm_bool_true() : scm_bool_false();
 }
 
+// Whether a symbol is one of define-module's options, which ends the names after #:export or #:autoload
+static bool is_module_option(SCM *sym) {
+  for (const char *option : {"use-module", "export", "pure", "autoload", "no-backtrace"}) {
+    if (strcmp(cast<SCM_Symbol>(sym)->data, option) == 0) {
+      return true;
+    }
+  }
+  return false;
+}
+
 // define-module special form
 SCM *eval_define_module(SCM_Environment *env, SCM_List *l) {
   // Syntax: (define-module name [options ...])
@@ -832,7 +842,7 @@ SCM *eval_define_module(SCM_Environment *env, SCM_List *l) {
           opts = opts->next;
           continue;
         }
-        while (opts && opts->data && is_sym(opts->data)) {
+        while (opts && opts->data && is_sym(opts->data) && !is_module_option(opts->data)) {
           scm_module_export(cast<SCM_Module>(module_scm),
                             cast<SCM_Symbol>(opts->data));
           opts = opts->next;
@@ -851,15 +861,17 @@ SCM *eval_define_module(SCM_Environment *env, SCM_List *l) {
           SCM_List *mod_name = cast<SCM_List>(mod_name_spec);
           // Collect symbols from opts->next->next onward
           SCM_List *sym_tail = opts->next->next;
+          if (sym_tail && sym_tail->data && is_pair(sym_tail->data)) {
+            // #:autoload (mod-name) (sym ...)
+            sym_tail = cast<SCM_List>(sym_tail->data);
+          }
           // Build symbol list: (sym1 sym2 ...)
           SCM_List sym_list_dummy = make_list_dummy();
           SCM_List *sym_list_tail = &sym_list_dummy;
-          while (sym_tail) {
-            if (sym_tail->data && is_sym(sym_tail->data)) {
-              SCM_List *node = make_list(sym_tail->data);
-              sym_list_tail->next = node;
-              sym_list_tail = node;
-            }
+          while (sym_tail && sym_tail->data && is_sym(sym_tail->data) && !is_module_option(sym_tail->data)) {
+            SCM_List *node = make_list(sym_tail->data);
+            sym_list_tail->next = node;
+            sym_list_tail = node;
             sym_tail = sym_tail->next;
           }
           if (sym_list_dummy.next) {
-- 
2.43.0


From b939da1e2a31959b7cefb03d92ab12820a731d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:12 +0000
Subject: [PATCH 87/91] fix: module-use! with a module's public interface made
 the names the module does not export visible

---
 src/c/module.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/module.cc b/src/c/module.cc
index 6e4ff8e..b5b2456 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -1142,8 +1142,8 @@ SCM *scm_c_module_use(SCM_List *args) {
   
   // Get module's public interface
   SCM_Module *interface = use_mod->public_interface;
-  if (!interface) {
-    // If no public interface, use module itself
+  if (!interface || (use_mod->kind && strcmp(use_mod->kind->data, "interface") == 0)) {
+    // If no public interface, or given the interface of a module, use module itself
     interface = use_mod;
   }
   
-- 
2.43.0


From 7577d8d392c1f8260b77be8d25566597f595390d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:35 +0000
Subject: [PATCH 88/91] fix: values of read and debug options were reclaimed
 while still set

---
 src/c/debug.cc | 7 +++++++
 src/c/read.cc  | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/c/debug.cc b/src/c/debug.cc
index 12a935a..3590756 100644
--- a/src/c/debug.cc
+++ b/src/c/debug.cc
@@ -277,6 +277,13 @@ SCM *scm_c_debug_options_interface(SCM_List *args) {
 
 // Initialize debug options system
 void init_debug_options() {
+  // Options that hold values keep them alive
+  for (auto &opt : scm_debug_opts) {
+    if (opt.type == SCM_OPTION_SCM) {
+      gc_register_root((SCM **)&opt.val, opt.name);
+    }
+  }
+
   // Register Scheme functions
   scm_define_vararg_function("debug-options-interface", scm_c_debug_options_interface);
   
diff --git a/src/c/read.cc b/src/c/read.cc
index fa477e4..d046606 100644
--- a/src/c/read.cc
+++ b/src/c/read.cc
@@ -495,6 +495,13 @@ SCM *scm_c_read_disable(SCM_List *args) {
 
 // Initialize read options system
 void init_read_options() {
+  // Options that hold values keep them alive
+  for (auto &opt : scm_read_opts) {
+    if (opt.type == SCM_OPTION_SCM) {
+      gc_register_root((SCM **)&opt.val, opt.name);
+    }
+  }
+
   // Register Scheme functions
   scm_define_vararg_function("read-options-interface", scm_c_read_options_interface);
   
-- 
2.43.0


From dec9a51c7932a152698de5dfdc3116bc2e68ff09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:13 +0000
Subject: [PATCH 89/91] fix: define of a variable named as a built-in in a
 module of the program changed the built-in for all modules

---
 src/c/define.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/define.cc b/src/c/define.cc
index bb32983..04ceb64 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -49,7 +49,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
       } else {
         // Top-level: check if symbol exists in global environment
         // If it exists, update it; otherwise define in module or environment
-        auto global_entry = scm_env_search_entry(&g_env, varname, /*search_parent=*/false);
+        auto global_entry = global_entry_to_redefine(env, varname);
         if (global_entry) {
           // Symbol exists in global environment, update it
           global_entry->value = val;
-- 
2.43.0


From f21dcea2febb9fa5aafd5cca47d2e602b3ebe474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:00 +0000
Subject: [PATCH 90/91] fix: a module's definition of a built-in's name was
 ignored by references and assignments

---
 src/c/environment.cc | 18 ++++++++++++++++++
 src/c/eval.cc        | 27 +++++++--------------------
 src/c/module.cc      | 20 ++++++++++++++++++++
 src/c/pscm.h         |  2 ++
 4 files changed, 47 insertions(+), 20 deletions(-)

diff --git a/src/c/environment.cc b/src/c/environment.cc
index 92bffd4..5e1b4e6 100644
--- a/src/c/environment.cc
+++ b/src/c/environment.cc
@@ -64,7 +64,25 @@ SCM_Module *scm_env_module(SCM_Environment *env) {
   return nullptr;
 }
 
+// The binding of a name in the scopes inside the global environment
+SCM_Environment::Entry *scm_env_search_local_entry(SCM_Environment *env, SCM_Symbol *sym) {
+  for (; env && env != &g_env; env = env->parent) {
+    if (auto entry = scm_env_search_entry(env, sym, /*search_parent=*/false)) {
+      return entry;
+    }
+  }
+  return nullptr;
+}
+
 SCM *scm_env_search(SCM_Environment *env, SCM_Symbol *sym) {
+  // 0. A module's binding hides the one of a built-in
+  if (auto entry = scm_env_search_local_entry(env, sym)) {
+    return entry->value;
+  }
+  if (auto module = module_of_code_with(env, sym)) {
+    return module_obarray_lookup(module, sym);
+  }
+
   // 1. First search in lexical environment (local bindings, no parent search)
   // This ensures local bindings in let/lambda take precedence
   auto ret = scm_env_exist(env, sym);
diff --git a/src/c/eval.cc b/src/c/eval.cc
index b4aa75f..ee71d7b 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -88,7 +88,11 @@ static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
   // First try to update in current environment (no parent search)
   // This ensures set! updates the binding in the current lexical scope
   auto entry = scm_env_search_entry(env, sym, /*search_parent=*/false);
-  if (entry) {
+  SCM_Module *own_module = scm_env_search_local_entry(env, sym) ? nullptr : module_of_code_with(env, sym);
+  if (own_module) {
+    // A module's binding hides the one of a built-in
+    module_define(own_module, sym, val);
+  } else if (entry) {
     entry->value = val;
   } else {
     // Not found in current environment, search in parent environments
@@ -335,25 +339,8 @@ entry:
       // Search module obarray + use chain for macros imported via use-modules: those of the module
       // the code belongs to, whatever module is current, or else of the current module.
       // Only when we're in a non-root module (root has everything in g_env already).
-      SCM *current_mod = scm_current_module();
-      SCM_Module *module = scm_env_module(env);
-      if (!module && current_mod && is_module(current_mod) && current_mod != g_root_module) {
-        module = cast<SCM_Module>(current_mod);
-      }
-      if (module) {
-        SCM *var = module_obarray_lookup(module, sym);
-        if (!var) {
-          // Search uses list
-          SCM_List *uses = module->uses;
-          while (uses && !var) {
-            SCM *use_mod = uses->data;
-            if (is_module(use_mod))
-              var = module_obarray_lookup(cast<SCM_Module>(use_mod), sym);
-            uses = uses->next;
-          }
-        }
-        val = var;
-      }
+      SCM_Module *module = module_of_code_with(env, sym);
+      val = module ? module_obarray_lookup(module, sym) : nullptr;
     }
     // Fallback: search global environment for macros defined at top
     // level (e.g., texmacs-module in boot.scm). These go into g_env
diff --git a/src/c/module.cc b/src/c/module.cc
index b5b2456..6386b93 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -82,6 +82,26 @@ void module_define(SCM_Module *module, SCM_Symbol *sym, SCM *val) {
   }
 }
 
+// The module whose binding of sym code in env sees before the global environment's: the module the
+// code belongs to, or else the current module (the root module has its macros and redefined
+// built-ins in the global environment), or one that it uses
+SCM_Module *module_of_code_with(SCM_Environment *env, SCM_Symbol *sym) {
+  SCM *current_mod = scm_current_module();
+  SCM_Module *module = scm_env_module(env);
+  if (!module && current_mod && is_module(current_mod) && current_mod != g_root_module) {
+    module = cast<SCM_Module>(current_mod);
+  }
+  if (!module || module_obarray_lookup(module, sym)) {
+    return module;
+  }
+  for (SCM_List *uses = module->uses; uses; uses = uses->next) {
+    if (is_module(uses->data) && module_obarray_lookup(cast<SCM_Module>(uses->data), sym)) {
+      return cast<SCM_Module>(uses->data);
+    }
+  }
+  return nullptr;
+}
+
 struct BinderCall {
   SCM_Procedure *binder;
   SCM_List *args;
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 000952a..116820c 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -1044,6 +1044,8 @@ void scm_module_export(SCM_Module *module, SCM_Symbol *sym);
 
 // Module helper functions (for internal use, but may be used by other modules)
 SCM_Module *scm_env_module(SCM_Environment *env);
+SCM_Environment::Entry *scm_env_search_local_entry(SCM_Environment *env, SCM_Symbol *sym);
+SCM_Module *module_of_code_with(SCM_Environment *env, SCM_Symbol *sym);
 void module_define(SCM_Module *module, SCM_Symbol *sym, SCM *val);
 SCM *module_obarray_lookup(SCM_Module *module, SCM_Symbol *sym);
 SCM *module_search_variable(SCM_Module *module, SCM_Symbol *sym);
-- 
2.43.0


From 2c01987724ea9b555ed0cf9b42e922fe84c7f4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:52 +0000
Subject: [PATCH 91/91] fix: a host's definition of a built-in's name in the
 root module was ignored

---
 src/c/define.cc | 2 +-
 src/c/module.cc | 6 +++++-
 src/c/pscm.h    | 1 +
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/c/define.cc b/src/c/define.cc
index 04ceb64..7ef266b 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -9,7 +9,7 @@ bool is_body_env(SCM_Environment *env) {
 
 // A definition at the top level of the root module replaces what the global environment holds under
 // that name (a built-in or a macro), which would otherwise be found first
-static SCM_Environment::Entry *global_entry_to_redefine(SCM_Environment *env, SCM_Symbol *name) {
+SCM_Environment::Entry *global_entry_to_redefine(SCM_Environment *env, SCM_Symbol *name) {
   SCM *current_mod = scm_current_module();
   if (env->parent || (current_mod && current_mod != g_root_module)) {
     return nullptr;
diff --git a/src/c/module.cc b/src/c/module.cc
index 6386b93..cd1750c 100644
--- a/src/c/module.cc
+++ b/src/c/module.cc
@@ -579,7 +579,11 @@ SCM *scm_c_define(const char *name, SCM *val) {
   SCM *module = scm_current_module();
   SCM_Module *mod = cast<SCM_Module>(module);
 
-  module_define(mod, sym, val);
+  if (auto entry = global_entry_to_redefine(&g_env, sym)) {
+    entry->value = val;
+  } else {
+    module_define(mod, sym, val);
+  }
 
   return scm_make_variable(val);
 }
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 116820c..ac64361 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -1044,6 +1044,7 @@ void scm_module_export(SCM_Module *module, SCM_Symbol *sym);
 
 // Module helper functions (for internal use, but may be used by other modules)
 SCM_Module *scm_env_module(SCM_Environment *env);
+SCM_Environment::Entry *global_entry_to_redefine(SCM_Environment *env, SCM_Symbol *name);
 SCM_Environment::Entry *scm_env_search_local_entry(SCM_Environment *env, SCM_Symbol *sym);
 SCM_Module *module_of_code_with(SCM_Environment *env, SCM_Symbol *sym);
 void module_define(SCM_Module *module, SCM_Symbol *sym, SCM *val);
-- 
2.43.0

