From cb9367d4d93fbabd26a7eded65bd5df6e1a4f878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:02 +0000
Subject: [PATCH 01/51] vm: add optional observation hooks to the heap
 (TIRO_VP_HOOKS)

---
 src/vm/heap/collector.cpp |  3 +++
 src/vm/heap/heap.cpp      | 12 ++++++++++++
 src/vm/heap/vp_hooks.hpp  | 35 +++++++++++++++++++++++++++++++++++
 3 files changed, 50 insertions(+)
 create mode 100644 src/vm/heap/vp_hooks.hpp

diff --git a/src/vm/heap/collector.cpp b/src/vm/heap/collector.cpp
index 45e0b67..8d18520 100644
--- a/src/vm/heap/collector.cpp
+++ b/src/vm/heap/collector.cpp
@@ -6,6 +6,7 @@
 #include "common/scope_guards.hpp"
 #include "common/type_traits.hpp"
 #include "vm/heap/heap.hpp"
+#include "vm/heap/vp_hooks.hpp"
 #include "vm/objects/all.hpp"
 #include "vm/root_set.hpp"
 
@@ -65,6 +66,8 @@ void Collector::collect([[maybe_unused]] GcReason reason) {
     [[maybe_unused]] const size_t objects_after_collect = heap_.stats().allocated_objects;
     next_threshold_ = compute_next_threshold(next_threshold_, size_after_collect);
 
+    TIRO_VP_HOOK(tiro_vp_gc_done(&heap_, objects_after_collect, size_after_collect);)
+
     TIRO_TRACE_COLLECTOR(
         "Collection took {} ms. New heap size is {} ({} objects). Next "
         "auto-collect at heap size {}.\n",
diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 7b31865..0edd0ef 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -7,6 +7,7 @@
 
 #include "common/scope_guards.hpp"
 #include "vm/heap/allocator.hpp"
+#include "vm/heap/vp_hooks.hpp"
 
 namespace tiro::vm {
 
@@ -157,6 +158,8 @@ Span<Cell> FreeSpace::first_fit(FreeList& list, u32 request) {
         FreeListEntry* entry = *cursor;
         if (entry->cells >= request) {
             *cursor = entry->next;
+            TIRO_VP_HOOK(const size_t vp_cells = entry->cells;
+                         tiro_vp_cells_taken(entry, vp_cells * cell_size); entry->cells = vp_cells;)
             return Span(reinterpret_cast<Cell*>(entry), entry->cells);
         }
         cursor = &entry->next;
@@ -168,6 +171,8 @@ void FreeSpace::push(FreeList& list, Span<Cell> cells) {
     TIRO_DEBUG_ASSERT(cells.size() > 0, "zero sized cell span");
     static_assert(sizeof(FreeListEntry) <= sizeof(Cell));
     static_assert(alignof(FreeListEntry) <= alignof(Cell));
+    TIRO_VP_HOOK(
+        tiro_vp_cells_freed(cells.data(), cells.size() * cell_size, sizeof(FreeListEntry));)
     list.head = new (cells.data()) FreeListEntry(list.head, cells.size());
 }
 
@@ -177,6 +182,8 @@ Span<Cell> FreeSpace::pop(FreeList& list) {
         return {};
 
     list.head = entry->next;
+    TIRO_VP_HOOK(const size_t vp_cells = entry->cells;
+                 tiro_vp_cells_taken(entry, vp_cells * cell_size); entry->cells = vp_cells;)
     return Span(reinterpret_cast<Cell*>(entry), entry->cells);
 }
 
@@ -204,6 +211,9 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
     TIRO_DEBUG_ASSERT(!collector_.running(), "collector must not be running");
     TIRO_DEBUG_ASSERT(bytes_request > 0, "zero sized allocation");
 
+    TIRO_VP_HOOK(if (tiro_vp_before_alloc(this, bytes_request))
+                     collector_.collect(GcReason::Forced);)
+
     // TODO: Improve the decision when the collector runs.
     //  - Should also run if the allocation would exceed the max_size
     bool collector_ran = false;
@@ -303,12 +313,14 @@ void* Heap::allocate_raw(size_t size, size_t align) {
     void* result = alloc_.allocate_aligned(size, align);
     if (TIRO_UNLIKELY(!result))
         TIRO_ERROR("failed to allocate block of size {}", size);
+    TIRO_VP_HOOK(tiro_vp_raw_alloc(this, result, size, max_size_);)
     return result;
 }
 
 void Heap::free_raw(void* block, size_t size, size_t align) {
     TIRO_DEBUG_ASSERT(size <= stats_.total_bytes, "invalid total bytes count");
     stats_.total_bytes -= size;
+    TIRO_VP_HOOK(tiro_vp_raw_free(this, block, size);)
     alloc_.free_aligned(block, size, align);
 }
 
diff --git a/src/vm/heap/vp_hooks.hpp b/src/vm/heap/vp_hooks.hpp
new file mode 100644
index 0000000..030422c
--- /dev/null
+++ b/src/vm/heap/vp_hooks.hpp
@@ -0,0 +1,35 @@
+#ifndef TIRO_VM_HEAP_VP_HOOKS_HPP
+#define TIRO_VM_HEAP_VP_HOOKS_HPP
+
+// Observation points for runtime monitoring. They are compiled in only if TIRO_VP_HOOKS is defined,
+// in which case the embedding program must define the functions declared below.
+#ifdef TIRO_VP_HOOKS
+
+#    include <cstddef>
+
+extern "C" {
+
+/// Called before every heap allocation. Returns true in order to force a garbage collection.
+bool tiro_vp_before_alloc(void* heap, std::size_t bytes);
+
+/// Called when a range of free page memory has been removed from the free list.
+void tiro_vp_cells_taken(void* heap_memory, std::size_t bytes);
+
+/// Called when a range of page memory is about to be put on the free list.
+/// The first `header_bytes` of the range will be used for the free list.
+void tiro_vp_cells_freed(void* heap_memory, std::size_t bytes, std::size_t header_bytes);
+
+/// Called when a block of raw memory has been obtained for / is returned by a heap.
+void tiro_vp_raw_alloc(void* heap, void* block, std::size_t bytes, std::size_t max_bytes);
+void tiro_vp_raw_free(void* heap, void* block, std::size_t bytes);
+
+/// Called at the end of a garbage collection.
+void tiro_vp_gc_done(void* heap, std::size_t live_objects, std::size_t live_bytes);
+}
+
+#    define TIRO_VP_HOOK(...) __VA_ARGS__
+#else
+#    define TIRO_VP_HOOK(...)
+#endif
+
+#endif // TIRO_VM_HEAP_VP_HOOKS_HPP
-- 
2.43.0


From d403fd2e8a350e08aac61a80c88da1861a82d3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 02/51] fix: do not use invalidated references when sealing a
 block with incomplete phis

---
 src/compiler/ir_gen/func.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index a5d12c8..ed8e21c 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -458,13 +458,14 @@ void FunctionIRGen::seal(BlockId block_id) {
 
     // Patch incomplete phis. See [BB+13], Section 2.3.
     if (auto pos = incomplete_phis_.find(block_id); pos != incomplete_phis_.end()) {
+        // Resolving operands may register incomplete phis for other blocks, which would
+        // invalidate references into the map.
+        auto phis = std::move(pos->second);
+        incomplete_phis_.erase(pos);
 
-        auto& phis = pos->second;
         for (const auto& [symbol, phi] : phis) {
             add_phi_operands(symbol, phi, block_id);
         }
-
-        incomplete_phis_.erase(pos);
     }
 
     block->sealed(true);
-- 
2.43.0


From 6c283085fa727bc0e2e87b32a91b69310dd7cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 03/51] fix: report break and continue in functions nested
 inside a loop

---
 src/compiler/semantics/structure_check.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/compiler/semantics/structure_check.cpp b/src/compiler/semantics/structure_check.cpp
index b5e0b60..80dc833 100644
--- a/src/compiler/semantics/structure_check.cpp
+++ b/src/compiler/semantics/structure_check.cpp
@@ -55,7 +55,7 @@ private:
     bool check_assignment_path(NotNull<AstExpr*> expr);
     bool check_assignment_var(NotNull<AstVarExpr*> expr);
 
-    ResetValue<AstNode*> enter_loop(NotNull<AstNode*> loop);
+    ResetValue<AstNode*> enter_loop(AstNode* loop);
     ResetValue<AstNode*> enter_func(NotNull<AstNode*> func);
 
 private:
@@ -115,6 +115,7 @@ void StructureChecker::visit_binding(NotNull<AstBinding*> binding) {
 
 void StructureChecker::visit_func_decl(NotNull<AstFuncDecl*> decl) {
     auto reset_func = enter_func(decl);
+    auto reset_loop = enter_loop(nullptr); // loops do not extend into nested functions
     visit_decl(decl);
 }
 
@@ -371,8 +372,8 @@ bool StructureChecker::check_assignment_var(NotNull<AstVarExpr*> expr) {
     TIRO_UNREACHABLE("Invalid symbol type.");
 }
 
-ResetValue<AstNode*> StructureChecker::enter_loop(NotNull<AstNode*> loop) {
-    return replace_value(current_loop_, loop.get());
+ResetValue<AstNode*> StructureChecker::enter_loop(AstNode* loop) {
+    return replace_value(current_loop_, loop);
 }
 
 ResetValue<AstNode*> StructureChecker::enter_func(NotNull<AstNode*> func) {
-- 
2.43.0


From d1e5ba4c132a62de1ba6e4be76f53e9fa8a9f72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:34 +0000
Subject: [PATCH 04/51] fix: handle code after if/else and for constructs that
 never complete normally

---
 src/compiler/ir_gen/compile_expr.cpp | 6 ++++++
 src/compiler/ir_gen/compile_stmt.cpp | 6 ++++++
 src/compiler/ir_gen/func.cpp         | 8 +++++---
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index 9887fe7..b025af0 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -586,6 +586,12 @@ InstResult ExprCompiler::visit_if_expr(NotNull<AstIfExpr*> expr, CurrentBlock& b
     ctx().seal(end_block);
     bb.assign(end_block);
 
+    // Control flow never continues after the expression if it leaves through both branches.
+    if (!then_result && !else_result) {
+        bb.end(Terminator::make_never(result().exit()));
+        return then_result;
+    }
+
     if (!has_value) {
         TIRO_DEBUG_ASSERT(can_elide(), "Must be able to elide value generation.");
         return InstId();
diff --git a/src/compiler/ir_gen/compile_stmt.cpp b/src/compiler/ir_gen/compile_stmt.cpp
index dd2b473..e7a56c5 100644
--- a/src/compiler/ir_gen/compile_stmt.cpp
+++ b/src/compiler/ir_gen/compile_stmt.cpp
@@ -190,6 +190,12 @@ OkResult StmtCompiler::visit_for_stmt(NotNull<AstForStmt*> stmt, CurrentBlock& b
     ctx().seal(cond_block);
     ctx().seal(end_block);
     bb.assign(end_block);
+
+    // Without a condition and without a break expression, control flow never leaves the loop.
+    if (ctx().result()[end_block].predecessor_count() == 0) {
+        bb.end(Terminator::make_never(ctx().result().exit()));
+        return unreachable;
+    }
     return cond_result;
 }
 
diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index ed8e21c..d8d170e 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -249,9 +249,11 @@ void FunctionIRGen::enter_compilation(FunctionRef<void(CurrentBlock& bb)> compil
 
     compile_body(bb);
 
-    TIRO_DEBUG_ASSERT(result_[bb.id()].terminator().type() == TerminatorType::Return,
-        "The last block must perform a return.");
-    TIRO_DEBUG_ASSERT(result_[bb.id()].terminator().as_return().target == result_.exit(),
+    TIRO_DEBUG_ASSERT(result_[bb.id()].terminator().type() == TerminatorType::Return
+                          || result_[bb.id()].terminator().type() == TerminatorType::Never,
+        "The last block must perform a return or be unreachable.");
+    TIRO_DEBUG_ASSERT(result_[bb.id()].terminator().type() != TerminatorType::Return
+                          || result_[bb.id()].terminator().as_return().target == result_.exit(),
         "The last block at function level must always return to the exit "
         "block.");
 
-- 
2.43.0


From f9cf11bf9f5532d77937ab3c79193af0dbc5352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 05/51] fix: keep operators whose evaluation can panic even if
 their result is unused

---
 .../ir_passes/dead_code_elimination.cpp       | 22 ++++++-------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/compiler/ir_passes/dead_code_elimination.cpp b/src/compiler/ir_passes/dead_code_elimination.cpp
index 8ac8c59..c8ae4fe 100644
--- a/src/compiler/ir_passes/dead_code_elimination.cpp
+++ b/src/compiler/ir_passes/dead_code_elimination.cpp
@@ -34,10 +34,8 @@ static bool has_side_effects(const LValue& value) {
 ///
 /// TODO: The implementation is very conservative regarding unary and binary operators,
 /// they can probably be optimized in some situations.
-static bool has_side_effects(const Value& value, const Function& func) {
+static bool has_side_effects(const Value& value) {
     struct Visitor {
-        const Function& func;
-
         bool visit_read(const Value::Read& r) { return has_side_effects(r.target); }
 
         bool visit_write(const Value::Write&) { return true; }
@@ -55,17 +53,11 @@ static bool has_side_effects(const Value& value, const Function& func) {
 
         bool visit_outer_environment(const Value::OuterEnvironment&) { return false; }
 
-        bool visit_binary_op(const Value::BinaryOp& b) {
-            const auto& lhs = func[b.left];
-            const auto& rhs = func[b.right];
-            return lhs.value().type() != ValueType::Constant
-                   || rhs.value().type() != ValueType::Constant;
-        }
+        // Operators on constants that are guaranteed to succeed have already been evaluated at
+        // compile time. All remaining operators may raise an exception.
+        bool visit_binary_op(const Value::BinaryOp&) { return true; }
 
-        bool visit_unary_op(const Value::UnaryOp& u) {
-            const auto& operand = func[u.operand];
-            return operand.value().type() != ValueType::Constant;
-        }
+        bool visit_unary_op(const Value::UnaryOp&) { return true; }
 
         bool visit_call(const Value::Call&) { return true; }
 
@@ -105,7 +97,7 @@ static bool has_side_effects(const Value& value, const Function& func) {
         bool visit_nop(const Value::Nop&) { return false; }
     };
 
-    return value.visit(Visitor{func});
+    return value.visit(Visitor{});
 }
 
 void eliminate_dead_code(Function& func) {
@@ -127,7 +119,7 @@ void eliminate_dead_code(Function& func) {
 
         for (const auto& inst_id : block.insts()) {
             const auto& inst = func[inst_id];
-            if (has_side_effects(inst.value(), func))
+            if (has_side_effects(inst.value()))
                 visit(inst_id);
         }
 
-- 
2.43.0


From 8d0f1bb32de4956bfac9edb5550636837cf7babd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 06/51] fix: unary minus overflows for the smallest integer,
 not for -1

---
 src/vm/math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/math.cpp b/src/vm/math.cpp
index aff551b..62d55b0 100644
--- a/src/vm/math.cpp
+++ b/src/vm/math.cpp
@@ -181,7 +181,7 @@ Fallible<Number> unary_minus(Context& ctx, Handle<Value> v) {
 
     if (v->is<Integer>()) {
         i64 iv = v.must_cast<Integer>()->value();
-        if (TIRO_UNLIKELY(iv == -1))
+        if (TIRO_UNLIKELY(iv == std::numeric_limits<i64>::min()))
             return TIRO_FORMAT_EXCEPTION(ctx, "integer overflow in unary minus");
         return static_cast<Number>(ctx.get_integer(-iv));
     }
-- 
2.43.0


From ca8b58aa55a250d0343fc88d9de764fa7fc23bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 07/51] fix: compute -1 raised to negative even powers
 correctly

---
 src/compiler/ir_gen/const_eval.cpp | 8 ++++++--
 src/vm/math.cpp                    | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/compiler/ir_gen/const_eval.cpp b/src/compiler/ir_gen/const_eval.cpp
index 0692143..62657a0 100644
--- a/src/compiler/ir_gen/const_eval.cpp
+++ b/src/compiler/ir_gen/const_eval.cpp
@@ -228,8 +228,12 @@ static EvalResult eval_power(const Constant& lhs, const Constant& rhs) {
     constexpr auto intop = [](i64 a, i64 b) -> EvalResult {
         if (a == 0 && b < 0)
             return EvalResult::make_divide_by_zero();
-        if (b < 0)
-            return make_int(a == 1 || a == -1 ? a : 0);
+        if (b < 0) {
+            // The result is only an integer for 1 and -1 (alternates with the exponent)
+            if (a == -1)
+                return make_int(b % 2 == 0 ? 1 : -1);
+            return make_int(a == 1 ? 1 : 0);
+        }
 
         // https://stackoverflow.com/a/101613
         SafeInt base = a;
diff --git a/src/vm/math.cpp b/src/vm/math.cpp
index 62d55b0..9cf82fd 100644
--- a/src/vm/math.cpp
+++ b/src/vm/math.cpp
@@ -83,8 +83,12 @@ struct pow_op {
         if (TIRO_UNLIKELY(a == 0 && b < 0))
             return TIRO_FORMAT_EXCEPTION(ctx, "cannot raise integer 0 to a negative power");
 
-        if (b < 0)
-            return a == 1 || a == -1 ? a : 0;
+        if (b < 0) {
+            // The result is only an integer for 1 and -1 (alternates with the exponent)
+            if (a == -1)
+                return b % 2 == 0 ? 1 : -1;
+            return a == 1 ? 1 : 0;
+        }
 
         // https://stackoverflow.com/a/101613
         i64 result = 1;
-- 
2.43.0


From aa30fa6c3f501531a66190f2a08c1b9954dd0ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 08/51] fix: do not convert out of range floats to integers in
 comparisons

---
 src/compiler/ir_gen/const_eval.cpp | 3 ++-
 src/vm/objects/value.cpp           | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compiler/ir_gen/const_eval.cpp b/src/compiler/ir_gen/const_eval.cpp
index 62657a0..520bcd8 100644
--- a/src/compiler/ir_gen/const_eval.cpp
+++ b/src/compiler/ir_gen/const_eval.cpp
@@ -103,7 +103,8 @@ static i64 to_signed(u64 v) {
 }
 
 static bool i64_f64_equal(i64 lhs, f64 rhs) {
-    if (!std::isfinite(rhs))
+    // Floats outside the range of i64 (including nan) cannot be converted.
+    if (!(rhs >= -0x1p63 && rhs < 0x1p63))
         return false;
 
     // Check whether converting the float to int and back preserves the value.
diff --git a/src/vm/objects/value.cpp b/src/vm/objects/value.cpp
index f955c6b..e490dd8 100644
--- a/src/vm/objects/value.cpp
+++ b/src/vm/objects/value.cpp
@@ -203,7 +203,8 @@ size_t hash(Value v) {
 }
 
 static bool int_float_equal(i64 lhs, f64 rhs) {
-    if (!std::isfinite(rhs))
+    // Floats outside the range of i64 (including nan) cannot be converted.
+    if (!(rhs >= -0x1p63 && rhs < 0x1p63))
         return false;
 
     // Check whether converting the float to int and back preserves the value.
-- 
2.43.0


From 274a44a540142c497643be077cc5924bccb9aeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 09/51] fix: accept tuples as arguments of
 tiro_resumable_frame_invoke

---
 src/api/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/functions.cpp b/src/api/functions.cpp
index c1eeb0a..d125b7e 100644
--- a/src/api/functions.cpp
+++ b/src/api/functions.cpp
@@ -268,7 +268,7 @@ void tiro_resumable_frame_invoke(tiro_resumable_frame_t frame, int next_state, t
         auto maybe_args = to_internal_maybe(args);
         if (maybe_args) {
             auto args_handle = maybe_args.handle();
-            if (!args_handle->is<vm::Null>() && args_handle->is<vm::Tuple>())
+            if (!args_handle->is<vm::Null>() && !args_handle->is<vm::Tuple>())
                 return TIRO_REPORT(err, TIRO_ERROR_BAD_TYPE);
         }
 
-- 
2.43.0


From 3f3939c1c764a430124a48a7b385f6b1339c9032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:01 +0000
Subject: [PATCH 10/51] fix: saturate floats outside the integer range in
 integer conversions

---
 src/vm/objects/primitives.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/vm/objects/primitives.cpp b/src/vm/objects/primitives.cpp
index 47786dd..642d301 100644
--- a/src/vm/objects/primitives.cpp
+++ b/src/vm/objects/primitives.cpp
@@ -3,6 +3,8 @@
 #include "vm/context.hpp"
 #include "vm/object_support/factory.hpp"
 
+#include <limits>
+
 namespace tiro::vm {
 
 Undefined Undefined::make(Context& ctx) {
@@ -99,7 +101,21 @@ f64 Number::convert_float() {
 }
 
 i64 Number::convert_int() {
-    return visit([](auto&& v) { return static_cast<i64>(v.value()); });
+    struct Visitor {
+        i64 operator()(Integer i) { return i.value(); }
+        i64 operator()(Float f) {
+            // Saturate values that cannot be represented.
+            const f64 value = f.value();
+            if (value != value)
+                return 0;
+            if (value < -0x1p63)
+                return std::numeric_limits<i64>::min();
+            if (value >= 0x1p63)
+                return std::numeric_limits<i64>::max();
+            return static_cast<i64>(value);
+        }
+    };
+    return visit(Visitor());
 }
 
 std::optional<i64> Number::try_extract_int() {
-- 
2.43.0


From 24bd616b0b02906bd506cfbe714b2ee0db443eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:26 +0000
Subject: [PATCH 11/51] fix: assign local functions to the variable that is
 declared by their name

---
 src/compiler/ir_gen/compile_expr.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index b025af0..ddce6ce 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -518,13 +518,22 @@ InstResult ExprCompiler::visit_func_expr(NotNull<AstFuncExpr*> expr, CurrentBloc
     auto env = ctx().current_env();
 
     ModuleMemberId func_id = ctx().module_gen().add_function(decl, envs, env);
+    InstId func_inst;
     if (env) {
         auto env_id = bb.compile_env(env);
-        return bb.compile_value(Value::make_make_closure(env_id, func_id));
+        func_inst = bb.compile_value(Value::make_make_closure(env_id, func_id));
+    } else {
+        auto lvalue = LValue::make_module(func_id);
+        func_inst = bb.compile_value(Value::make_read(lvalue));
     }
 
-    auto lvalue = LValue::make_module(func_id);
-    auto func_inst = bb.compile_value(Value::make_read(lvalue));
+    // The name of a local function is a variable in the surrounding scope. Functions
+    // at module level are module members instead.
+    if (decl->name()) {
+        auto symbol_id = symbols().get_decl(decl->id());
+        if (!ctx().module_gen().is_static(symbol_id))
+            bb.compile_assign(symbol_id, func_inst);
+    }
     return func_inst;
 }
 
-- 
2.43.0


From b1b8203ea0800d46194e39848faad8918c4984e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:49 +0000
Subject: [PATCH 12/51] fix: panic when reading a module variable before its
 first assignment

---
 src/vm/interpreter.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/vm/interpreter.cpp b/src/vm/interpreter.cpp
index 1c3a9c4..676a9d9 100644
--- a/src/vm/interpreter.cpp
+++ b/src/vm/interpreter.cpp
@@ -272,7 +272,14 @@ void BytecodeInterpreter::run() {
         case BytecodeOp::LoadModule: {
             const u32 source = read_u32();
             auto target = read_local();
-            target.set(get_member(source));
+
+            // Variables can be read before they have been assigned a value.
+            auto value = get_member(source);
+            if (TIRO_UNLIKELY(ctx_.get_undefined().same(value)))
+                return unwind(
+                    TIRO_FORMAT_EXCEPTION(ctx_, "module member at index {} is undefined", source));
+
+            target.set(value);
             break;
         }
         case BytecodeOp::StoreModule: {
@@ -841,12 +848,7 @@ Value BytecodeInterpreter::get_member(u32 index) {
     Tuple members = mod.members();
     TIRO_DEBUG_ASSERT(index < members.size(), "module member index out of bounds");
 
-    Value member = members.unchecked_get(index);
-
-    // TODO It would be great to have static verification for this.
-    // Reading from an undefined variable is only possible when the codegen is buggy.
-    TIRO_CHECK(!member.is<Undefined>(), "module member is undefined");
-    return member;
+    return members.unchecked_get(index);
 }
 
 void BytecodeInterpreter::set_member(u32 index, Value value) {
-- 
2.43.0


From e308d2989582db5c2a20b4201a2eecc2f36c5678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:17 +0000
Subject: [PATCH 13/51] fix: make closure environments available in deferred
 expressions

---
 src/compiler/ir_gen/closures.cpp     | 21 +++++++++++++--------
 src/compiler/ir_gen/closures.hpp     | 12 ++++++++----
 src/compiler/ir_gen/compile_stmt.cpp |  5 ++---
 src/compiler/ir_gen/func.cpp         | 26 ++++++++++++++++++++++++--
 src/compiler/ir_gen/func.hpp         |  7 +++++++
 5 files changed, 54 insertions(+), 17 deletions(-)

diff --git a/src/compiler/ir_gen/closures.cpp b/src/compiler/ir_gen/closures.cpp
index a576798..0b97014 100644
--- a/src/compiler/ir_gen/closures.cpp
+++ b/src/compiler/ir_gen/closures.cpp
@@ -21,19 +21,23 @@ ClosureEnvId ClosureEnvCollection::make(const ClosureEnv& env) {
 }
 
 void ClosureEnvCollection::write_location(SymbolId symbol, const ClosureEnvLocation& loc) {
-    TIRO_DEBUG_ASSERT(
-        locs_.find(symbol) == locs_.end(), "Symbol is already associated with a location.");
     TIRO_DEBUG_ASSERT(loc.env, "The location must have a valid environment id.");
+    TIRO_DEBUG_ASSERT(locs_.find(std::tuple(symbol, loc.env)) == locs_.end(),
+        "Symbol is already associated with a location in that environment.");
     TIRO_DEBUG_ASSERT((*this)[loc.env].size() > loc.index,
         "The location's index is out of bounds for "
         "the given environment.");
 
-    locs_.emplace(symbol, loc);
+    locs_.emplace(std::tuple(symbol, loc.env), loc);
 }
 
-std::optional<ClosureEnvLocation> ClosureEnvCollection::read_location(SymbolId symbol) const {
-    if (auto pos = locs_.find(symbol); pos != locs_.end())
-        return pos->second;
+std::optional<ClosureEnvLocation>
+ClosureEnvCollection::read_location(SymbolId symbol, ClosureEnvId env) const {
+    while (env) {
+        if (auto pos = locs_.find(std::tuple(symbol, env)); pos != locs_.end())
+            return pos->second;
+        env = (*this)[env].parent();
+    }
     return {};
 }
 
@@ -66,8 +70,9 @@ void dump_envs(const ClosureEnvCollection& envs, const SymbolTable& symbols,
     {
         stream.format("  Locations:\n");
         for (const auto& loc : envs.locations()) {
-            auto symbol = symbols[loc.first];
-            stream.format("    {}@{} -> {}\n", strings.dump(symbol.name()), loc.first, loc.second);
+            auto symbol_id = std::get<SymbolId>(loc.first);
+            auto symbol = symbols[symbol_id];
+            stream.format("    {}@{} -> {}\n", strings.dump(symbol.name()), symbol_id, loc.second);
         }
     }
 }
diff --git a/src/compiler/ir_gen/closures.hpp b/src/compiler/ir_gen/closures.hpp
index 3ae4986..927ea25 100644
--- a/src/compiler/ir_gen/closures.hpp
+++ b/src/compiler/ir_gen/closures.hpp
@@ -11,6 +11,7 @@
 #include "absl/container/flat_hash_map.h"
 
 #include <optional>
+#include <tuple>
 
 namespace tiro::ir {
 
@@ -71,12 +72,15 @@ public:
     ClosureEnvId make(const ClosureEnv& env);
 
     /// Associates the given symbol with its location within the closure env collection.
-    /// \pre `symbol` has not been inserted already.
+    /// Note that code may be compiled more than once (e.g. deferred expressions), in which case a symbol has
+    /// different locations in different environments.
+    /// \pre `symbol` has not been inserted for that environment already.
     /// \pre The location must be valid.
     void write_location(SymbolId symbol, const ClosureEnvLocation& loc);
 
-    /// Returns the location of the given symbol (previously registered via write_location()).
-    std::optional<ClosureEnvLocation> read_location(SymbolId symbol) const;
+    /// Returns the location of the given symbol (previously registered via write_location()). The environment
+    /// is searched first, followed by its parents.
+    std::optional<ClosureEnvLocation> read_location(SymbolId symbol, ClosureEnvId env) const;
 
     auto environments() const { return IterRange(envs_.begin(), envs_.end()); }
     size_t environment_count() const { return envs_.size(); }
@@ -91,7 +95,7 @@ private:
 
 private:
     EntityStorage<ClosureEnv, ClosureEnvId> envs_;
-    absl::flat_hash_map<SymbolId, ClosureEnvLocation, UseHasher> locs_;
+    absl::flat_hash_map<std::tuple<SymbolId, ClosureEnvId>, ClosureEnvLocation, UseHasher> locs_;
 };
 
 void dump_envs(const ClosureEnvCollection& envs, const SymbolTable& symbols,
diff --git a/src/compiler/ir_gen/compile_stmt.cpp b/src/compiler/ir_gen/compile_stmt.cpp
index e7a56c5..34983ce 100644
--- a/src/compiler/ir_gen/compile_stmt.cpp
+++ b/src/compiler/ir_gen/compile_stmt.cpp
@@ -83,14 +83,13 @@ OkResult StmtCompiler::visit_defer_stmt(NotNull<AstDeferStmt*> stmt, CurrentBloc
     // point to that handler (handler edge), until the scope exit or until another defer statement is encountered.
     // NOTE: the new handler block inherits the current exception handler from the ctx.
     auto handler_block = ctx().make_handler_block(strings().insert("defer-panic"));
-    [&] {
-        CurrentBlock nested = ctx().make_current(handler_block);
+    ctx().compile_handler(handler_block, [&](CurrentBlock& nested) {
         auto expr_result = nested.compile_expr(expr, ExprOptions::MaybeInvalid);
         if (!expr_result)
             return;
 
         nested.end(Terminator::make_rethrow(ctx().result().exit()));
-    }();
+    });
 
     // Normal control flow: the expression is remembered and compiled by the scope exit (ExprCompiler::visit_block_expr).
     {
diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index d8d170e..9636dc2 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -431,6 +431,21 @@ BlockId FunctionIRGen::make_handler_block(InternedString label) {
     return block_id;
 }
 
+void FunctionIRGen::compile_handler(
+    BlockId handler_id, FunctionRef<void(CurrentBlock& bb)> compile_body) {
+    auto bb = make_current(handler_id);
+
+    // Unused instructions are removed by the dead code elimination pass.
+    auto body_locations = local_env_locations_;
+    if (outer_env_)
+        local_env_locations_[outer_env_] = bb.define_new(Value::OuterEnvironment{});
+    for (const auto& env_context : local_env_stack_)
+        local_env_locations_[env_context.env] = read_variable(env_context.symbol, handler_id);
+    ScopeExit restore_locations = [&] { local_env_locations_ = std::move(body_locations); };
+
+    compile_body(bb);
+}
+
 InstId FunctionIRGen::define_new(Value&& value, BlockId block_id) {
     return define_new(Inst(std::move(value)), block_id);
 }
@@ -666,7 +681,14 @@ void FunctionIRGen::enter_env(ScopeId parent_scope_id, CurrentBlock& bb) {
     const auto parent_inst = parent ? get_env(parent) : bb.compile_value(Constant::make_null());
     const auto env_inst = bb.compile_value(
         Value::make_make_environment(parent_inst, captured_count));
-    local_env_stack_.push_back({env, parent_scope_id});
+
+    // Captured symbols are never ssa variables themselves: use one of them to track the location
+    // of the environment for exception handlers.
+    const auto env_symbol = captured.front();
+    write_variable(env_symbol, env_inst, bb.id());
+    bb.define_new(Value::make_publish_assign(env_symbol, env_inst));
+
+    local_env_stack_.push_back({env, parent_scope_id, env_symbol});
     local_env_locations_[env] = env_inst;
 }
 
@@ -714,7 +736,7 @@ std::optional<LValue> FunctionIRGen::find_lvalue(SymbolId symbol_id) {
         return LValue::make_module(member);
     }
     if (const auto& symbol = symbols()[symbol_id]; symbol.captured()) {
-        auto pos = envs_->read_location(symbol_id);
+        auto pos = envs_->read_location(symbol_id, current_env());
         TIRO_DEBUG_ASSERT(pos, "Captured symbol without a defined location used as lvalue.");
         return get_captured_lvalue(*pos);
     }
diff --git a/src/compiler/ir_gen/func.hpp b/src/compiler/ir_gen/func.hpp
index c45a9a3..5fe6eef 100644
--- a/src/compiler/ir_gen/func.hpp
+++ b/src/compiler/ir_gen/func.hpp
@@ -108,6 +108,9 @@ private:
 struct EnvContext {
     ClosureEnvId env;
     ScopeId starter;
+
+    /// A symbol captured by this environment. Represents the environment itself in the ssa variable mapping.
+    SymbolId symbol;
 };
 
 /// Compilation options for expressions.
@@ -226,6 +229,10 @@ public:
     /// Creates a new handler block.
     BlockId make_handler_block(InternedString label);
 
+    /// Compiles the content of a handler block. The instructions of the function's body are not visible
+    /// in a handler, i.e. the active closure environments must be looked up again.
+    void compile_handler(BlockId handler_id, FunctionRef<void(CurrentBlock& bb)> compile_body);
+
 private:
     void enter_compilation(FunctionRef<void(CurrentBlock& bb)> compile_body);
 
-- 
2.43.0


From d39da28b43036cea9d77c76b593928419d486fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 14/51] fix: execute deferred expressions of enclosing scopes
 after conditional early exits

Leaving a scope early (return, break, continue) reset the active exception handler
for the code that follows, ran deferred expressions of inner scopes again if an outer one
left the scopes on its own and resolved loops in deferred expressions from the wrong place.
---
 src/compiler/ir_gen/compile_expr.cpp |  6 +++++
 src/compiler/ir_gen/func.cpp         | 33 ++++++++++++++++++++++++++--
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index ddce6ce..52bec85 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -1,6 +1,7 @@
 #include "compiler/ir_gen/compile.hpp"
 
 #include "common/fix.hpp"
+#include "common/scope_guards.hpp"
 #include "compiler/ast/ast.hpp"
 #include "compiler/ir/function.hpp"
 #include "compiler/ir_gen/func.hpp"
@@ -426,6 +427,11 @@ InstResult ExprCompiler::visit_block_expr(NotNull<AstBlockExpr*> expr, CurrentBl
     auto scope = ctx().enter_scope();
     auto scope_id = ctx().current_scope_id(); // TODO Awkward api
 
+    // Defer statements in this block replace the handler, it must be restored on all paths.
+    ScopeExit restore_handler = [&, handler = ctx().current_handler()] {
+        ctx().current_handler(handler);
+    };
+
     auto& stmts = expr->stmts();
 
     bool has_value = can_use_as_value(get_type(expr));
diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index 9636dc2..a8cfec5 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -12,6 +12,9 @@
 #include "compiler/semantics/symbol_table.hpp"
 #include "compiler/semantics/type_table.hpp"
 
+#include <utility>
+#include <vector>
+
 #include "absl/container/inlined_vector.h"
 
 namespace tiro::ir {
@@ -366,8 +369,18 @@ OkResult FunctionIRGen::compile_scope_exit(RegionId scope_id, CurrentBlock& bb)
         original_handler = scope.original_handler;
         TIRO_DEBUG_ASSERT(initial_processed <= deferred_count, "Processed count must be <= size.");
     }
-    ScopeSuccess restore_processed = [&] { get_scope().processed = initial_processed; };
-    ScopeSuccess restore_handler = [&] { current_handler(original_handler); };
+    ScopeExit restore_handler = [&] { current_handler(original_handler); };
+
+    // Break or continue expressions within deferred expressions refer to the loop that surrounds
+    // the scope, and not to the loop that contains the expression that leaves the scope.
+    ScopeExit restore_loop = [&, old_loop = current_loop_] { current_loop_ = old_loop; };
+    current_loop_ = RegionId();
+    for (size_t i = scope_id.value(); i-- > 0;) {
+        if (active_regions_[RegionId(i)].type() == RegionType::Loop) {
+            current_loop_ = RegionId(i);
+            break;
+        }
+    }
 
     for (u32 i = deferred_count - initial_processed; i-- > 0;) {
         AstExpr* expr = nullptr;
@@ -399,6 +412,22 @@ OkResult FunctionIRGen::compile_scope_exit_until(RegionId target, CurrentBlock&
 
     // inclusive index:
     const size_t until = target ? target.value() + 1 : 0;
+
+    // The scopes are only left on the path that is being compiled here. Code that follows the
+    // expression that leaves the scopes is still protected by the current handler and must execute
+    // the deferred expressions on its own.
+    std::vector<std::pair<RegionId, u32>> initial_processed;
+    for (size_t i = until; i < active_regions_.size(); ++i) {
+        const auto& region = active_regions_[RegionId(i)];
+        if (region.type() == RegionType::Scope)
+            initial_processed.emplace_back(RegionId(i), region.as_scope().processed);
+    }
+    ScopeExit restore_state = [&, handler = current_handler()] {
+        for (const auto& [scope_id, processed] : initial_processed)
+            active_regions_[scope_id].as_scope().processed = processed;
+        current_handler(handler);
+    };
+
     for (size_t i = active_regions_.size(); i-- > until;) {
         auto key = RegionId(i);
 
-- 
2.43.0


From f6b11b8b03fb995b62ee0636d5344853c683787d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:26 +0000
Subject: [PATCH 15/51] fix: use the environment of the scope for closures in
 deferred expressions

---
 src/compiler/ir_gen/func.cpp    | 12 +++++++++++-
 src/compiler/ir_gen/support.cpp |  5 +++--
 src/compiler/ir_gen/support.hpp |  9 +++++++--
 support/codegen/ir_gen.py       |  5 +++++
 4 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/compiler/ir_gen/func.cpp b/src/compiler/ir_gen/func.cpp
index a8cfec5..e0607b1 100644
--- a/src/compiler/ir_gen/func.cpp
+++ b/src/compiler/ir_gen/func.cpp
@@ -146,7 +146,8 @@ FunctionIRGen::RegionGuard FunctionIRGen::enter_loop(BlockId jump_break, BlockId
 }
 
 FunctionIRGen::RegionGuard FunctionIRGen::enter_scope() {
-    auto id = active_regions_.push_back(Region::make_scope(current_handler(), 0, {}));
+    const u32 env_depth = checked_cast<u32>(local_env_stack_.size());
+    auto id = active_regions_.push_back(Region::make_scope(current_handler(), env_depth, 0, {}));
     return RegionGuard(this, id, current_scope_);
 }
 
@@ -371,6 +372,15 @@ OkResult FunctionIRGen::compile_scope_exit(RegionId scope_id, CurrentBlock& bb)
     }
     ScopeExit restore_handler = [&] { current_handler(original_handler); };
 
+    // Closures in deferred expressions use the environment of the scope. Environments that were
+    // opened by nested scopes are not visible to them.
+    std::vector<EnvContext> nested_envs(
+        local_env_stack_.begin() + get_scope().env_depth, local_env_stack_.end());
+    local_env_stack_.resize(get_scope().env_depth);
+    ScopeExit restore_envs = [&] {
+        local_env_stack_.insert(local_env_stack_.end(), nested_envs.begin(), nested_envs.end());
+    };
+
     // Break or continue expressions within deferred expressions refer to the loop that surrounds
     // the scope, and not to the loop that contains the expression that leaves the scope.
     ScopeExit restore_loop = [&, old_loop = current_loop_] { current_loop_ = old_loop; };
diff --git a/src/compiler/ir_gen/support.cpp b/src/compiler/ir_gen/support.cpp
index a30e390..afa2832 100644
--- a/src/compiler/ir_gen/support.cpp
+++ b/src/compiler/ir_gen/support.cpp
@@ -279,9 +279,10 @@ Region Region::make_loop(const BlockId& jump_break, const BlockId& jump_continue
     return {Loop{jump_break, jump_continue}};
 }
 
-Region Region::make_scope(const BlockId& original_handler, const u32& processed,
+Region Region::make_scope(const BlockId& original_handler, const u32& env_depth,
+    const u32& processed,
     absl::InlinedVector<std::pair<NotNull<AstExpr*>, BlockId>, 3> deferred) {
-    return {Scope{original_handler, processed, std::move(deferred)}};
+    return {Scope{original_handler, env_depth, processed, std::move(deferred)}};
 }
 
 Region::Region(Loop loop)
diff --git a/src/compiler/ir_gen/support.hpp b/src/compiler/ir_gen/support.hpp
index 1d6f473..4845941 100644
--- a/src/compiler/ir_gen/support.hpp
+++ b/src/compiler/ir_gen/support.hpp
@@ -250,6 +250,9 @@ public:
         /// The original exception handler when this scope was entered.
         BlockId original_handler;
 
+        /// The number of local closure environments when this scope was entered.
+        u32 env_depth;
+
         /// Signals already completed deferred executions to recursive scope exit invocations.
         /// This is important when nested control flow instructions are encountered while
         /// evaluating deferred statements.
@@ -259,15 +262,17 @@ public:
         /// scope exit, e.g. return or break.
         absl::InlinedVector<std::pair<NotNull<AstExpr*>, BlockId>, 3> deferred;
 
-        Scope(const BlockId& original_handler_, const u32& processed_,
+        Scope(const BlockId& original_handler_, const u32& env_depth_, const u32& processed_,
             absl::InlinedVector<std::pair<NotNull<AstExpr*>, BlockId>, 3> deferred_)
             : original_handler(original_handler_)
+            , env_depth(env_depth_)
             , processed(processed_)
             , deferred(std::move(deferred_)) {}
     };
 
     static Region make_loop(const BlockId& jump_break, const BlockId& jump_continue);
-    static Region make_scope(const BlockId& original_handler, const u32& processed,
+    static Region make_scope(const BlockId& original_handler, const u32& env_depth,
+        const u32& processed,
         absl::InlinedVector<std::pair<NotNull<AstExpr*>, BlockId>, 3> deferred);
 
     Region(Loop loop);
diff --git a/support/codegen/ir_gen.py b/support/codegen/ir_gen.py
index 114ba43..9936e22 100644
--- a/support/codegen/ir_gen.py
+++ b/support/codegen/ir_gen.py
@@ -100,6 +100,11 @@ Region = (
                         "BlockId",
                         doc="The original exception handler when this scope was entered.",
                     ),
+                    Field(
+                        "env_depth",
+                        "u32",
+                        doc="The number of local closure environments when this scope was entered.",
+                    ),
                     Field(
                         "processed",
                         "u32",
-- 
2.43.0


From dca3e662b7229ce01cd099f4eb239952911248eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:26 +0000
Subject: [PATCH 16/51] fix: compile functions at module level without a
 closure environment

---
 src/compiler/ir_gen/compile_expr.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index 52bec85..d0a01d6 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -521,7 +521,12 @@ InstResult ExprCompiler::visit_error_expr(NotNull<AstErrorExpr*>, CurrentBlock&)
 InstResult ExprCompiler::visit_func_expr(NotNull<AstFuncExpr*> expr, CurrentBlock& bb) {
     auto decl = TIRO_NN(expr->decl());
     auto envs = ctx().envs();
-    auto env = ctx().current_env();
+
+    // Functions at module level are compiled without an environment because they cannot capture any
+    // variables, even if they are used within the module's initializer.
+    ClosureEnvId env;
+    if (!ctx().module_gen().is_static(symbols().get_decl(decl->id())))
+        env = ctx().current_env();
 
     ModuleMemberId func_id = ctx().module_gen().add_function(decl, envs, env);
     InstId func_inst;
-- 
2.43.0


From 0c969d24f2455b73167063aa768b88169706cff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:15 +0000
Subject: [PATCH 17/51] fix: determine the register size of mutually recursive
 phi functions

---
 src/compiler/bytecode_gen/alloc_registers.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/compiler/bytecode_gen/alloc_registers.cpp b/src/compiler/bytecode_gen/alloc_registers.cpp
index 8a9dea7..28afa16 100644
--- a/src/compiler/bytecode_gen/alloc_registers.cpp
+++ b/src/compiler/bytecode_gen/alloc_registers.cpp
@@ -11,6 +11,7 @@
 #include "absl/container/flat_hash_map.h"
 
 #include <algorithm>
+#include <vector>
 
 namespace tiro {
 
@@ -126,6 +127,9 @@ private:
     // recursive call (0 is never a valid value in this map).
     absl::flat_hash_map<InstId, u32, UseHasher> phi_sizes_;
 
+    // Phi functions without a size that were visited by the current call to allocated_size().
+    std::vector<InstId> unresolved_phis_;
+
     // Implements parallel copy -> sequential copy algorithm.
     ParallelCopyAlgorithm parallel_copies_;
 };
@@ -436,6 +440,11 @@ void RegisterAllocator::deallocate_register(BytecodeRegister reg, RegisterContex
 u32 RegisterAllocator::allocated_size(InstId inst_id) {
     auto size = allocated_size_recursive(inst_id);
     TIRO_CHECK(size, "Register size of instruction could not be computed.");
+
+    // All phi functions that reference each other have the same size.
+    for (const auto& phi_id : unresolved_phis_)
+        phi_sizes_[phi_id] = *size;
+    unresolved_phis_.clear();
     return *size;
 }
 
@@ -483,7 +492,13 @@ std::optional<u32> RegisterAllocator::allocated_size_recursive(InstId inst_id) {
             }
         }
 
-        TIRO_DEBUG_ASSERT(resolved, "Register size of phi function could not be resolved.");
+        // All operands may be part of the recursive call. The size is determined by
+        // the remaining operands of the other phi functions in that case.
+        if (!resolved) {
+            unresolved_phis_.push_back(inst_id);
+            return {};
+        }
+
         phi_sizes_[inst_id] = *resolved;
         return *resolved;
     }
-- 
2.43.0


From 43e5e648025addfea59cfdfc224269ae508c5899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 18/51] fix: relational operators on NaN are never true

---
 src/compiler/ir_gen/const_eval.cpp | 17 ++++++++++++-----
 src/vm/interpreter.cpp             |  8 ++++----
 src/vm/math.cpp                    | 29 ++++++++++++++++++-----------
 src/vm/math.hpp                    |  5 ++++-
 4 files changed, 38 insertions(+), 21 deletions(-)

diff --git a/src/compiler/ir_gen/const_eval.cpp b/src/compiler/ir_gen/const_eval.cpp
index 520bcd8..8fd84a4 100644
--- a/src/compiler/ir_gen/const_eval.cpp
+++ b/src/compiler/ir_gen/const_eval.cpp
@@ -4,6 +4,7 @@
 
 #include <cmath>
 #include <limits>
+#include <optional>
 
 namespace tiro::ir {
 
@@ -316,25 +317,31 @@ static EvalResult numeric_compare(const Constant& lhs, const Constant& rhs, Test
 
     // Apply normal int / float promotion rules.
     auto op = [&](auto a, auto b) -> EvalResult {
-        return make_bool(test(a < b ? -1 : (a > b ? 1 : 0)));
+        if (a < b)
+            return make_bool(test(-1));
+        if (a > b)
+            return make_bool(test(1));
+        if (a == b)
+            return make_bool(test(0));
+        return make_bool(test(std::nullopt)); // NaN
     };
     return numeric_op(lhs, rhs, op, op);
 }
 
 static EvalResult eval_less(const Constant& lhs, const Constant& rhs) {
-    return numeric_compare(lhs, rhs, [](int cmp) { return cmp < 0; });
+    return numeric_compare(lhs, rhs, [](std::optional<int> cmp) { return cmp && *cmp < 0; });
 }
 
 static EvalResult eval_less_equals(const Constant& lhs, const Constant& rhs) {
-    return numeric_compare(lhs, rhs, [](int cmp) { return cmp <= 0; });
+    return numeric_compare(lhs, rhs, [](std::optional<int> cmp) { return cmp && *cmp <= 0; });
 }
 
 static EvalResult eval_greater(const Constant& lhs, const Constant& rhs) {
-    return numeric_compare(lhs, rhs, [](int cmp) { return cmp > 0; });
+    return numeric_compare(lhs, rhs, [](std::optional<int> cmp) { return cmp && *cmp > 0; });
 }
 
 static EvalResult eval_greater_equals(const Constant& lhs, const Constant& rhs) {
-    return numeric_compare(lhs, rhs, [](int cmp) { return cmp >= 0; });
+    return numeric_compare(lhs, rhs, [](std::optional<int> cmp) { return cmp && *cmp >= 0; });
 }
 
 static EvalResult eval_plus(const Constant& value) {
diff --git a/src/vm/interpreter.cpp b/src/vm/interpreter.cpp
index 676a9d9..3a5729f 100644
--- a/src/vm/interpreter.cpp
+++ b/src/vm/interpreter.cpp
@@ -484,16 +484,16 @@ void BytecodeInterpreter::run() {
             TIRO_UNOP(bitwise_not);
             break;
         case BytecodeOp::Gt:
-            TIRO_CMP((cmp > 0));
+            TIRO_CMP((cmp && *cmp > 0));
             break;
         case BytecodeOp::Gte:
-            TIRO_CMP((cmp >= 0));
+            TIRO_CMP((cmp && *cmp >= 0));
             break;
         case BytecodeOp::Lt:
-            TIRO_CMP((cmp < 0));
+            TIRO_CMP((cmp && *cmp < 0));
             break;
         case BytecodeOp::Lte:
-            TIRO_CMP((cmp <= 0));
+            TIRO_CMP((cmp && *cmp <= 0));
             break;
         case BytecodeOp::Eq: {
             auto lhs = read_local();
diff --git a/src/vm/math.cpp b/src/vm/math.cpp
index 9cf82fd..3739d19 100644
--- a/src/vm/math.cpp
+++ b/src/vm/math.cpp
@@ -216,30 +216,37 @@ static void unwrap_number(Value v, Callback&& cb) {
     }
 };
 
-Fallible<int> compare(Context& ctx, Handle<Value> a, Handle<Value> b) {
+Fallible<std::optional<int>> compare(Context& ctx, Handle<Value> a, Handle<Value> b) {
     if (a->is_null()) {
         if (b->is_null())
-            return 0;
-        return -1;
+            return std::optional(0);
+        return std::optional(-1);
     }
     if (b->is_null())
-        return 1;
+        return std::optional(1);
 
-    auto cmp = [](auto lhs, auto rhs) {
+    auto cmp = [](auto lhs, auto rhs) -> std::optional<int> {
         if (lhs > rhs)
             return 1;
         if (lhs < rhs)
             return -1;
-        return 0;
+        if (lhs == rhs)
+            return 0;
+        return {}; // NaN
     };
 
+    bool is_number = false;
     std::optional<int> result;
-    unwrap_number(
-        *a, [&](auto lhs) { unwrap_number(*b, [&](auto rhs) { result = cmp(lhs, rhs); }); });
-
-    if (TIRO_UNLIKELY(!result))
+    unwrap_number(*a, [&](auto lhs) {
+        unwrap_number(*b, [&](auto rhs) {
+            is_number = true;
+            result = cmp(lhs, rhs);
+        });
+    });
+
+    if (TIRO_UNLIKELY(!is_number))
         return comparison_not_defined_exception(ctx, a, b);
-    return *result;
+    return result;
 }
 
 } // namespace tiro::vm
diff --git a/src/vm/math.hpp b/src/vm/math.hpp
index 0b87caf..fd19755 100644
--- a/src/vm/math.hpp
+++ b/src/vm/math.hpp
@@ -4,6 +4,8 @@
 #include "common/defs.hpp"
 #include "vm/fwd.hpp"
 
+#include <optional>
+
 namespace tiro::vm {
 
 // Implements the binary arithmetic operations.
@@ -25,7 +27,8 @@ Fallible<Integer> bitwise_not(Context& ctx, Handle<Value> v);
 //  - < 0 iff a < b
 //  - = 0 iff a == b
 //  - > 0 iff a > b
-Fallible<int> compare(Context& ctx, Handle<Value> a, Handle<Value> b);
+//  - an empty optional if a and b are not ordered (i.e. at least one of them is NaN)
+Fallible<std::optional<int>> compare(Context& ctx, Handle<Value> a, Handle<Value> b);
 
 } // namespace tiro::vm
 
-- 
2.43.0


From 8171ead9002603f196ba73bf120d8e31e334f9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:25 +0000
Subject: [PATCH 19/51] fix: do not reuse positive zero constants for negative
 zeros

---
 src/compiler/ir_gen/compile_value.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/compiler/ir_gen/compile_value.cpp b/src/compiler/ir_gen/compile_value.cpp
index 69b41fc..749feaa 100644
--- a/src/compiler/ir_gen/compile_value.cpp
+++ b/src/compiler/ir_gen/compile_value.cpp
@@ -6,6 +6,7 @@
 
 #include "absl/container/inlined_vector.h"
 
+#include <cmath>
 #include <optional>
 #include <utility>
 
@@ -158,6 +159,13 @@ InstId ValueCompiler::visit_observe_assign(const Value::ObserveAssign& obs) {
 }
 
 InstId ValueCompiler::visit_constant(const Constant& constant) {
+    // Positive and negative zero are equal but must not replace each other.
+    if (constant.type() == ConstantType::Float) {
+        const f64 value = constant.as_float().value;
+        if (value == 0 && std::signbit(value))
+            return define_new(constant);
+    }
+
     const auto key = ComputedValue::make_constant(constant);
     return memoize_value(key, [&]() { return define_new(constant); });
 }
-- 
2.43.0


From f70983843e7c43449763d83b398fd7466c27a676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:35 +0000
Subject: [PATCH 20/51] fix: find all assignments that are visible to exception
 handlers

Intermediate results were memoized while control flow cycles were being traversed, which could
drop assignments depending on the iteration order of hash tables.
---
 .../ir_passes/assignment_observers.cpp        | 194 +++++++-----------
 1 file changed, 74 insertions(+), 120 deletions(-)

diff --git a/src/compiler/ir_passes/assignment_observers.cpp b/src/compiler/ir_passes/assignment_observers.cpp
index 4967ec1..14b367a 100644
--- a/src/compiler/ir_passes/assignment_observers.cpp
+++ b/src/compiler/ir_passes/assignment_observers.cpp
@@ -11,9 +11,21 @@ namespace tiro::ir {
 
 namespace {
 
-using ValueSet = absl::flat_hash_set<InstId, UseHasher>;
+// Set of assignments, in the order in which they were found.
+class ValueSet {
+public:
+    void insert(InstId inst_id) {
+        if (seen_.insert(inst_id).second)
+            values_.push_back(inst_id);
+    }
+
+    auto begin() const { return values_.begin(); }
+    auto end() const { return values_.end(); }
 
-using ValueList = absl::InlinedVector<InstId, 3>;
+private:
+    absl::InlinedVector<InstId, 8> values_;
+    absl::flat_hash_set<InstId, UseHasher> seen_;
+};
 
 class Pass {
 public:
@@ -31,16 +43,8 @@ private:
     // in the exception handler's observe_assign instructions.
     void link_instructions();
 
-    // Gathers all assignments for that block + symbol combination.
-    void fill_operand_set(ValueSet& operands, BlockId block_id, SymbolId symbol_id);
-
-    // Gathers the value(s) of the given symbol at the start of the block.
-    // CAREFUL: in_values must not modified, pointer references unstable hash map memory.
-    ValueList* in_values(BlockId block_id, SymbolId symbol_id);
-
-    // Gathers the value(s) of the given symbol at the end of the block.
-    // CAREFUL: out_values must not modified, pointer references unstable hash map memory.
-    ValueList* out_values(BlockId block_id, SymbolId symbol_id);
+    // Gathers all assignments of the given symbol that may be visible to the handler block.
+    void fill_operand_set(ValueSet& operands, BlockId handler_id, SymbolId symbol_id);
 
 private:
     Function& func_;
@@ -48,11 +52,8 @@ private:
     // Maps from handler blocks to source blocks that use that handler.
     absl::flat_hash_map<BlockId, std::vector<BlockId>, UseHasher> reverse_handlers_;
 
-    // Memoized values for the symbol's value at the start of a block.
-    absl::flat_hash_map<std::tuple<BlockId, SymbolId>, ValueList, UseHasher> in_values_;
-
-    // Memoized values for the symbol's value at the end of a block.
-    absl::flat_hash_map<std::tuple<BlockId, SymbolId>, ValueList, UseHasher> out_values_;
+    // All blocks that are used as handlers, in the order in which they were found.
+    std::vector<BlockId> handlers_;
 };
 
 } // namespace
@@ -69,15 +70,16 @@ bool Pass::analyze_cfg() {
         const auto& block = func_[block_id];
         auto handler_id = block.handler();
         if (handler_id) {
-            reverse_handlers_[handler_id].push_back(block_id);
+            auto& sources = reverse_handlers_[handler_id];
+            if (sources.empty())
+                handlers_.push_back(handler_id);
+            sources.push_back(block_id);
         }
     }
     return !reverse_handlers_.empty();
 }
 
 void Pass::link_instructions() {
-    ValueSet operand_set;
-
     // Walk every exception handler block and construct the operand sets for all observe_assign instructions.
     // This is done by walking the reverse edges to the source blocks (which use the block as a handler) and
     // inspecting the current value(s) for a certain symbol - very similar to the classical phi node analysis.
@@ -87,7 +89,7 @@ void Pass::link_instructions() {
     // All publish_assign instructions that stay completely unreferenced by any observe_assign
     // instructions (these should be the vast majority in normal code) will be optimized out by the dead
     // code elimination pass.
-    for (const auto& [handler_id, source_ids] : reverse_handlers_) {
+    for (const auto& handler_id : handlers_) {
         auto handler = func_.ptr_to(handler_id);
         for (auto inst_id : handler->insts()) {
             auto inst = func_.ptr_to(inst_id);
@@ -100,12 +102,8 @@ void Pass::link_instructions() {
                 "Operands must not have been assigned to this ObserveAssign instruction yet.");
 
             // Construct operand set
-            operand_set.clear();
-            for (auto source_id : source_ids) {
-                TIRO_DEBUG_ASSERT(
-                    func_[source_id].handler() == handler_id, "Inconsistent block handler.");
-                fill_operand_set(operand_set, source_id, obs.symbol);
-            }
+            ValueSet operand_set;
+            fill_operand_set(operand_set, handler_id, obs.symbol);
 
 #if TIRO_DEBUG
             for (const auto op_inst_id : operand_set) {
@@ -123,108 +121,64 @@ void Pass::link_instructions() {
     }
 }
 
-void Pass::fill_operand_set(ValueSet& operands, BlockId block_id, SymbolId symbol_id) {
-    TIRO_DEBUG_ASSERT(block_id != func_.entry(), "Must not visit the entry block.");
-
-    // Ensure initial value is available to the exception handler.
-    {
-        ValueList* pred_values = in_values(block_id, symbol_id);
-        operands.insert(pred_values->begin(), pred_values->end());
-    }
-
-    // Simulate assignments in this block.
-    const auto& block = func_[block_id];
-    for (auto inst_id : block.insts()) {
-        const auto& inst = func_[inst_id];
-        switch (inst.value().type()) {
-        case ValueType::PublishAssign: {
-            auto& assign = inst.value().as_publish_assign();
-            if (assign.symbol == symbol_id)
-                operands.insert(inst_id);
-            break;
-        }
-        default:
-            break;
-        }
-    }
-}
-
-ValueList* Pass::in_values(BlockId block_id, SymbolId symbol_id) {
-    if (auto it = in_values_.find({block_id, symbol_id}); it != in_values_.end()) {
-        return &it->second;
-    }
-
-    auto write = [&](ValueList set) -> ValueList* {
-        return &(in_values_[{block_id, symbol_id}] = std::move(set));
+void Pass::fill_operand_set(ValueSet& operands, BlockId handler_id, SymbolId symbol_id) {
+    // Blocks whose initial values are required. The control flow graph may contain cycles, every
+    // block is visited at most once.
+    absl::flat_hash_set<BlockId, UseHasher> seen;
+    std::vector<BlockId> stack;
+    auto visit_in_values = [&](BlockId block_id) {
+        if (seen.insert(block_id).second)
+            stack.push_back(block_id);
     };
 
-    auto block = func_.ptr_to(block_id);
-
-    // Must also take handler edges into account here.
-    if (block->is_handler()) {
-        const auto reverse_it = reverse_handlers_.find(block_id);
-        TIRO_DEBUG_ASSERT(reverse_it != reverse_handlers_.end(),
-            "There must be reverse edges for every handler block.");
-
-        const auto& handler_preds = reverse_it->second;
-        if (handler_preds.empty())
-            return write({});
-        if (handler_preds.size() == 1)
-            return write(*out_values(handler_preds[0], symbol_id));
-
-        ValueSet set;
-        write({}); // Place a sentinel to stop recursion in control flow loops.
-        for (const auto pred_id : reverse_it->second) {
-            ValueList* pred_values = out_values(pred_id, symbol_id);
-            set.insert(pred_values->begin(), pred_values->end());
-        }
-        return write(ValueList(set.begin(), set.end()));
-    }
+    auto is_assignment = [&](InstId inst_id) {
+        const auto& value = func_[inst_id].value();
+        return value.type() == ValueType::PublishAssign
+               && value.as_publish_assign().symbol == symbol_id;
+    };
 
-    // Not a handler, inspect normal predecessors.
-    const auto pred_count = block->predecessor_count();
-    if (pred_count == 0)
-        return write({});
-    if (pred_count == 1)
-        return write(*out_values(block->predecessor(0), symbol_id));
-
-    ValueSet set;
-    write({}); // Place a sentinel to stop recursion in control flow loops.
-    for (const auto pred_id : block->predecessors()) {
-        ValueList* pred_values = out_values(pred_id, symbol_id);
-        set.insert(pred_values->begin(), pred_values->end());
-    }
-    return write(ValueList(set.begin(), set.end()));
-}
+    visit_in_values(handler_id);
+    while (!stack.empty()) {
+        const auto block_id = stack.back();
+        stack.pop_back();
 
-ValueList* Pass::out_values(BlockId block_id, SymbolId symbol_id) {
-    if (auto it = out_values_.find({block_id, symbol_id}); it != out_values_.end()) {
-        return &it->second;
-    }
+        const auto& block = func_[block_id];
 
-    auto write = [&](ValueList set) -> ValueList* {
-        return &(out_values_[{block_id, symbol_id}] = std::move(set));
-    };
+        // Exceptions may be thrown at any point in a block: all assignments (and the initial
+        // value) of the source blocks can be observed by the handler.
+        if (block.is_handler()) {
+            const auto reverse_it = reverse_handlers_.find(block_id);
+            if (reverse_it == reverse_handlers_.end())
+                continue;
 
-    auto block = func_.ptr_to(block_id);
-
-    // Simulate assignments to the symbol.
-    for (const auto& inst_id : reverse_view(block->insts())) {
-        const auto& inst = func_[inst_id];
-        switch (inst.value().type()) {
-        case ValueType::PublishAssign: {
-            const auto& assign = inst.value().as_publish_assign();
-            if (assign.symbol == symbol_id)
-                return write({inst_id});
-            break;
+            for (const auto source_id : reverse_it->second) {
+                TIRO_DEBUG_ASSERT(
+                    func_[source_id].handler() == block_id, "Inconsistent block handler.");
+                TIRO_DEBUG_ASSERT(source_id != func_.entry(), "Must not visit the entry block.");
+
+                for (const auto inst_id : func_[source_id].insts()) {
+                    if (is_assignment(inst_id))
+                        operands.insert(inst_id);
+                }
+                visit_in_values(source_id);
+            }
+            continue;
         }
-        default:
-            break;
+
+        // Not a handler, inspect the last assignments in normal predecessors.
+        for (const auto pred_id : block.predecessors()) {
+            bool found = false;
+            for (const auto inst_id : reverse_view(func_[pred_id].insts())) {
+                if (is_assignment(inst_id)) {
+                    operands.insert(inst_id);
+                    found = true;
+                    break;
+                }
+            }
+            if (!found)
+                visit_in_values(pred_id);
         }
     }
-
-    // No assignment found in this block, lookup in the predecessors.
-    return write(*in_values(block_id, symbol_id));
 }
 
 void connect_assignment_observers(Function& func) {
-- 
2.43.0


From 32049078cd94df0c6e2161001b48e24b8f16a4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:16 +0000
Subject: [PATCH 21/51] fix: panic instead of failing when a method is called
 with a wrong instance

---
 src/vm/objects/array.cpp      |  6 +++---
 src/vm/objects/buffer.cpp     |  3 ++-
 src/vm/objects/class.cpp      |  3 ++-
 src/vm/objects/coroutine.cpp  |  9 +++++----
 src/vm/objects/exception.cpp  |  4 ++--
 src/vm/objects/hash_table.cpp | 12 ++++++------
 src/vm/objects/native.hpp     |  4 ++--
 src/vm/objects/result.cpp     | 11 ++++++-----
 src/vm/objects/set.cpp        | 10 +++++-----
 src/vm/objects/string.cpp     | 34 +++++++++++++++++-----------------
 src/vm/objects/tuple.cpp      |  3 ++-
 11 files changed, 52 insertions(+), 47 deletions(-)

diff --git a/src/vm/objects/array.cpp b/src/vm/objects/array.cpp
index 9c1f21f..3f71341 100644
--- a/src/vm/objects/array.cpp
+++ b/src/vm/objects/array.cpp
@@ -153,18 +153,18 @@ std::optional<Value> ArrayIterator::next() {
 }
 
 static void array_size_impl(SyncFrameContext& frame) {
-    auto array = check_instance<Array>(frame);
+    TIRO_FRAME_TRY(array, check_instance<Array>(frame));
     frame.return_value(frame.ctx().get_integer(static_cast<i64>(array->size())));
 }
 
 static void array_append_impl(SyncFrameContext& frame) {
-    auto array = check_instance<Array>(frame);
+    TIRO_FRAME_TRY(array, check_instance<Array>(frame));
     auto value = frame.arg(1);
     TIRO_FRAME_TRY_VOID(array->append(frame.ctx(), value));
 }
 
 static void array_clear_impl(SyncFrameContext& frame) {
-    auto array = check_instance<Array>(frame);
+    TIRO_FRAME_TRY(array, check_instance<Array>(frame));
     array->clear();
 }
 
diff --git a/src/vm/objects/buffer.cpp b/src/vm/objects/buffer.cpp
index d93c0b2..305bc25 100644
--- a/src/vm/objects/buffer.cpp
+++ b/src/vm/objects/buffer.cpp
@@ -1,6 +1,7 @@
 #include "vm/objects/buffer.hpp"
 
 #include "vm/context.hpp"
+#include "vm/error_utils.hpp"
 #include "vm/math.hpp"
 #include "vm/object_support/factory.hpp"
 #include "vm/object_support/type_desc.hpp"
@@ -56,7 +57,7 @@ Buffer Buffer::make_impl(Context& ctx, size_t total_size, Init&& init) {
 }
 
 static void buffer_size_impl(SyncFrameContext& frame) {
-    auto buffer = check_instance<Buffer>(frame);
+    TIRO_FRAME_TRY(buffer, check_instance<Buffer>(frame));
     i64 size = static_cast<i64>(buffer->size());
     frame.return_value(frame.ctx().get_integer(size));
 }
diff --git a/src/vm/objects/class.cpp b/src/vm/objects/class.cpp
index 90aefd5..8f18d8b 100644
--- a/src/vm/objects/class.cpp
+++ b/src/vm/objects/class.cpp
@@ -1,6 +1,7 @@
 #include "vm/objects/class.hpp"
 
 #include "vm/context.hpp"
+#include "vm/error_utils.hpp"
 #include "vm/handles/scope.hpp"
 #include "vm/math.hpp"
 #include "vm/object_support/factory.hpp"
@@ -67,7 +68,7 @@ std::optional<Value> Type::find_member(Handle<Symbol> name) {
 }
 
 static void class_name_impl(SyncFrameContext& frame) {
-    auto type = check_instance<Type>(frame);
+    TIRO_FRAME_TRY(type, check_instance<Type>(frame));
     frame.return_value(type->name());
 }
 
diff --git a/src/vm/objects/coroutine.cpp b/src/vm/objects/coroutine.cpp
index 9cb66de..53e65d3 100644
--- a/src/vm/objects/coroutine.cpp
+++ b/src/vm/objects/coroutine.cpp
@@ -1,6 +1,7 @@
 #include "vm/objects/coroutine.hpp"
 
 #include "vm/context.hpp"
+#include "vm/error_utils.hpp"
 #include "vm/object_support/factory.hpp"
 #include "vm/object_support/type_desc.hpp"
 #include "vm/objects/result.hpp"
@@ -164,7 +165,7 @@ bool CoroutineToken::resume(Context& ctx, Handle<CoroutineToken> token) {
 }
 
 static void coroutine_name_impl(SyncFrameContext& frame) {
-    auto coroutine = check_instance<Coroutine>(frame);
+    TIRO_FRAME_TRY(coroutine, check_instance<Coroutine>(frame));
     frame.return_value(coroutine->name());
 }
 
@@ -175,17 +176,17 @@ static const FunctionDesc coroutine_methods[] = {
 const TypeDesc coroutine_type_desc{"Coroutine"sv, coroutine_methods};
 
 static void coroutine_token_coroutine_impl(SyncFrameContext& frame) {
-    auto token = check_instance<CoroutineToken>(frame);
+    TIRO_FRAME_TRY(token, check_instance<CoroutineToken>(frame));
     frame.return_value(token->coroutine());
 }
 
 static void coroutine_token_valid_impl(SyncFrameContext& frame) {
-    auto token = check_instance<CoroutineToken>(frame);
+    TIRO_FRAME_TRY(token, check_instance<CoroutineToken>(frame));
     frame.return_value(frame.ctx().get_boolean(token->valid()));
 }
 
 static void coroutine_token_resume_impl(SyncFrameContext& frame) {
-    auto token = check_instance<CoroutineToken>(frame);
+    TIRO_FRAME_TRY(token, check_instance<CoroutineToken>(frame));
     bool success = CoroutineToken::resume(frame.ctx(), token);
     frame.return_value(frame.ctx().get_boolean(success));
 }
diff --git a/src/vm/objects/exception.cpp b/src/vm/objects/exception.cpp
index ffaa399..3a46647 100644
--- a/src/vm/objects/exception.cpp
+++ b/src/vm/objects/exception.cpp
@@ -99,12 +99,12 @@ Exception vformat_exception_impl(Context& ctx, std::string_view format, fmt::for
 }
 
 static void exception_message_impl(SyncFrameContext& frame) {
-    auto ex = check_instance<Exception>(frame);
+    TIRO_FRAME_TRY(ex, check_instance<Exception>(frame));
     frame.return_value(ex->message());
 }
 
 static void exception_trace_impl(SyncFrameContext& frame) {
-    auto ex = check_instance<Exception>(frame);
+    TIRO_FRAME_TRY(ex, check_instance<Exception>(frame));
     frame.return_value(ex->trace());
 }
 
diff --git a/src/vm/objects/hash_table.cpp b/src/vm/objects/hash_table.cpp
index 25da8e6..061f898 100644
--- a/src/vm/objects/hash_table.cpp
+++ b/src/vm/objects/hash_table.cpp
@@ -866,34 +866,34 @@ Value HashTableValueIterator::return_value(
 }
 
 static void hash_table_size_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     i64 size = static_cast<i64>(table->size());
     frame.return_value(frame.ctx().get_integer(size));
 }
 
 static void hash_table_contains_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     bool result = table->contains(*frame.arg(1));
     frame.return_value(frame.ctx().get_boolean(result));
 }
 
 static void hash_table_keys_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     frame.return_value(HashTableKeyView::make(frame.ctx(), table));
 }
 
 static void hash_table_values_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     frame.return_value(HashTableValueView::make(frame.ctx(), table));
 }
 
 static void hash_table_clear_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     table->clear();
 }
 
 static void hash_table_remove_impl(SyncFrameContext& frame) {
-    auto table = check_instance<HashTable>(frame);
+    TIRO_FRAME_TRY(table, check_instance<HashTable>(frame));
     table->remove(*frame.arg(1));
 }
 
diff --git a/src/vm/objects/native.hpp b/src/vm/objects/native.hpp
index 2c49f04..ff722b4 100644
--- a/src/vm/objects/native.hpp
+++ b/src/vm/objects/native.hpp
@@ -517,12 +517,12 @@ private:
 };
 
 template<typename T>
-Handle<T> check_instance(SyncFrameContext& frame) {
+Fallible<Handle<T>> check_instance(SyncFrameContext& frame) {
     Handle<Value> value = frame.arg(0);
     if (auto instance = value.try_cast<T>()) {
         return instance.handle();
     }
-    TIRO_ERROR("`this` is not a {}", to_string(TypeToTag<T>));
+    return TIRO_FORMAT_EXCEPTION(frame.ctx(), "`this` is not a {}", to_string(TypeToTag<T>));
 }
 
 class NativeObject final : public HeapValue {
diff --git a/src/vm/objects/result.cpp b/src/vm/objects/result.cpp
index 5e2c7af..d278ddf 100644
--- a/src/vm/objects/result.cpp
+++ b/src/vm/objects/result.cpp
@@ -1,5 +1,6 @@
 #include "vm/objects/result.hpp"
 
+#include "vm/error_utils.hpp"
 #include "vm/math.hpp"
 #include "vm/object_support/factory.hpp"
 #include "vm/object_support/type_desc.hpp"
@@ -67,7 +68,7 @@ Integer Result::get_which() {
 }
 
 static void result_type_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     switch (result->which()) {
     case Result::Success:
         frame.return_value(frame.ctx().get_symbol("success"));
@@ -79,17 +80,17 @@ static void result_type_impl(SyncFrameContext& frame) {
 }
 
 static void result_is_success_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     frame.return_value(frame.ctx().get_boolean(result->is_success()));
 }
 
 static void result_is_error_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     frame.return_value(frame.ctx().get_boolean(result->is_error()));
 }
 
 static void result_value_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     if (!result->is_success()) {
         return frame.panic(
             TIRO_FORMAT_EXCEPTION(frame.ctx(), "cannot access value on failure result"));
@@ -98,7 +99,7 @@ static void result_value_impl(SyncFrameContext& frame) {
 }
 
 static void result_error_impl(SyncFrameContext& frame) {
-    auto result = check_instance<Result>(frame);
+    TIRO_FRAME_TRY(result, check_instance<Result>(frame));
     if (!result->is_error()) {
         return frame.panic(
             TIRO_FORMAT_EXCEPTION(frame.ctx(), "cannot access reason on successful result"));
diff --git a/src/vm/objects/set.cpp b/src/vm/objects/set.cpp
index 44f5c2a..4667fc6 100644
--- a/src/vm/objects/set.cpp
+++ b/src/vm/objects/set.cpp
@@ -78,30 +78,30 @@ std::optional<Value> SetIterator::next(Context& ctx) {
 }
 
 static void set_size_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     i64 size = static_cast<i64>(set->size());
     frame.return_value(frame.ctx().get_integer(size));
 }
 
 static void set_contains_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     bool result = set->contains(*frame.arg(1));
     frame.return_value(frame.ctx().get_boolean(result));
 }
 
 static void set_clear_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     set->clear();
 }
 
 static void set_insert_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     TIRO_FRAME_TRY(inserted, set->insert(frame.ctx(), frame.arg(1)));
     frame.return_value(frame.ctx().get_boolean(inserted));
 }
 
 static void set_remove_impl(SyncFrameContext& frame) {
-    auto set = check_instance<Set>(frame);
+    TIRO_FRAME_TRY(set, check_instance<Set>(frame));
     set->remove(*frame.arg(1));
 }
 
diff --git a/src/vm/objects/string.cpp b/src/vm/objects/string.cpp
index 698946a..2b93c7e 100644
--- a/src/vm/objects/string.cpp
+++ b/src/vm/objects/string.cpp
@@ -421,34 +421,34 @@ StringLike::Which StringLike::which() {
 
 static void string_contains_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     TIRO_FRAME_TRY(needle, require_string_like(ctx, "String.contains", "str", frame.arg(1)));
     bool found = str_contains(string->view(), needle->view());
     frame.return_value(ctx.get_boolean(found));
 }
 
 static void string_size_impl(SyncFrameContext& frame) {
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     frame.return_value(frame.ctx().get_integer(string->size()));
 }
 
 static void string_slice_first_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "String.slice_first", "offset", frame.arg(1)));
     frame.return_value(string->slice_first(frame.ctx(), offset));
 }
 
 static void string_slice_last_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "String.slice_last", "offset", frame.arg(1)));
     frame.return_value(string->slice_last(frame.ctx(), offset));
 }
 
 static void string_slice_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto string = check_instance<String>(frame);
+    TIRO_FRAME_TRY(string, check_instance<String>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "String.slice", "offset", frame.arg(1)));
     TIRO_FRAME_TRY(size, slice_arg(ctx, "String.slice", "size", frame.arg(2)));
     frame.return_value(string->slice(frame.ctx(), offset, size));
@@ -466,41 +466,41 @@ constexpr TypeDesc string_type_desc{"String"sv, string_methods};
 
 static void string_slice_contains_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     TIRO_FRAME_TRY(needle, require_string_like(ctx, "StringSlice.contains", "str", frame.arg(1)));
     bool found = str_contains(slice->view(), needle->view());
     frame.return_value(ctx.get_boolean(found));
 }
 
 static void string_slice_size_impl(SyncFrameContext& frame) {
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     frame.return_value(frame.ctx().get_integer(slice->size()));
 }
 
 static void string_slice_slice_first_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "StringSlice.slice_first", "offset", frame.arg(1)));
     frame.return_value(slice->slice_first(frame.ctx(), offset));
 }
 
 static void string_slice_slice_last_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "StringSlice.slice_last", "offset", frame.arg(1)));
     frame.return_value(slice->slice_last(frame.ctx(), offset));
 }
 
 static void string_slice_slice_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     TIRO_FRAME_TRY(offset, slice_arg(ctx, "StringSlice.slice", "offset", frame.arg(1)));
     TIRO_FRAME_TRY(size, slice_arg(ctx, "StringSlice.slice", "size", frame.arg(2)));
     frame.return_value(slice->slice(frame.ctx(), offset, size));
 }
 
 static void string_slice_to_string_impl(SyncFrameContext& frame) {
-    auto slice = check_instance<StringSlice>(frame);
+    TIRO_FRAME_TRY(slice, check_instance<StringSlice>(frame));
     frame.return_value(slice->to_string(frame.ctx()));
 }
 
@@ -516,7 +516,7 @@ static constexpr FunctionDesc string_slice_methods[] = {
 constexpr TypeDesc string_slice_type_desc{"StringSlice"sv, string_slice_methods};
 
 static void string_builder_append_impl(SyncFrameContext& frame) {
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     for (size_t i = 1; i < frame.arg_count(); ++i) {
         Handle<Value> arg = frame.arg(i);
         to_string(frame.ctx(), builder, arg);
@@ -525,7 +525,7 @@ static void string_builder_append_impl(SyncFrameContext& frame) {
 
 static void string_builder_append_byte_impl(SyncFrameContext& frame) {
     Context& ctx = frame.ctx();
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     Handle arg = frame.arg(1);
 
     byte b;
@@ -540,26 +540,26 @@ static void string_builder_append_byte_impl(SyncFrameContext& frame) {
 }
 
 static void string_builder_clear_impl(SyncFrameContext& frame) {
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     builder->clear();
 }
 
 static void string_builder_contains_impl(SyncFrameContext& frame) {
     auto& ctx = frame.ctx();
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     TIRO_FRAME_TRY(needle, require_string_like(ctx, "StringBuilder.contains", "str", frame.arg(1)));
     bool found = str_contains(builder->view(), needle->view());
     frame.return_value(frame.ctx().get_boolean(found));
 }
 
 static void string_builder_size_impl(SyncFrameContext& frame) {
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     size_t size = static_cast<size_t>(builder->size());
     frame.return_value(frame.ctx().get_integer(size));
 }
 
 static void string_builder_to_string_impl(SyncFrameContext& frame) {
-    auto builder = check_instance<StringBuilder>(frame);
+    TIRO_FRAME_TRY(builder, check_instance<StringBuilder>(frame));
     frame.return_value(builder->to_string(frame.ctx()));
 }
 
diff --git a/src/vm/objects/tuple.cpp b/src/vm/objects/tuple.cpp
index fd68032..a5afb95 100644
--- a/src/vm/objects/tuple.cpp
+++ b/src/vm/objects/tuple.cpp
@@ -1,5 +1,6 @@
 #include "vm/objects/tuple.hpp"
 
+#include "vm/error_utils.hpp"
 #include "vm/object_support/factory.hpp"
 #include "vm/object_support/type_desc.hpp"
 
@@ -98,7 +99,7 @@ std::optional<Value> TupleIterator::next() {
 }
 
 static void tuple_size_impl(SyncFrameContext& frame) {
-    auto tuple = check_instance<Tuple>(frame);
+    TIRO_FRAME_TRY(tuple, check_instance<Tuple>(frame));
     frame.return_value(frame.ctx().get_integer(static_cast<i64>(tuple->size())));
 }
 
-- 
2.43.0


From d1ec915180fa6989f2a1d540e13e54ff07d3f1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:55 +0000
Subject: [PATCH 22/51] fix: hash floats like the integers they are equal to

---
 src/vm/objects/value.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vm/objects/value.cpp b/src/vm/objects/value.cpp
index e490dd8..6849429 100644
--- a/src/vm/objects/value.cpp
+++ b/src/vm/objects/value.cpp
@@ -143,8 +143,13 @@ size_t hash(Value v) {
         return Boolean(v).value() ? 1 : 0;
     case ValueType::HeapInteger:
         return integer_hash(static_cast<u64>(HeapInteger(v).value()));
-    case ValueType::Float:
-        return float_hash(Float(v).value());
+    case ValueType::Float: {
+        // Floats that are equal to an integer must have the same hash value.
+        const f64 f = Float(v).value();
+        if (f >= -0x1p63 && f < 0x1p63 && static_cast<f64>(static_cast<i64>(f)) == f)
+            return integer_hash(static_cast<u64>(static_cast<i64>(f)));
+        return float_hash(f);
+    }
     case ValueType::SmallInteger:
         return integer_hash(static_cast<u64>(SmallInteger(v).value()));
     case ValueType::String:
-- 
2.43.0


From 61bd10b46f0731f073c1b33baf5357cd56f154d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:59 +0000
Subject: [PATCH 23/51] fix: close the whole gap in the index table when
 removing a key

---
 src/vm/objects/hash_table.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/objects/hash_table.cpp b/src/vm/objects/hash_table.cpp
index 061f898..c74ac81 100644
--- a/src/vm/objects/hash_table.cpp
+++ b/src/vm/objects/hash_table.cpp
@@ -466,6 +466,10 @@ void HashTable::remove_from_index(Layout* data, size_t erased_bucket) {
                 "Backshift invariant: distance does not get worse.");
             indices[erased_bucket] = index;
             indices[current_bucket] = ST::empty_value;
+
+            // Continue with the bucket that has just become empty.
+            erased_bucket = current_bucket;
+            current_bucket = next_bucket(data, current_bucket);
         } else {
             break;
         }
-- 
2.43.0


From 0de6d25dfb5d281546f26b20f0985091684c8050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 24/51] fix: convert decimal float literals to the nearest
 double

---
 src/compiler/syntax/grammar/literals.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/compiler/syntax/grammar/literals.cpp b/src/compiler/syntax/grammar/literals.cpp
index ec685d7..d8f99e9 100644
--- a/src/compiler/syntax/grammar/literals.cpp
+++ b/src/compiler/syntax/grammar/literals.cpp
@@ -4,6 +4,8 @@
 #include "common/text/code_point_range.hpp"
 
 #include <algorithm>
+#include <charconv>
+#include <string>
 
 namespace tiro {
 
@@ -160,6 +162,17 @@ parse_float_value(std::string_view float_source, FunctionRef<void(std::string_vi
         error_sink("expected at least one digit");
         return {};
     }
+
+    // The sums above accumulate rounding errors in base 10 (other bases scale by powers of two).
+    if (base == 10) {
+        std::string digits(float_source);
+        digits.erase(std::remove(digits.begin(), digits.end(), '_'), digits.end());
+
+        f64 value = 0;
+        auto result = std::from_chars(digits.data(), digits.data() + digits.size(), value);
+        if (result.ec == std::errc())
+            return value;
+    }
     return int_value + frac_value;
 }
 
-- 
2.43.0


From d508946535ccc135c6f72f0e07715d03b9c42132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:58 +0000
Subject: [PATCH 25/51] fix: run all finalizers before releasing any page of
 the heap

---
 src/vm/heap/heap.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 0edd0ef..721bb5a 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -194,16 +194,19 @@ Heap::Heap(size_t page_size, HeapAllocator& alloc)
     , free_(layout_) {}
 
 Heap::~Heap() {
-    for (auto page : pages_) {
+    // Finalizers must run before any memory is released: they access other objects (e.g. types)
+    // that may be located in other pages.
+    for (auto page : pages_)
         page->invoke_finalizers();
+    for (auto lob : lobs_)
+        lob->invoke_finalizer();
+
+    for (auto page : pages_)
         Page::destroy(page);
-    }
     pages_.clear();
 
-    for (auto lob : lobs_) {
-        lob->invoke_finalizer();
+    for (auto lob : lobs_)
         LargeObject::destroy(lob);
-    }
     lobs_.clear();
 }
 
-- 
2.43.0


From e714b03c67576ea0f95a8789f2b7efae80dd1c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:49 +0000
Subject: [PATCH 26/51] fix: report files with invalid utf8 as errors instead
 of failing internally

---
 src/compiler/ast_gen/build_ast.cpp | 5 +++--
 src/compiler/compiler.cpp          | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/compiler/ast_gen/build_ast.cpp b/src/compiler/ast_gen/build_ast.cpp
index 7350048..13a1626 100644
--- a/src/compiler/ast_gen/build_ast.cpp
+++ b/src/compiler/ast_gen/build_ast.cpp
@@ -240,8 +240,9 @@ build_module_ast(Span<const SyntaxTreeEntry> files, StringTable& strings, Diagno
     mod->id(state.next_node_id());
 
     for (auto& entry : files) {
-        auto file = build_file_ast(entry.id, entry.tree, state);
-        mod->files().append(std::move(file));
+        // Does not return a file if the root of the syntax tree contains errors.
+        if (auto file = build_file_ast(entry.id, entry.tree, state))
+            mod->files().append(std::move(file));
     }
     return mod;
 }
diff --git a/src/compiler/compiler.cpp b/src/compiler/compiler.cpp
index 609b2b5..ae3d1ed 100644
--- a/src/compiler/compiler.cpp
+++ b/src/compiler/compiler.cpp
@@ -138,7 +138,8 @@ SyntaxTree Compiler::parse_file(std::string_view source) {
     };
 
     if (auto res = validate_utf8(source); !res.ok) {
-        SyntaxTree tree(source);
+        // Consists only of the root node.
+        SyntaxTree tree = build_syntax_tree(source, {});
         tree.errors().push_back(SyntaxError(
             "The file contains invalid utf8.", SourceRange::from_std_offset(res.error_offset)));
         return tree;
-- 
2.43.0


From 6ad60c05b50d0693ef90a2f051650df0bc5ac73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:20 +0000
Subject: [PATCH 27/51] fix: do not read past the end of the file when lexing
 operators

---
 src/compiler/syntax/lexer.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/compiler/syntax/lexer.cpp b/src/compiler/syntax/lexer.cpp
index cac32ef..0f168ff 100644
--- a/src/compiler/syntax/lexer.cpp
+++ b/src/compiler/syntax/lexer.cpp
@@ -199,6 +199,9 @@ TokenType Lexer::lex_symbol() {
 std::optional<TokenType> Lexer::lex_operator() {
     TIRO_DEBUG_ASSERT(!eof(), "Already at the end of file.");
 
+    // The file may end right after the first character of an operator.
+    auto current_or_eof = [&]() { return eof() ? invalid_code_point : current(); };
+
     switch (current()) {
 
 #define TIRO_OP(c, ...) \
@@ -221,7 +224,7 @@ std::optional<TokenType> Lexer::lex_operator() {
         TIRO_OP(':', return TokenType::Colon;)
         TIRO_OP(';', return TokenType::Semicolon;)
         TIRO_OP('?', {
-            switch (current()) {
+            switch (current_or_eof()) {
                 TIRO_OP('.', return TokenType::QuestionDot;)
                 TIRO_OP('(', return TokenType::QuestionLeftParen;)
                 TIRO_OP('[', return TokenType::QuestionLeftBracket;)
@@ -231,7 +234,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('+', {
-            switch (current()) {
+            switch (current_or_eof()) {
                 TIRO_OP('+', return TokenType::PlusPlus;)
                 TIRO_OP('=', return TokenType::PlusEquals;)
             default:
@@ -239,7 +242,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('-', {
-            switch (current()) {
+            switch (current_or_eof()) {
                 TIRO_OP('-', return TokenType::MinusMinus;)
                 TIRO_OP('=', return TokenType::MinusEquals;)
             default:
@@ -247,7 +250,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('*', {
-            switch (current()) {
+            switch (current_or_eof()) {
                 TIRO_OP('*', {
                     if (accept('='))
                         return TokenType::StarStarEquals;
@@ -291,7 +294,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             return TokenType::Equals;
         })
         TIRO_OP('<', {
-            switch (current()) {
+            switch (current_or_eof()) {
                 TIRO_OP('=', return TokenType::LessEquals;)
                 TIRO_OP('<', return TokenType::LeftShift;)
             default:
@@ -299,7 +302,7 @@ std::optional<TokenType> Lexer::lex_operator() {
             }
         })
         TIRO_OP('>', {
-            switch (current()) {
+            switch (current_or_eof()) {
                 TIRO_OP('=', return TokenType::GreaterEquals;)
                 TIRO_OP('>', return TokenType::RightShift;)
             default:
-- 
2.43.0


From 473a2ebdb7fd384e7ccb7d7f3a9445d77a89843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:20 +0000
Subject: [PATCH 28/51] fix: handle control flow in assertion messages and in
 arguments of optional calls

---
 src/compiler/ir_gen/compile_expr.cpp | 4 +++-
 src/compiler/ir_gen/compile_stmt.cpp | 7 ++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/compiler/ir_gen/compile_expr.cpp b/src/compiler/ir_gen/compile_expr.cpp
index d0a01d6..ca9fea8 100644
--- a/src/compiler/ir_gen/compile_expr.cpp
+++ b/src/compiler/ir_gen/compile_expr.cpp
@@ -188,7 +188,9 @@ InstResult PathCompiler::compile(NotNull<AstExpr*> topmost) {
     // If an end block was created due to optional accesses, continue in that block. Otherwise,
     // we must still be in the original block.
     if (end_block_) {
-        chain_bb_.end(Terminator::make_jump(*end_block_));
+        // The chain may be unreachable (e.g. `a?.b(return)`), its block has already been ended in that case.
+        if (chain_result)
+            chain_bb_.end(Terminator::make_jump(*end_block_));
         ctx().seal(*end_block_);
         chain_bb_.assign(*end_block_);
     }
diff --git a/src/compiler/ir_gen/compile_stmt.cpp b/src/compiler/ir_gen/compile_stmt.cpp
index 34983ce..d71cbc2 100644
--- a/src/compiler/ir_gen/compile_stmt.cpp
+++ b/src/compiler/ir_gen/compile_stmt.cpp
@@ -66,10 +66,11 @@ OkResult StmtCompiler::visit_assert_stmt(NotNull<AstAssertStmt*> stmt, CurrentBl
 
             return nested.compile_value(Constant::make_null());
         }();
-        if (!message_result)
-            return message_result.failure();
 
-        nested.end(Terminator::make_assert_fail(expr_inst, *message_result, result().exit()));
+        // The message may leave the function or loop, in which case the block has already been ended.
+        // Execution can still continue normally if the condition is true.
+        if (message_result)
+            nested.end(Terminator::make_assert_fail(expr_inst, *message_result, result().exit()));
     }
 
     bb.assign(ok_block);
-- 
2.43.0


From 45ba0f7d00fb4ce4db4dc9654e50bdd877763253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:47 +0000
Subject: [PATCH 29/51] fix: continue in the right block after loop conditions
 that never complete

---
 src/compiler/ir_gen/compile_stmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compiler/ir_gen/compile_stmt.cpp b/src/compiler/ir_gen/compile_stmt.cpp
index d71cbc2..bf2e045 100644
--- a/src/compiler/ir_gen/compile_stmt.cpp
+++ b/src/compiler/ir_gen/compile_stmt.cpp
@@ -283,7 +283,7 @@ OkResult StmtCompiler::visit_while_stmt(NotNull<AstWhileStmt*> stmt, CurrentBloc
         auto cond_result = compile_loop_cond(stmt->cond(), body_block, end_block, cond_bb);
         if (!cond_result) {
             ctx().seal(cond_block);
-            bb.assign(cond_block);
+            bb.assign(cond_bb.id()); // not necessarily the first block of the condition
             return cond_result;
         }
     }
-- 
2.43.0


From 002cdb763cb017e227091efb0b92bb7fa475a4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 30/51] fix: do not complete a coroutine that was suspended by
 its own native function

---
 src/vm/interpreter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vm/interpreter.cpp b/src/vm/interpreter.cpp
index 3a5729f..6c7cb5b 100644
--- a/src/vm/interpreter.cpp
+++ b/src/vm/interpreter.cpp
@@ -1054,6 +1054,14 @@ void Interpreter::run_frame(Handle<Coroutine> coro, NotNull<ResumableFrame*> fra
             stack.pop_values(n);
     }
 
+    // The native function suspended its coroutine (std.dispatch or std.yield_coroutine). The frame remains
+    // on the stack and returns (see above) when the coroutine is being resumed.
+    // It must not return right now because that might complete a coroutine that is about to be resumed.
+    if (coro->state() != CoroutineState::Running) {
+        frame->state = ResumableFrame::END;
+        return;
+    }
+
     switch (cont.action()) {
     case ResumableFrameContinuation::NONE:
         return;
-- 
2.43.0


From eaf35912a6a8046fb9f4627d79b5b6fc70062cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 31/51] fix: invalidate the resume token of an async call that
 completes immediately

---
 src/vm/objects/native.cpp | 6 ++++++
 src/vm/objects/native.hpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/vm/objects/native.cpp b/src/vm/objects/native.cpp
index 0de761f..9d5d51b 100644
--- a/src/vm/objects/native.cpp
+++ b/src/vm/objects/native.cpp
@@ -181,9 +181,15 @@ NotNull<ResumableFrame*> ResumableFrameContext::frame() const {
 AsyncResumeToken AsyncFrameContext::resume_token() {
     Context& ctx = parent_.ctx();
     UniqueExternal token(ctx.externals().allocate(parent_.resume_token()));
+    token_requested_ = true;
     return AsyncResumeToken(std::move(token));
 }
 
+void AsyncFrameContext::finish() {
+    if (token_requested_ && parent_.cont().action() != ResumableFrameContinuation::YIELD)
+        parent_.coro()->reset_token();
+}
+
 UnownedAsyncResumeToken::UnownedAsyncResumeToken(External<CoroutineToken> token)
     : token_(std::move(token)) {}
 
diff --git a/src/vm/objects/native.hpp b/src/vm/objects/native.hpp
index ff722b4..44b00f2 100644
--- a/src/vm/objects/native.hpp
+++ b/src/vm/objects/native.hpp
@@ -251,8 +251,13 @@ public:
         parent_.return_or_panic(fallible);
     }
 
+    /// Called after the native function has been invoked. Invalidates the resume token (if one was requested)
+    /// if the function completed without yielding: the token must not resume any later call.
+    void finish();
+
 private:
     ResumableFrameContext& parent_;
+    bool token_requested_ = false;
 };
 
 class UnownedAsyncResumeToken final {
@@ -501,6 +506,7 @@ private:
                 func(async);
                 if (frame.cont().action() == ResumableFrameContinuation::NONE)
                     frame.return_value(Value::null());
+                async.finish();
                 return;
             }
             case AsyncFrameContext::STATE_RESUME: {
-- 
2.43.0


From 8b8fe593822f89327810e988a272094250e9c262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 32/51] fix: initialize the imports of already linked modules
 before running a module

---
 src/vm/modules/registry.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/vm/modules/registry.cpp b/src/vm/modules/registry.cpp
index 6da5ff6..b82a0fc 100644
--- a/src/vm/modules/registry.cpp
+++ b/src/vm/modules/registry.cpp
@@ -149,20 +149,23 @@ void ModuleRegistry::resolve_module(Context& ctx, Handle<Module> module) {
                 current_members = frame.module_->members();
                 while (i < n) {
                     current_member = current_members->unchecked_get(i);
-                    if (!current_member->is<UnresolvedImport>()) {
+                    if (current_member->is<Module>()) {
+                        // Already linked by an earlier attempt, which may have failed to initialize the import.
+                        imported_module = current_member.must_cast<Module>();
+                    } else if (current_member->is<UnresolvedImport>()) {
+                        // Search for the imported module and link it into the members tuple on success.
+                        imported_name = current_member.must_cast<UnresolvedImport>()->module_name();
+                        if (auto found = find_module(*imported_name)) {
+                            imported_module = *found;
+                        } else {
+                            TIRO_ERROR_WITH_CODE(TIRO_ERROR_MODULE_NOT_FOUND,
+                                "module '{}' was not found", imported_name->view());
+                        }
+                        current_members->unchecked_set(i, *imported_module);
+                    } else {
                         ++i;
                         continue;
                     }
-
-                    // Search for the imported module and link it into the members tuple on success.
-                    imported_name = current_member.must_cast<UnresolvedImport>()->module_name();
-                    if (auto found = find_module(*imported_name)) {
-                        imported_module = *found;
-                    } else {
-                        TIRO_ERROR_WITH_CODE(TIRO_ERROR_MODULE_NOT_FOUND,
-                            "module '{}' was not found", imported_name->view());
-                    }
-                    current_members->unchecked_set(i, *imported_module);
                     ++i;
 
                     // Recurse if necessary. CAREFUL: if recurse() pushes a new frame,
-- 
2.43.0


From 1a471307767e1c3b3f26c06186afa418227780bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 33/51] fix: do not schedule a module initializer when modules
 cannot be initialized

---
 src/vm/context.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vm/context.cpp b/src/vm/context.cpp
index 9bafe51..353c1d2 100644
--- a/src/vm/context.cpp
+++ b/src/vm/context.cpp
@@ -125,6 +125,10 @@ bool Context::has_ready() {
 }
 
 Result Context::run_init(Handle<Value> func, MaybeHandle<Tuple> args) {
+    // Must not start the coroutine: it would run later, after this error has been reported.
+    if (running_)
+        TIRO_ERROR("already running, nested calls are not allowed");
+
     Scope sc(*this);
     Local coro = sc.local(make_coroutine(func, args));
     start(coro);
-- 
2.43.0


From 072e03b30d8d605018c1098600dfcf9c66c7d100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 34/51] fix: reject allocation requests that exceed the range
 of the cell count

---
 src/vm/heap/heap.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 721bb5a..0a44a92 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -1,6 +1,7 @@
 #include "vm/heap/heap.hpp"
 
 #include <algorithm>
+#include <limits>
 #include <new>
 
 #include "fmt/format.h"
@@ -226,7 +227,11 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
     }
 
     // Objects of large size get an allocation of their own.
-    const u32 cells_request = ceil_div(bytes_request, cell_size);
+    const size_t large_cells_request = ceil_div(bytes_request, size_t(cell_size));
+    if (TIRO_UNLIKELY(large_cells_request > std::numeric_limits<u32>::max()))
+        TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "allocation request is too large");
+
+    const u32 cells_request = static_cast<u32>(large_cells_request);
     if (cells_request >= layout_.large_object_cells) {
         auto lob = add_lob(cells_request);
         stats_.allocated_objects += 1;
-- 
2.43.0


From 9bf87d2bdef2d2516f32bf00b2d18e88276ea578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 35/51] fix: account for heap memory only after it has been
 allocated

---
 src/vm/heap/heap.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index 0a44a92..a0e3b58 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -316,11 +316,11 @@ void* Heap::allocate_raw(size_t size, size_t align) {
     TIRO_DEBUG_ASSERT(stats_.total_bytes <= max_size_, "invalid total bytes count");
     if (TIRO_UNLIKELY(size > max_size_ - stats_.total_bytes))
         TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "memory limit reached");
-    stats_.total_bytes += size;
 
-    void* result = alloc_.allocate_aligned(size, align);
+    void* result = alloc_.allocate_aligned(size, align); // may throw
     if (TIRO_UNLIKELY(!result))
-        TIRO_ERROR("failed to allocate block of size {}", size);
+        TIRO_ERROR_WITH_CODE(TIRO_ERROR_ALLOC, "failed to allocate block of size {}", size);
+    stats_.total_bytes += size;
     TIRO_VP_HOOK(tiro_vp_raw_alloc(this, result, size, max_size_);)
     return result;
 }
-- 
2.43.0


From 5e19d6722f2757c8254371bbfa52301c5466b4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 36/51] fix: run the collector before rejecting a large object

---
 src/vm/heap/heap.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/heap/heap.cpp b/src/vm/heap/heap.cpp
index a0e3b58..981183f 100644
--- a/src/vm/heap/heap.cpp
+++ b/src/vm/heap/heap.cpp
@@ -233,6 +233,11 @@ std::tuple<void*, ChunkType> Heap::allocate(size_t bytes_request) {
 
     const u32 cells_request = static_cast<u32>(large_cells_request);
     if (cells_request >= layout_.large_object_cells) {
+        // Run collector if the large object would exceed the memory limit.
+        const size_t lob_size = LargeObject::dynamic_size(cells_request);
+        if (!collector_ran && lob_size > max_size_ - stats_.total_bytes)
+            collector_.collect(GcReason::AllocFailure);
+
         auto lob = add_lob(cells_request);
         stats_.allocated_objects += 1;
         stats_.allocated_bytes += bytes_request;
-- 
2.43.0


From 5f78511c23419ce171d21ac367bd81cafdce2e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:21 +0000
Subject: [PATCH 37/51] fix: do not modify a hash table before its new storage
 has been allocated

---
 src/vm/objects/hash_table.cpp | 24 +++++++++++++++++-------
 src/vm/objects/hash_table.hpp |  2 +-
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/vm/objects/hash_table.cpp b/src/vm/objects/hash_table.cpp
index c74ac81..6f03084 100644
--- a/src/vm/objects/hash_table.cpp
+++ b/src/vm/objects/hash_table.cpp
@@ -558,9 +558,14 @@ void HashTable::init_first(Layout* data, Context& ctx) {
     using InitialSizeClass = SizeClassTraits<SizeClass::U8>;
 
     TIRO_TABLE_TRACE("Initializing hash table to initial capacity");
-    set_entries(data, HashTableStorage::make(ctx, initial_table_capacity));
-    set_index(data, InitialSizeClass::BufferAccess::make(
-                        ctx, initial_index_capacity, InitialSizeClass::empty_value));
+
+    // Allocate all storage before modifying the table: allocations may fail.
+    Scope sc(ctx);
+    Local entries = sc.local(HashTableStorage::make(ctx, initial_table_capacity));
+    Local index = sc.local(InitialSizeClass::BufferAccess::make(
+        ctx, initial_index_capacity, InitialSizeClass::empty_value));
+    set_entries(data, *entries);
+    set_index(data, *index);
     data->static_payload()->size = 0;
     data->static_payload()->mask = initial_index_capacity - 1;
 }
@@ -606,12 +611,17 @@ void HashTable::grow_to_capacity(
                 new_entries->append(entry);
         }
     }
-    set_entries(data, *new_entries);
 
     // TODO: make rehashing cheaper by reusing the old index table...
     const SizeClass next_size_class = index_size_class(new_entry_capacity);
     dispatch_size_class(next_size_class, [&](auto traits) {
-        this->template recreate_index<decltype(traits)>(data, ctx, new_index_capacity);
+        using NextST = decltype(traits);
+
+        // The table must not be modified before all allocations have succeeded.
+        Local new_index = sc.local(
+            NextST::BufferAccess::make(ctx, new_index_capacity, NextST::empty_value));
+        set_entries(data, *new_entries);
+        this->template recreate_index<NextST>(data, *new_index, new_index_capacity);
     });
 }
 
@@ -654,13 +664,13 @@ void HashTable::compact(Layout* data) {
 }
 
 template<typename ST>
-void HashTable::recreate_index(Layout* data, Context& ctx, size_t capacity) {
+void HashTable::recreate_index(Layout* data, Buffer new_index, size_t capacity) {
     TIRO_DEBUG_ASSERT(
         size() == occupied_entries(), "Entries array must not have any deleted elements.");
     TIRO_DEBUG_ASSERT(is_pow2(capacity), "New index capacity must be a power of two.");
 
     // TODO rehashing can be made faster, see rust index map at https://github.com/bluss/indexmap
-    set_index(data, ST::BufferAccess::make(ctx, capacity, ST::empty_value));
+    set_index(data, new_index);
     data->static_payload()->mask = capacity - 1;
     rehash_index<ST>(data);
 }
diff --git a/src/vm/objects/hash_table.hpp b/src/vm/objects/hash_table.hpp
index 3071da2..77420e7 100644
--- a/src/vm/objects/hash_table.hpp
+++ b/src/vm/objects/hash_table.hpp
@@ -300,7 +300,7 @@ private:
     // Creates a new index table from an existing entries array.
     // This could be optimized further by using the old index table (?).
     template<typename ST>
-    void recreate_index(Layout* data, Context& ctx, size_t capacity);
+    void recreate_index(Layout* data, Buffer new_index, size_t capacity);
 
     // Creates the index from scratch using the existing index array.
     // The index array should have been cleared (if reused) or initialized
-- 
2.43.0


From 5f1613f5ec79c06683f1fdc6e5e5ac2c9ce59cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:43 +0000
Subject: [PATCH 38/51] fix: tolerate a missing cleanup function when a
 callback registration fails

---
 src/api/objects.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/api/objects.cpp b/src/api/objects.cpp
index a6724e0..4daaf5e 100644
--- a/src/api/objects.cpp
+++ b/src/api/objects.cpp
@@ -842,7 +842,8 @@ void tiro_coroutine_set_callback(tiro_vm_t vm, tiro_handle_t coroutine,
     tiro_error_t* err) {
     return entry_point(err, [&] {
         if (!vm || !coroutine || !callback) {
-            cleanup(userdata);
+            if (cleanup)
+                cleanup(userdata);
             return TIRO_REPORT(err, TIRO_ERROR_BAD_ARG);
         }
 
@@ -896,7 +897,8 @@ void tiro_coroutine_set_callback(tiro_vm_t vm, tiro_handle_t coroutine,
 
         auto maybe_coro = to_internal(coroutine).try_cast<vm::Coroutine>();
         if (!maybe_coro) {
-            cleanup(userdata);
+            if (cleanup)
+                cleanup(userdata);
             return TIRO_REPORT(err, TIRO_ERROR_BAD_TYPE);
         }
 
-- 
2.43.0


From 486369ef381a105e26185d11846bf542bb9dbea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:43 +0000
Subject: [PATCH 39/51] fix: keep the registered coroutine callback when
 replacing it fails

---
 src/vm/context.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/vm/context.cpp b/src/vm/context.cpp
index 353c1d2..b781e08 100644
--- a/src/vm/context.cpp
+++ b/src/vm/context.cpp
@@ -66,11 +66,6 @@ Coroutine Context::make_coroutine(Handle<Value> func, MaybeHandle<Tuple> args) {
 void Context::set_callback(Handle<Coroutine> coro, CoroutineCallback& on_complete) {
     Scope sc(*this);
 
-    Local existing = sc.local(coro->native_callback());
-    if (existing->has_value()) {
-        coro->native_callback({});
-    }
-
     Local callback = sc.local(
         NativeObject::make(*this, &coroutine_callback_type, on_complete.size()));
     void* data = callback->data();
-- 
2.43.0


From 304d0f8bd53738f6f19986035f03a6690b9a5ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:59 +0000
Subject: [PATCH 40/51] fix: tiro_boolean_value dereferenced a NULL handle

---
 src/api/objects.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/objects.cpp b/src/api/objects.cpp
index 4daaf5e..047d09e 100644
--- a/src/api/objects.cpp
+++ b/src/api/objects.cpp
@@ -201,7 +201,7 @@ void tiro_make_boolean(tiro_vm_t vm, bool value, tiro_handle_t result, tiro_erro
 
 bool tiro_boolean_value(tiro_vm_t vm, tiro_handle_t value) {
     return entry_point(nullptr, false, [&] {
-        if (!vm)
+        if (!vm || !value)
             return false;
 
         vm::Context& ctx = vm->ctx;
-- 
2.43.0


From 151640cd8789fb7c41f1cdf0194fe853599020a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:59 +0000
Subject: [PATCH 41/51] fix: calling a resumable function with the maximum
 number of locals failed an assertion

---
 src/vm/objects/coroutine_stack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/objects/coroutine_stack.cpp b/src/vm/objects/coroutine_stack.cpp
index 1c73bb7..a425403 100644
--- a/src/vm/objects/coroutine_stack.cpp
+++ b/src/vm/objects/coroutine_stack.cpp
@@ -315,7 +315,7 @@ CoroutineStack::push_frame(u8 flags, u32 argc, u32 locals, Params&&... additiona
 void* CoroutineStack::allocate_frame(u32 frame_size, u32 locals) {
     Layout* data = layout();
     TIRO_DEBUG_ASSERT(data->top <= data->end, "invalid stack top");
-    TIRO_DEBUG_ASSERT(locals < max_locals, "too many locals");
+    TIRO_DEBUG_ASSERT(locals <= max_locals, "too many locals");
     TIRO_DEBUG_ASSERT(locals <= (std::numeric_limits<u32>::max() - frame_size) / sizeof(Value),
         "integer overflow in frame allocation");
 
-- 
2.43.0


From dee096c8bd32ad490601eb68de7a6d351a91f023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:59 +0000
Subject: [PATCH 42/51] fix: a compiler whose message callback aborted the
 compilation still had a module

---
 src/api/compiler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/api/compiler.cpp b/src/api/compiler.cpp
index e1e52bb..3f06ea4 100644
--- a/src/api/compiler.cpp
+++ b/src/api/compiler.cpp
@@ -170,6 +170,7 @@ void tiro_compiler_run(tiro_compiler_t comp, tiro_error_t* err) {
         comp->result = compiler.run();
         for (const auto& message : compiler.diag().messages()) {
             if (!report(comp, compiler, message)) {
+                comp->result->module.reset();
                 return TIRO_REPORT(
                     err, TIRO_ERROR_BAD_STATE, [&] { return "fatal error in message callback"; });
             }
-- 
2.43.0


From 7f9704dc989d5a8077098c00ebb16ffd1432a85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:36 +0000
Subject: [PATCH 43/51] fix: verify the index register of array and tuple
 accesses

---
 src/vm/modules/verify.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vm/modules/verify.cpp b/src/vm/modules/verify.cpp
index 5bf7a5f..5f3d8a0 100644
--- a/src/vm/modules/verify.cpp
+++ b/src/vm/modules/verify.cpp
@@ -517,6 +517,7 @@ void FunctionVerifier::InstructionVisitor::visit_store_tuple_member(
 void FunctionVerifier::InstructionVisitor::visit_load_index(
     const BytecodeInstr::LoadIndex& load_index) {
     self.check(load_index.array);
+    self.check(load_index.index);
     self.check(load_index.target);
 }
 
@@ -524,6 +525,7 @@ void FunctionVerifier::InstructionVisitor::visit_store_index(
     const BytecodeInstr::StoreIndex& store_index) {
     self.check(store_index.source);
     self.check(store_index.array);
+    self.check(store_index.index);
 }
 
 void FunctionVerifier::InstructionVisitor::visit_load_closure(
-- 
2.43.0


From fc9ffa53fe05a86f2f5ab35750b680cd47e6f27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:36 +0000
Subject: [PATCH 44/51] fix: reject bytecode modules with out of range strings,
 functions and schemas

---
 src/common/text/string_table.cpp |  4 ++++
 src/common/text/string_table.hpp |  3 +++
 src/vm/modules/verify.cpp        | 12 +++++++-----
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/common/text/string_table.cpp b/src/common/text/string_table.cpp
index b8a1439..1ee4b56 100644
--- a/src/common/text/string_table.cpp
+++ b/src/common/text/string_table.cpp
@@ -52,6 +52,10 @@ std::optional<InternedString> StringTable::find(std::string_view str) const {
     return {};
 }
 
+bool StringTable::contains(const InternedString& str) const {
+    return str && strings_by_index_.find(str.value()) != strings_by_index_.end();
+}
+
 std::string_view StringTable::value(const InternedString& str) const {
     TIRO_CHECK(str, "Invalid interned string instance.");
 
diff --git a/src/common/text/string_table.hpp b/src/common/text/string_table.hpp
index fb3a324..4305da1 100644
--- a/src/common/text/string_table.hpp
+++ b/src/common/text/string_table.hpp
@@ -41,6 +41,9 @@ public:
     /// exists in the table.
     std::optional<InternedString> find(std::string_view str) const;
 
+    /// Returns true if the interned string references a string in this table.
+    bool contains(const InternedString& str) const;
+
     /// Returns the string value for the given string index.
     /// Throws if the string is invalid.
     std::string_view value(const InternedString& str) const;
diff --git a/src/vm/modules/verify.cpp b/src/vm/modules/verify.cpp
index 5f3d8a0..44148aa 100644
--- a/src/vm/modules/verify.cpp
+++ b/src/vm/modules/verify.cpp
@@ -173,7 +173,7 @@ private:
 } // namespace
 
 void ModuleVerifier::verify() {
-    if (!module_.name())
+    if (!module_.strings().contains(module_.name()))
         fail("module does not have a valid name");
 
     // Validate data
@@ -243,7 +243,7 @@ void ModuleVerifier::visit_float(
     [[maybe_unused]] const BytecodeMember::Float& f, [[maybe_unused]] BytecodeMemberId id) {}
 
 void ModuleVerifier::visit_string(const BytecodeMember::String& s, BytecodeMemberId id) {
-    if (!s.value) {
+    if (!module_.strings().contains(s.value)) {
         fail(fmt::format("invalid string (in member {})", id.value()));
     }
 }
@@ -268,7 +268,7 @@ void ModuleVerifier::visit_variable(
     [[maybe_unused]] const BytecodeMember::Variable& v, [[maybe_unused]] BytecodeMemberId id) {}
 
 void ModuleVerifier::visit_function(const BytecodeMember::Function& f, BytecodeMemberId id) {
-    if (!f.id) {
+    if (!f.id || !module_.functions().in_bounds(f.id)) {
         fail(fmt::format("invalid function reference (in member {})", id.value()));
     }
 
@@ -286,7 +286,7 @@ void ModuleVerifier::visit_function(const BytecodeMember::Function& f, BytecodeM
 
 void ModuleVerifier::visit_record_schema(
     const BytecodeMember::RecordSchema& r, BytecodeMemberId id) {
-    if (!r.id) {
+    if (!r.id || !module_.records().in_bounds(r.id)) {
         fail(fmt::format("invalid record schema reference (in member {})", id.value()));
     }
 
@@ -323,7 +323,9 @@ ModuleVerifier::check_reference(BytecodeMemberId id, BytecodeMemberId parent) {
 
 void ModuleVerifier::fail(std::string_view message) {
     // TODO: Mark exception as bytecode verification failure, e.g. with a kind enum?
-    std::string_view name = module_.strings().dump(module_.name());
+    const auto& strings = module_.strings();
+    std::string_view name = strings.contains(module_.name()) ? strings.value(module_.name())
+                                                             : "N/A";
     TIRO_ERROR("module '{}' verification error: {}", name, message);
 }
 
-- 
2.43.0


From 400e37d205abcd76b4882ab03c0873c5f8adf30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:36 +0000
Subject: [PATCH 45/51] fix: reject bytecode that stores to module members
 which are not variables

---
 src/vm/modules/verify.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vm/modules/verify.cpp b/src/vm/modules/verify.cpp
index 44148aa..4f56a82 100644
--- a/src/vm/modules/verify.cpp
+++ b/src/vm/modules/verify.cpp
@@ -485,7 +485,8 @@ void FunctionVerifier::InstructionVisitor::visit_load_module(
 void FunctionVerifier::InstructionVisitor::visit_store_module(
     const BytecodeInstr::StoreModule& store_module) {
     self.check(store_module.source);
-    self.check(store_module.target);
+    if (self.check(store_module.target) != BytecodeMemberType::Variable)
+        self.fail("StoreModule instruction must reference a variable");
 }
 
 void FunctionVerifier::InstructionVisitor::visit_load_member(
-- 
2.43.0


From a7ffaee4dfca85d14def41a65ec306fd6af5f2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:36 +0000
Subject: [PATCH 46/51] fix: check that an environment exists before using it
 in StoreEnv

---
 src/vm/interpreter.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vm/interpreter.cpp b/src/vm/interpreter.cpp
index 6c7cb5b..6d0d62e 100644
--- a/src/vm/interpreter.cpp
+++ b/src/vm/interpreter.cpp
@@ -433,17 +433,17 @@ void BytecodeInterpreter::run() {
             if (level != 0)
                 current_env.set(current_env->value().parent(level));
 
+            if (TIRO_UNLIKELY(current_env->is_null())) { // Codegen error
+                return unwind(TIRO_FORMAT_EXCEPTION(
+                    ctx_, "too many levels requested from closure environment: {}", level));
+            }
+
             if (TIRO_UNLIKELY(index >= current_env->value().size())) { // Codegen error
                 return unwind(TIRO_FORMAT_EXCEPTION(ctx_,
                     "environment index {} is too large for environment of size {}", index,
                     current_env->value().size()));
             }
 
-            if (TIRO_UNLIKELY(current_env->is_null())) { // Codegen error
-                return unwind(TIRO_FORMAT_EXCEPTION(
-                    ctx_, "too many levels requested from closure environment: {}", level));
-            }
-
             current_env->value().set(index, *source);
             break;
         }
-- 
2.43.0


From 5d3bb86b314f7a26fb68030fc485b3a8bb3f4d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:36 +0000
Subject: [PATCH 47/51] fix: std.catch_panic failed an assertion when called
 with surplus arguments

---
 src/vm/interpreter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/interpreter.cpp b/src/vm/interpreter.cpp
index 6d0d62e..28e3bac 100644
--- a/src/vm/interpreter.cpp
+++ b/src/vm/interpreter.cpp
@@ -1097,7 +1097,7 @@ void Interpreter::run_frame(Handle<Coroutine> coro, NotNull<CatchFrame*> frame)
     TIRO_DEBUG_ASSERT(frame->type == FrameType::Catch, "expected a catch frame");
     TIRO_DEBUG_ASSERT(
         coro->state() == CoroutineState::Running, "the coroutine must be marked as running");
-    TIRO_DEBUG_ASSERT(frame->argc == 1, "expected a single argument");
+    TIRO_DEBUG_ASSERT(frame->argc >= 1, "expected at least one argument");
 
     // Fresh frame.
     if ((frame->flags & FRAME_CATCH_STARTED) == 0) {
-- 
2.43.0


From e7d60eb98376d2017117753a8908118bf9c93145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:36 +0000
Subject: [PATCH 48/51] fix: do not split file names at commas

---
 src/run/main.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/run/main.cpp b/src/run/main.cpp
index d14d876..7c0cb10 100644
--- a/src/run/main.cpp
+++ b/src/run/main.cpp
@@ -1,3 +1,6 @@
+// File names may contain commas.
+#define CXXOPTS_VECTOR_DELIMITER '\0'
+
 #include "cxxopts.hpp"
 #include "fmt/format.h"
 #include "tiropp/api.hpp"
-- 
2.43.0


From 59babdbd16b354c01104ac658bd8e2e3b18d5e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:36 +0000
Subject: [PATCH 49/51] fix: read files without a known size (pipes, devices)

---
 src/run/main.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/run/main.cpp b/src/run/main.cpp
index 7c0cb10..17129d6 100644
--- a/src/run/main.cpp
+++ b/src/run/main.cpp
@@ -260,11 +260,14 @@ std::string read_file_contents(const char* path) {
     // Use the file size as a hint for the required memory (the file size might change while we're reading it).
     std::string result;
     {
-        auto size = std::filesystem::file_size(path);
-        if (size > result.max_size()) {
-            throw std::runtime_error("file is too large");
+        std::error_code ec;
+        auto size = std::filesystem::file_size(path, ec);
+        if (!ec) { // Not all readable files have a size, e.g. pipes.
+            if (size > result.max_size()) {
+                throw std::runtime_error("file is too large");
+            }
+            result.reserve(size);
         }
-        result.reserve(size);
     }
 
     // Read file chunk by chunk.
-- 
2.43.0


From b4f69a9f49d253261a8a8e5a59d0d0d93604e252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:20 +0000
Subject: [PATCH 50/51] fix: a failing coroutine callback registration
 destroyed the callback twice

---
 include/tiropp/objects.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/tiropp/objects.hpp b/include/tiropp/objects.hpp
index 62923ac..41ecc4e 100644
--- a/include/tiropp/objects.hpp
+++ b/include/tiropp/objects.hpp
@@ -810,9 +810,10 @@ public:
             in_place_t(), std::forward<Callback>(on_complete));
 
         detail::check_handles(raw_vm(), *this);
+
+        // Note: the cleanup function is also invoked if the call fails.
         tiro_coroutine_set_callback(raw_vm(), raw_handle(), &wrapper_type::invoke,
-            &wrapper_type::cleanup, wrapper.get(), error_adapter());
-        wrapper.release();
+            &wrapper_type::cleanup, wrapper.release(), error_adapter());
     }
 
     /// Starts this coroutine's execution.
-- 
2.43.0


From cba71df354f983e57d2b4a21022124cf13c84dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:51 +0000
Subject: [PATCH 51/51] fix: deeply nested sources were rejected with an
 internal parser error

---
 src/compiler/syntax/parser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/syntax/parser.cpp b/src/compiler/syntax/parser.cpp
index c84d016..d20ebee 100644
--- a/src/compiler/syntax/parser.cpp
+++ b/src/compiler/syntax/parser.cpp
@@ -106,7 +106,9 @@ void Parser::error(std::string message) {
 }
 
 void Parser::on_inspection() {
-    if (++inspections_ >= 1024) {
+    // Every active grammar production may look at the current position a few times on its way out, and
+    // productions nest at most as deeply as there are tokens before that position.
+    if (++inspections_ >= 1024 + 64 * pos_) {
         TIRO_ERROR(
             "The parser appears to be stuck. Please report this issue together with a source code "
             "snippet that reproduces the bug.");
-- 
2.43.0

