From ea5203b059bd60e984fd5016d622f3c7db9746f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 01/52] fix: last-pair returned a middle pair for odd-length
 lists and the tail cell of improper ones

---
 src/c/list.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/c/list.cc b/src/c/list.cc
index 073800a..ab9797d 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -330,12 +330,12 @@ SCM *scm_c_last_pair(SCM *lst) {
   // Floyd's cycle detection algorithm
   while (true) {
     // Move hare two steps
-    if (!hare->next || is_nil(wrap(hare->next))) {
-      // Reached end, return tortoise (last pair)
-      return wrap(tortoise);
+    if (!hare->next || hare->next->is_dotted) {
+      // Reached end, return hare (last pair)
+      return wrap(hare);
     }
     hare = hare->next;
-    if (!hare->next || is_nil(wrap(hare->next))) {
+    if (!hare->next || hare->next->is_dotted) {
       // Reached end, return hare (last pair)
       return wrap(hare);
     }
-- 
2.43.0


From 3501096126324e55301fbf23b7d7ffb4221b5b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:08 +0000
Subject: [PATCH 02/52] fix: list? answered #f for proper lists of more than
 10000 elements

---
 src/c/predicate.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/c/predicate.cc b/src/c/predicate.cc
index cff7ad6..80379d9 100644
--- a/src/c/predicate.cc
+++ b/src/c/predicate.cc
@@ -90,15 +90,11 @@ SCM *scm_c_is_list(SCM *arg) {
   // A proper list ends with a node where next=nullptr and is_dotted=false
   // (cdr of the last node returns nil)
   SCM_List *l = cast<SCM_List>(arg);
-  // Use a simple cycle detection: limit traversal count
-  int count = 0;
-  const int MAX_COUNT = 10000;  // Reasonable limit for list length
+  // Floyd's cycle detection: slow moves one node for every two of l
+  SCM_List *slow = l;
+  bool advance_slow = false;
   
   while (l) {
-    if (count++ > MAX_COUNT) {
-      // Likely a circular list, return #f
-      return scm_bool_false();
-    }
     // Check if this node is a dotted pair marker
     if (l->is_dotted) {
       // This is a dotted pair, not a proper list
@@ -111,6 +107,14 @@ SCM *scm_c_is_list(SCM *arg) {
     }
     // Move to next node
     l = l->next;
+    if (advance_slow) {
+      slow = slow->next;
+      if (slow == l) {
+        // Circular list
+        return scm_bool_false();
+      }
+    }
+    advance_slow = !advance_slow;
   }
   // Should not reach here, but if we do, it's not a proper list
   return scm_bool_false();
-- 
2.43.0


From b89b625f981767e79a1040160d6333352a2566be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 03/52] fix: append dropped the middle elements of an improper
 last argument

---
 src/c/list.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/c/list.cc b/src/c/list.cc
index ab9797d..b19554c 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -163,11 +163,12 @@ SCM *scm_append(SCM_List *args) {
       if (current == last_arg && last_is_dotted_pair) {
         // Last argument is a dotted pair: copy car, but preserve the cdr
         // For (c . d), src points to the pair, src->data is c, src->next->data is d
-        // We copy c, but not d (which will be the final cdr)
-        if (src) {
+        // We copy every element, but not d (which will be the final cdr)
+        while (src && !src->is_dotted) {
           SCM_List *node = _copy_list_element(src->data);
           tail->next = node;
           tail = node;
+          src = src->next;
         }
         // The cdr (d) will be appended below, creating the dotted pair structure
       } else {
-- 
2.43.0


From 286b5d11bd38741a2b8fb730fd3683a4b415ba65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 04/52] fix: append made a non-list last argument an element
 instead of the tail

---
 src/c/list.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/c/list.cc b/src/c/list.cc
index b19554c..b6b98c7 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -181,8 +181,16 @@ SCM *scm_append(SCM_List *args) {
         }
       }
     } else if (!is_nil(current->data)) {
-      // Non-list, non-nil: just add it
+      if (current != last_arg) {
+        eval_error("append: argument must be a list");
+        return nullptr;
+      }
+      if (!dummy.next) {
+        return current->data;
+      }
+      // Non-list last argument: it becomes the final cdr
       SCM_List *node = _copy_list_element(current->data);
+      node->is_dotted = true;
       tail->next = node;
       tail = node;
     }
-- 
2.43.0


From d5e9e698ca9d4374dd79cb18cf8475ba24dded03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 05/52] fix: length and reverse counted the tail of an improper
 list as an element

---
 src/c/list.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/c/list.cc b/src/c/list.cc
index b6b98c7..9229079 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -374,6 +374,10 @@ SCM *scm_c_reverse(SCM *lst) {
   SCM_List *current = cast<SCM_List>(lst);
   
   while (current) {
+    if (current->is_dotted) {
+      eval_error("reverse: argument must be a proper list");
+      return nullptr;
+    }
     auto new_node = make_list(current->data);
     new_node->next = result;
     result = new_node;
@@ -445,6 +449,10 @@ SCM *scm_c_length(SCM *lst) {
   SCM_List *current = cast<SCM_List>(lst);
   
   while (current) {
+    if (current->is_dotted) {
+      eval_error("length: argument must be a proper list");
+      return nullptr;
+    }
     count++;
     if (!current->next || is_nil(wrap(current->next))) {
       break;
-- 
2.43.0


From 7bf284896ed7a2b504df4a95d0aaa69c61088cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:46 +0000
Subject: [PATCH 06/52] fix: list-ref, list-tail and list-head treated the tail
 of an improper list as an element

---
 src/c/list.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/c/list.cc b/src/c/list.cc
index 9229079..f211be0 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -241,7 +241,7 @@ SCM *scm_c_list_head(SCM *lst, SCM *k) {
   SCM_List *tail = &dummy;
   SCM_List *current = cast<SCM_List>(lst);
   
-  while (count > 0 && current) {
+  while (count > 0 && current && !current->is_dotted) {
     SCM_List *node = make_list(current->data);
     tail->next = node;
     tail = node;
@@ -275,7 +275,7 @@ SCM *scm_c_list_tail(SCM *lst, SCM *k) {
   SCM_List *current = cast<SCM_List>(lst);
   
   while (count > 0) {
-    if (!current || is_nil(wrap(current))) {
+    if (!current || current->is_dotted) {
       eval_error("list-tail: list too short");
       return nullptr;
     }
@@ -284,6 +284,9 @@ SCM *scm_c_list_tail(SCM *lst, SCM *k) {
   }
   
   if (current) {
+    if (current->is_dotted) {
+      return current->data;
+    }
     return wrap(current);
   }
   return scm_nil();
@@ -418,6 +421,9 @@ SCM *scm_c_list_ref(SCM *lst, SCM *k) {
   int64_t i = 0;
   
   while (current) {
+    if (current->is_dotted) {
+      break;
+    }
     if (i == idx) {
       return current->data;
     }
-- 
2.43.0


From 4cc6b4be78c71117a632cfc0927100b397cf05dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:06 +0000
Subject: [PATCH 07/52] fix: gc dereferenced block headers outside its segments
 while marking

---
 src/c/gc.cc | 28 +++++++++++++++++++++-------
 src/c/gc.h  |  9 ++-------
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index e105de5..cba2c2c 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -98,6 +98,25 @@ static void trace_macro(GCBlock *, MarkStack *);
 static void trace_variable(GCBlock *, MarkStack *);
 static void trace_smob(GCBlock *, MarkStack *);
 
+// =========================================================================
+// Block validation
+// =========================================================================
+
+bool is_valid_block(const void *p) {
+  const char *cp = (const char *)p;
+  if (cp < g_heap_start || cp >= g_heap_end) return false;
+  if ((uintptr_t)cp & (sizeof(GCBlock) - 1)) return false;
+
+  // Segments are not contiguous: only the allocated part of a segment may be
+  // dereferenced.
+  for (HeapSegment *seg = g_segments; seg; seg = seg->next) {
+    if (cp >= seg->start && cp + sizeof(GCBlock) <= seg->bump) {
+      return ((const GCBlock *)p)->gc_magic == GC_MAGIC;
+    }
+  }
+  return false;
+}
+
 // =========================================================================
 // Helper: convert an arbitrary pointer to a GCBlock and push if valid
 // =========================================================================
@@ -320,13 +339,8 @@ static void mark_if_valid_block(void *ptr, MarkStack *stack) {
   // which is GC_HEADER_SIZE bytes after the block header.
   uintptr_t block_addr = (uintptr_t)cptr - GC_HEADER_SIZE;
 
-  // Block header must be 16-byte aligned.
-  if (block_addr & (sizeof(GCBlock) - 1)) return;
-
-  GCBlock *block = (GCBlock *)block_addr;
-  if (block->gc_magic == GC_MAGIC) {
-    push_if_unmarked(block, stack);
-  }
+  // Alignment, segment and magic are checked by push_if_unmarked.
+  push_if_unmarked((GCBlock *)block_addr, stack);
 }
 
 static void scan_conservative_roots(MarkStack *stack) {
diff --git a/src/c/gc.h b/src/c/gc.h
index 0b0474d..9c0bfec 100644
--- a/src/c/gc.h
+++ b/src/c/gc.h
@@ -81,13 +81,8 @@ extern char *g_heap_start;
 extern char *g_heap_end;
 
 // Validate that a pointer looks like a real GCBlock inside the managed
-// heap (range check, alignment check, magic check).
-inline bool is_valid_block(const void *p) {
-  return (const char *)p >= g_heap_start &&
-         (const char *)p + sizeof(GCBlock) <= g_heap_end &&
-         ((uintptr_t)p & (sizeof(GCBlock) - 1)) == 0 &&
-         ((const GCBlock *)p)->gc_magic == GC_MAGIC;
-}
+// heap (range check, alignment check, segment check, magic check).
+bool is_valid_block(const void *p);
 
 // ---------------------------------------------------------------------------
 // Root registration
-- 
2.43.0


From 453074833e6a3cb50b4562d2bfb6d419959d3e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:06 +0000
Subject: [PATCH 08/52] fix: gc reclaimed objects reachable only from the stack
 saved in a continuation

---
 src/c/gc.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index cba2c2c..5fe7edd 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -562,7 +562,19 @@ static void trace_cont(GCBlock *block, MarkStack *stack) {
   trace_ptr(cont->arg,          stack); // SCM*
   trace_ptr(cont->saved_module, stack); // SCM*
   trace_ptr(cont->wind_chain,   stack); // SCM_List*
-  // stack_data / dst / stack_src are internal C data -- not traced.
+  // dst / stack_src are internal C data -- not traced.
+
+  // The saved registers and C stack become live again when the continuation is
+  // invoked, so scan them conservatively like the active stack.
+  for (size_t i = 0; i + sizeof(void *) <= sizeof(jmp_buf); i += sizeof(void *)) {
+    mark_if_valid_block(*(void **)((char *)&cont->cont_jump_buffer + i), stack);
+  }
+  if (cont->stack_data) {
+    void **words = (void **)cont->stack_data;
+    for (size_t i = 0; i < cont->stack_len; i++) {
+      mark_if_valid_block(words[i], stack);
+    }
+  }
 }
 
 // --- GC_MODULE --------------------------------------------------------
-- 
2.43.0


From b464e5cb16bebec3c4a5b35234c453076c846d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:06 +0000
Subject: [PATCH 09/52] fix: gc crashed when a stale stack word named a swept
 vector or hash table

---
 src/c/gc.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/c/gc.cc b/src/c/gc.cc
index 5fe7edd..a150d8c 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -603,6 +603,8 @@ static void trace_port(GCBlock *block, MarkStack *stack) {
 // --- GC_VECTOR --------------------------------------------------------
 static void trace_vector(GCBlock *block, MarkStack *stack) {
   SCM_Vector *vec = (SCM_Vector *)block_to_obj(block);
+  // A stale pointer can name a block already swept (elements released).
+  if (!vec->elements) return;
   for (size_t i = 0; i < vec->length; i++) {
     trace_ptr(vec->elements[i], stack);
   }
@@ -611,6 +613,8 @@ static void trace_vector(GCBlock *block, MarkStack *stack) {
 // --- GC_HASH ----------------------------------------------------------
 static void trace_hash(GCBlock *block, MarkStack *stack) {
   SCM_HashTable *ht = (SCM_HashTable *)block_to_obj(block);
+  // A stale pointer can name a block already swept (buckets released).
+  if (!ht->buckets) return;
   for (size_t i = 0; i < ht->capacity; i++) {
     trace_ptr(ht->buckets[i], stack);
   }
-- 
2.43.0


From 540ae66783f78e5b07be61f20009da751de26846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 10/52] fix: cond clause without expressions returned #t
 instead of the test value

---
 src/c/cond.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/cond.cc b/src/c/cond.cc
index a637543..0375b94 100644
--- a/src/c/cond.cc
+++ b/src/c/cond.cc
@@ -26,7 +26,7 @@ SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
       continue;
     }
     if (!clause->next) {
-      return scm_bool_true();
+      return pred;
     }
     // Check for => syntax BEFORE evaluating clause->next->data
     // Similar to Guile's approach: check if => is a literal (not bound)
-- 
2.43.0


From 4555348f9cfa3cc61038d09def9c2b2270d5de00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:14 +0000
Subject: [PATCH 11/52] fix: arithmetic and comparison of a non-number aborted
 or treated it as zero

---
 src/c/number.cc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 8082c2e..73f8877 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -78,8 +78,16 @@ SCM *scm_c_is_zero(SCM *arg) {
   return scm_bool_false();
 }
 
+static bool is_number(SCM *arg) {
+  return is_num(arg) || is_float(arg) || is_ratio(arg);
+}
+
 // Type promotion: if either operand is float, promote both to float
 static bool needs_float_promotion(SCM *lhs, SCM *rhs) {
+  if (!is_number(lhs) || !is_number(rhs)) {
+    eval_error("expected number");
+    return false;
+  }
   return is_float(lhs) || is_float(rhs);
 }
 
@@ -292,6 +300,13 @@ SCM *scm_c_minus_wrapper(SCM_List *args) {
 }
 
 SCM *scm_c_mul_number(SCM *lhs, SCM *rhs) {
+  // Handle float promotion directly
+  if (needs_float_promotion(lhs, rhs)) {
+    double d_lhs = scm_to_double(lhs);
+    double d_rhs = scm_to_double(rhs);
+    return scm_from_double(d_lhs * d_rhs);
+  }
+
   // Handle ratio (rational number) multiplication
   if (is_ratio(lhs) || is_ratio(rhs)) {
     // Convert both to numerator/denominator form
@@ -329,12 +344,6 @@ SCM *scm_c_mul_number(SCM *lhs, SCM *rhs) {
     return scm_make_ratio(num1 * num2, den1 * den2);
   }
   
-  // Handle float promotion directly
-  if (needs_float_promotion(lhs, rhs)) {
-    double d_lhs = scm_to_double(lhs);
-    double d_rhs = scm_to_double(rhs);
-    return scm_from_double(d_lhs * d_rhs);
-  }
   return BinaryOperator<MulOp<int64_t, int64_t>>::run(lhs, rhs);
 }
 
-- 
2.43.0


From 3a2a1284979e6e127c5627ae6e18ab64aa3a9efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:18 +0000
Subject: [PATCH 12/52] fix: + - and comparisons aborted on rationals;
 positive? and negative? rejected them

---
 src/c/number.cc | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 73f8877..8f57fc0 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -7,7 +7,7 @@
 SCM *scm_make_ratio(int64_t numerator, int64_t denominator);
 
 SCM *scm_c_is_negative(SCM *arg) {
-  if (!is_num(arg) && !is_float(arg)) {
+  if (!is_num(arg) && !is_float(arg) && !is_ratio(arg)) {
     eval_error("negative?: expected number");
     return nullptr;
   }
@@ -19,7 +19,7 @@ SCM *scm_c_is_negative(SCM *arg) {
 }
 
 SCM *scm_c_is_positive(SCM *arg) {
-  if (!is_num(arg) && !is_float(arg)) {
+  if (!is_num(arg) && !is_float(arg) && !is_ratio(arg)) {
     eval_error("positive?: expected number");
     return nullptr;
   }
@@ -91,6 +91,15 @@ static bool needs_float_promotion(SCM *lhs, SCM *rhs) {
   return is_float(lhs) || is_float(rhs);
 }
 
+// Numerator and denominator of an exact number (integer or ratio)
+static int64_t exact_numerator(SCM *arg) {
+  return is_ratio(arg) ? cast<SCM_Rational>(arg)->numerator : (int64_t)arg->value;
+}
+
+static int64_t exact_denominator(SCM *arg) {
+  return is_ratio(arg) ? cast<SCM_Rational>(arg)->denominator : 1;
+}
+
 template <typename Op>
 struct BinaryOperator {
   static SCM *run(SCM *lhs, SCM *rhs) {
@@ -109,6 +118,21 @@ struct BinaryOperator {
       } else {
         return scm_from_double(ret);
       }
+    } else if (is_ratio(lhs) || is_ratio(rhs)) {
+      // Rational operation: bring both to a common denominator
+      int64_t den_lhs = exact_denominator(lhs);
+      int64_t den_rhs = exact_denominator(rhs);
+      using Ret = decltype(Op::run((int64_t)0, (int64_t)0));
+      if constexpr (std::is_same_v<Ret, bool>) {
+        __int128 n_lhs = (__int128)exact_numerator(lhs) * den_rhs;
+        __int128 n_rhs = (__int128)exact_numerator(rhs) * den_lhs;
+        int64_t order = n_lhs < n_rhs ? -1 : n_lhs > n_rhs ? 1 : 0;
+        return Op::run(order, (int64_t)0) ? scm_bool_true() : scm_bool_false();
+      } else {
+        int64_t n_lhs = exact_numerator(lhs) * den_rhs;
+        int64_t n_rhs = exact_numerator(rhs) * den_lhs;
+        return scm_make_ratio(Op::run(n_lhs, n_rhs), den_lhs * den_rhs);
+      }
     } else {
       // Integer operation
       assert(is_num(lhs));
@@ -247,6 +271,9 @@ SCM *scm_c_negate_number(SCM *arg) {
     data->type = SCM::NUM;
     data->value = (void *)(-val);
     return data;
+  } else if (is_ratio(arg)) {
+    SCM_Rational *rat = cast<SCM_Rational>(arg);
+    return scm_make_ratio(-rat->numerator, rat->denominator);
   }
   eval_error("negate: expected number");
   return nullptr;
@@ -282,7 +309,7 @@ SCM *scm_c_minus_wrapper(SCM_List *args) {
       return nullptr;
     }
     // Check if argument is a number
-    if (!is_num(args->data) && !is_float(args->data)) {
+    if (!is_number(args->data)) {
       eval_error("-: expected number");
       return nullptr;
     }
-- 
2.43.0


From 68830c224064330663dc8ce608b77e6d293ca4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:22 +0000
Subject: [PATCH 13/52] fix: abs aborted on arguments other than integers

---
 src/c/number.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 8f57fc0..200cc49 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -528,7 +528,16 @@ SCM *scm_c_ge_chain(SCM_List *args) {
 }
 
 SCM *scm_c_abs(SCM *arg) {
-  assert(is_num(arg));
+  if (is_float(arg)) {
+    return scm_from_double(std::fabs(ptr_to_double(arg->value)));
+  }
+  if (is_ratio(arg)) {
+    return exact_numerator(arg) < 0 ? scm_c_negate_number(arg) : arg;
+  }
+  if (!is_num(arg)) {
+    eval_error("abs: expected number");
+    return nullptr;
+  }
   int64_t val = (int64_t)arg->value;
   int64_t abs_val = val < 0 ? -val : val;
   SCM *data = (SCM *)gc_alloc(GC_SCM, sizeof(SCM));
-- 
2.43.0


From fd2e3467ffacb35c49ee605b123f24a2974ceb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:26 +0000
Subject: [PATCH 14/52] fix: odd? and even? were wrong for integers above 2^53

---
 src/c/number.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/c/number.cc b/src/c/number.cc
index 200cc49..31c074e 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -35,6 +35,9 @@ SCM *scm_c_is_odd(SCM *arg) {
     eval_error("odd?: expected number");
     return nullptr;
   }
+  if (is_num(arg)) {
+    return (int64_t)arg->value % 2 != 0 ? scm_bool_true() : scm_bool_false();
+  }
   double val = scm_to_double(arg);
   // Check if it's an integer
   if (val != (double)(int64_t)val) {
@@ -53,6 +56,9 @@ SCM *scm_c_is_even(SCM *arg) {
     eval_error("even?: expected number");
     return nullptr;
   }
+  if (is_num(arg)) {
+    return (int64_t)arg->value % 2 == 0 ? scm_bool_true() : scm_bool_false();
+  }
   double val = scm_to_double(arg);
   // Check if it's an integer
   if (val != (double)(int64_t)val) {
-- 
2.43.0


From 8e84bf7f83e87f37572c1479b131fdef860c6c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:31 +0000
Subject: [PATCH 15/52] fix: max and min rounded large integers and returned
 inexact results for rationals

---
 src/c/number.cc | 44 ++++++++++++++++++--------------------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 31c074e..66f68e6 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -721,8 +721,8 @@ SCM *scm_c_max(SCM_List *args) {
     return nullptr;
   }
   
-  double max_val = scm_to_double(first);
-  bool all_int = is_num(first);
+  SCM *best = first;
+  bool inexact = is_float(first);
   
   SCM_List *current = args->next;
   while (current) {
@@ -731,23 +731,19 @@ SCM *scm_c_max(SCM_List *args) {
       eval_error("max: expected number");
       return nullptr;
     }
-    if (!is_num(arg)) {
-      all_int = false;
-    }
-    double val = scm_to_double(arg);
-    if (val > max_val) {
-      max_val = val;
+    if (is_float(arg)) {
+      inexact = true;
     }
-    if (!current->next || is_nil(wrap(current->next))) {
-      break;
+    if (is_true(scm_c_gt_number(arg, best))) {
+      best = arg;
     }
     current = current->next;
   }
   
-  if (all_int && max_val == (double)(int64_t)max_val) {
-    return _create_num((int64_t)max_val);
+  if (inexact) {
+    return scm_from_double(scm_to_double(best));
   }
-  return scm_from_double(max_val);
+  return best;
 }
 
 // min: Return the minimum of the arguments
@@ -763,8 +759,8 @@ SCM *scm_c_min(SCM_List *args) {
     return nullptr;
   }
   
-  double min_val = scm_to_double(first);
-  bool all_int = is_num(first);
+  SCM *best = first;
+  bool inexact = is_float(first);
   
   SCM_List *current = args->next;
   while (current) {
@@ -773,23 +769,19 @@ SCM *scm_c_min(SCM_List *args) {
       eval_error("min: expected number");
       return nullptr;
     }
-    if (!is_num(arg)) {
-      all_int = false;
-    }
-    double val = scm_to_double(arg);
-    if (val < min_val) {
-      min_val = val;
+    if (is_float(arg)) {
+      inexact = true;
     }
-    if (!current->next || is_nil(wrap(current->next))) {
-      break;
+    if (is_true(scm_c_lt_number(arg, best))) {
+      best = arg;
     }
     current = current->next;
   }
   
-  if (all_int && min_val == (double)(int64_t)min_val) {
-    return _create_num((int64_t)min_val);
+  if (inexact) {
+    return scm_from_double(scm_to_double(best));
   }
-  return scm_from_double(min_val);
+  return best;
 }
 
 SCM *scm_c_expt(SCM *base, SCM *exp) {
-- 
2.43.0


From f60d4844faaf16d97ef8f857c17855fe7c6036d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 16/52] fix: expt aborted on non-integers and returned 0 for
 negative exponents

---
 src/c/number.cc | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 66f68e6..1d05bf5 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -785,8 +785,17 @@ SCM *scm_c_min(SCM_List *args) {
 }
 
 SCM *scm_c_expt(SCM *base, SCM *exp) {
-  assert(is_num(base));
-  assert(is_num(exp));
+  if (!is_number(base) || !is_number(exp)) {
+    eval_error("expt: expected number");
+    return nullptr;
+  }
+  if (is_float(base) || is_float(exp)) {
+    return scm_from_double(std::pow(scm_to_double(base), scm_to_double(exp)));
+  }
+  if (!is_num(base) || !is_num(exp)) {
+    eval_error("expt: expected integer");
+    return nullptr;
+  }
   int64_t n1 = (int64_t)base->value;
   int64_t n2 = (int64_t)exp->value;
   
@@ -819,20 +828,7 @@ SCM *scm_c_expt(SCM *base, SCM *exp) {
   
   // Handle negative exponent result
   if (is_negative) {
-    // For negative exponents, we return 1/result
-    // But since we only support integers, we can only return exact results
-    // when result is 1 or -1
-    if (ret == 1) {
-      return _create_num(1);
-    }
-    else if (ret == -1) {
-      return _create_num(-1);
-    }
-    else {
-      // For other cases, we can't represent fractions, so return 0
-      // This is a limitation of integer-only arithmetic
-      return _create_num(0);
-    }
+    return scm_make_ratio(1, ret);
   }
   
   return _create_num(ret);
-- 
2.43.0


From b8529c92a7b0f871fc7c2adacb1e3480f12c55de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:39 +0000
Subject: [PATCH 17/52] fix: / accepted non-numbers and zero after an inexact
 divisor

---
 src/c/number.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/c/number.cc b/src/c/number.cc
index 1d05bf5..dae2724 100644
--- a/src/c/number.cc
+++ b/src/c/number.cc
@@ -926,7 +926,16 @@ SCM *scm_c_div(SCM_List *args) {
       // For floats, switch to float arithmetic
       double result = (double)result_num / (double)result_den;
       while (current) {
-        result /= scm_to_double(current->data);
+        if (!is_number(current->data)) {
+          eval_error("/: expected number");
+          return nullptr;
+        }
+        double divisor = scm_to_double(current->data);
+        if (divisor == 0.0) {
+          eval_error("/: division by zero");
+          return nullptr;
+        }
+        result /= divisor;
         current = current->next;
       }
       return scm_from_double(result);
-- 
2.43.0


From 013556b29fa25e16e5c83e402bb697b45ea691b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 18/52] fix: do overwrote variables of the enclosing scope with
 the same name

---
 src/c/do.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/do.cc b/src/c/do.cc
index a3f296a..37afb79 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -79,7 +79,7 @@ void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
   // This happens AFTER all update expressions have been evaluated
   // This implements parallel binding: all variables are updated simultaneously
   for (int i = 0; i < count; i++) {
-    scm_env_insert(do_env, updates[i].var_name, updates[i].new_val);
+    scm_env_insert(do_env, updates[i].var_name, updates[i].new_val, /*search_parent=*/false);
   }
   
   delete[] updates;
@@ -145,7 +145,7 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     }
 
     // Insert variable into do environment
-    scm_env_insert(do_env, var_name, var_init_val);
+    scm_env_insert(do_env, var_name, var_init_val, /*search_parent=*/false);
     
     // Store update step if provided
     if (var_update_step) {
-- 
2.43.0


From d2937c9aea10e7d16be98c3dac99cd395b67e4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:08 +0000
Subject: [PATCH 19/52] fix: named let evaluated only the first expression of
 its body

---
 src/c/let.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/c/let.cc b/src/c/let.cc
index e669c74..68aa975 100644
--- a/src/c/let.cc
+++ b/src/c/let.cc
@@ -43,7 +43,7 @@ SCM *expand_let(SCM *expr) {
     */
     assert(l->next->next->next);
     auto argl = l->next->next->data;
-    auto body = l->next->next->next->data;
+    auto body = l->next->next->next;  // all body expressions
     
     // Handle empty bindings list for named let: (let name () body)
     SCM *params = scm_nil();
@@ -67,10 +67,12 @@ SCM *expand_let(SCM *expr) {
       printf("args ");
       print_ast(args);
       printf("\n");
-      print_ast(body);
+      print_list(body);
       printf("\n");
     }
-    auto val = scm_list3(scm_sym_lambda(), params, body);
+    auto lambda_l = make_list(scm_sym_lambda(), params);
+    lambda_l->next->next = body;
+    auto val = wrap(lambda_l);
     auto letrec_arg = scm_list2(func_args, val);
     
     // For empty args, just call the function: (name)
-- 
2.43.0


From 98e470dc31f57a89ca1910ba21a4f7470fbeaee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:23 +0000
Subject: [PATCH 20/52] fix: procedures defined inside a body were defined
 globally instead of locally

---
 src/c/define.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/c/define.cc b/src/c/define.cc
index d1133b4..ed71804 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -1,6 +1,12 @@
 #include "pscm.h"
 #include "eval.h"
 
+// Is this the scope of a lambda or let body (as opposed to the top level of a
+// module file, whose environment differs from its parent in the module it names)?
+static bool is_local_scope(SCM_Environment *env) {
+  return env->parent && env->module == env->parent->module;
+}
+
 SCM *eval_define(SCM_Environment *env, SCM_List *l) {
   if (l->next && is_sym(l->next->data)) {
     // Define variable: (define var value)
@@ -24,7 +30,7 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
     // This ensures define creates local bindings in let/lambda contexts
     if (env->parent) {
       // Check if this is a module environment (env->module from scm_resolve_module)
-      if (env->module) {
+      if (env->module && !is_local_scope(env)) {
         scm_c_hash_set_eq(wrap(env->module->obarray), wrap(varname), val);
       } else {
         // We're in a nested environment (lambda/let), create local binding
@@ -118,9 +124,9 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
     }
     auto proc = make_proc(proc_name, proc_sig->next, l->next->next, env);
     SCM *ret = wrap(proc);
-    // If current module exists, define in module
+    // If current module exists, define in module (a body's definitions are local)
     SCM *current_mod = scm_current_module();
-    if (current_mod && is_module(current_mod)) {
+    if (!is_local_scope(env) && current_mod && is_module(current_mod)) {
       SCM_Module *module = cast<SCM_Module>(current_mod);
       scm_c_hash_set_eq(wrap(module->obarray), wrap(proc_name), ret);
     } else {
@@ -156,9 +162,9 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
         SCM_DEBUG_EVAL("define proc from lambda\n");
       }
     }
-    // If current module exists, define in module
+    // If current module exists, define in module (a body's definitions are local)
     SCM *current_mod = scm_current_module();
-    if (current_mod && is_module(current_mod)) {
+    if (!is_local_scope(env) && current_mod && is_module(current_mod)) {
       SCM_Module *module = cast<SCM_Module>(current_mod);
       scm_c_hash_set_eq(wrap(module->obarray), wrap(proc_name), val);
     } else {
-- 
2.43.0


From bbd8d024cab9493969d9f3b2e6cbfbc716f927e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:38 +0000
Subject: [PATCH 21/52] fix: a procedure with a rest parameter accepted fewer
 arguments than its required parameters

---
 src/c/procedure.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/c/procedure.cc b/src/c/procedure.cc
index a4ea8ab..f6aec98 100644
--- a/src/c/procedure.cc
+++ b/src/c/procedure.cc
@@ -239,8 +239,11 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
     }
   }
   
-  // Check for argument mismatch (only if no rest parameter)
-  if (!has_rest_param && (args_iter || current_param)) {
+  // Check for argument mismatch: without a rest parameter the counts must be equal,
+  // with one every parameter before it must be bound
+  bool mismatch = has_rest_param ? (!only_rest_param && current_param != penultimate_param->next)
+                                 : (args_iter || current_param);
+  if (mismatch) {
     // Construct the call expression for better error reporting
     SCM *call_expr = nullptr;
     if (proc->name) {
-- 
2.43.0


From b92314653467b234de33308ccf4566b690a7d275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 22/52] fix: for-each stopped at an element that is the empty
 list

---
 src/c/for_each.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index 40170ef..63f27c4 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -11,9 +11,9 @@ static int count_list_length(SCM_List *l) {
   return count;
 }
 
-// Helper function to check if a list node is exhausted (nil or null)
+// Helper function to check if a list is exhausted (an element may be the empty list)
 static inline bool is_list_exhausted(SCM_List *list) {
-  return list == nullptr || is_nil(list->data);
+  return list == nullptr;
 }
 
 // Helper function for for-each special form
-- 
2.43.0


From d3c96a0ff07a71bb15d4fbdbdfb9177525f6c5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 23/52] fix: for-each passed too few lists to procedures with a
 rest parameter and ignored extra lists

---
 src/c/for_each.cc | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index 63f27c4..047d159 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -34,23 +34,32 @@ static inline bool is_list_exhausted(SCM_List *list) {
 SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
   assert(l->next);
   auto f = eval_with_env(env, l->next->data);
-  int arg_count;
   
-  // Determine argument count based on procedure/function type
+  // Every list given supplies one argument
+  int arg_count = count_list_length(l->next->next);
+  int required = arg_count;
   if (is_proc(f)) {
     auto proc = cast<SCM_Procedure>(f);
-    arg_count = count_list_length(proc->args);
+    bool has_rest = false;
+    for (auto p = proc->args; p; p = p->next) {
+      has_rest = p->is_dotted;
+    }
+    if (!has_rest) {
+      required = count_list_length(proc->args);
+    }
   } else if (is_func(f)) {
     auto func = cast<SCM_Function>(f);
-    // Count the number of argument lists provided
-    int list_count = count_list_length(l->next->next);
-    // For variable-arg functions (n_args < 0), use list_count
-    // Otherwise use the function's expected argument count
-    arg_count = (func->n_args < 0) ? list_count : func->n_args;
+    if (func->n_args >= 0) {
+      required = func->n_args;
+    }
   } else {
     eval_error("for-each: first argument must be a procedure or function");
     return nullptr;
   }
+  if (arg_count != required || arg_count == 0) {
+    eval_error("args count not match, require %d, but got %d", required, arg_count);
+    return nullptr;
+  }
   
   l = l->next->next;
 
@@ -64,10 +73,6 @@ SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
   
   SCM_List *arg_lists[MAX_FOR_EACH_ARGS];
   for (int i = 0; i < arg_count; i++) {
-    if (!l) {
-      eval_error("args count not match, require %d, but got %d", arg_count, i);
-      return nullptr;
-    }
     auto evaluated_list = eval_with_env(env, l->data);
     // Validate that evaluated result is a list
     if (!is_pair(evaluated_list) && !is_nil(evaluated_list)) {
-- 
2.43.0


From 7fcd2481fe68a9a2d9ca67507493be3543ad9848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:08 +0000
Subject: [PATCH 24/52] fix: defining a procedure at top level did not redefine
 an existing builtin

---
 src/c/define.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/c/define.cc b/src/c/define.cc
index ed71804..3c5a0ab 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -124,9 +124,13 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
     }
     auto proc = make_proc(proc_name, proc_sig->next, l->next->next, env);
     SCM *ret = wrap(proc);
-    // If current module exists, define in module (a body's definitions are local)
+    // If current module exists, define in module (a body's definitions are local,
+    // and a name that already exists in the global environment is updated there)
     SCM *current_mod = scm_current_module();
-    if (!is_local_scope(env) && current_mod && is_module(current_mod)) {
+    auto global_entry = env->parent ? nullptr : scm_env_search_entry(&g_env, proc_name, /*search_parent=*/false);
+    if (global_entry) {
+      global_entry->value = ret;
+    } else if (!is_local_scope(env) && current_mod && is_module(current_mod)) {
       SCM_Module *module = cast<SCM_Module>(current_mod);
       scm_c_hash_set_eq(wrap(module->obarray), wrap(proc_name), ret);
     } else {
@@ -162,9 +166,13 @@ SCM *eval_define(SCM_Environment *env, SCM_List *l) {
         SCM_DEBUG_EVAL("define proc from lambda\n");
       }
     }
-    // If current module exists, define in module (a body's definitions are local)
+    // If current module exists, define in module (a body's definitions are local,
+    // and a name that already exists in the global environment is updated there)
     SCM *current_mod = scm_current_module();
-    if (!is_local_scope(env) && current_mod && is_module(current_mod)) {
+    auto global_entry = env->parent ? nullptr : scm_env_search_entry(&g_env, proc_name, /*search_parent=*/false);
+    if (global_entry) {
+      global_entry->value = val;
+    } else if (!is_local_scope(env) && current_mod && is_module(current_mod)) {
       SCM_Module *module = cast<SCM_Module>(current_mod);
       scm_c_hash_set_eq(wrap(module->obarray), wrap(proc_name), val);
     } else {
-- 
2.43.0


From ddc846a769cf8a8e76bf03224cb8f0b047bb19af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:57 +0000
Subject: [PATCH 25/52] fix: define-macro bound a single parameter as a rest
 parameter

---
 src/c/macro.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/c/macro.cc b/src/c/macro.cc
index 7751eac..c240ace 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -304,14 +304,8 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
   }
   SCM_Symbol *name = cast<SCM_Symbol>(proc_sig->data);
 
-  // Check if proc_sig->next is a single symbol (rest parameter like (test . args))
-  // In this case, we need to convert it to a dotted pair structure
+  // A rest parameter, as in (test . args), is marked as dotted by the reader
   SCM_List *args_list = proc_sig->next;
-  if (args_list && is_sym(args_list->data) && !args_list->next) {
-    // This is a rest parameter: (test . args) -> args_list is just (args)
-    // We need to mark it as a dotted pair
-    args_list->is_dotted = true;
-  }
 
   SCM_Procedure *transformer = make_proc(name, args_list, l->next->next, env);
 
-- 
2.43.0


From a1e751588aeaf643603dd1a848f0f50d6a852aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 26/52] fix: a local variable in an enclosing scope did not
 hide a global macro of the same name

---
 src/c/eval.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 3a15e19..914d2ad 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -324,8 +324,10 @@ entry:
     // non-macro symbols are resolved via lookup_symbol (parent chain
     // search) in the else branch below; pulling them from g_env here
     // would shadow local lambda bindings (e.g., exit in cont tests).
+    // A lexical binding in an enclosing scope hides such a macro.
     if (!val) {
-      SCM *g_val = scm_env_exist(&g_env, sym);
+      auto entry = scm_env_search_entry(env, sym, /*search_parent=*/true);
+      SCM *g_val = entry ? entry->value : scm_env_exist(&g_env, sym);
       if (g_val && is_macro(g_val)) {
         val = g_val;
       }
-- 
2.43.0


From 8d10b670ff2f803d5649a722cd672136198f9aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:13 +0000
Subject: [PATCH 27/52] fix: a local define-macro overwrote a variable of the
 enclosing scope

---
 src/c/macro.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/c/macro.cc b/src/c/macro.cc
index c240ace..2641d23 100644
--- a/src/c/macro.cc
+++ b/src/c/macro.cc
@@ -276,13 +276,13 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
       SCM_Module *module = cast<SCM_Module>(current_mod);
       scm_c_hash_set_eq(wrap(module->obarray), wrap(name), macro_scm);
     } else if (env->parent) {
-      scm_env_insert(env, name, macro_scm);
+      scm_env_insert(env, name, macro_scm, /*search_parent=*/false);
     } else {
       auto global_entry = scm_env_search_entry(&g_env, name, /*search_parent=*/false);
       if (global_entry) {
         global_entry->value = macro_scm;
       } else {
-        scm_env_insert(env, name, macro_scm);
+        scm_env_insert(env, name, macro_scm, /*search_parent=*/false);
       }
     }
 
@@ -322,13 +322,13 @@ SCM *eval_define_macro(SCM_Environment *env, SCM_List *l) {
     SCM_Module *module = cast<SCM_Module>(current_mod);
     scm_c_hash_set_eq(wrap(module->obarray), wrap(name), macro_scm);
   } else if (env->parent) {
-    scm_env_insert(env, name, macro_scm);
+    scm_env_insert(env, name, macro_scm, /*search_parent=*/false);
   } else {
     auto global_entry = scm_env_search_entry(&g_env, name, /*search_parent=*/false);
     if (global_entry) {
       global_entry->value = macro_scm;
     } else {
-      scm_env_insert(env, name, macro_scm);
+      scm_env_insert(env, name, macro_scm, /*search_parent=*/false);
     }
   }
 
-- 
2.43.0


From f65a92cd4c99e87d95c2f5822215ee9fb038c925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:50 +0000
Subject: [PATCH 28/52] fix: evaluating an expression that starts with a
 builtin function changed the expression

---
 src/c/eval.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 914d2ad..d7fa768 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -675,8 +675,10 @@ entry:
       print_list(func_argl);
       printf("\n");
     }
-    l->next = func_argl;
-    SCM *result = eval_with_func(func, l);
+    SCM_List func_call = make_list_dummy();
+    func_call.data = l->data;
+    func_call.next = func_argl;
+    SCM *result = eval_with_func(func, &func_call);
     RETURN_WITH_CONTEXT(result);
   }
   else if (is_pair(l->data)) {
-- 
2.43.0


From 1ac771bb56132cdc4a08f109c64a047b72ae56b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:14 +0000
Subject: [PATCH 29/52] fix: a macro call that expands to a symbol was not
 evaluated and macro calls were expanded inside quoted data

---
 src/c/eval.cc | 28 +++-------------------------
 1 file changed, 3 insertions(+), 25 deletions(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index d7fa768..1da7251 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -336,23 +336,8 @@ entry:
       // Found a macro, expand it and continue evaluation
       SCM_Macro *macro = cast<SCM_Macro>(val);
       SCM *expanded = expand_macro_call(env, macro, l->next, ast);
-      // Recursively expand the result, then evaluate
-      ast = expand_macros(env, expanded);
-      // If macro expansion returns a non-pair value (e.g., a number), 
-      // we need to handle it directly instead of trying to evaluate it as a list
-      if (!is_pair(ast)) {
-        RETURN_WITH_CONTEXT(ast);
-      }
-      // After macro expansion, we need to re-check the structure
-      // If ast is a pair but l->data is not a symbol/proc/func, it might be
-      // a self-evaluating value wrapped in a list, which should be evaluated directly
-      // We need to recast l since ast might have changed
-      l = cast<SCM_List>(ast);
-      if (l && l->data && !is_sym(l->data) && !is_proc(l->data) && !is_func(l->data) && !is_cont(l->data) && !is_pair(l->data) && !l->next) {
-        // This is a self-evaluating value (number, string, etc.) wrapped in a single-element list
-        // Return it directly
-        RETURN_WITH_CONTEXT(l->data);
-      }
+      // Evaluate the result; nested macro calls are expanded when they are reached
+      ast = expanded;
       goto entry;
     }
 
@@ -704,14 +689,7 @@ entry:
     // Macro object in expression position — expand it
     SCM_Macro *macro = cast<SCM_Macro>(l->data);
     SCM *expanded = expand_macro_call(env, macro, l->next, ast);
-    ast = expand_macros(env, expanded);
-    if (!is_pair(ast)) {
-      RETURN_WITH_CONTEXT(ast);
-    }
-    l = cast<SCM_List>(ast);
-    if (l && l->data && !is_sym(l->data) && !is_proc(l->data) && !is_func(l->data) && !is_cont(l->data) && !is_pair(l->data) && !l->next) {
-      RETURN_WITH_CONTEXT(l->data);
-    }
+    ast = expanded;
     goto entry;
   }
   else {
-- 
2.43.0


From d4262ec5e35f5d2fbc00c1123b2349143700297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:27 +0000
Subject: [PATCH 30/52] fix: calling a symbol or a list as a procedure
 evaluated it instead of raising an error

---
 src/c/eval.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 1da7251..4f944ee 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -253,6 +253,15 @@ static SCM *eval_call_cc(SCM_Environment *env, SCM_List *l, SCM **ast) {
   return nullptr; // Signal to continue evaluation
 }
 
+// The value of an operator expression takes the place of that expression in the
+// call, so a value that would be evaluated once more must be rejected here
+static void check_operator(SCM *val) {
+  if (is_sym(val) || is_pair(val) || is_nil(val) || is_num(val) || is_float(val) || is_str(val) || is_char(val) ||
+      is_bool(val)) {
+    eval_error("wrong type to apply: %s", get_type_name(val->type));
+  }
+}
+
 
 SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
   assert(env);
@@ -525,6 +534,7 @@ entry:
         return nullptr;
       }
       
+      check_operator(val);
       auto new_list = make_list(val);
       new_list->next = l->next;
       ast = wrap(new_list);
@@ -669,6 +679,7 @@ entry:
   else if (is_pair(l->data)) {
     // Nested list: evaluate first element and continue
     auto f = eval_with_env(env, l->data);
+    check_operator(f);
     auto new_l = make_list(f);
     new_l->next = l->next;
     ast = wrap(new_l);
-- 
2.43.0


From 18bca16e3425365d6049606a8fb8e6875d6a0ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:13 +0000
Subject: [PATCH 31/52] fix: a program's own binding of map, for-each, apply
 and the like was ignored when called

---
 src/c/eval.cc | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index 4f944ee..50a6819 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -262,6 +262,39 @@ static void check_operator(SCM *val) {
   }
 }
 
+// These names denote procedures, although their calls are evaluated like special
+// forms: a binding made by the program for such a name takes precedence
+static bool is_procedure_form(SCM_Symbol *sym) {
+  static const char *names[] = {"map", "map-in-order", "for-each", "apply", "call/cc", "call-with-current-continuation",
+                                "call-with-values", "dynamic-wind"};
+  for (auto name : names) {
+    if (strcmp(sym->data, name) == 0) {
+      return true;
+    }
+  }
+  return false;
+}
+
+static bool is_builtin_of_name(SCM *val, SCM_Symbol *sym) {
+  if (!is_func(val)) {
+    return false;
+  }
+  auto func = cast<SCM_Function>(val);
+  return func->name && strcmp(func->name->data, sym->data) == 0;
+}
+
+static SCM *search_user_binding(SCM_Environment *env, SCM_Symbol *sym) {
+  auto entry = scm_env_search_entry(env, sym, /*search_parent=*/true);
+  if (entry) {
+    return entry->value;
+  }
+  SCM *current_mod = scm_current_module();
+  if (current_mod && is_module(current_mod)) {
+    return module_search_variable(cast<SCM_Module>(current_mod), sym);
+  }
+  return nullptr;
+}
+
 
 SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
   assert(env);
@@ -350,6 +383,17 @@ entry:
       goto entry;
     }
 
+    if (is_procedure_form(sym)) {
+      SCM *user_val = val ? val : search_user_binding(env, sym);
+      if (user_val && !is_builtin_of_name(user_val, sym)) {
+        check_operator(user_val);
+        auto new_list = make_list(user_val);
+        new_list->next = l->next;
+        ast = wrap(new_list);
+        goto entry;
+      }
+    }
+
     if (is_sym_val(l->data, "define")) {
       SCM *result = eval_define(env, l);
       RETURN_WITH_CONTEXT(result);
-- 
2.43.0


From d3366d965f24b7fdc9b97e4168d78595e39218a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 32/52] fix: do shared one location of a variable between all
 iterations

---
 src/c/do.cc | 107 ++++++++++------------------------------------------
 1 file changed, 20 insertions(+), 87 deletions(-)

diff --git a/src/c/do.cc b/src/c/do.cc
index 37afb79..e199722 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -2,87 +2,24 @@
 #include "eval.h"
 
 // Helper function to update do loop variables
-// All update expressions are evaluated first (in parallel), then all variables are updated
-// This implements Scheme's parallel binding semantics for do loops
-void update_do_variables(SCM_Environment *do_env, SCM_List *var_update_list) {
-  struct UpdatePair {
-    SCM_Symbol *var_name;
-    SCM *new_val;
-  };
-  
-  // First, collect all variable names and update expressions
-  // We use a vector-like approach: first count, then allocate, then process
-  int count = 0;
-  auto it = var_update_list;
-  while (it->next) {
-    count++;
-    it = it->next;
-  }
-  
-  if (count == 0) {
-    return;  // No variables to update
-  }
-  
-  // Allocate array to store variable names and new values
-  UpdatePair *updates = new UpdatePair[count];
-  int idx = 0;
-  
-  // First pass: evaluate ALL update expressions BEFORE updating any variables
-  // This ensures all update expressions see the old values of all variables
-  // This is critical for correct parallel binding semantics
-  it = var_update_list;
-  while (it->next) {
-    it = it->next;
-    auto list_wrapped = it->data;
-    if (!is_pair(list_wrapped)) {
-      eval_error("do: internal error - update list must be a pair");
-      delete[] updates;
-      return;
-    }
-    // list_wrapped is (var_name var_update_step)
-    auto var_update_expr = cast<SCM_List>(list_wrapped);
-    if (!var_update_expr->next) {
-      eval_error("do: internal error - update list must have two elements");
-      delete[] updates;
-      return;
-    }
-    if (!is_sym(var_update_expr->data)) {
-      eval_error("do: internal error - first element of update list must be a symbol");
-      delete[] updates;
-      return;
-    }
-    auto var_name = cast<SCM_Symbol>(var_update_expr->data);
-    auto var_update_step = var_update_expr->next->data;
-
-    // CRITICAL: Evaluate update expression in current environment (before any updates)
-    // This ensures all update expressions see the old values of all variables
-    auto new_var_val = eval_with_env(do_env, var_update_step);
-    if (!new_var_val) {
-      // Evaluation error occurred, clean up and return
-      delete[] updates;
-      return;
-    }
-    
+// Every iteration has its own locations for the variables: all step expressions are
+// evaluated in the scope of the finished iteration (parallel binding), their values
+// go into a fresh scope; a variable without step expression keeps its value
+static SCM_Environment *next_do_scope(SCM_Environment *env, SCM_Environment *do_env, SCM_List *vars) {
+  auto next_env = make_env(env);
+  for (auto it = vars; it; it = it->next) {
+    // it->data is (var step) or (var)
+    auto var = cast<SCM_List>(it->data);
+    auto var_name = cast<SCM_Symbol>(var->data);
+    auto val = var->next ? eval_with_env(do_env, var->next->data) : scm_env_exist(do_env, var_name);
     if (debug_enabled) {
-      SCM_DEBUG_EVAL("eval do step ... ");
-      print_ast(var_update_step);
-      printf(" --> ");
-      print_ast(new_var_val);
+      SCM_DEBUG_EVAL("eval do step ... %s --> ", var_name->data);
+      print_ast(val);
       printf("\n");
     }
-    updates[idx].var_name = var_name;
-    updates[idx].new_val = new_var_val;
-    idx++;
+    scm_env_insert(next_env, var_name, val, /*search_parent=*/false);
   }
-  
-  // Second pass: update all variables with the pre-computed values
-  // This happens AFTER all update expressions have been evaluated
-  // This implements parallel binding: all variables are updated simultaneously
-  for (int i = 0; i < count; i++) {
-    scm_env_insert(do_env, updates[i].var_name, updates[i].new_val, /*search_parent=*/false);
-  }
-  
-  delete[] updates;
+  return next_env;
 }
 
 // Helper function for do special form
@@ -147,15 +84,11 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     // Insert variable into do environment
     scm_env_insert(do_env, var_name, var_init_val, /*search_parent=*/false);
     
-    // Store update step if provided
-    if (var_update_step) {
-      // Store as a list: (var_name var_update_step)
-      SCM *var_name_wrapped = wrap(var_name);
-      SCM *pair = scm_list2(var_name_wrapped, var_update_step);
-      var_update_it->next = make_list(pair);
-      var_update_it = var_update_it->next;
-      var_update_it->next = nullptr;
-    }
+    // Remember the variable with its update step: (var_name [var_update_step])
+    SCM *var_name_wrapped = wrap(var_name);
+    SCM *pair = var_update_step ? scm_list2(var_name_wrapped, var_update_step) : scm_list1(var_name_wrapped);
+    var_update_it->next = make_list(pair);
+    var_update_it = var_update_it->next;
     var_init_it = var_init_it->next;
   }
 
@@ -203,7 +136,7 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     }
     
     // Update all variables (parallel binding)
-    update_do_variables(do_env, &var_update_dummy);
+    do_env = next_do_scope(env, do_env, var_update_dummy.next);
     
     // Re-evaluate test condition
     ret = eval_with_env(do_env, car(test_clause));
-- 
2.43.0


From b010b9cd5b087236114f5d6ff92b0be69b3fe6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:01 +0000
Subject: [PATCH 33/52] fix: malformed special forms aborted the interpreter
 instead of raising an error

---
 src/c/case.cc     |  9 +++++++-
 src/c/cond.cc     | 14 ++++++++++--
 src/c/define.cc   |  6 +++++-
 src/c/do.cc       |  5 ++++-
 src/c/dynwind.cc  |  5 ++++-
 src/c/eval.cc     | 24 +++++++++++++++++----
 src/c/for_each.cc |  5 ++++-
 src/c/let.cc      | 55 ++++++++++++++++++++++++++++++++++-------------
 8 files changed, 97 insertions(+), 26 deletions(-)

diff --git a/src/c/case.cc b/src/c/case.cc
index ea4f418..a85d5dd 100644
--- a/src/c/case.cc
+++ b/src/c/case.cc
@@ -22,7 +22,10 @@ static bool value_in_datums(SCM *value, SCM_List *datums) {
 // Helper function for case special form
 // Syntax: (case key ((datum1 ...) expr1 ...) ((datum2 ...) expr2 ...) ... (else expr ...))
 SCM *eval_case(SCM_Environment *env, SCM_List *l) {
-  assert(l->next);  // Must have at least key expression
+  if (!l->next) {
+    eval_error("case: missing key expression");
+    return nullptr;
+  }
   
   // Evaluate the key expression
   SCM *key = eval_with_env(env, l->next->data);
@@ -35,6 +38,10 @@ SCM *eval_case(SCM_Environment *env, SCM_List *l) {
   
   // Process each clause
   for (SCM_List *clause_it = l->next->next; clause_it; clause_it = clause_it->next) {
+    if (!is_pair(clause_it->data)) {
+      eval_error("case: a clause must be a non-empty list");
+      return nullptr;
+    }
     auto clause = cast<SCM_List>(clause_it->data);
     
     if (debug_enabled) {
diff --git a/src/c/cond.cc b/src/c/cond.cc
index 0375b94..0fe8173 100644
--- a/src/c/cond.cc
+++ b/src/c/cond.cc
@@ -9,8 +9,15 @@ static bool is_literal(SCM_Environment *env, SCM_Symbol *sym) {
 
 // Helper function for cond special form
 SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  if (!l->next) {
+    eval_error("cond: missing clauses");
+    return nullptr;
+  }
   for (auto it = l->next; it; it = it->next) {
+    if (!is_pair(it->data)) {
+      eval_error("cond: a clause must be a non-empty list");
+      return nullptr;
+    }
     auto clause = cast<SCM_List>(it->data);
     if (debug_enabled) {
       SCM_DEBUG_EVAL("eval cond clause ");
@@ -35,7 +42,10 @@ SCM *eval_cond(SCM_Environment *env, SCM_List *l, SCM **ast) {
       SCM_Symbol *arrow_sym = cast<SCM_Symbol>(clause->next->data);
       // Check if => is literal (not bound in environment), similar to Guile's literal_p
       if (is_literal(env, arrow_sym)) {
-        assert(clause->next->next);
+        if (!clause->next->next) {
+          eval_error("cond: missing procedure after =>");
+          return nullptr;
+        }
         // First evaluate the procedure (clause->next->next->data) to get the actual procedure
         // Then call it with pred as argument
         // Build: (proc (quote pred))
diff --git a/src/c/define.cc b/src/c/define.cc
index 3c5a0ab..34f4d0a 100644
--- a/src/c/define.cc
+++ b/src/c/define.cc
@@ -8,7 +8,11 @@ static bool is_local_scope(SCM_Environment *env) {
 }
 
 SCM *eval_define(SCM_Environment *env, SCM_List *l) {
-  if (l->next && is_sym(l->next->data)) {
+  if (!l->next || is_nil(l->next->data)) {
+    eval_error("define: missing name");
+    return nullptr;
+  }
+  if (is_sym(l->next->data)) {
     // Define variable: (define var value)
     SCM_Symbol *varname = cast<SCM_Symbol>(l->next->data);
     SCM_DEBUG_EVAL("define variable %s\n", varname->data);
diff --git a/src/c/do.cc b/src/c/do.cc
index e199722..45db0f0 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -26,7 +26,10 @@ static SCM_Environment *next_do_scope(SCM_Environment *env, SCM_Environment *do_
 SCM *eval_do(SCM_Environment *env, SCM_List *l) {
   assert(env);
   assert(l);
-  assert(l->next && l->next->next);
+  if (!l->next || !l->next->next) {
+    eval_error("do: expected bindings and a test clause");
+    return nullptr;
+  }
   auto var_init_l = cast<SCM_List>(l->next->data);
   auto test_clause = l->next->next->data;
   auto body_clause = l->next->next->next;  // May be null if no body
diff --git a/src/c/dynwind.cc b/src/c/dynwind.cc
index 0cf4cb0..8b8ff5a 100644
--- a/src/c/dynwind.cc
+++ b/src/c/dynwind.cc
@@ -177,7 +177,10 @@ void rewind_wind_chain(SCM_List *common, SCM_List *target) {
 
 // Dynamic-wind special form handler
 SCM *eval_dynamic_wind(SCM_Environment *env, SCM_List *l) {
-  assert(l->next && l->next->next && l->next->next->next);
+  if (!l->next || !l->next->next || !l->next->next->next) {
+    eval_error("dynamic-wind: requires 3 arguments");
+    return nullptr;
+  }
   
   // Evaluate the three arguments: in_guard, thunk, out_guard
   SCM *in_guard_val = eval_with_env(env, l->next->data);
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 50a6819..980a602 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -8,7 +8,10 @@
 #include <cstdlib>
 
 SCM *eval_with_list(SCM_Environment *env, SCM_List *l) {
-  assert(l);
+  if (!l) {
+    eval_error("missing expression");
+    return nullptr;
+  }
   SCM *ret = nullptr;
   while (l) {
     ret = eval_with_env(env, l->data);
@@ -70,7 +73,10 @@ static SCM *eval_quote(SCM_List *l) {
 SCM *eval_quasiquote(SCM_Environment *env, SCM_List *l);
 
 static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
-  assert(l->next && is_sym(l->next->data));
+  if (!l->next || !is_sym(l->next->data) || !l->next->next) {
+    eval_error("set!: expected a variable and an expression");
+    return nullptr;
+  }
   auto sym = cast<SCM_Symbol>(l->next->data);
   auto val = eval_with_env(env, l->next->next->data);
   
@@ -122,6 +128,10 @@ static SCM *eval_set(SCM_Environment *env, SCM_List *l) {
 }
 
 SCM *eval_lambda(SCM_Environment *env, SCM_List *l) {
+  if (!l->next) {
+    eval_error("lambda: missing parameter list");
+    return nullptr;
+  }
   SCM *param_spec = l->next->data;
   SCM_List *proc_sig = nullptr;
   
@@ -166,7 +176,10 @@ static SCM *lookup_symbol(SCM_Environment *env, SCM_Symbol *sym) {
 
 // Helper function for if special form
 static SCM *eval_if(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  if (!l->next || !l->next->next) {
+    eval_error("if: expected a test and an expression");
+    return nullptr;
+  }
   auto pred = eval_with_env(env, l->next->data);
   // In Scheme, only #f is falsy, everything else is truthy
   if (is_truthy(pred)) {
@@ -232,7 +245,10 @@ static SCM *eval_or(SCM_Environment *env, SCM_List *l, SCM **ast) {
 
 // Helper function for call/cc special form
 static SCM *eval_call_cc(SCM_Environment *env, SCM_List *l, SCM **ast) {
-  assert(l->next);
+  if (!l->next) {
+    eval_error("call/cc: requires 1 argument (procedure)");
+    return nullptr;
+  }
   auto proc = eval_with_env(env, l->next->data);
   int first;
   auto cont = scm_make_continuation(&first);
diff --git a/src/c/for_each.cc b/src/c/for_each.cc
index 047d159..7a8a483 100644
--- a/src/c/for_each.cc
+++ b/src/c/for_each.cc
@@ -32,7 +32,10 @@ static inline bool is_list_exhausted(SCM_List *list) {
 //   - list1, list2, ...: lists of arguments (must have same length)
 //
 SCM *eval_for_each(SCM_Environment *env, SCM_List *l) {
-  assert(l->next);
+  if (!l->next) {
+    eval_error("for-each: expected a procedure and lists");
+    return nullptr;
+  }
   auto f = eval_with_env(env, l->next->data);
   
   // Every list given supplies one argument
diff --git a/src/c/let.cc b/src/c/let.cc
index 68aa975..69ec0e7 100644
--- a/src/c/let.cc
+++ b/src/c/let.cc
@@ -3,8 +3,10 @@
 
 SCM *expand_let(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  if (!l->next || !l->next->next) {
+    eval_error("let: expected bindings and a body");
+    return nullptr;
+  }
   SCM_List dummy_params = make_list_dummy();
   SCM_List dummy_args = make_list_dummy();
   auto params = &dummy_params;
@@ -41,7 +43,10 @@ SCM *expand_let(SCM *expr) {
     So if there's a variable shadowing issue, we need to evaluate the
     args in the outer environment first.
     */
-    assert(l->next->next->next);
+    if (!l->next->next->next) {
+      eval_error("let: expected bindings and a body");
+      return nullptr;
+    }
     auto argl = l->next->next->data;
     auto body = l->next->next->next;  // all body expressions
     
@@ -189,13 +194,21 @@ SCM *expand_let(SCM *expr) {
         printf("\n");
       }
     }
-    assert(is_pair(func_args));
+    if (!is_pair(func_args)) {
+      eval_error("let: bindings must be a list");
+      return nullptr;
+    }
     auto argl = cast<SCM_List>(func_args);
     while (argl) {
-      assert(argl->data);
-      assert(is_pair(argl->data));
+      if (!is_pair(argl->data)) {
+        eval_error("let: a binding must be a list");
+        return nullptr;
+      }
       auto arg = cast<SCM_List>(argl->data);
-      assert(arg->next);
+      if (!arg->next || !is_sym(arg->data)) {
+        eval_error("let: a binding must be a variable and an expression");
+        return nullptr;
+      }
       auto new_param = make_list(arg->data);
       params->next = new_param;
       params = params->next;
@@ -247,8 +260,10 @@ SCM *expand_let(SCM *expr) {
 
 SCM *expand_letstar(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  if (!l->next || !l->next->next) {
+    eval_error("let*: expected bindings and a body");
+    return nullptr;
+  }
   SCM *ast = nullptr;
   auto bindings = l->next->data;
   
@@ -356,8 +371,10 @@ expanded as
 */
 SCM *expand_letrec(SCM *expr) {
   auto l = cast<SCM_List>(expr);
-  assert(l->next);
-  assert(l->next->next);
+  if (!l->next || !l->next->next) {
+    eval_error("letrec: expected bindings and a body");
+    return nullptr;
+  }
   SCM_List dummy_params = make_list_dummy();
   SCM_List dummy_args = make_list_dummy();
   auto params = &dummy_params;
@@ -379,13 +396,21 @@ SCM *expand_letrec(SCM *expr) {
     return ast;
   }
   else {
-    assert(is_pair(func_args));
+    if (!is_pair(func_args)) {
+      eval_error("letrec: bindings must be a list");
+      return nullptr;
+    }
     auto argl = cast<SCM_List>(func_args);
     while (argl) {
-      assert(argl->data);
-      assert(is_pair(argl->data));
+      if (!is_pair(argl->data)) {
+        eval_error("letrec: a binding must be a list");
+        return nullptr;
+      }
       auto arg = cast<SCM_List>(argl->data);
-      assert(arg->next);
+      if (!arg->next || !is_sym(arg->data)) {
+        eval_error("letrec: a binding must be a variable and an expression");
+        return nullptr;
+      }
 
       // Save arg->data and arg->next->data to avoid issues with temporary objects
       // These are SCM * pointers, so we can use them directly
-- 
2.43.0


From bbc297a9b80c929183b7938a590e013594bd59a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:10 +0000
Subject: [PATCH 34/52] fix: map kept its lists where the garbage collector
 does not look

---
 src/c/map.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/c/map.cc b/src/c/map.cc
index 51be5b2..a8ba1fb 100644
--- a/src/c/map.cc
+++ b/src/c/map.cc
@@ -54,7 +54,8 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
   }
   
   // Evaluate all list arguments and store them
-  SCM_List **list_ptrs = new SCM_List*[num_lists];
+  // On the C stack: the garbage collector scans it, and continuations save it
+  SCM_List **list_ptrs = (SCM_List **)alloca(sizeof(SCM_List *) * num_lists);
   temp = list_args_head;
   for (int i = 0; i < num_lists; i++) {
     // Always evaluate list arguments
@@ -126,8 +127,6 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
     }
   }
   
-  delete[] list_ptrs;
-  
   if (dummy.next) {
     return wrap(dummy.next);
   }
-- 
2.43.0


From a78556bb7c791ea78d56ffef68f21c2da5c0d032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:40 +0000
Subject: [PATCH 35/52] fix: continuations ran the guards of dynamic-wind in
 the wrong order and too many of them

---
 src/c/dynwind.cc | 132 +++++++++++++----------------------------------
 1 file changed, 36 insertions(+), 96 deletions(-)

diff --git a/src/c/dynwind.cc b/src/c/dynwind.cc
index 8b8ff5a..75fa366 100644
--- a/src/c/dynwind.cc
+++ b/src/c/dynwind.cc
@@ -24,86 +24,44 @@ SCM_List *copy_wind_chain(SCM_List *chain) {
   return new_chain;
 }
 
-// Helper function to find common prefix of two wind chains
-// Compares entries by their data pointer (the (in_guard . out_guard) pair)
-SCM_List *find_common_prefix(SCM_List *chain1, SCM_List *chain2) {
-  if (!chain1 || !chain2) {
-    return nullptr;  // If either is empty, no common prefix
+static int wind_chain_length(SCM_List *chain) {
+  int len = 0;
+  while (chain) {
+    len++;
+    chain = chain->next;
   }
-  
-  // Compare entries by their data pointer
-  SCM_List *c1 = chain1;
-  SCM_List *c2 = chain2;
-  int common_count = 0;
-  
-  while (c1 && c2 && c1->data == c2->data) {
-    common_count++;
-    c1 = c1->next;
-    c2 = c2->next;
+  return len;
+}
+
+// Find the part shared by two wind chains. The innermost entry comes first, so
+// the shared entries are at the end. Returns the shared tail of chain1.
+// Compares entries by their data pointer (the (in_guard . out_guard) pair)
+static SCM_List *find_common_tail(SCM_List *chain1, SCM_List *chain2) {
+  int len1 = wind_chain_length(chain1);
+  int len2 = wind_chain_length(chain2);
+  for (; len1 > len2; len1--) {
+    chain1 = chain1->next;
   }
-  
-  if (common_count == 0) {
-    return nullptr;  // No common prefix
+  for (; len2 > len1; len2--) {
+    chain2 = chain2->next;
   }
-  
-  // Build the common prefix list
-  SCM_List *common = nullptr;
-  SCM_List **tail = &common;
-  SCM_List *c = chain1;
-  for (int i = 0; i < common_count; i++) {
-    *tail = make_list(c->data);
-    tail = &((*tail)->next);
-    c = c->next;
+  while (chain1 && chain1->data != chain2->data) {
+    chain1 = chain1->next;
+    chain2 = chain2->next;
   }
-  
-  return common;
+  return chain1;
 }
 
-// Unwind wind chain: call out_guard for each entry from current to target
-// Returns the common prefix
+// Unwind wind chain: call out_guard for each entry from current to target, from
+// the innermost to the outermost
+// Returns the common part
 SCM_List *unwind_wind_chain(SCM_List *target) {
-  SCM_List *current = g_wind_chain;
-  
-  // Find common prefix
-  SCM_List *common = find_common_prefix(current, target);
-  
-  // Unwind from current to common (call out_guard for each entry not in common)
-  // Build a list of entries to unwind (in reverse order, so we unwind in correct order)
-  SCM_List *to_unwind = nullptr;
-  SCM_List *c = current;
-  
-  // Collect entries that need to be unwound
-  while (c) {
-    // Check if this entry is in common
-    bool in_common = false;
-    if (common) {
-      SCM_List *check = common;
-      while (check) {
-        if (check->data == c->data) {
-          in_common = true;
-          break;
-        }
-        check = check->next;
-      }
-    }
-    
-    if (!in_common) {
-      // Add to unwind list (in reverse order)
-      auto new_entry = make_list(c->data);
-      new_entry->next = to_unwind;
-      to_unwind = new_entry;
-    }
-    else {
-      // We've reached the common prefix, stop
-      break;
-    }
-    
-    c = c->next;
-  }
-  
-  // Now unwind in reverse order (which is the correct order)
-  while (to_unwind) {
-    SCM *entry = to_unwind->data;
+  SCM_List *common = find_common_tail(g_wind_chain, target);
+
+  while (g_wind_chain && g_wind_chain != common) {
+    SCM *entry = g_wind_chain->data;
+    // An out_guard runs outside of its own entry
+    g_wind_chain = g_wind_chain->next;
     if (is_pair(entry)) {
       SCM_List *pair = cast<SCM_List>(entry);
       if (pair->next && pair->next->data) {
@@ -115,36 +73,18 @@ SCM_List *unwind_wind_chain(SCM_List *target) {
         }
       }
     }
-    to_unwind = to_unwind->next;
   }
-  
-  // Update wind chain to common prefix
-  g_wind_chain = common;
+
   return common;
 }
 
 // Rewind wind chain: call in_guard for each entry from common to target
 void rewind_wind_chain(SCM_List *common, SCM_List *target) {
-  // Build list of entries to rewind (from target, excluding common)
+  // Build list of entries to rewind: the entries of target in front of the common
+  // ones, reversed so that the outermost comes first
   SCM_List *to_rewind = nullptr;
-  SCM_List *target_current = target;
-  
-  // Count how many entries in common
-  int common_count = 0;
-  SCM_List *c = common;
-  while (c) {
-    common_count++;
-    c = c->next;
-  }
-  
-  // Skip common entries in target
-  c = target;
-  for (int i = 0; i < common_count && c; i++) {
-    c = c->next;
-  }
-  
-  // Collect entries to rewind (in reverse order)
-  while (c) {
+  SCM_List *c = target;
+  for (int n = wind_chain_length(target) - wind_chain_length(common); n > 0; n--) {
     auto new_entry = make_list(c->data);
     new_entry->next = to_rewind;
     to_rewind = new_entry;
-- 
2.43.0


From f66e4babdbabbdca5dcf55e1a21c108bb0c664a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:20 +0000
Subject: [PATCH 36/52] fix: an error left dynamic-winds without running their
 guards and a continuation that left a catch kept its handler active

---
 src/c/continuation.cc |  6 ++++
 src/c/gc.cc           |  2 ++
 src/c/pscm.h          |  1 +
 src/c/pscm_types.h    |  1 +
 src/c/throw.cc        | 70 +++++++++++++++++--------------------------
 src/c/throw.h         |  4 +++
 6 files changed, 42 insertions(+), 42 deletions(-)

diff --git a/src/c/continuation.cc b/src/c/continuation.cc
index ae5ebda..b95e66b 100644
--- a/src/c/continuation.cc
+++ b/src/c/continuation.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include "throw.h"
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -51,6 +52,9 @@ SCM *scm_make_continuation(int *first) {
   // Save current wind chain
   cont->wind_chain = copy_wind_chain(g_wind_chain);
   
+  // Save current catches
+  cont->catch_stack = scm_catch_stack();
+  
   // Save current module (needed for variable lookup after continuation restore)
   cont->saved_module = scm_current_module();
   
@@ -59,6 +63,8 @@ SCM *scm_make_continuation(int *first) {
     return data;
   }
   else {
+    // Restore the catches, which are on the restored stack
+    scm_set_catch_stack(cont->catch_stack);
     // Restore current module when continuation is invoked
     if (cont->saved_module) {
       scm_set_current_module(cont->saved_module);
diff --git a/src/c/gc.cc b/src/c/gc.cc
index a150d8c..9050f37 100644
--- a/src/c/gc.cc
+++ b/src/c/gc.cc
@@ -261,6 +261,8 @@ void *gc_alloc(TypeTag tag, size_t size) {
 
   } else {
     // Large-object bucket (first-fit).
+    // The sweep finds the next block by this size: keep it aligned.
+    size = (size + 15) & ~(size_t)15;
     GCBlock *prev = nullptr;
     block = free_lists[LARGE_BUCKET];
     while (block) {
diff --git a/src/c/pscm.h b/src/c/pscm.h
index c0dc6f9..9905e31 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -192,6 +192,7 @@ inline SCM_Continuation *make_cont(size_t stack_len, void *stack_data, long *src
   cont->stack_len = stack_len;
   cont->stack_data = stack_data;
   cont->wind_chain = nullptr;
+  cont->catch_stack = nullptr;
   cont->saved_module = nullptr;
   cont->stack_src = src_addr;
   return cont;
diff --git a/src/c/pscm_types.h b/src/c/pscm_types.h
index b063ed3..1322a91 100644
--- a/src/c/pscm_types.h
+++ b/src/c/pscm_types.h
@@ -95,6 +95,7 @@ struct SCM_Continuation {
   SCM *arg;
   SCM_List *wind_chain; // Saved wind chain when continuation was created
   SCM *saved_module;    // Saved current module when continuation was created
+  void *catch_stack;     // Saved active catches when continuation was created
   long *stack_src;      // Saved stack source address at capture time (cont_base - stack_size)
 };
 
diff --git a/src/c/throw.cc b/src/c/throw.cc
index 24aa4e3..e120f9b 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -9,9 +9,9 @@
 
 // Standard error key is now in throw.h as inline variable
 
-// Global catch stack (shared between scm_c_catch and scm_throw)
-static struct catch_info *g_catch_stack[100];
-static int g_catch_stack_top = 0;
+// The innermost active catch (shared between scm_c_catch and scm_throw). The
+// catch_infos are on the C stack, linked from the innermost to the outermost
+static struct catch_info *g_catch_stack_top = nullptr;
 
 // Jump buffer and return value structure
 struct jmp_buf_and_retval {
@@ -27,8 +27,21 @@ struct catch_info {
   struct jmp_buf_and_retval *jbr;  // Jump buffer and return value
   scm_t_catch_handler handler;     // Handler function
   void *handler_data;     // Handler data
+  SCM_List *wind_chain;   // Wind chain outside of the body
+  struct catch_info *prev; // The enclosing catch
 };
 
+void *scm_catch_stack() {
+  return g_catch_stack_top;
+}
+
+void scm_set_catch_stack(void *catch_stack) {
+  g_catch_stack_top = (struct catch_info *)catch_stack;
+}
+
+// Forward declaration
+SCM_List *unwind_wind_chain(SCM_List *target);
+
 // Structure to hold lazy catch handler information
 struct lazy_catch_data {
   SCM *tag;
@@ -71,45 +84,19 @@ SCM *scm_c_catch(SCM *tag,
   info.handler = handler;
   info.handler_data = handler_data;
   
-  // Create a pair (tag . catch_info) to store in wind chain
-  // We'll use a special marker to distinguish catch entries from wind entries
-  // For simplicity, we'll store the catch_info pointer in a list
-  // Format: (tag . (jbr_ptr . (handler_ptr . handler_data_ptr)))
-  // Actually, we need to store pointers, so let's use a simpler approach:
-  // Store catch_info pointer directly (it's on stack, so it's safe)
-  
-  // Create entry: (tag . catch_info_ptr)
-  // We'll use a list where data is tag and next->data is catch_info pointer
-  // But SCM_List stores SCM*, not void*. So we need another approach.
-  // Let's create a special SCM object to hold the catch_info pointer.
-  // Actually, for now, let's just store it in a global list temporarily.
-  // Better: use a hash table or similar. But for simplicity, let's use a list.
-  
-  // For now, we'll use a simpler approach: store catch_info in a static array
-  // and use an index. But that's not scalable.
-  
-  // Better approach: create a wrapper SCM object that holds the catch_info pointer
-  // But we don't have a way to create custom SCM objects easily.
+  info.wind_chain = g_wind_chain;
+  info.prev = g_catch_stack_top;
   
-  // Simplest approach for now: use a global list of active catch_info structures
-  // We'll add the catch_info to a list when entering catch, remove when exiting.
-  // But we need to be careful about nested catches.
-  
-  // Actually, let's use a different approach: store catch_info in the wind chain
-  // by creating a special marker. We can use a special symbol or a special list structure.
-  
-  if (g_catch_stack_top >= 100) {
-    eval_error("catch: too many nested catches");
-    return nullptr;
-  }
-
   // Push catch_info onto stack
-  g_catch_stack[g_catch_stack_top++] = &info;
+  g_catch_stack_top = &info;
   
   // Set up jump buffer
   if (setjmp(jbr.buf)) {
-    // Exception was thrown - we're in the catch handler
-    g_catch_stack_top--;  // Pop from stack
+    // Exception was thrown - leave the dynamic-winds entered by the body
+    unwind_wind_chain(info.wind_chain);
+    
+    // We're in the catch handler
+    g_catch_stack_top = info.prev;  // Pop from stack
     
     SCM *throw_tag = jbr.throw_tag;
     SCM *throw_args = jbr.throw_args;
@@ -124,7 +111,7 @@ SCM *scm_c_catch(SCM *tag,
     jbr.active = false;
     
     // Pop from stack
-    g_catch_stack_top--;
+    g_catch_stack_top = info.prev;
     
     return result;
   }
@@ -174,11 +161,10 @@ SCM *scm_throw(SCM *key, SCM *args) {
   
   // Then, find matching catch in the catch stack (normal catch with stack unwinding)
   // Search from top to bottom (most recent catch first)
-  for (int i = g_catch_stack_top - 1; i >= 0; i--) {
-    struct catch_info *info = g_catch_stack[i];
-    
-    if (info && info->jbr && info->jbr->active && tags_match(info->tag, key)) {
+  for (struct catch_info *info = g_catch_stack_top; info; info = info->prev) {
+    if (info->jbr && info->jbr->active && tags_match(info->tag, key)) {
       // Found matching catch - set throw info and jump
+      g_catch_stack_top = info;
       info->jbr->throw_tag = key;
       info->jbr->throw_args = args;
       longjmp(info->jbr->buf, 1);
diff --git a/src/c/throw.h b/src/c/throw.h
index 96388a8..e512767 100644
--- a/src/c/throw.h
+++ b/src/c/throw.h
@@ -16,6 +16,10 @@ SCM *scm_c_catch(SCM *tag,
                  scm_t_catch_body body, void *body_data,
                  scm_t_catch_handler handler, void *handler_data);
 
+// The active catches, which a continuation saves and restores
+void *scm_catch_stack();
+void scm_set_catch_stack(void *catch_stack);
+
 // Throw exception
 SCM *scm_throw(SCM *key, SCM *args);
 
-- 
2.43.0


From f537da1c8ddcdf0263236dd034ca909f38597902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 37/52] fix: re-entering a continuation changed the variables
 and results of the calls that had already returned

---
 src/c/do.cc        | 29 +++++++++++++++++++++++------
 src/c/map.cc       | 20 ++++++++++++--------
 src/c/procedure.cc | 13 ++++++++-----
 3 files changed, 43 insertions(+), 19 deletions(-)

diff --git a/src/c/do.cc b/src/c/do.cc
index 45db0f0..c3100b6 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -1,12 +1,25 @@
 #include "pscm.h"
 #include "eval.h"
 
+// A scope for one iteration, made after all its values are known: a continuation captured
+// by one of the expressions that returns again makes another scope
+static SCM_Environment *make_do_scope(SCM_Environment *env, SCM_List *vars, SCM_List *vals) {
+  auto do_env = make_env(env);
+  for (auto it = vars; it; it = it->next) {
+    auto var = cast<SCM_List>(it->data);
+    scm_env_insert(do_env, cast<SCM_Symbol>(var->data), vals->data, /*search_parent=*/false);
+    vals = vals->next;
+  }
+  return do_env;
+}
+
 // Helper function to update do loop variables
 // Every iteration has its own locations for the variables: all step expressions are
 // evaluated in the scope of the finished iteration (parallel binding), their values
 // go into a fresh scope; a variable without step expression keeps its value
 static SCM_Environment *next_do_scope(SCM_Environment *env, SCM_Environment *do_env, SCM_List *vars) {
-  auto next_env = make_env(env);
+  SCM_List vals = make_list_dummy();
+  auto tail = &vals;
   for (auto it = vars; it; it = it->next) {
     // it->data is (var step) or (var)
     auto var = cast<SCM_List>(it->data);
@@ -17,9 +30,10 @@ static SCM_Environment *next_do_scope(SCM_Environment *env, SCM_Environment *do_
       print_ast(val);
       printf("\n");
     }
-    scm_env_insert(next_env, var_name, val, /*search_parent=*/false);
+    tail->next = make_list(val);
+    tail = tail->next;
   }
-  return next_env;
+  return make_do_scope(env, vars, vals.next);
 }
 
 // Helper function for do special form
@@ -46,7 +60,8 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     print_list(body_clause);
     printf("\n");
   }
-  auto do_env = make_env(env);
+  SCM_List init_vals = make_list_dummy();
+  auto init_vals_tail = &init_vals;
 
   auto var_init_it = var_init_l;
   SCM_List var_update_dummy = make_list_dummy();
@@ -84,8 +99,8 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
       var_update_step = var_init_expr->next->next->data;
     }
 
-    // Insert variable into do environment
-    scm_env_insert(do_env, var_name, var_init_val, /*search_parent=*/false);
+    init_vals_tail->next = make_list(var_init_val);
+    init_vals_tail = init_vals_tail->next;
     
     // Remember the variable with its update step: (var_name [var_update_step])
     SCM *var_name_wrapped = wrap(var_name);
@@ -95,6 +110,8 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
     var_init_it = var_init_it->next;
   }
 
+  auto do_env = make_do_scope(env, var_update_dummy.next, init_vals.next);
+
   auto test_clause_list = cast<SCM_List>(test_clause);
   if (!test_clause_list) {
     eval_error("do: test clause must be a list");
diff --git a/src/c/map.cc b/src/c/map.cc
index a8ba1fb..0de46ad 100644
--- a/src/c/map.cc
+++ b/src/c/map.cc
@@ -68,9 +68,9 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
     temp = temp->next;
   }
   
-  // Build result list by applying proc to corresponding elements
-  SCM_List dummy = make_list_dummy();
-  SCM_List *tail = &dummy;
+  // Collect the results of applying proc to corresponding elements, the last one first:
+  // a continuation captured by proc that returns again must not change this list
+  SCM_List *results = nullptr;
   
   // Continue until the shortest list is exhausted
   bool all_non_empty = true;
@@ -114,8 +114,8 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
     
     // Add result to result list
     SCM_List *node = make_list(result);
-    tail->next = node;
-    tail = node;
+    node->next = results;
+    results = node;
     
     // Check if all lists still have elements
     all_non_empty = true;
@@ -127,10 +127,14 @@ SCM *eval_map(SCM_Environment *env, SCM_List *l) {
     }
   }
   
-  if (dummy.next) {
-    return wrap(dummy.next);
+  SCM_List *ret = nullptr;
+  while (results) {
+    SCM_List *node = make_list(results->data);
+    node->next = ret;
+    ret = node;
+    results = results->next;
   }
-  return scm_nil();
+  return ret ? wrap(ret) : scm_nil();
 }
 
 void init_map() {
diff --git a/src/c/procedure.cc b/src/c/procedure.cc
index f6aec98..6835103 100644
--- a/src/c/procedure.cc
+++ b/src/c/procedure.cc
@@ -97,12 +97,15 @@ SCM *apply_procedure_with_values(SCM_Environment *env, SCM_Procedure *proc, SCM_
 
 // Helper function to apply procedure with arguments
 SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args) {
+  // All operands are evaluated before the new scope is made: a continuation captured
+  // by one of them that returns again makes another scope
+  auto values = eval_list_with_env(env, args);
   auto proc_env = make_env(proc->env);
   auto args_l = proc->args;
   // Save original args for error reporting - create a copy of the list structure
   // (we only need the structure, not the values, for error reporting)
   SCM_List *original_args = args; // Save original args pointer for error reporting
-  SCM_List *args_iter = args;     // Use separate iterator for the loop
+  SCM_List *args_iter = values;   // Use separate iterator for the loop
   
   // Check if the last parameter is a rest parameter (dotted pair: (a b . c))
   // For (a b), the structure is: (a . (b . nil))
@@ -145,7 +148,7 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
     SCM_List rest_args_dummy = make_list_dummy();
     SCM_List *rest_args_tail = &rest_args_dummy;
     while (args_iter) {
-      SCM *arg_val = eval_with_env(env, args_iter->data);
+      SCM *arg_val = args_iter->data;
       SCM_List *node = make_list(arg_val);
       rest_args_tail->next = node;
       rest_args_tail = node;
@@ -179,7 +182,7 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
         return nullptr;
       }
       auto arg_sym = cast<SCM_Symbol>(current_param->data);
-      auto arg_val = eval_with_env(env, args_iter->data);
+      auto arg_val = args_iter->data;
       scm_env_insert(proc_env, arg_sym, arg_val, /*search_parent=*/false);
       if (debug_enabled) {
         SCM_DEBUG_EVAL("bind func arg ");
@@ -194,7 +197,7 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
       SCM_List rest_args_dummy = make_list_dummy();
       SCM_List *rest_args_tail = &rest_args_dummy;
       while (args_iter) {
-        SCM *arg_val = eval_with_env(env, args_iter->data);
+        SCM *arg_val = args_iter->data;
         SCM_List *node = make_list(arg_val);
         rest_args_tail->next = node;
         rest_args_tail = node;
@@ -226,7 +229,7 @@ SCM *apply_procedure(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args)
         return nullptr;
       }
       auto arg_sym = cast<SCM_Symbol>(current_param->data);
-      auto arg_val = eval_with_env(env, args_iter->data);
+      auto arg_val = args_iter->data;
       scm_env_insert(proc_env, arg_sym, arg_val, /*search_parent=*/false);
       if (debug_enabled) {
         SCM_DEBUG_EVAL("bind func arg ");
-- 
2.43.0


From ab230de61645081a89a7e5af27716533cd0ceb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:06 +0000
Subject: [PATCH 38/52] fix: scm_call_N and scm_apply_0 evaluated their
 arguments again, and rest lists shared the caller's list

---
 src/c/apply.cc     | 10 +++++-----
 src/c/procedure.cc | 15 +++++++++++++--
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index 8fdb07a..52c0684 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -22,7 +22,7 @@ SCM *scm_call_0(SCM *proc) {
   if (is_proc(proc)) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    return apply_procedure(env, proc_obj, nullptr);
+    return apply_procedure_with_values(env, proc_obj, nullptr);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -47,7 +47,7 @@ SCM *scm_call_1(SCM *proc, SCM *arg1) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
     SCM_List *args = make_list(arg1);
-    return apply_procedure(env, proc_obj, args);
+    return apply_procedure_with_values(env, proc_obj, args);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -74,7 +74,7 @@ SCM *scm_call_2(SCM *proc, SCM *arg1, SCM *arg2) {
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
     SCM_List *args = make_list(arg1);
     args->next = make_list(arg2);
-    return apply_procedure(env, proc_obj, args);
+    return apply_procedure_with_values(env, proc_obj, args);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -103,7 +103,7 @@ SCM *scm_call_3(SCM *proc, SCM *arg1, SCM *arg2, SCM *arg3) {
     SCM_List *args = make_list(arg1);
     args->next = make_list(arg2);
     args->next->next = make_list(arg3);
-    return apply_procedure(env, proc_obj, args);
+    return apply_procedure_with_values(env, proc_obj, args);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
@@ -139,7 +139,7 @@ SCM *scm_apply_0(SCM *proc, SCM *args) {
   if (is_proc(proc)) {
     SCM_Procedure *proc_obj = cast<SCM_Procedure>(proc);
     SCM_Environment *env = proc_obj->env ? proc_obj->env : &g_env;
-    return apply_procedure(env, proc_obj, args_list);
+    return apply_procedure_with_values(env, proc_obj, args_list);
   } else if (is_func(proc)) {
     SCM_Function *func_obj = cast<SCM_Function>(proc);
     SCM_List dummy_list;
diff --git a/src/c/procedure.cc b/src/c/procedure.cc
index 6835103..ff60586 100644
--- a/src/c/procedure.cc
+++ b/src/c/procedure.cc
@@ -1,6 +1,17 @@
 #include "pscm.h"
 #include "eval.h"
 
+// The arguments for a rest parameter, as a list of its own
+static SCM *copy_values(SCM_List *args) {
+  SCM_List dummy = make_list_dummy();
+  SCM_List *tail = &dummy;
+  for (; args; args = args->next) {
+    tail->next = make_list(args->data);
+    tail = tail->next;
+  }
+  return dummy.next ? wrap(dummy.next) : scm_nil();
+}
+
 // Apply procedure with already-evaluated arguments (values)
 // This is used by catch/throw handlers, where arguments are already evaluated
 SCM *apply_procedure_with_values(SCM_Environment *env, SCM_Procedure *proc, SCM_List *args) {
@@ -36,7 +47,7 @@ SCM *apply_procedure_with_values(SCM_Environment *env, SCM_Procedure *proc, SCM_
   // Special case: only rest parameter (e.g., (values . things))
   if (only_rest_param) {
     // Bind all arguments to the rest parameter (args are already evaluated)
-    SCM *rest_val = args_iter ? wrap(args_iter) : scm_nil();
+    SCM *rest_val = copy_values(args_iter);
     scm_env_insert(proc_env, rest_param_sym, rest_val, /*search_parent=*/false);
     
     // Execute procedure body
@@ -81,7 +92,7 @@ SCM *apply_procedure_with_values(SCM_Environment *env, SCM_Procedure *proc, SCM_
   // Bind rest parameter if present
   if (has_rest_param) {
     // Collect remaining arguments into a list (they are already evaluated)
-    SCM *rest_val = args_iter ? wrap(args_iter) : scm_nil();
+    SCM *rest_val = copy_values(args_iter);
     scm_env_insert(proc_env, rest_param_sym, rest_val, /*search_parent=*/false);
   } else {
     // No rest parameter - check for too many arguments
-- 
2.43.0


From 0ceabb0e6801ac54981502e1b009bace5b42c181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:28 +0000
Subject: [PATCH 39/52] fix: call/cc, map and apply could not be called through
 a variable or by other procedures

---
 src/c/apply.cc        | 63 +++++++++++--------------------------------
 src/c/continuation.cc | 20 +++++++++-----
 src/c/eval.cc         | 41 ----------------------------
 src/c/eval.h          |  1 +
 src/c/function.cc     | 17 ------------
 src/c/map.cc          | 20 +++++++-------
 6 files changed, 41 insertions(+), 121 deletions(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index 52c0684..eb59bfe 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -2,14 +2,23 @@
 #include "eval.h"
 
 // Wrapper function for apply as a builtin function
-// This function is called when apply is used as a value (not as a special form)
-// It receives already-evaluated arguments, but apply needs to handle evaluation itself
-// So we create a dummy function that will be handled specially in eval.cc
+// This function is called when apply is passed to another procedure
+// It receives already-evaluated arguments, and eval_apply evaluates its operands
 SCM *scm_c_apply(SCM_List *args) {
-  // This function should never be called directly
-  // It's registered as a placeholder, and eval.cc will handle it specially
-  eval_error("apply: internal error - should be handled as special form");
-  return nullptr;
+  SCM_List call = make_list_dummy();
+  call.next = quote_args(args);
+  return eval_apply(&g_env, &call);
+}
+
+// Operands that evaluate to the given values
+SCM_List *quote_args(SCM_List *args) {
+  SCM_List dummy = make_list_dummy();
+  SCM_List *tail = &dummy;
+  for (; args; args = args->next) {
+    tail->next = make_list(scm_list2(scm_sym_quote(), args->data));
+    tail = tail->next;
+  }
+  return dummy.next;
 }
 
 // scm_call_0: Call procedure with 0 arguments
@@ -350,46 +359,6 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
       map_call.next = args_dummy.next;
       return eval_map(env, &map_call);
     }
-    // Special handling for call-with-current-continuation: if it's being applied, handle it specially
-    if (func_obj->name && (strcmp(func_obj->name->data, "call-with-current-continuation") == 0 || 
-                           strcmp(func_obj->name->data, "call/cc") == 0)) {
-      // This is call-with-current-continuation being applied
-      // args_dummy.next should contain a single argument (the procedure)
-      if (!args_dummy.next) {
-        eval_error("call-with-current-continuation: requires 1 argument (procedure)");
-        return nullptr;
-      }
-      // The argument might be wrapped in quote, so we need to evaluate it
-      SCM *proc_arg_expr = args_dummy.next->data;
-      SCM *proc_arg = eval_with_env(env, proc_arg_expr);
-      if (!proc_arg) {
-        eval_error("call-with-current-continuation: failed to evaluate argument");
-        return nullptr;
-      }
-      if (!is_proc(proc_arg) && !is_func(proc_arg)) {
-        eval_error("call-with-current-continuation: argument must be a procedure");
-        return nullptr;
-      }
-      // Create continuation and call procedure
-      int first;
-      auto cont = scm_make_continuation(&first);
-      if (!first) {
-        // Continuation was invoked, return the argument
-        return cont;
-      }
-      // Call procedure with continuation
-      SCM_List *cont_list = make_list(cont);
-      if (is_proc(proc_arg)) {
-        return apply_procedure(env, cast<SCM_Procedure>(proc_arg), cont_list);
-      } else {
-        // For function, evaluate arguments and call
-        SCM_List *evaled_args = eval_list_with_env(env, cont_list);
-        SCM_List func_call;
-        func_call.data = proc_arg;
-        func_call.next = evaled_args;
-        return eval_with_func(cast<SCM_Function>(proc_arg), &func_call);
-      }
-    }
     SCM_List *evaled_args = eval_list_with_env(env, args_dummy.next);
     SCM_List func_call;
     func_call.data = proc;
diff --git a/src/c/continuation.cc b/src/c/continuation.cc
index b95e66b..835093a 100644
--- a/src/c/continuation.cc
+++ b/src/c/continuation.cc
@@ -132,13 +132,21 @@ void grow_stack(SCM *cont, SCM *args) {
   scm_dynthrow(cont, args);
 }
 
-// Wrapper function for call-with-current-continuation as a builtin function
-// This function is called when call-with-current-continuation is used as a value (not as a special form)
+// call-with-current-continuation as a builtin function, used when it is called as a
+// value (not as a special form)
 SCM *scm_c_call_with_current_continuation(SCM_List *args) {
-  // This function should never be called directly
-  // It's registered as a placeholder, and eval.cc will handle it specially
-  eval_error("call-with-current-continuation: internal error - should be handled as special form");
-  return nullptr;
+  if (!args || args->next || (!is_proc(args->data) && !is_func(args->data))) {
+    eval_error("call-with-current-continuation: requires 1 argument (procedure)");
+    return nullptr;
+  }
+  SCM *proc = args->data;
+  int first;
+  auto cont = scm_make_continuation(&first);
+  if (!first) {
+    // Continuation was invoked, return the argument
+    return cont;
+  }
+  return scm_call_1(proc, cont);
 }
 
 void init_continuation() {
diff --git a/src/c/eval.cc b/src/c/eval.cc
index 980a602..c4d1f80 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -679,47 +679,6 @@ entry:
       SCM *result = eval_map(env, l);
       RETURN_WITH_CONTEXT(result);
     }
-    if (func->name && (strcmp(func->name->data, "call-with-current-continuation") == 0 || 
-                       strcmp(func->name->data, "call/cc") == 0)) {
-      // For call-with-current-continuation, when called as a function value, arguments are already evaluated
-      // We need to handle it specially, similar to how it's handled as a special form
-      // l->data is the call-with-current-continuation function, l->next contains the already-evaluated arguments
-      if (!l->next) {
-        eval_error("call-with-current-continuation: requires 1 argument (procedure)");
-        RETURN_WITH_CONTEXT(nullptr);
-      }
-      // The argument is already evaluated, so we can use it directly
-      // But we need to create a continuation and call the procedure with it
-      SCM *proc = l->next->data;
-      if (!is_proc(proc) && !is_func(proc)) {
-        eval_error("call-with-current-continuation: argument must be a procedure");
-        RETURN_WITH_CONTEXT(nullptr);
-      }
-      // Create continuation and call procedure
-      int first;
-      auto cont = scm_make_continuation(&first);
-      if (!first) {
-        // Continuation was invoked, return the argument
-        RETURN_WITH_CONTEXT(cont);
-      }
-      // Call procedure with continuation
-      SCM_List *cont_list = make_list(cont);
-      SCM_List proc_call;
-      proc_call.data = proc;
-      proc_call.next = cont_list;
-      if (is_proc(proc)) {
-        SCM *result = apply_procedure(env, cast<SCM_Procedure>(proc), cont_list);
-        RETURN_WITH_CONTEXT(result);
-      } else {
-        // For function, evaluate arguments and call
-        SCM_List *evaled_args = eval_list_with_env(env, cont_list);
-        SCM_List func_call;
-        func_call.data = proc;
-        func_call.next = evaled_args;
-        SCM *result = eval_with_func(cast<SCM_Function>(proc), &func_call);
-        RETURN_WITH_CONTEXT(result);
-      }
-    }
     auto func_argl = eval_list_with_env(env, l->next);
     if (debug_enabled) {
       SCM_DEBUG_EVAL(" ");
diff --git a/src/c/eval.h b/src/c/eval.h
index 5e5ed95..6d41391 100644
--- a/src/c/eval.h
+++ b/src/c/eval.h
@@ -7,6 +7,7 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l);
 
 // map special form
 SCM *eval_map(SCM_Environment *env, SCM_List *l);
+SCM_List *quote_args(SCM_List *args);
 
 // for-each special form
 SCM *eval_for_each(SCM_Environment *env, SCM_List *l);
diff --git a/src/c/function.cc b/src/c/function.cc
index 5151adf..6330209 100644
--- a/src/c/function.cc
+++ b/src/c/function.cc
@@ -82,23 +82,6 @@ SCM *eval_with_func(SCM_Function *func, SCM_List *l) {
   }
   if (func->n_args == -2) {
     // Variable argument function (like list)
-    // Special handling for apply, map, and map-in-order: they need access to environment
-    // But we can't access env here, so these should be handled in eval.cc
-    // If they reach here, it's an error
-    if (func->name) {
-      if (strcmp(func->name->data, "apply") == 0) {
-        eval_error("apply: internal error - should be handled as special form");
-        return nullptr;
-      }
-      if (strcmp(func->name->data, "map") == 0) {
-        eval_error("map: internal error - should be handled as special form");
-        return nullptr;
-      }
-      if (strcmp(func->name->data, "map-in-order") == 0) {
-        eval_error("map-in-order: internal error - should be handled as special form");
-        return nullptr;
-      }
-    }
     typedef SCM *(*func_var)(SCM_List *);
     auto f = (func_var)func->func_ptr;
     return f(l->next);
diff --git a/src/c/map.cc b/src/c/map.cc
index 0de46ad..583df7a 100644
--- a/src/c/map.cc
+++ b/src/c/map.cc
@@ -2,23 +2,23 @@
 #include "eval.h"
 
 // Wrapper function for map as a builtin function
-// This function is called when map is used as a value (not as a special form)
+// This function is called when map is passed to another procedure
 SCM *scm_c_map(SCM_List *args) {
-  // This function should never be called directly
-  // It's registered as a placeholder, and eval.cc will handle it specially
-  eval_error("map: internal error - should be handled as special form");
-  return nullptr;
+  // args are already evaluated, and eval_map evaluates its operands
+  SCM_List call = make_list_dummy();
+  call.next = quote_args(args);
+  return eval_map(&g_env, &call);
 }
 
 // map-in-order: Like map, but guarantees order (in pscm, map already preserves order)
 // This is essentially an alias for map, but provided for Guile compatibility
 // Wrapper function for map-in-order as a builtin function
-// This function is called when map-in-order is used as a value (not as a special form)
+// This function is called when map-in-order is passed to another procedure
 SCM *scm_c_map_in_order(SCM_List *args) {
-  // This function should never be called directly
-  // It's registered as a placeholder, and eval.cc will handle it specially
-  eval_error("map-in-order: internal error - should be handled as special form");
-  return nullptr;
+  // args are already evaluated, and eval_map evaluates its operands
+  SCM_List call = make_list_dummy();
+  call.next = quote_args(args);
+  return eval_map(&g_env, &call);
 }
 
 // Helper function for map special form
-- 
2.43.0


From 7e80efbc753b689bdf14ecc33d970f17646b8add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:28 +0000
Subject: [PATCH 40/52] fix: inside a module, a local procedure of an enclosing
 scope was hidden by the module's own definition

---
 src/c/eval.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/c/eval.cc b/src/c/eval.cc
index c4d1f80..d61d81c 100644
--- a/src/c/eval.cc
+++ b/src/c/eval.cc
@@ -312,6 +312,16 @@ static SCM *search_user_binding(SCM_Environment *env, SCM_Symbol *sym) {
 }
 
 
+// Is sym bound by a scope inside the global environment?
+static bool is_lexically_bound(SCM_Environment *env, SCM_Symbol *sym) {
+  for (; env && env != &g_env; env = env->parent) {
+    if (scm_env_search_entry(env, sym, /*search_parent=*/false)) {
+      return true;
+    }
+  }
+  return false;
+}
+
 SCM *eval_with_env(SCM_Environment *env, SCM *ast) {
   assert(env);
   assert(ast);
@@ -356,9 +366,10 @@ entry:
 
     // Check if this is a macro call (before checking special forms)
     SCM *val = scm_env_exist(env, sym);
-    if (!val) {
+    if (!val && !is_lexically_bound(env, sym)) {
       // Search module obarray + use chain for macros imported via use-modules.
       // Only when we're in a non-root module (root has everything in g_env already).
+      // A lexical binding in an enclosing scope hides the module's.
       SCM *current_mod = scm_current_module();
       if (current_mod && is_module(current_mod) && current_mod != g_root_module) {
         SCM_Module *module = cast<SCM_Module>(current_mod);
-- 
2.43.0


From e266cdd7e33d6103fdefa129d95d8c0493ddf026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:36 +0000
Subject: [PATCH 41/52] fix: apply evaluated its leading arguments a second
 time

---
 src/c/apply.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c/apply.cc b/src/c/apply.cc
index eb59bfe..7bbc143 100644
--- a/src/c/apply.cc
+++ b/src/c/apply.cc
@@ -299,7 +299,8 @@ SCM *eval_apply(SCM_Environment *env, SCM_List *l) {
     if (args_evaluated) {
       arg_val = current->data; // Already evaluated
     } else {
-      arg_val = eval_with_env(env, current->data);
+      // Wrap the value in quote to prevent double evaluation
+      arg_val = scm_list2(scm_sym_quote(), eval_with_env(env, current->data));
     }
     SCM_List *node = make_list(arg_val);
     args_tail->next = node;
-- 
2.43.0


From daf6dbd6041cac6672a4db568cf3c5eaadd71cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:20 +0000
Subject: [PATCH 42/52] fix: lists beginning with quote, unquote or quasiquote
 lost all but two elements when printed

---
 src/c/print.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/c/print.cc b/src/c/print.cc
index 4e65af9..8a182b9 100644
--- a/src/c/print.cc
+++ b/src/c/print.cc
@@ -318,11 +318,14 @@ static bool _is_dotted_pair(SCM_List *l) {
   return last->is_dotted;
 }
 
-// Helper function to check if a list starts with a specific symbol
-static bool _list_starts_with(SCM_List *l, const char *sym_name) {
+// Helper function to check if a list is a specific symbol followed by exactly one element
+static bool _is_quotation(SCM_List *l, const char *sym_name) {
   if (!l || !l->data || !is_sym(l->data)) {
     return false;
   }
+  if (!l->next || l->next->next || l->next->is_dotted) {
+    return false;
+  }
   SCM_Symbol *sym = cast<SCM_Symbol>(l->data);
   return strcmp(sym->data, sym_name) == 0;
 }
@@ -336,7 +339,7 @@ static void _print_list(SCM_List *l, bool nested, bool write_mode, const PrintCo
   PrintContext new_ctx = ctx;
   
   // Handle quasiquote special form
-  if (_list_starts_with(l, "quasiquote")) {
+  if (_is_quotation(l, "quasiquote")) {
     new_ctx.in_quasiquote = true;
     printf("(quasiquote");
     if (l->next) {
@@ -350,7 +353,7 @@ static void _print_list(SCM_List *l, bool nested, bool write_mode, const PrintCo
   }
   
   // Handle quote special form
-  if (_list_starts_with(l, "quote")) {
+  if (_is_quotation(l, "quote")) {
     // In quasiquote context, use '... format for quotes, unless we're inside an unquote
     // This matches the test expectations:
     // - '(unquote name) should print as '(unquote name)
@@ -375,7 +378,7 @@ static void _print_list(SCM_List *l, bool nested, bool write_mode, const PrintCo
   }
   
   // Handle unquote special form
-  if (_list_starts_with(l, "unquote")) {
+  if (_is_quotation(l, "unquote")) {
     new_ctx.in_unquote = true;
     printf("(unquote");
     if (l->next) {
@@ -387,7 +390,7 @@ static void _print_list(SCM_List *l, bool nested, bool write_mode, const PrintCo
   }
   
   // Handle unquote-splicing special form
-  if (_list_starts_with(l, "unquote-splicing")) {
+  if (_is_quotation(l, "unquote-splicing")) {
     printf("(unquote-splicing");
     if (l->next) {
       printf(" ");
-- 
2.43.0


From 2b62e026f6592fed89fa06a510be9cddcc0f9a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:38 +0000
Subject: [PATCH 43/52] fix: do failed on a test value that is not a boolean;
 any true value ends the loop

---
 src/c/do.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/do.cc b/src/c/do.cc
index c3100b6..f4f651b 100644
--- a/src/c/do.cc
+++ b/src/c/do.cc
@@ -140,7 +140,7 @@ SCM *eval_do(SCM_Environment *env, SCM_List *l) {
   
   // Main loop: continue while test condition is false
   int loop_count = 0;
-  while (is_false(ret)) {
+  while (is_falsy(ret)) {
     if (debug_enabled) {
       SCM_DEBUG_EVAL("do: loop iteration %d\n", loop_count++);
     }
-- 
2.43.0


From 53491e033a350eba4eea2fba5ca0bb5abeb94269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:05 +0000
Subject: [PATCH 44/52] fix: eq? and eqv? told the same pair apart when reached
 twice through cdr; equal? stopped comparing strings at a NUL

---
 src/c/eq.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/c/eq.cc b/src/c/eq.cc
index 4724daf..3276839 100644
--- a/src/c/eq.cc
+++ b/src/c/eq.cc
@@ -26,7 +26,7 @@ bool _sym_eq(SCM *lhs, SCM *rhs) {
     if (str1->len != str2->len) {
       return false;
     }
-    return strncmp(str1->data, str2->data, str1->len) == 0;
+    return memcmp(str1->data, str2->data, str1->len) == 0;
   }
   
   // Mixed types (sym and str) are not equal
@@ -230,6 +230,8 @@ SCM *scm_c_is_eq(SCM *lhs, SCM *rhs) {
   case SCM::NIL:
     return scm_bool_true();
   case SCM::LIST:
+    // The same pair: objects made by cdr share the cell
+    return (lhs->value == rhs->value) ? scm_bool_true() : scm_bool_false();
   case SCM::VECTOR:
   case SCM::PROC:
   case SCM::CONT:
@@ -284,6 +286,7 @@ SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs) {
   case SCM::NIL:
     return scm_bool_true();
   case SCM::LIST:
+    return (lhs->value == rhs->value) ? scm_bool_true() : scm_bool_false();
   case SCM::VECTOR:
   case SCM::PROC:
   case SCM::CONT:
-- 
2.43.0


From 2d5ae93125ccad9f0f602d2293fc7aa7ab23151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:30 +0000
Subject: [PATCH 45/52] fix: memv, member, assq, assv and assoc did not compare
 as eqv?, equal? and eq? do; assoc-ref lost part of the value

---
 src/c/alist.cc | 25 ++------------
 src/c/eq.cc    | 93 ++------------------------------------------------
 src/c/list.cc  | 28 +--------------
 src/c/pscm.h   |  1 +
 4 files changed, 7 insertions(+), 140 deletions(-)

diff --git a/src/c/alist.cc b/src/c/alist.cc
index 27cf7ab..5920b57 100644
--- a/src/c/alist.cc
+++ b/src/c/alist.cc
@@ -13,26 +13,11 @@ static bool is_eq_pointer(SCM *lhs, SCM *rhs) {
   if (lhs->type != rhs->type) {
     return false;
   }
-  // For symbols, compare by content (same as hash_table.cc scm_cmp_eq)
-  // This allows assq to work correctly with symbols
-  if (is_sym(lhs) && is_sym(rhs)) {
-    auto sym1 = cast<SCM_Symbol>(lhs);
-    auto sym2 = cast<SCM_Symbol>(rhs);
-    if (sym1->len != sym2->len) {
-      return false;
-    }
-    return memcmp(sym1->data, sym2->data, sym1->len) == 0;
-  }
   // For strings, compare pointers (value field points to the same object)
   if (is_str(lhs)) {
     return lhs->value == rhs->value;
   }
-  // For numbers, compare values
-  if (is_num(lhs)) {
-    return lhs->value == rhs->value;
-  }
-  // For other types, use pointer comparison
-  return lhs == rhs;
+  return is_truthy(scm_c_is_eq(lhs, rhs));
 }
 
 // acons: (acons key value alist) -> new alist with (key . value) prepended
@@ -90,10 +75,7 @@ SCM *scm_c_assoc_ref(SCM *alist, SCM *key) {
   }
   // Return the cdr of the pair
   auto pair_list = cast<SCM_List>(pair);
-  if (pair_list->next) {
-    return pair_list->next->data;
-  }
-  return scm_bool_false();
+  return pair_list->next ? cdr(pair) : scm_nil();
 }
 
 // assoc-set!: (assoc-set! alist key value) -> new alist
@@ -245,7 +227,6 @@ SCM *scm_c_assoc_remove(SCM *alist, SCM *key) {
 SCM *scm_c_assv(SCM *key, SCM *alist) {
   assert(key);
   assert(alist);
-  assert(is_pair(alist) || is_nil(alist));
   if (is_nil(alist)) {
     return scm_bool_false();
   }
@@ -254,7 +235,7 @@ SCM *scm_c_assv(SCM *key, SCM *alist) {
   while (it) {
     if (it->data && is_pair(it->data)) {
       auto pair = cast<SCM_List>(it->data);
-      if (pair->data && _eq(key, pair->data)) {
+      if (pair->data && is_truthy(scm_c_is_eqv(key, pair->data))) {
         return it->data;
       }
     }
diff --git a/src/c/eq.cc b/src/c/eq.cc
index 3276839..730957a 100644
--- a/src/c/eq.cc
+++ b/src/c/eq.cc
@@ -91,23 +91,6 @@ static bool _list_equal(SCM *lhs, SCM *rhs) {
   return (!l1 && !l2);
 }
 
-// Legacy function for backward compatibility (used by _eq)
-bool _list_eq(SCM *lhs, SCM *rhs) {
-  auto l1 = cast<SCM_List>(lhs);
-  auto l2 = cast<SCM_List>(rhs);
-  while (l1 && l2) {
-    if (!_eq(l1->data, l2->data)) {
-      return false;
-    }
-    l1 = l1->next;
-    l2 = l2->next;
-  }
-  if (l1 || l2) {
-    return false;
-  }
-  return true;
-}
-
 // Helper function for equal? to compare vectors recursively
 static bool _vector_equal(SCM *lhs, SCM *rhs) {
   auto v1 = cast<SCM_Vector>(lhs);
@@ -128,83 +111,11 @@ static bool _vector_equal(SCM *lhs, SCM *rhs) {
   return true;
 }
 
-// Legacy function for backward compatibility (used by _eq)
-bool _vector_eq(SCM *lhs, SCM *rhs) {
-  auto v1 = cast<SCM_Vector>(lhs);
-  auto v2 = cast<SCM_Vector>(rhs);
-  
-  // Vectors must have the same length
-  if (v1->length != v2->length) {
-    return false;
-  }
-  
-  // Compare each element recursively
-  for (size_t i = 0; i < v1->length; i++) {
-    if (!_eq(v1->elements[i], v2->elements[i])) {
-      return false;
-    }
-  }
-  
-  return true;
-}
-
+// The relation behind member, assoc and equal? hash tables
 bool _eq(SCM *lhs, SCM *rhs) {
   assert(lhs);
   assert(rhs);
-  // Special case: allow NUM <-> FLOAT comparison
-  if ((lhs->type == SCM::NUM && rhs->type == SCM::FLOAT) ||
-      (lhs->type == SCM::FLOAT && rhs->type == SCM::NUM)) {
-    return _number_eq(lhs, rhs);
-  }
-  
-  if (lhs->type != rhs->type) {
-    return false;
-  }
-
-  switch (lhs->type) {
-  case SCM::NONE:
-  case SCM::NIL:
-    return true;
-  case SCM::LIST:
-    // For backward compatibility with existing tests, use deep comparison for lists
-    // In strict R4RS, eq? should use pointer equality (lhs == rhs) for lists
-    return _list_eq(lhs, rhs);
-  case SCM::PROC:
-  case SCM::CONT:
-  case SCM::FUNC:
-    return lhs == rhs;
-  case SCM::NUM:
-  case SCM::FLOAT:
-    return _number_eq(lhs, rhs);
-  case SCM::CHAR:
-    // Character comparison
-    if (rhs->type == SCM::CHAR) {
-      char ch_lhs = ptr_to_char(lhs->value);
-      char ch_rhs = ptr_to_char(rhs->value);
-      return ch_lhs == ch_rhs;
-    }
-    return false;
-  case SCM::BOOL:
-    return is_true(lhs) == is_true(rhs);
-  case SCM::SYM:
-  case SCM::STR:
-    return _sym_eq(lhs, rhs);
-  case SCM::VECTOR:
-    return _vector_eq(lhs, rhs);
-  case SCM::MACRO:
-    // Macros are compared by reference (same as procedures)
-    return lhs == rhs;
-  case SCM::HASH_TABLE:
-    // Hash tables are compared by reference
-    return lhs == rhs;
-  case SCM::RATIO:
-    // Ratios are compared numerically
-    return _number_eq(lhs, rhs);
-  default:
-    SCM_ERROR_EVAL("unsupported scheme type %d", lhs->type);
-    eval_error("unsupported scheme type %d", lhs->type);
-    return false;
-  }
+  return _equal_recursive(lhs, rhs);
 }
 
 // eq?: Pointer equality (identity)
diff --git a/src/c/list.cc b/src/c/list.cc
index f211be0..e05edff 100644
--- a/src/c/list.cc
+++ b/src/c/list.cc
@@ -473,32 +473,6 @@ SCM *scm_c_length(SCM *lst) {
   return result;
 }
 
-// Helper function for eqv? comparison (used by memv)
-static bool _eqv(SCM *lhs, SCM *rhs) {
-  if (lhs == rhs) return true;
-  if (!lhs || !rhs) return false;
-  
-  // Special case: allow NUM <-> FLOAT comparison (same as eq.cc)
-  if ((lhs->type == SCM::NUM && rhs->type == SCM::FLOAT) ||
-      (lhs->type == SCM::FLOAT && rhs->type == SCM::NUM)) {
-    return _number_eq(lhs, rhs);
-  }
-  
-  if (lhs->type != rhs->type) return false;
-  
-  // For numbers (both NUM and FLOAT), use _number_eq for proper comparison
-  if (is_num(lhs) || is_float(lhs)) {
-    return _number_eq(lhs, rhs);
-  }
-  if (is_char(lhs)) {
-    return ptr_to_char(lhs->value) == ptr_to_char(rhs->value);
-  }
-  if (is_bool(lhs)) {
-    return is_true(lhs) == is_true(rhs);
-  }
-  return lhs == rhs;
-}
-
 // memq: Return the first sublist of list whose car is obj (using eq? for comparison)
 // Returns #f if obj is not found
 // eq? uses pointer equality for lists and pairs, but value equality for numbers, symbols, etc.
@@ -546,7 +520,7 @@ SCM *scm_c_memv(SCM *obj, SCM *lst) {
   SCM_List *current = cast<SCM_List>(lst);
   
   while (current) {
-    if (current->data && _eqv(obj, current->data)) {
+    if (current->data && is_truthy(scm_c_is_eqv(obj, current->data))) {
       // Found a match, return the sublist starting from this element
       return wrap(current);
     }
diff --git a/src/c/pscm.h b/src/c/pscm.h
index 9905e31..9c5e595 100644
--- a/src/c/pscm.h
+++ b/src/c/pscm.h
@@ -780,6 +780,7 @@ void init_apply();
  */
 bool _eq(SCM *lhs, SCM *rhs);
 SCM *scm_c_is_eq(SCM *lhs, SCM *rhs);
+SCM *scm_c_is_eqv(SCM *lhs, SCM *rhs);
 SCM *scm_c_is_equal(SCM *lhs, SCM *rhs);
 
 /*
-- 
2.43.0


From 20591988e69cdce88bc9dfe41d2c53dc3627129e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:17 +0000
Subject: [PATCH 46/52] fix: hash tables lost keys that are chars, floats,
 ratios, booleans, vectors, or pairs reached again

---
 src/c/hash_table.cc | 164 +++++++++++++++++++-------------------------
 1 file changed, 71 insertions(+), 93 deletions(-)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index 8d2fddb..7abcda3 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -11,119 +11,93 @@ static inline unsigned long hash_string_content(const char *data, int len) {
   return h;
 }
 
-// Hash function for eq? (pointer equality)
-static unsigned long scm_hash_code_eq(SCM *key) {
-  // For symbols, use content-based hash (same as equal?) to ensure compatibility
-  // This allows hash-set! and hashq-get-handle to work on the same table
-  // In Guile, symbols are interned so eq? and equal? hash to the same value
-  if (is_sym(key)) {
+// Hash function agreeing with eq? and eqv?: objects they identify hash alike. With deep set it
+// agrees with equal?, which looks into lists and vectors.
+static unsigned long hash_code(SCM *key, bool deep) {
+  switch (key->type) {
+  case SCM::SYM: {
     auto sym = cast<SCM_Symbol>(key);
     return hash_string_content(sym->data, sym->len);
   }
-  // For eq?, use pointer address as hash
-  return (unsigned long)(uintptr_t)key;
-}
-
-// Hash function for eqv? (value equality for numbers/chars)
-static unsigned long scm_hash_code_eqv(SCM *key) {
-  if (is_num(key)) {
-    return (unsigned long)(int64_t)key->value;
+  case SCM::STR: {
+    auto str = cast<SCM_String>(key);
+    return hash_string_content(str->data, str->len);
   }
-  if (is_char(key)) {
-    return (unsigned char)ptr_to_char(key->value);
+  case SCM::NUM:
+  case SCM::FLOAT: {
+    // An integer and a float of the same value are the same key
+    double value = is_num(key) ? (double)(int64_t)key->value : ptr_to_double(key->value);
+    value += 0.0;  // -0.0 and 0.0 are the same key, too
+    unsigned long bits;
+    memcpy(&bits, &value, sizeof(bits));
+    return bits ^ (bits >> 32);
   }
-  if (is_bool(key)) {
-    return is_true(key) ? 1 : 0;
+  case SCM::RATIO: {
+    auto ratio = cast<SCM_Rational>(key);
+    return (unsigned long)ratio->numerator * 31 + (unsigned long)ratio->denominator;
   }
-  // Fallback to pointer hash
-  return scm_hash_code_eq(key);
-}
-
-// Hash function for equal? (deep equality)
-// Helper function to compute hash code for a list recursively
-static unsigned long hash_list_content(SCM *list) {
-  if (!list || !is_pair(list)) {
+  case SCM::CHAR:
+    return (unsigned char)ptr_to_char(key->value);
+  case SCM::BOOL:
+    return is_true(key) ? 1 : 0;
+  case SCM::NONE:
+  case SCM::NIL:
     return 0;
+  case SCM::LIST: {
+    auto l = cast<SCM_List>(key);
+    if (!deep) {
+      return (unsigned long)(uintptr_t)l;
+    }
+    unsigned long hash = hash_code(l->data, true);
+    for (l = l->next; l; l = l->next) {
+      if (l->is_dotted && is_pair(l->data)) {
+        // The same list, written with a dot
+        l = cast<SCM_List>(l->data);
+      }
+      if (!(l->is_dotted && is_nil(l->data))) {
+        hash = hash * 31 + hash_code(l->data, true);
+      }
+    }
+    return hash;
   }
-  auto l = cast<SCM_List>(list);
-  unsigned long hash = 0;
-  while (l) {
-    // Hash the car
-    unsigned long car_hash = 0;
-    if (is_sym(l->data)) {
-      auto sym = cast<SCM_Symbol>(l->data);
-      car_hash = hash_string_content(sym->data, sym->len);
-    } else if (is_str(l->data)) {
-      auto str = cast<SCM_String>(l->data);
-      car_hash = hash_string_content(str->data, str->len);
-    } else if (is_num(l->data)) {
-      car_hash = (unsigned long)(int64_t)l->data->value;
-    } else if (is_pair(l->data)) {
-      car_hash = hash_list_content(l->data);
-    } else {
-      car_hash = (unsigned long)(uintptr_t)l->data;
+  case SCM::VECTOR: {
+    if (!deep) {
+      return (unsigned long)(uintptr_t)key;
     }
-    // Combine hashes
-    hash = hash * 31 + car_hash;
-    l = l->next;
+    auto vec = cast<SCM_Vector>(key);
+    unsigned long hash = vec->length;
+    for (size_t i = 0; i < vec->length; i++) {
+      hash = hash * 31 + hash_code(vec->elements[i], true);
+    }
+    return hash;
+  }
+  case SCM::SMOB:
+    // equal? may be defined by the kind of smob
+    return deep ? 1 : (unsigned long)(uintptr_t)key;
+  default:
+    return (unsigned long)(uintptr_t)key;
   }
-  return hash;
+}
+
+static unsigned long scm_hash_code_eq(SCM *key) {
+  return hash_code(key, false);
+}
+
+static unsigned long scm_hash_code_eqv(SCM *key) {
+  return hash_code(key, false);
 }
 
 static unsigned long scm_hash_code_equal(SCM *key) {
-  // For symbols, use content-based hash (not pointer-based) for equal?
-  // This ensures that different symbol objects with the same name hash to the same value
-  if (is_sym(key)) {
-    auto sym = cast<SCM_Symbol>(key);
-    return hash_string_content(sym->data, sym->len);
-  }
-  // For strings, use content-based hash
-  if (is_str(key)) {
-    auto str = cast<SCM_String>(key);
-    return hash_string_content(str->data, str->len);
-  }
-  // For numbers, use value-based hash
-  if (is_num(key)) {
-    return (unsigned long)(int64_t)key->value;
-  }
-  // For lists, use content-based hash
-  if (is_pair(key)) {
-    return hash_list_content(key);
-  }
-  // Fallback to pointer hash
-  return scm_hash_code_eq(key);
+  return hash_code(key, true);
 }
 
 // Comparison functions
 static bool scm_cmp_eq(SCM *lhs, SCM *rhs) {
-  // For symbols, use content-based comparison (same as equal?) to ensure compatibility
-  // This allows hash-set! and hashq-get-handle to work on the same table
-  // In Guile, symbols are interned so eq? and equal? return the same value
-  if (is_sym(lhs) && is_sym(rhs)) {
-    auto sym1 = cast<SCM_Symbol>(lhs);
-    auto sym2 = cast<SCM_Symbol>(rhs);
-    if (sym1->len != sym2->len) {
-      return false;
-    }
-    // Use memcmp since we already know lengths are equal
-    return memcmp(sym1->data, sym2->data, sym1->len) == 0;
-  }
-  return lhs == rhs;
+  return is_truthy(scm_c_is_eq(lhs, rhs));
 }
 
 static bool scm_cmp_eqv(SCM *lhs, SCM *rhs) {
-  if (lhs == rhs) return true;
-  if (lhs->type != rhs->type) return false;
-  if (is_num(lhs)) {
-    return lhs->value == rhs->value;
-  }
-  if (is_char(lhs)) {
-    return ptr_to_char(lhs->value) == ptr_to_char(rhs->value);
-  }
-  if (is_bool(lhs)) {
-    return is_true(lhs) == is_true(rhs);
-  }
-  return lhs == rhs;
+  return is_truthy(scm_c_is_eqv(lhs, rhs));
 }
 
 static bool scm_cmp_equal(SCM *lhs, SCM *rhs) {
@@ -244,6 +218,10 @@ SCM *scm_c_make_hash_table(SCM *size_arg) {
       eval_error("make-hash-table: size must be an integer");
       return nullptr;
     }
+    if ((int64_t)size_arg->value < 0) {
+      eval_error("make-hash-table: size must not be negative");
+      return nullptr;
+    }
     capacity = (size_t)(int64_t)size_arg->value;
     if (capacity == 0) {
       capacity = 31;
-- 
2.43.0


From c4569aea7792cc97cc0eb9d475982e18a7698c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:48 +0000
Subject: [PATCH 47/52] fix: hash handles were copies or lost list values

hash-create-handle! overwrote the value of a key that was already in the
table and returned a copy of the entry, so changes through the handle were
lost. A list stored through a handle with set-cdr! came back as its first
element, and the next hash-set! wrote into that list.
---
 src/c/hash_table.cc | 34 +++++++++++++++-------------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/c/hash_table.cc b/src/c/hash_table.cc
index 7abcda3..7e7e80f 100644
--- a/src/c/hash_table.cc
+++ b/src/c/hash_table.cc
@@ -120,14 +120,18 @@ static SCM_HashTable *validate_and_get_bucket_idx(SCM *table, SCM *key,
 }
 
 // Helper function to update existing entry's value
+// The old cdr is left alone: it may be part of a list, given to the handle with set-cdr!
 static void update_entry_value(SCM_List *entry, SCM *value) {
-  if (entry->next) {
-    entry->next->data = value;
-    entry->next->is_dotted = true;  // Ensure it's marked as dotted pair
-  } else {
-    entry->next = make_list(value);
-    entry->next->is_dotted = true;  // Mark as dotted pair's cdr
+  entry->next = make_list(value);
+  entry->next->is_dotted = true;  // Mark as dotted pair's cdr
+}
+
+// Helper function to get the value of an entry, which set-cdr! may have made a list
+static SCM *entry_value(SCM_List *entry) {
+  if (!entry->next) {
+    return scm_nil();
   }
+  return entry->next->is_dotted ? entry->next->data : wrap(entry->next);
 }
 
 // Helper function to find entry in bucket
@@ -276,14 +280,7 @@ SCM *scm_c_hash_ref(SCM *table, SCM *key,
   auto entry = find_entry_in_bucket(hash_table->buckets[idx], key, cmp_func);
   if (entry) {
     // entry is (key . value) pair
-    // If entry->next is nullptr, it means value is nil (from scm_cons when cdr is nil)
-    // If entry->next exists, entry->next->data is the value
-    if (entry->next) {
-      return entry->next->data;
-    } else {
-      // entry->next is nullptr means value is nil
-      return scm_nil();
-    }
+    return entry_value(entry);
   }
   
   return scm_bool_false();
@@ -322,9 +319,8 @@ SCM *scm_c_hash_create_handle(SCM *table, SCM *key, SCM *value,
   // Check if key already exists
   auto entry = find_entry_in_bucket(hash_table->buckets[idx], key, cmp_func);
   if (entry) {
-    update_entry_value(entry, value);
-    // Return the entry pair (key . value)
-    return scm_cons(entry->data, entry->next->data);
+    // Return the entry pair (key . value) itself, with the value it has
+    return wrap(entry);
   }
   
   // Create new entry and insert at head of bucket
@@ -367,9 +363,9 @@ SCM *scm_c_hash_fold(SCM *proc, SCM *init, SCM *table,
       while (l) {
         if (is_pair(l->data)) {
           auto entry = cast<SCM_List>(l->data);
-          if (entry->data && entry->next) {
+          if (entry->data) {
             SCM *key = entry->data;
-            SCM *value = entry->next->data;
+            SCM *value = entry_value(entry);
             
             // Call proc with (key value result)
             // Build call expression: (proc key value result)
-- 
2.43.0


From 789ef816970443205c4f42c54168ad2803e37bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:20 +0000
Subject: [PATCH 48/52] fix: case compares its key with eqv?, not structurally

---
 src/c/case.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/c/case.cc b/src/c/case.cc
index a85d5dd..1dde754 100644
--- a/src/c/case.cc
+++ b/src/c/case.cc
@@ -1,18 +1,15 @@
 #include "pscm.h"
 #include "eval.h"
 
-// Forward declaration
-bool _eq(SCM *lhs, SCM *rhs);
-
 // Helper function to check if a value is in a list of datums
-// Uses eqv? for comparison (which is implemented as _eq in this codebase)
+// Uses eqv? for comparison
 static bool value_in_datums(SCM *value, SCM_List *datums) {
   if (!datums) {
     return false;
   }
   
   for (SCM_List *it = datums; it; it = it->next) {
-    if (it->data && _eq(value, it->data)) {
+    if (it->data && is_truthy(scm_c_is_eqv(value, it->data))) {
       return true;
     }
   }
-- 
2.43.0


From 9065ddbfbfd71b970a8c838d0192993ddd406b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:45 +0000
Subject: [PATCH 49/52] fix: string comparisons stopped at a NUL character and
 ordered codes above 127 first

---
 src/c/string.cc | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/c/string.cc b/src/c/string.cc
index 07ef9d1..b8e4aa7 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -322,7 +322,7 @@ SCM *scm_c_string_eq(SCM *str1, SCM *str2) {
     return scm_bool_false();
   }
   
-  if (strncmp(s1->data, s2->data, s1->len) == 0) {
+  if (memcmp(s1->data, s2->data, s1->len) == 0) {
     return scm_bool_true();
   }
   return scm_bool_false();
@@ -807,7 +807,7 @@ SCM *scm_c_string_lt(SCM *str1, SCM *str2) {
   auto s1 = cast<SCM_String>(str1);
   auto s2 = cast<SCM_String>(str2);
   
-  int cmp = strncmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
+  int cmp = memcmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
   if (cmp < 0) {
     return scm_bool_true();
   }
@@ -831,7 +831,7 @@ SCM *scm_c_string_gt(SCM *str1, SCM *str2) {
   auto s1 = cast<SCM_String>(str1);
   auto s2 = cast<SCM_String>(str2);
   
-  int cmp = strncmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
+  int cmp = memcmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
   if (cmp > 0) {
     return scm_bool_true();
   }
@@ -855,7 +855,7 @@ SCM *scm_c_string_le(SCM *str1, SCM *str2) {
   auto s1 = cast<SCM_String>(str1);
   auto s2 = cast<SCM_String>(str2);
   
-  int cmp = strncmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
+  int cmp = memcmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
   if (cmp < 0) {
     return scm_bool_true();
   }
@@ -879,7 +879,7 @@ SCM *scm_c_string_ge(SCM *str1, SCM *str2) {
   auto s1 = cast<SCM_String>(str1);
   auto s2 = cast<SCM_String>(str2);
   
-  int cmp = strncmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
+  int cmp = memcmp(s1->data, s2->data, s1->len < s2->len ? s1->len : s2->len);
   if (cmp > 0) {
     return scm_bool_true();
   }
@@ -909,8 +909,8 @@ SCM *scm_c_string_ci_eq(SCM *str1, SCM *str2) {
   }
   
   for (int i = 0; i < s1->len; i++) {
-    char c1 = toupper((unsigned char)s1->data[i]);
-    char c2 = toupper((unsigned char)s2->data[i]);
+    unsigned char c1 = toupper((unsigned char)s1->data[i]);
+    unsigned char c2 = toupper((unsigned char)s2->data[i]);
     if (c1 != c2) {
       return scm_bool_false();
     }
@@ -933,8 +933,8 @@ SCM *scm_c_string_ci_lt(SCM *str1, SCM *str2) {
   
   int min_len = s1->len < s2->len ? s1->len : s2->len;
   for (int i = 0; i < min_len; i++) {
-    char c1 = toupper((unsigned char)s1->data[i]);
-    char c2 = toupper((unsigned char)s2->data[i]);
+    unsigned char c1 = toupper((unsigned char)s1->data[i]);
+    unsigned char c2 = toupper((unsigned char)s2->data[i]);
     if (c1 < c2) {
       return scm_bool_true();
     }
@@ -961,8 +961,8 @@ SCM *scm_c_string_ci_gt(SCM *str1, SCM *str2) {
   
   int min_len = s1->len < s2->len ? s1->len : s2->len;
   for (int i = 0; i < min_len; i++) {
-    char c1 = toupper((unsigned char)s1->data[i]);
-    char c2 = toupper((unsigned char)s2->data[i]);
+    unsigned char c1 = toupper((unsigned char)s1->data[i]);
+    unsigned char c2 = toupper((unsigned char)s2->data[i]);
     if (c1 > c2) {
       return scm_bool_true();
     }
@@ -989,8 +989,8 @@ SCM *scm_c_string_ci_le(SCM *str1, SCM *str2) {
   
   int min_len = s1->len < s2->len ? s1->len : s2->len;
   for (int i = 0; i < min_len; i++) {
-    char c1 = toupper((unsigned char)s1->data[i]);
-    char c2 = toupper((unsigned char)s2->data[i]);
+    unsigned char c1 = toupper((unsigned char)s1->data[i]);
+    unsigned char c2 = toupper((unsigned char)s2->data[i]);
     if (c1 < c2) {
       return scm_bool_true();
     }
@@ -1017,8 +1017,8 @@ SCM *scm_c_string_ci_ge(SCM *str1, SCM *str2) {
   
   int min_len = s1->len < s2->len ? s1->len : s2->len;
   for (int i = 0; i < min_len; i++) {
-    char c1 = toupper((unsigned char)s1->data[i]);
-    char c2 = toupper((unsigned char)s2->data[i]);
+    unsigned char c1 = toupper((unsigned char)s1->data[i]);
+    unsigned char c2 = toupper((unsigned char)s2->data[i]);
     if (c1 > c2) {
       return scm_bool_true();
     }
-- 
2.43.0


From 3fece3b4aa2a0a515406ad0f3896adb37da8d4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:54 +0000
Subject: [PATCH 50/52] fix: make-string with a length beyond the range of a
 string never returned

---
 src/c/string.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/c/string.cc b/src/c/string.cc
index b8e4aa7..ac683a9 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -1,5 +1,6 @@
 #include "pscm.h"
 #include "eval.h"
+#include <climits>
 #include <cstring>
 #include <ctype.h>
 
@@ -29,6 +30,10 @@ static SCM *scm_c_make_string_impl(SCM *len_scm, SCM *char_scm) {
     eval_error("make-string: length must be non-negative");
     return nullptr;
   }
+  if (len >= INT_MAX) {
+    eval_error("make-string: length too large");
+    return nullptr;
+  }
   
   // Get optional character (default to space)
   char fill_char = ' ';
-- 
2.43.0


From 797e05c3b50c7a8c5e91cb7bdec04e6948dbbfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:57 +0000
Subject: [PATCH 51/52] fix: list->string took the tail of an improper list for
 an element

---
 src/c/string.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/c/string.cc b/src/c/string.cc
index ac683a9..001687d 100644
--- a/src/c/string.cc
+++ b/src/c/string.cc
@@ -774,6 +774,10 @@ SCM *scm_c_list_to_string(SCM *lst) {
       break;
     }
     current = current->next;
+    if (current->is_dotted) {
+      eval_error("list->string: expected list");
+      return nullptr;
+    }
   }
   
   // Create string
-- 
2.43.0


From bf0e8d237d4f9f66a85fafe8ac3c45a35cc0074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:30 +0000
Subject: [PATCH 52/52] fix: a handler of catch got an empty list when nothing
 but the key was thrown

---
 src/c/throw.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c/throw.cc b/src/c/throw.cc
index e120f9b..98488eb 100644
--- a/src/c/throw.cc
+++ b/src/c/throw.cc
@@ -441,7 +441,7 @@ static SCM *scm_handle_by_proc(void *handler_data, SCM *tag, SCM *args) {
         if (!current->next) break;
         current = current->next;
       }
-    } else {
+    } else if (!is_nil(args)) {
       arg_list->next = make_list(args);
     }
   }
-- 
2.43.0

