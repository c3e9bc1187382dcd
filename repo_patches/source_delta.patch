From 8fd33e2001cd3caa6e7722fd14b10631f8f195e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 01/19] fix: array take() of more than size() elements

The documentation promises min(elems, size()) elements, but taking more
than the array holds asserted and, without assertions, read past the end.
---
 immer/detail/arrays/with_capacity.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/immer/detail/arrays/with_capacity.hpp b/immer/detail/arrays/with_capacity.hpp
index c80f706..920966d 100644
--- a/immer/detail/arrays/with_capacity.hpp
+++ b/immer/detail/arrays/with_capacity.hpp
@@ -292,7 +292,8 @@ struct with_capacity
 
     with_capacity take(std::size_t sz) const
     {
-        assert(sz <= size);
+        if (sz >= size)
+            return *this;
         auto cap = recommend_down(sz, capacity);
         auto p   = node_t::copy_n(cap, ptr, sz);
         return {p, sz, cap};
@@ -300,7 +301,8 @@ struct with_capacity
 
     void take_mut(edit_t e, std::size_t sz)
     {
-        assert(sz <= size);
+        if (sz >= size)
+            return;
         if (ptr->can_mutate(e)) {
             detail::destroy_n(data() + size, size - sz);
             size = sz;
-- 
2.43.0


From 49ba7cc4c0e91b7c2dc18bd59b324871a7965eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 02/19] fix: array take() on a transient or r-value destroys
 the right elements

It destroyed what lies past the end instead of the removed elements.
---
 immer/detail/arrays/with_capacity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/detail/arrays/with_capacity.hpp b/immer/detail/arrays/with_capacity.hpp
index 920966d..bbab844 100644
--- a/immer/detail/arrays/with_capacity.hpp
+++ b/immer/detail/arrays/with_capacity.hpp
@@ -304,7 +304,7 @@ struct with_capacity
         if (sz >= size)
             return;
         if (ptr->can_mutate(e)) {
-            detail::destroy_n(data() + size, size - sz);
+            detail::destroy_n(data() + sz, size - sz);
             size = sz;
         } else {
             auto cap = recommend_down(sz, capacity);
-- 
2.43.0


From b9f980ada573b845588315d16d13100b5ef35e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 03/19] fix: prepending a consumed transient or r-value with a
 full tail

concat_mut_lr_r put the left tail into the result without taking a
reference, so the left operand released it under the result.
---
 immer/detail/rbts/rrbtree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/immer/detail/rbts/rrbtree.hpp b/immer/detail/rbts/rrbtree.hpp
index 843921b..1a0bf3d 100644
--- a/immer/detail/rbts/rrbtree.hpp
+++ b/immer/detail/rbts/rrbtree.hpp
@@ -1204,6 +1204,7 @@ struct rrbtree
                 // are tagged with `er`
                 auto res =
                     l.push_tail(l.root, l.shift, tail_offst, l.tail, tail_size);
+                l.tail->inc();
                 r = {l.size + r.size, get<0>(res), get<1>(res), r.tail->inc()};
                 return;
             } else if (tail_size + r.size <= branches<BL>) {
-- 
2.43.0


From 5787ff075ce2dea21bee8055c9d610da93fe343b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:35 +0000
Subject: [PATCH 04/19] fix: concatenating into a r-value or transient when it
 throws

The clean-up destroyed elements of the right operand's tail instead of
the ones copied into the left operand's tail.
---
 immer/detail/rbts/rrbtree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/immer/detail/rbts/rrbtree.hpp b/immer/detail/rbts/rrbtree.hpp
index 1a0bf3d..8e61cdc 100644
--- a/immer/detail/rbts/rrbtree.hpp
+++ b/immer/detail/rbts/rrbtree.hpp
@@ -827,7 +827,7 @@ struct rrbtree
                     }
                 }
                 IMMER_CATCH (...) {
-                    detail::destroy_n(r.tail->leaf() + tail_size, remaining);
+                    detail::destroy_n(l.tail->leaf() + tail_size, remaining);
                     IMMER_RETHROW;
                 }
             }
@@ -1105,7 +1105,7 @@ struct rrbtree
                     }
                 }
                 IMMER_CATCH (...) {
-                    detail::destroy_n(r.tail->leaf() + tail_size, remaining);
+                    detail::destroy_n(l.tail->leaf() + tail_size, remaining);
                     IMMER_RETHROW;
                 }
             }
-- 
2.43.0


From e9f4b3bffb33fe1b7b73ebdf4d771788bd868755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:54 +0000
Subject: [PATCH 05/19] fix: replacing an entry of a collision node when
 copying throws

The catch block destroyed the first element of the half built node twice.
---
 immer/detail/hamts/node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/detail/hamts/node.hpp b/immer/detail/hamts/node.hpp
index 1801984..d9cc256 100644
--- a/immer/detail/hamts/node.hpp
+++ b/immer/detail/hamts/node.hpp
@@ -503,7 +503,7 @@ struct node
                     detail::uninitialized_copy(pos + 1, srcp + n, dstp);
                 }
                 IMMER_CATCH (...) {
-                    detail::destroy(dst->collisions(), dstp);
+                    detail::destroy(dst->collisions() + 1, dstp);
                     IMMER_RETHROW;
                 }
             }
-- 
2.43.0


From 027103a874ba5eabc9514adfba55db0a7b74552b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:19 +0000
Subject: [PATCH 06/19] fix: erasing from a hash transient or r-value when it
 throws

The node that collapsed into a single value was destroyed before building
its replacement in the parent, which may throw, leaving the parent pointing
to freed memory and the moved value undestroyed.
---
 immer/detail/hamts/champ.hpp | 42 ++++++++++--------------------------
 1 file changed, 11 insertions(+), 31 deletions(-)

diff --git a/immer/detail/hamts/champ.hpp b/immer/detail/hamts/champ.hpp
index 0e04d57..99ef4d2 100644
--- a/immer/detail/hamts/champ.hpp
+++ b/immer/detail/hamts/champ.hpp
@@ -1342,8 +1342,7 @@ struct champ
                               node_t* node,
                               const K& k,
                               hash_t hash,
-                              shift_t shift,
-                              void* store) const
+                              shift_t shift) const
     {
         auto mutate = node->can_mutate(e);
         if (shift == max_shift<B>) {
@@ -1352,14 +1351,7 @@ struct champ
             for (auto cur = fst; cur != lst; ++cur) {
                 if (Equal{}(*cur, k)) {
                     if (node->collision_count() <= 2) {
-                        if (mutate) {
-                            auto r = new (store)
-                                T{std::move(node->collisions()[cur == fst])};
-                            node_t::delete_collision(node);
-                            return sub_result_mut{r, true};
-                        } else {
-                            return sub_result_mut{fst + (cur == fst), false};
-                        }
+                        return {fst + (cur == fst), mutate, false};
                     } else {
                         auto r = mutate
                                      ? node_t::move_collision_remove(node, cur)
@@ -1377,7 +1369,7 @@ struct champ
                 auto children = node->children();
                 auto child    = children[offset];
                 auto result =
-                    mutate ? do_sub_mut(e, child, k, hash, shift + B, store)
+                    mutate ? do_sub_mut(e, child, k, hash, shift + B)
                            : do_sub(child, k, hash, shift + B);
                 switch (result.kind) {
                 case sub_result::nothing:
@@ -1385,12 +1377,7 @@ struct champ
                 case sub_result::singleton:
                     if (node->datamap() == 0 && node->children_count() == 1 &&
                         shift > 0) {
-                        if (mutate) {
-                            node_t::delete_inner(node);
-                            if (!result.mutated && child->dec())
-                                node_t::delete_deep_shift(child, shift + B);
-                        }
-                        return {result.data.singleton, result.owned, mutate};
+                        return {result.data.singleton, result.owned, false};
                     } else {
                         auto r =
                             mutate ? node_t::move_inner_replace_inline(
@@ -1406,9 +1393,9 @@ struct champ
                                          bit,
                                          offset,
                                          *result.data.singleton);
-                        if (result.owned)
-                            detail::destroy_at(result.data.singleton);
-                        if (!result.mutated && mutate && child->dec())
+                        // the singleton lives in the child, that we only
+                        // let go now that nothing can throw anymore
+                        if (mutate && child->dec())
                             node_t::delete_deep_shift(child, shift + B);
                         return {node_t::owned_values(r, e), mutate};
                     }
@@ -1445,14 +1432,8 @@ struct champ
                         return {node_t::owned_values_safe(r, e), mutate};
                     } else if (nv == 2) {
                         if (shift > 0) {
-                            if (mutate_values) {
-                                auto r = new (store)
-                                    T{std::move(node->values()[!offset])};
-                                node_t::delete_inner(node);
-                                return {r, true};
-                            } else {
-                                return {node->values() + !offset, false};
-                            }
+                            return {
+                                node->values() + !offset, mutate_values, false};
                         } else {
                             auto& v = node->values()[!offset];
                             auto r  = node_t::make_inner_n(
@@ -1479,9 +1460,8 @@ struct champ
     template <typename K>
     void sub_mut(edit_t e, const K& k)
     {
-        auto store = aligned_storage_for<T>{};
-        auto hash  = Hash{}(k);
-        auto res   = do_sub_mut(e, root, k, hash, 0, &store);
+        auto hash = Hash{}(k);
+        auto res  = do_sub_mut(e, root, k, hash, 0);
         switch (res.kind) {
         case sub_result::nothing:
             break;
-- 
2.43.0


From f06076a94263f0c265427ca06b877659883abe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:02 +0000
Subject: [PATCH 07/19] fix: comparing flex_vectors whose trees have different
 heights or that fit a tail

When only one of the two had elements outside its tail, or when the left
one had the deeper tree, equality compared unrelated elements.
---
 immer/detail/rbts/rrbtree.hpp | 42 +++++++++++++++--------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/immer/detail/rbts/rrbtree.hpp b/immer/detail/rbts/rrbtree.hpp
index 8e61cdc..a6b5d61 100644
--- a/immer/detail/rbts/rrbtree.hpp
+++ b/immer/detail/rbts/rrbtree.hpp
@@ -289,32 +289,26 @@ struct rrbtree
             return true;
         auto tail_off       = tail_offset();
         auto tail_off_other = other.tail_offset();
+        // when only one of them has a tree, its elements are spread over
+        // the tree and the tail but all in the tail of the other one
+        if ((tail_off > 0) != (tail_off_other > 0))
+            return std::equal(iter_t{*this},
+                              iter_t{*this, typename iter_t::end_t{}},
+                              iter_t{other});
         // compare trees
         if (tail_off > 0 && tail_off_other > 0) {
-            // other.shift != shift is a theoretical possibility for
-            // relaxed trees that sadly we haven't managed to exercise
-            // in tests yet...
-            if (other.shift >= shift) {
-                if (!visit_maybe_relaxed_sub(other.root,
-                                             other.shift,
-                                             tail_off_other,
-                                             equals_visitor::rrb{},
-                                             iter_t{other},
-                                             root,
-                                             shift,
-                                             tail_off))
-                    return false;
-            } else {
-                if (!visit_maybe_relaxed_sub(root,
-                                             shift,
-                                             tail_off,
-                                             equals_visitor::rrb{},
-                                             iter_t{*this},
-                                             other.root,
-                                             other.shift,
-                                             tail_off_other))
-                    return false;
-            }
+            // the tree of the shallower one is compared against the other
+            if (other.shift < shift)
+                return other.equals(*this);
+            if (!visit_maybe_relaxed_sub(other.root,
+                                         other.shift,
+                                         tail_off_other,
+                                         equals_visitor::rrb{},
+                                         iter_t{other},
+                                         root,
+                                         shift,
+                                         tail_off))
+                return false;
         }
         return tail_off == tail_off_other
                    ? make_leaf_sub_pos(tail, tail_size())
-- 
2.43.0


From 40fa4c7e3a5798c4cb43605037bf537a3411dce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:25 +0000
Subject: [PATCH 08/19] fix: taking more than size() elements of an array
 without spare capacity

The array of policies that do not mutate r-values in place read past the
end of its storage.
---
 immer/detail/arrays/no_capacity.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/immer/detail/arrays/no_capacity.hpp b/immer/detail/arrays/no_capacity.hpp
index a24f6da..12b551d 100644
--- a/immer/detail/arrays/no_capacity.hpp
+++ b/immer/detail/arrays/no_capacity.hpp
@@ -201,6 +201,8 @@ struct no_capacity
 
     no_capacity take(std::size_t sz) const
     {
+        if (sz >= size)
+            return *this;
         auto p = node_t::copy_n(sz, ptr, sz);
         return {p, sz};
     }
-- 
2.43.0


From 325546378cbaf52a4057bd1195415fcb5afdbb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 09/19] fix: blocks of the free list heaps are aligned for any
 element

They were only aligned like a pointer, so containers of more aligned
elements (long double, SSE types...) misplaced them.
---
 immer/heap/free_list_node.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/immer/heap/free_list_node.hpp b/immer/heap/free_list_node.hpp
index acab477..792fcf4 100644
--- a/immer/heap/free_list_node.hpp
+++ b/immer/heap/free_list_node.hpp
@@ -10,9 +10,13 @@
 
 #include <immer/heap/with_data.hpp>
 
+#include <cstddef>
+
 namespace immer {
 
-struct free_list_node
+// As aligned as what `malloc` returns, so that the data that follows the node
+// is aligned too.
+struct alignas(std::max_align_t) free_list_node
 {
     free_list_node* next;
 };
-- 
2.43.0


From fc8fcf9c34d5ffdf8862c29f2f1099c6ca6eee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 10/19] fix: updating a r-value box hands out the shared value
 for modification

When other boxes share the value, the function received a non-const
reference to it.
---
 immer/box.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/immer/box.hpp b/immer/box.hpp
index ddf0363..56df788 100644
--- a/immer/box.hpp
+++ b/immer/box.hpp
@@ -158,7 +158,7 @@ public:
         if (impl_->unique())
             impl_->value = std::forward<Fn>(fn)(std::move(impl_->value));
         else
-            *this = std::forward<Fn>(fn)(impl_->value);
+            *this = std::forward<Fn>(fn)(get());
         return std::move(*this);
     }
 };
-- 
2.43.0


From e5ca6e685bf146d67cf3ada81a3e7f7343c22055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:38 +0000
Subject: [PATCH 11/19] fix: allow free list heaps without header to serve
 small blocks again

Keep the free list node itself small and align the header that precedes
the data instead.
---
 immer/heap/free_list_heap.hpp        |  8 ++++----
 immer/heap/free_list_node.hpp        | 15 +++++++++++----
 immer/heap/unsafe_free_list_heap.hpp | 10 +++++-----
 3 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/immer/heap/free_list_heap.hpp b/immer/heap/free_list_heap.hpp
index 15ae01d..3a8f842 100644
--- a/immer/heap/free_list_heap.hpp
+++ b/immer/heap/free_list_heap.hpp
@@ -33,14 +33,14 @@ struct free_list_heap : Base
     template <typename... Tags>
     static void* allocate(std::size_t size, Tags...)
     {
-        assert(size <= sizeof(free_list_node) + Size);
+        assert(size <= sizeof(detail::free_list_header) + Size);
         assert(size >= sizeof(free_list_node));
 
         free_list_node* n;
         do {
             n = head().data;
             if (!n) {
-                auto p = base_t::allocate(Size + sizeof(free_list_node));
+                auto p = base_t::allocate(Size + sizeof(detail::free_list_header));
                 return static_cast<free_list_node*>(p);
             }
         } while (!head().data.compare_exchange_weak(n, n->next));
@@ -51,13 +51,13 @@ struct free_list_heap : Base
     template <typename... Tags>
     static void deallocate(std::size_t size, void* data, Tags...)
     {
-        assert(size <= sizeof(free_list_node) + Size);
+        assert(size <= sizeof(detail::free_list_header) + Size);
         assert(size >= sizeof(free_list_node));
 
         // we use relaxed, because we are fine with temporarily having
         // a few more/less buffers in free list
         if (head().count.load(std::memory_order_relaxed) >= Limit) {
-            base_t::deallocate(Size + sizeof(free_list_node), data);
+            base_t::deallocate(Size + sizeof(detail::free_list_header), data);
         } else {
             auto n = static_cast<free_list_node*>(data);
             do {
diff --git a/immer/heap/free_list_node.hpp b/immer/heap/free_list_node.hpp
index 792fcf4..e85994c 100644
--- a/immer/heap/free_list_node.hpp
+++ b/immer/heap/free_list_node.hpp
@@ -14,15 +14,22 @@
 
 namespace immer {
 
-// As aligned as what `malloc` returns, so that the data that follows the node
-// is aligned too.
-struct alignas(std::max_align_t) free_list_node
+struct free_list_node
 {
     free_list_node* next;
 };
 
+namespace detail {
+
+// What precedes the data when a node and its data are both in use.  It is as
+// aligned as what `malloc` returns, so that the data is aligned too.
+struct alignas(std::max_align_t) free_list_header : free_list_node
+{};
+
+} // namespace detail
+
 template <typename Base>
-struct with_free_list_node : with_data<free_list_node, Base>
+struct with_free_list_node : with_data<detail::free_list_header, Base>
 {};
 
 } // namespace immer
diff --git a/immer/heap/unsafe_free_list_heap.hpp b/immer/heap/unsafe_free_list_heap.hpp
index 9b41dfc..30af632 100644
--- a/immer/heap/unsafe_free_list_heap.hpp
+++ b/immer/heap/unsafe_free_list_heap.hpp
@@ -47,12 +47,12 @@ public:
     template <typename... Tags>
     static void* allocate(std::size_t size, Tags...)
     {
-        assert(size <= sizeof(free_list_node) + Size);
+        assert(size <= sizeof(free_list_header) + Size);
         assert(size >= sizeof(free_list_node));
 
         auto n = storage::head().data;
         if (!n) {
-            auto p = base_t::allocate(Size + sizeof(free_list_node));
+            auto p = base_t::allocate(Size + sizeof(free_list_header));
             return static_cast<free_list_node*>(p);
         }
         --storage::head().count;
@@ -63,11 +63,11 @@ public:
     template <typename... Tags>
     static void deallocate(std::size_t size, void* data, Tags...)
     {
-        assert(size <= sizeof(free_list_node) + Size);
+        assert(size <= sizeof(free_list_header) + Size);
         assert(size >= sizeof(free_list_node));
 
         if (storage::head().count >= Limit)
-            base_t::deallocate(Size + sizeof(free_list_node), data);
+            base_t::deallocate(Size + sizeof(free_list_header), data);
         else {
             auto n               = static_cast<free_list_node*>(data);
             n->next              = storage::head().data;
@@ -80,7 +80,7 @@ public:
     {
         while (storage::head().data) {
             auto n = storage::head().data->next;
-            base_t::deallocate(Size + sizeof(free_list_node),
+            base_t::deallocate(Size + sizeof(free_list_header),
                                storage::head().data);
             storage::head().data = n;
             --storage::head().count;
-- 
2.43.0


From 0ecc6f65e6eccfcd3fcb6df180c17471f8442a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 12/19] fix: erasing a range of a r-value flex_vector without
 transient r-values

It did not compile for memory policies that disable them.
---
 immer/flex_vector.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/immer/flex_vector.hpp b/immer/flex_vector.hpp
index f970db9..6ab7251 100644
--- a/immer/flex_vector.hpp
+++ b/immer/flex_vector.hpp
@@ -488,12 +488,7 @@ public:
     }
     IMMER_NODISCARD decltype(auto) erase(size_type pos, size_type lpos) &&
     {
-        if (lpos > pos) {
-            auto rs = drop(lpos);
-            return std::move(*this).take(pos) + std::move(rs);
-        } else {
-            return std::move(*this);
-        }
+        return erase_move(move_t{}, pos, lpos);
     }
 
     /*!
@@ -589,6 +584,20 @@ private:
         return impl_.drop(elems);
     }
 
+    flex_vector&& erase_move(std::true_type, size_type pos, size_type lpos)
+    {
+        if (lpos > pos) {
+            auto rs = drop(lpos);
+            return std::move(*this).take(pos) + std::move(rs);
+        } else {
+            return std::move(*this);
+        }
+    }
+    flex_vector erase_move(std::false_type, size_type pos, size_type lpos)
+    {
+        return lpos > pos ? take(pos) + drop(lpos) : *this;
+    }
+
     static flex_vector&&
     concat_move(std::true_type, flex_vector&& l, const flex_vector& r)
     {
-- 
2.43.0


From d8779c3aeb0bcf07268808d52b76910fc6414fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 13/19] fix: taking from a r-value or transient while another
 thread lets go of it

When the last other owner of a node releases it after we saw it shared,
the children that were not taken from it have to be released too.
---
 immer/detail/rbts/operations.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/immer/detail/rbts/operations.hpp b/immer/detail/rbts/operations.hpp
index d5ff679..f8b4cee 100644
--- a/immer/detail/rbts/operations.hpp
+++ b/immer/detail/rbts/operations.hpp
@@ -916,8 +916,10 @@ struct slice_right_mut_visitor
         if (Collapse && idx == 0) {
             auto res = mutate ? pos.towards_oh(this_t{}, last, idx, e)
                               : pos.towards_oh(no_mut_t{}, last, idx, e);
-            if (Mutating)
+            if (mutate)
                 pos.visit(dec_right_visitor{}, count_t{1});
+            else if (Mutating)
+                pos.visit(dec_visitor{});
             return res;
         } else {
             using std::get;
@@ -949,15 +951,19 @@ struct slice_right_mut_visitor
                         return std::make_tuple(pos.shift(), newn, ts, tail);
                     }
                 } else if (idx == 0) {
-                    if (Mutating)
+                    if (mutate)
                         pos.visit(dec_right_visitor{}, count_t{1});
+                    else if (Mutating)
+                        pos.visit(dec_visitor{});
                     return std::make_tuple(pos.shift(), nullptr, ts, tail);
                 } else if (Collapse && idx == 1 && pos.shift() > BL) {
                     auto newn = pos.node()->inner()[0];
                     if (!mutate)
                         newn->inc();
-                    if (Mutating)
+                    if (mutate)
                         pos.visit(dec_right_visitor{}, count_t{2});
+                    else if (Mutating)
+                        pos.visit(dec_visitor{});
                     return std::make_tuple(pos.shift() - B, newn, ts, tail);
                 } else {
                     if (mutate) {
@@ -994,8 +1000,10 @@ struct slice_right_mut_visitor
         if (Collapse && idx == 0) {
             auto res = mutate ? pos.towards_oh(this_t{}, last, idx, e)
                               : pos.towards_oh(no_mut_t{}, last, idx, e);
-            if (Mutating)
+            if (mutate)
                 pos.visit(dec_right_visitor{}, count_t{1});
+            else if (Mutating)
+                pos.visit(dec_visitor{});
             return res;
         } else {
             using std::get;
@@ -1019,15 +1027,19 @@ struct slice_right_mut_visitor
                         return std::make_tuple(pos.shift(), newn, ts, tail);
                     }
                 } else if (idx == 0) {
-                    if (Mutating)
+                    if (mutate)
                         pos.visit(dec_right_visitor{}, count_t{1});
+                    else if (Mutating)
+                        pos.visit(dec_visitor{});
                     return std::make_tuple(pos.shift(), nullptr, ts, tail);
                 } else if (Collapse && idx == 1 && pos.shift() > BL) {
                     auto newn = pos.node()->inner()[0];
                     if (!mutate)
                         newn->inc();
-                    if (Mutating)
+                    if (mutate)
                         pos.visit(dec_right_visitor{}, count_t{2});
+                    else if (Mutating)
+                        pos.visit(dec_visitor{});
                     return std::make_tuple(pos.shift() - B, newn, ts, tail);
                 } else {
                     if (mutate) {
-- 
2.43.0


From aa9e9034d6e8abf74e721bde8e5869db284c6887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:44 +0000
Subject: [PATCH 14/19] fix: size tables shared between nodes are used after
 they are released

---
 immer/detail/rbts/node.hpp       | 80 ++++++++++++++++----------------
 immer/detail/rbts/operations.hpp | 17 +++++--
 2 files changed, 54 insertions(+), 43 deletions(-)

diff --git a/immer/detail/rbts/node.hpp b/immer/detail/rbts/node.hpp
index 55a512b..d864432 100644
--- a/immer/detail/rbts/node.hpp
+++ b/immer/detail/rbts/node.hpp
@@ -818,18 +818,21 @@ struct node
             delete_inner(p, n);
     }
 
+    static void dec_relaxed(relaxed_t* r, count_t n)
+    {
+        if (node_t::refs(r).dec())
+            heap::deallocate(node_t::ownee(r).owned()
+                                 ? node_t::max_sizeof_relaxed
+                                 : node_t::sizeof_relaxed_n(n),
+                             r);
+    }
+
     static void delete_inner_r(node_t* p, count_t n)
     {
         IMMER_ASSERT_TAGGED(p->kind() == kind_t::inner);
         auto r = p->relaxed();
         assert(r);
-        static_if<!embed_relaxed>([&](auto) {
-            if (node_t::refs(r).dec())
-                heap::deallocate(node_t::ownee(r).owned()
-                                     ? node_t::max_sizeof_relaxed
-                                     : node_t::sizeof_relaxed_n(n),
-                                 r);
-        });
+        static_if<!embed_relaxed>([&](auto) { node_t::dec_relaxed(r, n); });
         heap::deallocate(ownee(p).owned() ? node_t::max_sizeof_inner_r
                                           : node_t::sizeof_inner_r_n(n),
                          p);
@@ -863,6 +866,35 @@ struct node
 
     bool can_relax() const { return !embed_relaxed || relaxed(); }
 
+    // Keeps the current sizes of a node alive while there are positions that
+    // refer to them, even when `ensure_mutable_relaxed()` gives the node other
+    // sizes and their other owners let go of them in the meantime.
+    struct sizes_guard
+    {
+        explicit sizes_guard(node_t* node)
+        {
+            static_if<!embed_relaxed>([&](auto) {
+                auto r = node ? node->relaxed() : nullptr;
+                if (r && !node_t::refs(r).unique()) {
+                    node_t::refs(r).inc();
+                    sizes_ = r;
+                }
+            });
+        }
+        ~sizes_guard()
+        {
+            static_if<!embed_relaxed>([&](auto) {
+                if (sizes_)
+                    node_t::dec_relaxed(sizes_, sizes_->d.count);
+            });
+        }
+        sizes_guard(const sizes_guard&)            = delete;
+        sizes_guard& operator=(const sizes_guard&) = delete;
+
+    private:
+        relaxed_t* sizes_ = nullptr;
+    };
+
     relaxed_t* ensure_mutable_relaxed(edit_t e)
     {
         auto src_r = relaxed();
@@ -879,9 +911,7 @@ struct node
                         auto n = dst_r->d.count = src_r->d.count;
                         std::copy(
                             src_r->d.sizes, src_r->d.sizes + n, dst_r->d.sizes);
-                        if (node_t::refs(src_r).dec())
-                            heap::deallocate(node_t::sizeof_inner_r_n(n),
-                                             src_r);
+                        node_t::dec_relaxed(src_r, n);
                     }
                     node_t::ownee(dst_r) = e;
                     return dst_r;
@@ -906,9 +936,7 @@ struct node
                         auto n = dst_r->d.count = src_r->d.count;
                         std::copy(
                             src_r->d.sizes, src_r->d.sizes + n, dst_r->d.sizes);
-                        if (node_t::refs(src_r).dec())
-                            heap::deallocate(node_t::sizeof_inner_r_n(n),
-                                             src_r);
+                        node_t::dec_relaxed(src_r, n);
                     }
                     node_t::ownee(dst_r) = ec;
                     return dst_r;
@@ -916,32 +944,6 @@ struct node
             });
     }
 
-    relaxed_t* ensure_mutable_relaxed_n(edit_t e, count_t n)
-    {
-        auto src_r = relaxed();
-        return static_if<embed_relaxed, relaxed_t*>(
-            [&](auto) { return src_r; },
-            [&](auto) {
-                if (node_t::refs(src_r).unique() ||
-                    node_t::ownee(src_r).can_mutate(e))
-                    return src_r;
-                else {
-                    auto dst_r =
-                        new (heap::allocate(max_sizeof_relaxed)) relaxed_t;
-                    if (src_r) {
-                        std::copy(
-                            src_r->d.sizes, src_r->d.sizes + n, dst_r->d.sizes);
-                        if (node_t::refs(src_r).dec())
-                            heap::deallocate(node_t::sizeof_inner_r_n(n),
-                                             src_r);
-                    }
-                    dst_r->d.count                   = n;
-                    node_t::ownee(dst_r)             = e;
-                    return impl.d.data.inner.relaxed = dst_r;
-                }
-            });
-    }
-
     node_t* inc()
     {
         refs(this).inc();
diff --git a/immer/detail/rbts/operations.hpp b/immer/detail/rbts/operations.hpp
index f8b4cee..de6212a 100644
--- a/immer/detail/rbts/operations.hpp
+++ b/immer/detail/rbts/operations.hpp
@@ -688,7 +688,12 @@ struct push_tail_mut_visitor
 
         if (new_idx >= branches<B>)
             return nullptr;
-        else if (idx == new_idx) {
+
+        typename node_t::sizes_guard guard{mutate ? node : nullptr};
+        if (mutate)
+            node->ensure_mutable_relaxed(e);
+
+        if (idx == new_idx) {
             new_child =
                 mutate ? pos.last_oh_csh(this_t{}, idx, children, e, tail, ts)
                        : pos.last_oh_csh(
@@ -704,7 +709,7 @@ struct push_tail_mut_visitor
 
         if (mutate) {
             auto count             = new_idx + 1;
-            auto relaxed           = node->ensure_mutable_relaxed_n(e, new_idx);
+            auto relaxed           = node->relaxed();
             node->inner()[new_idx] = new_child;
             relaxed->d.sizes[new_idx] = pos.size() + ts;
             relaxed->d.count          = count;
@@ -923,6 +928,9 @@ struct slice_right_mut_visitor
             return res;
         } else {
             using std::get;
+            typename node_t::sizes_guard guard{mutate ? node : nullptr};
+            if (mutate)
+                node->ensure_mutable_relaxed(e);
             auto subs =
                 mutate ? pos.towards_oh(no_collapse_t{}, last, idx, e)
                        : pos.towards_oh(no_collapse_no_mut_t{}, last, idx, e);
@@ -932,7 +940,7 @@ struct slice_right_mut_visitor
             IMMER_TRY {
                 if (next) {
                     if (mutate) {
-                        auto nodr = node->ensure_mutable_relaxed_n(e, idx);
+                        auto nodr = node->relaxed();
                         pos.each_right(dec_visitor{}, idx + 1);
                         node->inner()[idx] = next;
                         nodr->d.sizes[idx] = last + 1 - ts;
@@ -968,7 +976,7 @@ struct slice_right_mut_visitor
                 } else {
                     if (mutate) {
                         pos.each_right(dec_visitor{}, idx + 1);
-                        node->ensure_mutable_relaxed_n(e, idx)->d.count = idx;
+                        node->relaxed()->d.count = idx;
                         return std::make_tuple(pos.shift(), node, ts, tail);
                     } else {
                         auto newn = node_t::copy_inner_r_e(e, node, idx);
@@ -1273,6 +1281,7 @@ struct slice_left_mut_visitor
             return r;
         } else {
             using std::get;
+            typename node_t::sizes_guard guard{mutate ? node : nullptr};
             auto newn     = mutate ? (node->ensure_mutable_relaxed(e), node)
                                    : node_t::make_inner_r_e(e);
             auto newr     = newn->relaxed();
-- 
2.43.0


From 62a60bd892d3b6e98779a49e5eab3a85e4ccf559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 15/19] fix: concurrent allocations from free_list_heap could
 get the same block

---
 immer/heap/free_list_heap.hpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/immer/heap/free_list_heap.hpp b/immer/heap/free_list_heap.hpp
index 3a8f842..2053901 100644
--- a/immer/heap/free_list_heap.hpp
+++ b/immer/heap/free_list_heap.hpp
@@ -36,14 +36,25 @@ struct free_list_heap : Base
         assert(size <= sizeof(detail::free_list_header) + Size);
         assert(size >= sizeof(free_list_node));
 
-        free_list_node* n;
-        do {
-            n = head().data;
-            if (!n) {
-                auto p = base_t::allocate(Size + sizeof(detail::free_list_header));
-                return static_cast<free_list_node*>(p);
+        // Popping just the first node would need to know that it is still
+        // followed by the same one when it is the first again, so take
+        // them all and give back the rest.
+        auto n = head().data.exchange(nullptr);
+        if (!n) {
+            auto p = base_t::allocate(Size + sizeof(detail::free_list_header));
+            return static_cast<free_list_node*>(p);
+        }
+        if (auto rest = n->next) {
+            free_list_node* added = nullptr;
+            if (!head().data.compare_exchange_strong(added, rest)) {
+                auto last = rest;
+                while (last->next)
+                    last = last->next;
+                do {
+                    last->next = added;
+                } while (!head().data.compare_exchange_weak(added, rest));
             }
-        } while (!head().data.compare_exchange_weak(n, n->next));
+        }
         head().count.fetch_sub(1u, std::memory_order_relaxed);
         return n;
     }
-- 
2.43.0


From 6197f094f0a35159d5f116e7f040a881900f4cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 16/19] fix: iterators of dvektor at its end, moved by more
 than one or over an empty one

---
 immer/experimental/detail/dvektor_impl.hpp | 42 +++++++++++++---------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/immer/experimental/detail/dvektor_impl.hpp b/immer/experimental/detail/dvektor_impl.hpp
index 7a21f1f..1b3341f 100644
--- a/immer/experimental/detail/dvektor_impl.hpp
+++ b/immer/experimental/detail/dvektor_impl.hpp
@@ -418,25 +418,13 @@ struct iterator
     iterator() = default;
 
     iterator(const impl<T, B, MP>& v)
-        : p_{v.p}
-        , i_{0}
-        , base_{0}
+        : iterator{v, 0, 0}
     {
-        if (v.dirty)
-            p_.stabilize(v.focus);
-        p_.goto_pos(0, 0 ^ v.focus);
-        curr_ = p_.display[0]->leaf().begin();
     }
 
     iterator(const impl<T, B, MP>& v, end_t)
-        : p_{v.p}
-        , i_{v.size}
-        , base_{(v.size - 1) & ~mask<B>}
+        : iterator{v, v.size, v.size ? (v.size - 1) & ~mask<B> : 0}
     {
-        if (v.dirty)
-            p_.stabilize(v.focus);
-        p_.goto_pos(base_, base_ ^ v.focus);
-        curr_ = p_.display[0]->leaf().begin() + (i_ - base_);
     }
 
 private:
@@ -444,20 +432,39 @@ private:
     using leaf_iterator = typename leaf_node<T, B>::const_iterator;
 
     ref<T, B, MP> p_;
+    std::size_t size_;
     std::size_t i_;
     std::size_t base_;
     leaf_iterator curr_;
 
+    iterator(const impl<T, B, MP>& v, std::size_t i, std::size_t base)
+        : p_{v.p}
+        , size_{v.size}
+        , i_{i}
+        , base_{base}
+        , curr_{}
+    {
+        if (size_) {
+            if (v.dirty)
+                p_.stabilize(v.focus);
+            p_.goto_pos(base_, base_ ^ v.focus);
+            curr_ = p_.display[0]->leaf().begin() + (i_ - base_);
+        }
+    }
+
     void increment()
     {
         ++i_;
         if (i_ - base_ < branches<B>) {
             ++curr_;
-        } else {
+        } else if (i_ < size_) {
             auto new_base = base_ + branches<B>;
             p_.goto_next_block_start(new_base, base_ ^ new_base);
             base_ = new_base;
             curr_ = p_.display[0]->leaf().begin();
+        } else {
+            // past the last element, there may be no such block
+            ++curr_;
         }
     }
 
@@ -478,10 +485,11 @@ private:
     void advance(std::ptrdiff_t n)
     {
         i_ += n;
-        if (i_ <= base_ && i_ - base_ < branches<B>) {
+        // the end is one past the last element, not a block of its own
+        auto new_base = (i_ && i_ == size_ ? i_ - 1 : i_) & ~mask<B>;
+        if (new_base == base_) {
             curr_ += n;
         } else {
-            auto new_base = i_ & ~mask<B>;
             p_.goto_pos(new_base, base_ ^ new_base);
             base_ = new_base;
             curr_ = p_.display[0]->leaf().begin() + (i_ - base_);
-- 
2.43.0


From d712583a54badfda8f137cc2d6391ce397f7657a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 17/19] fix: appending a block to a deep dvektor whose last
 access was elsewhere

---
 immer/experimental/detail/dvektor_impl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/immer/experimental/detail/dvektor_impl.hpp b/immer/experimental/detail/dvektor_impl.hpp
index 1b3341f..e2309b2 100644
--- a/immer/experimental/detail/dvektor_impl.hpp
+++ b/immer/experimental/detail/dvektor_impl.hpp
@@ -275,6 +275,7 @@ struct ref
                                 ->inner()[(new_index >> shift) & mask<B>];
                 display[display_idx] =
                     node ? std::move(node) : make_node(inner_t{});
+                shift -= B;
             }
             display[0] = make_node(leaf_t{});
         }
-- 
2.43.0


From 349525f501957b13da145bd47be992c5755e6f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:32 +0000
Subject: [PATCH 18/19] fix: size of the released leaf when rebalancing a
 concatenation throws

Without reference counts nodes only have room for the elements they are
made for: a leaf that is partially filled when copying an element or
allocating throws was released with the size of its elements so far.
---
 immer/detail/rbts/operations.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/immer/detail/rbts/operations.hpp b/immer/detail/rbts/operations.hpp
index de6212a..07415a4 100644
--- a/immer/detail/rbts/operations.hpp
+++ b/immer/detail/rbts/operations.hpp
@@ -1598,6 +1598,7 @@ struct concat_merger
     {}
 
     node_t* to_        = {};
+    count_t to_count_  = {};
     count_t to_offset_ = {};
     size_t to_size_    = {};
 
@@ -1641,6 +1642,7 @@ struct concat_merger
             do {
                 if (!to_) {
                     to_        = node_t::make_leaf_n(*curr_);
+                    to_count_  = *curr_;
                     to_offset_ = 0;
                 }
                 auto data = to_->leaf();
@@ -1711,9 +1713,12 @@ struct concat_merger
     {
         auto shift = result_.shift_ - B;
         if (to_) {
-            if (shift == BL)
-                node_t::delete_leaf(to_, to_offset_);
-            else {
+            if (shift == BL) {
+                // not delete_leaf, which takes it to be full
+                detail::destroy_n(to_->leaf(), to_offset_);
+                node_t::heap::deallocate(node_t::sizeof_leaf_n(to_count_),
+                                         to_);
+            } else {
                 to_->relaxed()->d.count = to_offset_;
                 dec_relaxed(to_, shift - B);
             }
-- 
2.43.0


From 801071a329f6ac28603fd5f90f288cd3cc68c0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:37 +0000
Subject: [PATCH 19/19] fix: debug check of a concatenation reads the size of a
 tree it changed

---
 immer/detail/rbts/rrbtree.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/immer/detail/rbts/rrbtree.hpp b/immer/detail/rbts/rrbtree.hpp
index a6b5d61..1900491 100644
--- a/immer/detail/rbts/rrbtree.hpp
+++ b/immer/detail/rbts/rrbtree.hpp
@@ -1252,6 +1252,8 @@ struct rrbtree
             if (supports_transient_concat) {
                 auto tail_offst = l.tail_offset();
                 auto tail_size  = l.size - tail_offst;
+                // concatenating may change the root of r
+                auto r_tail_offst = r.tail_offset();
                 auto concated   = concat_trees_mut(er,
                                                  el,
                                                  l.tail,
@@ -1259,11 +1261,11 @@ struct rrbtree
                                                  er,
                                                  r.root,
                                                  r.shift,
-                                                 r.tail_offset());
+                                                 r_tail_offst);
                 IMMER_ASSERT_TAGGED(concated.shift() ==
                                     concated.node()->compute_shift());
                 assert(concated.node()->check(concated.shift(),
-                                              l.size + r.tail_offset()));
+                                              l.size + r_tail_offst));
                 r.size += l.size;
                 r.shift = concated.shift();
                 r.root  = concated.node();
@@ -1284,6 +1286,8 @@ struct rrbtree
             if (supports_transient_concat) {
                 auto tail_offst = l.tail_offset();
                 auto tail_size  = l.size - tail_offst;
+                // concatenating may change the root of r
+                auto r_tail_offst = r.tail_offset();
                 auto concated   = concat_trees_mut(er,
                                                  el,
                                                  l.root,
@@ -1294,11 +1298,11 @@ struct rrbtree
                                                  er,
                                                  r.root,
                                                  r.shift,
-                                                 r.tail_offset());
+                                                 r_tail_offst);
                 IMMER_ASSERT_TAGGED(concated.shift() ==
                                     concated.node()->compute_shift());
                 assert(concated.node()->check(concated.shift(),
-                                              l.size + r.tail_offset()));
+                                              l.size + r_tail_offst));
                 r.size += l.size;
                 r.shift = concated.shift();
                 r.root  = concated.node();
-- 
2.43.0

