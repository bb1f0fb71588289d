From 5cc67ff584d48872ee7ae6dc522c022aadbd2ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:53 +0000
Subject: [PATCH 01/14] fix: ptr copy-assignment from itself or from data owned
 by the released resource

---
 sdd/mem/ptr.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sdd/mem/ptr.hh b/sdd/mem/ptr.hh
index 9594e20..fa94bc0 100644
--- a/sdd/mem/ptr.hh
+++ b/sdd/mem/ptr.hh
@@ -97,6 +97,10 @@ public:
   noexcept
   {
     assert(other.x_ != nullptr); // Don't copy from an already moved ptr.
+    // Acquire other's resource before releasing the current one: other can be this ptr, or it can
+    // be owned by the resource which is about to be released.
+    const auto x = other.x_;
+    x->increment_reference_counter();
     if (x_ != nullptr)
     {
       x_->decrement_reference_counter();
@@ -105,8 +109,7 @@ public:
         deletion_handler<Unique>()(x_);
       }
     }
-    x_ = other.x_;
-    x_->increment_reference_counter();
+    x_ = x;
     return *this;
   }
 
-- 
2.43.0


From ec78af560d6008f40afe8f1bf51e2ca11ce9e657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:53 +0000
Subject: [PATCH 02/14] fix: clear the LRU list when a cache is cleared

---
 sdd/mem/cache.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdd/mem/cache.hh b/sdd/mem/cache.hh
index e37a761..74aad60 100644
--- a/sdd/mem/cache.hh
+++ b/sdd/mem/cache.hh
@@ -270,6 +270,7 @@ public:
                                 x->~cache_entry_type();
                                 pool_.deallocate(x);
                               });
+    lru_list_.clear();
   }
 
   /// @brief Get the number of cached operations.
-- 
2.43.0


From 7967bb9bd165ff632929f4ec9f5ce2b2ca98e752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:53 +0000
Subject: [PATCH 03/14] fix: init() must refuse a configuration whose values
 are already managed

---
 sdd/manager.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdd/manager.hh b/sdd/manager.hh
index 2fe1bc8..9701eef 100644
--- a/sdd/manager.hh
+++ b/sdd/manager.hh
@@ -36,12 +36,12 @@ manager<C>
 init(const C& configuration = C{})
 {
   using values_type = typename C::Values;
-  if (*global_ptr<C>() == nullptr and *global_ptr<values_type>() == nullptr)
+  if (*global_ptr<C>() == nullptr and *global_values_ptr<values_type>() == nullptr)
   {
     auto vm_ptr = std::make_unique<values_manager<values_type>>(configuration);
-    *global_values_ptr<values_type>() = vm_ptr.get();
-
     auto im_ptr = std::make_unique<internal_manager<C>>(configuration);
+
+    *global_values_ptr<values_type>() = vm_ptr.get();
     *global_ptr<C>() = im_ptr.get();
 
     return std::make_shared<manager_impl<C>>(std::move(vm_ptr), std::move(im_ptr));
-- 
2.43.0


From 4d2efc2550afedad091812c54d4db93b3a673f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:53 +0000
Subject: [PATCH 04/14] fix: flat_set::insert() returned an iterator on a
 destroyed container

---
 sdd/values/flat_set.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdd/values/flat_set.hh b/sdd/values/flat_set.hh
index 158caba..c732f87 100644
--- a/sdd/values/flat_set.hh
+++ b/sdd/values/flat_set.hh
@@ -90,13 +90,14 @@ public:
   insert(const Value& x)
   {
     data_type fs(ptr_->data());
-    const auto insertion = fs.insert(x);
-    if (insertion.second)
+    const bool inserted = fs.insert(x).second;
+    if (inserted)
     {
       fs.shrink_to_fit();
       ptr_ = create(std::move(fs));
     }
-    return insertion;
+    // Don't return an iterator on the temporary fs.
+    return {find(x), inserted};
   }
 
   /// @brief Returns an iterator pointing to the first element in the flat set.
-- 
2.43.0


From b9ba5a928cc7eea384fae83c1fe942298e20a211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:10 +0000
Subject: [PATCH 05/14] fix: hash and order bitsets larger than an unsigned
 long

---
 sdd/values/bitset.hh | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sdd/values/bitset.hh b/sdd/values/bitset.hh
index 30478c2..9ca79ba 100644
--- a/sdd/values/bitset.hh
+++ b/sdd/values/bitset.hh
@@ -78,7 +78,19 @@ public:
   operator<(const bitset& lhs, const bitset& rhs)
   noexcept
   {
-    return lhs.content_.to_ulong() < rhs.content_.to_ulong();
+    if (Size <= std::numeric_limits<unsigned long>::digits)
+    {
+      return lhs.content_.to_ulong() < rhs.content_.to_ulong();
+    }
+    // Too large for to_ulong(): the highest different bit gives the order.
+    for (std::size_t i = Size; i-- > 0;)
+    {
+      if (lhs.content_[i] != rhs.content_[i])
+      {
+        return rhs.content_[i];
+      }
+    }
+    return false;
   }
 
   bitset&
@@ -214,7 +226,7 @@ struct hash<sdd::values::bitset<Size>>
   operator()(const sdd::values::bitset<Size>& b)
   const noexcept
   {
-    return sdd::hash::seed(b.content_.to_ulong());
+    return sdd::hash::seed(b.content_);
   }
 };
   
-- 
2.43.0


From f0fe9213dd0dc85bd6622e7f6a28bde507b00748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:10 +0000
Subject: [PATCH 06/14] fix: FORCE must return the order with the smallest span

---
 sdd/order/strategies/force.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdd/order/strategies/force.hh b/sdd/order/strategies/force.hh
index 59e5463..f44d447 100644
--- a/sdd/order/strategies/force.hh
+++ b/sdd/order/strategies/force.hh
@@ -60,7 +60,7 @@ public:
 
     // Keep a copy of the order with the smallest span.
     auto best_order = std::vector<std::reference_wrapper<vertex_type>>{sorted_vertices};
-    const auto smallest_span = std::numeric_limits<double>::max();
+    auto smallest_span = std::numeric_limits<double>::max();
 
     while (iterations-- != 0)
     {
@@ -100,6 +100,7 @@ public:
       {
         // We keep the order that minimizes the span.
         best_order = sorted_vertices;
+        smallest_span = span;
       }
     }
 
-- 
2.43.0


From c9a04702c6ffd9a88a548db473a3ab4011190bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:10 +0000
Subject: [PATCH 07/14] fix: FORCE initial locations must not depend on
 previous hypergraphs

---
 sdd/order/strategies/force_hypergraph.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdd/order/strategies/force_hypergraph.hh b/sdd/order/strategies/force_hypergraph.hh
index ef9f7a8..c8a7aae 100644
--- a/sdd/order/strategies/force_hypergraph.hh
+++ b/sdd/order/strategies/force_hypergraph.hh
@@ -60,7 +60,7 @@ public:
     , hyperedges_ptr_(std::make_shared<std::deque<hyperedge_type>>())
     , id_to_vertex_ptr_(std::make_shared<std::unordered_map<identifier_type, vertex_type*>>())
   {
-    static double location = 0;
+    double location = 0;
     assert(it != end);
     for (; it != end; ++it)
     {
-- 
2.43.0


From 502320d58e3f65b67dcbeff26b83e3811b957238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:10 +0000
Subject: [PATCH 08/14] fix: order::flat() with nested orders and a plain
 output iterator

---
 sdd/order/order.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdd/order/order.hh b/sdd/order/order.hh
index 819fd1f..896fd16 100644
--- a/sdd/order/order.hh
+++ b/sdd/order/order.hh
@@ -214,21 +214,22 @@ private:
   /// @brief Recursion on the order to get flat nodes
   template <typename OutputIterator>
   static
-  void
+  OutputIterator
   flat_impl(OutputIterator it, const order_node<C>* current)
   {
     if (current != nullptr)
     {
       if (current->nested())
       {
-        flat_impl(it, current->nested());
+        it = flat_impl(it, current->nested());
       }
       else
       {
         *it++ = current->identifier().user();
       }
-      flat_impl(it, current->next());
+      it = flat_impl(it, current->next());
     }
+    return it;
   }
 
   /// @brief Construct with a shallow copy an already existing order.
-- 
2.43.0


From 3abf843b432655aa973328f90639f2b9c3160190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:28 +0000
Subject: [PATCH 09/14] fix: equal orders must have the same hash

---
 sdd/order/order.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sdd/order/order.hh b/sdd/order/order.hh
index 896fd16..34bc413 100644
--- a/sdd/order/order.hh
+++ b/sdd/order/order.hh
@@ -51,8 +51,6 @@ public:
 
 private:
 
-  friend struct std::hash<order<C>>;
-
   /// @brief A path, following hierarchies, to a node.
   using path_type = typename order_node<C>::path_type;
 
@@ -366,7 +364,8 @@ struct hash<sdd::order<C>>
   const noexcept
   {
     using namespace sdd::hash;
-    return seed(o.nodes_ptr_.get()) (val(o.head_));
+    // Must be consistent with the equality of orders, which doesn't compare addresses.
+    return o.empty() ? seed() : seed(o.position()) (val(o.identifier()));
   }
 };
 
-- 
2.43.0


From ae41a59560961cddb19d92d0d92045b70504488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:05 +0000
Subject: [PATCH 10/14] fix: report the exhaustion of memory when an arena is
 created

The constructor of mem::arena allocates its buffer but was noexcept: asking for
an arena which doesn't fit in memory terminated the program rather than make
init() throw std::bad_alloc, as for tables and caches.
---
 sdd/mem/linear_alloc.hh | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sdd/mem/linear_alloc.hh b/sdd/mem/linear_alloc.hh
index b0c3948..ed44c0e 100644
--- a/sdd/mem/linear_alloc.hh
+++ b/sdd/mem/linear_alloc.hh
@@ -50,7 +50,6 @@ public:
 
   /// @brief Construct an arena with a given size.
   arena(std::size_t size)
-  noexcept
     : size_(size)
     , buffer_(std::make_unique<char[]>(size_))
     , position_(buffer_.get())
-- 
2.43.0


From c1d17284495b20938a3bb46dfb348c9775304e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:29 +0000
Subject: [PATCH 11/14] fix: a failed init() must not leave the library seen as
 initialized

The global pointers were set before the allocation of the manager: if the latter
threw, they kept designating destroyed objects and any later init() was refused.
---
 sdd/manager.hh | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sdd/manager.hh b/sdd/manager.hh
index 9701eef..83d7045 100644
--- a/sdd/manager.hh
+++ b/sdd/manager.hh
@@ -41,10 +41,15 @@ init(const C& configuration = C{})
     auto vm_ptr = std::make_unique<values_manager<values_type>>(configuration);
     auto im_ptr = std::make_unique<internal_manager<C>>(configuration);
 
-    *global_values_ptr<values_type>() = vm_ptr.get();
-    *global_ptr<C>() = im_ptr.get();
+    auto* const vm = vm_ptr.get();
+    auto* const im = im_ptr.get();
+    auto impl = std::make_shared<manager_impl<C>>(std::move(vm_ptr), std::move(im_ptr));
 
-    return std::make_shared<manager_impl<C>>(std::move(vm_ptr), std::move(im_ptr));
+    // From now on nothing can fail: the library would otherwise remain seen as initialized.
+    *global_values_ptr<values_type>() = vm;
+    *global_ptr<C>() = im;
+
+    return std::move(impl);
   }
   else
   {
-- 
2.43.0


From 7c57588a62c23b173f1a12b08dc85977ea6c0e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:49 +0000
Subject: [PATCH 12/14] fix: give back the memory of a block adjacent to the
 buffer of an arena

---
 sdd/mem/linear_alloc.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdd/mem/linear_alloc.hh b/sdd/mem/linear_alloc.hh
index ed44c0e..e8bc6c1 100644
--- a/sdd/mem/linear_alloc.hh
+++ b/sdd/mem/linear_alloc.hh
@@ -100,7 +100,8 @@ public:
   noexcept
   {
     assert(pointer_in_buffer(position_) && "linear_alloc has outlived arena");
-    if (pointer_in_buffer(p))
+    // A block allocated elsewhere may start right after the buffer.
+    if (pointer_in_buffer(p) and pointer_in_buffer(p + n))
     {
       if (p + n == position_) // The memory pointed by p was the last allocated one.
       {
-- 
2.43.0


From 20df497092479211860f14415320660a18183b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:20 +0000
Subject: [PATCH 13/14] fix: give a hash table of initial size 0 at least one
 bucket

---
 sdd/mem/hash_table.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdd/mem/hash_table.hh b/sdd/mem/hash_table.hh
index 1b55f4c..ac0bdcd 100644
--- a/sdd/mem/hash_table.hh
+++ b/sdd/mem/hash_table.hh
@@ -6,7 +6,7 @@
 
 #pragma once
 
-#include <algorithm>   // fill
+#include <algorithm>   // fill, max
 #include <cassert>
 #include <functional>  // hash
 #include <memory>      // unique_ptr
@@ -68,7 +68,7 @@ private:
 public:
 
   hash_table(std::size_t size, double max_load_factor = 0.75)
-    : nb_buckets_(util::next_power_of_2(size))
+    : nb_buckets_(util::next_power_of_2(std::max<std::size_t>(size, 1)))
     , size_(0)
     , buckets_(std::make_unique<Data*[]>(nb_buckets_))
     , max_load_factor_(max_load_factor)
-- 
2.43.0


From e087751ec6c042bfeee05dcac5785acad35f4d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:20 +0000
Subject: [PATCH 14/14] fix: let a cache of size 1 keep one entry

---
 sdd/mem/cache.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdd/mem/cache.hh b/sdd/mem/cache.hh
index 74aad60..010f866 100644
--- a/sdd/mem/cache.hh
+++ b/sdd/mem/cache.hh
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include <algorithm> // max
 #include <memory> // unique_ptr
 #include <tuple>
 
@@ -196,7 +197,7 @@ public:
     : cxt_(context)
     , set_(size, max_load_factor)
     , lru_list_()
-    , max_size_(set_.bucket_count() * max_load_factor)
+    , max_size_(std::max<std::size_t>(set_.bucket_count() * max_load_factor, 1))
     , stats_()
     , pool_(max_size_)
   {}
-- 
2.43.0

