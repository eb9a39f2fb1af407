From 054e5f57bbc9d5c197b853c1aff0e434199bd723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 01/51] fix: group16_flat_table: keep the slot threshold at or
 below its nominal value

---
 src/jstd/hashmap/group16_flat_table.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 1292c06..3047cdc 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2186,7 +2186,11 @@ private:
 #if GROUP16_USE_NEW_OVERFLOW
                     // If overflow bit is 1, and found a empty slot, the slot must be a deleted slot.
                     bool is_deleted_slot = group->is_overflow(ctrl_hash);
-                    this->slot_threshold_ += is_deleted_slot;
+                    // The slot may also have been emptied before the group overflowed, in which case
+                    // erase() did not lower the threshold: never raise it above its nominal value.
+                    if (this->slot_threshold_ < this->calc_slot_threshold(this->slot_capacity())) {
+                        this->slot_threshold_ += is_deleted_slot;
+                    }
                     assert(this->slot_threshold_ <= this->slot_capacity());
 #endif
                 }
-- 
2.43.0


From 6fc7d7fee6cbfd3606731179bd93fa1137ae9885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 02/51] fix: group15/group16_flat_map: insert(first, last)
 inserts every element of the range

---
 src/jstd/hashmap/group15_flat_map.hpp | 2 +-
 src/jstd/hashmap/group16_flat_map.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index e97a273..475d41e 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -458,7 +458,7 @@ public:
     JSTD_FORCED_INLINE
     void insert(InputIter first, InputIter last) {
         for (InputIter pos = first; pos != last; ++pos) {
-            table_.emplace(*first);
+            table_.emplace(*pos);
         }
     }
 
diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index 7dea593..6180de4 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -455,7 +455,7 @@ public:
     JSTD_FORCED_INLINE
     void insert(InputIter first, InputIter last) {
         for (InputIter pos = first; pos != last; ++pos) {
-            table_.emplace(*first);
+            table_.emplace(*pos);
         }
     }
 
-- 
2.43.0


From 37ab7dd15998f8f64d04c89dd2969c81819fb2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:29 +0000
Subject: [PATCH 03/51] fix: group15/group16_flat_table: emplace(lvalue pair)
 copies its argument

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 85724cb..6a488be 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2546,7 +2546,7 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::move(value));
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<ValueT>(value));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 3047cdc..2e3bda7 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2380,7 +2380,7 @@ private:
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
             assert(slot_index < this->slot_capacity());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::move(value));
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<ValueT>(value));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
-- 
2.43.0


From ff06c4f217dff8d37275995237e6e29352313aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:43 +0000
Subject: [PATCH 04/51] fix: group15/group16_flat_table: reserve(0) keeps the
 elements of a non-empty map

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 6a488be..eb47bdd 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -733,7 +733,7 @@ public:
         if (JSTD_LIKELY(new_capacity != 0)) {
             new_capacity = this->shrink_to_fit_capacity(new_capacity);
             this->rehash_impl<false>(new_capacity);
-        } else {
+        } else if (this->empty()) {
             this->destroy<true>();
         }
     }
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 2e3bda7..2cb2082 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -669,7 +669,7 @@ public:
         if (JSTD_LIKELY(new_capacity != 0)) {
             new_capacity = this->shrink_to_fit_capacity(new_capacity);
             this->rehash_impl<false>(new_capacity);
-        } else {
+        } else if (this->empty()) {
             this->destroy<true>();
         }
     }
-- 
2.43.0


From 1e5f10c9bd4cfdbee743a15d8f5515f55705a5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:10 +0000
Subject: [PATCH 05/51] fix: group15/group16 flat maps: copying, moving,
 insert_or_assign, hinted try_emplace, erase by iterator and erase_if compile
 and work

---
 src/jstd/hashmap/flat_map_iterator.hpp  |  2 +-
 src/jstd/hashmap/group15_flat_map.hpp   | 55 +++++++++++--------------
 src/jstd/hashmap/group15_flat_table.hpp | 30 +++++++-------
 src/jstd/hashmap/group16_flat_map.hpp   | 54 +++++++++++-------------
 src/jstd/hashmap/group16_flat_table.hpp | 21 +++++-----
 5 files changed, 74 insertions(+), 88 deletions(-)

diff --git a/src/jstd/hashmap/flat_map_iterator.hpp b/src/jstd/hashmap/flat_map_iterator.hpp
index 63db61a..1856c97 100644
--- a/src/jstd/hashmap/flat_map_iterator.hpp
+++ b/src/jstd/hashmap/flat_map_iterator.hpp
@@ -218,7 +218,7 @@ public:
     }
 
     inline hashmap_type * hashmap() noexcept {
-        return this->hashmap_;
+        return const_cast<hashmap_type *>(this->hashmap_);
     }
 
     inline const hashmap_type * hashmap() const noexcept {
diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index 475d41e..6fa9e14 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -472,13 +472,13 @@ public:
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value));
+        return table_.insert_or_assign(key, std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value));
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -488,19 +488,19 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -510,7 +510,7 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
@@ -573,13 +573,13 @@ public:
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, const key_type & key, Args && ... args) {
-        return table_.try_emplace(hint, key, std::forward<Args>(args)...);
+        return table_.try_emplace(key, std::forward<Args>(args)...).first;
     }
 
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, key_type && key, Args && ... args) {
-        return table_.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::move(key), std::forward<Args>(args)...).first;
     }
 
     template <typename KeyT, typename ... Args>
@@ -592,7 +592,7 @@ public:
                             !std::is_convertible<KeyT, const_iterator>::value,
                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     // For compatibility with versions below C++17 that do not support T::is_transparent
@@ -604,9 +604,9 @@ public:
                              !std::is_same<key_type, KeyT>::value &&
                              !std::is_convertible<KeyT, iterator>::value &&
                              !std::is_convertible<KeyT, const_iterator>::value,
-                              std::pair<iterator, bool> >::type
+                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     ///
@@ -618,35 +618,27 @@ public:
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(iterator pos) {
+    iterator erase(iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(const_iterator pos) {
+    iterator erase(const_iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
     iterator erase(iterator first, iterator last) {
         iterator iter = first;
-        if (JSTD_LIKELY(iter.slots() >= this->slots() &&
-                        iter.slots() < this->last_slot())) {
-            for (; iter != last; ++iter) {
-                this->erase(iter);
-            }
-        } else {
-            for (; iter != last; ++iter) {
-                const slot_type * slot = iter.slots();
-                this->erase(slot->get_key());
-            }
+        while (iter != last) {
+            iter = this->erase(iter);
         }
-        return { last };
+        return iter;
     }
 
     JSTD_FORCED_INLINE
     iterator erase(const_iterator first, const_iterator last) {
-        return this->erase(first, last);
+        return this->erase(iterator(first), iterator(last));
     }
 
     template <typename InputIter, typename std::enable_if<
@@ -655,7 +647,7 @@ public:
     JSTD_FORCED_INLINE
     size_type erase(InputIter first, InputIter last) {
         size_type num_deleted = 0;
-        iterator iter = first;
+        InputIter iter = first;
         for (; iter != last; ++iter) {
             num_deleted += static_cast<size_type>(this->erase(*iter));
         }
@@ -724,12 +716,11 @@ erase_if(jstd::group15_flat_map<Key, Value, Hash, KeyEqual, Alloc> & hash_map, P
 
     auto first = hash_map.begin();
     auto last = hash_map.end();
-    auto iter = last;
-    while (iter != first) {
-        --iter;
-        if (pred(*iter)) {
-            hash_map.erase(iter);
-        }
+    while (first != last) {
+        if (pred(*first))
+            first = hash_map.erase(first);
+        else
+            ++first;
     }
 
     return (old_size - hash_map.size());
diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index eb47bdd..5ec4aae 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -366,7 +366,7 @@ public:
         hasher_(std::move(other.hash_function_ref())),
         key_equal_(std::move(other.key_eq_ref())),
         allocator_(std::move(other.get_allocator_ref())),
-        group_allocator_(std::move(other.get_ctrl_allocator_ref())),
+        group_allocator_(std::move(other.get_group_allocator_ref())),
         slot_allocator_(std::move(other.get_slot_allocator_ref())) {
     }
 
@@ -598,8 +598,8 @@ public:
     }
 
     size_type bucket(const key_type & key) const {
-        size_type ctrl_index = this->find_impl(key);
-        return ctrl_index;
+        locator_t locator = this->find_impl(key);
+        return (locator.slot() != nullptr) ? this->index_of(locator.slot()) : npos;
     }
 
     ///
@@ -922,25 +922,25 @@ public:
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
@@ -1008,10 +1008,11 @@ public:
 
     JSTD_FORCED_INLINE
     iterator erase(iterator pos) {
-        locator_t & locator = pos.locator();
+        std::uintptr_t ctrl_addr = reinterpret_cast<std::uintptr_t>(pos.ctrl());
+        locator_t locator(reinterpret_cast<const group_type *>(ctrl_addr & ~std::uintptr_t(kGroupWidth - 1)),
+                          static_cast<size_type>(ctrl_addr % kGroupWidth), pos.slot());
         this->erase_slot(locator);
-        locator.increment();
-        return { locator };
+        return ++pos;
     }
 
     JSTD_FORCED_INLINE
@@ -1675,6 +1676,8 @@ private:
         if (this->slots() != nullptr && other.slots() != nullptr) {
             copy_groups_array_from(other);
             copy_slots_array_from(other);
+            this->slot_size_ = other.slot_size();
+            this->slot_threshold_ = other.slot_threshold();
         } else {
             assert(false);
         }
@@ -1722,7 +1725,7 @@ private:
          */
         std::memcpy(
             reinterpret_cast<unsigned char *>(this->slots()),
-            reinterpret_cast<unsigned char *>(other.slots()),
+            reinterpret_cast<const unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
     }
 
@@ -1822,6 +1825,8 @@ private:
         if (this->slots() != nullptr && other.slots() != nullptr) {
             move_groups_array_from(other);
             move_slots_array_from(other);
+            this->slot_size_ = other.slot_size();
+            this->slot_threshold_ = other.slot_threshold();
         } else {
             assert(false);
         }
@@ -1876,9 +1881,6 @@ private:
             reinterpret_cast<unsigned char *>(this->slots()),
             reinterpret_cast<unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
-
-        // Reset all of other slots
-        std::fill_n(other.slots(), other.slot_capacity(), slot_type());
     }
 
     JSTD_FORCED_INLINE
diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index 6180de4..a321cc6 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -469,13 +469,13 @@ public:
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value));
+        return table_.insert_or_assign(key, std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value));
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -485,19 +485,19 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -507,7 +507,7 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
@@ -570,13 +570,13 @@ public:
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, const key_type & key, Args && ... args) {
-        return table_.try_emplace(hint, key, std::forward<Args>(args)...);
+        return table_.try_emplace(key, std::forward<Args>(args)...).first;
     }
 
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, key_type && key, Args && ... args) {
-        return table_.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::move(key), std::forward<Args>(args)...).first;
     }
 
     template <typename KeyT, typename ... Args>
@@ -589,7 +589,7 @@ public:
                             !std::is_convertible<KeyT, const_iterator>::value,
                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     // For compatibility with versions below C++17 that do not support T::is_transparent
@@ -601,9 +601,9 @@ public:
                              !std::is_same<key_type, KeyT>::value &&
                              !std::is_convertible<KeyT, iterator>::value &&
                              !std::is_convertible<KeyT, const_iterator>::value,
-                              std::pair<iterator, bool> >::type
+                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     ///
@@ -615,34 +615,27 @@ public:
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(iterator pos) {
+    iterator erase(iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(const_iterator pos) {
+    iterator erase(const_iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
     iterator erase(iterator first, iterator last) {
         iterator iter = first;
-        if (JSTD_LIKELY(iter.hashmap() == this)) {
-            for (; iter != last; ++iter) {
-                this->erase(iter);
-            }
-        } else {
-            for (; iter != last; ++iter) {
-                const slot_type * slot = iter.slots();
-                this->erase(slot->get_key());
-            }
+        while (iter != last) {
+            iter = this->erase(iter);
         }
-        return { last };
+        return iter;
     }
 
     JSTD_FORCED_INLINE
     iterator erase(const_iterator first, const_iterator last) {
-        return this->erase(first, last);
+        return this->erase(iterator(first), iterator(last));
     }
 
     template <typename InputIter, typename std::enable_if<
@@ -653,7 +646,7 @@ public:
         size_type num_deleted = 0;
         InputIter iter = first;
         for (; iter != last; ++iter) {
-            num_deleted += static_cast<size_type>(this->erase(*first));
+            num_deleted += static_cast<size_type>(this->erase(*iter));
         }
         return num_deleted;
     }
@@ -720,12 +713,11 @@ erase_if(jstd::group16_flat_map<Key, Value, Hash, KeyEqual, Alloc> & hash_map, P
 
     auto first = hash_map.begin();
     auto last = hash_map.end();
-    auto iter = last;
-    while (iter != first) {
-        --iter;
-        if (pred(*iter)) {
-            hash_map.erase(iter);
-        }
+    while (first != last) {
+        if (pred(*first))
+            first = hash_map.erase(first);
+        else
+            ++first;
     }
 
     return (old_size - hash_map.size());
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 2cb2082..0050914 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -355,7 +355,7 @@ public:
         hasher_(std::move(other.hash_function_ref())),
         key_equal_(std::move(other.key_eq_ref())),
         allocator_(std::move(other.get_allocator_ref())),
-        group_allocator_(std::move(other.get_ctrl_allocator_ref())),
+        group_allocator_(std::move(other.get_group_allocator_ref())),
         slot_allocator_(std::move(other.get_slot_allocator_ref())) {
     }
 
@@ -870,25 +870,25 @@ public:
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
@@ -1620,6 +1620,8 @@ private:
         if (this->slots() != nullptr && other.slots() != nullptr) {
             copy_groups_array_from(other);
             copy_slots_array_from(other);
+            this->slot_size_ = other.slot_size();
+            this->slot_threshold_ = other.slot_threshold();
         }
     }
 
@@ -1665,7 +1667,7 @@ private:
          */
         std::memcpy(
             reinterpret_cast<unsigned char *>(this->slots()),
-            reinterpret_cast<unsigned char *>(other.slots()),
+            reinterpret_cast<const unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
     }
 
@@ -1741,6 +1743,8 @@ private:
         if (this->slots() != nullptr && other.slots() != nullptr) {
             move_groups_array_from(other);
             move_slots_array_from(other);
+            this->slot_size_ = other.slot_size();
+            this->slot_threshold_ = other.slot_threshold();
         }
     }
 
@@ -1793,9 +1797,6 @@ private:
             reinterpret_cast<unsigned char *>(this->slots()),
             reinterpret_cast<unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
-
-        // Reset all of other slots
-        std::fill_n(other.slots(), other.slot_capacity(), slot_type());
     }
 
     JSTD_FORCED_INLINE
@@ -2334,7 +2335,7 @@ private:
     void move_unique_insert(group16_flat_table & other, iterator first, iterator last) {
         for (; first != last; ++first) {
             slot_type * old_slot = first.slot();
-            this->no_grow_unique_transfer_insert(other, old_slot);
+            this->no_grow_unique_transfer_insert(&other, old_slot);
         }
     }
 
-- 
2.43.0


From b2035f16d001917e9ecc2949e30b43e00b37c0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:29 +0000
Subject: [PATCH 06/51] fix: group15/group16_flat_table: an element
 construction, slot copy or allocation that throws leaves the table intact and
 leaks nothing

---
 src/jstd/hashmap/group15_flat_table.hpp | 119 +++++++++++-------------
 src/jstd/hashmap/group16_flat_table.hpp | 107 +++++++++++----------
 2 files changed, 115 insertions(+), 111 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 5ec4aae..a4008e1 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1675,7 +1675,12 @@ private:
     void fast_copy_slots_from(group15_flat_table const & other) {
         if (this->slots() != nullptr && other.slots() != nullptr) {
             copy_groups_array_from(other);
-            copy_slots_array_from(other);
+            try {
+                copy_slots_array_from(other);
+            } catch (...) {
+                this->destroy<false>();
+                throw;
+            }
             this->slot_size_ = other.slot_size();
             this->slot_threshold_ = other.slot_threshold();
         } else {
@@ -1754,43 +1759,18 @@ private:
                 }
             }
         }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
-        } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
+        catch (...) {
+            // Destroy what has been copied so far, [index] is the slot that failed.
+            while (index > 0) {
+                --index;
+                if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
+                    --ctrl;
+                } else {
+                    ctrl -= 2;
+                }
+                if (ctrl->is_used()) {
+                    SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
+                }
             }
             throw;
         }
@@ -2194,6 +2174,19 @@ private:
         this->construct_slot(slot);
     }
 
+    // Construct the element of a slot that find_empty_to_insert() has just marked as used.
+    // If the construction throws, the slot is given back.
+    template <typename ... Args>
+    JSTD_FORCED_INLINE
+    void construct_new_slot(locator_t & locator, Args && ... args) {
+        try {
+            SlotPolicyTraits::construct(&this->slot_allocator_, locator.slot(), std::forward<Args>(args)...);
+        } catch (...) {
+            locator.group()->set_empty(locator.pos());
+            throw;
+        }
+    }
+
     JSTD_FORCED_INLINE
     void destroy_slot(slot_type * slot) {
         if (!is_slot_trivial_destructor) {
@@ -2448,7 +2441,7 @@ private:
         slot_type * new_slot = locator.slot();
         assert(new_slot != nullptr);
 
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
+        this->construct_new_slot(locator, old_slot);
         this->destroy_slot(old_slot);
         this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
@@ -2461,7 +2454,7 @@ private:
         slot_type * new_slot = locator.slot();
         assert(new_slot != nullptr);
 
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
+        this->construct_new_slot(locator, old_slot);
         other->destroy_slot(old_slot);
         this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
@@ -2477,7 +2470,7 @@ private:
         slot_type * new_slot = locator.slot();
         assert(new_slot != nullptr);
 
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
+        this->construct_new_slot(locator, old_slot);
         this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
     }
@@ -2520,7 +2513,7 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, value);
+            this->construct_new_slot(locator, value);
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
@@ -2548,7 +2541,7 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<ValueT>(value));
+            this->construct_new_slot(locator, std::forward<ValueT>(value));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
@@ -2588,9 +2581,9 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::forward<KeyT>(key),
-                                        std::forward<MappedT>(value));
+            this->construct_new_slot(locator,
+                                     std::forward<KeyT>(key),
+                                     std::forward<MappedT>(value));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
@@ -2627,10 +2620,10 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
+            this->construct_new_slot(locator,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(std::forward<KeyT>(key)),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
@@ -2665,10 +2658,10 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward<std::tuple<Ts1...>>(first),
-                                        std::forward<std::tuple<Ts2...>>(second));
+            this->construct_new_slot(locator,
+                                     std::piecewise_construct,
+                                     std::forward<std::tuple<Ts1...>>(first),
+                                     std::forward<std::tuple<Ts2...>>(second));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
@@ -2707,7 +2700,7 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::transfer(&this->slot_allocator_, slot, tmp_slot);
+            this->construct_new_slot(locator, tmp_slot);
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
@@ -2733,10 +2726,10 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(key),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
+            this->construct_new_slot(locator,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(key),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
             this->slot_size_++;
         }
         return { locator, need_insert };
@@ -2753,10 +2746,10 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
+            this->construct_new_slot(locator,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(std::forward<KeyT>(key)),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
             this->slot_size_++;
         }
         return { locator, need_insert };
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 0050914..47b8813 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -1619,7 +1619,12 @@ private:
     void fast_copy_slots_from(group16_flat_table const & other) {
         if (this->slots() != nullptr && other.slots() != nullptr) {
             copy_groups_array_from(other);
-            copy_slots_array_from(other);
+            try {
+                copy_slots_array_from(other);
+            } catch (...) {
+                this->destroy<false>();
+                throw;
+            }
             this->slot_size_ = other.slot_size();
             this->slot_threshold_ = other.slot_threshold();
         }
@@ -1688,27 +1693,14 @@ private:
                 ++ctrl;
             }
         }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
-        } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
+        catch (...) {
+            // Destroy what has been copied so far, [index] is the slot that failed.
+            while (index > 0) {
+                --index;
+                --ctrl;
+                if (ctrl->is_used()) {
+                    SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
+                }
             }
             throw;
         }
@@ -1950,7 +1942,13 @@ private:
             group_type * new_groups_alloc = GroupAllocTraits::allocate(this->group_allocator_, total_group_alloc_count);
             group_type * new_groups = this->AlignedGroups<kGroupAlignment>(new_groups_alloc);
 
-            slot_type * new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_slot_capacity);
+            slot_type * new_slots;
+            try {
+                new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_slot_capacity);
+            } catch (...) {
+                GroupAllocTraits::deallocate(this->group_allocator_, new_groups_alloc, total_group_alloc_count);
+                throw;
+            }
 #else
             size_type total_slot_alloc_count = this->TotalSlotAllocCount<kGroupAlignment>(new_group_capacity, new_slot_capacity);
 
@@ -2057,6 +2055,19 @@ private:
         this->construct_slot(slot);
     }
 
+    // Construct the element of a slot that find_empty_to_insert() has just marked as used.
+    // If the construction throws, the slot is given back.
+    template <typename ... Args>
+    JSTD_FORCED_INLINE
+    void construct_new_slot(size_type slot_index, Args && ... args) {
+        try {
+            SlotPolicyTraits::construct(&this->slot_allocator_, this->slot_at(slot_index), std::forward<Args>(args)...);
+        } catch (...) {
+            this->ctrl_at(slot_index)->set_empty();
+            throw;
+        }
+    }
+
     JSTD_FORCED_INLINE
     void destroy_slot(slot_type * slot) {
         if (!is_slot_trivial_destructor) {
@@ -2275,7 +2286,7 @@ private:
         slot_type * new_slot = this->slot_at(slot_index);
         assert(new_slot != nullptr);
 
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
+        this->construct_new_slot(slot_index, old_slot);
         this->destroy_slot(old_slot);
         this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
@@ -2288,7 +2299,7 @@ private:
         slot_type * new_slot = this->slot_at(slot_index);
         assert(new_slot != nullptr);
 
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
+        this->construct_new_slot(slot_index, old_slot);
         other->destroy_slot(old_slot);
         this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
@@ -2304,7 +2315,7 @@ private:
         slot_type * new_slot = this->slot_at(slot_index);
         assert(new_slot != nullptr);
 
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
+        this->construct_new_slot(slot_index, old_slot);
         this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
     }
@@ -2353,7 +2364,7 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, value);
+            this->construct_new_slot(slot_index, value);
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
@@ -2381,7 +2392,7 @@ private:
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
             assert(slot_index < this->slot_capacity());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<ValueT>(value));
+            this->construct_new_slot(slot_index, std::forward<ValueT>(value));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
@@ -2420,9 +2431,9 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::forward<KeyT>(key),
-                                        std::forward<MappedT>(value));
+            this->construct_new_slot(slot_index,
+                                     std::forward<KeyT>(key),
+                                     std::forward<MappedT>(value));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
@@ -2458,10 +2469,10 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
+            this->construct_new_slot(slot_index,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(std::forward<KeyT>(key)),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
@@ -2495,10 +2506,10 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward<std::tuple<Ts1...>>(first),
-                                        std::forward<std::tuple<Ts2...>>(second));
+            this->construct_new_slot(slot_index,
+                                     std::piecewise_construct,
+                                     std::forward<std::tuple<Ts1...>>(first),
+                                     std::forward<std::tuple<Ts2...>>(second));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
@@ -2537,7 +2548,7 @@ private:
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
 
-            SlotPolicyTraits::transfer(&this->slot_allocator_, slot, tmp_slot);
+            this->construct_new_slot(slot_index, tmp_slot);
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
@@ -2562,10 +2573,10 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(key),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
+            this->construct_new_slot(slot_index,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(key),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
             this->slot_size_++;
         }
         return { this->iterator_at(slot_index), need_insert };
@@ -2581,10 +2592,10 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
+            this->construct_new_slot(slot_index,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(std::forward<KeyT>(key)),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
             this->slot_size_++;
         }
         return { this->iterator_at(slot_index), need_insert };
-- 
2.43.0


From 8d61e9dacbc7acd648bc7e617b33b8e096c35538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 07/51] fix: robin_hash_table: find() of an absent key returns
 end(); moving and swapping carry every field

---
 src/jstd/hashmap/robin_hash_map.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 7232853..ee3aaf0 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3152,7 +3152,7 @@ public:
         slot_size_(jstd::exchange(other.slot_size_, 0)),
         slot_mask_(jstd::exchange(other.slot_mask_, 0)),
         max_lookups_(jstd::exchange(other.max_lookups_, kMinLookups)),
-        slot_threshold_(jstd::exchange(other.slot_size_, 0)),
+        slot_threshold_(jstd::exchange(other.slot_threshold_, 0)),
         n_mlf_(jstd::exchange(other.n_mlf_, kDefaultLoadFactorInt)),
         n_mlf_rev_(jstd::exchange(other.n_mlf_rev_, kDefaultLoadFactorRevInt)),
 #if ROBIN_USE_HASH_POLICY
@@ -3555,10 +3555,10 @@ public:
 
     const_iterator find(const key_type & key) const {
         const slot_type * slot = this->find_impl(key);
-        if (!kIsIndirectKV)
-            return this->iterator_at(this->index_of(slot));
-        else
+        if (slot != this->last_slot())
             return this->iterator_at(slot);
+        else
+            return this->end();
     }
 
     std::pair<iterator, iterator> equal_range(const key_type & key) {
@@ -6556,6 +6556,7 @@ Insert_To_Slot:
         using std::swap;
         swap(this->ctrls_, other.ctrls_);
         swap(this->slots_, other.slots_);
+        swap(this->last_slot_, other.last_slot_);
         swap(this->slot_size_, other.slot_size_);
         swap(this->slot_mask_, other.slot_mask_);
         swap(this->max_lookups_, other.max_lookups_);
-- 
2.43.0


From abc77ee7bf81d679375eb61180f130e349088e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 08/51] fix: robin_hash_table: insert_or_assign copies an
 lvalue key; the hinted insert overloads and insert(initializer_list) compile

---
 src/jstd/hashmap/robin_hash_map.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index ee3aaf0..774eb29 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -2889,7 +2889,7 @@ public:
 
         slot_type * slot() {
             const slot_type * _slot = this->owner_->slot_at(this->index_);
-            return const_cast<this_type *>(_slot);
+            return const_cast<slot_type *>(_slot);
         }
 
         const slot_type * slot() const {
@@ -3603,8 +3603,8 @@ public:
     template <typename P, typename std::enable_if<
               (!jstd::is_same_ex<P, value_type>::value) &&
               std::is_constructible<value_type, P &&>::value>::type * = nullptr>
-    std::pair<iterator, bool> insert(const_iterator hint, P && value) {
-        return this->emplace_impl<false>(std::forward<P>(value));
+    iterator insert(const_iterator hint, P && value) {
+        return this->emplace_impl<false>(std::forward<P>(value)).first;
     }
 
     template <typename InputIter>
@@ -3615,7 +3615,7 @@ public:
     }
 
     void insert(std::initializer_list<value_type> ilist) {
-        this->insert(ilist.cbegin(), ilist.cend());
+        this->insert(ilist.begin(), ilist.end());
     }
 
     template <typename KeyType, typename MappedType>
@@ -3625,17 +3625,17 @@ public:
 
     template <typename KeyType, typename MappedType>
     std::pair<iterator, bool> insert_or_assign(KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value));
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value));
     }
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, const KeyType & key, MappedType && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedType>(value)).first;
     }
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value)).first;
     }
 
     std::pair<iterator, bool> insert_always(const value_type & value) {
-- 
2.43.0


From 2f6f5355a5080a482b815976cf9874458a781ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 09/51] fix: robin_hash_table: erase by iterator and by range
 erase the elements they are given

---
 src/jstd/hashmap/robin_hash_map.h | 48 ++++++++++++++-----------------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 774eb29..4530610 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3727,23 +3727,14 @@ public:
     }
 
     iterator erase(iterator pos) {
-        if (likely(pos->owner() == std::addressof(*this))) {
-            size_type ctrl_index = this->index_of(pos);
+        size_type ctrl_index = this->index_of(pos);
+        if (!kIsIndirectKV) {
             this->erase_slot(ctrl_index);
-            ctrl_type * ctrl = this->ctrl_at(ctrl_index);
-            return this->next_valid_iterator(ctrl, pos);
+            return this->next_valid_iterator(this->ctrl_at(ctrl_index), pos);
         } else {
-            size_type to_erase_idx = this->find_ctrl_index(pos);
-            if (likely(to_erase_idx != this->max_slot_capacity())) {
-                if (!kIsIndirectKV)
-                    this->erase_slot(to_erase_idx);
-                else
-                    this->indirect_erase_slot(to_erase_idx);
-                ctrl_type * ctrl = this->ctrl_at(to_erase_idx);
-                return this->next_valid_iterator(ctrl, iterator(this, to_erase_idx));
-            } else {
-                return { this, this->max_slot_capacity() };
-            }
+            // The last element, if there is any behind, has been moved to this position.
+            this->indirect_erase_slot(ctrl_index);
+            return pos;
         }
     }
 
@@ -3752,18 +3743,21 @@ public:
     }
 
     iterator erase(const_iterator first, const_iterator last) {
-        // TODO: There is a bug, which needs to be traversed from the last to the first.
-        if (likely(first.owner() == this)) {
-            for (; first != last; ++first) {
-                size_type ctrl_index = this->index_of(first);
-                this->erase_slot(ctrl_index);
-            }
-        } else {
-            for (; first != last; ++first) {
-                this->erase_slot(*first);
-            }
-        }
-        return { first };
+        if (first == last)
+            return iterator(first);
+
+        // Erasing an element only moves the elements behind it,
+        // so it needs to be traversed from the last to the first.
+        size_type first_index = this->index_of(first);
+        do {
+            --last;
+            this->erase(last);
+        } while (last != first);
+
+        if (!kIsIndirectKV)
+            return this->next_valid_iterator(this->ctrl_at(first_index), iterator(first));
+        else
+            return iterator(first);
     }
 
     template <typename InputIter, typename std::enable_if<
-- 
2.43.0


From 648bc29db3662b6003e9f6102294528fd9c5879d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 10/51] fix: robin_hash_table: no element is placed beyond the
 max lookups, and a table that needs to grow is left untouched

The copy of an indirect table also inserts through the indirect layout.
---
 src/jstd/hashmap/robin_hash_map.h | 66 +++++++++++++++++++------------
 1 file changed, 40 insertions(+), 26 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 4530610..3d7f822 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -5483,7 +5483,7 @@ private:
             assert(slot < this->last_slot());
         }
 
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
+        while (this->need_grow() || (dist_and_0.getDist() >= this->max_lookups())) {
             // The size of slot reach the slot threshold or hashmap is full.
             this->grow_if_necessary();
 
@@ -5508,7 +5508,7 @@ private:
             assert(slot < this->last_slot());
         }
 
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
+        while (this->need_grow() || (dist_and_0.getDist() >= this->max_lookups())) {
             // The size of slot reach the slot threshold or hashmap is full.
             this->grow_if_necessary();
 
@@ -5588,7 +5588,7 @@ InsertOrGrow:
         dist_and_hash.mergeHash(dist_and_0, ctrl_hash);
 
 InsertOrGrow_Start:
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
+        while (this->need_grow() || (dist_and_0.getDist() >= this->max_lookups())) {
             // The size of slot reach the slot threshold or hashmap is full.
             this->grow_if_necessary();
 
@@ -5636,7 +5636,7 @@ InsertOrGrow_Start:
             assert(ctrl <= last_ctrl);
         }
 
-        if (this->need_grow() || (dist_and_0.getDist() > static_cast<udist_type>(kMaxDist))) {
+        while (this->need_grow() || (dist_and_0.getDist() >= this->max_lookups())) {
             // The size of slot reach the slot threshold or hashmap is full.
             this->grow_if_necessary();
 
@@ -5695,9 +5695,30 @@ InsertOrGrow_Start:
         return ctrl;
     }
 
+    // Whether inserting at insert_ctrl moves the entries behind it no further than
+    // to an empty entry inside the table, with every distance below the max lookups.
+    bool can_insert_to_place(const ctrl_type * insert_ctrl, const ctrl_type & dist_and_hash) const {
+        const ctrl_type * last_ctrl = this->ctrls() + this->max_slot_capacity();
+        size_type dist = dist_and_hash.getDist();
+        for (const ctrl_type * ctrl = insert_ctrl; ctrl < last_ctrl; ctrl++) {
+            if (dist >= this->max_lookups())
+                return false;
+            if (ctrl->isEmpty())
+                return true;
+            if (dist > ctrl->getDist())
+                dist = ctrl->getDist();
+            dist++;
+        }
+        return false;
+    }
+
     template <bool isRehashing>
     JSTD_FORCED_INLINE
     FindResult insert_to_place(ctrl_type * insert_ctrl, slot_type * insert_slot, const ctrl_type & dist_and_hash) {
+        // Leave the table untouched if it needs to grow.
+        if (!isRehashing && !this->can_insert_to_place(insert_ctrl, dist_and_hash))
+            return kNeedGrow;
+
         ctrl_type * ctrl = insert_ctrl;
         slot_type * target = insert_slot;
         ctrl_type rich_ctrl(dist_and_hash);
@@ -5755,18 +5776,10 @@ InsertOrGrow_Start:
             rich_ctrl.incDist();
             assert(rich_ctrl.dist <= kMaxDist);
 
-            if (isRehashing) {
-                assert(rich_ctrl.uvalue < this->max_distance());
-            } else {
-                if (rich_ctrl.uvalue >= this->max_distance()) {
-                    this->emplace_rich_slot(insert_ctrl, insert_slot, insert, rich_ctrl);
-                    this->destroy_empty_slot(empty);
-                    return kNeedGrow;
-                }
-            }
         }
 
-        this->emplace_rich_slot(insert_ctrl, insert_slot, insert, rich_ctrl);
+        // It can't reach here.
+        assert(false);
         this->destroy_empty_slot(empty);
         return kNeedGrow;
     }
@@ -5774,6 +5787,10 @@ InsertOrGrow_Start:
     template <bool isRehashing>
     JSTD_FORCED_INLINE
     FindResult indirect_insert_to_place(ctrl_type * insert_ctrl, const ctrl_type & dist_and_hash) {
+        // Leave the table untouched if it needs to grow.
+        if (!isRehashing && !this->can_insert_to_place(insert_ctrl, dist_and_hash))
+            return kNeedGrow;
+
         ctrl_type * ctrl = insert_ctrl;
         ctrl_type rich_ctrl(dist_and_hash);
         assert(!ctrl->isEmpty());
@@ -5795,17 +5812,10 @@ InsertOrGrow_Start:
             rich_ctrl.incDist();
             assert(rich_ctrl.getDist() <= static_cast<udist_type>(kMaxDist));
 
-            if (isRehashing) {
-                assert(rich_ctrl.getDist() <= static_cast<udist_type>(kMaxDist));
-            } else {
-                if (rich_ctrl.getDist() > static_cast<udist_type>(kMaxDist)) {
-                    insert_ctrl->setValue(rich_ctrl);
-                    return kNeedGrow;
-                }
-            }
         }
 
-        insert_ctrl->setValue(rich_ctrl);
+        // It can't reach here.
+        assert(false);
         return kNeedGrow;
     }
 
@@ -6300,6 +6310,10 @@ InsertOrGrow_Start:
     template <typename KeyT>
     std::pair<slot_type *, bool>
     unique_find_and_insert(const KeyT & key) {
+        if (kIsIndirectKV) {
+            auto find_info = this->indirect_find_and_insert(key);
+            return { find_info.first, (find_info.second == kNeedGrow) };
+        }
         hash_code_t hash_code = this->get_hash(key);
         return this->unique_find_and_insert(key, hash_code);
     }
@@ -6320,15 +6334,15 @@ InsertOrGrow_Start:
             ctrl++;
         }
 
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
+        slot += dist_and_0.dist;
+
+        while (this->need_grow() || (dist_and_0.getDist() >= this->max_lookups())) {
             // The size of slot reach the slot threshold or hashmap is full.
             this->grow_if_necessary();
 
             auto find_info = this->find_failed(hash_code, dist_and_0);
             ctrl = find_info.first;
             slot = find_info.second;
-        } else {
-            slot += dist_and_0.dist;
         }
 
         ctrl_type dist_and_hash(dist_and_0, ctrl_hash);
-- 
2.43.0


From 7e8047e699f0a7d1fa0b7104ae069420d312ed52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 11/51] fix: robin_hash_table: shrinking keeps a capacity at
 which every element can be placed

---
 src/jstd/hashmap/robin_hash_map.h | 41 ++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 3d7f822..cb2edff 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -4342,12 +4342,7 @@ private:
         auto hash_policy_setting = this->hash_policy_.calc_next_capacity(new_capacity);
         this->hash_policy_.commit(hash_policy_setting);
 #endif
-        size_type new_max_lookups = this->calc_max_lookups(new_capacity);
-        if (new_max_lookups < 16)
-            new_max_lookups = (std::max)(new_max_lookups * 2, kMinLookups);
-        else
-            new_max_lookups = (std::min)(new_max_lookups * 4, size_type(std::uint8_t(kMaxDist) + 1));
-        this->max_lookups_ = new_max_lookups;
+        size_type new_max_lookups = this->get_max_lookups(new_capacity);
 
         size_type new_ctrl_capacity = new_capacity + new_max_lookups;
         size_type new_group_count = (new_ctrl_capacity + (kGroupWidth - 1)) / kGroupWidth;
@@ -4391,12 +4386,46 @@ private:
         this->slot_threshold_ = this->calc_slot_threshold(new_capacity);
     }
 
+    size_type get_max_lookups(size_type new_capacity) const {
+        size_type new_max_lookups = this->calc_max_lookups(new_capacity);
+        if (new_max_lookups < 16)
+            new_max_lookups = (std::max)(new_max_lookups * 2, kMinLookups);
+        else
+            new_max_lookups = (std::min)(new_max_lookups * 4, size_type(std::uint8_t(kMaxDist) + 1));
+        return new_max_lookups;
+    }
+
+    // Whether every element can be placed in a table of the new capacity within its max lookups.
+    bool can_rehash_to(size_type new_capacity) const {
+        size_type new_max_lookups = this->get_max_lookups(new_capacity);
+        std::vector<size_type> home_counts(new_capacity, 0);
+        for (const_iterator iter = this->begin(); iter != this->end(); ++iter) {
+            size_type index = this->index_for_hash(this->get_hash(iter->first));
+            home_counts[index & (new_capacity - 1)]++;
+        }
+
+        size_type next_pos = 0;
+        for (size_type index = 0; index < new_capacity; index++) {
+            if (home_counts[index] != 0) {
+                next_pos = (std::max)(next_pos, index) + home_counts[index];
+                if ((next_pos - 1 - index) >= new_max_lookups)
+                    return false;
+            }
+        }
+        return true;
+    }
+
     template <bool AllowShrink, bool AlwaysResize>
     JSTD_NO_INLINE
     void rehash_impl(size_type new_capacity) {
         new_capacity = this->calc_capacity(new_capacity);
         assert(new_capacity > 0);
         assert(new_capacity >= kMinCapacity);
+        if (AllowShrink) {
+            // A smaller table must still be able to place every element.
+            while ((new_capacity < this->slot_capacity()) && !this->can_rehash_to(new_capacity))
+                new_capacity *= 2;
+        }
         if (AlwaysResize ||
             (!AllowShrink && (new_capacity > this->slot_capacity())) ||
             (AllowShrink && (new_capacity != this->slot_capacity()))) {
-- 
2.43.0


From 30a8535726102568f1e8ec9f9e258fd5c42f371e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 12/51] fix: robin_hash_table: bucket_count() is the number of
 buckets

---
 src/jstd/hashmap/robin_hash_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index cb2edff..eebcf26 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3300,8 +3300,8 @@ public:
         return (this->slot_capacity() + this->max_lookups());
     }
 
-    constexpr size_type bucket_count() const {
-        return this->slot_size_;
+    size_type bucket_count() const {
+        return this->slot_capacity();
     }
 
     size_type bucket(const key_type & key) const {
-- 
2.43.0


From cd8b3ec24f62fa99c0546cad7292e12c9128099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 13/51] fix: robin_hash_table: a construction or allocation
 that throws leaves the table as it was and leaks nothing

---
 src/jstd/hashmap/robin_hash_map.h | 169 ++++++++++++++++++++----------
 1 file changed, 112 insertions(+), 57 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index eebcf26..4eac0d5 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3092,7 +3092,12 @@ public:
         size_type input_size = jstd::distance(first, last);
         size_type reserve_capacity = (init_capacity >= input_size) ? init_capacity : input_size;
         this->reserve_for_insert(reserve_capacity);
-        this->insert(first, last);
+        try {
+            this->insert(first, last);
+        } catch (...) {
+            this->destroy();
+            throw;
+        }
     }
 
     template <typename InputIter>
@@ -3222,7 +3227,12 @@ public:
         // Prepare enough space to ensure that no expansion is required during the insertion process.
         size_type reserve_capacity = (init_capacity >= init_list.size()) ? init_capacity : init_list.size();
         this->reserve_for_insert(reserve_capacity);
-        this->insert(init_list.begin(), init_list.end());
+        try {
+            this->insert(init_list.begin(), init_list.end());
+        } catch (...) {
+            this->destroy();
+            throw;
+        }
     }
 
     robin_hash_map(std::initializer_list<value_type> init_list,
@@ -4365,7 +4375,13 @@ private:
         this->clear_ctrls(new_ctrls, new_capacity, new_max_lookups, new_group_count);
 
 #if ROBIN_USE_SEPARATE_SLOTS
-        slot_type * new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_ctrl_capacity);
+        slot_type * new_slots;
+        try {
+            new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_ctrl_capacity);
+        } catch (...) {
+            CtrlAllocTraits::deallocate(this->ctrl_allocator_, new_ctrls, ctrl_alloc_size);
+            throw;
+        }
 #else
         slot_type * new_slots = this->AlignedSlots<kSlotAlignment>(new_ctrls, ctrl_alloc_size);
 #endif
@@ -5900,6 +5916,46 @@ InsertOrGrow_Start:
 
     ////////////////////////////////////////////////////////////////////////////////////////////
 
+    // Construct the element of a slot that find_and_insert() has just made room for.
+    // If the construction throws, the room is given back.
+    template <typename ... Args>
+    JSTD_FORCED_INLINE
+    void construct_new_slot(slot_type * slot, Args && ... args) {
+        try {
+            SlotPolicyTraits::construct(&this->allocator_, slot, std::forward<Args>(args)...);
+        } catch (...) {
+            this->close_new_slot(slot);
+            throw;
+        }
+    }
+
+    JSTD_NO_INLINE
+    void close_new_slot(slot_type * slot) {
+        ctrl_type * ctrl = this->ctrls();
+        if (!kIsIndirectKV) {
+            ctrl += this->index_of(slot);
+        } else {
+            size_type slot_index = static_cast<size_type>(slot - this->slots());
+            while (ctrl->isEmpty() || (ctrl->getIndex() != slot_index))
+                ctrl++;
+        }
+
+        // Move the entries behind back by one, see erase_slot().
+        ctrl_type * next_ctrl = ctrl + std::ptrdiff_t(1);
+        while (!next_ctrl->isUnusedOrZero()) {
+            ctrl_type dist_and_hash(*next_ctrl);
+            dist_and_hash.decDist();
+            this->setUsedCtrl(ctrl, dist_and_hash);
+            if (!kIsIndirectKV) {
+                this->transfer_slot(slot, slot + 1);
+                slot++;
+            }
+            ctrl++;
+            next_ctrl++;
+        }
+        this->setUnusedCtrl(ctrl);
+    }
+
     template <bool AlwaysUpdate>
     std::pair<iterator, bool> emplace_impl(const actual_value_type & value) {
         auto find_info = this->find_and_insert(value.first);
@@ -5909,7 +5965,7 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot, value);
+            this->construct_new_slot(slot, value);
             this->slot_size_++;
             return { this->iterator_at(slot), true };
         } else if (is_exists > kIsNotExists) {
@@ -5934,7 +5990,7 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot, std::forward<actual_value_type>(value));
+            this->construct_new_slot(slot, std::forward<actual_value_type>(value));
             this->slot_size_++;
             return { this->iterator_at(slot), true };
         } else if (is_exists > kIsNotExists) {
@@ -5973,9 +6029,9 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot,
-                                        std::forward<KeyT>(key),
-                                        std::forward<MappedT>(value));
+            this->construct_new_slot(slot,
+                                     std::forward<KeyT>(key),
+                                     std::forward<MappedT>(value));
             this->slot_size_++;
             return { this->iterator_at(slot), true };
         } else if (is_exists > kIsNotExists) {
@@ -6017,10 +6073,10 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
+            this->construct_new_slot(slot,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(std::forward<KeyT>(key)),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
             this->slot_size_++;
             return { this->iterator_at(slot), true };
         } else if (is_exists > kIsNotExists) {
@@ -6034,9 +6090,7 @@ InsertOrGrow_Start:
         } else {
             assert (is_exists == kNeedGrow);
             this->grow_if_necessary();
-            return this->emplace(std::piecewise_construct,
-                                    std::forward_as_tuple(std::forward<KeyT>(key)),
-                                    std::forward_as_tuple(std::forward<Args>(args)...));
+            return this->emplace_impl<AlwaysUpdate>(std::forward<KeyT>(key), std::forward<Args>(args)...);
         }
     }
 
@@ -6060,10 +6114,10 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward<std::tuple<Ts1...>>(first),
-                                        std::forward<std::tuple<Ts2...>>(second));
+            this->construct_new_slot(slot,
+                                     std::piecewise_construct,
+                                     std::forward<std::tuple<Ts1...>>(first),
+                                     std::forward<std::tuple<Ts2...>>(second));
             this->slot_size_++;
             return { this->iterator_at(slot), true };
         } else if (is_exists > kIsNotExists) {
@@ -6077,9 +6131,9 @@ InsertOrGrow_Start:
         } else {
             assert (is_exists == kNeedGrow);
             this->grow_if_necessary();
-            return this->emplace(std::piecewise_construct,
-                                    std::forward<std::tuple<Ts1...>>(first),
-                                    std::forward<std::tuple<Ts2...>>(second));
+            return this->emplace_impl<AlwaysUpdate>(std::piecewise_construct,
+                                                    std::forward<std::tuple<Ts1...>>(first),
+                                                    std::forward<std::tuple<Ts2...>>(second));
         }
     }
 
@@ -6100,31 +6154,32 @@ InsertOrGrow_Start:
                                     std::forward<First>(first),
                                     std::forward<Args>(args)...);
 
-        auto find_info = this->find_and_insert(tmp_slot->value.first);
-        slot_type * slot = find_info.first;
-        FindResult is_exists = find_info.second;
-        if (is_exists == kIsNotExists) {
-            // The key to be inserted is not exists.
-            assert(slot != nullptr);
+        try {
+            auto find_info = this->find_and_insert(tmp_slot->value.first);
+            while (find_info.second == kNeedGrow) {
+                this->grow_if_necessary();
+                find_info = this->find_and_insert(tmp_slot->value.first);
+            }
 
-            SlotPolicyTraits::transfer(&this->allocator_, slot, tmp_slot);
-            this->slot_size_++;
-            return { this->iterator_at(slot), true };
-        } else if (is_exists > kIsNotExists) {
-            // The key to be inserted already exists.
-            assert(is_exists == kIsExists);
-            if (AlwaysUpdate) {
-                slot->value.second = std::move(tmp_slot->value.second);
+            slot_type * slot = find_info.first;
+            bool is_new = (find_info.second == kIsNotExists);
+            if (is_new) {
+                // The key to be inserted is not exists.
+                assert(slot != nullptr);
+
+                this->construct_new_slot(slot, tmp_slot);
+                this->slot_size_++;
+            } else {
+                // The key to be inserted already exists.
+                if (AlwaysUpdate) {
+                    slot->value.second = std::move(tmp_slot->value.second);
+                }
             }
             SlotPolicyTraits::destroy(&this->allocator_, tmp_slot);
-            return { this->iterator_at(slot), false };
-        } else {
-            assert (is_exists == kNeedGrow);
-            this->grow_if_necessary();
-            if (kIsLayoutCompatible)
-                return this->emplace(std::move(tmp_slot->mutable_value));
-            else
-                return this->emplace(std::move(tmp_slot->value));
+            return { this->iterator_at(slot), is_new };
+        } catch (...) {
+            SlotPolicyTraits::destroy(&this->allocator_, tmp_slot);
+            throw;
         }
     }
 
@@ -6138,10 +6193,10 @@ InsertOrGrow_Start:
         if (is_exists == kIsNotExists) {
             // The key to be inserted is not exists.
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(key),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
+            this->construct_new_slot(slot,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(key),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
             this->slot_size_++;
         } else if (is_exists < kIsNotExists) {
             assert(is_exists == kNeedGrow);
@@ -6159,16 +6214,16 @@ InsertOrGrow_Start:
         if (is_exists == kIsNotExists) {
             // The key to be inserted is not exists.
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
+            this->construct_new_slot(slot,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(std::forward<KeyT>(key)),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
             this->slot_size_++;
         } else if (is_exists < kIsNotExists) {
             assert(is_exists == kNeedGrow);
             this->grow_if_necessary();
             return this->try_emplace_impl(std::forward<KeyT>(key),
-                                          std::forward<Args>(args)...);
+                                       std::forward<Args>(args)...);
         }
         return { this->iterator_at(slot), (is_exists == kIsNotExists) };
     }
@@ -6422,7 +6477,7 @@ Insert_To_Slot:
             return;
         }
 
-        SlotPolicyTraits::construct(&this->allocator_, new_slot, value);
+        this->construct_new_slot(new_slot, value);
         this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
     }
@@ -6439,10 +6494,10 @@ Insert_To_Slot:
         }
 
         if (kIsLayoutCompatible) {
-            SlotPolicyTraits::construct(&this->allocator_, new_slot,
-                                        std::move(*reinterpret_cast<mutable_value_type *>(&value)));
+            this->construct_new_slot(new_slot,
+                                     std::move(*reinterpret_cast<mutable_value_type *>(&value)));
         } else {
-            SlotPolicyTraits::construct(&this->allocator_, new_slot, std::move(value));
+            this->construct_new_slot(new_slot, std::move(value));
         }
         this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
-- 
2.43.0


From 77573287b68dccf04f6cf40f49e682733177cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:42 +0000
Subject: [PATCH 14/51] fix: robin_hash_table: clear(true) leaves no stale
 capacity behind for the second destroy

---
 src/jstd/hashmap/robin_hash_map.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 4eac0d5..70498c3 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3515,6 +3515,7 @@ public:
         if (this->slot_capacity() > kDefaultCapacity) {
             if (need_destroy) {
                 this->destroy_data();
+                this->reset();
                 this->create_slots<false>(kDefaultCapacity);
                 assert(this->slot_size() == 0);
                 return;
-- 
2.43.0


From d4771d829709cdbe621ba3c749d4ad32ea43869c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 15/51] fix: group15 shrink_to_fit(true) must leave a slot for
 every element

---
 src/jstd/hashmap/group15_flat_table.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index a4008e1..b203d3d 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -762,8 +762,10 @@ public:
         size_type new_capacity;
         if (JSTD_LIKELY(!read_only))
             new_capacity = this->shrink_to_fit_capacity(this->size());
+        else if (this->size() != 0)
+            new_capacity = (this->size() + kGroupSize) / kGroupSize * kGroupWidth;
         else
-            new_capacity = this->size();
+            new_capacity = 0;
         if (JSTD_LIKELY(new_capacity != 0)) {
             this->rehash_impl<true>(new_capacity);
         } else {
-- 
2.43.0


From 23c5883636be7385a818f4039a32dcb5b3c4a996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 16/51] fix: group15 reserve, rehash and shrink_to_fit keep the
 elements within the load limit

---
 src/jstd/hashmap/group15_flat_table.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index b203d3d..b8ff762 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -712,7 +712,7 @@ public:
     JSTD_FORCED_INLINE
     void reserve_for_insert(size_type init_capacity) {
         assert(init_capacity > 0);
-        size_type new_capacity = this->shrink_to_fit_capacity(init_capacity);
+        size_type new_capacity = this->required_capacity(init_capacity);
         new_capacity = this->calc_capacity(new_capacity);
         assert(new_capacity > 0);
         assert(new_capacity >= kMinCapacity);
@@ -731,7 +731,7 @@ public:
     JSTD_FORCED_INLINE
     void reserve(size_type new_capacity) {
         if (JSTD_LIKELY(new_capacity != 0)) {
-            new_capacity = this->shrink_to_fit_capacity(new_capacity);
+            new_capacity = this->required_capacity(new_capacity);
             this->rehash_impl<false>(new_capacity);
         } else if (this->empty()) {
             this->destroy<true>();
@@ -748,7 +748,7 @@ public:
     //
     JSTD_FORCED_INLINE
     void rehash(size_type new_capacity) {
-        size_type fit_to_now = this->shrink_to_fit_capacity(this->size());
+        size_type fit_to_now = this->required_capacity(this->size());
         new_capacity = (std::max)(fit_to_now, new_capacity);
         if (JSTD_LIKELY(new_capacity != 0)) {
             this->rehash_impl<false>(new_capacity);
@@ -761,7 +761,7 @@ public:
     void shrink_to_fit(bool read_only = false) {
         size_type new_capacity;
         if (JSTD_LIKELY(!read_only))
-            new_capacity = this->shrink_to_fit_capacity(this->size());
+            new_capacity = this->required_capacity(this->size());
         else if (this->size() != 0)
             new_capacity = (this->size() + kGroupSize) / kGroupSize * kGroupWidth;
         else
@@ -1302,6 +1302,19 @@ private:
         return new_capacity;
     }
 
+    // The capacity that keeps [count] elements within the load limit: a group has
+    // less slots than control bytes, so the next power of two may not be enough.
+    inline size_type required_capacity(size_type count) const noexcept {
+        size_type new_capacity = this->shrink_to_fit_capacity(count);
+        if (new_capacity != 0) {
+            new_capacity = this->calc_capacity(new_capacity);
+            size_type slot_capacity = this_type::calc_slot_capacity(new_capacity / kGroupWidth);
+            if (this->calc_slot_threshold(slot_capacity) < count)
+                new_capacity *= 2;
+        }
+        return new_capacity;
+    }
+
     static inline bool is_positive(size_type value) noexcept {
         return (static_cast<intptr_t>(value) >= 0);
     }
-- 
2.43.0


From daf236728a022b89f9091d5896d878a177ba70e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 17/51] fix: group16 capacity for a load limit must be rounded
 up

---
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 47b8813..eca0237 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -1220,7 +1220,7 @@ private:
     }
 
     inline size_type shrink_to_fit_capacity(size_type init_capacity) const noexcept {
-        size_type new_capacity = init_capacity * kLoadFactorAmplify / this->mlf_;
+        size_type new_capacity = (init_capacity * kLoadFactorAmplify + (this->mlf_ - 1)) / this->mlf_;
         return new_capacity;
     }
 
-- 
2.43.0


From 8b496741c6e438363f37803dee2aedab4f58ecef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 18/51] fix: robin_hash_map rehash must not exceed the load
 limit

---
 src/jstd/hashmap/robin_hash_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 70498c3..88205ce 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3535,7 +3535,7 @@ public:
 
     void rehash(size_type new_capacity, bool read_only = false) {
         if (!read_only)
-            new_capacity = (std::max)(this->min_require_capacity(new_capacity), this->slot_size());
+            new_capacity = this->min_require_capacity((std::max)(new_capacity, this->slot_size()));
         else
             new_capacity = (std::max)(new_capacity, this->slot_size());
         this->rehash_impl<true, false>(new_capacity);
@@ -3872,7 +3872,7 @@ private:
     }
 
     size_type min_require_capacity(size_type init_capacity) const {
-        size_type new_capacity = init_capacity * this->integral_mlf_rev() / kLoadFactorAmplify;
+        size_type new_capacity = (init_capacity * this->integral_mlf_rev() + (kLoadFactorAmplify - 1)) / kLoadFactorAmplify;
         return new_capacity;
     }
 
-- 
2.43.0


From b6fff4602a10a54df0bca257a9d788557c254d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:39 +0000
Subject: [PATCH 19/51] fix: group15/group16_flat_table: erasing from
 overflowed groups does not make the table grow without limit

---
 src/jstd/hashmap/group15_flat_table.hpp | 18 +++++++++++++-----
 src/jstd/hashmap/group16_flat_table.hpp | 18 +++++++++++++-----
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index b8ff762..2900081 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1953,9 +1953,16 @@ private:
 
     JSTD_FORCED_INLINE
     void grow_if_necessary() {
-        // The growth rate is 2 times
-        size_type new_capacity = this->ctrl_capacity() * 2;
-        this->rehash_impl<false>(new_capacity);
+        size_type capacity = this->ctrl_capacity();
+        if ((this->slots() != nullptr) &&
+            (this->slot_size() < this->calc_slot_threshold(this->slot_capacity()) / 2)) {
+            // The threshold was only lowered by erasing from overflowed groups:
+            // rebuild the table to reset the overflow bits, there is no need to grow.
+            this->rehash_impl<false, true>(capacity);
+        } else {
+            // The growth rate is 2 times
+            this->rehash_impl<false>(capacity * 2);
+        }
     }
 
     inline bool is_valid_capacity(size_type capacity) const noexcept {
@@ -2101,13 +2108,14 @@ private:
         }
     }
 
-    template <bool AllowShrink>
+    template <bool AllowShrink, bool AlwaysRebuild = false>
     JSTD_NO_INLINE
     void rehash_impl(size_type new_capacity) {
         new_capacity = this->calc_capacity(new_capacity);
         assert(new_capacity > 0);
         assert(new_capacity >= kMinCapacity);
-        if ((!AllowShrink && (new_capacity > this->ctrl_capacity())) ||
+        if (AlwaysRebuild ||
+            (!AllowShrink && (new_capacity > this->ctrl_capacity())) ||
             (AllowShrink && (new_capacity != this->ctrl_capacity()))) {
             if (!AllowShrink) {
                 assert(new_capacity >= this->slot_size());
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index eca0237..a66039a 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -1842,9 +1842,16 @@ private:
 
     JSTD_FORCED_INLINE
     void grow_if_necessary() {
-        // The growth rate is 2 times
-        size_type new_capacity = this->ctrl_capacity() * 2;
-        this->rehash_impl<false>(new_capacity);
+        size_type capacity = this->ctrl_capacity();
+        if ((this->slots() != nullptr) &&
+            (this->slot_size() < this->calc_slot_threshold(this->slot_capacity()) / 2)) {
+            // The threshold was only lowered by erasing from overflowed groups:
+            // rebuild the table to reset the overflow bits, there is no need to grow.
+            this->rehash_impl<false, true>(capacity);
+        } else {
+            // The growth rate is 2 times
+            this->rehash_impl<false>(capacity * 2);
+        }
     }
 
     inline bool is_valid_capacity(size_type capacity) const noexcept {
@@ -1978,13 +1985,14 @@ private:
         }
     }
 
-    template <bool AllowShrink>
+    template <bool AllowShrink, bool AlwaysRebuild = false>
     JSTD_NO_INLINE
     void rehash_impl(size_type new_capacity) {
         new_capacity = this->calc_capacity(new_capacity);
         assert(new_capacity > 0);
         assert(new_capacity >= kMinCapacity);
-        if ((!AllowShrink && (new_capacity > this->ctrl_capacity())) ||
+        if (AlwaysRebuild ||
+            (!AllowShrink && (new_capacity > this->ctrl_capacity())) ||
             (AllowShrink && (new_capacity != this->ctrl_capacity()))) {
             if (!AllowShrink) {
                 assert(new_capacity >= this->slot_size());
-- 
2.43.0


From 2a29d7c37526f85f9b8bd785753d4ba3955b3416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 20/51] fix: BitUtils: the portable 64-bit population count
 used 32-bit masks

---
 src/jstd/support/BitUtils.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jstd/support/BitUtils.h b/src/jstd/support/BitUtils.h
index 67480a9..d7d526f 100644
--- a/src/jstd/support/BitUtils.h
+++ b/src/jstd/support/BitUtils.h
@@ -86,9 +86,9 @@ namespace BitUtils {
     static inline
     unsigned int __internal_popcnt64(uint64_t x) {
     #if 1
-        x -=  ((x >> 1U) & 0x55555555U);
-        x  = (((x >> 2U) & 0x33333333U) + (x & 0x33333333U));
-        x  = (((x >> 4U) + x) & 0x0F0F0F0FU);
+        x -=  ((x >> 1U) & 0x5555555555555555ULL);
+        x  = (((x >> 2U) & 0x3333333333333333ULL) + (x & 0x3333333333333333ULL));
+        x  = (((x >> 4U) + x) & 0x0F0F0F0F0F0F0F0FULL);
         x +=   (x >> 8U);
         x +=   (x >> 16U);
         x +=   (x >> 32U);
-- 
2.43.0


From d614111a539315918b98be03ee0c5bc2db7c4969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 21/51] fix: BitUtils: log2_int of 1 is 0

---
 src/jstd/support/BitUtils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/support/BitUtils.h b/src/jstd/support/BitUtils.h
index d7d526f..a00a2d4 100644
--- a/src/jstd/support/BitUtils.h
+++ b/src/jstd/support/BitUtils.h
@@ -523,11 +523,11 @@ namespace BitUtils {
     // log2_int()
     //
     static inline uint32_t log2_32(uint32_t n) {
-        return (n > 1) ? (uint32_t)(bsr32(n - 1) + 1) : n;
+        return (n > 1) ? (uint32_t)(bsr32(n - 1) + 1) : 0;
     }
 
     static inline uint64_t log2_64(uint64_t n) {
-        return (n > 1) ? (uint64_t)(bsr64(n - 1) + 1) : n;
+        return (n > 1) ? (uint64_t)(bsr64(n - 1) + 1) : 0;
     }
 
     static inline size_t log2_int(size_t n) {
-- 
2.43.0


From 6ac11aead3f796bd3af038d02570bd50b2d11014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 22/51] fix: Power2: run_time::log2_int of 32-bit values above
 2^31

---
 src/jstd/support/Power2.h | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/jstd/support/Power2.h b/src/jstd/support/Power2.h
index bb4acef..7fe380f 100644
--- a/src/jstd/support/Power2.h
+++ b/src/jstd/support/Power2.h
@@ -336,17 +336,12 @@ log2_int(SizeType N)
     typedef typename std::make_signed<SizeType>::type   signed_type;
 #endif
     unsigned_type n = static_cast<unsigned_type>(N);
-    if ((n <= ((std::numeric_limits<unsigned_type>::max)() / 2 + 1)) || (sizeof(SizeType) > 4)) {
-        if ((n > 1) || (Min_n > 1)) {
-            assert(signed_type(n - 1) > 0);
-            std::uint32_t ms1b = bitScanReverse(n - 1);
-            return return_type(ms1b + 1);
-        } else {
-            return return_type(0);
-        }
-    }
-    else {
-        return (return_type)(std::numeric_limits<unsigned_type>::max)();
+    if ((n > 1) || (Min_n > 1)) {
+        assert((n - 1) > 0);
+        std::uint32_t ms1b = bitScanReverse(n - 1);
+        return return_type(ms1b + 1);
+    } else {
+        return return_type(0);
     }
 }
 
-- 
2.43.0


From 04575539749504fdfdcf32744974dcce398626d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 23/51] fix: hash_crc32: do not read beyond the end of the key

---
 src/jstd/hasher/hash_crc32.h | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/jstd/hasher/hash_crc32.h b/src/jstd/hasher/hash_crc32.h
index a3aff9e..d3a9f4c 100644
--- a/src/jstd/hasher/hash_crc32.h
+++ b/src/jstd/hasher/hash_crc32.h
@@ -13,6 +13,7 @@
 #include "jstd/hasher/hashes.h"
 
 #include <assert.h>
+#include <string.h>
 
 // Just for coding in msvc or test, please comment it in the release version.
 #ifdef _MSC_VER
@@ -102,7 +103,6 @@ static uint32_t intel_crc32_x86(const char * data, size_t length)
     assert(data != nullptr);
 
     static const ssize_t kStepSize = sizeof(uint32_t);
-    static const uint32_t kMaskOne = 0xFFFFFFFFUL;
     const char * data_end = data + length;
 
     uint32_t crc32 = ~uint32_t(0);
@@ -121,11 +121,9 @@ static uint32_t intel_crc32_x86(const char * data, size_t length)
             assert((data_end - data) == remain);
             assert(remain >= 0);
             if (likely(remain > 0)) {
-                uint32_t data32 = *(uint32_t *)(data);
-                uint32_t rest = (uint32_t)(kStepSize - remain);
-                assert(rest > 0 && rest < (uint32_t)kStepSize);
-                uint32_t mask = kMaskOne >> (rest * 8U);
-                data32 &= mask;
+                // Copy the remaining bytes only, never read past the end of the data.
+                uint32_t data32 = 0;
+                ::memcpy((void *)&data32, (const void *)data, (size_t)remain);
                 crc32 = _mm_crc32_u32(crc32, data32);
             }
             break;
@@ -142,7 +140,6 @@ static uint32_t intel_crc32_x64(const char * data, size_t length)
     assert(data != nullptr);
 
     static const ssize_t kStepSize = sizeof(uint64_t);
-    static const uint64_t kMaskOne = 0xFFFFFFFFFFFFFFFFULL;
     const char * data_end = data + length;
 
     uint64_t crc64 = ~uint64_t(0);
@@ -161,11 +158,9 @@ static uint32_t intel_crc32_x64(const char * data, size_t length)
             assert((data_end - data) == remain);
             assert(remain >= 0);
             if (likely(remain > 0)) {
-                uint64_t data64 = *(uint64_t *)(data);
-                size_t rest = (size_t)(kStepSize - remain);
-                assert(rest > 0 && rest < (size_t)kStepSize);
-                uint64_t mask = kMaskOne >> (rest * 8U);
-                data64 &= mask;
+                // Copy the remaining bytes only, never read past the end of the data.
+                uint64_t data64 = 0;
+                ::memcpy((void *)&data64, (const void *)data, (size_t)remain);
                 crc64 = _mm_crc32_u64(crc64, data64);
             }
             break;
-- 
2.43.0


From b1cce67b020f73e3bf6155ba2e4122f0ec2b7e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 24/51] fix: HashUtils::primaryHash: do not read beyond the end
 of the key

---
 src/jstd/hasher/hashes.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/jstd/hasher/hashes.h b/src/jstd/hasher/hashes.h
index e4eecce..d9ff225 100644
--- a/src/jstd/hasher/hashes.h
+++ b/src/jstd/hasher/hashes.h
@@ -1143,10 +1143,9 @@ public:
         hash_type remain = (hash_type)(end - data);
         if (remain == 0)
             return hash;
-        // Filter the extra bits
-        hash_type val = *(hash_type *)data;
-        static const hash_type val_mask = (hash_type)(-1);
-        val &= (val_mask >> ((sizeof(hash_type) - remain) * 8));
+        // Copy the remaining bytes only, never read past the end of the data.
+        hash_type val = 0;
+        ::memcpy((void *)&val, (const void *)data, (std::size_t)remain);
         hash += val;
         hash *= m;
         hash ^= (hash >> half_bits);
@@ -1319,10 +1318,9 @@ public:
             hash_type remain = (hash_type)(end - data);
             if (remain == 0)
                 return hash;
-            // Filter the extra bits
-            hash_type val = *(hash_type *)data;
-            static const hash_type val_mask = (hash_type)(-1);
-            val &= (val_mask >> ((sizeof(hash_type) - remain) * 8));
+            // Copy the remaining bytes only, never read past the end of the data.
+            hash_type val = 0;
+            ::memcpy((void *)&val, (const void *)data, (std::size_t)remain);
             hash += val;
             hash *= m;
             hash ^= (hash >> half_bits);
-- 
2.43.0


From 15820b328d3714bd5f53e41a1e294f7bdf1e2b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 25/51] fix: hash_helper: the CRC32C specialisations were
 compiled out

---
 src/jstd/hasher/hash_helper.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/jstd/hasher/hash_helper.h b/src/jstd/hasher/hash_helper.h
index d27bc78..8848525 100644
--- a/src/jstd/hasher/hash_helper.h
+++ b/src/jstd/hasher/hash_helper.h
@@ -206,8 +206,6 @@ struct JSTD_DLL string_hash_helper {
     }
 };
 
-#if JSTD_HAVE_SSE42_CRC32C
-
 /***************************************************************************
 template <>
 struct hash_helper<const char *, std::uint32_t, HashFunc_CRC32C> {
@@ -293,8 +291,6 @@ struct JSTD_DLL hash_helper<jstd::basic_string_view<wchar_t, jstd::char_traits<w
     }
 };
 
-#endif // JSTD_HAVE_SSE42_CRC32C
-
 /***************************************************************************
 template <>
 struct hash_helper<const char *, std::uint32_t, HashFunc_Time31> {
-- 
2.43.0


From b4a6aebe347e28118aed8fd9aa26d4f313bee139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 26/51] fix: hash_helper: a pointer key is hashed by its own
 value

---
 src/jstd/hasher/hash_helper.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hasher/hash_helper.h b/src/jstd/hasher/hash_helper.h
index 8848525..55b417c 100644
--- a/src/jstd/hasher/hash_helper.h
+++ b/src/jstd/hasher/hash_helper.h
@@ -165,13 +165,13 @@ struct JSTD_DLL hash_helper<T *, ResultType, HashFunc> {
 
     static result_type getHashCode(const key_type * key) {
         if (HashFunc == HashFunc_CRC32C)
-            return static_cast<result_type>(hashes::hash_crc32((const char *)key, sizeof(key_type *)));
+            return static_cast<result_type>(hashes::hash_crc32((const char *)key, sizeof(key_type)));
         else if (HashFunc == HashFunc_Time31)
-            return static_cast<result_type>(hashes::Times31((const char *)key, sizeof(key_type *)));
+            return static_cast<result_type>(hashes::Times31((const char *)key, sizeof(key_type)));
         else if (HashFunc == HashFunc_Time31Std)
-            return static_cast<result_type>(hashes::Times31Std((const char *)key, sizeof(key_type *)));
+            return static_cast<result_type>(hashes::Times31Std((const char *)key, sizeof(key_type)));
         else
-            return static_cast<result_type>(hashes::hash_crc32((const char *)key, sizeof(key_type *)));
+            return static_cast<result_type>(hashes::hash_crc32((const char *)key, sizeof(key_type)));
     }
 };
 
-- 
2.43.0


From 634f7bd109c92c5f58327cb05d8f87825e728968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 27/51] fix: hash_helper: equal floating-point keys have equal
 hashes (0.0 and -0.0)

---
 src/jstd/hasher/hash_helper.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jstd/hasher/hash_helper.h b/src/jstd/hasher/hash_helper.h
index 55b417c..ed59290 100644
--- a/src/jstd/hasher/hash_helper.h
+++ b/src/jstd/hasher/hash_helper.h
@@ -109,6 +109,9 @@
                 >::type decay_type;                                             \
                                                                                 \
         static ResultType getHashCode(pod_type data) {                          \
+            /* +0.0 and -0.0 are equal, so they must have the same hash code. */    \
+            if (data == pod_type(0))                                                \
+                data = pod_type(0);                                                 \
             return static_cast<result_type>(HashFunc((const char *)&data, sizeof(data))); \
         }                                                                       \
     }
-- 
2.43.0


From 2f5e651b4ab7eef7662cfe6c1bffff1de96f878e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 28/51] fix: string_view: <=, >= and the other ordering
 operators

---
 src/jstd/string/string_view.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/string/string_view.h b/src/jstd/string/string_view.h
index f565c38..ac2c7c3 100644
--- a/src/jstd/string/string_view.h
+++ b/src/jstd/string/string_view.h
@@ -523,19 +523,19 @@ public:
     }
 
     friend inline bool operator < (const this_type & lhs, const this_type & rhs) noexcept {
-        return (lhs.compare(rhs) == CompareResult::IsSmaller);
+        return (lhs.compare(rhs) < 0);
     }
 
     friend inline bool operator <= (const this_type & lhs, const this_type & rhs) noexcept {
-        return (lhs.compare(rhs) == CompareResult::IsBigger);
+        return (lhs.compare(rhs) <= 0);
     }
 
     friend inline bool operator > (const this_type & lhs, const this_type & rhs) noexcept {
-        return (lhs.compare(rhs) == CompareResult::IsBigger);
+        return (lhs.compare(rhs) > 0);
     }
 
     friend inline bool operator >= (const this_type & lhs, const this_type & rhs) noexcept {
-        return (lhs.compare(rhs) == CompareResult::IsSmaller);
+        return (lhs.compare(rhs) >= 0);
     }
 
 private:
-- 
2.43.0


From ee0f8b946dcc78cb3f6a92fe26fbb6e39414e951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 29/51] fix: string_view: comparing substrings uses the sizes
 of the substrings

---
 src/jstd/string/string_view.h | 40 ++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/jstd/string/string_view.h b/src/jstd/string/string_view.h
index ac2c7c3..1f83a24 100644
--- a/src/jstd/string/string_view.h
+++ b/src/jstd/string/string_view.h
@@ -309,7 +309,7 @@ public:
 
     reference at(size_type pos) {
         if (pos < this->size())
-            return this->data_[pos];
+            return const_cast<char_type *>(this->data_)[pos];
         else
             throw std::out_of_range("basic_string_view<T>::at(pos): out of range.");
     }
@@ -327,7 +327,7 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "copy(dest, count, pos): pos out_of_range.");
         }
-        size_type rcount = ((pos + count) <= this->size()) ? count : (this->size() - pos);
+        size_type rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         return Traits::copy(dest, this->data() + pos, rcount);
     }
 
@@ -339,7 +339,7 @@ public:
         }
         size_type rcount;
         if (likely(count != npos))
-            rcount = ((pos + count) <= this->size()) ? count : (this->size() - pos);
+            rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         else
             rcount = this->size() - pos;
         return this_type(this->data() + pos, rcount);
@@ -349,7 +349,7 @@ public:
     // is_equal(rhs)
     //
     bool is_equal(const char_type * str) const {
-        return Traits::is_equal(this->data(), str);
+        return this->is_equal(this->data(), this->size(), str, libc::StrLen(str));
     }
 
     bool is_equal(const char_type * s1, const char_type * s2, size_type count) const noexcept {
@@ -373,8 +373,9 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "is_equal(pos, count, sv): pos out_of_range.");
         }
+        size_type rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         const char_type * s1 = this->data() + pos;
-        return this->is_equal(s1, sv.data(), count);
+        return this->is_equal(s1, rcount, sv.data(), sv.size());
     }
 
     bool is_equal(size_type pos, size_type count,
@@ -383,8 +384,8 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "is_equal(pos, count, str): pos out_of_range.");
         }
-        constexpr size_type len2 = libc::StrLen(str);
-        size_type rcount = ((pos + count) <= this->size()) ? count : (this->size() - pos);
+        const size_type len2 = libc::StrLen(str);
+        size_type rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         const char_type * s1 = this->data() + pos;
         return this->is_equal(s1, rcount, str, len2);
     }
@@ -399,8 +400,8 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "is_equal(pos1, count1, sv, pos2, count2): pos2 out_of_range.");
         }
-        size_type rcount1 = ((pos1 + count1) <= this->size()) ? count1 : (this->size() - pos1);
-        size_type rcount2 = ((pos2 + count2) <= sv.size()) ? count2 : (sv.size() - pos2);
+        size_type rcount1 = (count1 <= (this->size() - pos1)) ? count1 : (this->size() - pos1);
+        size_type rcount2 = (count2 <= (sv.size() - pos2)) ? count2 : (sv.size() - pos2);
         const char_type * s1 = this->data() + pos1;
         const char_type * s2 = sv.data() + pos2;
         return this->is_equal(s1, rcount1, s2, rcount2);
@@ -413,8 +414,8 @@ public:
                     "is_equal(pos1, count1, sv, pos2, count2): pos1 out_of_range.");
         }
         constexpr size_type pos2 = 0;
-        constexpr size_type len2 = libc::StrLen(str);
-        size_type rcount1 = ((pos1 + count1) <= this->size()) ? count1 : (this->size() - pos1);
+        const size_type len2 = libc::StrLen(str);
+        size_type rcount1 = (count1 <= (this->size() - pos1)) ? count1 : (this->size() - pos1);
         size_type rcount2 = ((pos2 + count2) <= len2) ? count2 : (len2 - pos2);
         const char_type * s1 = this->data() + pos1;
         const char_type * s2 = str + pos2;
@@ -425,7 +426,7 @@ public:
     // compare(rhs)
     //
     int compare(const char_type * str) const noexcept {
-        return Traits::compare(this->data(), str);
+        return this->compare(this->data(), this->size(), str, libc::StrLen(str));
     }
 
     int compare(const char_type * s1,
@@ -452,8 +453,9 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "compare(pos, count, sv): pos out_of_range.");
         }
+        size_type rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         const char_type * s1 = this->data() + pos;
-        return this->compare(s1, sv.data(), count);
+        return this->compare(s1, rcount, sv.data(), sv.size());
     }
 
     int compare(size_type pos, size_type count, const char_type * str) const {
@@ -461,8 +463,8 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "compare(pos, count, str): pos out_of_range.");
         }
-        constexpr size_type len2 = libc::StrLen(str);
-        size_type rcount = ((pos + count) <= this->size()) ? count : (this->size() - pos);
+        const size_type len2 = libc::StrLen(str);
+        size_type rcount = (count <= (this->size() - pos)) ? count : (this->size() - pos);
         const char_type * s1 = this->data() + pos;
         return this->compare(s1, rcount, str, len2);
     }
@@ -477,8 +479,8 @@ public:
             throw std::out_of_range("basic_string_view<T>: "
                     "compare(pos1, count1, sv, pos2, count2): pos2 out_of_range.");
         }
-        size_type rcount1 = ((pos1 + count1) <= this->size()) ? count1 : (this->size() - pos1);
-        size_type rcount2 = ((pos2 + count2) <= sv.size()) ? count2 : (sv.size() - pos2);
+        size_type rcount1 = (count1 <= (this->size() - pos1)) ? count1 : (this->size() - pos1);
+        size_type rcount2 = (count2 <= (sv.size() - pos2)) ? count2 : (sv.size() - pos2);
         const char_type * s1 = this->data() + pos1;
         const char_type * s2 = sv.data() + pos2;
         return this->compare(s1, rcount1, s2, rcount2);
@@ -491,8 +493,8 @@ public:
                     "compare(pos1, count1, sv, pos2, count2): pos1 out_of_range.");
         }
         constexpr size_type pos2 = 0;
-        constexpr size_type len2 = libc::StrLen(str);
-        size_type rcount1 = ((pos1 + count1) <= this->size()) ? count1 : (this->size() - pos1);
+        const size_type len2 = libc::StrLen(str);
+        size_type rcount1 = (count1 <= (this->size() - pos1)) ? count1 : (this->size() - pos1);
         size_type rcount2 = ((pos2 + count2) <= len2) ? count2 : (len2 - pos2);
         const char_type * s1 = this->data() + pos1;
         const char_type * s2 = str + pos2;
-- 
2.43.0


From eaedf20c7da164cb9f122a4a7e142b91bd57e13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 30/51] fix: string_traits: copies count characters, not bytes

---
 src/jstd/string/string_traits.h | 5 ++---
 src/jstd/string/string_utils.h  | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/jstd/string/string_traits.h b/src/jstd/string/string_traits.h
index 8adf27f..1143f39 100644
--- a/src/jstd/string/string_traits.h
+++ b/src/jstd/string/string_traits.h
@@ -28,9 +28,8 @@ struct JSTD_DLL string_traits {
     typedef std::int32_t    state_type;
 
     static size_type copy(char_type * dest, const char_type * src, size_type count) {
-        char_type * result =  str_utils::str_copy(dest, src, count);
-        assert(result >= dest);
-        return size_type(result - dest);
+        str_utils::mem_copy(dest, src, count);
+        return count;
     }
 
     static bool is_equal(const char_type * s1, const char_type * s2) {
diff --git a/src/jstd/string/string_utils.h b/src/jstd/string/string_utils.h
index a550915..d1e1a8c 100644
--- a/src/jstd/string/string_utils.h
+++ b/src/jstd/string/string_utils.h
@@ -94,7 +94,7 @@ char * mem_copy(char * dest, const char * src, std::size_t count)
 static inline
 wchar_t * mem_copy(wchar_t * dest, const wchar_t * src, std::size_t count)
 {
-    return std::wmemcpy(dest, src, count * sizeof(wchar_t));
+    return std::wmemcpy(dest, src, count);
 }
 
 ////////////////////////////////// str_copy() //////////////////////////////////////
-- 
2.43.0


From b26947bba9942cfb7fa71251028defbf57f1bbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 31/51] fix: string_iterator: postfix increment and decrement

---
 src/jstd/string/string_iterator.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jstd/string/string_iterator.h b/src/jstd/string/string_iterator.h
index 2578be9..7000ec1 100644
--- a/src/jstd/string/string_iterator.h
+++ b/src/jstd/string/string_iterator.h
@@ -69,7 +69,7 @@ public:
     }
 
     // post-increment
-    this_type & operator ++ (int) {
+    this_type operator ++ (int) {
         this_type tmp = *this;
         ++(*this);
         return tmp;
@@ -82,7 +82,7 @@ public:
     }
 
     // post-decrement
-    this_type & operator -- (int) {
+    this_type operator -- (int) {
         this_type tmp = *this;
         --(*this);
         return tmp;
@@ -207,7 +207,7 @@ public:
     }
 
     reference operator * () const {
-        assert(this->ptr_ != nullptr_t{});
+        assert(this->ptr_ != std::nullptr_t{});
         return (*this->ptr_);
     }
 
@@ -223,7 +223,7 @@ public:
     }
 
     // post-increment
-    this_type & operator ++ (int) {
+    this_type operator ++ (int) {
         this_type tmp = *this;
         ++(*this);
         return tmp;
@@ -236,7 +236,7 @@ public:
     }
 
     // post-decrement
-    this_type & operator -- (int) {
+    this_type operator -- (int) {
         this_type tmp = *this;
         --(*this);
         return tmp;
-- 
2.43.0


From 595d9d14d63a99f1994df8340bafea300de35632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 32/51] fix: string_stl: StrEqual returns its result, wide
 StrCmp

---
 src/jstd/string/string_stl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/string/string_stl.h b/src/jstd/string/string_stl.h
index ed17d13..8f18227 100644
--- a/src/jstd/string/string_stl.h
+++ b/src/jstd/string/string_stl.h
@@ -71,7 +71,7 @@ bool StrEqual(const CharTy * str1, std::size_t len1, const CharTy * str2, std::s
     }
     else {
         if (likely(str1 != str2) || kAssumeAlwaysNotEqual) {
-            StrEqual(str1, str2, len1);
+            return StrEqual(str1, str2, len1);
         }
         else {
             // The str1 and str2 is a same string.
@@ -145,7 +145,7 @@ inline
 int StrCmp(const CharTy * str1, const CharTy * str2, std::size_t count) {
     assert(str1 != nullptr);
     assert(str2 != nullptr);
-    return std::memcmp((const void *)str1, (const void *)str2, count * sizeof(CharTy));
+    return std::char_traits<CharTy>::compare(str1, str2, count);
 }
 
 /*********************************************************************
-- 
2.43.0


From 85668470160f5621470b34ea13c8e72c3423f456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:06 +0000
Subject: [PATCH 33/51] fix: string_utils: the 64-bit is_equal compares every
 character

---
 src/jstd/string/string_utils.h | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/jstd/string/string_utils.h b/src/jstd/string/string_utils.h
index d1e1a8c..ce1642e 100644
--- a/src/jstd/string/string_utils.h
+++ b/src/jstd/string/string_utils.h
@@ -223,11 +223,12 @@ bool is_equal(const CharTy * str1, const CharTy * str2, std::size_t length)
     assert(str1 != nullptr && str2 != nullptr);
 
     static const std::size_t kMaxSize = sizeof(uint64_t);
-    static const uint64_t kMaskOne64 = 0xFFFFFFFFFFFFFFFFULL;
 
     uint64_t * __str1 = (uint64_t * )str1;
     uint64_t * __str2 = (uint64_t * )str2;
 
+    // The length in bytes.
+    length *= sizeof(CharTy);
     while (likely(length > 0)) {
         assert(__str1 != nullptr && __str2 != nullptr);
         if (likely(length >= kMaxSize)) {
@@ -247,17 +248,13 @@ bool is_equal(const CharTy * str1, const CharTy * str2, std::size_t length)
             }
         }
         else {
-            // Get the mask64
             assert(length > 0 && length < kMaxSize);
-            uint32_t rest = (uint32_t)(kMaxSize - length);
-            assert(rest > 0 && rest < (uint32_t)kMaxSize);
-            uint64_t mask64 = kMaskOne64 >> (rest * 8U);
 
-            // Compare the remain bytes.
-            uint64_t val64_1 = *__str1;
-            uint64_t val64_2 = *__str2;
-            val64_1 &= mask64;
-            val64_2 &= mask64;
+            // Compare the remain bytes, don't read past the end of the strings.
+            uint64_t val64_1 = 0;
+            uint64_t val64_2 = 0;
+            std::memcpy(&val64_1, __str1, length);
+            std::memcpy(&val64_2, __str2, length);
             if (likely(val64_1 == val64_2)) {
                 // Full matched, return true.
                 return true;
-- 
2.43.0


From 76d1b1f9d1356a5d29fc90aaaf4c9c9c05c7ca55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:07 +0000
Subject: [PATCH 34/51] fix: string_utils: the SSE4.2 comparisons do not read
 beyond the strings

---
 src/jstd/string/string_utils.h | 37 +++++++++++++++-------------
 src/jstd/support/SSEHelper.h   | 45 ++++++++++++++++------------------
 2 files changed, 41 insertions(+), 41 deletions(-)

diff --git a/src/jstd/string/string_utils.h b/src/jstd/string/string_utils.h
index ce1642e..59e8958 100644
--- a/src/jstd/string/string_utils.h
+++ b/src/jstd/string/string_utils.h
@@ -185,18 +185,19 @@ bool is_equal(const CharTy * str1, const CharTy * str2, std::size_t length)
     assert(str1 != nullptr && str2 != nullptr);
 
     static constexpr int kMaxSize = jstd::SSEHelper<CharTy>::kMaxSize;
+    static constexpr int kWordsPerChar = jstd::SSEHelper<CharTy>::kWordsPerChar;
     static constexpr uint8_t _SIDD_CHAR_OPS = jstd::SSEHelper<CharTy>::_SIDD_CHAR_OPS;
     static constexpr uint8_t kEqualEach = _SIDD_CHAR_OPS | _SIDD_CMP_EQUAL_EACH
                                 | _SIDD_NEGATIVE_POLARITY | _SIDD_LEAST_SIGNIFICANT;
 
-    int slength = (int)length;
+    std::ssize_t slength = (std::ssize_t)length;
     while (likely(slength > 0)) {
-        __m128i __str1 = _mm_loadu_si128((const __m128i *)str1);
-        __m128i __str2 = _mm_loadu_si128((const __m128i *)str2);
-        int len = (slength >= kMaxSize) ? kMaxSize : slength;
+        int len = (slength >= kMaxSize) ? kMaxSize : (int)slength;
         assert(len > 0);
+        __m128i __str1 = jstd::SSEHelper<CharTy>::load(str1, len);
+        __m128i __str2 = jstd::SSEHelper<CharTy>::load(str2, len);
 
-        int full_matched = _mm_cmpestrc(__str1, len, __str2, len, (uint8_t)kEqualEach);
+        int full_matched = _mm_cmpestrc(__str1, len * kWordsPerChar, __str2, len * kWordsPerChar, (uint8_t)kEqualEach);
         str1 += kMaxSize;
         str2 += kMaxSize;
         slength -= kMaxSize;
@@ -420,22 +421,23 @@ int compare(const CharTy * str1, const CharTy * str2, std::size_t count)
     assert(str2 != nullptr);
 
     static constexpr int kMaxSize = jstd::SSEHelper<CharTy>::kMaxSize;
+    static constexpr int kWordsPerChar = jstd::SSEHelper<CharTy>::kWordsPerChar;
     static constexpr uint8_t _SIDD_CHAR_OPS = jstd::SSEHelper<CharTy>::_SIDD_CHAR_OPS;
     static constexpr uint8_t kEqualEach = _SIDD_CHAR_OPS | _SIDD_CMP_EQUAL_EACH
                                 | _SIDD_NEGATIVE_POLARITY | _SIDD_LEAST_SIGNIFICANT;
 
     typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
 
-    int slen = (int)count;
+    std::ssize_t slen = (std::ssize_t)count;
 
     while (likely(slen > 0)) {
-        __m128i __str1 = _mm_loadu_si128((const __m128i *)str1);
-        __m128i __str2 = _mm_loadu_si128((const __m128i *)str2);
-        int len = (slen >= kMaxSize) ? kMaxSize : slen;
+        int len = (slen >= kMaxSize) ? kMaxSize : (int)slen;
         assert(len > 0);
+        __m128i __str1 = jstd::SSEHelper<CharTy>::load(str1, len);
+        __m128i __str2 = jstd::SSEHelper<CharTy>::load(str2, len);
 
-        int full_matched = _mm_cmpestrc(__str1, len, __str2, len, (uint8_t)kEqualEach);
-        int matched_index = _mm_cmpestri(__str1, len, __str2, len, (uint8_t)kEqualEach);
+        int full_matched = _mm_cmpestrc(__str1, len * kWordsPerChar, __str2, len * kWordsPerChar, (uint8_t)kEqualEach);
+        int matched_index = _mm_cmpestri(__str1, len * kWordsPerChar, __str2, len * kWordsPerChar, (uint8_t)kEqualEach) / kWordsPerChar;
         str1 += kMaxSize;
         str2 += kMaxSize;
         slen -= kMaxSize;
@@ -483,6 +485,7 @@ int compare(const CharTy * str1, std::size_t len1, const CharTy * str2, std::siz
     assert(str2 != nullptr);
 
     static constexpr int kMaxSize = jstd::SSEHelper<CharTy>::kMaxSize;
+    static constexpr int kWordsPerChar = jstd::SSEHelper<CharTy>::kWordsPerChar;
     static constexpr uint8_t _SIDD_CHAR_OPS = jstd::SSEHelper<CharTy>::_SIDD_CHAR_OPS;
     static constexpr uint8_t kEqualEach = _SIDD_CHAR_OPS | _SIDD_CMP_EQUAL_EACH
                                 | _SIDD_NEGATIVE_POLARITY | _SIDD_LEAST_SIGNIFICANT;
@@ -490,16 +493,16 @@ int compare(const CharTy * str1, std::size_t len1, const CharTy * str2, std::siz
     typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
 
     std::size_t count = (len1 <= len2) ? len1 : len2;
-    int slen = (int)count;
+    std::ssize_t slen = (std::ssize_t)count;
 
     while (likely(slen > 0)) {
-        __m128i __str1 = _mm_loadu_si128((const __m128i *)str1);
-        __m128i __str2 = _mm_loadu_si128((const __m128i *)str2);
-        int len = (slen >= kMaxSize) ? kMaxSize : slen;
+        int len = (slen >= kMaxSize) ? kMaxSize : (int)slen;
         assert(len > 0);
+        __m128i __str1 = jstd::SSEHelper<CharTy>::load(str1, len);
+        __m128i __str2 = jstd::SSEHelper<CharTy>::load(str2, len);
 
-        int full_matched = _mm_cmpestrc(__str1, len, __str2, len, (uint8_t)kEqualEach);
-        int matched_index = _mm_cmpestri(__str1, len, __str2, len, (uint8_t)kEqualEach);
+        int full_matched = _mm_cmpestrc(__str1, len * kWordsPerChar, __str2, len * kWordsPerChar, (uint8_t)kEqualEach);
+        int matched_index = _mm_cmpestri(__str1, len * kWordsPerChar, __str2, len * kWordsPerChar, (uint8_t)kEqualEach) / kWordsPerChar;
         str1 += kMaxSize;
         str2 += kMaxSize;
         slen -= kMaxSize;
diff --git a/src/jstd/support/SSEHelper.h b/src/jstd/support/SSEHelper.h
index 1cc7463..98d2e51 100644
--- a/src/jstd/support/SSEHelper.h
+++ b/src/jstd/support/SSEHelper.h
@@ -8,34 +8,31 @@
 
 #include <nmmintrin.h>  // For SSE 4.2
 
+#include <cstdint>
+#include <cstddef>
+#include <cstring>      // For std::memcpy()
+
 namespace jstd {
 
 template <typename CharTy>
 struct SSEHelper {
-    static constexpr uint8_t _SIDD_CHAR_OPS = _SIDD_UBYTE_OPS;
-    static constexpr int kMaxSize = 16;
-    static constexpr int kWordSize = 1;
-};
-
-template <>
-struct SSEHelper<short> {
-    static constexpr uint8_t _SIDD_CHAR_OPS = _SIDD_UWORD_OPS;
-    static constexpr int kMaxSize = 8;
-    static constexpr int kWordSize = 2;
-};
-
-template <>
-struct SSEHelper<unsigned short> {
-    static constexpr uint8_t _SIDD_CHAR_OPS = _SIDD_UWORD_OPS;
-    static constexpr int kMaxSize = 8;
-    static constexpr int kWordSize = 2;
-};
-
-template <>
-struct SSEHelper<wchar_t> {
-    static constexpr uint8_t _SIDD_CHAR_OPS = _SIDD_UWORD_OPS;
-    static constexpr int kMaxSize = 8;
-    static constexpr int kWordSize = 2;
+    // The characters wider than 2 bytes are compared as several words.
+    static constexpr uint8_t _SIDD_CHAR_OPS = (sizeof(CharTy) == 1) ? _SIDD_UBYTE_OPS : _SIDD_UWORD_OPS;
+    static constexpr int kMaxSize = 16 / (int)sizeof(CharTy);
+    static constexpr int kWordSize = (sizeof(CharTy) == 1) ? 1 : 2;
+    static constexpr int kWordsPerChar = (int)sizeof(CharTy) / kWordSize;
+
+    // Load the first [len] characters only, don't read past the end of the string.
+    static inline __m128i load(const CharTy * str, int len) {
+        if (len >= kMaxSize) {
+            return _mm_loadu_si128((const __m128i *)str);
+        }
+        else {
+            CharTy buf[kMaxSize] = {};
+            std::memcpy((void *)buf, (const void *)str, (std::size_t)len * sizeof(CharTy));
+            return _mm_loadu_si128((const __m128i *)buf);
+        }
+    }
 };
 
 } // namespace jstd
-- 
2.43.0


From 3be511fbfb0ffbb6954e1081e6aac701de87edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:07 +0000
Subject: [PATCH 35/51] fix: string_view: an empty view may have a null pointer

---
 src/jstd/string/string_utils.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jstd/string/string_utils.h b/src/jstd/string/string_utils.h
index 59e8958..6cb5c65 100644
--- a/src/jstd/string/string_utils.h
+++ b/src/jstd/string/string_utils.h
@@ -382,6 +382,10 @@ bool is_equal_safe(const CharTy * str1, std::size_t len1, const CharTy * str2, s
         return false;
     }
     else {
+        if (unlikely(len1 == 0)) {
+            // Two empty strings are equal, wherever they point to.
+            return true;
+        }
         if (likely(str1 != str2) || kAssumeAlwaysNotEqual) {
             return str_utils::is_equal_safe(str1, str2, len1);
         }
@@ -629,7 +633,7 @@ int compare_safe(const CharTy * str1, std::size_t len1, const CharTy * str2, std
 {
     if (likely(str1 != str2) || kAssumeAlwaysNotEqual) {
         std::size_t count = (len1 <= len2) ? len1 : len2;
-        int result = str_utils::compare_safe_impl(str1, str2, count);
+        int result = (count != 0) ? str_utils::compare_safe_impl(str1, str2, count) : (int)CompareResult::IsEqual;
         if (likely(result != CompareResult::IsEqual)) {
             return result;
         } else {
-- 
2.43.0


From 7c917c469b14a1a42741c6698cef3070c350a1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:07 +0000
Subject: [PATCH 36/51] fix: flat_map_group16::has_any_overflow looks at every
 slot of the group

---
 src/jstd/hashmap/flat_map_group16.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/flat_map_group16.hpp b/src/jstd/hashmap/flat_map_group16.hpp
index d6d94c9..027f9a9 100644
--- a/src/jstd/hashmap/flat_map_group16.hpp
+++ b/src/jstd/hashmap/flat_map_group16.hpp
@@ -344,7 +344,7 @@ public:
             std::uint64_t * part0 = reinterpret_cast<std::uint64_t *>((ctrl_type *)&ctrls[0]);
             std::uint64_t * part1 = reinterpret_cast<std::uint64_t *>((ctrl_type *)&ctrls[kSizeofSizeT]);
             // return ((((*part0) & kOverflowMask64) != 0) || (((*part1) & kOverflowMask64) != 0));
-            return (((*part0) & (*part1) & kOverflowMask64) != 0);
+            return ((((*part0) | (*part1)) & kOverflowMask64) != 0);
         } else {
             std::uint32_t * part0 = reinterpret_cast<std::uint32_t *>((ctrl_type *)&ctrls[0]);
             std::uint32_t * part1 = reinterpret_cast<std::uint32_t *>((ctrl_type *)&ctrls[kSizeofSizeT]);
@@ -352,8 +352,7 @@ public:
             std::uint32_t * part3 = reinterpret_cast<std::uint32_t *>((ctrl_type *)&ctrls[kSizeofSizeT * 3]);
             // return ((((*part0) & kOverflowMask32) != 0) || (((*part1) & kOverflowMask32) != 0) ||
             //         (((*part2) & kOverflowMask32) != 0) || (((*part3) & kOverflowMask32) != 0));
-            return ((((*part0) & (*part1) & kOverflowMask32) != 0) ||
-                    (((*part2) & (*part3) & kOverflowMask32) != 0));
+            return ((((*part0) | (*part1) | (*part2) | (*part3)) & kOverflowMask32) != 0);
         }
     }
 
-- 
2.43.0


From 7440cbccbdc999e4c13a5681737e6f313592785a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:07 +0000
Subject: [PATCH 37/51] fix: flat_map_group15/30: missing include, constness of
 the overflow masks

---
 src/jstd/hashmap/flat_map_group15.hpp | 1 +
 src/jstd/hashmap/flat_map_group30.hpp | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/flat_map_group15.hpp b/src/jstd/hashmap/flat_map_group15.hpp
index 3415089..f89cf20 100644
--- a/src/jstd/hashmap/flat_map_group15.hpp
+++ b/src/jstd/hashmap/flat_map_group15.hpp
@@ -53,6 +53,7 @@
 
 #include <cstdint>
 #include <cstddef>
+#include <climits>      // For CHAR_BIT
 #include <assert.h>
 
 #include "jstd/basic/stddef.h"
diff --git a/src/jstd/hashmap/flat_map_group30.hpp b/src/jstd/hashmap/flat_map_group30.hpp
index 604f10b..c28fc39 100644
--- a/src/jstd/hashmap/flat_map_group30.hpp
+++ b/src/jstd/hashmap/flat_map_group30.hpp
@@ -53,6 +53,7 @@
 
 #include <cstdint>
 #include <cstddef>
+#include <climits>      // For CHAR_BIT
 #include <assert.h>
 
 #include "jstd/basic/stddef.h"
@@ -504,7 +505,7 @@ private:
     }
 
     inline const mask_type & overflow_masks() const {
-        ctrl_type * mask_ctrl = &ctrls[kGroupSize];
+        const ctrl_type * mask_ctrl = &ctrls[kGroupSize];
         return *reinterpret_cast<const mask_type *>(mask_ctrl);
     }
 
-- 
2.43.0


From 19a35a97411de24af8484511613e778b35c3b7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:07 +0000
Subject: [PATCH 38/51] fix: AVX::mm256_cvtsi256_si32_high: the upper half is
 not sign-extended

---
 src/jstd/support/BitVec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/support/BitVec.h b/src/jstd/support/BitVec.h
index aae2f6d..7f990e3 100644
--- a/src/jstd/support/BitVec.h
+++ b/src/jstd/support/BitVec.h
@@ -486,7 +486,7 @@ uint32_t mm256_cvtsi256_si32_low(__m256i src)
 static inline
 uint32_t mm256_cvtsi256_si32_high(__m256i src)
 {
-    return (uint32_t)(_mm256_cvtsi256_si32(src) >> 16U);
+    return ((uint32_t)_mm256_cvtsi256_si32(src) >> 16U);
 }
 
 template <int index>
-- 
2.43.0


From b03bea2982d790c8bc9b6fda11cb6b273b296654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:07 +0000
Subject: [PATCH 39/51] fix: AVX::mm256_insert_epi32 inserts at odd positions
 too

---
 src/jstd/support/BitVec.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/support/BitVec.h b/src/jstd/support/BitVec.h
index 7f990e3..05df010 100644
--- a/src/jstd/support/BitVec.h
+++ b/src/jstd/support/BitVec.h
@@ -680,7 +680,7 @@ __m256i mm256_insert_epi32(__m256i target, int64_t value)
     else if (index >= 1 && index < 8) {
         static const int blend_mask = 0b00000001 << index;
         __m128i low32 = _mm_cvtsi32_si128(value);
-        __m256i repeat256 = _mm256_broadcastq_epi64(low32);
+        __m256i repeat256 = _mm256_broadcastd_epi32(low32);
         result = _mm256_blend_epi32(target, repeat256, blend_mask);
     }
     else {
-- 
2.43.0


From b0859b239d7ae328ffb2f99774444c2ae66f9e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:27 +0000
Subject: [PATCH 40/51] fix: robin_hash_map: rehash keeps the stored hashes of
 directly laid out elements

---
 src/jstd/hashmap/robin_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 88205ce..08e250a 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -6248,7 +6248,7 @@ InsertOrGrow_Start:
 
         slot += dist_and_0.dist;
 
-        ctrl_type dist_and_hash(dist_and_0);
+        ctrl_type dist_and_hash(dist_and_0, this->get_ctrl_hash(hash_code));
 
         if (ctrl->isEmpty()) {
             this->setUsedCtrl(ctrl, dist_and_hash);
-- 
2.43.0


From f77b37f8217ab33585e95187fc5a6eb32bbc2891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:10 +0000
Subject: [PATCH 41/51] fix: the group maps compile with assertions enabled

---
 src/jstd/hashmap/group15_flat_table.hpp |  2 +-
 src/jstd/support/Power2.h               | 10 ++--------
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 2900081..9c7cc8d 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1473,7 +1473,7 @@ private:
         assert(ctrl != nullptr);
         assert(ctrl >= this->ctrls());
         size_type ctrl_index = static_cast<size_type>(ctrl - this->ctrls());
-        assert(is_positive(index));
+        assert(is_positive(ctrl_index));
         return ctrl_index;
     }
 
diff --git a/src/jstd/support/Power2.h b/src/jstd/support/Power2.h
index 7fe380f..9f3e71d 100644
--- a/src/jstd/support/Power2.h
+++ b/src/jstd/support/Power2.h
@@ -196,12 +196,9 @@ round_down(SizeType N)
                   "Error: pow2::round_down(SizeType n) -- n must be a integral type.");
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
-#ifdef _DEBUG
-    typedef typename std::make_signed<SizeType>::type   signed_type;
-#endif
     unsigned_type n = static_cast<unsigned_type>(N);
     if ((n > 1) || (Min_n > 1)) {
-        assert(signed_type(n - 1) > 0);
+        assert((n - 1) > 0);
         std::uint32_t ms1b = bitScanReverse(n - 1);
         return (return_type(1) << ms1b);
     } else {
@@ -259,13 +256,10 @@ round_up(SizeType N)
                   "Error: pow2::round_up(SizeType n) -- n must be a integral type.");
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
-#ifdef _DEBUG
-    typedef typename std::make_signed<SizeType>::type   signed_type;
-#endif
     unsigned_type n = static_cast<unsigned_type>(N);
     if ((n <= ((std::numeric_limits<unsigned_type>::max)() / 2 + 1)) || (sizeof(SizeType) > 4)) {
         if ((n > 1) || (Min_n > 1)) {
-            assert(signed_type(n - 1) > 0);
+            assert((n - 1) > 0);
             std::uint32_t ms1b = bitScanReverse(n - 1);
             return (return_type(1) << (ms1b + 1));
         } else {
-- 
2.43.0


From 8e899ade6e3ecefa9c6c09f0654476116fdbe6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:27 +0000
Subject: [PATCH 42/51] fix: group15_flat_map: clear() of an empty map does not
 write to the shared empty groups

---
 src/jstd/hashmap/group15_flat_table.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 9c7cc8d..615aa18 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1602,8 +1602,10 @@ private:
         this->clear_slots();
         this->clear_groups(this->groups(), this->group_capacity());
 
-        // Set the sentinel mark
-        this_type::set_sentinel_mark(this->groups(), this->group_capacity());
+        // Set the sentinel mark (the empty groups are shared by all tables and never change)
+        if (this->groups() != this_type::default_empty_groups()) {
+            this_type::set_sentinel_mark(this->groups(), this->group_capacity());
+        }
     }
 
     JSTD_FORCED_INLINE
-- 
2.43.0


From 6699e2032a27b434028b3f3cc0b17754f45dd75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:25 +0000
Subject: [PATCH 43/51] fix: robin_hash_map: clear() of an empty map does not
 write to the shared empty controls

---
 src/jstd/hashmap/robin_hash_map.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 08e250a..10be9af 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -4216,8 +4216,11 @@ private:
         // Note!!: clear_slots() need use this->ctrls()
         this->clear_slots();
 
-        this->clear_ctrls(this->ctrls(), this->slot_capacity(),
-                          this->max_lookups(), this->group_count());
+        // The default empty ctrls are shared by all maps and never change
+        if (this->ctrls() != this_type::default_empty_ctrls()) {
+            this->clear_ctrls(this->ctrls(), this->slot_capacity(),
+                              this->max_lookups(), this->group_count());
+        }
     }
 
     JSTD_FORCED_INLINE
-- 
2.43.0


From e9bc0437e686b661600df738bae44aac612b373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:07 +0000
Subject: [PATCH 44/51] fix: assignment takes the allocator along with the
 memory it takes over

Copy and move assignment exchanged the content with a temporary table, but the
allocators only if they propagate on swap. With an allocator that propagates on
assignment only, the table then held memory of one allocator and returned it to
another one. Also, allocators that cannot be assigned (which never propagate)
are usable now.
---
 src/jstd/hashmap/group15_flat_table.hpp | 36 ++++++++++++++++---------
 src/jstd/hashmap/group16_flat_table.hpp | 36 ++++++++++++++++---------
 src/jstd/hashmap/robin_hash_map.h       | 34 ++++++++++++++---------
 3 files changed, 67 insertions(+), 39 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 615aa18..2cd74e0 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -416,7 +416,7 @@ public:
                            AllocTraits::propagate_on_container_copy_assignment::value
                            ? other.get_allocator_ref()
                            : this->get_allocator_ref());
-        this->swap_impl(tmp);
+        this->template swap_impl<typename AllocTraits::propagate_on_container_copy_assignment>(tmp);
         return *this;
     }
 
@@ -1025,7 +1025,7 @@ public:
     JSTD_FORCED_INLINE
     void swap(this_type & other) {
         if (std::addressof(other) != this) {
-            this->swap_impl(other);
+            this->template swap_impl<typename AllocTraits::propagate_on_container_swap>(other);
         }
     }
 
@@ -2840,7 +2840,7 @@ private:
     this_type & move_assign(this_type && other, std::true_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other));
-            this->swap_impl(tmp);
+            this->template swap_impl<typename AllocTraits::propagate_on_container_move_assignment>(tmp);
         }
         return *this;
     }
@@ -2849,7 +2849,7 @@ private:
     this_type & move_assign(this_type && other, std::false_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other), this->get_allocator_ref());
-            this->swap_impl(tmp);
+            this->template swap_impl<typename AllocTraits::propagate_on_container_move_assignment>(tmp);
         }
         return *this;
     }
@@ -2882,21 +2882,31 @@ private:
 #endif
         swap(this->hasher_, other.hash_function_ref());
         swap(this->key_equal_, other.key_eq_ref());
-        if (std::allocator_traits<allocator_type>::propagate_on_container_swap::value) {
-            swap(this->allocator_, other.get_allocator_ref());
-        }
-        if (std::allocator_traits<group_allocator_type>::propagate_on_container_swap::value) {
-            swap(this->group_allocator_, other.get_group_allocator_ref());
-        }
-        if (std::allocator_traits<slot_allocator_type>::propagate_on_container_swap::value) {
-            swap(this->slot_allocator_, other.get_slot_allocator_ref());
-        }
     }
 
+    JSTD_FORCED_INLINE
+    void swap_allocators(this_type & other, std::true_type) noexcept {
+        using std::swap;
+        swap(this->allocator_, other.get_allocator_ref());
+        swap(this->group_allocator_, other.get_group_allocator_ref());
+        swap(this->slot_allocator_, other.get_slot_allocator_ref());
+    }
+
+    JSTD_FORCED_INLINE
+    void swap_allocators(this_type & other, std::false_type) noexcept {
+        JSTD_UNUSED(other);
+    }
+
+    //
+    // The allocators go along with the content if the propagation trait of
+    // the operation (swap, copy assignment or move assignment) says so.
+    //
+    template <typename PropagateAllocator>
     JSTD_FORCED_INLINE
     void swap_impl(this_type & other) noexcept {
         this->swap_content(other);
         this->swap_policy(other);
+        this->swap_allocators(other, std::integral_constant<bool, PropagateAllocator::value>());
     }
 };
 
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index a66039a..0ba1bd1 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -403,7 +403,7 @@ public:
                            AllocTraits::propagate_on_container_copy_assignment::value
                            ? other.get_allocator_ref()
                            : this->get_allocator_ref());
-        this->swap_impl(tmp);
+        this->template swap_impl<typename AllocTraits::propagate_on_container_copy_assignment>(tmp);
         return *this;
     }
 
@@ -970,7 +970,7 @@ public:
     JSTD_FORCED_INLINE
     void swap(this_type & other) {
         if (std::addressof(other) != this) {
-            this->swap_impl(other);
+            this->template swap_impl<typename AllocTraits::propagate_on_container_swap>(other);
         }
     }
 
@@ -2656,7 +2656,7 @@ private:
     this_type & move_assign(this_type && other, std::true_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other));
-            this->swap_impl(tmp);
+            this->template swap_impl<typename AllocTraits::propagate_on_container_move_assignment>(tmp);
         }
         return *this;
     }
@@ -2665,7 +2665,7 @@ private:
     this_type & move_assign(this_type && other, std::false_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other), this->get_allocator_ref());
-            this->swap_impl(tmp);
+            this->template swap_impl<typename AllocTraits::propagate_on_container_move_assignment>(tmp);
         }
         return *this;
     }
@@ -2696,21 +2696,31 @@ private:
 #endif
         swap(this->hasher_, other.hash_function_ref());
         swap(this->key_equal_, other.key_eq_ref());
-        if (std::allocator_traits<allocator_type>::propagate_on_container_swap::value) {
-            swap(this->allocator_, other.get_allocator_ref());
-        }
-        if (std::allocator_traits<group_allocator_type>::propagate_on_container_swap::value) {
-            swap(this->group_allocator_, other.get_group_allocator_ref());
-        }
-        if (std::allocator_traits<slot_allocator_type>::propagate_on_container_swap::value) {
-            swap(this->slot_allocator_, other.get_slot_allocator_ref());
-        }
     }
 
+    JSTD_FORCED_INLINE
+    void swap_allocators(this_type & other, std::true_type) noexcept {
+        using std::swap;
+        swap(this->allocator_, other.get_allocator_ref());
+        swap(this->group_allocator_, other.get_group_allocator_ref());
+        swap(this->slot_allocator_, other.get_slot_allocator_ref());
+    }
+
+    JSTD_FORCED_INLINE
+    void swap_allocators(this_type & other, std::false_type) noexcept {
+        JSTD_UNUSED(other);
+    }
+
+    //
+    // The allocators go along with the content if the propagation trait of
+    // the operation (swap, copy assignment or move assignment) says so.
+    //
+    template <typename PropagateAllocator>
     JSTD_FORCED_INLINE
     void swap_impl(this_type & other) noexcept {
         this->swap_content(other);
         this->swap_policy(other);
+        this->swap_allocators(other, std::integral_constant<bool, PropagateAllocator::value>());
     }
 };
 
diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 10be9af..c359115 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3257,7 +3257,7 @@ public:
                            AllocTraits::propagate_on_container_copy_assignment::value
                            ? other.get_allocator_ref()
                            : this->get_allocator_ref());
-        this->swap_impl(tmp);
+        this->template swap_impl<typename AllocTraits::propagate_on_container_copy_assignment>(tmp);
         return *this;
     }
 
@@ -3784,7 +3784,7 @@ public:
 
     void swap(robin_hash_map & other) {
         if (std::addressof(other) != this) {
-            this->swap_impl(other);
+            this->template swap_impl<typename AllocTraits::propagate_on_container_swap>(other);
         }
     }
 
@@ -6635,7 +6635,7 @@ Insert_To_Slot:
     this_type & move_assign(this_type && other, std::true_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other));
-            this->swap_impl(tmp);
+            this->template swap_impl<typename AllocTraits::propagate_on_container_move_assignment>(tmp);
         }
         return *this;
     }
@@ -6643,7 +6643,7 @@ Insert_To_Slot:
     this_type & move_assign(this_type && other, std::false_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other), this->get_allocator_ref());
-            this->swap_impl(tmp);
+            this->template swap_impl<typename AllocTraits::propagate_on_container_move_assignment>(tmp);
         }
         return *this;
     }
@@ -6668,20 +6668,28 @@ Insert_To_Slot:
         using std::swap;
         swap(this->hasher_, other.hash_function_ref());
         swap(this->key_equal_, other.key_eq_ref());
-        if (std::allocator_traits<allocator_type>::propagate_on_container_swap::value) {
-            swap(this->allocator_, other.get_allocator_ref());
-        }
-        if (std::allocator_traits<ctrl_allocator_type>::propagate_on_container_swap::value) {
-            swap(this->ctrl_allocator_, other.get_ctrl_allocator_ref());
-        }
-        if (std::allocator_traits<slot_allocator_type>::propagate_on_container_swap::value) {
-            swap(this->slot_allocator_, other.get_slot_allocator_ref());
-        }
     }
 
+    void swap_allocators(this_type & other, std::true_type) noexcept {
+        using std::swap;
+        swap(this->allocator_, other.get_allocator_ref());
+        swap(this->ctrl_allocator_, other.get_ctrl_allocator_ref());
+        swap(this->slot_allocator_, other.get_slot_allocator_ref());
+    }
+
+    void swap_allocators(this_type & other, std::false_type) noexcept {
+        JSTD_UNUSED(other);
+    }
+
+    //
+    // The allocators go along with the content if the propagation trait of
+    // the operation (swap, copy assignment or move assignment) says so.
+    //
+    template <typename PropagateAllocator>
     void swap_impl(this_type & other) noexcept {
         this->swap_content(other);
         this->swap_policy(other);
+        this->swap_allocators(other, std::integral_constant<bool, PropagateAllocator::value>());
     }
 };
 
-- 
2.43.0


From 48d82c11a21bc90b2464bc263963711591438f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:22 +0000
Subject: [PATCH 45/51] fix: copies and allocator-extended moves keep the
 maximum load factor

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 src/jstd/hashmap/robin_hash_map.h       | 8 ++++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 2cd74e0..4b62b3f 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -381,7 +381,7 @@ public:
         ctrl_mask_(size_type(-1)),
         slot_capacity_(0),
 #endif
-        mlf_(kDefaultMaxLoadFactor),
+        mlf_(other.mlf_),
 #if GROUP15_USE_SEPARATE_SLOTS
         groups_alloc_(nullptr),
 #endif
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 0ba1bd1..23c87be 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -368,7 +368,7 @@ public:
 #if GROUP16_USE_INDEX_SHIFT
         index_shift_(kWordLength - 1),
 #endif
-        mlf_(kDefaultMaxLoadFactor),
+        mlf_(other.mlf_),
 #if GROUP16_USE_SEPARATE_SLOTS
         groups_alloc_(nullptr),
 #endif
diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index c359115..e5f36c9 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3124,8 +3124,8 @@ public:
         ctrls_(this_type::default_empty_ctrls()),
         slots_(nullptr), last_slot_(nullptr),
         slot_size_(0), slot_mask_(0), max_lookups_(kMinLookups),
-        slot_threshold_(0), n_mlf_(kDefaultLoadFactorInt),
-        n_mlf_rev_(kDefaultLoadFactorRevInt),
+        slot_threshold_(0), n_mlf_(other.n_mlf_),
+        n_mlf_rev_(other.n_mlf_rev_),
 #if ROBIN_USE_HASH_POLICY
         hash_policy_(),
 #endif
@@ -3176,8 +3176,8 @@ public:
         ctrls_(this_type::default_empty_ctrls()),
         slots_(nullptr), last_slot_(nullptr),
         slot_size_(0), slot_mask_(0), max_lookups_(kMinLookups),
-        slot_threshold_(0), n_mlf_(kDefaultLoadFactorInt),
-        n_mlf_rev_(kDefaultLoadFactorRevInt),
+        slot_threshold_(0), n_mlf_(other.n_mlf_),
+        n_mlf_rev_(other.n_mlf_rev_),
 #if ROBIN_USE_HASH_POLICY
         hash_policy_(jstd::exchange(other.hash_policy_ref(), hash_policy_t())),
 #endif
-- 
2.43.0


From ca9ef026c18f807c114258dddc72518f93ae0a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:12 +0000
Subject: [PATCH 46/51] fix: group16_flat_map: iterator increment does not read
 a control behind the last one

---
 src/jstd/hashmap/flat_map_iterator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/flat_map_iterator.hpp b/src/jstd/hashmap/flat_map_iterator.hpp
index 1856c97..73f245b 100644
--- a/src/jstd/hashmap/flat_map_iterator.hpp
+++ b/src/jstd/hashmap/flat_map_iterator.hpp
@@ -158,7 +158,8 @@ public:
         while (index < max_index) {
             ++index;
             ++ctrl;
-            if (!ctrl->is_empty())
+            // There is no ctrl behind the last slot.
+            if (index >= max_index || !ctrl->is_empty())
                 break;
         }
 
-- 
2.43.0


From 18695808f7dd9928ad16070588cbf8d377028fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:20 +0000
Subject: [PATCH 47/51] fix: MT19937: the second part of the state update read
 behind the state

---
 src/jstd/system/MT19937_32.h | 4 ++--
 src/jstd/system/MT19937_64.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/system/MT19937_32.h b/src/jstd/system/MT19937_32.h
index 466b3bb..92f22da 100644
--- a/src/jstd/system/MT19937_32.h
+++ b/src/jstd/system/MT19937_32.h
@@ -245,10 +245,10 @@ private:
         }
 
         for (size_type i = M; --i; ++p) {
-            *p = (p[N - M] ^ this->twist(p[0], p[1]));
+            *p = (*(p - (N - M)) ^ this->twist(p[0], p[1]));
         }
 
-        *p = p[N - M] ^ this->twist(p[0], this->state[0]);
+        *p = *(p - (N - M)) ^ this->twist(p[0], this->state[0]);
         this->left = (value_type)N;
         this->next = &this->state[0];
     }
diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index 57256a7..5d0a664 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -245,10 +245,10 @@ private:
         }
 
         for (size_type i = M; --i; ++p) {
-            *p = (p[N - M] ^ this->twist(p[0], p[1]));
+            *p = (*(p - (N - M)) ^ this->twist(p[0], p[1]));
         }
 
-        *p = p[N - M] ^ this->twist(p[0], this->state[0]);
+        *p = *(p - (N - M)) ^ this->twist(p[0], this->state[0]);
         this->left = (value_type)N;
         this->next = &this->state[0];
     }
-- 
2.43.0


From 37a6be7ac3ffc556da5066bb81475ed5bc9ed3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:20 +0000
Subject: [PATCH 48/51] fix: MT19937: after srand() the last word of the first
 state was left out

---
 src/jstd/system/MT19937_32.h | 9 ++++++---
 src/jstd/system/MT19937_64.h | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/jstd/system/MT19937_32.h b/src/jstd/system/MT19937_32.h
index 92f22da..b08631a 100644
--- a/src/jstd/system/MT19937_32.h
+++ b/src/jstd/system/MT19937_32.h
@@ -264,17 +264,20 @@ private:
 public:
     void srand(value_type initSeed = kMTDefaultSeed) {
         this->init(initSeed);
-        this->next_state();
+        // The state is to be updated by the next rand().
+        this->left = 1;
     }
 
     void srand(const value_type * init_key, size_type key_len, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, key_len, initSeed);
-        this->next_state();
+        // The state is to be updated by the next rand().
+        this->left = 1;
     }
 
     void srand(const std::vector<value_type> & init_key, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, initSeed);
-        this->next_state();
+        // The state is to be updated by the next rand().
+        this->left = 1;
     }
 
     value_type rand() {
diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index 5d0a664..da1307c 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -264,17 +264,20 @@ private:
 public:
     void srand(value_type initSeed = kMTDefaultSeed) {
         this->init(initSeed);
-        this->next_state();
+        // The state is to be updated by the next rand().
+        this->left = 1;
     }
 
     void srand(const value_type * init_key, size_type key_len, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, key_len, initSeed);
-        this->next_state();
+        // The state is to be updated by the next rand().
+        this->left = 1;
     }
 
     void srand(const std::vector<value_type> & init_key, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, initSeed);
-        this->next_state();
+        // The state is to be updated by the next rand().
+        this->left = 1;
     }
 
     value_type rand() {
-- 
2.43.0


From 5ae14cd9b6f11fca6946390e21c094711e05baed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:20 +0000
Subject: [PATCH 49/51] fix: MT19937_64: the parameters of the 64-bit Mersenne
 twister

---
 src/jstd/system/MT19937_64.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index da1307c..baaa407 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -180,7 +180,7 @@ private:
         }
         this->state[0] = initSeed;
         for (size_type j = 1; j < N; ++j) {
-            this->state[j] = (6364136223846793005ull * (this->state[j - 1] ^ (this->state[j - 1] >> 30)) + (value_type)j);
+            this->state[j] = (6364136223846793005ull * (this->state[j - 1] ^ (this->state[j - 1] >> 62)) + (value_type)j);
             // See Knuth TAOCP Vol2. 3rd Ed. P.106 for multiplier.
             // In the previous versions, MSBs of the seed affect
             // only MSBs of the array state[].
@@ -209,8 +209,8 @@ private:
         size_type k = (N > key_len) ? N : key_len;
         for (; k > 0; --k) {
             // non linear
-            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 30))
-                                                * (value_type)1664525ul)) + init_key[j] + (value_type)j;
+            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 62))
+                                                * 3935559000370003845ull)) + init_key[j] + (value_type)j;
             this->state[i] &= 0xFFFFFFFFFFFFFFFFull;
             ++i;
             ++j;
@@ -224,8 +224,8 @@ private:
 
         for (k = N - 1; k > 0; --k) {
             // non linear
-            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 30))
-                                                * (value_type)1566083941ul)) - (value_type)i;
+            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 62))
+                                                * 2862933555777941757ull)) - (value_type)i;
             this->state[i] &= 0xFFFFFFFFFFFFFFFFull;
             ++i;
             if (i >= N) {
@@ -254,7 +254,7 @@ private:
     }
 
     value_type mixbits(value_type u, value_type v) const {
-        return (u & 0x8000000000000000ull) | (v & 0x7FFFFFFFFFFFFFFFull);
+        return (u & 0xFFFFFFFF80000000ull) | (v & 0x7FFFFFFFull);
     }
 
     value_type twist(value_type u, value_type v) const {
-- 
2.43.0


From 8a05fa4c0cdadd65c9d4f306788082ce8b7a2056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:34 +0000
Subject: [PATCH 50/51] fix: RandomGen: a range of all the values of the type
 divided by zero

---
 src/jstd/system/RandomGen.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/jstd/system/RandomGen.h b/src/jstd/system/RandomGen.h
index 7101494..7c17321 100644
--- a/src/jstd/system/RandomGen.h
+++ b/src/jstd/system/RandomGen.h
@@ -239,17 +239,17 @@ private:
 
     template <typename ValueType, typename UnsignedType = ValueType>
     static ValueType nextInteger(ValueType minValue, ValueType maxValue) {
-        ValueType result;
-        if (minValue <= maxValue) {
-            result = minValue + (this_type::template nextInteger<ValueType>() %
-                                 UnsignedType(maxValue - minValue + 1));
+        if (minValue > maxValue) {
+            ValueType tmp = minValue;
+            minValue = maxValue;
+            maxValue = tmp;
         }
-        else {
-            assert(minValue > maxValue);
-            result = maxValue + (this_type::template nextInteger<ValueType>() %
-                                 UnsignedType(minValue - maxValue + 1));
-        }
-        return result;
+        UnsignedType result = static_cast<UnsignedType>(this_type::template nextInteger<ValueType>());
+        // The number of values, it's 0 if all the values are in the range.
+        UnsignedType range = static_cast<UnsignedType>(UnsignedType(maxValue) - UnsignedType(minValue) + 1);
+        if (range != 0)
+            result %= range;
+        return static_cast<ValueType>(UnsignedType(minValue) + result);
     }
 
     template <typename ValueType, typename UnsignedType = ValueType>
-- 
2.43.0


From a5aa93b84b8d3b231471094cb22f012598d3fc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:16 +0000
Subject: [PATCH 51/51] fix: BKDRHash, Times31: wide keys were hashed beyond
 their end

The length is a number of characters already: src and end are pointers to characters.
---
 src/jstd/hasher/hashes.h | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/jstd/hasher/hashes.h b/src/jstd/hasher/hashes.h
index d9ff225..f542376 100644
--- a/src/jstd/hasher/hashes.h
+++ b/src/jstd/hasher/hashes.h
@@ -311,8 +311,6 @@ static std::uint32_t BKDRHash(const CharTy * key, std::size_t len)
 
     typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
 
-    len *= sizeof(CharTy);
-
     const UCharTy * src = (const UCharTy *)key;
     const UCharTy * end = src + len;
     std::uint32_t hash = 0;
@@ -348,8 +346,6 @@ static std::uint32_t BKDRHash_31(const CharTy * key, std::size_t len)
 
     typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
 
-    len *= sizeof(CharTy);
-
     const UCharTy * src = (const UCharTy *)key;
     const UCharTy * end = src + len;
     std::uint32_t hash = 0;
@@ -382,8 +378,6 @@ static std::uint32_t BKDRHash_31_std(const CharTy * key, std::size_t len)
 
     typedef typename jstd::char_traits<CharTy>::uchar_type UCharTy;
 
-    len *= sizeof(CharTy);
-
     const UCharTy * src = (const UCharTy *)key;
     const UCharTy * end = src + len;
     std::uint32_t hash = 0;
-- 
2.43.0

