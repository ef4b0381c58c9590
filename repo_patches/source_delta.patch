From 8dcd84f6c6aec8b894cd8a7db1bd8e33ee668dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 01/36] fix: robin_hash_map::find() returns end() for a missing
 key (empty map, indirect layout)

---
 src/jstd/hashmap/robin_hash_map.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 7232853..8fea519 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3555,10 +3555,10 @@ public:
 
     const_iterator find(const key_type & key) const {
         const slot_type * slot = this->find_impl(key);
-        if (!kIsIndirectKV)
-            return this->iterator_at(this->index_of(slot));
-        else
+        if (slot != this->last_slot())
             return this->iterator_at(slot);
+        else
+            return this->end();
     }
 
     std::pair<iterator, iterator> equal_range(const key_type & key) {
-- 
2.43.0


From 10d2c8703adb9309876457dd368775151d18aa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 02/36] fix: robin_hash_map swap exchanges the last slot
 pointer too

---
 src/jstd/hashmap/robin_hash_map.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 8fea519..0c93477 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -6556,6 +6556,7 @@ Insert_To_Slot:
         using std::swap;
         swap(this->ctrls_, other.ctrls_);
         swap(this->slots_, other.slots_);
+        swap(this->last_slot_, other.last_slot_);
         swap(this->slot_size_, other.slot_size_);
         swap(this->slot_mask_, other.slot_mask_);
         swap(this->max_lookups_, other.max_lookups_);
-- 
2.43.0


From ae0b2abd03efb139d712d9aa0ff454e0e188b7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 03/36] fix: robin_hash_map move constructor transfers the slot
 threshold

---
 src/jstd/hashmap/robin_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 0c93477..ee3aaf0 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3152,7 +3152,7 @@ public:
         slot_size_(jstd::exchange(other.slot_size_, 0)),
         slot_mask_(jstd::exchange(other.slot_mask_, 0)),
         max_lookups_(jstd::exchange(other.max_lookups_, kMinLookups)),
-        slot_threshold_(jstd::exchange(other.slot_size_, 0)),
+        slot_threshold_(jstd::exchange(other.slot_threshold_, 0)),
         n_mlf_(jstd::exchange(other.n_mlf_, kDefaultLoadFactorInt)),
         n_mlf_rev_(jstd::exchange(other.n_mlf_rev_, kDefaultLoadFactorRevInt)),
 #if ROBIN_USE_HASH_POLICY
-- 
2.43.0


From e8ef2fe610da944c3bfe2cd1b7e48008cd09da47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 04/36] fix: robin_hash_map::clear() does not write to the
 shared default ctrls

---
 src/jstd/hashmap/robin_hash_map.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index ee3aaf0..165d0e8 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -4211,8 +4211,11 @@ private:
         // Note!!: clear_slots() need use this->ctrls()
         this->clear_slots();
 
-        this->clear_ctrls(this->ctrls(), this->slot_capacity(),
-                          this->max_lookups(), this->group_count());
+        // Note!!: the default empty ctrls is a shared and read-only static array.
+        if (this->ctrls() != this_type::default_empty_ctrls()) {
+            this->clear_ctrls(this->ctrls(), this->slot_capacity(),
+                              this->max_lookups(), this->group_count());
+        }
     }
 
     JSTD_FORCED_INLINE
-- 
2.43.0


From 0663bcbed8c5b1f653a1cef1d3b692ea04cc7153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 05/36] fix: copying a robin_hash_map with the indirect layout
 fills the indirect ctrls

---
 src/jstd/hashmap/robin_hash_map.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 165d0e8..acc7e65 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -6309,6 +6309,10 @@ InsertOrGrow_Start:
     template <typename KeyT>
     std::pair<slot_type *, bool>
     unique_find_and_insert(const KeyT & key) {
+        if (kIsIndirectKV) {
+            auto find_info = this->indirect_find_and_insert(key);
+            return { find_info.first, (find_info.second == kNeedGrow) };
+        }
         hash_code_t hash_code = this->get_hash(key);
         return this->unique_find_and_insert(key, hash_code);
     }
-- 
2.43.0


From 7b2b02367da751f7368163db093f46a6aade374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 06/36] fix: robin_hash_map::erase(iterator) and erase(first,
 last) compile and erase the elements of the range

---
 src/jstd/hashmap/robin_hash_map.h | 41 ++++++++++++++-----------------
 1 file changed, 18 insertions(+), 23 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index acc7e65..2901c32 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3727,23 +3727,15 @@ public:
     }
 
     iterator erase(iterator pos) {
-        if (likely(pos->owner() == std::addressof(*this))) {
-            size_type ctrl_index = this->index_of(pos);
+        size_type ctrl_index = this->index_of(pos);
+        if (!kIsIndirectKV) {
             this->erase_slot(ctrl_index);
-            ctrl_type * ctrl = this->ctrl_at(ctrl_index);
-            return this->next_valid_iterator(ctrl, pos);
+            // A following element may have been shifted back into this position.
+            return this->next_valid_iterator(this->ctrl_at(ctrl_index), pos);
         } else {
-            size_type to_erase_idx = this->find_ctrl_index(pos);
-            if (likely(to_erase_idx != this->max_slot_capacity())) {
-                if (!kIsIndirectKV)
-                    this->erase_slot(to_erase_idx);
-                else
-                    this->indirect_erase_slot(to_erase_idx);
-                ctrl_type * ctrl = this->ctrl_at(to_erase_idx);
-                return this->next_valid_iterator(ctrl, iterator(this, to_erase_idx));
-            } else {
-                return { this, this->max_slot_capacity() };
-            }
+            // The last element has been moved into this position, if it's not the last one.
+            this->indirect_erase_slot(ctrl_index);
+            return pos;
         }
     }
 
@@ -3752,18 +3744,21 @@ public:
     }
 
     iterator erase(const_iterator first, const_iterator last) {
-        // TODO: There is a bug, which needs to be traversed from the last to the first.
-        if (likely(first.owner() == this)) {
-            for (; first != last; ++first) {
-                size_type ctrl_index = this->index_of(first);
-                this->erase_slot(ctrl_index);
+        iterator pos(first);
+        if (!kIsIndirectKV) {
+            // The following elements keep their order, so erase forward.
+            for (std::ptrdiff_t n = std::distance(first, last); n > 0; --n) {
+                pos = this->erase(pos);
             }
         } else {
-            for (; first != last; ++first) {
-                this->erase_slot(*first);
+            // Erasing an element moves the last one into its position, so erase backward.
+            iterator iter(last);
+            while (iter != pos) {
+                --iter;
+                this->erase(iter);
             }
         }
-        return { first };
+        return pos;
     }
 
     template <typename InputIter, typename std::enable_if<
-- 
2.43.0


From 20af05282882cedbf214c2cd716d17752a3fdf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 07/36] fix: robin_hash_map::insert(initializer_list) compiles

---
 src/jstd/hashmap/robin_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 2901c32..d260abc 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3615,7 +3615,7 @@ public:
     }
 
     void insert(std::initializer_list<value_type> ilist) {
-        this->insert(ilist.cbegin(), ilist.cend());
+        this->insert(ilist.begin(), ilist.end());
     }
 
     template <typename KeyType, typename MappedType>
-- 
2.43.0


From 513451aa2350c4036b0a9e0d47307abd358c2533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 08/36] fix: robin_hash_map::insert_or_assign() keeps an lvalue
 key intact, and the hint overloads compile

---
 src/jstd/hashmap/robin_hash_map.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index d260abc..b5b4350 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3625,17 +3625,17 @@ public:
 
     template <typename KeyType, typename MappedType>
     std::pair<iterator, bool> insert_or_assign(KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value));
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value));
     }
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, const KeyType & key, MappedType && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedType>(value)).first;
     }
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value)).first;
     }
 
     std::pair<iterator, bool> insert_always(const value_type & value) {
-- 
2.43.0


From e30a7ef3e05dbdb06476703d45fbd7967b7b810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 09/36] fix: robin_hash_map::insert(hint, P &&) returns an
 iterator like the other hint overloads

---
 src/jstd/hashmap/robin_hash_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index b5b4350..826973c 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3603,8 +3603,8 @@ public:
     template <typename P, typename std::enable_if<
               (!jstd::is_same_ex<P, value_type>::value) &&
               std::is_constructible<value_type, P &&>::value>::type * = nullptr>
-    std::pair<iterator, bool> insert(const_iterator hint, P && value) {
-        return this->emplace_impl<false>(std::forward<P>(value));
+    iterator insert(const_iterator hint, P && value) {
+        return this->emplace_impl<false>(std::forward<P>(value)).first;
     }
 
     template <typename InputIter>
-- 
2.43.0


From b37a604165950ff4b53ed0f679b25cb833c7443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 10/36] fix: robin_hash_map::emplace() destroys the temporary
 slot when it has to grow

---
 src/jstd/hashmap/robin_hash_map.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 826973c..d35e76f 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -6086,10 +6086,15 @@ InsertOrGrow_Start:
         } else {
             assert (is_exists == kNeedGrow);
             this->grow_if_necessary();
-            if (kIsLayoutCompatible)
-                return this->emplace(std::move(tmp_slot->mutable_value));
-            else
-                return this->emplace(std::move(tmp_slot->value));
+            if (kIsLayoutCompatible) {
+                auto result = this->emplace_impl<AlwaysUpdate>(std::move(tmp_slot->mutable_value));
+                SlotPolicyTraits::destroy(&this->allocator_, tmp_slot);
+                return result;
+            } else {
+                auto result = this->emplace_impl<AlwaysUpdate>(std::move(tmp_slot->value));
+                SlotPolicyTraits::destroy(&this->allocator_, tmp_slot);
+                return result;
+            }
         }
     }
 
-- 
2.43.0


From a639f7af27d8ef13725190a1c6b29d6432196d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 11/36] fix: copying a robin_hash_map keeps the max load factor

---
 src/jstd/hashmap/robin_hash_map.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index d35e76f..b8f06b7 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3119,8 +3119,8 @@ public:
         ctrls_(this_type::default_empty_ctrls()),
         slots_(nullptr), last_slot_(nullptr),
         slot_size_(0), slot_mask_(0), max_lookups_(kMinLookups),
-        slot_threshold_(0), n_mlf_(kDefaultLoadFactorInt),
-        n_mlf_rev_(kDefaultLoadFactorRevInt),
+        slot_threshold_(0), n_mlf_(other.n_mlf_),
+        n_mlf_rev_(other.n_mlf_rev_),
 #if ROBIN_USE_HASH_POLICY
         hash_policy_(),
 #endif
@@ -3171,8 +3171,8 @@ public:
         ctrls_(this_type::default_empty_ctrls()),
         slots_(nullptr), last_slot_(nullptr),
         slot_size_(0), slot_mask_(0), max_lookups_(kMinLookups),
-        slot_threshold_(0), n_mlf_(kDefaultLoadFactorInt),
-        n_mlf_rev_(kDefaultLoadFactorRevInt),
+        slot_threshold_(0), n_mlf_(other.n_mlf_),
+        n_mlf_rev_(other.n_mlf_rev_),
 #if ROBIN_USE_HASH_POLICY
         hash_policy_(jstd::exchange(other.hash_policy_ref(), hash_policy_t())),
 #endif
-- 
2.43.0


From e884d93628c46298dd21729ce47b2cf906851deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 12/36] fix: robin_hash_map::load_factor() of an empty map is
 not NaN

---
 src/jstd/hashmap/robin_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index b8f06b7..7701507 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3310,7 +3310,7 @@ public:
     }
 
     float load_factor() const {
-        return ((float)this->slot_size() / this->slot_capacity());
+        return (this->slot_capacity() != 0) ? ((float)this->slot_size() / this->slot_capacity()) : 0.0f;
     }
 
     void max_load_factor(float mlf) {
-- 
2.43.0


From 53293fab9a5710dfc67fd14efb0c0218369071f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:49 +0000
Subject: [PATCH 13/36] fix: robin_hash_map::max_load_factor(mlf) updates the
 slot threshold

---
 src/jstd/hashmap/robin_hash_map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 7701507..bd9d89b 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3325,7 +3325,8 @@ public:
         this->n_mlf_ = n_mlf;
         this->n_mlf_rev_ = n_mlf_rev;
         size_type now_slot_size = this->slot_size();
-        size_type new_slot_threshold = this->slot_threshold();
+        size_type new_slot_threshold = this->calc_slot_threshold(this->slot_capacity());
+        this->slot_threshold_ = new_slot_threshold;
         if (now_slot_size > new_slot_threshold) {
             size_type min_required_capacity = this->min_require_capacity(now_slot_size);
             if (min_required_capacity > this->slot_capacity()) {
-- 
2.43.0


From 099cf0f24bce0b84a968d95beb3b58bc2a2a2100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 14/36] fix: robin_hash_map direct iterator::slot() compiles

---
 src/jstd/hashmap/robin_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index bd9d89b..157a40f 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -2889,7 +2889,7 @@ public:
 
         slot_type * slot() {
             const slot_type * _slot = this->owner_->slot_at(this->index_);
-            return const_cast<this_type *>(_slot);
+            return const_cast<slot_type *>(_slot);
         }
 
         const slot_type * slot() const {
-- 
2.43.0


From b2eabd931cf3b3d79ab65ae8cd9c3729469a841c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 15/36] fix: robin_hash_map rehash and shrink_to_fit keep
 enough capacity for all of the elements

---
 src/jstd/hashmap/robin_hash_map.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 157a40f..518d56d 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3525,18 +3525,16 @@ public:
 
     void rehash(size_type new_capacity, bool read_only = false) {
         if (!read_only)
-            new_capacity = (std::max)(this->min_require_capacity(new_capacity), this->slot_size());
+            new_capacity = (std::max)(this->min_require_capacity(new_capacity),
+                                      this->min_require_capacity(this->slot_size()));
         else
-            new_capacity = (std::max)(new_capacity, this->slot_size());
+            new_capacity = (std::max)(new_capacity, this->min_require_capacity(this->slot_size()));
         this->rehash_impl<true, false>(new_capacity);
     }
 
     void shrink_to_fit(bool read_only = false) {
-        size_type new_capacity;
-        if (!read_only)
-            new_capacity = this->min_require_capacity(this->slot_size());
-        else
-            new_capacity = this->slot_size();
+        // A capacity that is less than the required capacity can't hold all of the elements.
+        size_type new_capacity = this->min_require_capacity(this->slot_size());
         this->rehash_impl<true, false>(new_capacity);
     }
 
-- 
2.43.0


From 72942ad63c9b2f2468624f4db36fbb9f35ee4e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 16/36] fix: group15/group16_flat_map::insert(first, last)
 inserts every element of the range

---
 src/jstd/hashmap/group15_flat_map.hpp | 2 +-
 src/jstd/hashmap/group16_flat_map.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index e97a273..475d41e 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -458,7 +458,7 @@ public:
     JSTD_FORCED_INLINE
     void insert(InputIter first, InputIter last) {
         for (InputIter pos = first; pos != last; ++pos) {
-            table_.emplace(*first);
+            table_.emplace(*pos);
         }
     }
 
diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index 7dea593..6180de4 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -455,7 +455,7 @@ public:
     JSTD_FORCED_INLINE
     void insert(InputIter first, InputIter last) {
         for (InputIter pos = first; pos != last; ++pos) {
-            table_.emplace(*first);
+            table_.emplace(*pos);
         }
     }
 
-- 
2.43.0


From d949131b1fff5361af64f2f0563be50cbe55aaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 17/36] fix: group15/group16_flat_table move constructor
 compiles

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 85724cb..2416b75 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -366,7 +366,7 @@ public:
         hasher_(std::move(other.hash_function_ref())),
         key_equal_(std::move(other.key_eq_ref())),
         allocator_(std::move(other.get_allocator_ref())),
-        group_allocator_(std::move(other.get_ctrl_allocator_ref())),
+        group_allocator_(std::move(other.get_group_allocator_ref())),
         slot_allocator_(std::move(other.get_slot_allocator_ref())) {
     }
 
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 1292c06..c912df4 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -355,7 +355,7 @@ public:
         hasher_(std::move(other.hash_function_ref())),
         key_equal_(std::move(other.key_eq_ref())),
         allocator_(std::move(other.get_allocator_ref())),
-        group_allocator_(std::move(other.get_ctrl_allocator_ref())),
+        group_allocator_(std::move(other.get_group_allocator_ref())),
         slot_allocator_(std::move(other.get_slot_allocator_ref())) {
     }
 
-- 
2.43.0


From cddd4e07321b8942766a4ba24d42b5f6cb579a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:31 +0000
Subject: [PATCH 18/36] fix: copying or moving a group15/group16_flat_table
 with the same capacity compiles and keeps the size

---
 src/jstd/hashmap/group15_flat_table.hpp | 9 +++++----
 src/jstd/hashmap/group16_flat_table.hpp | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 2416b75..47dc2c3 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1675,6 +1675,8 @@ private:
         if (this->slots() != nullptr && other.slots() != nullptr) {
             copy_groups_array_from(other);
             copy_slots_array_from(other);
+            this->slot_size_ = other.slot_size_;
+            this->slot_threshold_ = other.slot_threshold_;
         } else {
             assert(false);
         }
@@ -1722,7 +1724,7 @@ private:
          */
         std::memcpy(
             reinterpret_cast<unsigned char *>(this->slots()),
-            reinterpret_cast<unsigned char *>(other.slots()),
+            reinterpret_cast<const unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
     }
 
@@ -1822,6 +1824,8 @@ private:
         if (this->slots() != nullptr && other.slots() != nullptr) {
             move_groups_array_from(other);
             move_slots_array_from(other);
+            this->slot_size_ = other.slot_size_;
+            this->slot_threshold_ = other.slot_threshold_;
         } else {
             assert(false);
         }
@@ -1876,9 +1880,6 @@ private:
             reinterpret_cast<unsigned char *>(this->slots()),
             reinterpret_cast<unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
-
-        // Reset all of other slots
-        std::fill_n(other.slots(), other.slot_capacity(), slot_type());
     }
 
     JSTD_FORCED_INLINE
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index c912df4..db34d97 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -1620,6 +1620,8 @@ private:
         if (this->slots() != nullptr && other.slots() != nullptr) {
             copy_groups_array_from(other);
             copy_slots_array_from(other);
+            this->slot_size_ = other.slot_size_;
+            this->slot_threshold_ = other.slot_threshold_;
         }
     }
 
@@ -1665,7 +1667,7 @@ private:
          */
         std::memcpy(
             reinterpret_cast<unsigned char *>(this->slots()),
-            reinterpret_cast<unsigned char *>(other.slots()),
+            reinterpret_cast<const unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
     }
 
@@ -1741,6 +1743,8 @@ private:
         if (this->slots() != nullptr && other.slots() != nullptr) {
             move_groups_array_from(other);
             move_slots_array_from(other);
+            this->slot_size_ = other.slot_size_;
+            this->slot_threshold_ = other.slot_threshold_;
         }
     }
 
@@ -1793,9 +1797,6 @@ private:
             reinterpret_cast<unsigned char *>(this->slots()),
             reinterpret_cast<unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
-
-        // Reset all of other slots
-        std::fill_n(other.slots(), other.slot_capacity(), slot_type());
     }
 
     JSTD_FORCED_INLINE
-- 
2.43.0


From 8caacc7d313b4e117dba15a4fdda2ab55250c983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 19/36] fix: copying or moving a group16_flat_table element by
 element compiles

---
 src/jstd/hashmap/flat_map_iterator.hpp  | 2 +-
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/flat_map_iterator.hpp b/src/jstd/hashmap/flat_map_iterator.hpp
index 63db61a..1856c97 100644
--- a/src/jstd/hashmap/flat_map_iterator.hpp
+++ b/src/jstd/hashmap/flat_map_iterator.hpp
@@ -218,7 +218,7 @@ public:
     }
 
     inline hashmap_type * hashmap() noexcept {
-        return this->hashmap_;
+        return const_cast<hashmap_type *>(this->hashmap_);
     }
 
     inline const hashmap_type * hashmap() const noexcept {
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index db34d97..3a8f680 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2331,7 +2331,7 @@ private:
     void move_unique_insert(group16_flat_table & other, iterator first, iterator last) {
         for (; first != last; ++first) {
             slot_type * old_slot = first.slot();
-            this->no_grow_unique_transfer_insert(other, old_slot);
+            this->no_grow_unique_transfer_insert(&other, old_slot);
         }
     }
 
-- 
2.43.0


From feadb01406369a8b09defd0ac695546e38dadd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 20/36] fix: group15/group16_flat_table::reserve() never
 removes the elements

---
 src/jstd/hashmap/group15_flat_table.hpp | 4 +---
 src/jstd/hashmap/group16_flat_table.hpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 47dc2c3..21e9429 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -730,11 +730,9 @@ public:
     //
     JSTD_FORCED_INLINE
     void reserve(size_type new_capacity) {
-        if (JSTD_LIKELY(new_capacity != 0)) {
+        if (JSTD_LIKELY(new_capacity > this->size())) {
             new_capacity = this->shrink_to_fit_capacity(new_capacity);
             this->rehash_impl<false>(new_capacity);
-        } else {
-            this->destroy<true>();
         }
     }
 
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 3a8f680..e409db3 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -666,11 +666,9 @@ public:
     //
     JSTD_FORCED_INLINE
     void reserve(size_type new_capacity) {
-        if (JSTD_LIKELY(new_capacity != 0)) {
+        if (JSTD_LIKELY(new_capacity > this->size())) {
             new_capacity = this->shrink_to_fit_capacity(new_capacity);
             this->rehash_impl<false>(new_capacity);
-        } else {
-            this->destroy<true>();
         }
     }
 
-- 
2.43.0


From 1704d6744eda0e827ab797519dd47464bcbcd9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 21/36] fix: group15/group16_flat_table::shrink_to_fit(true)
 keeps room for all of the elements

---
 src/jstd/hashmap/group15_flat_table.hpp | 7 ++-----
 src/jstd/hashmap/group16_flat_table.hpp | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 21e9429..77183ea 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -757,11 +757,8 @@ public:
 
     JSTD_FORCED_INLINE
     void shrink_to_fit(bool read_only = false) {
-        size_type new_capacity;
-        if (JSTD_LIKELY(!read_only))
-            new_capacity = this->shrink_to_fit_capacity(this->size());
-        else
-            new_capacity = this->size();
+        JSTD_UNUSED(read_only);
+        size_type new_capacity = this->shrink_to_fit_capacity(this->size());
         if (JSTD_LIKELY(new_capacity != 0)) {
             this->rehash_impl<true>(new_capacity);
         } else {
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index e409db3..9bbac6f 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -703,11 +703,8 @@ public:
 
     JSTD_FORCED_INLINE
     void shrink_to_fit(bool read_only = false) {
-        size_type new_capacity;
-        if (JSTD_LIKELY(!read_only))
-            new_capacity = this->shrink_to_fit_capacity(this->size());
-        else
-            new_capacity = this->size();
+        JSTD_UNUSED(read_only);
+        size_type new_capacity = this->shrink_to_fit_capacity(this->size());
         if (JSTD_LIKELY(new_capacity != 0)) {
             this->rehash_impl<true>(new_capacity);
         } else {
-- 
2.43.0


From aba625506bdec8e51bcf31eb425239720f6a7049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 22/36] fix: group15_flat_table::clear() does not write to the
 shared default groups

---
 src/jstd/hashmap/group15_flat_table.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 77183ea..579fb06 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1579,10 +1579,13 @@ private:
     void clear_data() {
         // Note!!: clear_slots() need use this->ctrls(), so must clear slots first.
         this->clear_slots();
-        this->clear_groups(this->groups(), this->group_capacity());
+        // Never write to the shared default groups.
+        if (this->groups() != this_type::default_empty_groups()) {
+            this->clear_groups(this->groups(), this->group_capacity());
 
-        // Set the sentinel mark
-        this_type::set_sentinel_mark(this->groups(), this->group_capacity());
+            // Set the sentinel mark
+            this_type::set_sentinel_mark(this->groups(), this->group_capacity());
+        }
     }
 
     JSTD_FORCED_INLINE
-- 
2.43.0


From 6c5f0a1972f009130b0fe140d7144e071e9284c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 23/36] fix: group15/group16_flat_map::erase(iterator),
 erase(first, last) and std::erase_if() compile and erase the elements

---
 src/jstd/hashmap/group15_flat_map.hpp   | 37 +++++++++----------------
 src/jstd/hashmap/group15_flat_table.hpp |  8 ++++--
 src/jstd/hashmap/group16_flat_map.hpp   | 36 +++++++++---------------
 3 files changed, 31 insertions(+), 50 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index 475d41e..2f5f0b3 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -618,35 +618,26 @@ public:
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(iterator pos) {
+    iterator erase(iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(const_iterator pos) {
+    iterator erase(const_iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
     iterator erase(iterator first, iterator last) {
-        iterator iter = first;
-        if (JSTD_LIKELY(iter.slots() >= this->slots() &&
-                        iter.slots() < this->last_slot())) {
-            for (; iter != last; ++iter) {
-                this->erase(iter);
-            }
-        } else {
-            for (; iter != last; ++iter) {
-                const slot_type * slot = iter.slots();
-                this->erase(slot->get_key());
-            }
+        while (first != last) {
+            first = table_.erase(first);
         }
-        return { last };
+        return last;
     }
 
     JSTD_FORCED_INLINE
     iterator erase(const_iterator first, const_iterator last) {
-        return this->erase(first, last);
+        return this->erase(iterator(first), iterator(last));
     }
 
     template <typename InputIter, typename std::enable_if<
@@ -655,9 +646,8 @@ public:
     JSTD_FORCED_INLINE
     size_type erase(InputIter first, InputIter last) {
         size_type num_deleted = 0;
-        iterator iter = first;
-        for (; iter != last; ++iter) {
-            num_deleted += static_cast<size_type>(this->erase(*iter));
+        for (InputIter iter = first; iter != last; ++iter) {
+            num_deleted += static_cast<size_type>(table_.erase(*iter));
         }
         return num_deleted;
     }
@@ -722,13 +712,12 @@ erase_if(jstd::group15_flat_map<Key, Value, Hash, KeyEqual, Alloc> & hash_map, P
 {
     auto old_size = hash_map.size();
 
-    auto first = hash_map.begin();
-    auto last = hash_map.end();
-    auto iter = last;
-    while (iter != first) {
-        --iter;
+    auto iter = hash_map.begin();
+    while (iter != hash_map.end()) {
         if (pred(*iter)) {
-            hash_map.erase(iter);
+            iter = hash_map.erase(iter);
+        } else {
+            ++iter;
         }
     }
 
diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 579fb06..3f6e5d1 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1003,10 +1003,12 @@ public:
 
     JSTD_FORCED_INLINE
     iterator erase(iterator pos) {
-        locator_t & locator = pos.locator();
+        size_type ctrl_index = static_cast<size_type>(pos.ctrl() - this->ctrls());
+        locator_t locator(this->group_by_ctrl_index(ctrl_index),
+                          ctrl_index % kGroupWidth, pos.slot());
         this->erase_slot(locator);
-        locator.increment();
-        return { locator };
+        ++pos;
+        return pos;
     }
 
     JSTD_FORCED_INLINE
diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index 6180de4..cf2e33e 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -615,34 +615,26 @@ public:
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(iterator pos) {
+    iterator erase(iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(const_iterator pos) {
+    iterator erase(const_iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
     iterator erase(iterator first, iterator last) {
-        iterator iter = first;
-        if (JSTD_LIKELY(iter.hashmap() == this)) {
-            for (; iter != last; ++iter) {
-                this->erase(iter);
-            }
-        } else {
-            for (; iter != last; ++iter) {
-                const slot_type * slot = iter.slots();
-                this->erase(slot->get_key());
-            }
+        while (first != last) {
+            first = table_.erase(first);
         }
-        return { last };
+        return last;
     }
 
     JSTD_FORCED_INLINE
     iterator erase(const_iterator first, const_iterator last) {
-        return this->erase(first, last);
+        return this->erase(iterator(first), iterator(last));
     }
 
     template <typename InputIter, typename std::enable_if<
@@ -651,9 +643,8 @@ public:
     JSTD_FORCED_INLINE
     size_type erase(InputIter first, InputIter last) {
         size_type num_deleted = 0;
-        InputIter iter = first;
-        for (; iter != last; ++iter) {
-            num_deleted += static_cast<size_type>(this->erase(*first));
+        for (InputIter iter = first; iter != last; ++iter) {
+            num_deleted += static_cast<size_type>(table_.erase(*iter));
         }
         return num_deleted;
     }
@@ -718,13 +709,12 @@ erase_if(jstd::group16_flat_map<Key, Value, Hash, KeyEqual, Alloc> & hash_map, P
 {
     auto old_size = hash_map.size();
 
-    auto first = hash_map.begin();
-    auto last = hash_map.end();
-    auto iter = last;
-    while (iter != first) {
-        --iter;
+    auto iter = hash_map.begin();
+    while (iter != hash_map.end()) {
         if (pred(*iter)) {
-            hash_map.erase(iter);
+            iter = hash_map.erase(iter);
+        } else {
+            ++iter;
         }
     }
 
-- 
2.43.0


From 7c4f8648301fadab649377862dd1070cc1a809d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 24/36] fix: group15/group16_flat_map::insert_or_assign()
 compiles and keeps an lvalue key intact

---
 src/jstd/hashmap/group15_flat_map.hpp   | 12 ++++++------
 src/jstd/hashmap/group15_flat_table.hpp |  8 ++++----
 src/jstd/hashmap/group16_flat_map.hpp   | 12 ++++++------
 src/jstd/hashmap/group16_flat_table.hpp |  8 ++++----
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index 2f5f0b3..740a177 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -472,13 +472,13 @@ public:
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value));
+        return table_.insert_or_assign(key, std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value));
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -488,19 +488,19 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -510,7 +510,7 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 3f6e5d1..78c2c32 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -917,25 +917,25 @@ public:
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index cf2e33e..77d2206 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -469,13 +469,13 @@ public:
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value));
+        return table_.insert_or_assign(key, std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value));
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -485,19 +485,19 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -507,7 +507,7 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 9bbac6f..d130564 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -865,25 +865,25 @@ public:
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
-- 
2.43.0


From 3458f1aa67f7dada9d275480b996efd34e5817c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 25/36] fix: group15/group16_flat_map::try_emplace(hint, ...)
 and insert(hint, P &&) compile and return an iterator

---
 src/jstd/hashmap/group15_flat_map.hpp | 12 ++++++------
 src/jstd/hashmap/group16_flat_map.hpp | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index 740a177..fdf8a5e 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -451,7 +451,7 @@ public:
                 std::is_constructible<init_type,  P &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert(const_iterator hint, P && value) {
-        return table_.emplace(hint, std::forward<P>(value)).first;
+        return table_.emplace(std::forward<P>(value)).first;
     }
 
     template <typename InputIter>
@@ -573,13 +573,13 @@ public:
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, const key_type & key, Args && ... args) {
-        return table_.try_emplace(hint, key, std::forward<Args>(args)...);
+        return table_.try_emplace(key, std::forward<Args>(args)...).first;
     }
 
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, key_type && key, Args && ... args) {
-        return table_.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::move(key), std::forward<Args>(args)...).first;
     }
 
     template <typename KeyT, typename ... Args>
@@ -592,7 +592,7 @@ public:
                             !std::is_convertible<KeyT, const_iterator>::value,
                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     // For compatibility with versions below C++17 that do not support T::is_transparent
@@ -604,9 +604,9 @@ public:
                              !std::is_same<key_type, KeyT>::value &&
                              !std::is_convertible<KeyT, iterator>::value &&
                              !std::is_convertible<KeyT, const_iterator>::value,
-                              std::pair<iterator, bool> >::type
+                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     ///
diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index 77d2206..1df0c92 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -448,7 +448,7 @@ public:
                 std::is_constructible<init_type,  P &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert(const_iterator hint, P && value) {
-        return table_.emplace(hint, std::forward<P>(value)).first;
+        return table_.emplace(std::forward<P>(value)).first;
     }
 
     template <typename InputIter>
@@ -570,13 +570,13 @@ public:
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, const key_type & key, Args && ... args) {
-        return table_.try_emplace(hint, key, std::forward<Args>(args)...);
+        return table_.try_emplace(key, std::forward<Args>(args)...).first;
     }
 
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, key_type && key, Args && ... args) {
-        return table_.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::move(key), std::forward<Args>(args)...).first;
     }
 
     template <typename KeyT, typename ... Args>
@@ -589,7 +589,7 @@ public:
                             !std::is_convertible<KeyT, const_iterator>::value,
                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     // For compatibility with versions below C++17 that do not support T::is_transparent
@@ -601,9 +601,9 @@ public:
                              !std::is_same<key_type, KeyT>::value &&
                              !std::is_convertible<KeyT, iterator>::value &&
                              !std::is_convertible<KeyT, const_iterator>::value,
-                              std::pair<iterator, bool> >::type
+                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     ///
-- 
2.43.0


From eeb3f06c88254f2f033a5f66b9f60b1ae9e7d4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:44 +0000
Subject: [PATCH 26/36] fix: group15_flat_table::bucket() compiles

---
 src/jstd/hashmap/group15_flat_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 78c2c32..30c7c82 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -598,8 +598,8 @@ public:
     }
 
     size_type bucket(const key_type & key) const {
-        size_type ctrl_index = this->find_impl(key);
-        return ctrl_index;
+        locator_t locator = this->find_impl(key);
+        return (locator.slot() != nullptr) ? this->index_of(locator.slot()) : this->safe_slot_capacity();
     }
 
     ///
-- 
2.43.0


From e80daef626b26d1f41c02faa0b4e7f8e44c60b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 27/36] fix: group15/group16_flat_table::emplace() does not
 move from an lvalue pair

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 30c7c82..3be1e4a 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2547,7 +2547,7 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::move(value));
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<ValueT>(value));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index d130564..6e3641b 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2372,7 +2372,7 @@ private:
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
             assert(slot_index < this->slot_capacity());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::move(value));
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<ValueT>(value));
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
-- 
2.43.0


From 1cd8aba37583dd2e163320ed775085c11b923042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 28/36] fix: group15/group16_flat_table::emplace() destroys the
 temporary slot only once

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 3be1e4a..1795c3b 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2706,7 +2706,7 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::transfer(&this->slot_allocator_, slot, tmp_slot);
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, tmp_slot);
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 6e3641b..1da77eb 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2528,7 +2528,7 @@ private:
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
 
-            SlotPolicyTraits::transfer(&this->slot_allocator_, slot, tmp_slot);
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, tmp_slot);
             this->slot_size_++;
         } else {
             // The key to be inserted already exists.
-- 
2.43.0


From 5ee84e1dd024bd3a344ec1406483105b4a43b7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 29/36] fix: group15/group16_flat_table unmarks the slot of a
 new element when its constructor throws

---
 src/jstd/hashmap/group15_flat_table.hpp | 71 ++++++++++++++-----------
 src/jstd/hashmap/group16_flat_table.hpp | 71 ++++++++++++++-----------
 2 files changed, 78 insertions(+), 64 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 1795c3b..3d49e29 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2466,6 +2466,22 @@ private:
         assert(this->slot_size() <= this->slot_capacity());
     }
 
+    //
+    // Construct a new element in a slot which is already marked as used.
+    // If the constructor throws, the slot is marked as empty again.
+    //
+    template <typename ... Args>
+    JSTD_FORCED_INLINE
+    void construct_new_slot(locator_t & locator, slot_type * slot, Args && ... args) {
+        this->slot_size_++;
+        try {
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<Args>(args)...);
+        } catch (...) {
+            this->reset_ctrl(locator);
+            throw;
+        }
+    }
+
     ///
     /// Use in unique_insert(first, last)
     ///
@@ -2476,8 +2492,7 @@ private:
         slot_type * new_slot = locator.slot();
         assert(new_slot != nullptr);
 
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
-        this->slot_size_++;
+        this->construct_new_slot(locator, new_slot, old_slot);
         assert(this->slot_size() <= this->slot_capacity());
     }
 
@@ -2519,8 +2534,7 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, value);
-            this->slot_size_++;
+            this->construct_new_slot(locator, slot, value);
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2547,8 +2561,7 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<ValueT>(value));
-            this->slot_size_++;
+            this->construct_new_slot(locator, slot, std::forward<ValueT>(value));
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2587,10 +2600,9 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::forward<KeyT>(key),
-                                        std::forward<MappedT>(value));
-            this->slot_size_++;
+            this->construct_new_slot(locator, slot,
+                                     std::forward<KeyT>(key),
+                                     std::forward<MappedT>(value));
         } else {
             // The key to be inserted already exists.
             static constexpr bool isMappedType = jstd::is_same_ex<MappedT, mapped_type>::value;
@@ -2626,11 +2638,10 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
+            this->construct_new_slot(locator, slot,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(std::forward<KeyT>(key)),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2664,11 +2675,10 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward<std::tuple<Ts1...>>(first),
-                                        std::forward<std::tuple<Ts2...>>(second));
-            this->slot_size_++;
+            this->construct_new_slot(locator, slot,
+                                     std::piecewise_construct,
+                                     std::forward<std::tuple<Ts1...>>(first),
+                                     std::forward<std::tuple<Ts2...>>(second));
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2706,8 +2716,7 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, tmp_slot);
-            this->slot_size_++;
+            this->construct_new_slot(locator, slot, tmp_slot);
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2732,11 +2741,10 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(key),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
+            this->construct_new_slot(locator, slot,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(key),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
         }
         return { locator, need_insert };
     }
@@ -2752,11 +2760,10 @@ private:
             slot_type * slot = locator.slot();
             assert(slot != nullptr);
             assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
+            this->construct_new_slot(locator, slot,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(std::forward<KeyT>(key)),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
         }
         return { locator, need_insert };
     }
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 1da77eb..6057a38 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2285,6 +2285,22 @@ private:
         assert(this->slot_size() <= this->slot_capacity());
     }
 
+    //
+    // Construct a new element in a slot which is already marked as used.
+    // If the constructor throws, the slot is marked as empty again.
+    //
+    template <typename ... Args>
+    JSTD_FORCED_INLINE
+    void construct_new_slot(size_type slot_index, slot_type * slot, Args && ... args) {
+        this->slot_size_++;
+        try {
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<Args>(args)...);
+        } catch (...) {
+            this->reset_ctrl(slot_index);
+            throw;
+        }
+    }
+
     ///
     /// Use in unique_insert(first, last)
     ///
@@ -2295,8 +2311,7 @@ private:
         slot_type * new_slot = this->slot_at(slot_index);
         assert(new_slot != nullptr);
 
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
-        this->slot_size_++;
+        this->construct_new_slot(slot_index, new_slot, old_slot);
         assert(this->slot_size() <= this->slot_capacity());
     }
 
@@ -2344,8 +2359,7 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, value);
-            this->slot_size_++;
+            this->construct_new_slot(slot_index, slot, value);
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2372,8 +2386,7 @@ private:
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
             assert(slot_index < this->slot_capacity());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<ValueT>(value));
-            this->slot_size_++;
+            this->construct_new_slot(slot_index, slot, std::forward<ValueT>(value));
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2411,10 +2424,9 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::forward<KeyT>(key),
-                                        std::forward<MappedT>(value));
-            this->slot_size_++;
+            this->construct_new_slot(slot_index, slot,
+                                     std::forward<KeyT>(key),
+                                     std::forward<MappedT>(value));
         } else {
             // The key to be inserted already exists.
             static constexpr bool isMappedType = jstd::is_same_ex<MappedT, mapped_type>::value;
@@ -2449,11 +2461,10 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
+            this->construct_new_slot(slot_index, slot,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(std::forward<KeyT>(key)),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2486,11 +2497,10 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward<std::tuple<Ts1...>>(first),
-                                        std::forward<std::tuple<Ts2...>>(second));
-            this->slot_size_++;
+            this->construct_new_slot(slot_index, slot,
+                                     std::piecewise_construct,
+                                     std::forward<std::tuple<Ts1...>>(first),
+                                     std::forward<std::tuple<Ts2...>>(second));
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2528,8 +2538,7 @@ private:
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, tmp_slot);
-            this->slot_size_++;
+            this->construct_new_slot(slot_index, slot, tmp_slot);
         } else {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
@@ -2553,11 +2562,10 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(key),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
+            this->construct_new_slot(slot_index, slot,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(key),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
         }
         return { this->iterator_at(slot_index), need_insert };
     }
@@ -2572,11 +2580,10 @@ private:
             // The key to be inserted is not exists.
             slot_type * slot = this->slot_at(slot_index);
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
+            this->construct_new_slot(slot_index, slot,
+                                     std::piecewise_construct,
+                                     std::forward_as_tuple(std::forward<KeyT>(key)),
+                                     std::forward_as_tuple(std::forward<Args>(args)...));
         }
         return { this->iterator_at(slot_index), need_insert };
     }
-- 
2.43.0


From 1c03165f29fc81ce55daeeccb77696579432ed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:20 +0000
Subject: [PATCH 30/36] fix: copying a group15/group16_flat_table releases the
 storage when an element constructor throws

---
 src/jstd/hashmap/group15_flat_table.hpp | 102 ++++++------------------
 src/jstd/hashmap/group16_flat_table.hpp |  56 +++----------
 2 files changed, 38 insertions(+), 120 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 3d49e29..3ecc7a3 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1730,7 +1730,7 @@ private:
 
     JSTD_FORCED_INLINE
     void copy_slots_array_from(group15_flat_table const & other, std::false_type /* -> manual */) {
-        const ctrl_type * ctrl = this->ctrls();
+        ctrl_type * ctrl = this->ctrls();
         const ctrl_type * last_ctrl = this->last_ctrl();
         const slot_type * other_slot = other.slots();
         slot_type * slot = this->slots();
@@ -1753,44 +1753,19 @@ private:
                 }
             }
         }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
-        } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
+        catch (...) {
+            // Keep the marks of the elements which were already constructed only.
+            while (ctrl < last_ctrl) {
+                if (ctrl->is_sentinel())
+                    break;
+                ctrl->set_empty();
+                if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != (kGroupSize - 1))) {
+                    ++ctrl;
+                } else {
+                    ctrl += 2;
+                }
             }
+            this->destroy<true>();
             throw;
         }
     }
@@ -1884,7 +1859,7 @@ private:
 
     JSTD_FORCED_INLINE
     void move_slots_array_from(group15_flat_table & other, std::false_type /* -> manual */) {
-        const ctrl_type * ctrl = this->ctrls();
+        ctrl_type * ctrl = this->ctrls();
         const ctrl_type * last_ctrl = this->last_ctrl();
         slot_type * other_slot = other.slots();
         slot_type * slot = this->slots();
@@ -1908,44 +1883,19 @@ private:
                 }
             }
         }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
-        } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
+        catch (...) {
+            // Keep the marks of the elements which were already constructed only.
+            while (ctrl < last_ctrl) {
+                if (ctrl->is_sentinel())
+                    break;
+                ctrl->set_empty();
+                if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != (kGroupSize - 1))) {
+                    ++ctrl;
+                } else {
+                    ctrl += 2;
+                }
             }
+            this->destroy<true>();
             throw;
         }
     }
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 6057a38..95b4849 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -1668,7 +1668,7 @@ private:
 
     JSTD_FORCED_INLINE
     void copy_slots_array_from(group16_flat_table const & other, std::false_type /* -> manual */) {
-        const ctrl_type * ctrl = this->ctrls();
+        ctrl_type * ctrl = this->ctrls();
         const ctrl_type * last_ctrl = this->last_ctrl();
         const slot_type * other_slot = other.slots();
         slot_type * slot = this->slots();
@@ -1683,28 +1683,12 @@ private:
                 ++ctrl;
             }
         }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
-        } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
+        catch (...) {
+            // Keep the marks of the elements which were already constructed only.
+            for (; ctrl < last_ctrl; ++ctrl) {
+                ctrl->set_empty();
             }
+            this->destroy<true>();
             throw;
         }
     }
@@ -1796,7 +1780,7 @@ private:
 
     JSTD_FORCED_INLINE
     void move_slots_array_from(group16_flat_table & other, std::false_type /* -> manual */) {
-        const ctrl_type * ctrl = this->ctrls();
+        ctrl_type * ctrl = this->ctrls();
         const ctrl_type * last_ctrl = this->last_ctrl();
         slot_type * other_slot = other.slots();
         slot_type * slot = this->slots();
@@ -1812,28 +1796,12 @@ private:
                 ++ctrl;
             }
         }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
-        } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
+        catch (...) {
+            // Keep the marks of the elements which were already constructed only.
+            for (; ctrl < last_ctrl; ++ctrl) {
+                ctrl->set_empty();
             }
+            this->destroy<true>();
             throw;
         }
     }
-- 
2.43.0


From 734e57ed8f086740a5250236966f059e23b0df2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:40 +0000
Subject: [PATCH 31/36] fix: robin_hash_map::clear(true) doesn't destroy the
 slots a second time

---
 src/jstd/hashmap/robin_hash_map.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 518d56d..d487475 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3506,7 +3506,8 @@ public:
         if (this->slot_capacity() > kDefaultCapacity) {
             if (need_destroy) {
                 this->destroy_data();
-                this->create_slots<false>(kDefaultCapacity);
+                // The data has been destroyed, so there is nothing for create_slots() to destroy.
+                this->create_slots<true>(kDefaultCapacity);
                 assert(this->slot_size() == 0);
                 return;
             }
-- 
2.43.0


From 1870807ea92dfd826f1b59f0609f46f0b63fa749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:17 +0000
Subject: [PATCH 32/36] fix: group16_flat_table never raises the slot threshold
 above its initial value

---
 src/jstd/hashmap/group16_flat_table.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 95b4849..b820449 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2150,7 +2150,9 @@ private:
 #if GROUP16_USE_NEW_OVERFLOW
                     // If overflow bit is 1, and found a empty slot, the slot must be a deleted slot.
                     bool is_deleted_slot = group->is_overflow(ctrl_hash);
-                    this->slot_threshold_ += is_deleted_slot;
+                    // But the slot threshold never exceeds its initial value, or the map could get full.
+                    if (is_deleted_slot && (this->slot_threshold_ < this->calc_slot_threshold(this->slot_capacity())))
+                        this->slot_threshold_++;
                     assert(this->slot_threshold_ <= this->slot_capacity());
 #endif
                 }
-- 
2.43.0


From b10ca66a3cc22d82fbd6620052c08e1b04e5b1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:24 +0000
Subject: [PATCH 33/36] fix: reserve(n) and shrink_to_fit leave room for n
 elements below the threshold for every load factor

---
 src/jstd/hashmap/group15_flat_table.hpp | 13 ++++++++++---
 src/jstd/hashmap/group16_flat_table.hpp |  3 ++-
 src/jstd/hashmap/robin_hash_map.h       |  3 ++-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 3ecc7a3..3a5b1c2 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -731,8 +731,14 @@ public:
     JSTD_FORCED_INLINE
     void reserve(size_type new_capacity) {
         if (JSTD_LIKELY(new_capacity > this->size())) {
-            new_capacity = this->shrink_to_fit_capacity(new_capacity);
-            this->rehash_impl<false>(new_capacity);
+            size_type new_ctrl_capacity = this->calc_capacity(this->shrink_to_fit_capacity(new_capacity));
+            // A group has less slots than ctrls, the slot threshold may be less than required.
+            size_type new_slot_capacity = this_type::calc_slot_capacity(
+                                            this_type::calc_group_capacity(new_ctrl_capacity));
+            if (this->calc_slot_threshold(new_slot_capacity) < new_capacity) {
+                new_ctrl_capacity *= 2;
+            }
+            this->rehash_impl<false>(new_ctrl_capacity);
         }
     }
 
@@ -1292,7 +1298,8 @@ private:
     }
 
     inline size_type shrink_to_fit_capacity(size_type init_capacity) const noexcept {
-        size_type new_capacity = init_capacity * kLoadFactorAmplify / this->mlf_;
+        // Round up, so that the slot threshold of the new capacity is not less than init_capacity.
+        size_type new_capacity = (init_capacity * kLoadFactorAmplify + this->mlf_ - 1) / this->mlf_;
         return new_capacity;
     }
 
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index b820449..583fa59 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -1215,7 +1215,8 @@ private:
     }
 
     inline size_type shrink_to_fit_capacity(size_type init_capacity) const noexcept {
-        size_type new_capacity = init_capacity * kLoadFactorAmplify / this->mlf_;
+        // Round up, so that the slot threshold of the new capacity is not less than init_capacity.
+        size_type new_capacity = (init_capacity * kLoadFactorAmplify + this->mlf_ - 1) / this->mlf_;
         return new_capacity;
     }
 
diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index d487475..078b8e8 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3862,7 +3862,8 @@ private:
     }
 
     size_type min_require_capacity(size_type init_capacity) const {
-        size_type new_capacity = init_capacity * this->integral_mlf_rev() / kLoadFactorAmplify;
+        // Round up, so that the slot threshold of the new capacity is not less than init_capacity.
+        size_type new_capacity = (init_capacity * kLoadFactorAmplify + this->integral_mlf() - 1) / this->integral_mlf();
         return new_capacity;
     }
 
-- 
2.43.0


From ab0c0ed44a4bc73a955c91013786db708429edcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:26 +0000
Subject: [PATCH 34/36] fix: robin_hash_map keeps every element within
 max_lookups of its home

max_distance() was scaled for the control layout that stores the hash, so for
plain integer keys the limit was never reached, and the indirect layout
compared with kMaxDist only: elements with the same home were placed behind
the end of the control and slot arrays.
---
 src/jstd/hashmap/robin_hash_map.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 078b8e8..fc2a339 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3293,8 +3293,8 @@ public:
     size_type slot_threshold() const { return this->slot_threshold_; }
 
     size_type max_lookups() const { return this->max_lookups_; }
-    std::uint16_t max_distance() const {
-        return (std::uint16_t)(this->max_lookups() << 8);
+    size_type max_distance() const {
+        return this->max_lookups();
     }
     size_type max_slot_capacity() const {
         return (this->slot_capacity() + this->max_lookups());
@@ -5488,7 +5488,7 @@ private:
             assert(slot < this->last_slot());
         }
 
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
+        if (this->need_grow() || (dist_and_0.getDist() >= this->max_distance())) {
             // The size of slot reach the slot threshold or hashmap is full.
             this->grow_if_necessary();
 
@@ -5513,7 +5513,7 @@ private:
             assert(slot < this->last_slot());
         }
 
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
+        if (this->need_grow() || (dist_and_0.getDist() >= this->max_distance())) {
             // The size of slot reach the slot threshold or hashmap is full.
             this->grow_if_necessary();
 
@@ -5593,7 +5593,7 @@ InsertOrGrow:
         dist_and_hash.mergeHash(dist_and_0, ctrl_hash);
 
 InsertOrGrow_Start:
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
+        if (this->need_grow() || (dist_and_0.getDist() >= this->max_distance())) {
             // The size of slot reach the slot threshold or hashmap is full.
             this->grow_if_necessary();
 
@@ -5641,7 +5641,7 @@ InsertOrGrow_Start:
             assert(ctrl <= last_ctrl);
         }
 
-        if (this->need_grow() || (dist_and_0.getDist() > static_cast<udist_type>(kMaxDist))) {
+        if (this->need_grow() || (dist_and_0.getDist() >= this->max_distance())) {
             // The size of slot reach the slot threshold or hashmap is full.
             this->grow_if_necessary();
 
@@ -5761,9 +5761,9 @@ InsertOrGrow_Start:
             assert(rich_ctrl.dist <= kMaxDist);
 
             if (isRehashing) {
-                assert(rich_ctrl.uvalue < this->max_distance());
+                assert(rich_ctrl.getDist() < this->max_distance());
             } else {
-                if (rich_ctrl.uvalue >= this->max_distance()) {
+                if (rich_ctrl.getDist() >= this->max_distance()) {
                     this->emplace_rich_slot(insert_ctrl, insert_slot, insert, rich_ctrl);
                     this->destroy_empty_slot(empty);
                     return kNeedGrow;
@@ -5803,7 +5803,7 @@ InsertOrGrow_Start:
             if (isRehashing) {
                 assert(rich_ctrl.getDist() <= static_cast<udist_type>(kMaxDist));
             } else {
-                if (rich_ctrl.getDist() > static_cast<udist_type>(kMaxDist)) {
+                if (rich_ctrl.getDist() >= this->max_distance()) {
                     insert_ctrl->setValue(rich_ctrl);
                     return kNeedGrow;
                 }
@@ -6334,7 +6334,7 @@ InsertOrGrow_Start:
             ctrl++;
         }
 
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
+        if (this->need_grow() || (dist_and_0.getDist() >= this->max_distance())) {
             // The size of slot reach the slot threshold or hashmap is full.
             this->grow_if_necessary();
 
@@ -6366,7 +6366,7 @@ InsertOrGrow_Start:
             dist_and_hash.incDist(kGroupWidth);
             ctrl += kGroupWidth;
             slot += kGroupWidth;
-            assert(dist_and_hash.value >= 0 && dist_and_hash.uvalue < this->max_distance());
+            assert(dist_and_hash.value >= 0 && dist_and_hash.getDist() < this->max_distance());
         }
 
         return { nullptr, false };
-- 
2.43.0


From eefa336358e7fd41e18bd054a56e15a3ffab9eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:53 +0000
Subject: [PATCH 35/36] fix: move assignment between unequal allocators keeps
 the maximum load factor

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 src/jstd/hashmap/group16_flat_table.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 3a5b1c2..5c7b348 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -381,7 +381,7 @@ public:
         ctrl_mask_(size_type(-1)),
         slot_capacity_(0),
 #endif
-        mlf_(kDefaultMaxLoadFactor),
+        mlf_(other.mlf_),
 #if GROUP15_USE_SEPARATE_SLOTS
         groups_alloc_(nullptr),
 #endif
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 583fa59..76e9e79 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -368,7 +368,7 @@ public:
 #if GROUP16_USE_INDEX_SHIFT
         index_shift_(kWordLength - 1),
 #endif
-        mlf_(kDefaultMaxLoadFactor),
+        mlf_(other.mlf_),
 #if GROUP16_USE_SEPARATE_SLOTS
         groups_alloc_(nullptr),
 #endif
-- 
2.43.0


From c4b4ab1d731c7009f0cf3e0d765367543847098f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:35 +0000
Subject: [PATCH 36/36] fix: assignment hands the allocator over with the
 storage when swap does not propagate it

---
 src/jstd/hashmap/group15_flat_table.hpp | 21 ++++++++++++++++++---
 src/jstd/hashmap/group16_flat_table.hpp | 21 ++++++++++++++++++---
 src/jstd/hashmap/robin_hash_map.h       | 17 ++++++++++++++---
 3 files changed, 50 insertions(+), 9 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 5c7b348..e61d89a 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -416,7 +416,7 @@ public:
                            AllocTraits::propagate_on_container_copy_assignment::value
                            ? other.get_allocator_ref()
                            : this->get_allocator_ref());
-        this->swap_impl(tmp);
+        this->assign_impl(tmp);
         return *this;
     }
 
@@ -2785,7 +2785,7 @@ private:
     this_type & move_assign(this_type && other, std::true_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other));
-            this->swap_impl(tmp);
+            this->assign_impl(tmp);
         }
         return *this;
     }
@@ -2794,7 +2794,7 @@ private:
     this_type & move_assign(this_type && other, std::false_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other), this->get_allocator_ref());
-            this->swap_impl(tmp);
+            this->assign_impl(tmp);
         }
         return *this;
     }
@@ -2838,6 +2838,21 @@ private:
         }
     }
 
+    JSTD_FORCED_INLINE
+    void assign_impl(this_type & tmp) noexcept {
+        // The allocator goes with the storage, whether or not swap() propagates allocators.
+        using std::swap;
+        this->swap_content(tmp);
+#if GROUP15_USE_HASH_POLICY
+        swap(this->hash_policy_, tmp.hash_policy_ref());
+#endif
+        swap(this->hasher_, tmp.hash_function_ref());
+        swap(this->key_equal_, tmp.key_eq_ref());
+        swap(this->allocator_, tmp.get_allocator_ref());
+        swap(this->group_allocator_, tmp.get_group_allocator_ref());
+        swap(this->slot_allocator_, tmp.get_slot_allocator_ref());
+    }
+
     JSTD_FORCED_INLINE
     void swap_impl(this_type & other) noexcept {
         this->swap_content(other);
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 76e9e79..4fefbed 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -403,7 +403,7 @@ public:
                            AllocTraits::propagate_on_container_copy_assignment::value
                            ? other.get_allocator_ref()
                            : this->get_allocator_ref());
-        this->swap_impl(tmp);
+        this->assign_impl(tmp);
         return *this;
     }
 
@@ -2606,7 +2606,7 @@ private:
     this_type & move_assign(this_type && other, std::true_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other));
-            this->swap_impl(tmp);
+            this->assign_impl(tmp);
         }
         return *this;
     }
@@ -2615,7 +2615,7 @@ private:
     this_type & move_assign(this_type && other, std::false_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other), this->get_allocator_ref());
-            this->swap_impl(tmp);
+            this->assign_impl(tmp);
         }
         return *this;
     }
@@ -2657,6 +2657,21 @@ private:
         }
     }
 
+    JSTD_FORCED_INLINE
+    void assign_impl(this_type & tmp) noexcept {
+        // The allocator goes with the storage, whether or not swap() propagates allocators.
+        using std::swap;
+        this->swap_content(tmp);
+#if GROUP16_USE_HASH_POLICY
+        swap(this->hash_policy_, tmp.hash_policy_ref());
+#endif
+        swap(this->hasher_, tmp.hash_function_ref());
+        swap(this->key_equal_, tmp.key_eq_ref());
+        swap(this->allocator_, tmp.get_allocator_ref());
+        swap(this->group_allocator_, tmp.get_group_allocator_ref());
+        swap(this->slot_allocator_, tmp.get_slot_allocator_ref());
+    }
+
     JSTD_FORCED_INLINE
     void swap_impl(this_type & other) noexcept {
         this->swap_content(other);
diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index fc2a339..03cfda3 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3247,7 +3247,7 @@ public:
                            AllocTraits::propagate_on_container_copy_assignment::value
                            ? other.get_allocator_ref()
                            : this->get_allocator_ref());
-        this->swap_impl(tmp);
+        this->assign_impl(tmp);
         return *this;
     }
 
@@ -6547,7 +6547,7 @@ Insert_To_Slot:
     this_type & move_assign(this_type && other, std::true_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other));
-            this->swap_impl(tmp);
+            this->assign_impl(tmp);
         }
         return *this;
     }
@@ -6555,7 +6555,7 @@ Insert_To_Slot:
     this_type & move_assign(this_type && other, std::false_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other), this->get_allocator_ref());
-            this->swap_impl(tmp);
+            this->assign_impl(tmp);
         }
         return *this;
     }
@@ -6591,6 +6591,17 @@ Insert_To_Slot:
         }
     }
 
+    void assign_impl(this_type & tmp) noexcept {
+        // The allocator goes with the storage, whether or not swap() propagates allocators.
+        using std::swap;
+        this->swap_content(tmp);
+        swap(this->hasher_, tmp.hash_function_ref());
+        swap(this->key_equal_, tmp.key_eq_ref());
+        swap(this->allocator_, tmp.get_allocator_ref());
+        swap(this->ctrl_allocator_, tmp.get_ctrl_allocator_ref());
+        swap(this->slot_allocator_, tmp.get_slot_allocator_ref());
+    }
+
     void swap_impl(this_type & other) noexcept {
         this->swap_content(other);
         this->swap_policy(other);
-- 
2.43.0

