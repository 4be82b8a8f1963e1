From 884ef9d4af90762751a3c94b5813af12375a4a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:59 +0000
Subject: [PATCH 01/92] fix: Vector::append_with_default constructs every new
 element

All copies were constructed on top of the first new slot, the remaining
slots were left as uninitialised memory.
---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index e36326d..46602d7 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1241,7 +1241,7 @@ public:
         reserve(size() + num_copies);
         T *obj = objptr(size());
         for(size_t i = 0; i < num_copies; ++i) {
-            new(obj) T{};
+            new(obj + i) T{};
         }
         num_entries += num_copies;
     }
-- 
2.43.0


From 2fafd61b0986f5d181a6548ba3a3f1444a9b1c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:17 +0000
Subject: [PATCH 02/92] fix: Vector::emplace_back with an argument inside the
 vector

Growing relocated (and freed) the elements before the argument was used.
---
 include/pystd2025.hpp | 8 ++++++++
 include/pystd2026.hpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index c838037..0bc52da 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -917,6 +917,14 @@ public:
     void emplace_back(auto &&...args) noexcept {
         if constexpr(sizeof...(args) == 1 && pystd2025::is_same_v<decltype(args...[0]), T>) {
             this->push_back(pystd2025::forward(args...[0]));
+        } else if(needs_to_grow_for(1)) {
+            // The arguments may refer to an element of this vector,
+            // use them before the elements are relocated.
+            T tmp(pystd2025::forward<decltype(args)>(args)...);
+            reserve(num_entries + 1);
+            auto obj_loc = objptr(num_entries);
+            new(obj_loc) T(pystd2025::move(tmp));
+            ++num_entries;
         } else {
             reserve(num_entries + 1);
             auto obj_loc = objptr(num_entries);
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 46602d7..2fc4e36 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1083,6 +1083,14 @@ public:
     void emplace_back(auto &&...args) noexcept {
         if constexpr(sizeof...(args) == 1 && ::pystd2026::is_same_v<decltype(args...[0]), T>) {
             this->push_back(::pystd2026::forward(args...[0]));
+        } else if(needs_to_grow_for(1)) {
+            // The arguments may refer to an element of this vector,
+            // use them before the elements are relocated.
+            T tmp(::pystd2026::forward<decltype(args)>(args)...);
+            reserve(num_entries + 1);
+            auto obj_loc = objptr(num_entries);
+            new(obj_loc) T(::pystd2026::move(tmp));
+            ++num_entries;
         } else {
             reserve(num_entries + 1);
             auto obj_loc = objptr(num_entries);
-- 
2.43.0


From 107d985a14a80d2f3635be3df21b75066e8093cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:37 +0000
Subject: [PATCH 03/92] fix: pystd2025 Vector::reserve relocates only when
 capacity is exceeded

It reallocated on every push_back, even when there was room. Adding an
element of the vector to itself then read freed memory, and reserve()
could reduce the capacity.
---
 include/pystd2025.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 0bc52da..bd87894 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1060,7 +1060,7 @@ public:
     T *end() const { return const_cast<T *>(objptr(num_entries)); }
 
     void reserve(size_t new_size) {
-        if(new_size > size()) {
+        if(new_size > capacity()) {
             resize_to(new_size);
         }
     }
-- 
2.43.0


From 0e05e26102a0acb1a2fcabdbc5a34f9fd4b2744b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 04/92] fix: Expected::value() aborts only when there is no
 value

The test was inverted: asking for an existing value aborted the process
and asking for a missing one returned the error's storage.
---
 include/pystd2025.hpp | 2 +-
 include/pystd2026.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index bd87894..0762d16 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -238,7 +238,7 @@ public:
     }
 
     V &value() {
-        if(*this) {
+        if(!has_value()) {
             abort();
         }
         return *reinterpret_cast<V *>(content);
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 2fc4e36..db3897b 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -365,7 +365,7 @@ public:
     }
 
     V &value() {
-        if(*this) {
+        if(!has_value()) {
             abort();
         }
         return *reinterpret_cast<V *>(content);
-- 
2.43.0


From be9a0d9bddd769933ea7248e5d6b681b8665a643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 05/92] fix: Expected move assignment takes the value from the
 source

It move constructed the value from its own, already destroyed, storage.
---
 include/pystd2025.hpp | 2 +-
 include/pystd2026.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 0762d16..b983580 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -225,7 +225,7 @@ public:
         if(this != &o) {
             destroy();
             if(o.has_value()) {
-                new(content) V(pystd2025::move(*reinterpret_cast<V *>(content)));
+                new(content) V(pystd2025::move(*reinterpret_cast<V *>(o.content)));
                 state = UnionState::Value;
             } else if(o.has_error()) {
                 new(content) E(pystd2025::move(*reinterpret_cast<E *>(o.content)));
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index db3897b..c4258e5 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -352,7 +352,7 @@ public:
         if(this != &o) {
             destroy();
             if(o.has_value()) {
-                new(content) V(::pystd2026::move(*reinterpret_cast<V *>(content)));
+                new(content) V(::pystd2026::move(*reinterpret_cast<V *>(o.content)));
                 state = UnionState::Value;
             } else if(o.has_error()) {
                 new(content) E(::pystd2026::move(*reinterpret_cast<E *>(o.content)));
-- 
2.43.0


From d5d779148812b682f0ab469161ce1f303b0085ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 06/92] fix: Expected can be move constructed from an empty
 Expected

An empty source has no error to move: asking for it aborted the process.
---
 include/pystd2025.hpp | 2 +-
 include/pystd2026.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index b983580..cfff7c3 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -208,7 +208,7 @@ public:
     Expected(Expected<V, E> &&o) noexcept : state{o.state} {
         if(o.has_value()) {
             new(content) V(pystd2025::move(o.value()));
-        } else {
+        } else if(o.has_error()) {
             new(content) E(pystd2025::move(o.error()));
         }
     }
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index c4258e5..231bd5f 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -335,7 +335,7 @@ public:
     Expected(Expected<V, E> &&o) noexcept : state{o.state} {
         if(o.has_value()) {
             new(content) V(::pystd2026::move(o.value()));
-        } else {
+        } else if(o.has_error()) {
             new(content) E(::pystd2026::move(o.error()));
         }
     }
-- 
2.43.0


From 0869a638a980bfc946ec633eada94803807d6283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:27 +0000
Subject: [PATCH 07/92] fix: hash map and set iteration work with a custom hash

HashMapIterator and HashSetIterator named the default hash (and for the
2026 HashSet another value type), so iterating any other instantiation did
not compile.
---
 include/pystd2025.hpp           | 41 +++++++++++++++++--------------
 include/pystd2026_hashtable.hpp | 43 +++++++++++++++++++--------------
 2 files changed, 48 insertions(+), 36 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index cfff7c3..629f7c9 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1922,12 +1922,12 @@ template<typename Hasher> void feed_hash(Hasher &h, int32_t i) noexcept { h.feed
 
 template<typename Hasher> void feed_hash(Hasher &h, size_t i) noexcept { h.feed_primitive(i); }
 
-template<typename Key, typename Value> class HashMapIterator;
+template<typename Key, typename Value, typename HashAlgo> class HashMapIterator;
 
 template<WellBehaved Key, WellBehaved Value, WellBehaved HashAlgo = SimpleHash>
 class HashMap final {
 public:
-    friend class HashMapIterator<Key, Value>;
+    friend class HashMapIterator<Key, Value, HashAlgo>;
     HashMap() noexcept {
         salt = (size_t)this;
         num_entries = 0;
@@ -2019,12 +2019,12 @@ public:
 
     bool is_empty() const { return size() == 0; }
 
-    HashMapIterator<Key, Value> begin() const {
-        return HashMapIterator<Key, Value>(const_cast<HashMap *>(this), 0);
+    HashMapIterator<Key, Value, HashAlgo> begin() const {
+        return HashMapIterator<Key, Value, HashAlgo>(const_cast<HashMap *>(this), 0);
     }
 
-    HashMapIterator<Key, Value> end() const {
-        return HashMapIterator<Key, Value>(const_cast<HashMap *>(this), table_size());
+    HashMapIterator<Key, Value, HashAlgo> end() const {
+        return HashMapIterator<Key, Value, HashAlgo>(const_cast<HashMap *>(this), table_size());
     }
 
     void clear() {
@@ -2195,9 +2195,10 @@ template<typename Key, typename Value> struct KeyValue {
     Value *value;
 };
 
-template<typename Key, typename Value> class HashMapIterator final {
+template<typename Key, typename Value, typename HashAlgo = SimpleHash>
+class HashMapIterator final {
 public:
-    HashMapIterator(HashMap<Key, Value> *map, size_t offset) : map{map}, offset{offset} {
+    HashMapIterator(HashMap<Key, Value, HashAlgo> *map, size_t offset) : map{map}, offset{offset} {
         if(offset == 0 && !map->data.has_value_at(offset)) {
             advance();
         }
@@ -2207,9 +2208,9 @@ public:
         return KeyValue{map->data.keyptr(offset), map->data.valueptr(offset)};
     }
 
-    bool operator!=(const HashMapIterator<Key, Value> &o) const { return offset != o.offset; };
+    bool operator!=(const HashMapIterator &o) const { return offset != o.offset; };
 
-    HashMapIterator<Key, Value> &operator++() {
+    HashMapIterator &operator++() {
         advance();
         return *this;
     }
@@ -2222,25 +2223,25 @@ private:
         }
     }
 
-    HashMap<Key, Value> *map;
+    HashMap<Key, Value, HashAlgo> *map;
     size_t offset;
 };
 
-template<WellBehaved Key> class HashSetIterator final {
+template<WellBehaved Key, WellBehaved HashAlgo = SimpleHash> class HashSetIterator final {
 public:
-    HashSetIterator(HashMapIterator<Key, int> it_) : it{it_} {}
+    HashSetIterator(HashMapIterator<Key, int, HashAlgo> it_) : it{it_} {}
 
     Key &operator*() { return *(*it).key; }
 
-    bool operator!=(const HashSetIterator<Key> &o) const { return it != o.it; };
+    bool operator!=(const HashSetIterator &o) const { return it != o.it; };
 
-    HashSetIterator<Key> &operator++() {
+    HashSetIterator &operator++() {
         ++it;
         return *this;
     }
 
 private:
-    HashMapIterator<Key, int> it;
+    HashMapIterator<Key, int, HashAlgo> it;
 };
 
 struct HashInsertResult {
@@ -2268,9 +2269,13 @@ public:
 
     void clear() noexcept { map.clear(); }
 
-    HashSetIterator<Key> begin() const { return HashSetIterator<Key>(map.begin()); }
+    HashSetIterator<Key, HashAlgo> begin() const {
+        return HashSetIterator<Key, HashAlgo>(map.begin());
+    }
 
-    HashSetIterator<Key> end() const { return HashSetIterator<Key>(map.end()); }
+    HashSetIterator<Key, HashAlgo> end() const {
+        return HashSetIterator<Key, HashAlgo>(map.end());
+    }
 
 private:
     // This is inefficient.
diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 2a81123..77064c2 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -1,11 +1,13 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright 2022-2026 Jussi Pakkanen
 
+#pragma once
+
 #include <pystd2026.hpp>
 
 namespace pystd2026 {
 
-template<typename Key, typename Value> class HashMapIterator;
+template<typename Key, typename Value, typename HashAlgo> class HashMapIterator;
 
 template<WellBehaved Key, WellBehaved Value, WellBehaved HashAlgo = SimpleHash>
 class HashMap final {
@@ -15,7 +17,7 @@ public:
     static_assert(!::pystd2026::is_reference_v<Key>);
     static_assert(!::pystd2026::is_reference_v<Value>);
 
-    friend class HashMapIterator<Key, Value>;
+    friend class HashMapIterator<Key, Value, HashAlgo>;
     HashMap() noexcept {
         salt = (size_t)this;
         num_entries = 0;
@@ -106,12 +108,12 @@ public:
 
     bool is_empty() const { return size() == 0; }
 
-    HashMapIterator<Key, Value> begin() const {
-        return HashMapIterator<Key, Value>(const_cast<HashMap *>(this), 0);
+    HashMapIterator<Key, Value, HashAlgo> begin() const {
+        return HashMapIterator<Key, Value, HashAlgo>(const_cast<HashMap *>(this), 0);
     }
 
-    HashMapIterator<Key, Value> end() const {
-        return HashMapIterator<Key, Value>(const_cast<HashMap *>(this), table_size());
+    HashMapIterator<Key, Value, HashAlgo> end() const {
+        return HashMapIterator<Key, Value, HashAlgo>(const_cast<HashMap *>(this), table_size());
     }
 
     void clear() {
@@ -282,9 +284,10 @@ template<typename Key, typename Value> struct KeyValue {
     Value *value;
 };
 
-template<typename Key, typename Value> class HashMapIterator final {
+template<typename Key, typename Value, typename HashAlgo = SimpleHash>
+class HashMapIterator final {
 public:
-    HashMapIterator(HashMap<Key, Value> *map, size_t offset) : map{map}, offset{offset} {
+    HashMapIterator(HashMap<Key, Value, HashAlgo> *map, size_t offset) : map{map}, offset{offset} {
         if(offset == 0 && !map->data.has_value_at(offset)) {
             advance();
         }
@@ -294,9 +297,9 @@ public:
         return KeyValue{map->data.keyptr(offset), map->data.valueptr(offset)};
     }
 
-    bool operator!=(const HashMapIterator<Key, Value> &o) const { return offset != o.offset; };
+    bool operator!=(const HashMapIterator &o) const { return offset != o.offset; };
 
-    HashMapIterator<Key, Value> &operator++() {
+    HashMapIterator &operator++() {
         advance();
         return *this;
     }
@@ -309,25 +312,25 @@ private:
         }
     }
 
-    HashMap<Key, Value> *map;
+    HashMap<Key, Value, HashAlgo> *map;
     size_t offset;
 };
 
-template<WellBehaved Key> class HashSetIterator final {
+template<WellBehaved Key, WellBehaved HashAlgo = SimpleHash> class HashSetIterator final {
 public:
-    HashSetIterator(HashMapIterator<Key, int> it_) : it{it_} {}
+    HashSetIterator(HashMapIterator<Key, uint8_t, HashAlgo> it_) : it{it_} {}
 
     Key &operator*() { return *(*it).key; }
 
-    bool operator!=(const HashSetIterator<Key> &o) const { return it != o.it; };
+    bool operator!=(const HashSetIterator &o) const { return it != o.it; };
 
-    HashSetIterator<Key> &operator++() {
+    HashSetIterator &operator++() {
         ++it;
         return *this;
     }
 
 private:
-    HashMapIterator<Key, int> it;
+    HashMapIterator<Key, uint8_t, HashAlgo> it;
 };
 
 struct HashInsertResult {
@@ -358,9 +361,13 @@ public:
 
     void clear() noexcept { map.clear(); }
 
-    HashSetIterator<Key> begin() const { return HashSetIterator<Key>(map.begin()); }
+    HashSetIterator<Key, HashAlgo> begin() const {
+        return HashSetIterator<Key, HashAlgo>(map.begin());
+    }
 
-    HashSetIterator<Key> end() const { return HashSetIterator<Key>(map.end()); }
+    HashSetIterator<Key, HashAlgo> end() const {
+        return HashSetIterator<Key, HashAlgo>(map.end());
+    }
 
 private:
     // This is inefficient.
-- 
2.43.0


From 0c30bbb9795aa5b00788ebe825926db1c3c7af9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:07 +0000
Subject: [PATCH 08/92] fix: HashMap::remove destroys the removed key

---
 include/pystd2025.hpp           | 1 +
 include/pystd2026_hashtable.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 629f7c9..d15a38e 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1988,6 +1988,7 @@ public:
                 if(*potential_key == key) {
                     auto *value_loc = data.valueptr(slot);
                     value_loc->~Value();
+                    potential_key->~Key();
                     const auto previous_slot = (slot + table_size() - 1) & mod_mask;
                     const auto next_slot = (slot + 1) & mod_mask;
                     if(data.md[previous_slot].state == SlotState::Empty &&
diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 77064c2..74d3c6f 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -77,6 +77,7 @@ public:
                 if(*potential_key == key) {
                     auto *value_loc = data.valueptr(slot);
                     value_loc->~Value();
+                    potential_key->~Key();
                     const auto previous_slot = (slot + table_size() - 1) & mod_mask();
                     const auto next_slot = (slot + 1) & mod_mask();
                     if(data.md[previous_slot].state == SlotState::Empty &&
-- 
2.43.0


From a45d714d8e8cb94cc478d484e6a5bdb1ce7f6766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:07 +0000
Subject: [PATCH 09/92] fix: HashMap::insert finds a key stored behind a
 removed slot

Reusing the first removed slot of the probe sequence without looking further
stored a second entry for a key that was already in the map.
---
 include/pystd2025.hpp           | 30 +++++++++++++++++++-----------
 include/pystd2026_hashtable.hpp | 30 +++++++++++++++++++-----------
 2 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index d15a38e..439427e 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -2124,17 +2124,15 @@ private:
 
     Value &insert_internal(size_t hashval, const Key &key, Value &&v) {
         auto slot = hash_to_slot(hashval);
-        while(true) {
-            if(data.md[slot].state != SlotState::HasValue) {
-                auto *key_loc = data.keyptr(slot);
-                auto *value_loc = data.valueptr(slot);
-                new(key_loc) Key(key);
-                new(value_loc) Value{pystd2025::move(v)};
-                data.md[slot] = SlotMetadata{SlotState::HasValue, (uint8_t)(hashval & BLOOM_MASK)};
-                ++num_entries;
-                return *value_loc;
-            }
-            if(data.md[slot].bloom_matches(hashval)) {
+        // A removed slot can be reused, but only after checking that the key
+        // is not stored further along.
+        size_t free_slot = table_size();
+        while(data.md[slot].state != SlotState::Empty) {
+            if(data.md[slot].state == SlotState::Tombstone) {
+                if(free_slot == table_size()) {
+                    free_slot = slot;
+                }
+            } else if(data.md[slot].bloom_matches(hashval)) {
                 auto *potential_key = data.keyptr(slot);
                 if(*potential_key == key) {
                     auto *value_loc = data.valueptr(slot);
@@ -2144,6 +2142,16 @@ private:
             }
             slot = (slot + 1) & mod_mask;
         }
+        if(free_slot == table_size()) {
+            free_slot = slot;
+        }
+        auto *key_loc = data.keyptr(free_slot);
+        auto *value_loc = data.valueptr(free_slot);
+        new(key_loc) Key(key);
+        new(value_loc) Value{pystd2025::move(v)};
+        data.md[free_slot] = SlotMetadata{SlotState::HasValue, (uint8_t)(hashval & BLOOM_MASK)};
+        ++num_entries;
+        return *value_loc;
     }
 
     void grow() {
diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 74d3c6f..97ad059 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -213,17 +213,15 @@ private:
 
     Value &insert_internal(size_t hashval, const Key &key, Value &&v) {
         auto slot = hash_to_slot(hashval);
-        while(true) {
-            if(data.md[slot].state != SlotState::HasValue) {
-                auto *key_loc = data.keyptr(slot);
-                auto *value_loc = data.valueptr(slot);
-                new(key_loc) Key(key);
-                new(value_loc) Value{::pystd2026::move(v)};
-                data.md[slot] = SlotMetadata{SlotState::HasValue, (uint8_t)(hashval & BLOOM_MASK)};
-                ++num_entries;
-                return *value_loc;
-            }
-            if(data.md[slot].bloom_matches(hashval)) {
+        // A removed slot can be reused, but only after checking that the key
+        // is not stored further along.
+        size_t free_slot = table_size();
+        while(data.md[slot].state != SlotState::Empty) {
+            if(data.md[slot].state == SlotState::Tombstone) {
+                if(free_slot == table_size()) {
+                    free_slot = slot;
+                }
+            } else if(data.md[slot].bloom_matches(hashval)) {
                 auto *potential_key = data.keyptr(slot);
                 if(*potential_key == key) {
                     auto *value_loc = data.valueptr(slot);
@@ -233,6 +231,16 @@ private:
             }
             slot = (slot + 1) & mod_mask();
         }
+        if(free_slot == table_size()) {
+            free_slot = slot;
+        }
+        auto *key_loc = data.keyptr(free_slot);
+        auto *value_loc = data.valueptr(free_slot);
+        new(key_loc) Key(key);
+        new(value_loc) Value{::pystd2026::move(v)};
+        data.md[free_slot] = SlotMetadata{SlotState::HasValue, (uint8_t)(hashval & BLOOM_MASK)};
+        ++num_entries;
+        return *value_loc;
     }
 
     void grow() {
-- 
2.43.0


From 6e0b4c13c6759a1d5a593ffdbc90ac7211330ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:31 +0000
Subject: [PATCH 10/92] fix: HashMap counts removed slots against its load
 limit

Removed slots end no probe sequence, so a table that filled up with them had
no empty slot left and every search for an absent key ran forever.
---
 include/pystd2025.hpp           | 15 ++++++++++++---
 include/pystd2026_hashtable.hpp | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 439427e..814b2b0 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1931,6 +1931,7 @@ public:
     HashMap() noexcept {
         salt = (size_t)this;
         num_entries = 0;
+        num_tombstones = 0;
         size_in_powers_of_two = 4;
         auto initial_table_size = 1 << size_in_powers_of_two;
         mod_mask = initial_table_size - 1;
@@ -1996,6 +1997,7 @@ public:
                         data.md[slot].state = SlotState::Empty;
                     } else {
                         data.md[slot].state = SlotState::Tombstone;
+                        ++num_tombstones;
                     }
                     --num_entries;
                     return;
@@ -2031,6 +2033,7 @@ public:
     void clear() {
         data.clear();
         num_entries = 0;
+        num_tombstones = 0;
     }
 
 private:
@@ -2144,6 +2147,8 @@ private:
         }
         if(free_slot == table_size()) {
             free_slot = slot;
+        } else {
+            --num_tombstones;
         }
         auto *key_loc = data.keyptr(free_slot);
         auto *value_loc = data.valueptr(free_slot);
@@ -2155,9 +2160,11 @@ private:
     }
 
     void grow() {
-        const auto new_size = 2 * table_size();
-        const auto new_powers_of_two = size_in_powers_of_two + 1;
+        // A table that is mostly removed slots only needs to be cleaned up.
+        const bool need_bigger = num_entries >= num_tombstones;
+        const auto new_size = need_bigger ? 2 * table_size() : table_size();
         const auto new_mod_mask = new_size - 1;
+        const auto new_powers_of_two = size_in_powers_of_two + (need_bigger ? 1 : 0);
         MapData grown;
 
         grown.md = unique_arr<SlotMetadata>(new_size);
@@ -2170,6 +2177,7 @@ private:
         size_in_powers_of_two = new_powers_of_two;
         mod_mask = new_mod_mask;
         num_entries = 0;
+        num_tombstones = 0;
         for(size_t i = 0; i < old.md.size(); ++i) {
             if(old.md[i].state == SlotState::HasValue) {
                 auto &old_key = *old.keyptr(i);
@@ -2189,12 +2197,13 @@ private:
 
     size_t table_size() const { return data.md.size(); }
 
-    double fill_ratio() const { return double(num_entries) / table_size(); }
+    double fill_ratio() const { return double(num_entries + num_tombstones) / table_size(); }
     static constexpr double MAX_LOAD = 0.7;
 
     MapData data;
     size_t salt;
     size_t num_entries;
+    size_t num_tombstones;
     size_t mod_mask;
     int32_t size_in_powers_of_two;
 };
diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 97ad059..9972d6a 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -21,6 +21,7 @@ public:
     HashMap() noexcept {
         salt = (size_t)this;
         num_entries = 0;
+        num_tombstones = 0;
         size_in_powers_of_two = 4;
         auto initial_table_size = 1 << size_in_powers_of_two;
         data.md = unique_arr<SlotMetadata>(initial_table_size);
@@ -85,6 +86,7 @@ public:
                         data.md[slot].state = SlotState::Empty;
                     } else {
                         data.md[slot].state = SlotState::Tombstone;
+                        ++num_tombstones;
                     }
                     --num_entries;
                     return;
@@ -120,6 +122,7 @@ public:
     void clear() {
         data.clear();
         num_entries = 0;
+        num_tombstones = 0;
     }
 
 private:
@@ -233,6 +236,8 @@ private:
         }
         if(free_slot == table_size()) {
             free_slot = slot;
+        } else {
+            --num_tombstones;
         }
         auto *key_loc = data.keyptr(free_slot);
         auto *value_loc = data.valueptr(free_slot);
@@ -244,8 +249,10 @@ private:
     }
 
     void grow() {
-        const auto new_size = 2 * table_size();
-        const auto new_powers_of_two = size_in_powers_of_two + 1;
+        // A table that is mostly removed slots only needs to be cleaned up.
+        const bool need_bigger = num_entries >= num_tombstones;
+        const auto new_size = need_bigger ? 2 * table_size() : table_size();
+        const auto new_powers_of_two = size_in_powers_of_two + (need_bigger ? 1 : 0);
         MapData grown;
 
         grown.md = unique_arr<SlotMetadata>(new_size);
@@ -257,6 +264,7 @@ private:
         data = move(grown);
         size_in_powers_of_two = new_powers_of_two;
         num_entries = 0;
+        num_tombstones = 0;
         for(size_t i = 0; i < old.md.size(); ++i) {
             if(old.md[i].state == SlotState::HasValue) {
                 auto &old_key = *old.keyptr(i);
@@ -278,13 +286,14 @@ private:
 
     size_t table_size() const { return data.md.size(); }
 
-    size_t fill_ratio() const { return (num_entries * 100) / table_size(); }
+    size_t fill_ratio() const { return ((num_entries + num_tombstones) * 100) / table_size(); }
     static constexpr size_t MAX_LOAD_PERCENTAGE = 77;
     // static constexpr size_t MIN_LOAD_PERCENTAGE = 25;
 
     MapData data;
     size_t salt;
     size_t num_entries;
+    size_t num_tombstones;
     uint32_t size_in_powers_of_two;
 };
 
-- 
2.43.0


From b871c6face3db00599c2c23a6e2c0c71979dba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:31 +0000
Subject: [PATCH 11/92] fix: a moved-from HashMap is empty and usable

The implicit move left the source with a stale size and no table, so using it
divided by zero.
---
 include/pystd2025.hpp           | 27 +++++++++++++++++++++++++++
 include/pystd2026_hashtable.hpp | 26 ++++++++++++++++++++++++++
 2 files changed, 53 insertions(+)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 814b2b0..773ae9d 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1941,6 +1941,16 @@ public:
         data.valuedata = Bytes(initial_table_size * sizeof(Value));
     }
 
+    HashMap(HashMap &&o) noexcept : HashMap() { swap_contents(o); }
+
+    HashMap &operator=(HashMap &&o) noexcept {
+        if(this != &o) {
+            HashMap tmp(pystd2025::move(o));
+            swap_contents(tmp);
+        }
+        return *this;
+    }
+
     Value *lookup(const Key &key) const {
         const auto hashval = hash_for(key);
         auto slot = hash_to_slot(hashval);
@@ -2113,6 +2123,23 @@ private:
         }
     };
 
+    void swap_contents(HashMap &o) noexcept {
+        MapData tmp_data(pystd2025::move(data));
+        data = pystd2025::move(o.data);
+        o.data = pystd2025::move(tmp_data);
+        swap_values(salt, o.salt);
+        swap_values(num_entries, o.num_entries);
+        swap_values(num_tombstones, o.num_tombstones);
+        swap_values(mod_mask, o.mod_mask);
+        swap_values(size_in_powers_of_two, o.size_in_powers_of_two);
+    }
+
+    template<typename T> static void swap_values(T &a, T &b) noexcept {
+        const T tmp = a;
+        a = b;
+        b = tmp;
+    }
+
     size_t hash_to_slot(size_t hashval) const {
         const size_t total_bits = sizeof(size_t) * 8;
         size_t consumed_bits = 0;
diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 9972d6a..126234d 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -30,6 +30,16 @@ public:
         data.valuedata = Bytes(initial_table_size * sizeof(Value));
     }
 
+    HashMap(HashMap &&o) noexcept : HashMap() { swap_contents(o); }
+
+    HashMap &operator=(HashMap &&o) noexcept {
+        if(this != &o) {
+            HashMap tmp(::pystd2026::move(o));
+            swap_contents(tmp);
+        }
+        return *this;
+    }
+
     Value *lookup(const Key &key) const {
         const auto hashval = hash_for(key);
         auto slot = hash_to_slot(hashval);
@@ -202,6 +212,22 @@ private:
         }
     };
 
+    void swap_contents(HashMap &o) noexcept {
+        MapData tmp_data(::pystd2026::move(data));
+        data = ::pystd2026::move(o.data);
+        o.data = ::pystd2026::move(tmp_data);
+        swap_values(salt, o.salt);
+        swap_values(num_entries, o.num_entries);
+        swap_values(num_tombstones, o.num_tombstones);
+        swap_values(size_in_powers_of_two, o.size_in_powers_of_two);
+    }
+
+    template<typename T> static void swap_values(T &a, T &b) noexcept {
+        const T tmp = a;
+        a = b;
+        b = tmp;
+    }
+
     size_t hash_to_slot(size_t hashval) const {
         const size_t total_bits = sizeof(size_t) * 8;
         size_t consumed_bits = 0;
-- 
2.43.0


From c084ae1c40510b433636e54d1753269bc5bab64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:31 +0000
Subject: [PATCH 12/92] fix: HashMap::insert with a key that lives inside the
 map

Growing freed the memory the key argument referred to.
---
 include/pystd2025.hpp           | 3 +++
 include/pystd2026_hashtable.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 773ae9d..a358f40 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1979,7 +1979,10 @@ public:
 
     Value &insert(const Key &key, Value v) {
         if(fill_ratio() >= MAX_LOAD) {
+            // The key might be stored inside this map.
+            const Key key_copy(key);
             grow();
+            return insert_internal(hash_for(key_copy), key_copy, pystd2025::move(v));
         }
 
         const auto hashval = hash_for(key);
diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 126234d..708b41a 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -68,7 +68,10 @@ public:
 
     Value &insert(const Key &key, Value v) {
         if(fill_ratio() >= MAX_LOAD_PERCENTAGE) {
+            // The key might be stored inside this map.
+            const Key key_copy(key);
             grow();
+            return insert_internal(hash_for(key_copy), key_copy, ::pystd2026::move(v));
         }
 
         const auto hashval = hash_for(key);
-- 
2.43.0


From 95d0a3e1f0d913f25b2529f71929633a074d90f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 13/92] fix: BTree::remove compiles for payloads that are not
 numbers

It compared every payload with a leftover debugging constant.
---
 include/pystd2025_btree.hpp | 7 -------
 include/pystd2026_btree.hpp | 7 -------
 2 files changed, 14 deletions(-)

diff --git a/include/pystd2025_btree.hpp b/include/pystd2025_btree.hpp
index 83a4813..c05c243 100644
--- a/include/pystd2025_btree.hpp
+++ b/include/pystd2025_btree.hpp
@@ -32,14 +32,7 @@ public:
         if(is_empty()) {
             return;
         }
-        const uint32_t poi = 23;
-        if(value == poi) {
-            debug_print("At point of interest.");
-        }
         auto v = extract_value(value, root);
-        if(value == poi) {
-            debug_print("After point of interest.");
-        }
         if(v) {
             --num_values;
         }
diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index cac8ca4..8da0ab6 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -34,14 +34,7 @@ public:
         if(is_empty()) {
             return;
         }
-        const uint32_t poi = 23;
-        if(value == poi) {
-            debug_print("At point of interest.");
-        }
         auto v = extract_value(value, root);
-        if(value == poi) {
-            debug_print("After point of interest.");
-        }
         if(v) {
             --num_values;
         }
-- 
2.43.0


From 52488db5f3b7b5e980f72d6816ce4b0c2deae4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:22 +0000
Subject: [PATCH 14/92] fix: BTreeMap can be looked up

lookup() returned a pointer to const as pointer to non-const and the 2026
tree needed an operator<=> that the map's entries do not have.
---
 include/pystd2025_btree.hpp | 3 ++-
 include/pystd2026_btree.hpp | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/pystd2025_btree.hpp b/include/pystd2025_btree.hpp
index c05c243..d3232dc 100644
--- a/include/pystd2025_btree.hpp
+++ b/include/pystd2025_btree.hpp
@@ -938,7 +938,8 @@ public:
         MapEntry entry{key, Value{}};
         auto *loc = tree.lookup(entry);
         if(loc) {
-            return &(loc->value);
+            // Only the key part of an entry must not be changed.
+            return const_cast<Value *>(&(loc->value));
         }
         return nullptr;
     }
diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 8da0ab6..1014538 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -521,7 +521,8 @@ private:
         if(node.values.is_empty()) {
             return 0;
         }
-        auto it = lower_bound(value_array.begin(), value_array.end(), value);
+        auto it = lower_bound(
+            value_array.begin(), value_array.end(), value, OnlyLessComparator<Payload>{});
 
         return &(*it) - &node.values.front();
     }
@@ -1063,7 +1064,8 @@ public:
         MapEntry entry{key, Value{}};
         auto *loc = tree.lookup(entry);
         if(loc) {
-            return &(loc->value);
+            // Only the key part of an entry must not be changed.
+            return const_cast<Value *>(&(loc->value));
         }
         return nullptr;
     }
-- 
2.43.0


From b949d878d40730d585ad253f9b96bc1596545742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 15/92] fix: a BTree that has been emptied can be used again

The empty root leaf was kept, and the next insertion put its value in a
second leaf that no lookup reached.
---
 include/pystd2025_btree.hpp | 4 ++++
 include/pystd2026_btree.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/pystd2025_btree.hpp b/include/pystd2025_btree.hpp
index d3232dc..3ea6cd2 100644
--- a/include/pystd2025_btree.hpp
+++ b/include/pystd2025_btree.hpp
@@ -867,6 +867,10 @@ private:
 
     void root_fixup() {
         if(is_empty()) {
+            // The next insertion creates a new root.
+            leaves.clear();
+            internals.clear();
+            root = NodeReference::null_ref();
             return;
         }
         auto &root_ref = get_node_common(root);
diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 1014538..8b4f757 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -883,6 +883,10 @@ private:
 
     void root_fixup() {
         if(is_empty()) {
+            // The next insertion creates a new root.
+            leaves.clear();
+            internals.clear();
+            root = NodeReference::null_ref();
             return;
         }
         auto &root_ref = get_node_common(root);
-- 
2.43.0


From 936fd9b99764f84b8403e6c13ae61fcc968bb243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 16/92] fix: BTree removal follows a merged node that was moved

Merging can move the merged node to another index, but the removal went on
with the old one.
---
 include/pystd2025_btree.hpp | 5 +++--
 include/pystd2026_btree.hpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/pystd2025_btree.hpp b/include/pystd2025_btree.hpp
index 3ea6cd2..ff0145c 100644
--- a/include/pystd2025_btree.hpp
+++ b/include/pystd2025_btree.hpp
@@ -666,8 +666,9 @@ private:
             return return_value;
         } else {
             debug_print("Before merge.");
-            merge_siblings_of_entry(node_id, node_loc);
-            auto sub_value = extract_value(value, lc_id);
+            // Merging can move the merged node.
+            const auto merged_id = merge_siblings_of_entry(node_id, node_loc);
+            auto sub_value = extract_value(value, merged_id);
             assert(sub_value);
             return ::pystd2025::move(sub_value.value());
         }
diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 8b4f757..9477f42 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -682,8 +682,9 @@ private:
             return return_value;
         } else {
             debug_print("Before merge.");
-            merge_siblings_of_entry(node_id, node_loc);
-            auto sub_value = extract_value(value, lc_id);
+            // Merging can move the merged node.
+            const auto merged_id = merge_siblings_of_entry(node_id, node_loc);
+            auto sub_value = extract_value(value, merged_id);
             assert(sub_value);
             return ::pystd2026::move(sub_value.value());
         }
-- 
2.43.0


From 4702f38926445c306650f995aee8298655467f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:16 +0000
Subject: [PATCH 17/92] fix: BTree root removal follows the new root when it is
 moved

---
 include/pystd2025_btree.hpp | 9 ++++++---
 include/pystd2026_btree.hpp | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/pystd2025_btree.hpp b/include/pystd2025_btree.hpp
index ff0145c..3869a27 100644
--- a/include/pystd2025_btree.hpp
+++ b/include/pystd2025_btree.hpp
@@ -882,9 +882,12 @@ private:
             auto &root_inner = static_cast<InternalNode &>(root_ref);
             assert(root_inner.children.size() == 1);
             auto new_root = root_inner.children[0];
-            // FIXME new_root might have changed because of the pop?
-            swap_to_end_and_pop(root);
-            root = new_root;
+            const auto old_root = root;
+            // Popping moves the last internal node to the place of the old root.
+            const bool new_root_moves =
+                !new_root.to_leaf && new_root.id == (uint32_t)internals.size() - 1;
+            swap_to_end_and_pop(old_root);
+            root = new_root_moves ? old_root : new_root;
             get_node_common(root).parent = NodeReference::null_ref();
         } else {
             abort();
diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 9477f42..de578b9 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -898,9 +898,12 @@ private:
             auto &root_inner = static_cast<InternalNode &>(root_ref);
             assert(root_inner.children.size() == 1);
             auto new_root = root_inner.children[0];
-            // FIXME new_root might have changed because of the pop?
-            swap_to_end_and_pop(root);
-            root = new_root;
+            const auto old_root = root;
+            // Popping moves the last internal node to the place of the old root.
+            const bool new_root_moves =
+                !new_root.to_leaf && new_root.id == (uint32_t)internals.size() - 1;
+            swap_to_end_and_pop(old_root);
+            root = new_root_moves ? old_root : new_root;
             get_node_common(root).parent = NodeReference::null_ref();
         } else {
             abort();
-- 
2.43.0


From 1a4f5eea002acd4f0a560c5f1e3005c9c7792c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:53 +0000
Subject: [PATCH 18/92] fix: BTree removal of an internal value keeps the nodes
 below it filled

---
 include/pystd2025_btree.hpp | 43 ++++++++++++++++++++-----------------
 include/pystd2026_btree.hpp | 43 ++++++++++++++++++++-----------------
 2 files changed, 46 insertions(+), 40 deletions(-)

diff --git a/include/pystd2025_btree.hpp b/include/pystd2025_btree.hpp
index 3869a27..7ce10ef 100644
--- a/include/pystd2025_btree.hpp
+++ b/include/pystd2025_btree.hpp
@@ -643,27 +643,12 @@ private:
         auto &rc = get_node_common(rc_id);
 
         if(lc.size() > MIN_VALUE_COUNT) {
-            auto predecessor_id = find_predecessor(lc_id);
-            auto &predecessor = get_node_common(predecessor_id);
-            Payload return_value = ::pystd2025::move(p.values[node_loc]);
-            p.values[node_loc] = ::pystd2025::move(predecessor.values.back());
-            if(predecessor_id.to_leaf) {
-                static_cast<LeafNode &>(predecessor).pop_back();
-            } else {
-                static_cast<InternalNode &>(predecessor).pop_back();
-            }
-            return return_value;
+            // Extracting the neighbour value rebalances the nodes above it.
+            const Payload predecessor(get_node_common(find_predecessor(lc_id)).values.back());
+            return replace_in_internal(value, extract_value(predecessor, lc_id));
         } else if(rc.size() > MIN_VALUE_COUNT) {
-            auto successor_id = find_successor(rc_id);
-            auto &successor = get_node_common(successor_id);
-            Payload return_value = ::pystd2025::move(p.values[node_loc]);
-            p.values[node_loc] = ::pystd2025::move(successor.values.front());
-            if(successor_id.to_leaf) {
-                static_cast<LeafNode &>(successor).pop_front();
-            } else {
-                static_cast<InternalNode &>(successor).pop_front();
-            }
-            return return_value;
+            const Payload successor(get_node_common(find_successor(rc_id)).values.front());
+            return replace_in_internal(value, extract_value(successor, rc_id));
         } else {
             debug_print("Before merge.");
             // Merging can move the merged node.
@@ -675,6 +660,24 @@ private:
         abort();
     }
 
+    // Rebalancing can have moved the node that holds the value.
+    Payload replace_in_internal(const Payload &value, Optional<Payload> replacement) {
+        assert(replacement);
+        NodeReference node_id = root;
+        while(true) {
+            assert(!node_id.to_leaf);
+            const NodeSearchResult search_result = search_node(value, node_id);
+            auto &node = get_internal(node_id);
+            if(search_result.has_query_value) {
+                Payload &entry = node.values[search_result.loc];
+                Payload return_value = ::pystd2025::move(entry);
+                entry = ::pystd2025::move(replacement.value());
+                return return_value;
+            }
+            node_id = node.children[*search_result.child_loc];
+        }
+    }
+
     NodeReference find_predecessor(NodeReference node_id) const {
         while(!node_id.to_leaf) {
             node_id = get_internal(node_id).children.back();
diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index de578b9..d7343de 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -659,27 +659,12 @@ private:
         auto &rc = get_node_common(rc_id);
 
         if(lc.size() > MIN_VALUE_COUNT) {
-            auto predecessor_id = find_predecessor(lc_id);
-            auto &predecessor = get_node_common(predecessor_id);
-            Payload return_value = ::pystd2026::move(p.values[node_loc]);
-            p.values[node_loc] = ::pystd2026::move(predecessor.values.back());
-            if(predecessor_id.to_leaf) {
-                static_cast<LeafNode &>(predecessor).pop_back();
-            } else {
-                static_cast<InternalNode &>(predecessor).pop_back();
-            }
-            return return_value;
+            // Extracting the neighbour value rebalances the nodes above it.
+            const Payload predecessor(get_node_common(find_predecessor(lc_id)).values.back());
+            return replace_in_internal(value, extract_value(predecessor, lc_id));
         } else if(rc.size() > MIN_VALUE_COUNT) {
-            auto successor_id = find_successor(rc_id);
-            auto &successor = get_node_common(successor_id);
-            Payload return_value = ::pystd2026::move(p.values[node_loc]);
-            p.values[node_loc] = ::pystd2026::move(successor.values.front());
-            if(successor_id.to_leaf) {
-                static_cast<LeafNode &>(successor).pop_front();
-            } else {
-                static_cast<InternalNode &>(successor).pop_front();
-            }
-            return return_value;
+            const Payload successor(get_node_common(find_successor(rc_id)).values.front());
+            return replace_in_internal(value, extract_value(successor, rc_id));
         } else {
             debug_print("Before merge.");
             // Merging can move the merged node.
@@ -691,6 +676,24 @@ private:
         abort();
     }
 
+    // Rebalancing can have moved the node that holds the value.
+    Payload replace_in_internal(const Payload &value, Optional<Payload> replacement) {
+        assert(replacement);
+        NodeReference node_id = root;
+        while(true) {
+            assert(!node_id.to_leaf);
+            const NodeSearchResult search_result = search_node(value, node_id);
+            auto &node = get_internal(node_id);
+            if(search_result.has_query_value) {
+                Payload &entry = node.values[search_result.loc];
+                Payload return_value = ::pystd2026::move(entry);
+                entry = ::pystd2026::move(replacement.value());
+                return return_value;
+            }
+            node_id = node.children[*search_result.child_loc];
+        }
+    }
+
     NodeReference find_predecessor(NodeReference node_id) const {
         while(!node_id.to_leaf) {
             node_id = get_internal(node_id).children.back();
-- 
2.43.0


From b92a6fe48eea439e3c4a526987805bb946754c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:53 +0000
Subject: [PATCH 19/92] fix: BTree::remove with a value that lives inside the
 tree

---
 include/pystd2025_btree.hpp | 4 +++-
 include/pystd2026_btree.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025_btree.hpp b/include/pystd2025_btree.hpp
index 7ce10ef..06ff10e 100644
--- a/include/pystd2025_btree.hpp
+++ b/include/pystd2025_btree.hpp
@@ -32,7 +32,9 @@ public:
         if(is_empty()) {
             return;
         }
-        auto v = extract_value(value, root);
+        // The argument might be a value in this tree, which changes during removal.
+        const Payload value_to_remove(value);
+        auto v = extract_value(value_to_remove, root);
         if(v) {
             --num_values;
         }
diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index d7343de..06d9446 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -34,7 +34,9 @@ public:
         if(is_empty()) {
             return;
         }
-        auto v = extract_value(value, root);
+        // The argument might be a value in this tree, which changes during removal.
+        const Payload value_to_remove(value);
+        auto v = extract_value(value_to_remove, root);
         if(v) {
             --num_values;
         }
-- 
2.43.0


From 696cf1dbf02e1cee3d9b2dccaacc1ebfaa2a4105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:10 +0000
Subject: [PATCH 20/92] fix: Bytes::back returns the last byte

---
 src/pystd2025.cpp | 2 +-
 src/pystd2026.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index e2e6090..66d0f64 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -326,7 +326,7 @@ char Bytes::back() const {
     if(is_empty()) {
         throw PyException("Buffer underrun.");
     }
-    auto result = buf[buf.size_bytes() - 1];
+    auto result = buf[bufsize - 1];
     return result;
 }
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 8773cc9..58b4fb3 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -337,7 +337,7 @@ char Bytes::back() const {
     if(is_empty()) {
         throw PyException("Buffer underrun.");
     }
-    auto result = buf[buf.size_bytes() - 1];
+    auto result = buf[bufsize - 1];
     return result;
 }
 
-- 
2.43.0


From a16caca9475962bd6e4d6ecd9cf3db09a7241f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:10 +0000
Subject: [PATCH 21/92] fix: Bytes::pop_front can empty the buffer and moves
 only its content

---
 src/pystd2025.cpp | 3 ++-
 src/pystd2026.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 66d0f64..4257f09 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -231,8 +231,9 @@ void Bytes::pop_back(size_t num) {
 void Bytes::pop_front(size_t num) {
     if(num >= bufsize) {
         clear();
+        return;
     }
-    memmove(buf.get(), buf.get() + num, buf.size() - num);
+    memmove(buf.get(), buf.get() + num, bufsize - num);
     bufsize -= num;
 }
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 58b4fb3..730533e 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -242,8 +242,9 @@ void Bytes::pop_back(size_t num) {
 void Bytes::pop_front(size_t num) {
     if(num >= bufsize) {
         clear();
+        return;
     }
-    memmove(buf.get(), buf.get() + num, buf.size() - num);
+    memmove(buf.get(), buf.get() + num, bufsize - num);
     bufsize -= num;
 }
 
-- 
2.43.0


From 9a6f03c66cc4fc599987531371ad0c63a7f48713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:10 +0000
Subject: [PATCH 22/92] fix: Bytes::operator< is a lexicographic order of
 unsigned bytes

---
 include/pystd2025.hpp | 6 +++---
 include/pystd2026.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index a358f40..1a02a1a 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -812,12 +812,12 @@ public:
     bool operator<(const Bytes &o) const {
         const auto num_its = bufsize < o.bufsize ? bufsize : o.bufsize;
         for(size_t i = 0; i < num_its; ++i) {
-            const auto &c1 = buf[i];
-            const auto &c2 = o.buf[i];
+            const auto c1 = (unsigned char)buf[i];
+            const auto c2 = (unsigned char)o.buf[i];
             if(c1 < c2) {
                 return true;
             }
-            if(c2 > c1) {
+            if(c1 > c2) {
                 return false;
             }
         }
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 231bd5f..4a251f4 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -961,7 +961,7 @@ public:
             if(c1 < c2) {
                 return true;
             }
-            if(c2 > c1) {
+            if(c1 > c2) {
                 return false;
             }
         }
-- 
2.43.0


From d39d88175b182b81a698612b267cc3a0417c8593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:10 +0000
Subject: [PATCH 23/92] fix: Bytes::remove checks its range

---
 src/pystd2025.cpp | 2 +-
 src/pystd2026.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 4257f09..37f1e8b 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -332,7 +332,7 @@ char Bytes::back() const {
 }
 
 void Bytes::remove(size_t from, size_t to) {
-    if(from > to) {
+    if(from > to || to > bufsize) {
         throw PyException("Invalid sequence to remove.");
     }
     if(from == to) {
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 730533e..63b9c3a 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -343,7 +343,7 @@ char Bytes::back() const {
 }
 
 void Bytes::remove(size_t from, size_t to) {
-    if(from > to) {
+    if(from > to || to > bufsize) {
         throw PyException("Invalid sequence to remove.");
     }
     if(from == to) {
-- 
2.43.0


From 971e5758f5526d1c1b2e57c9a31dc26bf97d0154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:10 +0000
Subject: [PATCH 24/92] fix: Bytes can be appended, assigned and inserted from
 its own content

---
 src/pystd2025.cpp | 17 +++++++++++++++--
 src/pystd2026.cpp | 17 +++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 37f1e8b..89029ee 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -197,6 +197,11 @@ Bytes::Bytes(const Bytes &o) noexcept
 }
 
 void Bytes::assign(const char *buf_in, size_t in_size) {
+    if(is_ptr_within(buf_in)) {
+        Bytes tmp(buf_in, in_size);
+        assign(tmp.data(), tmp.size());
+        return;
+    }
     bufsize = 0;
     grow_to(in_size + 1);               // Prepare for the eventual null terminator.
     memcpy(buf.get(), buf_in, in_size); // str might not be null terminated.
@@ -207,8 +212,11 @@ void Bytes::insert(size_t i, const char *buf_in, size_t in_size) {
     if(i >= bufsize) {
         throw PyException("Invalid index for insert.");
     }
-    // FIXME
-    assert(!is_ptr_within(buf_in));
+    if(is_ptr_within(buf_in)) {
+        Bytes tmp(buf_in, in_size);
+        insert(i, tmp.data(), tmp.size());
+        return;
+    }
     auto new_size = bufsize + in_size;
     grow_to(new_size);
     auto splice_point = buf.get() + i;
@@ -266,6 +274,11 @@ void Bytes::append(const char c) {
 }
 
 void Bytes::append(const char *begin, const char *end) {
+    if(is_ptr_within(begin)) {
+        Bytes tmp(begin, end);
+        append(tmp.data(), tmp.data() + tmp.size());
+        return;
+    }
     while(begin != end) {
         append(*begin);
         ++begin;
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 63b9c3a..7251889 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -208,6 +208,11 @@ Bytes::Bytes(const Bytes &o) noexcept
 }
 
 void Bytes::assign(const char *buf_in, size_t in_size) {
+    if(is_ptr_within(buf_in)) {
+        Bytes tmp(buf_in, in_size);
+        assign(tmp.data(), tmp.size());
+        return;
+    }
     bufsize = 0;
     grow_to(in_size + 1);               // Prepare for the eventual null terminator.
     memcpy(buf.get(), buf_in, in_size); // str might not be null terminated.
@@ -218,8 +223,11 @@ void Bytes::insert(size_t i, const char *buf_in, size_t in_size) {
     if(i >= bufsize) {
         throw PyException("Invalid index for insert.");
     }
-    // FIXME
-    assert(!is_ptr_within(buf_in));
+    if(is_ptr_within(buf_in)) {
+        Bytes tmp(buf_in, in_size);
+        insert(i, tmp.data(), tmp.size());
+        return;
+    }
     auto new_size = bufsize + in_size;
     grow_to(new_size);
     auto splice_point = buf.get() + i;
@@ -277,6 +285,11 @@ void Bytes::append(const char c) {
 }
 
 void Bytes::append(const char *begin, const char *end) {
+    if(is_ptr_within(begin)) {
+        Bytes tmp(begin, end);
+        append(tmp.data(), tmp.data() + tmp.size());
+        return;
+    }
     while(begin != end) {
         append(*begin);
         ++begin;
-- 
2.43.0


From f6e702b62dcdc27c7f4b157798d9e08d2431c43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:58 +0000
Subject: [PATCH 25/92] fix: CString::clear keeps the terminator

---
 include/pystd2025.hpp | 5 ++++-
 include/pystd2026.hpp | 5 ++++-
 src/pystd2025.cpp     | 1 -
 src/pystd2026.cpp     | 1 -
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 1a02a1a..7101e27 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1464,7 +1464,10 @@ public:
     size_t size() const;
     size_t length() const { return size(); }
 
-    void clear() noexcept { bytes.clear(); }
+    void clear() noexcept {
+        bytes.clear();
+        bytes.append('\0');
+    }
 
     CString substr(size_t offset, size_t length = -1) const;
 
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 4a251f4..a4b67fb 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1723,7 +1723,10 @@ public:
     size_t size() const;
     size_t length() const { return size(); }
 
-    void clear() noexcept { bytes.clear(); }
+    void clear() noexcept {
+        bytes.clear();
+        bytes.append('\0');
+    }
 
     CString substr(size_t offset, size_t length = -1) const;
 
diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 89029ee..2a86704 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -687,7 +687,6 @@ CString &CString::operator+=(const char *str) {
 
 CString &CString::operator=(const char *str) {
     CStringView tmp(str);
-    clear();
     (*this) = tmp;
     return *this;
 }
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 7251889..45935dc 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -770,7 +770,6 @@ CString &CString::operator+=(const char *str) {
 
 CString &CString::operator=(const char *str) {
     CStringView tmp(str);
-    clear();
     (*this) = tmp;
     return *this;
 }
-- 
2.43.0


From c129e04837e5ebb36d8e94b7337ba15316ed0307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:58 +0000
Subject: [PATCH 26/92] fix: CString::operator+= rejects a zero byte

---
 src/pystd2025.cpp | 4 +---
 src/pystd2026.cpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 2a86704..ce32a4c 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -673,9 +673,7 @@ CString &CString::operator+=(const CString &o) {
 }
 
 CString &CString::operator+=(char c) {
-    bytes.pop_back();
-    bytes.append(c);
-    bytes.append('\0');
+    append(c);
     return *this;
 }
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 45935dc..c8a5433 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -756,9 +756,7 @@ CString &CString::operator+=(const CString &o) {
 }
 
 CString &CString::operator+=(char c) {
-    bytes.pop_back();
-    bytes.append(c);
-    bytes.append('\0');
+    append(c);
     return *this;
 }
 
-- 
2.43.0


From 6b1f484348c8e7b6f8df58981dfe88e55f8311f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:58 +0000
Subject: [PATCH 27/92] fix: CString::insert reports an invalid position

---
 include/pystd2025.hpp | 2 +-
 include/pystd2026.hpp | 2 +-
 src/pystd2025.cpp     | 2 +-
 src/pystd2026.cpp     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 7101e27..6415bb7 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1521,7 +1521,7 @@ public:
     void pop_back() noexcept;
     void push_back(const char c) noexcept { append(c); }
 
-    void insert(size_t i, const CStringView &v) noexcept;
+    void insert(size_t i, const CStringView &v);
 
     size_t find(CStringView substr) const;
 
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index a4b67fb..1a1e714 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1784,7 +1784,7 @@ public:
     void pop_back() noexcept;
     void push_back(const char c) noexcept { append(c); }
 
-    void insert(size_t i, const CStringView &v) noexcept;
+    void insert(size_t i, const CStringView &v);
 
     size_t find(CStringView substr) const;
 
diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index ce32a4c..48a4adf 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -726,7 +726,7 @@ void CString::pop_back() noexcept {
     bytes.append('\0');
 }
 
-void CString::insert(size_t i, const CStringView &v) noexcept {
+void CString::insert(size_t i, const CStringView &v) {
     if(view_points_to_this(v)) {
         CString string_copy(v);
         insert(i, string_copy.view());
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index c8a5433..7589cb9 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -817,7 +817,7 @@ void CString::pop_back() noexcept {
     bytes.append('\0');
 }
 
-void CString::insert(size_t i, const CStringView &v) noexcept {
+void CString::insert(size_t i, const CStringView &v) {
     if(view_points_to_this(v)) {
         CString string_copy(v);
         insert(i, string_copy.view());
-- 
2.43.0


From 2941d934fbc292bf0ea1caf3f8b27307276503ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:58 +0000
Subject: [PATCH 28/92] fix: CString::resize keeps the terminator

---
 include/pystd2025.hpp | 2 +-
 include/pystd2026.hpp | 2 +-
 src/pystd2025.cpp     | 5 +++++
 src/pystd2026.cpp     | 5 +++++
 4 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 6415bb7..7eb4af4 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1529,7 +1529,7 @@ public:
 
     void reserve(size_t new_size) noexcept { bytes.reserve(new_size); }
 
-    void resize(size_t new_size) noexcept { bytes.resize(new_size); }
+    void resize(size_t new_size) noexcept;
 
     void remove(size_t from, size_t to) { bytes.remove(from, to); }
 
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 1a1e714..ea4149f 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1792,7 +1792,7 @@ public:
 
     void reserve(size_t new_size) noexcept { bytes.reserve(new_size); }
 
-    void resize(size_t new_size) noexcept { bytes.resize(new_size); }
+    void resize(size_t new_size) noexcept;
 
     void remove(size_t from, size_t to) { bytes.remove(from, to); }
 
diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 48a4adf..cbd8b2c 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -720,6 +720,11 @@ char CString::back() const {
     return last_char;
 }
 
+void CString::resize(size_t new_size) noexcept {
+    bytes.resize(new_size + 1);
+    bytes.data()[new_size] = '\0';
+}
+
 void CString::pop_back() noexcept {
     bytes.pop_back();
     bytes.pop_back();
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 7589cb9..f8e5f4c 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -811,6 +811,11 @@ char CString::back() const {
     return last_char;
 }
 
+void CString::resize(size_t new_size) noexcept {
+    bytes.resize(new_size + 1);
+    bytes.data()[new_size] = '\0';
+}
+
 void CString::pop_back() noexcept {
     bytes.pop_back();
     bytes.pop_back();
-- 
2.43.0


From 865fb0bcdc6ed8012270dd256b94cfad34ee99f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:58 +0000
Subject: [PATCH 29/92] fix: CString::remove does not remove the terminator

---
 include/pystd2025.hpp | 2 +-
 include/pystd2026.hpp | 2 +-
 src/pystd2025.cpp     | 7 +++++++
 src/pystd2026.cpp     | 7 +++++++
 4 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 7eb4af4..3f142aa 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1531,7 +1531,7 @@ public:
 
     void resize(size_t new_size) noexcept;
 
-    void remove(size_t from, size_t to) { bytes.remove(from, to); }
+    void remove(size_t from, size_t to);
 
     CString upper() const noexcept { return view().upper(); }
     CString lower() const noexcept { return view().lower(); }
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index ea4149f..24d538e 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1794,7 +1794,7 @@ public:
 
     void resize(size_t new_size) noexcept;
 
-    void remove(size_t from, size_t to) { bytes.remove(from, to); }
+    void remove(size_t from, size_t to);
 
     CString upper() const noexcept { return view().upper(); }
     CString lower() const noexcept { return view().lower(); }
diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index cbd8b2c..98716ea 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -725,6 +725,13 @@ void CString::resize(size_t new_size) noexcept {
     bytes.data()[new_size] = '\0';
 }
 
+void CString::remove(size_t from, size_t to) {
+    if(to > size()) {
+        throw PyException("Invalid sequence to remove.");
+    }
+    bytes.remove(from, to);
+}
+
 void CString::pop_back() noexcept {
     bytes.pop_back();
     bytes.pop_back();
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index f8e5f4c..8365a5c 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -816,6 +816,13 @@ void CString::resize(size_t new_size) noexcept {
     bytes.data()[new_size] = '\0';
 }
 
+void CString::remove(size_t from, size_t to) {
+    if(to > size()) {
+        throw PyException("Invalid sequence to remove.");
+    }
+    bytes.remove(from, to);
+}
+
 void CString::pop_back() noexcept {
     bytes.pop_back();
     bytes.pop_back();
-- 
2.43.0


From c804e23c1416f2885380c997acb078893488caf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:58 +0000
Subject: [PATCH 30/92] fix: CString::append from its own content

---
 src/pystd2025.cpp | 5 +++++
 src/pystd2026.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 98716ea..b7e7b9f 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -702,6 +702,11 @@ void CString::append(const char *str, size_t strsize) {
     if(strsize == (size_t)-1) {
         strsize = strlen(str);
     }
+    if(bytes.is_ptr_within(str)) {
+        CString copy(str, strsize);
+        append(copy.c_str(), copy.size());
+        return;
+    }
     for(size_t i = 0; i < strsize; ++i) {
         // FIXME, slow.
         append(str[i]);
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 8365a5c..e3d95af 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -785,6 +785,11 @@ void CString::append(const char *str, size_t strsize) {
     if(strsize == (size_t)-1) {
         strsize = strlen(str);
     }
+    if(bytes.is_ptr_within(str)) {
+        CString copy(str, strsize);
+        append(copy.c_str(), copy.size());
+        return;
+    }
     for(size_t i = 0; i < strsize; ++i) {
         // FIXME, slow.
         append(str[i]);
-- 
2.43.0


From 96061a94223a2b52b97519af0653ba83cbdf2e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:58 +0000
Subject: [PATCH 31/92] fix: CString can be copy assigned

---
 src/pystd2025.cpp | 2 ++
 src/pystd2026.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index b7e7b9f..8944bbe 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -661,6 +661,8 @@ bool CString::operator==(const char *str) const { return strcmp(str, c_str()) ==
 
 bool CString::operator==(const CStringView &o) const { return this->view() == o; }
 
+void CString::operator=(const CString &o) noexcept { bytes = o.bytes; }
+
 CString &CString::operator+=(const CString &o) {
     if(this == &o) {
         // FIXME make fast.
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index e3d95af..a915157 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -744,6 +744,8 @@ bool CString::operator==(const char *str) const { return strcmp(str, c_str()) ==
 
 bool CString::operator==(const CStringView &o) const { return this->view() == o; }
 
+void CString::operator=(const CString &o) noexcept { bytes = o.bytes; }
+
 CString &CString::operator+=(const CString &o) {
     if(this == &o) {
         // FIXME make fast.
-- 
2.43.0


From a151d8d70253d9d4ae358c59d5d3f2139d0a2b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:21 +0000
Subject: [PATCH 32/92] fix: ZStringView without a size measures its text

---
 include/pystd2026.hpp | 2 +-
 src/pystd2026.cpp     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 24d538e..2868cee 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1685,7 +1685,7 @@ public:
     size_t size() const noexcept { return bufsize; }
 
     bool operator==(const char *text) const noexcept;
-    bool operator==(const ZStringView &other) const noexcept { return *this == other.c_str(); }
+    bool operator==(const ZStringView &other) const noexcept { return view() == other.view(); }
 
     // Only the right half, because the result has to be
     // null terminated.
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index a915157..e0db6ca 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -616,7 +616,7 @@ ZStringView::ZStringView(const char *original, size_t original_size) noexcept {
     if(original == nullptr) {
         buf = nullptr;
         bufsize = 0;
-    } else if(bufsize == (size_t)-1) {
+    } else if(original_size == (size_t)-1) {
         buf = original;
         bufsize = strlen(original);
     } else {
@@ -808,7 +808,7 @@ ZStringView CString::zview() const {
     return ZStringView{bytes.data()};
 }
 
-bool ZStringView::operator==(const char *text) const noexcept { return strcmp(buf, text) == 0; }
+bool ZStringView::operator==(const char *text) const noexcept { return view() == text; }
 
 char CString::back() const {
     if(bytes.size() < 2) {
-- 
2.43.0


From 1d28cba69540a250f2f1114befeb4289a5065de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:21 +0000
Subject: [PATCH 33/92] fix: CStringView::starts_with compares only the prefix

---
 src/pystd2025.cpp | 2 +-
 src/pystd2026.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 8944bbe..0f3ad52 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -428,7 +428,7 @@ bool CStringView::starts_with(CStringView view) const {
     if(view.size() > size()) {
         return false;
     }
-    for(size_t i = 0; i < bufsize; ++i) {
+    for(size_t i = 0; i < view.size(); ++i) {
         if(view[i] != buf[i]) {
             return false;
         }
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index e0db6ca..f5d00ac 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -439,7 +439,7 @@ bool CStringView::starts_with(CStringView view) const {
     if(view.size() > size()) {
         return false;
     }
-    for(size_t i = 0; i < bufsize; ++i) {
+    for(size_t i = 0; i < view.size(); ++i) {
         if(view[i] != buf[i]) {
             return false;
         }
-- 
2.43.0


From d2eb6144f5d3a741bcc13182e819796342398da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:21 +0000
Subject: [PATCH 34/92] fix: CStringView::find finds a match at the end

---
 src/pystd2025.cpp | 2 +-
 src/pystd2026.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 0f3ad52..7a19b19 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -462,7 +462,7 @@ size_t CStringView::find(CStringView substr) const {
     if(substr.size() > size()) {
         return -1;
     }
-    for(size_t start = 0; start < size() - substr.size(); ++start) {
+    for(size_t start = 0; start <= size() - substr.size(); ++start) {
         bool has_mismatch = false;
         for(size_t i = 0; i < substr.size(); ++i) {
             if(buf[start + i] != substr.buf[i]) {
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index f5d00ac..7048733 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -473,7 +473,7 @@ size_t CStringView::find(CStringView substr) const {
     if(substr.size() > size()) {
         return -1;
     }
-    for(size_t start = 0; start < size() - substr.size(); ++start) {
+    for(size_t start = 0; start <= size() - substr.size(); ++start) {
         bool has_mismatch = false;
         for(size_t i = 0; i < substr.size(); ++i) {
             if(buf[start + i] != substr.buf[i]) {
-- 
2.43.0


From 21a35a5a24831e671b2fbeb7e924b15c70a23f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:21 +0000
Subject: [PATCH 35/92] fix: CStringView indexing stays inside the view

---
 include/pystd2025.hpp | 2 +-
 include/pystd2026.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 3f142aa..2cb327a 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1412,7 +1412,7 @@ public:
     CStringView substr(size_t pos = 0, size_t count = (size_t)-1) const;
 
     char operator[](size_t index) const {
-        if(!buf || index > bufsize) {
+        if(!buf || index >= bufsize) {
             bootstrap_throw("OOB in CStringView.");
         }
         return buf[index];
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 2868cee..2346f71 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1635,7 +1635,7 @@ public:
     CStringView substr(size_t pos = 0, size_t count = (size_t)-1) const;
 
     char operator[](size_t index) const {
-        if(!buf || index > bufsize) {
+        if(!buf || index >= bufsize) {
             bootstrap_throw("OOB in CStringView.");
         }
         return buf[index];
-- 
2.43.0


From 75b24b06a072c3e41bc0cba2743e9eeac9ecab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:21 +0000
Subject: [PATCH 36/92] fix: CStringView::substr with a huge count stays inside
 the view

---
 src/pystd2025.cpp | 2 +-
 src/pystd2026.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 7a19b19..2d8fdda 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -452,7 +452,7 @@ CStringView CStringView::substr(size_t pos, size_t count) const {
     size_t actual_count = count;
     if(count == (size_t)-1) {
         actual_count = bufsize - pos;
-    } else if(pos + count > bufsize) {
+    } else if(count > bufsize - pos) {
         actual_count = bufsize - pos;
     }
     return CStringView(buf + pos, actual_count);
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 7048733..236ea7a 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -463,7 +463,7 @@ CStringView CStringView::substr(size_t pos, size_t count) const {
     size_t actual_count = count;
     if(count == (size_t)-1) {
         actual_count = bufsize - pos;
-    } else if(pos + count > bufsize) {
+    } else if(count > bufsize - pos) {
         actual_count = bufsize - pos;
     }
     return CStringView(buf + pos, actual_count);
-- 
2.43.0


From 3d5a44974e882906b316b686a80700bb41082b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:21 +0000
Subject: [PATCH 37/92] fix: adjacent string views do not overlap

---
 src/pystd2025.cpp | 4 ++--
 src/pystd2026.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 2d8fdda..81a330c 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -495,10 +495,10 @@ bool CStringView::overlaps(CStringView &other) const {
     const auto s2 = other.buf;
     const auto e2 = other.buf + other.bufsize;
 
-    if(e2 < s1) {
+    if(e2 <= s1) {
         return false;
     }
-    if(e1 < s2) {
+    if(e1 <= s2) {
         return false;
     }
     return true;
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 236ea7a..5c6f747 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -506,10 +506,10 @@ bool CStringView::overlaps(CStringView &other) const {
     const auto s2 = other.buf;
     const auto e2 = other.buf + other.bufsize;
 
-    if(e2 < s1) {
+    if(e2 <= s1) {
         return false;
     }
-    if(e1 < s2) {
+    if(e1 <= s2) {
         return false;
     }
     return true;
-- 
2.43.0


From 7b921b1ee277658b2113d9396f68151f401c06bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:21 +0000
Subject: [PATCH 38/92] fix: CStringView::front reports an empty view like
 other errors

---
 src/pystd2025.cpp | 2 +-
 src/pystd2026.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 81a330c..df4d297 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -407,7 +407,7 @@ bool CStringView::operator==(CStringView o) const {
 
 char CStringView::front() const {
     if(is_empty()) {
-        throw "Front requested on empty string.";
+        throw PyException("Front requested on empty string.");
     }
     return buf[0];
 }
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 5c6f747..1ed7b99 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -418,7 +418,7 @@ bool CStringView::operator==(CStringView o) const {
 
 char CStringView::front() const {
     if(is_empty()) {
-        throw "Front requested on empty string.";
+        throw PyException("Front requested on empty string.");
     }
     return buf[0];
 }
-- 
2.43.0


From 3010e6fed56656d81f0077ae190fcad731ae0840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:21 +0000
Subject: [PATCH 39/92] fix: CString::substr validates its range

---
 src/pystd2025.cpp | 8 +++++---
 src/pystd2026.cpp | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index df4d297..524a893 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -584,10 +584,12 @@ size_t CString::size() const {
 }
 
 CString CString::substr(size_t offset, size_t length) const {
-    if(length == (size_t)-1) {
-        CString(c_str() + offset, size() - offset);
+    if(offset > size()) {
+        throw PyException("CString index out of bounds.");
+    }
+    if(length > size() - offset) {
+        length = size() - offset;
     }
-    // FIXME, validate range.
     return CString(c_str() + offset, length);
 }
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 1ed7b99..e84c35e 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -688,10 +688,12 @@ size_t CString::size() const {
 }
 
 CString CString::substr(size_t offset, size_t length) const {
-    if(length == (size_t)-1) {
-        CString(c_str() + offset, size() - offset);
+    if(offset > size()) {
+        throw PyException("CString index out of bounds.");
+    }
+    if(length > size() - offset) {
+        length = size() - offset;
     }
-    // FIXME, validate range.
     return CString(c_str() + offset, length);
 }
 
-- 
2.43.0


From 1cdb8c0eecb419951746a4e86459525abaaf4ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:21 +0000
Subject: [PATCH 40/92] fix: CString::rfind does not look at the terminator

---
 src/pystd2025.cpp | 6 +++---
 src/pystd2026.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 524a893..a165aa3 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -759,12 +759,12 @@ void CString::insert(size_t i, const CStringView &v) {
 size_t CString::find(CStringView substr) const { return view().find(substr); }
 
 size_t CString::rfind(const char c) const noexcept {
-    size_t i = bytes.size() - 1;
-    while(i != (size_t)-1) {
+    size_t i = size();
+    while(i > 0) {
+        --i;
         if(bytes[i] == c) {
             return i;
         }
-        --i;
     }
     return -1;
 }
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index e84c35e..a6306af 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -850,12 +850,12 @@ void CString::insert(size_t i, const CStringView &v) {
 size_t CString::find(CStringView substr) const { return view().find(substr); }
 
 size_t CString::rfind(const char c) const noexcept {
-    size_t i = bytes.size() - 1;
-    while(i != (size_t)-1) {
+    size_t i = size();
+    while(i > 0) {
+        --i;
         if(bytes[i] == c) {
             return i;
         }
-        --i;
     }
     return -1;
 }
-- 
2.43.0


From b79e0cd9225ae5fa8a4786f7d684797d5363610c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:21 +0000
Subject: [PATCH 41/92] fix: natural order compares digit runs by value

---
 src/pystd2026.cpp | 49 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index a6306af..3bcfbd5 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -534,6 +534,7 @@ CString CStringView::lower() const noexcept {
 }
 
 int CStringView::natural_order(const CStringView &o) const {
+    const auto is_digit = [](char c) { return c >= '0' && c <= '9'; };
     const char *left = buf;
     const char *right = o.buf;
     size_t i_left = 0;
@@ -550,33 +551,53 @@ int CStringView::natural_order(const CStringView &o) const {
         if(right_exhausted) {
             return 1;
         }
-        char *left_end;
-        char *right_end;
-        const auto left_int = strtoul(left + i_left, &left_end, 10);
-        const auto right_int = strtoul(right + i_left, &right_end, 10);
-        const bool left_has_num = (left + i_left) != left_end;
-        const bool right_has_num = (right + i_right) != right_end;
+        const bool left_has_num = is_digit(left[i_left]);
+        const bool right_has_num = is_digit(right[i_right]);
 
         if(left_has_num) {
             if(right_has_num) {
-                if(left_int < right_int) {
-                    return -1;
+                // Numbers can have any number of digits. Without leading
+                // zeros the longer one is greater.
+                while(i_left < bufsize && left[i_left] == '0') {
+                    ++i_left;
                 }
-                if(left_int > right_int) {
-                    return 1;
+                while(i_right < o.bufsize && right[i_right] == '0') {
+                    ++i_right;
+                }
+                int digit_order = 0;
+                while(true) {
+                    const bool left_digit = i_left < bufsize && is_digit(left[i_left]);
+                    const bool right_digit = i_right < o.bufsize && is_digit(right[i_right]);
+                    if(!left_digit && !right_digit) {
+                        break;
+                    }
+                    if(!left_digit) {
+                        return -1;
+                    }
+                    if(!right_digit) {
+                        return 1;
+                    }
+                    if(digit_order == 0 && left[i_left] != right[i_right]) {
+                        digit_order = left[i_left] < right[i_right] ? -1 : 1;
+                    }
+                    ++i_left;
+                    ++i_right;
+                }
+                if(digit_order != 0) {
+                    return digit_order;
                 }
-                i_left += left_end - (left + i_left);
-                i_right += right_end - (right + i_right);
             } else {
                 return -1;
             }
         } else if(right_has_num) {
             return 1;
         } else {
-            if(left[i_left] < right[i_right]) {
+            const auto left_char = (unsigned char)left[i_left];
+            const auto right_char = (unsigned char)right[i_right];
+            if(left_char < right_char) {
                 return -1;
             }
-            if(left[i_left] > right[i_right]) {
+            if(left_char > right_char) {
                 return 1;
             }
             ++i_left;
-- 
2.43.0


From 207fdcfe615cc46d52771bdb61d8858f616127b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:21 +0000
Subject: [PATCH 42/92] fix: FixedCString reads only the given length

---
 include/pystd2025.hpp | 3 ++-
 include/pystd2026.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 2cb327a..43a40e9 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1576,9 +1576,10 @@ public:
         if(length_in > BUF_SIZE) {
             bootstrap_throw("Input string too long for FixedCString.");
         }
-        for(size_t i = 0; i < length_in + 1; ++i) {
+        for(size_t i = 0; i < length_in; ++i) {
             buf[i] = str[i];
         }
+        buf[length_in] = '\0';
         strsize = length_in;
     }
 
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 2346f71..9a2c4fb 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1839,9 +1839,10 @@ public:
         if(length_in > BUF_SIZE) {
             bootstrap_throw("Input string too long for FixedCString.");
         }
-        for(size_t i = 0; i < length_in + 1; ++i) {
+        for(size_t i = 0; i < length_in; ++i) {
             buf[i] = str[i];
         }
+        buf[length_in] = '\0';
         strsize = length_in;
     }
 
-- 
2.43.0


From 6e8f99dff65ca5c8630285f934fde959ed6c4d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:46 +0000
Subject: [PATCH 43/92] fix: assigning a larger FixedCString reports text that
 does not fit

---
 include/pystd2025.hpp | 2 +-
 include/pystd2026.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 43a40e9..b11ac40 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1601,7 +1601,7 @@ public:
     }
 
     template<size_t OTHER_BUFSIZE>
-    FixedCString &operator=(const FixedCString<OTHER_BUFSIZE> &o) noexcept {
+    FixedCString &operator=(const FixedCString<OTHER_BUFSIZE> &o) {
         *this = o.view();
         return *this;
     }
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 9a2c4fb..23329ca 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1864,7 +1864,7 @@ public:
     }
 
     template<size_t OTHER_BUFSIZE>
-    FixedCString &operator=(const FixedCString<OTHER_BUFSIZE> &o) noexcept {
+    FixedCString &operator=(const FixedCString<OTHER_BUFSIZE> &o) {
         *this = o.view();
         return *this;
     }
-- 
2.43.0


From 8b638530093ec45ea715af62ae3fc7402888c7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:46 +0000
Subject: [PATCH 44/92] fix: a FixedCString can be assigned a prefix of itself

---
 include/pystd2025.hpp | 3 ---
 include/pystd2026.hpp | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index b11ac40..1aa058b 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1607,9 +1607,6 @@ public:
     }
 
     FixedCString &operator=(const CStringView &o) {
-        if(o.data() == buf) {
-            return *this;
-        }
         if(o.size() > BUF_SIZE) {
             bootstrap_throw("Input string too long for FixedCString.");
         }
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 23329ca..c27c475 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1870,9 +1870,6 @@ public:
     }
 
     FixedCString &operator=(const CStringView &o) {
-        if(o.data() == buf) {
-            return *this;
-        }
         if(o.size() > BUF_SIZE) {
             bootstrap_throw("Input string too long for FixedCString.");
         }
-- 
2.43.0


From b1997de6cc6cf4dc5c5329dbd6f07195a9f882a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:28 +0000
Subject: [PATCH 45/92] fix: UTF-8 validation refuses overlong forms,
 surrogates and values above U+10FFFF

---
 src/pystd2025.cpp | 10 +++++++++-
 src/pystd2026.cpp | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index a165aa3..0d87d26 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -57,7 +57,15 @@ bool is_valid_uf8_character(const char *input,
         unpacked |= subsequent & subsequent_data_mask;
     }
 
-    return true;
+    // Only the shortest encoding of a scalar value is valid.
+    const uint32_t smallest[4] = {0, 0x80, 0x800, 0x10000};
+    if(unpacked < smallest[par.num_subsequent_bytes]) {
+        return false;
+    }
+    if(unpacked >= 0xD800 && unpacked <= 0xDFFF) {
+        return false;
+    }
+    return unpacked <= 0x10FFFF;
 }
 
 bool is_valid_utf8(const char *input, size_t input_size) {
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 3bcfbd5..dc62d98 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -57,7 +57,15 @@ bool is_valid_uf8_character(const char *input,
         unpacked |= subsequent & subsequent_data_mask;
     }
 
-    return true;
+    // Only the shortest encoding of a scalar value is valid.
+    const uint32_t smallest[4] = {0, 0x80, 0x800, 0x10000};
+    if(unpacked < smallest[par.num_subsequent_bytes]) {
+        return false;
+    }
+    if(unpacked >= 0xD800 && unpacked <= 0xDFFF) {
+        return false;
+    }
+    return unpacked <= 0x10FFFF;
 }
 
 bool is_valid_utf8(const char *input, size_t input_size) {
-- 
2.43.0


From 96e0f978f3306fd192fb15a77c344bb1d4f36f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:28 +0000
Subject: [PATCH 46/92] fix: an exception made from a message that is not ASCII
 replaces the other bytes

---
 src/pystd2025.cpp | 2 +-
 src/pystd2026.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 0d87d26..c0f441e 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -1074,7 +1074,7 @@ PyException::PyException(const char *msg) : message("") {
     size_t offset = 0;
     while(msg[offset]) {
         auto c = msg[offset++];
-        if(c > 127) {
+        if((unsigned char)c > 127) {
             b.append('?');
         } else {
             b.append(c);
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index dc62d98..934e863 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1233,7 +1233,7 @@ PyException::PyException(const char *msg) : message("") {
     size_t offset = 0;
     while(msg[offset]) {
         auto c = msg[offset++];
-        if(c > 127) {
+        if((unsigned char)c > 127) {
             b.append('?');
         } else {
             b.append(c);
-- 
2.43.0


From 6032f0203c9916f7f1228784918a96e28e90f520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:28 +0000
Subject: [PATCH 47/92] fix: append_codepoint refuses values that can not be
 text

---
 src/pystd2025.cpp | 6 ++++++
 src/pystd2026.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index c0f441e..22bcfea 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -1032,6 +1032,12 @@ void U8String::pop_back() noexcept {
 
 void U8String::append_codepoint(uint32_t codepoint) {
     unsigned char buf[5] = {0, 0, 0, 0, 0};
+    if(codepoint == 0) {
+        throw PyException("Strings can not contain null characters.");
+    }
+    if(codepoint >= 0xD800 && codepoint <= 0xDFFF) {
+        throw PyException("Surrogates are not valid Unicode codepoints.");
+    }
     if(codepoint < 0x80) {
         buf[0] = codepoint;
     } else if(codepoint < 0x800) {
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 934e863..6a0cd07 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1191,6 +1191,12 @@ void U8String::pop_back() noexcept {
 
 void U8String::append_codepoint(uint32_t codepoint) {
     unsigned char buf[5] = {0, 0, 0, 0, 0};
+    if(codepoint == 0) {
+        throw PyException("Strings can not contain null characters.");
+    }
+    if(codepoint >= 0xD800 && codepoint <= 0xDFFF) {
+        throw PyException("Surrogates are not valid Unicode codepoints.");
+    }
     if(codepoint < 0x80) {
         buf[0] = codepoint;
     } else if(codepoint < 0x800) {
-- 
2.43.0


From ae047744919b2492a80030070b40ae2af4df0489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:27 +0000
Subject: [PATCH 48/92] fix: U8StringView compares equal to a literal with the
 same bytes

---
 src/pystd2025.cpp | 2 +-
 src/pystd2026.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 22bcfea..86291ed 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -891,7 +891,7 @@ bool U8StringView::operator==(const char *txt) const {
         if(data_start + i == data_end) {
             return txt[i] == '\0';
         }
-        if(data_start[i] != txt[i]) {
+        if(data_start[i] != (unsigned char)txt[i]) {
             return false;
         }
         ++i;
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 6a0cd07..e598b52 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1022,7 +1022,7 @@ bool U8StringView::operator==(const char *txt) const noexcept {
         if(data_start + i == data_end) {
             return txt[i] == '\0';
         }
-        if(data_start[i] != txt[i]) {
+        if(data_start[i] != (unsigned char)txt[i]) {
             return false;
         }
         ++i;
-- 
2.43.0


From 99ea7c9682d6dba84ed443d62d20c88269ec5a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:27 +0000
Subject: [PATCH 49/92] fix: U8String::substr validates its range

---
 src/pystd2025.cpp | 4 +++-
 src/pystd2026.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 86291ed..aeafa41 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -951,7 +951,9 @@ U8String::U8String(const char *txt, size_t txtsize) {
 }
 
 U8String U8String::substr(size_t offset, size_t length) const {
-    // FIXME, validate range.
+    if(offset > size_bytes() || length > size_bytes() - offset) {
+        throw PyException("OoB substring request in U8String.");
+    }
     return U8String(cstring.data() + offset, length);
 }
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index e598b52..c52d315 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1110,7 +1110,9 @@ U8String::U8String(const char *txt, size_t txtsize) {
 }
 
 U8String U8String::substr(size_t offset, size_t length) const {
-    // FIXME, validate range.
+    if(offset > size_bytes() || length > size_bytes() - offset) {
+        throw PyException("OoB substring request in U8String.");
+    }
     return U8String(cstring.data() + offset, length);
 }
 
-- 
2.43.0


From d52374be832c42a394970452e544a11794c85a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:27 +0000
Subject: [PATCH 50/92] fix: pystd2025 U8String can be made from an empty view

---
 src/pystd2025.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index aeafa41..2aa8368 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -934,7 +934,7 @@ U8String::U8String(Bytes incoming) {
 }
 
 U8String::U8String(const U8StringView &view) {
-    if(view.start.buf >= view.end.buf) {
+    if(view.start.buf > view.end.buf) {
         throw PyException("Invalid UTF-8 string view.");
     }
     cstring = CString((const char *)view.start.buf, view.end.buf - view.start.buf);
-- 
2.43.0


From 1b98d1a67fe2d3d6a5a1742985ad73af7c026ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:50 +0000
Subject: [PATCH 51/92] fix: the argparse, nth_element and radixsort headers
 can be included more than once

---
 include/pystd2026_argparse.hpp    | 2 ++
 include/pystd2026_nth_element.hpp | 2 ++
 include/pystd2026_radixsort.hpp   | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/include/pystd2026_argparse.hpp b/include/pystd2026_argparse.hpp
index 13a07ec..0af3903 100644
--- a/include/pystd2026_argparse.hpp
+++ b/include/pystd2026_argparse.hpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright 2025 Jussi Pakkanen
 
+#pragma once
+
 #include <pystd2026_variant.hpp>
 
 namespace pystd2026 {
diff --git a/include/pystd2026_nth_element.hpp b/include/pystd2026_nth_element.hpp
index 5af01fe..528d4c5 100644
--- a/include/pystd2026_nth_element.hpp
+++ b/include/pystd2026_nth_element.hpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright 2025 Jussi Pakkanen
 
+#pragma once
+
 #include <pystd2026.hpp>
 #include <pystd2026_heapsort.hpp>
 
diff --git a/include/pystd2026_radixsort.hpp b/include/pystd2026_radixsort.hpp
index 1fc389b..f81b023 100644
--- a/include/pystd2026_radixsort.hpp
+++ b/include/pystd2026_radixsort.hpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright 2025 Jussi Pakkanen
 
+#pragma once
+
 #include <pystd2026.hpp>
 
 namespace pystd2026 {
-- 
2.43.0


From eccc2d31fe8f4324282657e3cbaab7a1c48c8034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:50 +0000
Subject: [PATCH 52/92] fix: lower_bound of an empty range returns its end

---
 include/pystd2025.hpp | 2 +-
 include/pystd2026.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 1aa058b..5f6f8b8 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -3271,7 +3271,7 @@ template<WellBehaved T> void insertion_sort(Span<T> array) {
 
 template<typename It, typename Value, typename Callable>
 It lower_bound(It first, It last, const Value &value, const Callable &is_less) {
-    It it{};
+    It it = first;
     auto count = last - first;
     while(count > 0) {
         it = first;
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index c27c475..74d0f10 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2539,7 +2539,7 @@ template<typename T> struct FloatIgnoreNanComparator {
 
 template<BasicIterator It, typename Value, typename Comparator>
 It lower_bound(It first, It last, const Value &value, const Comparator &cmp) {
-    It it{};
+    It it = first;
     auto count = last - first;
     while(count > 0) {
         it = first;
-- 
2.43.0


From b7e33ca4788e85210216d8483b834aa24057db8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:50 +0000
Subject: [PATCH 53/92] fix: introsort skips only elements that are equivalent
 to the pivot

---
 include/pystd2026_introsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_introsort.hpp b/include/pystd2026_introsort.hpp
index 71cad8a..3c0d1f6 100644
--- a/include/pystd2026_introsort.hpp
+++ b/include/pystd2026_introsort.hpp
@@ -119,7 +119,7 @@ void do_introsort(It begin,
     // Equal values adjacent to the pivot are also in their correct locations.
     // Most are in the right half as the partition critarion was <.
     // Gobble up as many as we can.
-    while(right_begin < right_end && (*right_begin == *last_value_point)) {
+    while(right_begin < right_end && cmp.compare(*right_begin, *last_value_point) == 0) {
         ++right_begin;
     }
 
-- 
2.43.0


From 82c75bbfe64eab178898a45702773bb0e70bcb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:50 +0000
Subject: [PATCH 54/92] fix: insertion sort with a sentinel accepts an empty
 range

---
 include/pystd2026.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 74d0f10..620aa55 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2696,6 +2696,9 @@ constexpr size_t insertion_sort_limit =
 template<BasicIterator It, typename Comparator>
 void insertion_sort_has_sentinel(It begin, It end, const Comparator &cmp) {
     using ValueType = ::pystd2026::remove_reference_t<decltype(*begin)>;
+    if(begin == end) {
+        return;
+    }
     // This should be faster, but according to measurements it is not.
     constexpr bool is_cheap_to_copy = false;
     // ::pystd2026::is_integral_v<ValueType> || ::pystd2026::is_floating_point_v<ValueType>;
-- 
2.43.0


From aa7369fc895c7ed95379dfa8c63cb5ad759afc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:50 +0000
Subject: [PATCH 55/92] fix: shell sort uses its comparator

---
 include/pystd2026_shellsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_shellsort.hpp b/include/pystd2026_shellsort.hpp
index abf2b52..d88ede2 100644
--- a/include/pystd2026_shellsort.hpp
+++ b/include/pystd2026_shellsort.hpp
@@ -15,7 +15,7 @@ void shell_sort_single_iteration(It begin, It end, const size_t gap, const Compa
     for(size_t i = gap; i < buf_size; ++i) {
         size_t j = i;
         scratch = ::pystd2026::move(*(begin + i));
-        for(; (j >= gap) && (*(begin + j - gap) > scratch); j -= gap) {
+        for(; (j >= gap) && (cmp.compare(*(begin + j - gap), scratch) > 0); j -= gap) {
             *(begin + j) = ::pystd2026::move(*(begin + j - gap));
         }
         *(begin + j) = ::pystd2026::move(scratch);
-- 
2.43.0


From 938ad689901cd48ad03f3d7f571d6aa28d6969e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:50 +0000
Subject: [PATCH 56/92] fix: bucket sort counts elements in size_t

---
 include/pystd2026_bucketsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_bucketsort.hpp b/include/pystd2026_bucketsort.hpp
index 8cec2e5..a319d61 100644
--- a/include/pystd2026_bucketsort.hpp
+++ b/include/pystd2026_bucketsort.hpp
@@ -25,7 +25,7 @@ template<BasicIterator It> void do_bucketsort(It begin, It end, size_t round) {
     const ValueType SHIFT = (MAX_ROUNDS - round - 1) * 8;
     const ValueType MASK = 0xFF;
     const size_t NUM_BUCKETS = 256;
-    ValueType counts[NUM_BUCKETS];
+    size_t counts[NUM_BUCKETS];
     size_t offsets[NUM_BUCKETS + 1];
     size_t next_free[NUM_BUCKETS + 1];
 
-- 
2.43.0


From 08ed0cb4774d611d379f7c7beea26e969f33490a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:50 +0000
Subject: [PATCH 57/92] fix: radix sort handles 64 bit values and stops after
 the last bit

---
 include/pystd2026_radixsort.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026_radixsort.hpp b/include/pystd2026_radixsort.hpp
index f81b023..c985db4 100644
--- a/include/pystd2026_radixsort.hpp
+++ b/include/pystd2026_radixsort.hpp
@@ -11,7 +11,7 @@ template<WellBehaved ValueType, BasicIterator It>
 void do_radix_sort(It begin, It end, const ValueType needs_processing_mask, const size_t round) {
     const ssize_t INSERTION_SORT_LIMIT = ::pystd2026::insertion_sort_limit<ValueType>;
     const auto num_bits = sizeof(ValueType) * 8;
-    const ValueType sort_bit = (1 << (num_bits - 1 - (ValueType)round));
+    const ValueType sort_bit = (ValueType)((ValueType)1 << (num_bits - 1 - round));
 
     if(end - begin < INSERTION_SORT_LIMIT) {
         ::pystd2026::insertion_sort(begin, end);
@@ -19,7 +19,9 @@ void do_radix_sort(It begin, It end, const ValueType needs_processing_mask, cons
     }
 
     if(!(needs_processing_mask & sort_bit)) {
-        do_radix_sort(begin, end, needs_processing_mask, round + 1);
+        if(sort_bit != 1) {
+            do_radix_sort(begin, end, needs_processing_mask, round + 1);
+        }
         return;
     }
     const auto picker = [sort_bit](const ValueType &v) -> bool { return !(v & sort_bit); };
-- 
2.43.0


From 44bc1822915bbf35721bdee3964b71f00f4ede66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:50 +0000
Subject: [PATCH 58/92] fix: nth_element of a span without a comparator
 compiles

---
 include/pystd2026_nth_element.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_nth_element.hpp b/include/pystd2026_nth_element.hpp
index 528d4c5..34d186b 100644
--- a/include/pystd2026_nth_element.hpp
+++ b/include/pystd2026_nth_element.hpp
@@ -104,7 +104,7 @@ size_t nth_element(::pystd2026::Span<ValueType> span, const size_t nth, const Co
 
 template<WellBehaved ValueType>
 size_t nth_element(::pystd2026::Span<ValueType> span, const size_t nth) {
-    return ::pystd2026::nth_element(span, span, nth, DefaultComparator<ValueType>{});
+    return ::pystd2026::nth_element(span, nth, DefaultComparator<ValueType>{});
 }
 
 } // namespace pystd2026
-- 
2.43.0


From 00be263c1601212870dc29afe41c7d8b5d0535c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:50 +0000
Subject: [PATCH 59/92] fix: stable_partition can be called with a span

---
 include/pystd2026_stablepartition.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_stablepartition.hpp b/include/pystd2026_stablepartition.hpp
index b1fed0c..2e7c5b6 100644
--- a/include/pystd2026_stablepartition.hpp
+++ b/include/pystd2026_stablepartition.hpp
@@ -31,7 +31,7 @@ It stable_partition(It begin, It end, const Predicate &pred) {
     }
 }
 
-template<BasicIterator It, WellBehaved ValueType, typename Predicate>
+template<WellBehaved ValueType, typename Predicate>
 size_t stable_partition(::pystd2026::Span<ValueType> span, const Predicate &pred) {
     return stable_partition(span.begin(), span.end(), pred) - span.begin();
 }
-- 
2.43.0


From 215f0ab1af0dce3bf2fdf973840c76a2da8d4fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:50 +0000
Subject: [PATCH 60/92] fix: heapsort and mergesort accept iterators that are
 not pointers

---
 include/pystd2026_heapsort.hpp  |  4 ++--
 include/pystd2026_mergesort.hpp | 10 +++++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/pystd2026_heapsort.hpp b/include/pystd2026_heapsort.hpp
index 3912495..a67988c 100644
--- a/include/pystd2026_heapsort.hpp
+++ b/include/pystd2026_heapsort.hpp
@@ -59,10 +59,10 @@ void heapify(const HeapInfo<It> &hi, It loc, const Comparator &cmp) {
     ::pystd2026::Optional<It> left = hi.left_child(loc);
     auto right = hi.right_child(loc);
     It largest = loc;
-    if(left && cmp.compare(*left, *loc) > 0) {
+    if(left && cmp.compare(*left.value(), *loc) > 0) {
         largest = left.value();
     }
-    if(right && cmp.compare(*right, *largest) > 0) {
+    if(right && cmp.compare(*right.value(), *largest) > 0) {
         largest = right.value();
     }
 
diff --git a/include/pystd2026_mergesort.hpp b/include/pystd2026_mergesort.hpp
index 4934a25..03e2efe 100644
--- a/include/pystd2026_mergesort.hpp
+++ b/include/pystd2026_mergesort.hpp
@@ -18,9 +18,13 @@ template<BasicIterator It> void debug_printf(const It begin, const It end, const
     }
 }
 
-template<BasicIterator It, BasicIterator ItOut, typename Comparator>
-void merge_pass(
-    It left_begin, It left_end, It right_begin, It right_end, ItOut output, const Comparator &cmp) {
+template<BasicIterator ItLeft, BasicIterator ItRight, BasicIterator ItOut, typename Comparator>
+void merge_pass(ItLeft left_begin,
+                ItLeft left_end,
+                ItRight right_begin,
+                ItRight right_end,
+                ItOut output,
+                const Comparator &cmp) {
     while(true) {
         if(left_begin == left_end) {
             while(right_begin != right_end) {
-- 
2.43.0


From 51742953382c6377fda4f63c84aa954f9048c582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:52 +0000
Subject: [PATCH 61/92] fix: signed char is an integral type

---
 include/pystd2026.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 620aa55..18ef0f0 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -128,6 +128,7 @@ template<class T> constexpr bool is_floating_point_v = is_floating_point<T>::val
 template<class T> struct is_integral_base : ::pystd2026::false_type {};
 template<> struct is_integral_base<bool> : ::pystd2026::true_type {};
 template<> struct is_integral_base<char> : ::pystd2026::true_type {};
+template<> struct is_integral_base<signed char> : ::pystd2026::true_type {};
 template<> struct is_integral_base<short> : ::pystd2026::true_type {};
 template<> struct is_integral_base<int> : ::pystd2026::true_type {};
 template<> struct is_integral_base<long> : ::pystd2026::true_type {};
-- 
2.43.0


From 90b4a5a51911737bd1e1806aab83686f38b94096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 62/92] fix: a regex group number past the last group is
 refused

---
 src/pystd2025_regex.cpp | 2 +-
 src/pystd2026_regex.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025_regex.cpp b/src/pystd2025_regex.cpp
index 539c3bb..678c5ea 100644
--- a/src/pystd2025_regex.cpp
+++ b/src/pystd2025_regex.cpp
@@ -59,7 +59,7 @@ size_t U8Match::num_groups() const {
 
 U8StringView U8Match::group(size_t group_num) const {
     const size_t group_count = pcre2_get_ovector_count((pcre2_match_data_8 *)handle);
-    if(group_num > group_count) {
+    if(group_num >= group_count) {
         throw PyException("Invalid regex group number.");
     }
     const size_t *group_vector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
diff --git a/src/pystd2026_regex.cpp b/src/pystd2026_regex.cpp
index 9b91cc3..677417d 100644
--- a/src/pystd2026_regex.cpp
+++ b/src/pystd2026_regex.cpp
@@ -60,7 +60,7 @@ size_t U8Match::num_groups() const {
 
 U8StringView U8Match::group(size_t group_num) const {
     const size_t group_count = pcre2_get_ovector_count((pcre2_match_data_8 *)handle);
-    if(group_num > group_count) {
+    if(group_num >= group_count) {
         throw PyException("Invalid regex group number.");
     }
     const size_t *group_vector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
-- 
2.43.0


From 01ffbe0110482252b09751e03f2e2b9057d7e990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:42 +0000
Subject: [PATCH 63/92] fix: a regex group that took no part in the match is
 reported, not read

---
 src/pystd2025_regex.cpp | 6 ++++++
 src/pystd2026_regex.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/pystd2025_regex.cpp b/src/pystd2025_regex.cpp
index 678c5ea..9548f38 100644
--- a/src/pystd2025_regex.cpp
+++ b/src/pystd2025_regex.cpp
@@ -48,6 +48,9 @@ U8String U8Match::get_submatch(size_t i) {
     }
     auto ovector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
     auto match_start = ovector[2 * i];
+    if(match_start == PCRE2_UNSET) {
+        throw PyException("Submatch did not take part in the match.");
+    }
     auto match_length = ovector[2 * i + 1] - ovector[2 * i];
     return original->substr(match_start, match_length);
 }
@@ -66,6 +69,9 @@ U8StringView U8Match::group(size_t group_num) const {
 
     const size_t match_start = group_vector[2 * group_num];
     const size_t match_end = group_vector[2 * group_num + 1];
+    if(match_start == PCRE2_UNSET) {
+        throw PyException("Regex group did not take part in the match.");
+    }
     return U8StringView{ValidatedU8Iterator{(const unsigned char *)original->c_str() + match_start},
                         ValidatedU8Iterator{(const unsigned char *)original->c_str() + match_end}};
 }
diff --git a/src/pystd2026_regex.cpp b/src/pystd2026_regex.cpp
index 677417d..9acc56d 100644
--- a/src/pystd2026_regex.cpp
+++ b/src/pystd2026_regex.cpp
@@ -49,6 +49,9 @@ U8String U8Match::get_submatch(size_t i) {
     }
     auto ovector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
     auto match_start = ovector[2 * i];
+    if(match_start == PCRE2_UNSET) {
+        throw PyException("Submatch did not take part in the match.");
+    }
     auto match_length = ovector[2 * i + 1] - ovector[2 * i];
     return original->substr(match_start, match_length);
 }
@@ -67,6 +70,9 @@ U8StringView U8Match::group(size_t group_num) const {
 
     const size_t match_start = group_vector[2 * group_num];
     const size_t match_end = group_vector[2 * group_num + 1];
+    if(match_start == PCRE2_UNSET) {
+        throw PyException("Regex group did not take part in the match.");
+    }
     return U8StringView{ValidU8Iterator{(const unsigned char *)original->c_str() + match_start},
                         ValidU8Iterator{(const unsigned char *)original->c_str() + match_end}};
 }
-- 
2.43.0


From 900fd5089839a52763b43a1ac3254597ddc4b3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 64/92] fix: a short option without its value is reported

---
 src/pystd2026_argparse.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 8244188..56585b7 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -247,6 +247,10 @@ int ArgParse::process_short_argument(
 
     if(arg.needs_parameter()) {
         if(current.size() == 2) {
+            if(i + 1 >= argc) {
+                fprintf(stderr, "Last entry on the command line would need a further argument.\n");
+                exit(1);
+            }
             valuepart = argv[i + 1];
             extra_consumed_args = 1;
         } else {
-- 
2.43.0


From edef20af250d371429cae591f004c458576bd460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 65/92] fix: an option value that is not an integer is reported

---
 src/pystd2026_argparse.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 56585b7..e79797e 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -86,10 +86,14 @@ static void update_value(const Argument &atype, ArgValue &vobj, CStringView sour
             // FIXME, needed for null terminator.
             CString tmp(source);
             errno = 0;
-            int64_t intval = strtol(tmp.data(), nullptr, 10);
+            char *endptr = nullptr;
+            int64_t intval = strtol(tmp.c_str(), &endptr, 10);
             if(errno != 0) {
                 throw PyException(strerror(errno));
             }
+            if(endptr == tmp.c_str() || *endptr != '\0') {
+                throw PyException("Argument value is not an integer.");
+            }
             if(atype.minval && intval < atype.minval.value()) {
                 throw PyException("Argument value less than min value.");
             }
-- 
2.43.0


From 6c8154b58902fe12e375ed57942eef3de049cf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 66/92] fix: a value given to an option that takes none is
 reported

---
 src/pystd2026_argparse.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index e79797e..1820bff 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -228,6 +228,9 @@ int ArgParse::process_long_argument(
             valuepart = argv[i + 1];
             extra_consumed_args = 1;
         }
+    } else if(splitpoint != (size_t)-1) {
+        fprintf(stderr, "Argument does not take a value: %s\n", argv[i]);
+        exit(1);
     }
     argument_matched(result, match_index, valuepart);
 
@@ -261,7 +264,9 @@ int ArgParse::process_short_argument(
             // FIXME, check for "-x=something".
             valuepart = current.substr(2);
         }
-    } else {
+    } else if(current.size() != 2) {
+        fprintf(stderr, "Argument does not take a value: %s\n", argv[i]);
+        exit(1);
     }
     argument_matched(result, match_index, valuepart);
 
-- 
2.43.0


From b1ccb13204422aeaaf1b03de4027db1e105a8492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 67/92] fix: parsing does not start with arguments left over
 from an earlier failure

---
 src/pystd2026_argparse.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 1820bff..4e0cc56 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -142,6 +142,8 @@ void ArgParse::argument_matched(ParseResult &pr, size_t match_index, CStringView
 Optional<ParseOutput> ArgParse::parse_args(int argc, const char **argv) {
     progname = argv[0];
     ParseResult result = create_value_obj();
+    posargs.clear();
+    extra_args.clear();
     for(int i = 1; i < argc; ++i) {
         CStringView current(argv[i]);
         if(current.is_empty()) {
-- 
2.43.0


From 0725b0c7340626d08814ac9a4817df6201d23140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:02 +0000
Subject: [PATCH 68/92] fix: storing a value into a boolean option is reported

---
 src/pystd2026_argparse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 4e0cc56..cd7cb3b 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -81,7 +81,7 @@ static void update_value(const Argument &atype, ArgValue &vobj, CStringView sour
             break;
         }
         case ArgumentType::Boolean:
-            break;
+            throw PyException("A boolean argument can not store a value.");
         case ArgumentType::Integer: {
             // FIXME, needed for null terminator.
             CString tmp(source);
-- 
2.43.0


From 44cb59025bdaaf85db07f459aeb22a8ebfd13294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:18 +0000
Subject: [PATCH 69/92] fix: a long option can be given an empty value

---
 src/pystd2026_argparse.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index cd7cb3b..c27836d 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -221,7 +221,8 @@ int ArgParse::process_long_argument(
 
     if(arg.needs_parameter()) {
         if(splitpoint != (size_t)-1) {
-            valuepart = current.substr(splitpoint + 1);
+            valuepart = splitpoint + 1 < current.size() ? current.substr(splitpoint + 1)
+                                                        : CStringView("");
         } else {
             if(i + 1 >= argc) {
                 fprintf(stderr, "Last entry on the command line would need a further argument.\n");
-- 
2.43.0


From b4e515a3247938a4de4ed0df1ca78baab3cd501f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 70/92] fix: the root path stays the root

---
 src/pystd2025_filesystem.cpp | 12 ++++++++----
 src/pystd2026_filesystem.cpp | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index da786a1..8bd2522 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -92,13 +92,13 @@ Vector<Path> glob_starstar_dirs(const Path &root) {
 } // namespace
 
 Path::Path(const char *path) : buf{path} {
-    while(!buf.is_empty() && buf.back() == '/') {
+    while(buf.size() > 1 && buf.back() == '/') {
         buf.pop_back();
     }
 }
 
 Path::Path(CString path) : buf{move(path)} {
-    while(!buf.is_empty() && buf.back() == '/') {
+    while(buf.size() > 1 && buf.back() == '/') {
         buf.pop_back();
     }
 }
@@ -130,9 +130,10 @@ Path Path::operator/(const Path &o) const noexcept {
     if(o.is_abs() || buf.is_empty()) {
         return o;
     }
-    assert(buf.back() != '/');
     CString newpath = buf;
-    newpath.append('/');
+    if(newpath.back() != '/') {
+        newpath.append('/');
+    }
     newpath += o.buf;
     return Path(move(newpath));
 }
@@ -157,6 +158,9 @@ Path Path::filename() const {
     if(loc == (size_t)-1) {
         return Path(buf);
     }
+    if(loc + 1 == buf.size()) { // The root has no filename.
+        return Path();
+    }
     return Path(buf.substr(loc + 1));
 }
 
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 4b786fc..649a589 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -92,13 +92,13 @@ Vector<Path> glob_starstar_dirs(const Path &root) {
 } // namespace
 
 Path::Path(const char *path) : buf{path} {
-    while(!buf.is_empty() && buf.back() == '/') {
+    while(buf.size() > 1 && buf.back() == '/') {
         buf.pop_back();
     }
 }
 
 Path::Path(CString path) : buf{move(path)} {
-    while(!buf.is_empty() && buf.back() == '/') {
+    while(buf.size() > 1 && buf.back() == '/') {
         buf.pop_back();
     }
 }
@@ -130,9 +130,10 @@ Path Path::operator/(const Path &o) const noexcept {
     if(o.is_abs() || buf.is_empty()) {
         return o;
     }
-    assert(buf.back() != '/');
     CString newpath = buf;
-    newpath.append('/');
+    if(newpath.back() != '/') {
+        newpath.append('/');
+    }
     newpath += o.buf;
     return Path(move(newpath));
 }
@@ -157,6 +158,9 @@ Path Path::filename() const {
     if(loc == (size_t)-1) {
         return Path(buf);
     }
+    if(loc + 1 == buf.size()) { // The root has no filename.
+        return Path();
+    }
     return Path(buf.substr(loc + 1));
 }
 
-- 
2.43.0


From 8763d2fb965fa6d8ebe4c9e7ef51f0ed60783d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 71/92] fix: a dot in a directory name is not an extension

---
 src/pystd2025_filesystem.cpp | 8 ++++----
 src/pystd2026_filesystem.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index 8bd2522..9b2e14a 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -147,7 +147,8 @@ Path Path::operator/(const CString &str) const noexcept { return *this / str.c_s
 
 CString Path::extension() const {
     auto loc = buf.rfind('.');
-    if(loc == (size_t)-1) {
+    auto separator = buf.rfind('/');
+    if(loc == (size_t)-1 || (separator != (size_t)-1 && loc < separator)) {
         return CString();
     }
     return buf.substr(loc);
@@ -202,10 +203,9 @@ Optional<U8String> Path::load_text() {
 }
 
 void Path::replace_extension(CStringView new_extension) {
-    // FIXME, assumes an extension can be found before
-    // a path separator.
     auto extpoint = buf.rfind('.');
-    if(extpoint == (size_t)-1) {
+    auto separator = buf.rfind('/');
+    if(extpoint == (size_t)-1 || (separator != (size_t)-1 && extpoint < separator)) {
         buf += new_extension;
     } else {
         while(buf.size() > extpoint) {
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 649a589..0b4c4a4 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -147,7 +147,8 @@ Path Path::operator/(const CString &str) const noexcept { return *this / str.c_s
 
 CString Path::extension() const {
     auto loc = buf.rfind('.');
-    if(loc == (size_t)-1) {
+    auto separator = buf.rfind('/');
+    if(loc == (size_t)-1 || (separator != (size_t)-1 && loc < separator)) {
         return CString();
     }
     return buf.substr(loc);
@@ -202,10 +203,9 @@ Optional<U8String> Path::load_text() {
 }
 
 void Path::replace_extension(CStringView new_extension) {
-    // FIXME, assumes an extension can be found before
-    // a path separator.
     auto extpoint = buf.rfind('.');
-    if(extpoint == (size_t)-1) {
+    auto separator = buf.rfind('/');
+    if(extpoint == (size_t)-1 || (separator != (size_t)-1 && extpoint < separator)) {
         buf += new_extension;
     } else {
         while(buf.size() > extpoint) {
-- 
2.43.0


From 7895ee26f6893d939f452569a0fe23086f3bd57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 72/92] fix: a glob result can be default constructed and move
 assigned

---
 include/pystd2025.hpp        | 2 +-
 include/pystd2026.hpp        | 2 +-
 src/pystd2025_filesystem.cpp | 4 ++++
 src/pystd2026_filesystem.cpp | 4 ++++
 4 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 5f6f8b8..8d73ae2 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -2446,7 +2446,7 @@ public:
     ~GlobResult();
     Optional<Path> next();
 
-    GlobResult &operator=(GlobResult &&o) noexcept = default;
+    GlobResult &operator=(GlobResult &&o) noexcept;
 
 private:
     GlobResult(const Path &path, const char *glob_pattern);
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 18ef0f0..b21cb50 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2258,7 +2258,7 @@ public:
     ~GlobResult();
     Optional<Path> next();
 
-    GlobResult &operator=(GlobResult &&o) noexcept = default;
+    GlobResult &operator=(GlobResult &&o) noexcept;
 
 private:
     GlobResult(const Path &path, const char *glob_pattern);
diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index 9b2e14a..7cf163a 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -323,8 +323,12 @@ private:
     Vector<DirSearchState> dir_stack;
 };
 
+GlobResult::GlobResult() noexcept = default;
+
 GlobResult::GlobResult(GlobResult &&o) noexcept = default;
 
+GlobResult &GlobResult::operator=(GlobResult &&o) noexcept = default;
+
 GlobResult::~GlobResult() = default;
 
 GlobResult::GlobResult(const Path &path, const char *glob_pattern)
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 0b4c4a4..94395d1 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -323,8 +323,12 @@ private:
     Vector<DirSearchState> dir_stack;
 };
 
+GlobResult::GlobResult() noexcept = default;
+
 GlobResult::GlobResult(GlobResult &&o) noexcept = default;
 
+GlobResult &GlobResult::operator=(GlobResult &&o) noexcept = default;
+
 GlobResult::~GlobResult() = default;
 
 GlobResult::GlobResult(const Path &path, const char *glob_pattern)
-- 
2.43.0


From 2c0278d0d968e712d1be2f065c0c9e159e5e0231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 73/92] fix: a star in a glob matches any run of characters

---
 src/pystd2025_filesystem.cpp | 7 ++++---
 src/pystd2026_filesystem.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index 7cf163a..eaed165 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -26,7 +26,8 @@ bool glob_matches(const char *text,
         if(pattern_char == '\0') {
             return true;
         }
-        return false;
+        // A star matches the empty end of the text.
+        return pattern_char == '*' && glob_matches(text, text_offset, pattern, pattern_offset + 1);
     }
     if(pattern_char == '\0') {
         return false;
@@ -43,13 +44,13 @@ bool glob_matches(const char *text,
             return true;
         }
         size_t gap = 0;
-        while(text[gap] != '\0') {
+        while(text[text_offset + gap] != '\0') {
             if(glob_matches(text, text_offset + gap, pattern, pattern_offset + 1)) {
                 return true;
             }
             ++gap;
         }
-        return false;
+        return glob_matches(text, text_offset + gap, pattern, pattern_offset + 1);
     } else if(pattern_char == text_char) {
         return glob_matches(text, text_offset + 1, pattern, pattern_offset + 1);
     } else {
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 94395d1..27ce310 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -26,7 +26,8 @@ bool glob_matches(const char *text,
         if(pattern_char == '\0') {
             return true;
         }
-        return false;
+        // A star matches the empty end of the text.
+        return pattern_char == '*' && glob_matches(text, text_offset, pattern, pattern_offset + 1);
     }
     if(pattern_char == '\0') {
         return false;
@@ -43,13 +44,13 @@ bool glob_matches(const char *text,
             return true;
         }
         size_t gap = 0;
-        while(text[gap] != '\0') {
+        while(text[text_offset + gap] != '\0') {
             if(glob_matches(text, text_offset + gap, pattern, pattern_offset + 1)) {
                 return true;
             }
             ++gap;
         }
-        return false;
+        return glob_matches(text, text_offset + gap, pattern, pattern_offset + 1);
     } else if(pattern_char == text_char) {
         return glob_matches(text, text_offset + 1, pattern, pattern_offset + 1);
     } else {
-- 
2.43.0


From 28ed5a7e65cc30057bce3f1c04d9aecc17cbe281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 74/92] fix: globbing searches the right subdirectories

---
 src/pystd2025_filesystem.cpp | 45 +++++++++++++++---------------------
 src/pystd2026_filesystem.cpp | 45 +++++++++++++++---------------------
 2 files changed, 38 insertions(+), 52 deletions(-)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index eaed165..2a856eb 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -247,7 +247,7 @@ public:
                 }
             }
         }
-        enter_subdir(Path(), root_dir.c_str());
+        enter_subdir(root_dir, 0);
     }
 
     Optional<Path> next() {
@@ -270,11 +270,12 @@ public:
                 }
             }
             if(glob_matches(entry->d_name, parts[dir_stack.back().part_number].c_str())) {
+                Path full_path = dir_stack.back().path / entry->d_name;
                 if(is_last_part) {
-                    return dir_stack.back().path / entry->d_name;
+                    return full_path;
                 } else {
                     if(entry->d_type == DT_DIR) {
-                        enter_subdir(dir_stack.back().path, entry->d_name);
+                        enter_subdir(full_path, dir_stack.back().part_number + 1);
                     }
                 }
             }
@@ -282,30 +283,22 @@ public:
     }
 
 private:
-    void enter_subdir(const Path &parent_dir, const char *subdir_name) {
-        Path full_path = parent_dir / subdir_name;
-        auto *sd = full_path.is_empty() ? opendir(".") : opendir(full_path.c_str());
-        const auto new_depth = dir_stack.is_empty() ? 0 : dir_stack.back().part_number + 1;
-        if(sd) {
-            dir_stack.emplace_back(new_depth, move(subdir_name), unique_ptr<DIR, DirCloser>(sd));
-            const bool do_starstar = parts[new_depth] == "**";
-            if(do_starstar) {
-                // ** may expand to empty.
-                DIR *pd = parent_dir.is_empty() ? opendir(".") : opendir(parent_dir.c_str());
-                if(pd) {
-                    dir_stack.emplace_back(
-                        new_depth + 1, parent_dir, unique_ptr<DIR, DirCloser>(pd));
-                }
-                auto sstar_dirs = glob_starstar_dirs(subdir_name);
-                for(auto &sdir : sstar_dirs) {
-                    auto *ssd = opendir(sdir.c_str());
-                    if(ssd) {
-                        dir_stack.emplace_back(
-                            new_depth + 1, move(sdir), unique_ptr<DIR, DirCloser>(ssd));
-                    }
-                }
-            } else {
+    void enter_subdir(const Path &dir, size_t part_number) {
+        if(parts[part_number] == "**") {
+            // ** may expand to empty.
+            search_in(dir, part_number + 1);
+            for(const auto &sdir : glob_starstar_dirs(dir)) {
+                search_in(sdir, part_number + 1);
             }
+        } else {
+            search_in(dir, part_number);
+        }
+    }
+
+    void search_in(const Path &dir, size_t part_number) {
+        auto *d = dir.is_empty() ? opendir(".") : opendir(dir.c_str());
+        if(d) {
+            dir_stack.emplace_back(part_number, dir, unique_ptr<DIR, DirCloser>(d));
         } else {
             // Dir can not be accessed, so ignore it. Happens e.g. when
             // you don't have access rights or the directory was deleted
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 27ce310..438c72c 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -247,7 +247,7 @@ public:
                 }
             }
         }
-        enter_subdir(Path(), root_dir.c_str());
+        enter_subdir(root_dir, 0);
     }
 
     Optional<Path> next() {
@@ -270,11 +270,12 @@ public:
                 }
             }
             if(glob_matches(entry->d_name, parts[dir_stack.back().part_number].c_str())) {
+                Path full_path = dir_stack.back().path / entry->d_name;
                 if(is_last_part) {
-                    return dir_stack.back().path / entry->d_name;
+                    return full_path;
                 } else {
                     if(entry->d_type == DT_DIR) {
-                        enter_subdir(dir_stack.back().path, entry->d_name);
+                        enter_subdir(full_path, dir_stack.back().part_number + 1);
                     }
                 }
             }
@@ -282,30 +283,22 @@ public:
     }
 
 private:
-    void enter_subdir(const Path &parent_dir, const char *subdir_name) {
-        Path full_path = parent_dir / subdir_name;
-        auto *sd = full_path.is_empty() ? opendir(".") : opendir(full_path.c_str());
-        const auto new_depth = dir_stack.is_empty() ? 0 : dir_stack.back().part_number + 1;
-        if(sd) {
-            dir_stack.emplace_back(new_depth, move(subdir_name), unique_ptr<DIR, DirCloser>(sd));
-            const bool do_starstar = parts[new_depth] == "**";
-            if(do_starstar) {
-                // ** may expand to empty.
-                DIR *pd = parent_dir.is_empty() ? opendir(".") : opendir(parent_dir.c_str());
-                if(pd) {
-                    dir_stack.emplace_back(
-                        new_depth + 1, parent_dir, unique_ptr<DIR, DirCloser>(pd));
-                }
-                auto sstar_dirs = glob_starstar_dirs(subdir_name);
-                for(auto &sdir : sstar_dirs) {
-                    auto *ssd = opendir(sdir.c_str());
-                    if(ssd) {
-                        dir_stack.emplace_back(
-                            new_depth + 1, move(sdir), unique_ptr<DIR, DirCloser>(ssd));
-                    }
-                }
-            } else {
+    void enter_subdir(const Path &dir, size_t part_number) {
+        if(parts[part_number] == "**") {
+            // ** may expand to empty.
+            search_in(dir, part_number + 1);
+            for(const auto &sdir : glob_starstar_dirs(dir)) {
+                search_in(sdir, part_number + 1);
             }
+        } else {
+            search_in(dir, part_number);
+        }
+    }
+
+    void search_in(const Path &dir, size_t part_number) {
+        auto *d = dir.is_empty() ? opendir(".") : opendir(dir.c_str());
+        if(d) {
+            dir_stack.emplace_back(part_number, dir, unique_ptr<DIR, DirCloser>(d));
         } else {
             // Dir can not be accessed, so ignore it. Happens e.g. when
             // you don't have access rights or the directory was deleted
-- 
2.43.0


From b3878e83e4ad00e72f3b9792b8851c6165f18ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 75/92] fix: a trailing ** and an empty glob pattern are well
 defined

---
 src/pystd2025_filesystem.cpp | 6 ++++++
 src/pystd2026_filesystem.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index 2a856eb..c3384fd 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -247,6 +247,12 @@ public:
                 }
             }
         }
+        if(parts.is_empty()) {
+            return;
+        }
+        if(parts.back() == "**") { // Matches everything below.
+            parts.push_back(CString("*"));
+        }
         enter_subdir(root_dir, 0);
     }
 
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 438c72c..5dd7f99 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -247,6 +247,12 @@ public:
                 }
             }
         }
+        if(parts.is_empty()) {
+            return;
+        }
+        if(parts.back() == "**") { // Matches everything below.
+            parts.push_back(CString("*"));
+        }
         enter_subdir(root_dir, 0);
     }
 
-- 
2.43.0


From 6afd3081b3e729d96d7a8ad99363e35e86f9edca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 76/92] fix: globbing works on file systems that do not report
 entry types

---
 src/pystd2025_filesystem.cpp | 17 ++++++++++++++---
 src/pystd2026_filesystem.cpp | 17 ++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index c3384fd..1ed2b1c 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -62,6 +62,14 @@ bool glob_matches(const char *text, const char *pattern) {
     return glob_matches(text, 0, pattern, 0);
 }
 
+bool is_real_dir(const dirent *entry, const Path &full_path) {
+    if(entry->d_type == DT_UNKNOWN) { // Not all file systems fill this in.
+        struct stat sb;
+        return lstat(full_path.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode);
+    }
+    return entry->d_type == DT_DIR;
+}
+
 void append_subdirs_of(const Path &root_, Vector<Path> &dirs) {
     Path root(root_); // Make a copy, because root_ may be in the vector and it may grow.
     DIR *d = root.is_empty() ? opendir(".") : opendir(root.c_str());
@@ -72,8 +80,11 @@ void append_subdirs_of(const Path &root_, Vector<Path> &dirs) {
     unique_ptr<DIR, DirCloser> dc(d);
     while(entry) {
         // Entries with a leading dot do not match globs.
-        if(entry->d_type == DT_DIR && entry->d_name[0] != '.') {
-            dirs.push_back(root / entry->d_name);
+        if(entry->d_name[0] != '.') {
+            Path full_path = root / entry->d_name;
+            if(is_real_dir(entry, full_path)) {
+                dirs.push_back(move(full_path));
+            }
         }
         entry = readdir(d);
     }
@@ -280,7 +291,7 @@ public:
                 if(is_last_part) {
                     return full_path;
                 } else {
-                    if(entry->d_type == DT_DIR) {
+                    if(is_real_dir(entry, full_path)) {
                         enter_subdir(full_path, dir_stack.back().part_number + 1);
                     }
                 }
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 5dd7f99..5275ffc 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -62,6 +62,14 @@ bool glob_matches(const char *text, const char *pattern) {
     return glob_matches(text, 0, pattern, 0);
 }
 
+bool is_real_dir(const dirent *entry, const Path &full_path) {
+    if(entry->d_type == DT_UNKNOWN) { // Not all file systems fill this in.
+        struct stat sb;
+        return lstat(full_path.c_str(), &sb) == 0 && S_ISDIR(sb.st_mode);
+    }
+    return entry->d_type == DT_DIR;
+}
+
 void append_subdirs_of(const Path &root_, Vector<Path> &dirs) {
     Path root(root_); // Make a copy, because root_ may be in the vector and it may grow.
     DIR *d = root.is_empty() ? opendir(".") : opendir(root.c_str());
@@ -72,8 +80,11 @@ void append_subdirs_of(const Path &root_, Vector<Path> &dirs) {
     unique_ptr<DIR, DirCloser> dc(d);
     while(entry) {
         // Entries with a leading dot do not match globs.
-        if(entry->d_type == DT_DIR && entry->d_name[0] != '.') {
-            dirs.push_back(root / entry->d_name);
+        if(entry->d_name[0] != '.') {
+            Path full_path = root / entry->d_name;
+            if(is_real_dir(entry, full_path)) {
+                dirs.push_back(move(full_path));
+            }
         }
         entry = readdir(d);
     }
@@ -280,7 +291,7 @@ public:
                 if(is_last_part) {
                     return full_path;
                 } else {
-                    if(entry->d_type == DT_DIR) {
+                    if(is_real_dir(entry, full_path)) {
                         enter_subdir(full_path, dir_stack.back().part_number + 1);
                     }
                 }
-- 
2.43.0


From a7582c0357397b70dc7ff7f67c7ba31e6d3030d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:26 +0000
Subject: [PATCH 77/92] fix: globbing does not hold every directory of the tree
 open at once

---
 src/pystd2025_filesystem.cpp | 30 +++++++++++++++++++++---------
 src/pystd2026_filesystem.cpp | 30 +++++++++++++++++++++---------
 2 files changed, 42 insertions(+), 18 deletions(-)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index 1ed2b1c..c68b4a5 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -13,7 +13,11 @@ namespace pystd2025 {
 namespace {
 
 struct DirCloser {
-    static void del(DIR *dir) { closedir(dir); }
+    static void del(DIR *dir) {
+        if(dir) {
+            closedir(dir);
+        }
+    }
 };
 
 bool glob_matches(const char *text,
@@ -273,6 +277,13 @@ public:
                 return {};
             }
             const bool is_last_part = dir_stack.back().part_number == parts.size() - 1;
+            if(!dir_stack.back().d && !open_back()) {
+                // Dir can not be accessed, so ignore it. Happens e.g. when
+                // you don't have access rights or the directory was deleted
+                // before we could access it.
+                dir_stack.pop_back();
+                continue;
+            }
             dirent *entry = readdir(dir_stack.back().d.get());
             if(!entry) {
                 dir_stack.pop_back();
@@ -312,15 +323,16 @@ private:
         }
     }
 
+    // The directory is opened only when its turn comes.
     void search_in(const Path &dir, size_t part_number) {
-        auto *d = dir.is_empty() ? opendir(".") : opendir(dir.c_str());
-        if(d) {
-            dir_stack.emplace_back(part_number, dir, unique_ptr<DIR, DirCloser>(d));
-        } else {
-            // Dir can not be accessed, so ignore it. Happens e.g. when
-            // you don't have access rights or the directory was deleted
-            // before we could access it.
-        }
+        dir_stack.emplace_back(part_number, dir, unique_ptr<DIR, DirCloser>());
+    }
+
+    bool open_back() {
+        auto &state = dir_stack.back();
+        state.d = unique_ptr<DIR, DirCloser>(state.path.is_empty() ? opendir(".")
+                                                                   : opendir(state.path.c_str()));
+        return state.d.get() != nullptr;
     }
 
     struct DirSearchState {
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 5275ffc..cdedd65 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -13,7 +13,11 @@ namespace pystd2026 {
 namespace {
 
 struct DirCloser {
-    static void del(DIR *dir) { closedir(dir); }
+    static void del(DIR *dir) {
+        if(dir) {
+            closedir(dir);
+        }
+    }
 };
 
 bool glob_matches(const char *text,
@@ -273,6 +277,13 @@ public:
                 return {};
             }
             const bool is_last_part = dir_stack.back().part_number == parts.size() - 1;
+            if(!dir_stack.back().d && !open_back()) {
+                // Dir can not be accessed, so ignore it. Happens e.g. when
+                // you don't have access rights or the directory was deleted
+                // before we could access it.
+                dir_stack.pop_back();
+                continue;
+            }
             dirent *entry = readdir(dir_stack.back().d.get());
             if(!entry) {
                 dir_stack.pop_back();
@@ -312,15 +323,16 @@ private:
         }
     }
 
+    // The directory is opened only when its turn comes.
     void search_in(const Path &dir, size_t part_number) {
-        auto *d = dir.is_empty() ? opendir(".") : opendir(dir.c_str());
-        if(d) {
-            dir_stack.emplace_back(part_number, dir, unique_ptr<DIR, DirCloser>(d));
-        } else {
-            // Dir can not be accessed, so ignore it. Happens e.g. when
-            // you don't have access rights or the directory was deleted
-            // before we could access it.
-        }
+        dir_stack.emplace_back(part_number, dir, unique_ptr<DIR, DirCloser>());
+    }
+
+    bool open_back() {
+        auto &state = dir_stack.back();
+        state.d = unique_ptr<DIR, DirCloser>(state.path.is_empty() ? opendir(".")
+                                                                   : opendir(state.path.c_str()));
+        return state.d.get() != nullptr;
     }
 
     struct DirSearchState {
-- 
2.43.0


From ed6a57b3c207d2ec78d24897b0f44012fa17fbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 78/92] fix: a file is loaded completely whatever its stated
 size is

---
 src/pystd2025_filesystem.cpp | 20 ++++++++++----------
 src/pystd2026_filesystem.cpp | 20 ++++++++++----------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index c68b4a5..b371289 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -188,18 +188,18 @@ Optional<Bytes> Path::load_bytes() {
     if(!f) {
         return Optional<Bytes>();
     }
-    fseek(f, 0, SEEK_END);
-    const auto file_size = ftell(f);
-    fseek(f, 0, SEEK_SET);
+    // Do not trust file size, special files may not know theirs.
     Bytes contents;
-    contents.resize_to(file_size);
-    auto bytes_read = fread(contents.data(), 1, file_size, f);
-    if(ferror(f) != 0) {
-        fclose(f);
-        return Optional<Bytes>();
-    }
+    const size_t blocksize = 4096;
+    char block[blocksize];
+    size_t bytes_read;
+    do {
+        bytes_read = fread(block, 1, blocksize, f);
+        contents.append(block, block + bytes_read);
+    } while(bytes_read == blocksize);
+    const bool failed = ferror(f) != 0;
     fclose(f);
-    if(bytes_read != (size_t)file_size) {
+    if(failed) {
         return Optional<Bytes>();
     }
     return Optional<Bytes>(move(contents));
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index cdedd65..56d8cc8 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -188,18 +188,18 @@ Optional<Bytes> Path::load_bytes() {
     if(!f) {
         return Optional<Bytes>();
     }
-    fseek(f, 0, SEEK_END);
-    const auto file_size = ftell(f);
-    fseek(f, 0, SEEK_SET);
+    // Do not trust file size, special files may not know theirs.
     Bytes contents;
-    contents.resize_to(file_size);
-    auto bytes_read = fread(contents.data(), 1, file_size, f);
-    if(ferror(f) != 0) {
-        fclose(f);
-        return Optional<Bytes>();
-    }
+    const size_t blocksize = 4096;
+    char block[blocksize];
+    size_t bytes_read;
+    do {
+        bytes_read = fread(block, 1, blocksize, f);
+        contents.append(block, block + bytes_read);
+    } while(bytes_read == blocksize);
+    const bool failed = ferror(f) != 0;
     fclose(f);
-    if(bytes_read != (size_t)file_size) {
+    if(failed) {
         return Optional<Bytes>();
     }
     return Optional<Bytes>(move(contents));
-- 
2.43.0


From 1d50e6b41814af9239f8e309cc63a03635c83a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 79/92] fix: a last line without a newline is returned as it is

---
 src/pystd2025.cpp | 3 ---
 src/pystd2026.cpp | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 2aa8368..98236a0 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -1117,9 +1117,6 @@ Bytes File::readline_bytes() {
         auto rc = fread(&c, 1, 1, f);
         if(rc != 1) {
             if(feof(f)) {
-                if(!b.is_empty()) {
-                    b.append('\0');
-                }
                 return b;
             } else if(ferror(f)) {
                 abort();
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index c52d315..411edf1 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1276,9 +1276,6 @@ Bytes File::readline_bytes() {
         auto rc = fread(&c, 1, 1, f);
         if(rc != 1) {
             if(feof(f)) {
-                if(!b.is_empty()) {
-                    b.append('\0');
-                }
                 return b;
             } else if(ferror(f)) {
                 abort();
-- 
2.43.0


From 29c6ddbd85463b28c69aa11563ff1799d3a05e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 80/92] fix: iterating the lines of a file stops after the last
 line

---
 include/pystd2025.hpp |  7 +++++--
 include/pystd2026.hpp |  7 +++++--
 src/pystd2025.cpp     | 15 ++++++++++++---
 src/pystd2026.cpp     | 15 ++++++++++++---
 4 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 8d73ae2..5ee5a86 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1892,9 +1892,12 @@ public:
     }
 
 private:
+    void update() const;
+
     File *f;
-    Bytes line;
-    bool is_up_to_date = false;
+    mutable Bytes line;
+    mutable bool is_up_to_date = false;
+    mutable bool at_end = false;
 };
 
 class File {
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index b21cb50..3f40882 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2161,9 +2161,12 @@ public:
     }
 
 private:
+    void update() const;
+
     File *f;
-    Bytes line;
-    bool is_up_to_date = false;
+    mutable Bytes line;
+    mutable bool is_up_to_date = false;
+    mutable bool at_end = false;
 };
 
 class File {
diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 98236a0..51a546f 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -1091,12 +1091,21 @@ PyException::PyException(const char *msg) : message("") {
     message = U8String(b.data(), b.size());
 }
 
-bool FileLineIterator::operator!=(const FileEndSentinel &) const { return !f->eof(); }
-
-Bytes &&FileLineIterator::operator*() {
+void FileLineIterator::update() const {
     if(!is_up_to_date) {
         line = f->readline_bytes();
+        at_end = line.is_empty();
+        is_up_to_date = true;
     }
+}
+
+bool FileLineIterator::operator!=(const FileEndSentinel &) const {
+    update();
+    return !at_end;
+}
+
+Bytes &&FileLineIterator::operator*() {
+    update();
     return move(line);
 }
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 411edf1..a81029f 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1250,12 +1250,21 @@ PyException::PyException(const char *msg) : message("") {
     message = U8String(b.data(), b.size());
 }
 
-bool FileLineIterator::operator!=(const FileEndSentinel &) const { return !f->eof(); }
-
-Bytes &&FileLineIterator::operator*() {
+void FileLineIterator::update() const {
     if(!is_up_to_date) {
         line = f->readline_bytes();
+        at_end = line.is_empty();
+        is_up_to_date = true;
     }
+}
+
+bool FileLineIterator::operator!=(const FileEndSentinel &) const {
+    update();
+    return !at_end;
+}
+
+Bytes &&FileLineIterator::operator*() {
+    update();
     return move(line);
 }
 
-- 
2.43.0


From fefb3671b9bb8120f05866227b6beca22a06225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:03 +0000
Subject: [PATCH 81/92] fix: assigning to a mapping releases the one it had

---
 include/pystd2025.hpp | 1 +
 include/pystd2026.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 5ee5a86..832ac0c 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -2472,6 +2472,7 @@ public:
 
     MMapping &operator=(MMapping &&o) noexcept {
         if(this != &o) {
+            MMapping old(buf, bufsize); // Unmaps upon exit.
             buf = o.buf;
             bufsize = o.bufsize;
             o.buf = nullptr;
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 3f40882..9692610 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2284,6 +2284,7 @@ public:
 
     MMapping &operator=(MMapping &&o) noexcept {
         if(this != &o) {
+            MMapping old(buf, bufsize); // Unmaps upon exit.
             buf = o.buf;
             bufsize = o.bufsize;
             o.buf = nullptr;
-- 
2.43.0


From d9efbf14a3fc4d94cfbb2b47062b5431bf5626ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 82/92] fix: ranges can descend and end at the limits of the
 integer type

---
 src/pystd2025.cpp | 12 +++++++++---
 src/pystd2026.cpp | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 51a546f..7089f37 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -1144,15 +1144,21 @@ Range::Range(int64_t end_) : Range(0, end_) {}
 
 Range::Range(int64_t start, int64_t end_) : Range(start, end_, 1) {}
 
-Range::Range(int64_t start, int64_t end_, int64_t step_) : i{start}, end{end_}, step{step_} {}
+Range::Range(int64_t start, int64_t end_, int64_t step_) : i{start}, end{end_}, step{step_} {
+    if(step == 0) {
+        throw PyException("Range step must not be zero.");
+    }
+}
 
 Optional<int64_t> Range::next() {
-    if(i >= end) {
+    if(step > 0 ? i >= end : i <= end) {
         return {};
     }
 
     auto result = Optional<int64_t>{i};
-    i += step;
+    if(__builtin_add_overflow(i, step, &i)) {
+        i = end; // That was the last one.
+    }
     return result;
 }
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index a81029f..cd47170 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1303,15 +1303,21 @@ Range::Range(int64_t end_) : Range(0, end_) {}
 
 Range::Range(int64_t start, int64_t end_) : Range(start, end_, 1) {}
 
-Range::Range(int64_t start, int64_t end_, int64_t step_) : i{start}, end{end_}, step{step_} {}
+Range::Range(int64_t start, int64_t end_, int64_t step_) : i{start}, end{end_}, step{step_} {
+    if(step == 0) {
+        throw PyException("Range step must not be zero.");
+    }
+}
 
 Optional<int64_t> Range::next() {
-    if(i >= end) {
+    if(step > 0 ? i >= end : i <= end) {
         return {};
     }
 
     auto result = Optional<int64_t>{i};
-    i += step;
+    if(__builtin_add_overflow(i, step, &i)) {
+        i = end; // That was the last one.
+    }
     return result;
 }
 
-- 
2.43.0


From 11243a49a12d327d0f4c55d851e4b7e6572374e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 83/92] fix: long results of formatting are delivered

---
 src/pystd2025.cpp | 11 +++++++----
 src/pystd2026.cpp | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 7089f37..4766d84 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -1209,16 +1209,19 @@ CString cformat(const char *format, ...) {
 void cformat_with_cb(StringCFormatCallback cb, void *ctx, const char *format, va_list ap) {
     const int bufsize = 1024;
     char buf[bufsize];
-    auto rc = vsnprintf(buf, bufsize, format, ap);
+    va_list ap_copy; // The first formatting consumes the original.
+    va_copy(ap_copy, ap);
+    auto rc = vsnprintf(buf, bufsize, format, ap_copy);
+    va_end(ap_copy);
     if(rc < 0) {
         throw PyException(strerror(errno));
     } else if(rc >= bufsize) {
-        if(INT_MAX - 1 >= rc) {
+        if(rc >= INT_MAX - 1) {
             // Almost certainly either a bug or an exploit.
             internal_failure("Tried to format a buffer that is too big.");
         }
-        unique_arr<char> bigbuf(bufsize + 1);
-        rc = vsnprintf(buf, bufsize, format, ap);
+        unique_arr<char> bigbuf((size_t)rc + 1);
+        rc = vsnprintf(bigbuf.get(), bigbuf.size(), format, ap);
         assert(rc > 0);
         cb(bigbuf.get(), rc, ctx);
     } else {
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index cd47170..1b36dd9 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1368,16 +1368,19 @@ CString cformat(const char *format, ...) {
 void cformat_with_cb(StringCFormatCallback cb, void *ctx, const char *format, va_list ap) {
     const int bufsize = 1024;
     char buf[bufsize];
-    auto rc = vsnprintf(buf, bufsize, format, ap);
+    va_list ap_copy; // The first formatting consumes the original.
+    va_copy(ap_copy, ap);
+    auto rc = vsnprintf(buf, bufsize, format, ap_copy);
+    va_end(ap_copy);
     if(rc < 0) {
         throw PyException(strerror(errno));
     } else if(rc >= bufsize) {
-        if(INT_MAX - 1 >= rc) {
+        if(rc >= INT_MAX - 1) {
             // Almost certainly either a bug or an exploit.
             internal_failure("Tried to format a buffer that is too big.");
         }
-        unique_arr<char> bigbuf(bufsize + 1);
-        rc = vsnprintf(buf, bufsize, format, ap);
+        unique_arr<char> bigbuf((size_t)rc + 1);
+        rc = vsnprintf(bigbuf.get(), bigbuf.size(), format, ap);
         assert(rc > 0);
         cb(bigbuf.get(), rc, ctx);
     } else {
-- 
2.43.0


From 67486d7e29c3b881f240483205e3a4229267efa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 84/92] fix: appending formatted text to a CString does not
 hide zero bytes

---
 include/pystd2025.hpp | 2 +-
 include/pystd2026.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 832ac0c..0312cf7 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -3181,7 +3181,7 @@ template<typename T> void format_append(T &oobj, const char *format, ...) {
     auto converter = [](const char *buf, size_t bufsize, void *ctx) {
         auto *s = reinterpret_cast<T *>(ctx);
         if constexpr(is_same_v<T, CString>) {
-            *s += buf;
+            s->append(buf, bufsize);
         } else {
             for(size_t i = 0; i < bufsize; ++i) {
                 s->push_back(buf[i]);
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 9692610..bd06c7d 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2335,7 +2335,7 @@ template<typename T> void format_append(T &oobj, const char *format, ...) {
     auto converter = [](const char *buf, size_t bufsize, void *ctx) {
         auto *s = reinterpret_cast<T *>(ctx);
         if constexpr(is_same_v<T, CString>) {
-            *s += buf;
+            s->append(buf, bufsize);
         } else {
             for(size_t i = 0; i < bufsize; ++i) {
                 s->push_back(buf[i]);
-- 
2.43.0


From be7ec123c8398225bd1ca7d9ca20096285eb41f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 85/92] fix: clamping an integer to the lower bound

---
 src/pystd2025.cpp | 2 +-
 src/pystd2026.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2025.cpp b/src/pystd2025.cpp
index 4766d84..e505070 100644
--- a/src/pystd2025.cpp
+++ b/src/pystd2025.cpp
@@ -1250,7 +1250,7 @@ int64_t clamp(int64_t val, int64_t lower, int64_t upper) {
         internal_failure("Bad range to clamp.");
     }
     if(val < lower) {
-        return val;
+        return lower;
     }
     if(val > upper) {
         return upper;
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 1b36dd9..fa54507 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1409,7 +1409,7 @@ int64_t clamp(int64_t val, int64_t lower, int64_t upper) {
         internal_failure("Bad range to clamp.");
     }
     if(val < lower) {
-        return val;
+        return lower;
     }
     if(val > upper) {
         return upper;
-- 
2.43.0


From 868414981b546266923074e05a14826371a43a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 86/92] fix: the NaN ignoring comparator reports equal values
 as equal

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index bd06c7d..4700e1e 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2536,7 +2536,7 @@ template<typename T> struct FloatIgnoreNanComparator {
         if(b < a) {
             return 1;
         }
-        return 1;
+        return 0;
     }
 
     bool equal(const T a, const T b) const noexcept { return a == b; }
-- 
2.43.0


From 692025b8a9b9158ebca85f05d66d62da47854386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 87/92] fix: a subspan can reach the end of the span

---
 include/pystd2025.hpp | 4 ++--
 include/pystd2026.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 0312cf7..956c034 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1850,13 +1850,13 @@ public:
     bool is_empty() const noexcept { return arraysize == 0; }
 
     Span subspan(size_t offset, size_t subspan_size = (size_t)-1) const {
-        if(offset >= arraysize) {
+        if(offset > arraysize) {
             throw PyException("Offset OoB in subspan.");
         }
         if(subspan_size == (size_t)-1) {
             return Span(array + offset, arraysize - offset);
         }
-        if(offset + subspan_size >= arraysize) {
+        if(subspan_size > arraysize - offset) {
             throw PyException("Subspan goes OoB.");
         }
         return Span(array + offset, subspan_size);
diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 4700e1e..8ce1840 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -870,13 +870,13 @@ public:
     bool is_empty() const noexcept { return arraysize == 0; }
 
     Span subspan(size_t offset, size_t subspan_size = (size_t)-1) const {
-        if(offset >= arraysize) {
+        if(offset > arraysize) {
             bootstrap_throw("Offset OoB in subspan.");
         }
         if(subspan_size == (size_t)-1) {
             return Span(array + offset, arraysize - offset);
         }
-        if(offset + subspan_size >= arraysize) {
+        if(subspan_size > arraysize - offset) {
             bootstrap_throw("Subspan goes OoB.");
         }
         return Span(array + offset, subspan_size);
-- 
2.43.0


From 1a8cc05c38f7b0188ed2f598ff28b19e1e6c724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 88/92] fix: the end of a subview can not wrap around

---
 include/pystd2025.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index 956c034..b6d43cf 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -728,7 +728,7 @@ public:
             }
             return BytesView(buf + loc, bufsize - loc);
         } else {
-            if(loc + size > bufsize) {
+            if(loc > bufsize || size > bufsize - loc) {
                 bootstrap_throw("OOB error in BytesView.");
             }
             return BytesView(buf + loc, size);
-- 
2.43.0


From 45ed1468081e984ab0231e85be1c4eb74dbb7eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:30 +0000
Subject: [PATCH 89/92] fix: joining or detaching a thread reports failures and
 repetition

---
 src/pystd2025_threading.cpp | 20 +++++++++++++++++---
 src/pystd2026_threading.cpp | 20 +++++++++++++++++---
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/pystd2025_threading.cpp b/src/pystd2025_threading.cpp
index c5bbef4..11a3deb 100644
--- a/src/pystd2025_threading.cpp
+++ b/src/pystd2025_threading.cpp
@@ -54,17 +54,31 @@ Thread::Thread(void *(*thread_main_func)(void *), void *ctx) {
 
 Thread::~Thread() {
     if(!thread_is_finalized) {
-        join();
+        if(pthread_join(thread, nullptr) != 0) {
+            fprintf(stderr, "Could not join a thread.\n");
+        }
     }
 }
 
 void Thread::join() {
-    pthread_join(thread, nullptr);
+    if(thread_is_finalized) {
+        throw PyException("Thread has already been joined or detached.");
+    }
+    auto rc = pthread_join(thread, nullptr);
+    if(rc != 0) {
+        throw PyException(strerror(rc));
+    }
     thread_is_finalized = true;
 }
 
 void Thread::detach() {
-    pthread_detach(thread);
+    if(thread_is_finalized) {
+        throw PyException("Thread has already been joined or detached.");
+    }
+    auto rc = pthread_detach(thread);
+    if(rc != 0) {
+        throw PyException(strerror(rc));
+    }
     thread_is_finalized = true;
 }
 
diff --git a/src/pystd2026_threading.cpp b/src/pystd2026_threading.cpp
index 20095b7..58f57a0 100644
--- a/src/pystd2026_threading.cpp
+++ b/src/pystd2026_threading.cpp
@@ -54,17 +54,31 @@ Thread::Thread(void *(*thread_main_func)(void *), void *ctx) {
 
 Thread::~Thread() {
     if(!thread_is_finalized) {
-        join();
+        if(pthread_join(thread, nullptr) != 0) {
+            fprintf(stderr, "Could not join a thread.\n");
+        }
     }
 }
 
 void Thread::join() {
-    pthread_join(thread, nullptr);
+    if(thread_is_finalized) {
+        throw PyException("Thread has already been joined or detached.");
+    }
+    auto rc = pthread_join(thread, nullptr);
+    if(rc != 0) {
+        throw PyException(strerror(rc));
+    }
     thread_is_finalized = true;
 }
 
 void Thread::detach() {
-    pthread_detach(thread);
+    if(thread_is_finalized) {
+        throw PyException("Thread has already been joined or detached.");
+    }
+    auto rc = pthread_detach(thread);
+    if(rc != 0) {
+        throw PyException(strerror(rc));
+    }
     thread_is_finalized = true;
 }
 
-- 
2.43.0


From 1b2ed3605634c70c423464b7c4da5e5f203b8867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 90/92] fix: match globs with many stars without exponential
 backtracking

---
 src/pystd2025_filesystem.cpp | 62 +++++++++++++-----------------------
 src/pystd2026_filesystem.cpp | 62 +++++++++++++-----------------------
 2 files changed, 46 insertions(+), 78 deletions(-)

diff --git a/src/pystd2025_filesystem.cpp b/src/pystd2025_filesystem.cpp
index b371289..5975dfa 100644
--- a/src/pystd2025_filesystem.cpp
+++ b/src/pystd2025_filesystem.cpp
@@ -20,50 +20,34 @@ struct DirCloser {
     }
 };
 
-bool glob_matches(const char *text,
-                  const size_t text_offset,
-                  const char *pattern,
-                  const size_t pattern_offset) {
-    const char text_char = text[text_offset];
-    const char pattern_char = pattern[pattern_offset];
-    if(text_char == '\0') {
-        if(pattern_char == '\0') {
-            return true;
-        }
-        // A star matches the empty end of the text.
-        return pattern_char == '*' && glob_matches(text, text_offset, pattern, pattern_offset + 1);
-    }
-    if(pattern_char == '\0') {
+bool glob_matches(const char *text, const char *pattern) {
+    if(*text == '.' && *pattern == '*') {
+        // Files with leading dots do not match star globs.
         return false;
     }
-    if(pattern_char == '?') {
-        return glob_matches(text, text_offset + 1, pattern, pattern_offset + 1);
-    } else if(pattern_char == '*') {
-        if(text_offset == 0 && text_char == '.') {
-            // Files with leading dots do not match star globs.
+    // If the rest does not match, only the most recent star needs to
+    // be extended, trying others would take exponential time.
+    const char *after_star = nullptr;
+    const char *star_end = nullptr;
+    while(*text != '\0') {
+        if(*pattern == '*') {
+            after_star = ++pattern;
+            star_end = text;
+        } else if(*pattern == '?' || *pattern == *text) {
+            ++pattern;
+            ++text;
+        } else if(after_star) {
+            pattern = after_star;
+            text = ++star_end;
+        } else {
             return false;
         }
-        if(pattern[pattern_offset + 1] == '\0') {
-            // Pattern ends with a *, so it will match everything.
-            return true;
-        }
-        size_t gap = 0;
-        while(text[text_offset + gap] != '\0') {
-            if(glob_matches(text, text_offset + gap, pattern, pattern_offset + 1)) {
-                return true;
-            }
-            ++gap;
-        }
-        return glob_matches(text, text_offset + gap, pattern, pattern_offset + 1);
-    } else if(pattern_char == text_char) {
-        return glob_matches(text, text_offset + 1, pattern, pattern_offset + 1);
-    } else {
-        return false;
     }
-}
-
-bool glob_matches(const char *text, const char *pattern) {
-    return glob_matches(text, 0, pattern, 0);
+    // A star matches the empty end of the text.
+    while(*pattern == '*') {
+        ++pattern;
+    }
+    return *pattern == '\0';
 }
 
 bool is_real_dir(const dirent *entry, const Path &full_path) {
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 56d8cc8..eba0545 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -20,50 +20,34 @@ struct DirCloser {
     }
 };
 
-bool glob_matches(const char *text,
-                  const size_t text_offset,
-                  const char *pattern,
-                  const size_t pattern_offset) {
-    const char text_char = text[text_offset];
-    const char pattern_char = pattern[pattern_offset];
-    if(text_char == '\0') {
-        if(pattern_char == '\0') {
-            return true;
-        }
-        // A star matches the empty end of the text.
-        return pattern_char == '*' && glob_matches(text, text_offset, pattern, pattern_offset + 1);
-    }
-    if(pattern_char == '\0') {
+bool glob_matches(const char *text, const char *pattern) {
+    if(*text == '.' && *pattern == '*') {
+        // Files with leading dots do not match star globs.
         return false;
     }
-    if(pattern_char == '?') {
-        return glob_matches(text, text_offset + 1, pattern, pattern_offset + 1);
-    } else if(pattern_char == '*') {
-        if(text_offset == 0 && text_char == '.') {
-            // Files with leading dots do not match star globs.
+    // If the rest does not match, only the most recent star needs to
+    // be extended, trying others would take exponential time.
+    const char *after_star = nullptr;
+    const char *star_end = nullptr;
+    while(*text != '\0') {
+        if(*pattern == '*') {
+            after_star = ++pattern;
+            star_end = text;
+        } else if(*pattern == '?' || *pattern == *text) {
+            ++pattern;
+            ++text;
+        } else if(after_star) {
+            pattern = after_star;
+            text = ++star_end;
+        } else {
             return false;
         }
-        if(pattern[pattern_offset + 1] == '\0') {
-            // Pattern ends with a *, so it will match everything.
-            return true;
-        }
-        size_t gap = 0;
-        while(text[text_offset + gap] != '\0') {
-            if(glob_matches(text, text_offset + gap, pattern, pattern_offset + 1)) {
-                return true;
-            }
-            ++gap;
-        }
-        return glob_matches(text, text_offset + gap, pattern, pattern_offset + 1);
-    } else if(pattern_char == text_char) {
-        return glob_matches(text, text_offset + 1, pattern, pattern_offset + 1);
-    } else {
-        return false;
     }
-}
-
-bool glob_matches(const char *text, const char *pattern) {
-    return glob_matches(text, 0, pattern, 0);
+    // A star matches the empty end of the text.
+    while(*pattern == '*') {
+        ++pattern;
+    }
+    return *pattern == '\0';
 }
 
 bool is_real_dir(const dirent *entry, const Path &full_path) {
-- 
2.43.0


From 0d61caf262587520bd6af54c0f7ca72faf713bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 91/92] fix: grow the 2025 Vector geometrically when appending

---
 include/pystd2025.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pystd2025.hpp b/include/pystd2025.hpp
index b6d43cf..a386a63 100644
--- a/include/pystd2025.hpp
+++ b/include/pystd2025.hpp
@@ -1061,7 +1061,8 @@ public:
 
     void reserve(size_t new_size) {
         if(new_size > capacity()) {
-            resize_to(new_size);
+            const size_t doubled = 2 * capacity();
+            resize_to(new_size < doubled ? doubled : new_size);
         }
     }
 
-- 
2.43.0


From d53b7c46f5c152a67256c4e619d93bac69ccb98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 92/92] fix: rotate without recursing once per step, long
 ranges overflowed the stack

---
 include/pystd2026_rotate.hpp | 41 ++++++++++++++----------------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/include/pystd2026_rotate.hpp b/include/pystd2026_rotate.hpp
index 7669008..df7d28e 100644
--- a/include/pystd2026_rotate.hpp
+++ b/include/pystd2026_rotate.hpp
@@ -10,32 +10,23 @@ namespace pystd2026 {
 template<BasicIterator It> It rotate(It begin, It middle, It end) {
     using ValueType = ::pystd2026::remove_reference_t<decltype(*begin)>;
     ValueType scratch;
-    const auto LEFT_SIZE = middle - begin;
-    const auto RIGHT_SIZE = end - middle;
-
-    if(LEFT_SIZE == 0) {
-        return end;
-    }
-    if(RIGHT_SIZE == 0) {
-        return begin;
-    }
-
-    const auto NUM_SWAPS = LEFT_SIZE < RIGHT_SIZE ? LEFT_SIZE : RIGHT_SIZE;
-    for(ssize_t i = 0; i < NUM_SWAPS; ++i) {
-        ::pystd2026::swap(*(begin + i), *(middle + i), scratch);
-    }
-    if(LEFT_SIZE < RIGHT_SIZE) {
-        auto new_begin = begin + LEFT_SIZE;
-        auto new_middle = new_begin + LEFT_SIZE;
-        auto new_end = end;
-        ::pystd2026::rotate(new_begin, new_middle, new_end);
-    } else if(RIGHT_SIZE < LEFT_SIZE) {
-        auto new_begin = begin + RIGHT_SIZE;
-        auto new_middle = middle;
-        auto new_end = end;
-        ::pystd2026::rotate(new_begin, new_middle, new_end);
+    const auto RESULT = begin + (end - middle);
+
+    // Move the smaller side to its final location by swapping until
+    // there is nothing left to move.
+    while(begin != middle && middle != end) {
+        const auto LEFT_SIZE = middle - begin;
+        const auto RIGHT_SIZE = end - middle;
+        const auto NUM_SWAPS = LEFT_SIZE < RIGHT_SIZE ? LEFT_SIZE : RIGHT_SIZE;
+        for(ssize_t i = 0; i < NUM_SWAPS; ++i) {
+            ::pystd2026::swap(*(begin + i), *(middle + i), scratch);
+        }
+        begin = begin + NUM_SWAPS;
+        if(LEFT_SIZE <= RIGHT_SIZE) {
+            middle = begin + LEFT_SIZE;
+        }
     }
-    return begin + RIGHT_SIZE;
+    return RESULT;
 }
 
 template<WellBehaved T>
-- 
2.43.0

