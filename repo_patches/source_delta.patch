From 1426368aa0e568690596bd1f1e92b822ecb4f9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:06 +0000
Subject: [PATCH 01/43] fix: align component blocks and chunk buffers and keep
 blocks within the chunk

---
 include/co_ecs/archetype.hpp   | 28 +++++++++++++++++++---------
 include/co_ecs/chunk.hpp       | 25 ++++++++++++++++---------
 include/co_ecs/detail/bits.hpp |  9 +++++++++
 3 files changed, 44 insertions(+), 18 deletions(-)

diff --git a/include/co_ecs/archetype.hpp b/include/co_ecs/archetype.hpp
index 78a5227..a22fc6b 100644
--- a/include/co_ecs/archetype.hpp
+++ b/include/co_ecs/archetype.hpp
@@ -188,9 +188,12 @@ private:
         const std::size_t size_in_bytes = _max_size * meta.type->size;
         const std::size_t align = meta.type->align;
 
+        // a block starts at the next offset suitable for the component type
+        offset = detail::align_up_2n(offset, align);
+
         _blocks.emplace(meta.id, offset, meta);
 
-        offset += detail::mod_2n(offset, align) + size_in_bytes;
+        offset += size_in_bytes;
 
         return offset;
     }
@@ -220,7 +223,14 @@ private:
         auto remaining_elements_count = remaining_space / packed_components_size(components_meta);
 
         // The maximum amount of entities we can hold is grater by 1 for which we calculated aligned_size
-        return remaining_elements_count + 1;
+        auto max_size = remaining_elements_count + 1;
+
+        // The padding between blocks depends on the number of entities and may not fit
+        while (aligned_components_size(components_meta, max_size) > chunk::chunk_bytes) {
+            max_size--;
+        }
+
+        return max_size;
     }
 
     // Calculate size of packed structure of components
@@ -231,15 +241,15 @@ private:
             [](const auto& res, const auto& meta) { return res + meta.type->size; });
     }
 
-    // Calculate size of properly aligned structure of components
-    static auto aligned_components_size(auto&& components_meta) noexcept -> std::size_t {
-        auto begin = chunk::alloc_alignment;
+    // Calculate size of properly aligned blocks of count components each
+    static auto aligned_components_size(auto&& components_meta, std::size_t count = 1) noexcept -> std::size_t {
+        std::size_t begin = 0;
         auto end = begin;
 
-        // Add single component element size accounting for its alignment
-        auto add_elements = [&end](const component_meta& meta) {
-            end += detail::mod_2n(std::bit_cast<std::size_t>(end), meta.type->align);
-            end += meta.type->size;
+        // Add component elements size accounting for their alignment
+        auto add_elements = [&end, count](const component_meta& meta) {
+            end = detail::align_up_2n(end, meta.type->align);
+            end += count * meta.type->size;
         };
 
         add_elements(component_meta::of<entity>());
diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index 097dc75..1f084b5 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -1,6 +1,8 @@
 #pragma once
 
+#include <algorithm>
 #include <cassert>
+#include <cstddef>
 #include <cstdint>
 #include <new>
 #include <optional>
@@ -39,20 +41,16 @@ public:
     /// @brief Chunk size in bytes
     static constexpr std::size_t chunk_bytes = static_cast<const std::size_t>(16U * 1024); // 16 KB
 
-    /// @brief Block allocation alignment
-    static constexpr std::size_t alloc_alignment = alignof(entity);
-
-    /// @brief Chunk buffer type
-    struct alignas(alloc_alignment) chunk_buffer {
-        std::byte data[chunk_bytes];
-    };
+    /// @brief Minimum block allocation alignment
+    static constexpr std::size_t alloc_alignment = alignof(std::max_align_t);
 
     /// @brief Construct a new chunk object
     ///
     /// @param blocks Component blocks
     /// @param max_size Maxium size of entries this chunk can hold
     chunk(const blocks_type& blocks, std::size_t max_size) :
-        _blocks(&blocks), _max_size(max_size), _buffer((new chunk_buffer)->data) {
+        _blocks(&blocks), _max_size(max_size),
+        _buffer(static_cast<std::byte*>(::operator new(chunk_bytes, buffer_alignment(blocks)))) {
     }
 
     /// @brief Deleted copy constructor
@@ -94,7 +92,7 @@ public:
                 block.meta.type->destruct(_buffer + block.offset + i * block.meta.type->size);
             }
         }
-        delete reinterpret_cast<chunk_buffer*>(_buffer);
+        ::operator delete(_buffer, buffer_alignment(*_blocks));
     }
 
     /// @brief Emplace back components into blocks
@@ -255,6 +253,15 @@ public:
 private:
     friend class base_registry;
 
+    // Alignment of the buffer suitable for every block in it
+    static auto buffer_alignment(const blocks_type& blocks) noexcept -> std::align_val_t {
+        std::size_t alignment = alloc_alignment;
+        for (const auto& [id, block] : blocks) {
+            alignment = std::max(alignment, block.meta.type->align);
+        }
+        return std::align_val_t{ alignment };
+    }
+
     constexpr static void visit_impl(auto&& self, std::size_t index, auto&& func) noexcept {
         assert((index < self._size) && "Entity index exceeds chunk size");
 
diff --git a/include/co_ecs/detail/bits.hpp b/include/co_ecs/detail/bits.hpp
index a7f4651..08baf0b 100644
--- a/include/co_ecs/detail/bits.hpp
+++ b/include/co_ecs/detail/bits.hpp
@@ -11,6 +11,15 @@ constexpr auto mod_2n(auto value, auto divisor) noexcept -> decltype(auto) {
     return value & (divisor - 1U);
 }
 
+/// @brief Round value up to a multiple of b=2^n
+///
+/// @param value Value
+/// @param alignment Power of 2 alignment
+/// @return decltype(auto) Result
+constexpr auto align_up_2n(auto value, auto alignment) noexcept -> decltype(auto) {
+    return (value + (alignment - 1U)) & ~(alignment - 1U);
+}
+
 /// @brief Check if value is a power of 2
 /// @param value Power of two value
 /// @return True if power of two, false otherwise
-- 
2.43.0


From 4caa5805f8e4e66c22d829da0df8b1d56b6116ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:55 +0000
Subject: [PATCH 02/43] fix: build the new component before touching the entity
 in entity_ref set and get_or_insert

---
 include/co_ecs/entity_ref.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/co_ecs/entity_ref.hpp b/include/co_ecs/entity_ref.hpp
index f1b7751..6557309 100644
--- a/include/co_ecs/entity_ref.hpp
+++ b/include/co_ecs/entity_ref.hpp
@@ -148,11 +148,13 @@ public:
     /// @return C& Reference to the component C.
     template<component C>
     [[nodiscard]] constexpr auto get_or_insert(auto&&... args) -> C& {
-        auto [inserted, ptr] = _registry.get().set_impl<C>(_entity);
-        if (inserted) {
-            std::construct_at(ptr, std::forward<decltype(args)>(args)...);
+        if (!_registry.get().template has<C>(_entity)) {
+            // Construct the component first, args may refer to components which are moved to a new archetype
+            auto component = C(std::forward<decltype(args)>(args)...);
+            auto [inserted, ptr] = _registry.get().set_impl<C>(_entity);
+            return *std::construct_at(ptr, std::move(component));
         }
-        return *ptr;
+        return get<C>();
     }
 
     /// @brief Set component to an entity. It can either override a component value that is already assigned to an
@@ -175,11 +177,13 @@ public:
     /// @return entity_ref Returns this entity to allow method chaining.
     template<component C, typename... Args>
     constexpr auto set(Args&&... args) -> entity_ref {
-        auto [inserted, ptr] = _registry.get().set_impl<C>(_entity);
-        if (inserted) {
-            std::construct_at(ptr, std::forward<Args>(args)...);
+        if (!_registry.get().template has<C>(_entity)) {
+            // Construct the component first, args may refer to components which are moved to a new archetype
+            auto component = C(std::forward<Args>(args)...);
+            auto [inserted, ptr] = _registry.get().set_impl<C>(_entity);
+            std::construct_at(ptr, std::move(component));
         } else {
-            *ptr = C{ std::forward<Args>(args)... };
+            get<C>() = C{ std::forward<Args>(args)... };
         }
         return *this;
     }
-- 
2.43.0


From 01b769b150b1b87e172177ebb86d7013352d5679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:26 +0000
Subject: [PATCH 03/43] fix: fill holes in every chunk when an entity leaves an
 archetype

---
 include/co_ecs/chunk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index 1f084b5..242c174 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -124,7 +124,7 @@ public:
     /// @return std::optional<entity>
     auto swap_erase(std::size_t index, chunk& other) noexcept -> std::optional<entity> {
         assert((index < _size) && "Entity index exceeds chunk size");
-        if (size() == 1 || index == _size - 1) {
+        if (this == &other && index == _size - 1) {
             pop_back();
             return std::nullopt;
         }
-- 
2.43.0


From 55c42eed30e2944920950e64dc96c7779614dd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:32 +0000
Subject: [PATCH 04/43] fix: let entity_ref has and archetype raise
 entity_not_found

---
 include/co_ecs/entity_ref.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/entity_ref.hpp b/include/co_ecs/entity_ref.hpp
index 6557309..6a24101 100644
--- a/include/co_ecs/entity_ref.hpp
+++ b/include/co_ecs/entity_ref.hpp
@@ -28,7 +28,7 @@ public:
     /// Accessing the archetype can be useful for inspecting the structure and component makeup of the entity.
     ///
     /// @return const archetype& A reference to the archetype of the entity.
-    [[nodiscard]] constexpr auto archetype() const noexcept -> const archetype& {
+    [[nodiscard]] constexpr auto archetype() const -> const archetype& {
         return *_registry.get().get_location(_entity).archetype;
     }
 
@@ -52,7 +52,7 @@ public:
     /// @tparam C The component types to check for.
     /// @return bool Returns true if the entity has all specified components; otherwise, false.
     template<component... C>
-    [[nodiscard]] constexpr auto has() const noexcept -> bool {
+    [[nodiscard]] constexpr auto has() const -> bool {
         return _registry.get().template has<C...>(_entity);
     }
 
@@ -372,7 +372,7 @@ public:
     /// Accessing the archetype can be useful for inspecting the structure and component makeup of the entity.
     ///
     /// @return const archetype& A reference to the archetype of the entity.
-    [[nodiscard]] constexpr auto archetype() const noexcept -> const archetype& {
+    [[nodiscard]] constexpr auto archetype() const -> const archetype& {
         return *_registry.get().get_location(_entity).archetype;
     }
 
@@ -396,7 +396,7 @@ public:
     /// @tparam C The component types to check for.
     /// @return bool Returns true if the entity has all specified components; otherwise, false.
     template<component... C>
-    [[nodiscard]] constexpr auto has() const noexcept -> bool {
+    [[nodiscard]] constexpr auto has() const -> bool {
         return _registry.get().template has<C...>(_entity);
     }
 
-- 
2.43.0


From dc74f8503d5836c8984625b366e45026bb9f6778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:40 +0000
Subject: [PATCH 05/43] fix: give the new handle back when cloning, copying or
 moving an entity fails

---
 include/co_ecs/base_registry.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/base_registry.hpp b/include/co_ecs/base_registry.hpp
index 2a5ea7a..d92dbc1 100644
--- a/include/co_ecs/base_registry.hpp
+++ b/include/co_ecs/base_registry.hpp
@@ -208,11 +208,18 @@ protected:
 
     entity move(entity ent, base_registry& dest) {
         assert((&dest != this) && "Move to the same registry does not make sense");
+        ensure_alive(ent);
         return move(ent, dest, dest.allocate());
     }
 
     entity copy(entity ent, base_registry& dest) const {
-        return copy(ent, dest, dest.allocate());
+        auto handle = dest.allocate();
+        try {
+            return copy(ent, dest, handle);
+        } catch (...) {
+            dest._entity_pool.recycle(handle);
+            throw;
+        }
     }
 
     entity move(entity ent, base_registry& dest, placeholder_entity placeholder) {
@@ -257,7 +264,7 @@ protected:
     }
 
     entity clone(entity ent) {
-        return copy(ent, *this, allocate());
+        return copy(ent, *this);
     }
 
     entity clone(entity ent, placeholder_entity placeholder) {
-- 
2.43.0


From f4236eef90a4f8de9660f707f417a95270b19d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 06/43] fix: leave no archetype entry, entity or reservation
 behind when a component set does not fit a chunk

---
 include/co_ecs/archetype.hpp     | 34 +++++++++++++++++++++-----------
 include/co_ecs/base_registry.hpp |  2 +-
 include/co_ecs/command.hpp       |  2 +-
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/include/co_ecs/archetype.hpp b/include/co_ecs/archetype.hpp
index a22fc6b..cf4001d 100644
--- a/include/co_ecs/archetype.hpp
+++ b/include/co_ecs/archetype.hpp
@@ -314,13 +314,13 @@ public:
     /// @param components Components meta set
     /// @return archetype*
     auto ensure_archetype(const component_meta_set& components) -> archetype* {
-        auto& archetype = _archetypes[components.ids()];
+        auto archetype = find_archetype(components.ids());
         if (!archetype) {
-            archetype = create_archetype(components);
+            archetype = insert_archetype(components.ids(), create_archetype(components));
         }
         assert((archetype->components().ids() == components.ids())
                && "Archetype components do not match the search request");
-        return archetype.get();
+        return archetype;
     }
 
     /// @brief Get or create an archetype matching the passed Components types
@@ -332,13 +332,13 @@ public:
         _search_component_set.clear();
         (..., _search_component_set.insert<Components>());
 
-        auto& archetype = _archetypes[_search_component_set];
+        auto archetype = find_archetype(_search_component_set);
         if (!archetype) {
-            archetype = create_archetype(component_meta_set::create<Components...>());
+            archetype = insert_archetype(_search_component_set, create_archetype(component_meta_set::create<Components...>()));
         }
         assert((archetype->components().ids() == _search_component_set)
                && "Archetype components do not match the search request");
-        return archetype.get();
+        return archetype;
     }
 
     /// @brief Get or create an archetype by adding new Components to an anchor archetype
@@ -351,13 +351,13 @@ public:
         _search_component_set = anchor_archetype->components().ids();
         (..., _search_component_set.insert<Components>());
 
-        auto& archetype = _archetypes[_search_component_set];
+        auto archetype = find_archetype(_search_component_set);
         if (!archetype) {
-            archetype = create_archetype_added<Components...>(anchor_archetype);
+            archetype = insert_archetype(_search_component_set, create_archetype_added<Components...>(anchor_archetype));
         }
         assert((archetype->components().ids() == _search_component_set)
                && "Archetype components do not match the search request");
-        return archetype.get();
+        return archetype;
     }
 
     /// @brief Get or create an archetype by removing Components from an anchor archetype
@@ -370,13 +370,13 @@ public:
         _search_component_set = anchor_archetype->components().ids();
         (..., _search_component_set.erase<Components>());
 
-        auto& archetype = _archetypes[_search_component_set];
+        auto archetype = find_archetype(_search_component_set);
         if (!archetype) {
-            archetype = create_archetype_removed<Components...>(anchor_archetype);
+            archetype = insert_archetype(_search_component_set, create_archetype_removed<Components...>(anchor_archetype));
         }
         assert((archetype->components().ids() == _search_component_set)
                && "Archetype components do not match the search request");
-        return archetype.get();
+        return archetype;
     }
 
     /// @brief Returns iterator to the beginning of archetypes container
@@ -415,6 +415,16 @@ public:
     }
 
 private:
+    // Find an archetype without creating an entry for it, creation of the archetype may fail
+    auto find_archetype(const component_set& components) -> archetype* {
+        auto it = _archetypes.find(components);
+        return it == _archetypes.end() ? nullptr : it->second.get();
+    }
+
+    auto insert_archetype(const component_set& components, std::unique_ptr<archetype> archetype) -> class archetype* {
+        return _archetypes.emplace(components, std::move(archetype)).first->second.get();
+    }
+
     static auto create_archetype(auto&& components) -> std::unique_ptr<archetype> {
         return std::make_unique<archetype>(std::forward<decltype(components)>(components));
     }
diff --git a/include/co_ecs/base_registry.hpp b/include/co_ecs/base_registry.hpp
index d92dbc1..8b23ed7 100644
--- a/include/co_ecs/base_registry.hpp
+++ b/include/co_ecs/base_registry.hpp
@@ -142,8 +142,8 @@ protected:
         // compile-time check to make sure all component types in parameter pack are unique
         [[maybe_unused]] detail::unique_types<Components...> uniqueness_check;
 
-        auto entity = allocate();
         auto archetype = _archetypes.ensure_archetype<Components...>();
+        auto entity = allocate();
         auto location = archetype->template emplace<Components...>(entity, std::forward<Components>(args)...);
         set_location(entity.id(), location);
         return entity;
diff --git a/include/co_ecs/command.hpp b/include/co_ecs/command.hpp
index 720313a..d09dfcc 100644
--- a/include/co_ecs/command.hpp
+++ b/include/co_ecs/command.hpp
@@ -252,8 +252,8 @@ public:
     /// @return A reference to the newly created command entity.
     template<component... Args>
     auto create(Args&&... args) -> command_entity_ref {
-        auto entity = _reg.reserve();
         auto staging_entity = _cmds.staging().template create<Args...>(std::forward<Args>(args)...);
+        auto entity = _reg.reserve();
         _cmds.push<command_buffer::command_create>(staging_entity, entity);
         return command_entity_ref{ _cmds, _reg, entity.get_entity() };
     }
-- 
2.43.0


From 0c5c6026447b348a5f1271b7c67c8ca8272e771c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:52 +0000
Subject: [PATCH 07/43] fix: let exceptions of a visitor reach the caller of
 visit

---
 include/co_ecs/chunk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index 242c174..259ba9d 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -188,14 +188,14 @@ public:
     /// @brief Visit components at given index
     /// @param index Index of an entity
     /// @param func Func to apply to components
-    constexpr void visit(std::size_t index, auto&& func) noexcept {
+    constexpr void visit(std::size_t index, auto&& func) {
         visit_impl(*this, index, std::forward<decltype(func)>(func));
     }
 
     /// @brief Visit components at given index
     /// @param index Index of an entity
     /// @param func Func to apply to components
-    constexpr void visit(std::size_t index, auto&& func) const noexcept {
+    constexpr void visit(std::size_t index, auto&& func) const {
         visit_impl(*this, index, std::forward<decltype(func)>(func));
     }
 
@@ -262,7 +262,7 @@ private:
         return std::align_val_t{ alignment };
     }
 
-    constexpr static void visit_impl(auto&& self, std::size_t index, auto&& func) noexcept {
+    constexpr static void visit_impl(auto&& self, std::size_t index, auto&& func) {
         assert((index < self._size) && "Entity index exceeds chunk size");
 
         constexpr auto is_const = std::is_const_v<std::remove_reference_t<decltype(self)>>;
-- 
2.43.0


From 8d35dce3eb0b4093766a8200fff89cc02285756f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:00 +0000
Subject: [PATCH 08/43] fix: destroy the components already copied when a copy
 constructor throws

---
 include/co_ecs/chunk.hpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index 259ba9d..0f4987e 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -171,15 +171,33 @@ public:
         assert((index < _size) && "Entity index exceeds chunk size");
         assert((!other_chunk.full()) && "Other chunk is full, cannot move entity to it");
         const std::size_t other_chunk_index = other_chunk._size;
-        for (const auto& [id, block] : *_blocks) {
-            const auto* type = block.meta.type;
-            if (!other_chunk._blocks->contains(id)) {
-                continue;
+        std::size_t copied = 0;
+        try {
+            for (const auto& [id, block] : *_blocks) {
+                const auto* type = block.meta.type;
+                if (!other_chunk._blocks->contains(id)) {
+                    continue;
+                }
+                auto* ptr = other_chunk._buffer + other_chunk._blocks->at(id).offset + other_chunk_index * type->size;
+                if (type->copy_construct) {
+                    type->copy_construct(ptr, _buffer + block.offset + index * type->size);
+                }
+                copied++;
             }
-            auto* ptr = other_chunk._buffer + other_chunk._blocks->at(id).offset + other_chunk_index * type->size;
-            if (type->copy_construct) {
-                type->copy_construct(ptr, _buffer + block.offset + index * type->size);
+        } catch (...) {
+            // destroy components that have been copied before the one that failed
+            for (const auto& [id, block] : *_blocks) {
+                if (!other_chunk._blocks->contains(id)) {
+                    continue;
+                }
+                if (copied-- == 0) {
+                    break;
+                }
+                const auto* type = block.meta.type;
+                type->destruct(
+                    other_chunk._buffer + other_chunk._blocks->at(id).offset + other_chunk_index * type->size);
             }
+            throw;
         }
         other_chunk._size++;
         return other_chunk_index;
-- 
2.43.0


From ddc9d0ffc2970ae412d88039e501f751cd5b5838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:30 +0000
Subject: [PATCH 09/43] fix: keep no empty chunk behind a copy that failed

---
 include/co_ecs/archetype.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/archetype.hpp b/include/co_ecs/archetype.hpp
index cf4001d..8c73d19 100644
--- a/include/co_ecs/archetype.hpp
+++ b/include/co_ecs/archetype.hpp
@@ -119,7 +119,16 @@ public:
 
         assert((location.entry_index < chunk.size()) && "Entity location index exceeds chunk size");
 
-        auto entry_index = chunk.copy(location.entry_index, free_chunk);
+        std::size_t entry_index{};
+        try {
+            entry_index = chunk.copy(location.entry_index, free_chunk);
+        } catch (...) {
+            // do not keep an empty chunk that was added for the entity
+            if (free_chunk.empty() && other._chunks.size() > 1) {
+                other._chunks.pop_back();
+            }
+            throw;
+        }
         auto new_location = entity_location{
             &other,
             other._chunks.size() - 1,
-- 
2.43.0


From 1bd9ef33703044a364a9c8740ddb778cac3e4a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:53 +0000
Subject: [PATCH 10/43] fix: destroy the staged component once a set command
 has been executed

---
 include/co_ecs/command.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/command.hpp b/include/co_ecs/command.hpp
index d09dfcc..2b2f671 100644
--- a/include/co_ecs/command.hpp
+++ b/include/co_ecs/command.hpp
@@ -168,8 +168,9 @@ public:
         _commands.push<command_buffer::command_set>(staging_entity,
             _entity,
             [](auto& staging_registry, auto staging_entity, auto& dest_registry, auto dest_entity) {
-                dest_registry.get_entity(dest_entity)
-                    .template set<C>(std::move(staging_registry.get_entity(staging_entity).template get<C>()));
+                auto component = std::move(staging_registry.get_entity(staging_entity).template get<C>());
+                staging_registry.destroy(staging_entity);
+                dest_registry.get_entity(dest_entity).template set<C>(std::move(component));
             });
         return *this;
     }
-- 
2.43.0


From d9fc1a534fcf11d12fab7626f12c4659bd489522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:40 +0000
Subject: [PATCH 11/43] fix: account for pending reservations before creating
 or recycling a handle

---
 include/co_ecs/detail/handle.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/co_ecs/detail/handle.hpp b/include/co_ecs/detail/handle.hpp
index d7d9fc5..20e4770 100644
--- a/include/co_ecs/detail/handle.hpp
+++ b/include/co_ecs/detail/handle.hpp
@@ -72,6 +72,7 @@ public:
     /// @brief Creates a new handle.
     /// @return Handle
     [[nodiscard]] constexpr auto create() -> H {
+        flush_pending();
         if (!_free_ids.empty()) {
             auto id = _free_ids.back();
             _free_ids.pop_back();
@@ -99,6 +100,7 @@ public:
         if (!alive(handle)) {
             return;
         }
+        flush_pending();
         _generations[handle.id()]++;
         _free_ids.push_back(handle.id());
         _free_cursor.fetch_add(1, std::memory_order::relaxed);
@@ -134,6 +136,13 @@ public:
     }
 
 private:
+    // Handles reserved since the last flush have to be accounted for before free ids are added or taken
+    constexpr void flush_pending() {
+        if (_free_cursor.load(std::memory_order::relaxed) != static_cast<std::int64_t>(_free_ids.size())) {
+            flush();
+        }
+    }
+
     std::atomic<typename H::id_t> _next_id{};
     std::atomic<std::int64_t> _free_cursor{};
     std::vector<typename H::generation_t> _generations;
-- 
2.43.0


From 7104aaffb9446bf78c1a083a537e8f1947e6079b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:50 +0000
Subject: [PATCH 12/43] fix: move the offset of a stack allocator along with
 its region

---
 include/co_ecs/detail/allocator/stack_allocator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/allocator/stack_allocator.hpp b/include/co_ecs/detail/allocator/stack_allocator.hpp
index e4d604d..c38fb47 100644
--- a/include/co_ecs/detail/allocator/stack_allocator.hpp
+++ b/include/co_ecs/detail/allocator/stack_allocator.hpp
@@ -32,7 +32,8 @@ public:
     /// @brief Move constructor
     /// @param rhs Other allocator
     stack_allocator(stack_allocator&& rhs) noexcept :
-        _start(std::exchange(rhs._start, nullptr)), _size(std::exchange(rhs._size, 0)) {
+        _start(std::exchange(rhs._start, nullptr)), _offset(std::exchange(rhs._offset, 0)),
+        _size(std::exchange(rhs._size, 0)) {
     }
 
     /// @brief Move assignment
@@ -40,6 +41,7 @@ public:
     /// @return Allocator
     stack_allocator& operator=(stack_allocator&& rhs) noexcept {
         _start = std::exchange(rhs._start, nullptr);
+        _offset = std::exchange(rhs._offset, 0);
         _size = std::exchange(rhs._size, 0);
         return *this;
     }
-- 
2.43.0


From 3f907e82c9f25afdae18d4f3832aa454206f2bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:50 +0000
Subject: [PATCH 13/43] fix: refuse stack allocations when there is no space
 for the header

---
 include/co_ecs/detail/allocator/stack_allocator.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/co_ecs/detail/allocator/stack_allocator.hpp b/include/co_ecs/detail/allocator/stack_allocator.hpp
index c38fb47..df4dabb 100644
--- a/include/co_ecs/detail/allocator/stack_allocator.hpp
+++ b/include/co_ecs/detail/allocator/stack_allocator.hpp
@@ -54,6 +54,11 @@ public:
         assert(is_power_of_2(alignment) && "Alignment must be a power of two");
         assert((alignment <= std::numeric_limits<padding_t>::max()) && "Alignment is out of range");
 
+        // No space for the allocation header
+        if (remaining() < sizeof(alloc_header)) {
+            return nullptr;
+        }
+
         // Get the top of the stack
         char* top = _start + _offset;
         // Get the pointer to the top + 1 allocation header
-- 
2.43.0


From b69569fdaaa06c26060397638b05c20011abc844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:05 +0000
Subject: [PATCH 14/43] fix: reject temporary allocations whose size in bytes
 overflows

---
 include/co_ecs/detail/allocator/temp_allocator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/co_ecs/detail/allocator/temp_allocator.hpp b/include/co_ecs/detail/allocator/temp_allocator.hpp
index 5cb4037..7729c2a 100644
--- a/include/co_ecs/detail/allocator/temp_allocator.hpp
+++ b/include/co_ecs/detail/allocator/temp_allocator.hpp
@@ -37,6 +37,9 @@ public:
     /// @param n Elements to allocate
     /// @return Pointer to allocated memory
     [[nodiscard]] constexpr T* allocate(std::size_t n) {
+        if (n > global_stack_allocator_size / sizeof(T)) {
+            throw std::bad_alloc{};
+        }
         auto* ptr = static_cast<T*>(global_stack_allocator.allocate(n * sizeof(T), alignof(T)));
         if (!ptr) {
             throw std::bad_alloc{};
-- 
2.43.0


From dbe4dc9a6aab7f53c1cc4f3a63319d19601b2977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:29 +0000
Subject: [PATCH 15/43] fix: return const iterators from hash table cbegin and
 cend

---
 include/co_ecs/detail/hash_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 45c81ba..552a459 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -656,14 +656,14 @@ public:
     /// @brief Get iterator to the begin of the container
     ///
     /// @return Iterator
-    [[nodiscard]] constexpr auto cbegin() const noexcept -> iterator {
+    [[nodiscard]] constexpr auto cbegin() const noexcept -> const_iterator {
         return begin();
     }
 
     /// @brief Get iterator to the end of the container
     ///
     /// @return Iterator
-    [[nodiscard]] constexpr auto cend() const noexcept -> iterator {
+    [[nodiscard]] constexpr auto cend() const noexcept -> const_iterator {
         return end();
     }
 
-- 
2.43.0


From 52f228b26c7ec6789551519caf7b13536e309fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:39 +0000
Subject: [PATCH 16/43] fix: make the post-increment of hash table iterators
 compile

---
 include/co_ecs/detail/hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 552a459..3c46cf1 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -221,7 +221,7 @@ private:
         /// @return iterator_impl& Iterator
         constexpr auto operator++(int) noexcept -> iterator_impl {
             iterator_impl tmp(*this);
-            *this ++;
+            ++*this;
             return tmp;
         }
 
-- 
2.43.0


From ceb270e5456412fcfe4f3430076dc23da2fa44de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:46 +0000
Subject: [PATCH 17/43] fix: size the bucket info of a range-constructed hash
 table by its bucket count

---
 include/co_ecs/detail/hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 3c46cf1..18290b9 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -326,7 +326,7 @@ public:
         const Hash& hash = Hash(),
         const key_equal& equal = key_equal(),
         const Allocator& alloc = Allocator()) :
-        _buckets(alloc, bucket_count), _info(default_bucket_count), _equal(equal), _hash(hash) {
+        _buckets(alloc, bucket_count), _info(bucket_count), _equal(equal), _hash(hash) {
         assert((bucket_count % 2 == 0) && "Bucket count must be a power of two");
         for (; first != last; ++first) {
             emplace_or_assign_impl(std::move(*first));
-- 
2.43.0


From c347fb72e87b790b889a730555769d11fb70682f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:16 +0000
Subject: [PATCH 18/43] fix: round the bucket count up to a power of two in
 hash table reserve

---
 include/co_ecs/detail/hash_table.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 18290b9..6b7cfbf 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <algorithm>
+#include <bit>
 #include <cassert>
 #include <memory>
 #include <stdexcept>
@@ -612,6 +614,9 @@ public:
             return;
         }
 
+        // bucket count must be a power of two
+        new_size = std::bit_ceil(std::max(new_size, size_type{ 2 }));
+
         hash_table h_table(new_size, _hash, _equal, _buckets.allocator());
 
         for (auto& value : *this) {
-- 
2.43.0


From 2f1147f6c859309c3f0eb1e1c1e5537b80c3926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 19/43] fix: destroy the slot freed by hash table erase

---
 include/co_ecs/detail/hash_table.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 6b7cfbf..733f5ee 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -736,6 +736,9 @@ private:
             info = n_info;
         }
 
+        // destroy what is left in the slot that became free
+        allocator_traits::destroy(_buckets.allocator(), ptr);
+
         const size_type threshold = approx_40_percent(bucket_size);
         if (_size > default_bucket_count && _size < threshold) {
             const auto new_size = bucket_size >> size_type{ 1 };
-- 
2.43.0


From 11656ed0f2e4ff6653238d7f31a4ffa7f61fbf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:12 +0000
Subject: [PATCH 20/43] fix: build the value to insert before the hash table
 grows

---
 include/co_ecs/detail/hash_table.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 733f5ee..3bff90b 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -751,8 +751,11 @@ private:
         size_type buckets_size = _buckets.size();
         const size_type threshold = approx_85_percent(buckets_size);
         if (_size > threshold) {
+            // arguments may refer to an element of this table
+            value_type value(std::forward<Args>(args)...);
             const auto new_size = buckets_size << size_type{ 1 };
             reserve(new_size);
+            return _emplace_impl(std::move(value));
         }
 
         return _emplace_impl(std::forward<Args>(args)...);
@@ -763,8 +766,11 @@ private:
         size_type buckets_size = _buckets.size();
         const size_type threshold = approx_85_percent(buckets_size);
         if (_size > threshold) {
+            // arguments may refer to an element of this table
+            value_type value(std::forward<Args>(args)...);
             const auto new_size = buckets_size << size_type{ 1 };
             reserve(new_size);
+            return _emplace_or_assign_impl(std::move(value));
         }
         return _emplace_or_assign_impl(std::forward<Args>(args)...);
     }
-- 
2.43.0


From 7f6ce72592b0aa9bfd76af3f73cf779845c5f030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:23 +0000
Subject: [PATCH 21/43] fix: count the elements of a sparse table in size_type

---
 include/co_ecs/detail/sparse_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/sparse_table.hpp b/include/co_ecs/detail/sparse_table.hpp
index 69ad330..f8c5c1b 100644
--- a/include/co_ecs/detail/sparse_table.hpp
+++ b/include/co_ecs/detail/sparse_table.hpp
@@ -215,7 +215,7 @@ public:
         } else {
             _dense.emplace_back(key);
         }
-        _sparse[key] = _size;
+        _sparse[key] = static_cast<key_type>(_size);
         ++_size;
         return std::pair(_dense.begin() + _sparse[key], true);
     }
@@ -306,7 +306,7 @@ private:
     std::vector<value_type, Allocator> _dense;
     std::vector<key_type> _sparse;
 
-    key_type _size{};
+    size_type _size{};
     size_t _sparse_capacity{};
 };
 
-- 
2.43.0


From 15c59f1acf840aa0e2c71ff14bf9c5740761f900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:16 +0000
Subject: [PATCH 22/43] fix: leave a moved-from sparse table empty

---
 include/co_ecs/detail/sparse_table.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/sparse_table.hpp b/include/co_ecs/detail/sparse_table.hpp
index f8c5c1b..36c476a 100644
--- a/include/co_ecs/detail/sparse_table.hpp
+++ b/include/co_ecs/detail/sparse_table.hpp
@@ -2,6 +2,7 @@
 
 #include <memory>
 #include <stdexcept>
+#include <utility>
 #include <vector>
 
 namespace co_ecs::detail {
@@ -38,7 +39,10 @@ public:
     /// @brief Move constructor
     ///
     /// @param rhs Sparse container to move from
-    constexpr sparse_table(sparse_table&& rhs) noexcept = default;
+    constexpr sparse_table(sparse_table&& rhs) noexcept :
+        _dense(std::move(rhs._dense)), _sparse(std::move(rhs._sparse)), _size(std::exchange(rhs._size, 0)),
+        _sparse_capacity(std::exchange(rhs._sparse_capacity, 0)) {
+    }
 
     /// @brief Copy constructor
     ///
@@ -49,7 +53,13 @@ public:
     ///
     /// @param rhs Sparse container to move from
     /// @return Container data from rhs moved to
-    constexpr auto operator=(sparse_table&& rhs) noexcept -> sparse_table& = default;
+    constexpr auto operator=(sparse_table&& rhs) noexcept -> sparse_table& {
+        _dense = std::move(rhs._dense);
+        _sparse = std::move(rhs._sparse);
+        _size = std::exchange(rhs._size, 0);
+        _sparse_capacity = std::exchange(rhs._sparse_capacity, 0);
+        return *this;
+    }
 
     /// @brief Copy assignment
     ///
-- 
2.43.0


From a26530ab8d7518f877d2eb99ce20c4d32e6ec6cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:20 +0000
Subject: [PATCH 23/43] fix: publish the grown array of the work stealing queue
 with release order

---
 include/co_ecs/detail/work_stealing_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/work_stealing_queue.hpp b/include/co_ecs/detail/work_stealing_queue.hpp
index b835ae6..1fd98d0 100644
--- a/include/co_ecs/detail/work_stealing_queue.hpp
+++ b/include/co_ecs/detail/work_stealing_queue.hpp
@@ -67,7 +67,7 @@ public:
             auto* tmp = array->grow(bottom, top);
             _garbage.push_back(array);
             std::swap(array, tmp);
-            _array.store(array, std::memory_order_relaxed);
+            _array.store(array, std::memory_order_release);
         }
 
         array->push(bottom, std::forward<decltype(o)>(o));
-- 
2.43.0


From 533585b725c4af5d1aed85167f88813900d0df92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:49 +0000
Subject: [PATCH 24/43] fix: finish a parent task once, in the call that
 completes its last child, with acquire/release order

---
 include/co_ecs/thread_pool/task.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/thread_pool/task.hpp b/include/co_ecs/thread_pool/task.hpp
index 18b8a7e..ead8600 100644
--- a/include/co_ecs/thread_pool/task.hpp
+++ b/include/co_ecs/thread_pool/task.hpp
@@ -31,7 +31,7 @@ public:
     /// @brief Checks if the task has been completed.
     /// @return True if the task is completed, otherwise false.
     bool is_completed() const noexcept {
-        return _unfinishedTasks.load(std::memory_order::relaxed) == 0;
+        return _unfinishedTasks.load(std::memory_order::acquire) == 0;
     }
 
     /// @brief Retrieves the parent task if it exists.
@@ -42,10 +42,12 @@ public:
 
 private:
     void finish() {
-        _unfinishedTasks.fetch_sub(1, std::memory_order::relaxed);
+        // Once completed, this task may be reused by the thread that owns it
+        auto* parent = _parent;
 
-        if (is_completed() && _parent) {
-            _parent->finish();
+        // Only the call that completes the task finishes its parent
+        if (_unfinishedTasks.fetch_sub(1, std::memory_order::acq_rel) == 1 && parent) {
+            parent->finish();
         }
     }
 
-- 
2.43.0


From de96d2c2db3454fe987d905024b64b5e7ff2e80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:04 +0000
Subject: [PATCH 25/43] fix: order the destruction of tasks at thread exit
 after their execution

---
 include/co_ecs/thread_pool/thread_pool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/thread_pool/thread_pool.hpp b/include/co_ecs/thread_pool/thread_pool.hpp
index f97b153..263862c 100644
--- a/include/co_ecs/thread_pool/thread_pool.hpp
+++ b/include/co_ecs/thread_pool/thread_pool.hpp
@@ -132,7 +132,7 @@ public:
         }
 
         void stop() {
-            _active.store(false, std::memory_order::relaxed);
+            _active.store(false, std::memory_order::release);
         }
 
         void join() {
@@ -142,7 +142,7 @@ public:
         }
 
         auto is_active() const noexcept -> bool {
-            return _active.load(std::memory_order::relaxed);
+            return _active.load(std::memory_order::acquire);
         }
 
         [[nodiscard]] task_t* get_task() {
-- 
2.43.0


From 76c5bbe6ad33fefdc6db031d4f9f18b4c247228e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:42 +0000
Subject: [PATCH 26/43] fix: keep tasks in use out of the ring of task slots

---
 include/co_ecs/thread_pool/task.hpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/thread_pool/task.hpp b/include/co_ecs/thread_pool/task.hpp
index ead8600..66d5e5e 100644
--- a/include/co_ecs/thread_pool/task.hpp
+++ b/include/co_ecs/thread_pool/task.hpp
@@ -1,8 +1,11 @@
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <atomic>
 #include <functional>
+#include <memory>
+#include <vector>
 
 namespace co_ecs {
 
@@ -60,7 +63,7 @@ private:
 /// explicitly.
 class task_pool {
 public:
-    /// @brief Maximum number of tasks that can exist at any given time per worker.
+    /// @brief Number of tasks the circular buffer grows by when all tasks of a worker are in use.
     constexpr static std::size_t max_tasks = 4096;
 
     /// @brief Allocates a task with the specified function and parent, placing it in a circular buffer.
@@ -68,15 +71,32 @@ public:
     /// @param parent Optional pointer to a parent task.
     /// @return Pointer to the newly allocated task.
     static task_t* allocate(auto&& func, task_t* parent = nullptr) {
-        auto& task = _tasks_array[_task_counter++ & (max_tasks - 1)];
+        auto& task = next_slot(parent);
         task.~task_t();
         new (&task) task_t(std::forward<decltype(func)>(func), parent);
         return &task;
     }
 
 private:
-    static inline thread_local std::size_t _task_counter;                  ///< Counter to index into the tasks array.
-    static inline thread_local std::array<task_t, max_tasks> _tasks_array; ///< Circular buffer of tasks.
+    using tasks_array_t = std::array<task_t, max_tasks>;
+
+    /// @brief Finds a slot for a new task: tasks that are not completed, and the parent, keep theirs.
+    static task_t& next_slot(const task_t* parent) {
+        const auto slots = max_tasks * _tasks_arrays.size();
+        for (std::size_t i = 0; i < std::min(slots, max_tasks); i++) {
+            const auto index = _task_counter++ % slots;
+            auto& task = (*_tasks_arrays[index / max_tasks])[index % max_tasks];
+            if (task.is_completed() && &task != parent) {
+                return task;
+            }
+        }
+        _tasks_arrays.push_back(std::make_unique<tasks_array_t>());
+        _task_counter = slots + 1;
+        return _tasks_arrays.back()->front();
+    }
+
+    static inline thread_local std::size_t _task_counter; ///< Counter to index into the tasks arrays.
+    static inline thread_local std::vector<std::unique_ptr<tasks_array_t>> _tasks_arrays; ///< Circular buffer of tasks.
 };
 
 } // namespace co_ecs
-- 
2.43.0


From ab26fc648f2f8b263678fb7851807794be496961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:42 +0000
Subject: [PATCH 27/43] fix: count unfinished tasks in 32 bits

---
 include/co_ecs/thread_pool/task.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/thread_pool/task.hpp b/include/co_ecs/thread_pool/task.hpp
index 66d5e5e..1bcfff2 100644
--- a/include/co_ecs/thread_pool/task.hpp
+++ b/include/co_ecs/thread_pool/task.hpp
@@ -56,7 +56,7 @@ private:
 
     std::function<void()> _func{};          ///< The function that the task executes.
     task_t* _parent{};                      ///< Optional pointer to the parent task.
-    std::atomic<uint16_t> _unfinishedTasks; ///< Atomic counter for tracking unfinished tasks.
+    std::atomic<uint32_t> _unfinishedTasks; ///< Atomic counter for tracking unfinished tasks.
 };
 
 /// @brief Manages a pool of tasks, allocated from a circular array. Tasks are reused instead of being deallocated
-- 
2.43.0


From 8208de28d77dcf1572265c2a2c75a2b5df1be69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:43 +0000
Subject: [PATCH 28/43] fix: keep the command buffer of a thread until its
 commands have been flushed

---
 include/co_ecs/command.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/co_ecs/command.hpp b/include/co_ecs/command.hpp
index 2b2f671..1e7023f 100644
--- a/include/co_ecs/command.hpp
+++ b/include/co_ecs/command.hpp
@@ -4,8 +4,10 @@
 #include <co_ecs/registry.hpp>
 
 #include <deque>
+#include <memory>
 #include <mutex>
 #include <variant>
+#include <vector>
 
 namespace co_ecs {
 
@@ -18,8 +20,8 @@ public:
     /// @brief Retrieves the thread-local command buffer instance.
     /// @return Reference to the thread-local command buffer.
     static auto get() -> command_buffer& {
-        static thread_local command_buffer buf;
-        return buf;
+        static thread_local const std::shared_ptr<command_buffer> buf = create();
+        return *buf;
     }
 
     /// @brief Flushes all commands in the command buffers to the given registry.
@@ -28,22 +30,29 @@ public:
         registry.sync();
 
         std::lock_guard lk{ _mutex };
-        for (auto* command_buffer : _command_buffers) {
+        for (auto& command_buffer : _command_buffers) {
             command_buffer->play_commands(registry);
         }
+
+        // Threads that have exited do not need their command buffers anymore
+        std::erase_if(_command_buffers, [](const auto& command_buffer) { return command_buffer.use_count() == 1; });
     }
 
 private:
     static inline std::mutex _mutex; ///< Mutex to synchronize access to the command buffers vector.
-    static inline std::vector<command_buffer*>
+    static inline std::vector<std::shared_ptr<command_buffer>>
         _command_buffers; ///< Vector containing all thread-local command buffers.
 
     friend class command_writer;
     friend class command_entity_ref;
 
-    command_buffer() {
+    command_buffer() = default;
+
+    static auto create() -> std::shared_ptr<command_buffer> {
+        std::shared_ptr<command_buffer> buf{ new command_buffer };
         std::lock_guard lk{ _mutex };
-        _command_buffers.push_back(this);
+        _command_buffers.push_back(buf);
+        return buf;
     }
 
     template<typename T>
-- 
2.43.0


From e021521a69f0f499b803980922447fa84ec9fdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:37 +0000
Subject: [PATCH 29/43] fix: run main thread systems once per stage, along with
 a set of systems compatible with them

---
 include/co_ecs/system/stage.hpp | 38 ++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/include/co_ecs/system/stage.hpp b/include/co_ecs/system/stage.hpp
index 1a2b453..01dc9d6 100644
--- a/include/co_ecs/system/stage.hpp
+++ b/include/co_ecs/system/stage.hpp
@@ -73,6 +73,7 @@ public:
     /// @return Unique pointer to the created stage executor.
     auto create_executor(registry& registry, void* user_context = nullptr) -> std::unique_ptr<stage_executor> {
         std::vector<vector_of_executors_t> executors{};
+        std::vector<access_pattern_t> access_patterns{};
 
         while (!_systems.empty()) {
             access_pattern_t access_pattern;
@@ -91,12 +92,28 @@ public:
                 executor_set.emplace_back(std::move(executor));
                 _systems.erase(_systems.begin() + i);
             }
+
+            access_patterns.emplace_back(std::move(access_pattern));
         }
 
-        // Main thread systems
-        vector_of_executors_t main_thread_executors;
+        // Main thread systems, each runs in order along with the first set that is compatible with it
+        std::vector<vector_of_executors_t> main_thread_executors(executors.size());
+        std::size_t set = 0;
         for (auto& system : _main_thread_systems) {
-            main_thread_executors.emplace_back(system->create_executor(registry, user_context));
+            auto executor = system->create_executor(registry, user_context);
+            auto system_access_pattern = executor->access_pattern();
+
+            while (set < executors.size() && !access_patterns[set].allows(system_access_pattern)) {
+                ++set;
+            }
+
+            if (set == executors.size()) {
+                executors.emplace_back();
+                access_patterns.emplace_back();
+                main_thread_executors.emplace_back();
+            }
+
+            main_thread_executors[set].emplace_back(std::move(executor));
         }
 
         return std::make_unique<stage_executor>(_name, std::move(executors), std::move(main_thread_executors));
@@ -141,17 +158,17 @@ public:
     ///
     /// @param name Name of the stage.
     /// @param executor_set Set of system executors.
-    /// @param main_thread_executors Main thread system executors.
+    /// @param main_thread_executors Main thread system executors to run along with each set.
     explicit stage_executor(std::string_view name,
         std::vector<vector_of_executors_t> executor_set,
-        vector_of_executors_t main_thread_executors) :
+        std::vector<vector_of_executors_t> main_thread_executors) :
         _executor_set(std::move(executor_set)), _main_thread_executors(std::move(main_thread_executors)), _name(name) {
     }
 
     /// @brief Runs all systems in the stage.
     void run() {
-        for (auto& executors : _executor_set) {
-            execute_batch(executors);
+        for (std::size_t i = 0; i < _executor_set.size(); i++) {
+            execute_batch(_executor_set[i], _main_thread_executors[i]);
         }
     }
 
@@ -160,8 +177,9 @@ private:
     ///
     /// @tparam WorkBatch Type of the work batch.
     /// @param work_batch The batch of work to be executed.
+    /// @param main_thread_executors The main thread systems to be executed in the meantime.
     template<typename WorkBatch>
-    void execute_batch(WorkBatch&& work_batch) {
+    void execute_batch(WorkBatch&& work_batch, vector_of_executors_t& main_thread_executors) {
         task_t* parent{};
         thread_pool& _thread_pool = thread_pool::get();
 
@@ -173,7 +191,7 @@ private:
         }
 
         // in the meantime execute main thread systems
-        for (auto& executor : _main_thread_executors) {
+        for (auto& executor : main_thread_executors) {
             executor->run();
         }
 
@@ -184,7 +202,7 @@ private:
 
 private:
     std::vector<vector_of_executors_t> _executor_set;
-    vector_of_executors_t _main_thread_executors;
+    std::vector<vector_of_executors_t> _main_thread_executors;
     std::string_view _name;
 };
 
-- 
2.43.0


From 344cde7707c06f192900e44e7987cf0b8d6bb7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:36 +0000
Subject: [PATCH 30/43] fix: give systems with exclusive registry access a set
 of their own

---
 include/co_ecs/system/access.hpp | 2 +-
 include/co_ecs/system/stage.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/system/access.hpp b/include/co_ecs/system/access.hpp
index f3dc4b5..44068a2 100644
--- a/include/co_ecs/system/access.hpp
+++ b/include/co_ecs/system/access.hpp
@@ -42,7 +42,7 @@ public:
     /// @param other The other access pattern to check against.
     /// @return True if this access pattern allows the other, false otherwise.
     [[nodiscard]] auto allows(const access_pattern_t& other) const noexcept -> bool {
-        if ((writes_all() && other.reads_all()) || (reads_all() && !other.reads_all())) {
+        if (writes_all() || other.writes_all() || (reads_all() && !other.reads_all())) {
             return false;
         }
 
diff --git a/include/co_ecs/system/stage.hpp b/include/co_ecs/system/stage.hpp
index 01dc9d6..8e90668 100644
--- a/include/co_ecs/system/stage.hpp
+++ b/include/co_ecs/system/stage.hpp
@@ -83,7 +83,7 @@ public:
                 auto executor = _systems[i]->create_executor(registry, user_context);
                 auto system_access_pattern = executor->access_pattern();
 
-                if (!access_pattern.allows(system_access_pattern)) {
+                if (!executor_set.empty() && !access_pattern.allows(system_access_pattern)) {
                     ++i;
                     continue;
                 }
-- 
2.43.0


From a75c06b34fb4b21a8e48a5e6efe1d851d0928300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:47 +0000
Subject: [PATCH 31/43] fix: let component writes conflict with registry read
 access

---
 include/co_ecs/system/access.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/co_ecs/system/access.hpp b/include/co_ecs/system/access.hpp
index 44068a2..0f78283 100644
--- a/include/co_ecs/system/access.hpp
+++ b/include/co_ecs/system/access.hpp
@@ -52,6 +52,12 @@ public:
             }
         }
 
+        for (auto [component_id, access] : other._component_access) {
+            if (access == access_type::write && reads(component_id)) {
+                return false;
+            }
+        }
+
         return true;
     }
 
-- 
2.43.0


From dee536e67ee9a094d41398a3290fc5b3036db8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 32/43] fix: share the type registry between binaries built
 with hidden visibility

---
 include/co_ecs/component.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/component.hpp b/include/co_ecs/component.hpp
index 196e637..ef3e07e 100644
--- a/include/co_ecs/component.hpp
+++ b/include/co_ecs/component.hpp
@@ -75,8 +75,12 @@ using component_id_t = std::uint32_t;
 /// @brief Invalid component ID
 constexpr auto invalid_component_id = std::numeric_limits<component_id_t>::max();
 
+/// @brief Family used to generate component IDs. Part of the API, otherwise the type registry of the family would have
+/// hidden visibility along with it and would not be shared between binaries.
+struct CO_ECS_API _component_family_t;
+
 /// @brief Type for family used to generated component IDs.
-using component_id = detail::type_id<struct _component_family_t, component_id_t>;
+using component_id = detail::type_id<_component_family_t, component_id_t>;
 
 /// @brief Component concept. The component must be a struct/class that can be move constructed and move
 /// assignable
-- 
2.43.0


From 627f77e0dc7d00fd8b1142172720a58290a0d98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 33/43] fix: keep the names of registered types after the
 binary that registered them is unloaded

---
 include/co_ecs/component.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/component.hpp b/include/co_ecs/component.hpp
index ef3e07e..32d6705 100644
--- a/include/co_ecs/component.hpp
+++ b/include/co_ecs/component.hpp
@@ -6,6 +6,7 @@
 #include <functional>
 #include <numeric>
 #include <stdexcept>
+#include <string>
 
 #include <co_ecs/detail/dynamic_bitset.hpp>
 #include <co_ecs/detail/hash_map.hpp>
@@ -30,7 +31,7 @@ public:
     /// @param type_string Name of the type
     /// @return id_type ID assigned to a type
     CO_ECS_API static auto id(std::string_view type_string) -> id_type {
-        auto [iter, inserted] = get_id_map().emplace(type_string, get_next_id());
+        auto [iter, inserted] = get_id_map().emplace(std::string{ type_string }, get_next_id());
         if (inserted) {
             get_next_id()++;
         }
@@ -40,9 +41,11 @@ public:
 
     /// @brief Get ID mapping
     ///
-    /// @return hash_map<std::string_view, id_type>& Reference to a hash map: name -> ID
-    CO_ECS_API static auto get_id_map() -> hash_map<std::string_view, id_type>& {
-        static hash_map<std::string_view, id_type> id_map{};
+    /// The map keeps its own copies of the names, as a binary that has registered a type may be unloaded.
+    ///
+    /// @return hash_map<std::string, id_type>& Reference to a hash map: name -> ID
+    CO_ECS_API static auto get_id_map() -> hash_map<std::string, id_type>& {
+        static hash_map<std::string, id_type> id_map{};
         return id_map;
     }
 
-- 
2.43.0


From 9efb55b1e7cc18b9e1fded364e9f3014ae350fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:27 +0000
Subject: [PATCH 34/43] fix: tell component types apart by their mangled names

---
 include/co_ecs/component.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/component.hpp b/include/co_ecs/component.hpp
index 32d6705..2d1d9d4 100644
--- a/include/co_ecs/component.hpp
+++ b/include/co_ecs/component.hpp
@@ -7,6 +7,8 @@
 #include <numeric>
 #include <stdexcept>
 #include <string>
+#include <type_traits>
+#include <typeinfo>
 
 #include <co_ecs/detail/dynamic_bitset.hpp>
 #include <co_ecs/detail/hash_map.hpp>
@@ -66,8 +68,12 @@ template<typename Base = void, typename _id_type = std::uint64_t>
 struct type_id {
     using id_type = _id_type;
 
+    /// @brief ID of type T. Types are told apart by their mangled names, as human readable names may leave out what
+    /// distinguishes one type from another: enclosing functions, types of template arguments, digits of floating point values.
+    ///
+    /// @tparam T Type
     template<typename T>
-    inline static const id_type value = type_registry<Base, id_type>::id(type_name<T>());
+    inline static const id_type value = type_registry<Base, id_type>::id(typeid(std::type_identity<T>).name());
 };
 
 } // namespace detail
-- 
2.43.0


From 0ea5567cd5d3d9a54d321c55c2aebc23112edbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:18 +0000
Subject: [PATCH 35/43] fix: have component IDs available during static
 initialization

---
 include/co_ecs/chunk.hpp     |  2 +-
 include/co_ecs/component.hpp | 30 +++++++++++++++++++++---------
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index 0f4987e..9c062bd 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -308,7 +308,7 @@ private:
     template<typename P>
     [[nodiscard]] static inline auto ptr_unchecked_impl(auto&& self, std::size_t index) -> P {
         using component_type = std::remove_const_t<std::remove_pointer_t<P>>;
-        const auto& block = self.get_block(component_id::value<component_type>);
+        const auto& block = self.get_block(component_id::get<component_type>());
         return (reinterpret_cast<P>(self._buffer + block.offset) + index);
     }
 
diff --git a/include/co_ecs/component.hpp b/include/co_ecs/component.hpp
index 2d1d9d4..c1f5e26 100644
--- a/include/co_ecs/component.hpp
+++ b/include/co_ecs/component.hpp
@@ -68,12 +68,24 @@ template<typename Base = void, typename _id_type = std::uint64_t>
 struct type_id {
     using id_type = _id_type;
 
-    /// @brief ID of type T. Types are told apart by their mangled names, as human readable names may leave out what
-    /// distinguishes one type from another: enclosing functions, types of template arguments, digits of floating point values.
+    /// @brief Get ID of type T, also before static initialization has reached the variable below. Types are told apart
+    /// by their mangled names, as human readable names may leave out what distinguishes one type from another: enclosing
+    /// functions, types of template arguments, digits of floating point values.
     ///
     /// @tparam T Type
+    /// @return id_type ID
     template<typename T>
-    inline static const id_type value = type_registry<Base, id_type>::id(typeid(std::type_identity<T>).name());
+    static auto get() -> id_type {
+        static const id_type id = type_registry<Base, id_type>::id(typeid(std::type_identity<T>).name());
+        static_cast<void>(&value<T>); // have the ID assigned before main() starts
+        return id;
+    }
+
+    /// @brief ID of type T
+    ///
+    /// @tparam T Type
+    template<typename T>
+    inline static const id_type value = get<T>();
 };
 
 } // namespace detail
@@ -164,7 +176,7 @@ public:
     template<component T>
     static auto of() noexcept -> component_meta {
         return component_meta{
-            component_id::value<T>,
+            component_id::get<T>(),
             type_meta::of<T>(),
         };
     }
@@ -211,7 +223,7 @@ public:
     /// @tparam T Component type
     template<component T>
     void insert() {
-        insert(component_id::value<T>);
+        insert(component_id::get<T>());
     }
 
     /// @brief Erase component of type T
@@ -219,7 +231,7 @@ public:
     /// @tparam T Component type
     template<component T>
     void erase() {
-        erase(component_id::value<T>);
+        erase(component_id::get<T>());
     }
 
     /// @brief Check if component of type T is present in the set
@@ -229,7 +241,7 @@ public:
     /// @return false When component type T is not present
     template<component T>
     [[nodiscard]] auto contains() const -> bool {
-        return contains(component_id::value<T>);
+        return contains(component_id::get<T>());
     }
 
     /// @brief Inserts component into the set
@@ -318,7 +330,7 @@ public:
     /// @tparam T Component type
     template<component T>
     constexpr void erase() {
-        erase(component_id::value<T>);
+        erase(component_id::get<T>());
     }
 
     /// @brief Check if component of type T is present in the set
@@ -328,7 +340,7 @@ public:
     /// @return false When component type T is not present
     template<component T>
     [[nodiscard]] auto contains() const -> bool {
-        return contains(component_id::value<T>);
+        return contains(component_id::get<T>());
     }
 
     /// @brief Inserts component into the set
-- 
2.43.0


From c9e76ca937b153a1d21f2edb8d4f2a7108c6088d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:19 +0000
Subject: [PATCH 36/43] fix: export the type registry as a whole, as
 -fvisibility-inlines-hidden overrides the visibility of its functions

---
 include/co_ecs/component.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/component.hpp b/include/co_ecs/component.hpp
index c1f5e26..92d08be 100644
--- a/include/co_ecs/component.hpp
+++ b/include/co_ecs/component.hpp
@@ -24,7 +24,7 @@ namespace detail {
 /// @tparam Type it is parametrized over
 /// @tparam _id_type Type used for IDs
 template<typename = void, typename _id_type = std::uint64_t>
-class type_registry {
+class CO_ECS_API type_registry {
 public:
     using id_type = _id_type;
 
@@ -32,7 +32,7 @@ public:
     ///
     /// @param type_string Name of the type
     /// @return id_type ID assigned to a type
-    CO_ECS_API static auto id(std::string_view type_string) -> id_type {
+    static auto id(std::string_view type_string) -> id_type {
         auto [iter, inserted] = get_id_map().emplace(std::string{ type_string }, get_next_id());
         if (inserted) {
             get_next_id()++;
@@ -46,7 +46,7 @@ public:
     /// The map keeps its own copies of the names, as a binary that has registered a type may be unloaded.
     ///
     /// @return hash_map<std::string, id_type>& Reference to a hash map: name -> ID
-    CO_ECS_API static auto get_id_map() -> hash_map<std::string, id_type>& {
+    static auto get_id_map() -> hash_map<std::string, id_type>& {
         static hash_map<std::string, id_type> id_map{};
         return id_map;
     }
@@ -54,7 +54,7 @@ public:
     /// @brief Get next free ID
     ///
     /// @return id_type& Next ID value
-    CO_ECS_API static auto get_next_id() -> id_type& {
+    static auto get_next_id() -> id_type& {
         static id_type next_id{};
         return next_id;
     }
-- 
2.43.0


From 8c18260fafdfe7a31f098f1158be1cc85d6be70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:23 +0000
Subject: [PATCH 37/43] fix: give const access to components through a const
 entity_ref

---
 include/co_ecs/entity_ref.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/entity_ref.hpp b/include/co_ecs/entity_ref.hpp
index 6a24101..ca7ac4e 100644
--- a/include/co_ecs/entity_ref.hpp
+++ b/include/co_ecs/entity_ref.hpp
@@ -2,6 +2,8 @@
 
 #include <co_ecs/base_registry.hpp>
 
+#include <utility>
+
 namespace co_ecs {
 
 /// @brief Represents a reference to an entity within a registry.
@@ -97,7 +99,7 @@ public:
     /// @endcode
     template<component C>
     [[nodiscard]] constexpr auto get() const -> const C& {
-        return std::get<0>(base_registry::template get_impl<C>(_registry.get(), _entity));
+        return std::get<0>(base_registry::template get_impl<C>(std::as_const(_registry.get()), _entity));
     }
 
     /// @brief Retrieves multiple components from the underlying registry for the current entity.
@@ -132,7 +134,7 @@ public:
     /// @return A tuple containing the requested components.
     template<component C, component O, component... Args>
     [[nodiscard]] constexpr auto get() const -> decltype(auto) {
-        return base_registry::template get_impl<C, O, Args...>(_registry.get(), _entity);
+        return base_registry::template get_impl<C, O, Args...>(std::as_const(_registry.get()), _entity);
     }
 
     /// @brief Get reference to component C, or insert it with provided arguments if not present.
-- 
2.43.0


From 99ec84fd0ede043630653b7b7642b0e36f4b268c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:32 +0000
Subject: [PATCH 38/43] fix: access through the handle a free ID is given next
 raised the wrong exception

Such a handle (forged, or of another registry) and the one a clone is about
to be given are known to the pool but no entity has them: entity_not_found.
---
 include/co_ecs/base_registry.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/base_registry.hpp b/include/co_ecs/base_registry.hpp
index 8b23ed7..7dff4c0 100644
--- a/include/co_ecs/base_registry.hpp
+++ b/include/co_ecs/base_registry.hpp
@@ -273,7 +273,8 @@ protected:
 
 private:
     constexpr void ensure_alive(const entity& ent) const {
-        if (!alive(ent)) {
+        // A handle may be known to the pool while there is no entity yet (reserved, or what a free ID is given next)
+        if (!alive(ent) || !_entity_archetype_map.contains(ent.id())) {
             throw entity_not_found{ ent };
         }
     }
-- 
2.43.0


From bbd088c73e6eeccbc5b67377e622a649611029ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:33 +0000
Subject: [PATCH 39/43] fix: a worker could end while others still executed its
 tasks

Tasks live in storage of the thread that submitted them; when the pool was
destroyed with tasks nobody waits for, a thread that had stolen such a task
executed it after the storage was gone.
---
 include/co_ecs/thread_pool/thread_pool.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/thread_pool/thread_pool.hpp b/include/co_ecs/thread_pool/thread_pool.hpp
index 263862c..ce46722 100644
--- a/include/co_ecs/thread_pool/thread_pool.hpp
+++ b/include/co_ecs/thread_pool/thread_pool.hpp
@@ -3,6 +3,7 @@
 #include <co_ecs/detail/work_stealing_queue.hpp>
 #include <co_ecs/thread_pool/task.hpp>
 
+#include <latch>
 #include <random>
 #include <semaphore>
 #include <thread>
@@ -125,6 +126,9 @@ public:
                     break;
                 }
             }
+
+            // Tasks live as long as the thread that submitted them, others may still execute the ones they have stolen
+            _pool._workers_done.arrive_and_wait();
         }
 
         void start() {
@@ -214,7 +218,8 @@ public:
 
     /// @brief Construct thread pool with num_workers workers
     /// @param num_workers The number of workers to create
-    thread_pool(std::size_t num_workers = std::thread::hardware_concurrency()) {
+    thread_pool(std::size_t num_workers = std::thread::hardware_concurrency()) :
+        _workers_done(static_cast<std::ptrdiff_t>(num_workers) - 1) {
         assert(num_workers > 0 && "Number of workers should be > 0");
         _workers.reserve(num_workers);
 
@@ -336,6 +341,7 @@ private:
 
     std::vector<std::unique_ptr<worker>> _workers;
     std::counting_semaphore<> _worker_wait_semaphore{ 0 };
+    std::latch _workers_done;
 };
 
 } // namespace co_ecs
-- 
2.43.0


From 30ef0a7fea1be725c4a7af2d30ef4059ed99de95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:51 +0000
Subject: [PATCH 40/43] fix: keep the systems of a stage when it creates an
 executor

A second create_executor of the same schedule returned an executor with the
main thread systems only: the first one had taken the other systems out of
their stages.
---
 include/co_ecs/system/stage.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/system/stage.hpp b/include/co_ecs/system/stage.hpp
index 8e90668..088bdaa 100644
--- a/include/co_ecs/system/stage.hpp
+++ b/include/co_ecs/system/stage.hpp
@@ -75,12 +75,18 @@ public:
         std::vector<vector_of_executors_t> executors{};
         std::vector<access_pattern_t> access_patterns{};
 
-        while (!_systems.empty()) {
+        // The stage keeps its systems, so that it can create other executors
+        std::vector<system_interface*> systems{};
+        for (auto& system : _systems) {
+            systems.emplace_back(system.get());
+        }
+
+        while (!systems.empty()) {
             access_pattern_t access_pattern;
             vector_of_executors_t& executor_set = executors.emplace_back();
 
-            for (size_t i = 0; i < _systems.size();) {
-                auto executor = _systems[i]->create_executor(registry, user_context);
+            for (size_t i = 0; i < systems.size();) {
+                auto executor = systems[i]->create_executor(registry, user_context);
                 auto system_access_pattern = executor->access_pattern();
 
                 if (!executor_set.empty() && !access_pattern.allows(system_access_pattern)) {
@@ -90,7 +96,7 @@ public:
 
                 access_pattern &= system_access_pattern;
                 executor_set.emplace_back(std::move(executor));
-                _systems.erase(_systems.begin() + i);
+                systems.erase(systems.begin() + i);
             }
 
             access_patterns.emplace_back(std::move(access_pattern));
-- 
2.43.0


From 965a25f18b95ebfd3f1b92c2304b27e24c828e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:19 +0000
Subject: [PATCH 41/43] fix: keep a sparse map that is move assigned to itself
 valid

Its size did not change, but its elements were gone: lookups then read past
the end of the element storage.
---
 include/co_ecs/detail/sparse_table.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/detail/sparse_table.hpp b/include/co_ecs/detail/sparse_table.hpp
index 36c476a..1182903 100644
--- a/include/co_ecs/detail/sparse_table.hpp
+++ b/include/co_ecs/detail/sparse_table.hpp
@@ -54,10 +54,12 @@ public:
     /// @param rhs Sparse container to move from
     /// @return Container data from rhs moved to
     constexpr auto operator=(sparse_table&& rhs) noexcept -> sparse_table& {
-        _dense = std::move(rhs._dense);
-        _sparse = std::move(rhs._sparse);
-        _size = std::exchange(rhs._size, 0);
-        _sparse_capacity = std::exchange(rhs._sparse_capacity, 0);
+        if (this != &rhs) {
+            _dense = std::move(rhs._dense);
+            _sparse = std::move(rhs._sparse);
+            _size = std::exchange(rhs._size, 0);
+            _sparse_capacity = std::exchange(rhs._sparse_capacity, 0);
+        }
         return *this;
     }
 
-- 
2.43.0


From ecb3fd09cc0ecb5609fa87ea41627e39610158ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:58 +0000
Subject: [PATCH 42/43] fix: have a task wait again for a parent that a further
 child reopens

A child added to a task that was already completed finished that task a second
time, and with it the task's own parent once too often: the parent was then
completed while it, or others of its children, were still running.
---
 include/co_ecs/thread_pool/task.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/thread_pool/task.hpp b/include/co_ecs/thread_pool/task.hpp
index 1bcfff2..f843b92 100644
--- a/include/co_ecs/thread_pool/task.hpp
+++ b/include/co_ecs/thread_pool/task.hpp
@@ -21,7 +21,7 @@ public:
     task_t(auto&& func, task_t* parent = nullptr) : _func(std::forward<decltype(func)>(func)), _parent(parent) {
         _unfinishedTasks.store(1, std::memory_order::relaxed);
         if (_parent) {
-            _parent->_unfinishedTasks.fetch_add(1, std::memory_order::relaxed);
+            _parent->add_unfinished();
         }
     }
 
@@ -44,6 +44,13 @@ public:
     }
 
 private:
+    void add_unfinished() {
+        // A task that was completed before has finished its parent, which has to wait for it again
+        if (_unfinishedTasks.fetch_add(1, std::memory_order::relaxed) == 0 && _parent) {
+            _parent->add_unfinished();
+        }
+    }
+
     void finish() {
         // Once completed, this task may be reused by the thread that owns it
         auto* parent = _parent;
-- 
2.43.0


From a3119b4f6fc8a8e8a21d54fb9ed05b1549053e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:42 +0000
Subject: [PATCH 43/43] fix: have stages own the systems added as const lvalues

They kept a reference to a function object passed as a const lvalue, which was
used after its end.
---
 include/co_ecs/system/stage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/system/stage.hpp b/include/co_ecs/system/stage.hpp
index 088bdaa..cc4fa32 100644
--- a/include/co_ecs/system/stage.hpp
+++ b/include/co_ecs/system/stage.hpp
@@ -133,7 +133,7 @@ private:
     /// @return Unique pointer to the system interface.
     template<typename F>
     static auto into_system_interface(F&& func) -> std::unique_ptr<system_interface> {
-        return std::make_unique<system<F>>(std::forward<F>(func));
+        return std::make_unique<system<std::decay_t<F>>>(std::forward<F>(func));
     }
 
     /// @brief Converts a unique pointer to a system to a system interface.
-- 
2.43.0

